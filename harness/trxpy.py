"""Runs scripts of session operations on the Python bindings (package trax of the current tree, on PYTHONPATH).
Same literals and observations as trxh.cpp; an exception is an answer of -1 with its text as the reason."""
import fcntl, gc, json, os, select, socket, sys, threading, signal
import numpy as np
import trax
from trax.client import Client
from trax.image import ImageChannel
TRACKER = sys.argv[1] == "--tracker"
if not TRACKER:
    real = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)

def H(b):
    if b is None: return "~"
    if isinstance(b, str): b = b.encode("utf8")
    return bytes(b).hex() or "-"
def U(t):
    if t == "~": return None
    return b"" if t == "-" else bytes.fromhex(t)
def S(t):
    b = U(t); return None if b is None else b.decode("utf8")
def num(x): return "%.9g" % x
def out(**o): real.write(json.dumps(o) + "\n"); real.flush()

CH = ["color", "depth", "ir"]
VAL = {"0": 0, "1": 1, "2": 255, "3": 2, "4": 128}

def region(t):
    f = t.split(":")
    if t[0] == "S": return trax.Special.create(int(f[1]))
    if t[0] == "R": return trax.Rectangle.create(*[float(x) for x in f[1:5]])
    if t[0] == "G":
        c = [float(x) for x in f[1:]]
        return trax.Polygon.create([(c[i], c[i + 1]) for i in range(0, len(c), 2)])
    x, y, w, h = [int(v) for v in f[1:5]]
    a = np.array([VAL[c] for c in f[5]], dtype=np.uint8).reshape((h, w))
    layout = f[6] if len(f) > 6 else "c"
    if layout == "f": a = np.asfortranarray(a)
    if layout == "s":
        big = np.full((h * 2, w * 3), 7, dtype=np.uint8); big[::2, ::3] = a; a = big[::2, ::3]
    if layout == "r": a = np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    return trax.Mask.create(a, x, y)

def region_out(r):
    if r is None: return "~"
    if r.type == "special": return "S:%d" % r.code
    if r.type == "rectangle": return "R:" + ":".join(num(v) for v in r.bounds())
    if r.type == "polygon":
        pts = list(r); assert pts == [r[i] for i in range(r.size())] == [r.get(i) for i in range(r.size())]
        return "G:" + ":".join(num(v) for p in pts for v in p)
    a = r.array(); w, h = r.size(); x, y = r.offset()
    assert a.shape == (h, w)
    if x >= 0 and y >= 0:
        n = r.array(normalize=True)
        assert n.shape == (h + y, w + x) and np.array_equal(n[y:, x:], a) and not n[:y].any() and not n[:, :x].any()
    return "K:%d:%d:%d:%d:%s" % (x, y, w, h, "".join("1" if v else "0" for v in a.reshape(-1)))

def image(t):
    f = t.split(":")
    if t == "~": return None
    if t[0] == "P": return trax.FileImage.create(S(f[1]))
    if t[0] == "U": return trax.URLImage.create(S(f[1]))
    if t[0] == "B": return trax.BufferImage.create(U(f[1]))
    w, h, m = [int(v) for v in f[1:4]]
    d = np.frombuffer(U(f[4]), dtype=np.uint16 if m == 2 else np.uint8)
    a = d.reshape((h, w, 3)) if m == 3 else d.reshape((h, w)) if (w + h) % 2 else d.reshape((h, w, 1))
    if (w * h) % 3 == 1: a = np.asfortranarray(a)
    return trax.MemoryImage.create(a)

def image_out(i):
    if i is None: return "~"
    k = i.type()
    if k == "path": assert i.path() in str(i) or not i.path().isascii() or not i.path().isprintable() or "'" in i.path() or "\\" in i.path(); return "P:" + H(i.path())
    if k == "url": return "U:" + H(i.url())
    if k == "buffer":
        b = i.buffer(); s = str(i)
        return "B%d:%s" % (1 if "png" in s else 2 if "jpeg" in s else 0, H(b))
    a = i.array(); m = 3 if a.shape[2] == 3 else 2 if a.dtype == np.uint16 else 1
    assert "%dx%d" % (a.shape[1], a.shape[0]) in str(i)
    return "M:%d:%d:%d:%s" % (a.shape[1], a.shape[0], m, H(a.tobytes()))

def images_out(l):
    if l is None: return "~"
    return ",".join(image_out(l.get(c)) for c in CH)
def images(t): return {c: image(x) for c, x in zip(CH, t.split(",")) if x != "~"}
def props(t):
    if t == "~": return None
    if t == "-": return {}
    return {S(kv.split("=")[0]): S(kv.split("=")[1]) for kv in t.split("&")}
def props_out(p):
    if p is None: return "~"
    if not isinstance(p, dict):
        q = p.dict()
        for k, v in q.items(): assert p.get(k) == v == p[k]
        p = q
    return "&".join(H(k) + "=" + H(v) for k, v in sorted(p.items(), key=lambda e: e[0].encode("utf8"))) or "-"
def objects(t):
    if t in ("~", "-"): return None if t == "~" else []
    return [(region(x.split("|")[0]), props(x.split("|")[1])) for x in t.split(";")]
def objects_out(l):
    if l is None: return "~"
    return ";".join(region_out(r) + "|" + props_out(p) for r, p in l) or "-"

class End:
    """One handle with the channel to its peer, which is this script."""
    def __init__(self, how):
        self.how = how; self.h = None; self.conn = None; self.kept = []
        if how == "f":
            self.lr, self.pw = os.pipe(); self.pr, self.lw = os.pipe()
            for f in (self.pw, self.pr): fcntl.fcntl(f, 1031, 1 << 20)
            fcntl.fcntl(self.pr, fcntl.F_SETFL, os.O_NONBLOCK)
        else:
            self.l = socket.socket(); self.l.bind(("127.0.0.1", 0)); self.l.listen(1)
    def accept(self):
        if self.how == "t": self.conn = self.l.accept()[0]
    def feed(self, d):
        if self.how == "f":
            while d: d = d[os.write(self.pw, d):]
        else: self.conn.sendall(d)
    def eof(self):
        if self.how == "f": os.close(self.pw); self.pw = None
        else:
            try: self.conn.shutdown(socket.SHUT_WR)
            except OSError: pass
    def drain(self):
        r = b""
        if self.how == "t":
            if not self.conn: return r
            while select.select([self.conn], [], [], 0.02 if not r else 0)[0]:
                try: d = self.conn.recv(65536)
                except ConnectionResetError: break      # the other side left without reading everything
                if not d: break
                r += d
            return r
        while True:
            try: d = os.read(self.pr, 65536)
            except BlockingIOError: break
            if not d: break
            r += d
        return r
    def close(self):
        self.h = None; self.kept = []; gc.collect()
        for f in ("lr", "pw", "pr", "lw") if self.how == "f" else ():
            if getattr(self, f, None) is not None:
                try: os.close(getattr(self, f))
                except OSError: pass
        if self.how == "t":
            if self.conn: self.conn.close()
            self.l.close()

E = {}
def call(op, e, f):
    o = {"op": op}
    try:
        o.update(f()); o["err"] = "~"
    except Exception as x:
        if isinstance(x, AssertionError) and not isinstance(x, trax.TraxException): o["assert"] = 1
        o.update({"r": -1, "err": H(str(x) or type(x).__name__), "cls": type(x).__name__})
    o["alive"] = 1 if e.h is not None and getattr(e.h, "_handle", None) is not None and trax._ctypes.trax_is_alive(e.h._handle.reference) else 0
    for k in ("images", "objects", "props"):
        if op in ("swait", "ccall"): o.setdefault(k, "~")
    out(**o)

def run(a):
    op = a[0]
    if op == "sset":      # id how ver formats images channels multi name desc family custom
        e = E[a[1]] = End(a[2])
        for k in ("TRAX_IN", "TRAX_OUT", "TRAX_SOCKET"): os.environ.pop(k, None)
        if a[2] == "f": os.environ["TRAX_IN"] = str(e.lr); os.environ["TRAX_OUT"] = str(e.lw)
        else: os.environ["TRAX_SOCKET"] = str(e.l.getsockname()[1])
        rf, imf, ch, m = [int(x) for x in a[4:8]]
        def f():
            kw = {}
            if a[8] != "~": kw["tracker_name"] = S(a[8])
            if a[9] != "~": kw["tracker_description"] = S(a[9])
            if a[10] != "~": kw["tracker_family"] = S(a[10])
            if a[11] != "~": kw["metadata"] = props(a[11])
            if len(a) > 12 and a[12] != "-": kw["log"] = S(a[12])
            e.h = trax.Server([r for i, r in enumerate(["special", "rectangle", "polygon", "mask"]) if rf >> i & 1],
                              [r for i, r in enumerate(["path", "url", "memory", "buffer"]) if imf >> i & 1],
                              [c for i, c in enumerate(CH) if ch >> i & 1], multiobject=bool(m), **kw)
            return {"r": 0}
        e.f = f
        try: f(); ok = 1; err = "~"
        except Exception as x: ok = 0; err = H("%s: %s" % (type(x).__name__, x))
        e.accept()
        return out(op=op, ok=ok, err=err)
    if op == "open": E[a[1]] = End(a[3]); return
    if op == "cset":      # the greeting of the tracker has been fed
        e = E[a[1]]
        try:
            log = False
            if len(a) > 2 and a[2] == "log": e.log = []; log = e.log.append
            if e.how == "f": e.h = Client((e.lw, e.lr), log=log)
            c = e.h
            return out(op=op, ok=1, err="~", rf=sorted(c.region_formats), imf=sorted(c.image_formats), ch=c.channels, name=H(c.tracker_name), desc=H(c.tracker_description), family=H(c.tracker_family),
                       multi=bool(c.get("multiobject")), custom=props_out({k: v for k, v in c._custom.items() if k != "multiobject"}))
        except Exception as x: return out(op=op, ok=0, err=H("%s: %s" % (type(x).__name__, x)))
    if op == "feed":
        try: E[a[1]].feed(U(a[2]))
        except OSError: pass        # the other side is gone
        return
    if op == "eof": return E[a[1]].eof()
    if op == "drain": return out(op=op, d=H(E[a[1]].drain()))
    if op in ("rchunk", "wchunk"): return
    if op == "gc": gc.collect(); return
    if op == "kept":      # everything that was received and kept still shows what it showed
        e = E[a[1]]
        return out(op=op, v=["%s %s %s" % (images_out(q.image), objects_out(q.objects), props_out(q.properties)) for q in e.kept])
    if op == "swait":
        e = E[a[1]]
        def f():
            q = e.h.wait()
            if len(a) > 3 and a[3] == "keep": e.kept.append(q)
            return {"r": {"initialize": 2, "frame": 3, "quit": 4}.get(q.type, 99), "images": images_out(q.image), "objects": objects_out(q.objects), "props": props_out(q.properties)}
        return call(op, e, f)
    if op == "sreply":    # id objects [props]
        e = E[a[1]]
        def f():
            ob = objects(a[2])
            if len(a) > 3 and a[3] == "echo": ob = [(x[0], y[1]) for x, y in zip(e.kept[-1].objects, ob)] if e.kept and e.kept[-1].objects and len(e.kept[-1].objects) == len(ob) else ob
            p = props(a[4]) if len(a) > 4 else None
            return {"r": 0 if e.h.status(ob, p) else -2} if p is not None else {"r": 0 if e.h.status(ob) else -2}
        return call(op, e, f)
    if op in ("cinit", "cframe"):      # id images objects props
        e = E[a[1]]
        def f():
            im, ob, p = images(a[2]), objects(a[3]), props(a[4])
            if op == "cinit": st, t = e.h.initialize(im, ob, p if p is not None else {})
            elif ob is None: st, t = e.h.frame(im, p) if p is not None else e.h.frame(im)
            else: st, t = e.h.frame(im, p if p is not None else {}, ob)
            assert 0 <= t < 60
            return {"r": 5, "objects": objects_out(st)}
        return call("ccall", e, f)
    if op == "term":
        e = E[a[1]]
        def f():
            r = S(a[2])
            if r is None: e.h.quit()
            else: e.h.quit(r)
            return {"r": 0}
        return call(op, e, f)
    if op == "leave":     # leaving a "with" block
        e = E[a[1]]
        def f():
            if a[2] == "~":
                with e.h: pass
            else:
                try:
                    with e.h: raise ValueError(S(a[2]))
                except ValueError: pass
            return {"r": 0}
        return call(op, e, f)
    if op == "log": e = E[a[1]]; return out(op=op, d=H("".join(e.log)))
    if op == "clean":
        e = E[a[1]]; e.h = None; gc.collect()
        return out(op=op, null=1, r=0)
    sys.stderr.write("unknown op %s\n" % op); os._exit(97)

lock = threading.Lock(); timer = [None]
def hang():
    real.write('{"hang":1}\n'); real.flush(); os._exit(98)
def main():
    alarm = int(sys.argv[2]) if len(sys.argv) > 2 else 20
    signal.signal(signal.SIGPIPE, signal.SIG_IGN)
    cid = None
    for line in open(sys.argv[1]):
        line = line.rstrip("\n")
        if not line: continue
        if line.startswith("B "):
            cid = line[2:]; out(B=cid)
            timer[0] = threading.Timer(alarm, hang); timer[0].daemon = True; timer[0].start()
        elif line == "E":
            for e in list(E.values()): e.close()
            E.clear(); gc.collect(); timer[0].cancel()
            out(E=cid, live=0)
        else: run(line.split(" "))
def tracker():
    """A tracker: replies as planned, writes down what it was asked."""
    plan = open(os.environ["TRK_PLAN"]).read().split("\n")[:-1]
    log = open(os.environ["TRK_LOG"], "a", buffering=1)
    with trax.Server(["special", "rectangle", "polygon", "mask"], ["path", "url", "memory", "buffer"], [c for i, c in enumerate(CH) if int(os.environ["TRK_CHANNELS"]) >> i & 1],
                     tracker_name=S(os.environ["TRK_NAME"]), tracker_description=S(os.environ["TRK_NAME"]), multiobject=os.environ["TRK_MULTI"] == "1") as s:
        while True:
            q = s.wait()
            log.write("%s %s %s %s\n" % (q.type, images_out(q.image), objects_out(q.objects), props_out(q.properties)))
            if q.type == "quit": break
            s.status(objects(plan.pop(0)))

if TRACKER: tracker()
else:
    main()
    os._exit(0)
