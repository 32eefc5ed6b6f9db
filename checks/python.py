"""P25: the Python bindings (spec/Session.tla, spec/Setup.tla)."""
import base64, os, random, re
from vlib import build, gen, oracle, proc, session, tlc
from vlib.core import Case, H, U
LEVEL = "model_checking"
CH = session.CH

# ---- texts are what Python can express
def utf8(b): return b.decode("latin-1").encode("utf8")
class PyBind(session.Bind):
    def img(self, i):
        if i not in self.map:
            old = gen.rbytes; gen.rbytes = lambda *a: utf8(old(*a))
            try: session.Bind.img(self, i)
            finally: gen.rbytes = old
        return self.map[i]
    def props(self, i):
        if i == "none": return gen.Props()
        if i not in self.map: self.map[i] = gen.Props((k, utf8(v)) for k, v in session.Bind.props(self, i).items())
        return self.map[i]
    def reg_in(self, i):
        """Literal for the script: masks in various memory layouts."""
        l = self.reg(i).lit
        return l + ":" + self.rng.choice("cfsr") if l[0] == "K" else l

# ---- what went over the wire, as literals
def unwire(d):
    """[(type, args, props)] of raw bytes of whole messages."""
    out = []
    for l in d.split(b"\n")[:-1]:
        assert l.startswith(b"@@TRAX:"), l
        t, rest = (l[7:].split(b" ", 1) + [b""])[:2]
        toks = []; i = 0
        while i < len(rest):
            if rest[i:i + 1] == b" ": i += 1; continue
            assert rest[i:i + 1] == b'"', l
            i += 1; cur = b""
            while rest[i:i + 1] != b'"':
                c = rest[i:i + 1]; assert c, l
                if c == b"\\": i += 1; c = {b"n": b"\n"}.get(rest[i:i + 1], rest[i:i + 1])
                cur += c; i += 1
            i += 1; toks.append(cur)
        args, props = [], gen.Props()
        for x in toks:
            m = re.match(rb"([A-Za-z0-9._]{1,64})=(.*)\Z", x, re.S)
            if m: props[m.group(1)] = m.group(2)
            else: args.append(x)
        out.append((t.lower().decode(), args, props))
    return out
def reg_lit(t):
    t = t.decode()
    if t.startswith("mask:"):
        v = [int(x) for x in t[5:].split(",")]; x, y, w, h = v[:4]; bits = ""; c = "0"
        for n in v[4:]: bits += c * n; c = "1" if c == "0" else "0"
        return "K:%d:%d:%d:%d:%s" % (x, y, w, h, (bits + "0" * (w * h))[:w * h])
    v = [gen.num(float(x)) for x in t.split(",")]
    return ("S:" if len(v) == 1 else "R:" if len(v) == 4 else "G:") + ":".join(v)
def img_lit(t):
    m = re.match(rb"image:(\d+);(\d+);(\w+);(.*)\Z", t, re.S)
    if m: return "M:%d:%d:%d:%s" % (int(m.group(1)), int(m.group(2)), {b"gray8": 1, b"gray16": 2, b"rgb": 3}[m.group(3)], H(base64.b64decode(m.group(4))))
    m = re.match(rb"data:image/(\w+);(?:base64,)?(.*)\Z", t, re.S)
    if m: return "B%d:%s" % ({b"png": 1, b"jpeg": 2}[m.group(1)], H(base64.b64decode(m.group(2))))
    if t.startswith(b"file://"): return "P:" + H(t[7:])
    return "U:" + H(t)
def msg_lit(m):
    t, args, props = m
    t = {"status": "state"}.get(t, t)
    a = [reg_lit(x) if t == "state" or t == "initialize" and re.match(rb"mask:[-\d]|[-\d.,]+\Z", x) else img_lit(x) for x in args]
    return "%s[%s]{%s}" % (t, " ".join(a), props.out())

def sent_check(want):
    """Bytes sent by the call: exactly these messages."""
    def f(o):
        try: got = [msg_lit(m) for m in unwire(U(o["d"]))]
        except Exception as e: return "sent what is no message: %r (%s)" % (U(o["d"])[:200], e)
        if U(o["d"]) and not U(o["d"]).endswith(b"\n"): return "sent an incomplete message"
        if got != want: return "sent %s instead of %s" % (got, want)
    return f

def log_check(log, sent, fed):
    """The log shows what was sent, in order, between what was read."""
    tx = lambda b: b.decode("utf8", "replace").encode("utf8")
    try: fed.decode("utf8")
    except UnicodeDecodeError: return None
    for c in sent:
        if not c: continue
        for i in range(len(fed) + 1):
            if log[i:].startswith(c) and fed.startswith(log[:i]): break
        else: return "the log shows %r, sent %r, available %r" % (log[:300], c[:200], fed[:200])
        log = log[i + len(c):]; fed = fed[i:]
    if not fed.startswith(log): return "the log ends with %r, available was %r" % (log[-300:], fed[:300])

NAMES = ["abc", "A tracker", "-", "q\"uo\\te", "späť"]
def make_case(id, cfg, hist, rng, tcp):
    """A script for the server or the client of the bindings and the judge of what it observes."""
    b = PyBind(rng, cfg, {}); mode, nch, multi = cfg["mode"], cfg["nch"], cfg["multi"]
    if mode == "server": iff, b.kinds, odd = session.announced(rng, hist)
    chmask = (1 << nch) - 1
    if nch == 1 and cfg["ver"] > 1 and rng.random() < .3: chmask = rng.choice([2, 4])
    if nch == 2 and rng.random() < .5: chmask = rng.choice([5, 6])
    chans = [i for i in range(3) if chmask & CH[i]]
    ops, checks, shown = [], [], []
    def op(l, c): ops.append(l); checks.append(c); shown.append(l)
    def skip(o): return None
    S = "2"; eof = False; dead = False; kept = []
    def imgs_out(ids):
        full = ["~"] * 3
        for k, i in zip(chans, ids): full[k] = b.img(i).out
        return ",".join(full)
    def objs_out(objs): return ";".join(b.reg(r).out + "|" + b.props(p).out() for r, p in objs) if objs else "~"
    def objs_in(objs): return ";".join(b.reg_in(r) + "|" + (b.props(p).lit() if p != "none" or rng.random() < .7 else "~") for r, p in objs) or "-"
    def wire(m):
        a = []
        for x in m["args"]:
            if x["k"] == "img": a.append(rng.choice(session.BADIMG) if x["v"] == "badimg" else rng.choice(odd) if x["v"] == "url" else b.img(x["v"]).text)
            elif x["v"] == "badreg": a.append(rng.choice(session.BADREG).encode())
            else: a.append(b.reg(x["v"]).text.encode())
        return gen.encode(m["type"], a, b.props(m["props"]).wire())
    def lits(msgs):
        out = []
        for m in msgs:
            a = [b.img(x["v"]).out if x["k"] == "img" else b.reg(x["v"]).out for x in m["args"]]
            out.append("%s[%s]{%s}" % (m["type"], " ".join(a), b.props(m["props"]).out()))
        return out
    if mode == "server":
        op("sset 2 %s 4 14 %d %d %d %s %s %s -" % ("t" if tcp else "f", iff, chmask, multi, H(rng.choice(NAMES).encode()), "~", "~"), lambda o: None if o["ok"] else "the server could not be set up: %r" % U(o["err"]))
        op("drain 2", skip)
    else:
        ops.append("open 2 c f")
        ops.append("feed 2 " + H(gen.encode("hello", (), [(b"trax.version", b"%d" % cfg["ver"]), (b"trax.region", b"rectangle;polygon;mask;"), (b"trax.image", b"path;url;memory;buffer;"),
                   (b"trax.channels", b"".join([b"color;", b"depth;", b"ir;"][i] for i in chans))] + ([(b"trax.multiobject", b"1")] if multi else []))))
        log = rng.random() < .25
        op("cset 2" + (" log" if log else ""), lambda o: None if o["ok"] else "the client could not be set up: %r" % U(o["err"]))
    def refused(why, missing=None):
        def f(o):
            if o["r"] != -1: return "an illegal call was accepted"
            if o.get("assert"): return "values are inconsistent: %r" % U(o["err"])
            if o["cls"] == "TraxException" and why:
                e = U(o["err"]).decode("utf8", "replace")
                if not re.search(session.WHY[why], e, re.I): return "reason %r does not describe the refusal (%s)" % (e, why)
        return f
    def text(o): return U(o["err"]).decode("utf8", "replace")
    for e in hist:
        o_, x, call = e["op"], e["exp"], e["call"]
        if o_ == "noise":
            if not eof: ops.append("feed 2 " + H(rng.choice(session.NOISE)))
        elif o_ == "inject":
            for m in e["sent"]: ops.append("feed 2 " + H(wire(m)))
        elif o_ == "eof": ops.append("eof 2"); eof = True
        elif o_ == "term":
            w = b.props(call["props"]); r = w.get(b"trax.reason")
            if mode == "server" and rng.random() < .3 and not dead and (r is None or r): op("leave 2 " + H(r), lambda o: None if o["r"] == 0 else "leaving the session failed: %s" % text(o))
            else: op("term 2 " + H(r), lambda o: None if o["r"] == 0 and not o["alive"] else "quit failed: %s" % (text(o) if o["r"] else "still alive"))
            op("drain 2", sent_check(lits(e["sent"]))); dead = True
        elif o_ == "sreply":
            for r, p in call["objs"]: b.map.setdefault(r, gen.rregion(rng, special=True))
            line = "sreply 2 " + objs_in(call["objs"]); want = lits(e["sent"])
            if len(call["objs"]) == 1 and rng.random() < .25 and not b.props(call["objs"][0][1]):
                q = gen.Props((k, utf8(v)) for k, v in gen.rprops(rng).items())
                line += " - " + q.lit(); want = ["state[%s]{%s}" % (b.reg(call["objs"][0][0]).out, q.out())] if want else want
            op(line, (lambda o: None if o["r"] == 0 else "a legal reply was refused: %s" % text(o)) if x["ok"] else refused(x["why"]))
            op("drain 2", sent_check(want))
        elif o_ == "swait":
            res = {"error": -1, "initialize": 2, "frame": 3, "quit": 4}[x["res"]]
            p = b.props(x["props"])
            if res == 4: p = gen.Props((k, v) for k, v in p.items() if not k.startswith(b"trax."))
            im = imgs_out(x["images"]) if x["images"] else "~"; ob = objs_out(x["objects"])
            keep = res in (2, 3) and rng.random() < .5
            if keep: kept.append("%s %s %s" % (im, ob, p.out()))
            def chk(o, res=res, im=im, ob=ob, p=p.out(), x=x):
                if o.get("assert"): return "values are inconsistent: %r" % text(o)
                if o["r"] != res: return "wait answered %d (%s), required %d (%s)" % (o["r"], text(o) if o["err"] != "~" else "", res, x["res"])
                if res == -1: return None
                for k, w in (("images", im), ("objects", ob), ("props", p)):
                    if o[k] != w: return "wait delivered %s %s, required %s" % (k, o[k][:300], w[:300])
            op("swait 2 -" + (" keep" if keep else ""), chk)
            op("drain 2", lambda o: None if o["d"] == "-" else "a wait sent %r" % U(o["d"])[:80])
            dead = dead or res == 4
            if rng.random() < .2: ops.append("gc")
        elif o_ in ("cinit", "cframe"):
            missing = next((CH[chans[k]] for k, v in enumerate(call["imgs"]) if v == "none"), None)
            full = ["~"] * 3
            for k, i in zip(chans, call["imgs"]): full[k] = b.img(i).lit if i != "none" else "~"
            ol = objs_in(call["objs"])
            if o_ == "cframe" and ol == "-" and rng.random() < .7: ol = "~"
            pl = b.props(call["props"]).lit()
            def chk(o, x=x, missing=missing):
                if o.get("assert"): return "values are inconsistent: %r" % text(o)
                if not x["ok"]: return refused(x["why"], missing)(o)
                if x["res"] == "state":
                    if o["r"] != 5: return "a legal request failed: %s" % text(o)
                    w = objs_out(x["objects"])
                    if o["objects"] != w: return "delivered objects %s, required %s" % (o["objects"][:300], w[:300])
                    return None
                if o["r"] != -1: return "answered as if the tracker had replied (%s)" % x["res"]
                if o["cls"] != "TraxException": return "failed with %s: %s" % (o["cls"], text(o))
                if x["res"] == "quit":
                    if o["alive"]: return "the handle is alive after a quit"
                    why = b.props(x["props"]).get(b"trax.reason")
                    if why and why.decode("utf8") not in text(o): return "the reason %r of the tracker is not told: %s" % (why, text(o))
            op("%s 2 %s %s %s" % (o_, ",".join(full), ol, pl if pl != "-" or rng.random() < .5 or o_ == "cinit" else "~"), chk)
            op("drain 2", sent_check(lits(e["sent"])))
            dead = dead or x["res"] == "quit"
        else: raise RuntimeError("unknown step " + o_)
    if kept:
        ops.append("gc")
        op("kept 2", lambda o: None if o["v"] == kept else "kept requests changed: %s instead of %s" % (o["v"], kept))
    op("clean 2", skip)
    op("drain 2", sent_check([] if dead else ["quit[]{-}"]))
    if mode != "server" and log: op("log 2", skip)
    def judge(obs):
        for k, c in enumerate(checks):
            if k >= len(obs): return "only %d of %d observations" % (len(obs), len(checks))
            m = c(obs[k])
            if m: return "step %d (%s): %s" % (k, shown[k][:160], m)
        if mode != "server" and log: return log_check(U(obs[-1]["d"]), [U(o["d"]) for o in obs if o["op"] == "drain"], b"".join(U(l.split(" ")[2]) for l in ops if l.startswith("feed")))
    return Case(id, ops, judge, meta={"cfg": cfg, "hist": hist})

def sessions(ctx, exe):
    S = dict(mode="server", ver=4); C = dict(mode="call"); G = dict(peer="good", ahead=1)
    runs = [("server", dict(S, nch=1, maxops=3, ends=True, bad=True, cap=ctx.q(600, 40000))),
            ("server-any", dict(S, nch=1, maxops=4, ends=False, cap=ctx.q(540, 20000))),
            ("server-deep", dict(S, **G, nch=1, maxops=ctx.q(6, 7), ends=False, cap=ctx.q(540, 20000))),
            ("server-ends", dict(S, **G, nch=1, maxops=4, bad=True, cap=ctx.q(420, 20000))),
            ("server-2ch", dict(S, **G, nch=2, multi=False, maxobj=1, maxops=5, ends=False, cap=ctx.q(300, 20000))),
            ("server-3ch", dict(S, **G, nch=3, maxops=4, maxobj=3, ends=False, cap=ctx.q(300, 20000))),
            ("server-long", dict(S, nch=1, maxops=20, maxobj=3, noise=True, simulate=ctx.q(20, 400), cap=ctx.q(420, 20000))),
            ("client", dict(C, ver=4, nch=1, maxops=ctx.q(3, 4), ends=True, bad=True, cap=ctx.q(960, 40000))),
            ("client-deep", dict(C, **G, ver=4, nch=1, maxops=ctx.q(4, 6), ends=False, cap=ctx.q(600, 20000))),
            ("client-2ch", dict(C, ver=4, nch=2, multi=False, maxops=ctx.q(3, 4), ends=False, bad=True, cap=ctx.q(420, 20000))),
            ("client-2ch-deep", dict(C, **G, ver=4, nch=2, multi=False, maxobj=1, maxops=6, ends=False, cap=ctx.q(240, 10000))),
            ("client-v3", dict(C, ver=3, nch=1, multi=False, maxops=3, bad=True, cap=ctx.q(240, 8000))), ("client-v1", dict(C, ver=1, nch=1, multi=False, maxops=4, ends=False, cap=ctx.q(180, 8000))),
            ("client-v3-deep", dict(C, **G, ver=3, nch=1, multi=False, maxobj=1, maxops=6, ends=False, cap=ctx.q(180, 8000))),
            ("client-v2", dict(C, ver=2, nch=2, multi=False, maxops=4, ends=False, cap=ctx.q(180, 8000))),
            ("client-long", dict(C, ver=4, nch=1, maxops=20, maxobj=3, noise=True, bad=True, simulate=ctx.q(20, 400), cap=ctx.q(420, 20000)))]
    for name, kw in runs:
        beh = session.behaviours(ctx, "python " + name, **kw)
        beh = [(c, h) for c, h in beh if not any(e["op"] in ("sreplys", "swaits") for e in h)]
        cases = [make_case("%s/%d" % (name, n), c, h, random.Random(ctx.seed * 99991 + n), n % 23 == 3) for n, (c, h) in enumerate(beh)]
        ctx.replay(exe, cases, what="session, Python", leak=False, alarm=10, limit=25)

# ---- what is announced and what is reported
RF, IF = ["special", "rectangle", "polygon", "mask"], ["path", "url", "memory", "buffer"]
def names(table, mask): return [n for i, n in enumerate(table) if mask >> i & 1]
def text(rng): return list(utf8(bytes(rng.randint(1, 255) for _ in range(rng.choice([0, 1, 5, 20, 63]))))) if rng.random() < .5 else list(rng.choice(NAMES).encode("utf8").strip(b"-"))
def introductions(ctx, exe):
    rng = random.Random(ctx.seed + 2511); NT = [256]
    decls = []
    for k in range(ctx.q(500, 6000)):
        cus = {kk: utf8(v) for kk, v in gen.rprops(rng, 0, 4).items()}
        decls.append({"ver": 0, "rf": k % 16, "if": rng.randint(0, 15), "ch": rng.randint(1, 7), "multi": rng.random() < .5, "name": text(rng), "desc": text(rng), "family": text(rng), "custom": [[list(a), list(b)] for a, b in cus.items()]})
    raws = [None] * len(decls); cases = []
    for k, d in enumerate(decls):
        pr = gen.Props((bytes(a), bytes(b)) for a, b in d["custom"])
        ops = ["sset 2 %s 4 %d %d %d %d %s %s %s %s" % ("t" if k % 9 == 0 else "f", d["rf"], d["if"], d["ch"], d["multi"], H(bytes(d["name"])), H(bytes(d["desc"])), H(bytes(d["family"])), pr.lit()), "drain 2"]
        def judge(o, k=k):
            if not o[0]["ok"]: return "the server could not be set up: %r" % U(o[0]["err"])
            raws[k] = U(o[1]["d"])
        cases.append(Case("declaration/%d" % k, ops, judge, meta=str(decls[k])[:300]))
    ctx.replay(exe, cases, what="introduction, Python server", leak=False, alarm=10, limit=25)
    got = [(d, s) for d, s in zip(decls, raws) if s is not None and len(s) < 700]
    for (d, s), a in zip(got, oracle.ask("Setup", "Announces(rec.s, rec.d)", [{"s": list(s), "d": d} for d, s in got], ctx, name="hello messages of Python servers read by Setup.tla")):
        ctx.traces += 1
        if not a and len(ctx.violations) < 20: ctx.violation("announced, Python %s" % str(d)[:300], "the server announced %r" % s[:600], {"declaration": d, "bytes": s.hex()})
    # hello messages with any of their entries missing, and lists in any order
    hellos = []
    for k in range(ctx.q(800, 10000)):
        d = rng.choice(decls); m = [(bytes(a), bytes(b)) for a, b in d["custom"]]
        def put(key, v, p=.85):
            if rng.random() < p: m.append((key, v))
        def some(table): l = rng.sample(table, rng.randint(0, len(table))) + ([b"voxels"] if rng.random() < .1 else []); rng.shuffle(l); return b";".join(l) + (b";" if rng.random() < .7 and l else b"")
        put(b"trax.version", b"%d" % rng.choice([1, 2, 3, 4, 4, 4])); put(b"trax.region", some([x.encode() for x in RF[1:]])); put(b"trax.image", some([x.encode() for x in IF])); put(b"trax.channels", some([b"color", b"depth", b"ir"]))
        for f in ("name", "desc", "family"): put({"name": b"trax.name", "desc": b"trax.description", "family": b"trax.family"}[f], bytes(d[f]), .6)
        put(b"trax.multiobject", rng.choice([b"1", b"1", b"0"]), .6)
        if rng.random() < .5: rng.shuffle(m)
        hellos.append(m)
    cases = []
    for k, (m, r) in enumerate(zip(hellos, oracle.ask("Setup", "Report(rec.m)", [{"m": [[list(a), list(b)] for a, b in m]} for m in hellos], ctx, name="reports of hello messages, Python"))):
        def judge(o, r=r):
            o = o[0]; e = r["exact"]; tx = lambda v: "-" if v == NT or not v else H(bytes(v))
            if not o["ok"]: return "the introduction was refused: %r" % U(o["err"])
            for f, got, want in (("region formats", o["rf"], sorted(names(RF, r["rf"] >> 1 << 1))), ("image formats", o["imf"], sorted(names(IF, r["if"]))), ("channels", o["ch"], names(["color", "depth", "ir"], r["ch"])), ("multi-object support", o["multi"], r["multi"]),
                                 ("name", o["name"], tx(r["name"])), ("description", o["desc"], tx(r["desc"])), ("family", o["family"], tx(r["family"])), ("custom entries", o["custom"], gen.Props({bytes(a): bytes(b) for a, b in r["custom"]}).out())):
                if got != want: return "%s reported as %r, announced %r" % (f, got, want)
        cases.append(Case("hello/%d" % k, ["open 2 c f", "feed 2 " + H(gen.encode("hello", [], m)), "cset 2" + (" log" if k % 5 == 0 else "")], judge, meta=str(m)[:400]))
    for k, junk in enumerate([b"@@TRAX:quit\n", b"@@TRAX:state \"1,2,3,4\"\n", b"@@TRAX:hello \"x\"\n", b"", b"nothing\n"]):
        cases.append(Case("no hello/%d" % k, ["open 2 c f", "feed 2 " + H(junk), "eof 2", "cset 2"], lambda o: None if not o[0]["ok"] else "taken as an introduction"))
    ctx.replay(exe, cases, what="introduction, Python client", leak=False, alarm=10, limit=25)

# ---- a tracker in Python under the process controller
def trackers(ctx, exe):
    """What InOrder of Session.tla says about closed sessions, with the controller in one process and the Python server in another."""
    rng = random.Random(ctx.seed + 2525)
    drv = build.harness("trxproc"); jobs = []
    for nch, multi in ((1, True), (2, False), (3, True)):
        for c, h in session.behaviours(ctx, "trackers %d" % nch, ver=4, nch=nch, multi=multi, maxops=28, maxobj=3, ends=False, simulate=ctx.q(14, 120)):
            req = [e for e in h if e["op"] in ("cinit", "cframe") and e["exp"]["ok"]]; rep = [e for e in h if e["op"] == "sreply" and e["exp"]["ok"]]
            n = min(len(req), len(rep))
            if n >= 2 and req[0]["op"] == "cinit": jobs.append((c, req[:n], rep[:n]))
    rng.shuffle(jobs); jobs = [(k,) + j for k, j in enumerate(jobs[:ctx.q(36, 300)])]
    def one(j):
        k, cfg, req, rep = j; r = random.Random(ctx.seed * 31 + k); b = PyBind(r, cfg, {}); b.kinds = "PMB"; mode = k % 3; nch = cfg["nch"]
        d = os.path.join(ctx.work, "py-%d" % k); os.makedirs(d, exist_ok=True); plan, log = os.path.join(d, "plan"), os.path.join(d, "log")
        def objs_in(objs): return ";".join(b.reg_in(x) + "|" + (b.props(p).lit() if p != "none" else "~") for x, p in objs) or "-"
        def objs_out(objs): return ";".join(b.reg(x).out + "|" + b.props(p).out() for x, p in objs)
        for e in rep:
            for x, p in e["call"]["objs"]: b.map.setdefault(x, gen.rregion(r, special=True))
        with open(plan, "w") as f: f.write("".join(objs_in(e["call"]["objs"]) + "\n" for e in rep))
        name = r.choice([x for x in NAMES if x != "-"]).encode("utf8")
        env = {"TRK_PLAN": plan, "TRK_LOG": log, "TRK_CHANNELS": str((1 << nch) - 1), "TRK_NAME": H(name), "TRK_MULTI": "1" if cfg["multi"] else "0"}
        # element properties of a C++ list cannot be given
        ops = ["new 0 %s 60 %d %d %s %s" % (H(exe + " --tracker"), mode, r.choice([0, 1]), H(""), "&".join("%s=%s" % (H(a), H(v)) for a, v in env.items())), "call 0 query", "call 0 meta"]; want = []
        for e, a in zip(req, rep):
            im = ",".join(b.img(i).lit for i in e["call"]["imgs"]) + ",~" * (3 - nch)
            ops += ["call 0 %s %s %s %s" % ("initm" if e["op"] == "cinit" else "framem", im, "~" if not e["call"]["objs"] else objs_in(e["call"]["objs"]).replace(":c|", "|").replace(":f|", "|").replace(":s|", "|").replace(":r|", "|"), b.props(e["call"]["props"]).lit()), "call 0 waitm"]
            want.append("%s %s %s %s" % ("initialize" if e["op"] == "cinit" else "frame", ",".join(b.img(i).out for i in e["call"]["imgs"]) + ",~" * (3 - nch), ";".join(b.reg(x).out + "|-" for x, _ in e["call"]["objs"]) or "~", b.props(e["call"]["props"]).out()))
        ops += ["del 0"]
        x = proc.run_script(drv, ops, ctx.work, alarm=120, env={"LD_PRELOAD": None})
        m = proc.broken(x)
        if not m:
            o = x.obs
            if not all(y.get("ret") == 1 for y in o[:-1]): m = "call %s failed: %s" % (ops[next(i for i, y in enumerate(o) if y.get("ret") != 1)][:100], x.err[-1500:])
            elif o[2]["name"] != H(name) or o[2]["c"] != (1 << nch) - 1 or o[2]["i"] != 15 or o[2]["r"] & 14 != 14: m = "the tracker is introduced as %s" % o[2]
        if not m:
            got = open(log).read().split("\n")
            for i, (w, e) in enumerate(zip(want, rep)):
                if i >= len(got) or got[i] != w: m = "request %d arrived as %s instead of %s" % (i, got[i:i + 1], w); break
                y = o[4 + 2 * i]; w = objs_out(e["call"]["objs"]) or "-"
                if y["objects"] != w: m = "reply %d arrived as %s instead of %s" % (i, y["objects"], w); break
            else:
                rest = [g for g in got[len(want):] if g]
                if [g.split(" ")[0] for g in rest] not in ([], ["quit"]): m = "the tracker received %s after the session" % rest
        return m and (k, m, ops)
    for m in proc.parallel(one, jobs, 12):
        ctx.traces += 1
        if m and len(ctx.violations) < 20:
            again = one(jobs[m[0]])
            if again: ctx.violation("controller and Python tracker, session %d" % m[0], again[1], {"ops": m[2]})

def P25(ctx):
    exe = build.python("trxpy")
    sessions(ctx, exe)
    introductions(ctx, exe)
    trackers(ctx, exe)
    ctx.rules.append("behaviours of Session.tla from the server's and the client's side, up to the given number of calls and random longer ones, replayed with fresh payloads on the Python classes")
    ctx.assumptions += ["texts are valid UTF-8, as the bindings exchange str"]
