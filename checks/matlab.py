"""P26: the Matlab/Octave bindings (spec/Session.tla, Setup.tla, Matlab.tla, MatlabMC.tla)."""
import os, random, re, struct
from vlib import build, gen, oracle, session, tlc
from vlib.core import Case, H, U
from checks.python import msg_lit, unwire
LEVEL = "model_checking"
CH = session.CH

# ---- values as Octave expressions
def chars(b):
    if not b: return "''"
    if all(32 <= c < 127 and c not in b"'%\"\\#" for c in b): return "'" + b.decode() + "'"
    return "char([" + " ".join(str(c) for c in b) + "])"
def matrix(kind, dims, data):
    """data column by column"""
    t = "%s([%s])" % (kind, " ".join(map(str, data)))
    return "reshape(%s, %s)" % (t, ", ".join(map(str, dims))) if len(data) != 1 else t
def props_expr(rng, p):
    """A collection as a structure or a cell, some numbers as numbers; and what of it has to arrive."""
    want = gen.Props(); ex = []
    for k, v in p.items():
        if re.match(rb"(0|[1-9]\d{0,4})\Z", v) and rng.random() < .7: want[k] = v + b".000000"; ex.append(rng.choice(["%s", "%s", "int32(%s)", "single(%s)"]) % v.decode())
        else: want[k] = v; ex.append(chars(v))
    if not p: return rng.choice(["struct()", "cell(0, 2)", "{}"]), want
    if rng.random() < .5: return "{" + "; ".join("%s, %s" % (chars(k), x) for k, x in zip(p, ex)) + "}", want
    return "x_struct(%s)" % ", ".join("%s, %s" % (chars(k), x) for k, x in zip(p, ex)), want

class Values:
    """Matrices that the specification gives for pictures and masks; asked for all at once."""
    def __init__(self): self.want = {}; self.got = {}; self.turn = 0
    def image(self, lit):
        _, w, h, m, d = lit.split(":"); d = U(d); w, h, m = int(w), int(h), int(m)
        s = list(struct.unpack("=%dH" % (w * h), d)) if m == 2 else list(d)
        self.want.setdefault(lit, {"k": "image", "x": 0, "y": 0, "w": w, "h": h, "c": 3 if m == 3 else 1, "d": s})
        return lit
    def mask(self, lit):
        x, y, w, h = map(int, lit.split(":")[1:5])
        self.want.setdefault(lit, {"k": "mask", "x": x, "y": y, "w": w, "h": h, "c": 1, "d": [int(c) for c in lit.split(":")[5]]})
        return lit
    def ask(self, ctx, name):
        todo = [l for l in self.want if l not in self.got]
        for l, a in zip(todo, oracle.ask("Matlab", 'IF rec.k = "image" THEN [rows |-> rec.h, cols |-> rec.w, m |-> ImageMatrix(rec.w, rec.h, rec.c, rec.d)] ELSE MaskMatrix(rec.x, rec.y, rec.w, rec.h, rec.d)',
                                         [self.want[l] for l in todo], ctx, name=name)): self.got[l] = a
    def text(self, lit):
        """What the harness shows of the matrix."""
        a = self.got[lit]; f = lit.split(":")
        kind = "uint16" if f[0] == "M" and f[3] == "2" else "uint8"
        d = struct.pack("=%dH" % len(a["m"]), *a["m"]) if kind == "uint16" else bytes(a["m"])
        dims = [a["rows"], a["cols"]] + ([3] if f[0] == "M" and f[3] == "3" else [])
        return {"k": kind, "s": dims, "v": H(d)}

def empty(v): return 0 in v["s"]
def show_region(V, out):
    t = out[0]
    if t == "K": return V.text(out)
    n = [x for x in out.split(":")[1:]]
    return {"k": "double", "s": [1, len(n)], "v": n}
def same(a, b):
    if b["k"] in ("uint8", "uint16") and 0 in b["s"]: return empty(a)
    return a["k"] == b["k"] and a["s"] == b["s"] and a["v"] == b["v"]
def show_image(V, out):
    if out[0] == "M": return V.text(out)
    if out[0] == "B": return None
    b = U(out[2:]); return {"k": "char", "s": [1, len(b)] if b else [0, 0], "v": H(b)}
def image_differs(V, v, out):
    if out[0] == "B":
        f = dict((U(k), x) for k, x in v["v"]) if v["k"] == "struct" else {}
        d = f.get(b"data")
        if v["k"] != "struct" or not d or U(f[b"format"]["v"]) != (b"png" if out[1] == "1" else b"jpeg") or d["k"] != "uint8" or d["v"] != out[3:]: return "%s instead of %s" % (str(v)[:200], out[:200])
        return None
    w = show_image(V, out)
    if empty(v) and w["v"] == "-": return None
    if not same(v, w): return "%s instead of %s" % (str(v)[:200], str(w)[:200])
def images_differ(V, v, outs):
    if v["k"] != "cell" or v["s"] != [1, len(outs)]: return "%s for %d images" % (str(v)[:200], len(outs))
    for a, b in zip(v["v"], outs):
        m = image_differs(V, a, b)
        if m: return m
def field(k): return bytes(c if i == 0 or chr(c).isalnum() or c == 95 else 95 for i, c in enumerate(k))
def props_differ(v, p, struct_):
    """p: the properties that were sent."""
    if struct_:
        if v["k"] != "struct" or v["s"] != [1, 1]: return "no structure: %s" % str(v)[:200]
        got = [(U(k), U(x["v"]) if x["k"] == "char" else None) for k, x in v["v"]]; want = {}
        for k, x in p.items(): want.setdefault(field(k), []).append(x)
        if sorted(k for k, _ in got) != sorted(want) or any(x not in want[k] for k, x in got): return "%s instead of %s" % (got, want)
        return None
    if v["k"] != "cell": return "no cell: %s" % str(v)[:200]
    n = len(v["v"]) // 2
    if n != len(p) or (n and v["s"] != [n, 2]): return "%d x %s entries instead of %d" % (n, v["s"], len(p))
    got = {U(v["v"][i]["v"]): U(v["v"][n + i]["v"]) for i in range(n)}
    if got != dict(p): return "%s instead of %s" % (got, dict(p))

class Bind(session.Bind):
    def reg(self, i, special=False):
        return session.Bind.reg(self, i, special)
def out_region(rng):
    """A region as it can be given: its literal (also what arrives) and its expression."""
    k = rng.choice("RGK")
    if k == "R": r = gen.mk_rect(gen.quarter(rng), gen.quarter(rng), rng.randint(4, 400) / 4.0, rng.randint(4, 400) / 4.0)
    elif k == "G": r = gen.mk_poly([(gen.quarter(rng), gen.quarter(rng)) for _ in range(rng.randint(3, 7))])
    else:
        w, h = rng.randint(1, 9), rng.randint(1, 7)
        bits = "".join(rng.choice("01") for _ in range(w * h))
        if "1" not in bits: bits = "1" + bits[1:]
        r = gen.mk_mask(0, 0, w, h, bits)
        v = rng.choice([1, 1, 255, 128, 2])
        r.expr = matrix("uint8", (h, w), [v * int(bits[y * w + x]) for x in range(w) for y in range(h)]) if h > 1 or w > 1 else "uint8(%d)" % v
        return r
    r.expr = "[%s]" % " ".join(r.lit.split(":")[1:])
    return r

REG, IMGF, CHN = {2: b"rectangle", 4: b"polygon", 8: b"mask"}, {1: b"path", 2: b"url", 4: b"memory", 8: b"buffer"}, {1: b"color", 2: b"depth", 4: b"ir"}
def flags(rng, table, mask):
    n = [v for k, v in table.items() if mask & k]; rng.shuffle(n)
    n = [chars(x.decode().title().encode() if rng.random() < .2 else x) for x in n]
    return n[0] if len(n) == 1 and rng.random() < .6 else "{" + rng.choice([", ", "; "]).join(n) + "}"
def setup(rng, rf, imf, ch, extra=()):
    a = ["'setup'", flags(rng, REG, rf), flags(rng, IMGF, imf)]
    more = list(extra)
    if ch != 1 or rng.random() < .3: more.append((rng.choice(["channels", "Channels"]), flags(rng, CHN, ch)))
    rng.shuffle(more)
    for k, v in more: a += [chars(k.encode()) if isinstance(k, str) else chars(k), v]
    return "s(1, %s);" % ", ".join(a)

# ---- calls that must be refused without any effect
BADREGION = ["[]", "7", "[1 2 3]", "[1 2 3 4 5]", "'abc'", "{}", "struct()", "[1 2; 3 4; 5 6; 7 8]", "[1 2 3 4; 5 6 7 8]", "[1 2 3 4 5 6; 7 8 9 10 11 12]", "int32([1 2 3 4])", "true", "uint8([])", "@sin"]
MISUSE = ["s(0);", "s(0, 5);", "s(0, 'nonsense');", "s(0, '');", "s(0, 'wait', 'PropStruct');", "s(0, 'wait', 'Name', 'x');", "s(0, 'wait', 5, 6);", "s(0, 'wait', 'PropStruct', []);", "s(0, 'wait', 'PropStruct', {});", "s(0, 'wait', 'PropStruct', '');", "s(0, 'wait', 'PropStruct', [1 0]);", "s(0, 'status');", "s(0, 'status', [1 2 3 4], struct(), 5);",
          "s(0, 'status', [1 2 3 4], 5);", "s(0, 'status', [1 2 3 4], {'a'; 'b'; 'c'});", "s(0, 'status', [1 2 3 4], {'a', 'b', 'c'});", "s(0, 'status', [1 2 3 4], {5, 'b'});", "s(0, 'status', [1 2 3 4], {'a', 'b'; 'c', {}});",
          "s(0, 'status', [1 2 3 4], x_struct('a', struct()));", "s(0, 'status', [1 2 3 4], x_struct('a', @sin));", "s(0, 'quit', 'a', 'b');", "s(0, 'quit', struct('a', 1));", "s(0, 'quit', {'a', 'b'});", "s(0, 'quit', ['ab'; 'cd']);", "s(0, 'quit', 5);",
          "s(4, 'wait');", "s(2, 'status', [1 2 3 4]);"] + ["s(0, 'status', %s);" % r for r in BADREGION] + ["s(1, 'status', %s, struct('a', 1));" % r for r in BADREGION[:6]]

def make_case(V, id, cfg, hist, rng, tcp):
    b = Bind(rng, cfg, {}); nch = cfg["nch"]; iff, b.kinds, odd = session.announced(rng, hist)
    chmask = (1 << nch) - 1
    if nch == 1 and rng.random() < .3: chmask = rng.choice([2, 4])
    if nch == 2 and rng.random() < .5: chmask = rng.choice([5, 6])
    data = b""; ops, checks, want, state = [], [], [], {"eof": False}
    def op(l, c): ops.append(l); checks.append(c)
    def text(o): return U(o["err"]).decode("utf8", "replace") if o["err"] != "~" else ""
    def sent(msgs):
        """Judge of the bytes of one call; with sockets only the total is known."""
        want.extend(msgs)
        def f(o):
            if o["d"] == "~": return None
            return differs(U(o["d"]), msgs)
        return f
    def differs(d, msgs):
        try: got = [msg_lit(m) for m in unwire(d)]
        except Exception as e: return "sent what is no message: %r (%s)" % (d[:200], e)
        if d and not d.endswith(b"\n"): return "sent an incomplete message"
        plain = lambda l: [x.replace("{%s=-}" % H(b"trax.reason"), "{-}") for x in l]     # an empty reason is none
        if plain(got) != plain(msgs): return "sent %s instead of %s" % (got, msgs)
    def wire(m):
        a = []
        for x in m["args"]:
            if x["k"] == "img": a.append(rng.choice(session.BADIMG) if x["v"] == "badimg" else rng.choice(odd) if x["v"] == "url" else b.img(x["v"]).text)
            elif x["v"] == "badreg": a.append(rng.choice(session.BADREG).encode())
            else: a.append(b.reg(x["v"]).text.encode())
        return gen.encode(m["type"], a, b.props(m["props"]).wire())
    def hello(o):
        if not o["ok"]: return "the server could not be set up: %s" % text(o)
        if o["out"] != [{"k": "logical", "s": [1, 1], "v": "1"}]: return "set-up answered %s" % o["out"]
    op(setup(rng, 14, iff, chmask), hello)
    def refused(o, why):
        if o["ok"]: return "an illegal call was accepted"
        if not text(o).strip(): return "an illegal call was refused without a reason"
        if o["d"] not in ("~", "-"): return "a refused call sent %r" % U(o["d"])[:200]
    for e in hist:
        o_, x, call = e["op"], e["exp"], e["call"]
        if rng.random() < .06: op(rng.choice(MISUSE), lambda o: refused(o, ""))
        if o_ == "noise": data += rng.choice(session.NOISE)
        elif o_ == "inject":
            for m in e["sent"]: data += wire(m)
        elif o_ == "eof": pass
        elif o_ == "term":
            why = b.props(call["props"]).get(b"trax.reason")
            # a session that has ended has nothing to end
            snd = sent(["quit[]{%s}" % (b.props(call["props"]).out() if why is not None else "-")] if e["sent"] else [])
            n = rng.choice([0, 0, 1])
            op("s(%d, 'quit'%s);" % (n, "" if why is None else ", " + chars(why)), lambda o, snd=snd, n=n, v=str(int(bool(e["sent"]))): ("quit failed: %s" % text(o)) if not o["ok"] else ("quit answered %s" % o["out"]) if n and o["out"] != [{"k": "logical", "s": [1, 1], "v": v}] else snd(o))
        elif o_ == "sreply":
            (r, p), = call["objs"]
            b.map.setdefault(r, out_region(rng)); reg = b.reg(r); pr = b.props(p)
            n = rng.choice([0, 0, 1]); more, pr = props_expr(rng, pr) if pr or rng.random() < .4 else ("", pr)
            if more: more = ", " + more
            line = "s(%d, '%s', %s%s);" % (n, rng.choice(["status", "state", "Status"]), reg.expr if hasattr(reg, "expr") else "[1 2 3 4]", more)
            if x["ok"]:
                snd = sent(["state[%s]{%s}" % (reg.lit, pr.out())])
                op(line, lambda o, snd=snd, n=n: ("a legal reply was refused: %s" % text(o)) if not o["ok"] else ("reply answered %s" % o["out"]) if n and o["out"] != [{"k": "logical", "s": [1, 1], "v": "1"}] else snd(o))
            else: op(line, lambda o: refused(o, ""))
        elif o_ == "swait":
            res = x["res"]; n = rng.choice([3, 3, 3, 2, 1, 0])
            if res == "initialize" and len(x["objects"]) > 1: res = "error"      # more objects than can be told
            if res == "frame" and len(x["objects"]) > 1: res = "error"
            p = gen.Props(b.props(x["props"]))
            if res in ("initialize", "frame") and x["objects"]: p.update(b.props(x["objects"][0][1]))
            st = rng.random() < .5; arg = ", '%s', %s" % (rng.choice(["PropStruct", "propstruct"]), "true" if st else "false") if st or rng.random() < .2 else ""
            im = [b.img(i).out for i in x["images"]] if x["images"] else []
            rg = b.reg(x["objects"][0][0]).out if res == "initialize" and x["objects"] else None
            for i in im:
                if i[0] == "M": V.image(i)
            if rg and rg[0] == "K": V.mask(rg)
            def chk(o, res=res, n=n, st=st, im=im, rg=rg, p=p):
                if res == "error": return None if not o["ok"] else "wait answered %s, required an error" % str(o["out"])[:300]
                if not o["ok"]: return "wait failed (%s), required %s" % (text(o), res)
                if o["d"] not in ("~", "-"): return "a wait sent %r" % U(o["d"])[:80]
                if res == "quit": return None if all(empty(v) for v in o["out"]) else "the end of the session is shown as %s" % str(o["out"])[:300]
                if n > 0:
                    m = images_differ(V, o["out"][0], im)
                    if m: return "images: " + m
                if n > 1:
                    v = o["out"][1]
                    if rg is None: m = None if empty(v) else "a region where none was sent: %s" % v
                    else: w = show_region(V, rg); m = None if same(v, w) else "%s instead of %s" % (str(v)[:300], str(w)[:300])
                    if m: return "region: " + m
                if n > 2:
                    m = props_differ(o["out"][2], p, st)
                    if m: return "properties: " + m
            op("s(%d, 'wait'%s);" % (n, arg), chk)
        else: raise RuntimeError("unknown step " + o_)
    live = not any(e["op"] == "term" or (e["op"] == "swait" and e["exp"]["res"] == "quit") for e in hist)
    if rng.random() < .3 and not live: op("s(0, 'status', [1 2 3 4]);", lambda o: refused(o, "alive")); op("s(0, 'wait');", lambda o: refused(o, "alive"))
    def judge(obs):
        for k, c in enumerate(checks):
            if k >= len(obs): return "only %d of %d observations" % (len(obs), len(checks))
            m = c(obs[k])
            if m: return "step %d (%s): %s" % (k, ops[k][:200], m)
        t = U(obs[-1]["d"])
        if tcp:
            i = t.find(b"\n") + 1
            return differs(t[i:], want + (["quit[]{-}"] if live else []))
        return differs(t, ["quit[]{-}"] if live else [])
    return Case(id, (["tcp"] if tcp else []) + ["in " + H(data)] + ops, judge, meta={"cfg": cfg, "hist": hist})

def fits(h):
    return not any(e["op"] in ("sreplys", "swaits") or (e["op"] == "sreply" and len(e["call"]["objs"]) != 1) for e in h)

def sessions(ctx, exe):
    S = dict(mode="server", ver=4, multi=False); G = dict(S, peer="good", ahead=1, maxobj=1)
    runs = [("1ch", dict(S, nch=1, maxops=4, bad=True, cap=ctx.q(585, 30000))),
            ("1ch-deep", dict(G, nch=1, maxops=ctx.q(6, 7), ends=False, cap=ctx.q(455, 10000))),
            ("1ch-ends", dict(G, nch=1, maxops=ctx.q(4, 5), bad=True, cap=ctx.q(390, 20000))),
            ("2ch", dict(S, nch=2, maxops=ctx.q(3, 4), ends=False, maxobj=1, cap=ctx.q(195, 10000))),
            ("2ch-deep", dict(G, nch=2, maxops=5, ends=False, cap=ctx.q(260, 10000))),
            ("3ch-deep", dict(G, nch=3, maxops=5, ends=False, cap=ctx.q(260, 10000))),
            ("several", dict(S, nch=1, maxops=4, ends=False, peer="good", maxobj=2, ahead=1, cap=ctx.q(130, 10000))),
            ("long", dict(S, nch=1, maxops=20, noise=True, maxobj=1, simulate=ctx.q(60, 600), cap=ctx.q(325, 10000)))]
    for name, kw in runs:
        V = Values()
        beh = [(c, h) for c, h in session.behaviours(ctx, "octave " + name, **kw) if fits(h)]
        cases = [make_case(V, "%s/%d" % (name, n), c, h, random.Random(ctx.seed * 99991 + n), n % 23 == 3) for n, (c, h) in enumerate(beh)]
        V.ask(ctx, "matrices of images and masks, " + name)
        ctx.replay(exe, cases, what="session, Octave", leak=False, alarm=20, limit=25)


# ---- introductions
BADSETUP = ["s(0, 'setup');", "s(0, 'setup', 'rectangle');", "s(0, 'setup', 'circle', 'path');", "s(0, 'setup', 'rectangle', 'voxels');", "s(0, 'setup', {}, 'path');", "s(0, 'setup', 'rectangle', {});", "s(0, 'setup', 5, 'path');", "s(0, 'setup', {'rectangle', 5}, 'path');",
            "s(0, 'setup', 'rectangle', 'path', 'name');", "s(0, 'setup', 'rectangle', 'path', 'name', 'x', 'description');", "s(0, 'setup', 'rectangle', 'path', 'name', 5);", "s(0, 'setup', 'rectangle', 'path', 'trax.region', 'x');", "s(0, 'setup', 'rectangle', 'path', 'bad key', 'x');",
            "s(0, 'setup', 'rectangle', 'path', 'channels', {});", "s(0, 'setup', 'rectangle', 'path', 'channels', 'smell');", "s(0, 'setup', 'rectangle', 'path', 'tag', {});", "s(0, 'setup', 'rectangle', 'path', 5, 'x');", "s(0, 'setup', 'rectangle', 'path', 'timeout', 5);", "s(2, 'setup', 'rectangle', 'path');", "s(0, 'wait');", "s(0, 'status', [1 2 3 4]);"]
KNOWN = {b"propstruct", b"name", b"description", b"family", b"debug", b"timeout", b"environment", b"data", b"connection", b"directory", b"log", b"channels"}
def introductions(ctx, exe):
    rng = random.Random(ctx.seed + 2611); decls = []; raws = []; cases = []
    def text(): return bytes(rng.choice(b"ab \"\\=;\n.\xc3\xa9%'~") for _ in range(rng.choice([1, 3, 8, 40])))
    for k in range(ctx.q(400, 4000)):
        cus = {a: b.replace(b"\0", b"") for a, b in gen.rprops(rng, 0, 4).items() if a.lower() not in KNOWN and not a.startswith(b"trax.")}
        some = {n: (text() if rng.random() < .7 else None) for n in ("Name", "Description", "Family")}
        d = {"ver": 0, "rf": 2 * rng.randint(1, 7), "if": rng.randint(1, 15), "ch": rng.randint(1, 7), "multi": False, "name": list(some["Name"] or [256]), "desc": list(some["Description"] or [256]), "family": list(some["Family"] or [256]), "custom": [[list(a), list(b)] for a, b in cus.items()]}
        extra = [(rng.choice([n, n.lower()]), chars(v)) for n, v in some.items() if v is not None]
        extra += [(a, chars(b)) for a, b in cus.items()]
        bad = [rng.choice(BADSETUP)] if rng.random() < .35 else []
        ops = bad + [setup(rng, d["rf"], d["if"], d["ch"], extra)]
        decls.append(d); raws.append(None); tcp = k % 11 == 0
        def judge(obs, k=k, bad=len(bad), tcp=tcp):
            for o in obs[:bad]:
                if o["ok"]: return "an illegal set-up was accepted"
                if o["d"] not in ("-", "~"): return "a refused set-up sent %r" % U(o["d"])
            o = obs[bad]
            if not o["ok"]: return "the server could not be set up: %r" % U(o["err"])
            s = U(obs[-1]["d"]) if tcp else U(o["d"])
            if s.count(b"\n") != 1 + tcp: return "announced %r" % s
            raws[k] = s.split(b"\n")[0] + b"\n"
        cases.append(Case("declaration/%d" % k, (["tcp"] if tcp else []) + ["in -"] + ops, judge, meta=str(d)[:300]))
    ctx.replay(exe, cases, what="introduction, Octave", leak=False, alarm=20, limit=25)
    got = [(d, s) for d, s in zip(decls, raws) if s is not None and len(s) < 700]
    for (d, s), a in zip(got, oracle.ask("Setup", "Announces(rec.s, rec.d)", [{"s": list(s), "d": d} for d, s in got], ctx, name="hello messages of Octave servers read by Setup.tla")):
        ctx.traces += 1
        if not a and len(ctx.violations) < 20: ctx.violation("announced, Octave %s" % str(d)[:300], "the server announced %r" % s[:600], {"declaration": d, "bytes": s.hex()})

# ---- the client
def options(rng, must):
    """Named arguments in any order and case; `must`: (name, expression)."""
    a = list(must); rng.shuffle(a)
    return "".join(", %s, %s" % (chars(rng.choice([k, k, k.title(), k.upper()]).encode()), v) for k, v in a)
def safe(p): return gen.Props((k, bytes(c for c in v if c not in b";|\n\0")) for k, v in p.items())
WRONG = ["{%s, %s}, [1 2 3 4], [], 1", "5.5, [1 2 3 4], [], 1", "@sin, [1 2 3 4], [], 1", "'/x', 'nonsense', [], 1", "'/x', [1 2 3], [], 1", "'/x', {1}, [], 1", "'/x', [1 2 3 4], {'a', 'b', 'c'}, 1", "'/x', [1 2 3 4], {5, 'b'}, 1", "'/x', [1 2 3 4], x_struct('a', {}), 1",
         "{'/x', '/y', '/z', '/u'}, [1 2 3 4], [], 1", "zeros(2, 2, 2, 'uint8'), [1 2 3 4], [], 1", "zeros(2, 2, 2, 2, 'uint8'), [1 2 3 4], [], 1", "['ab'; 'cd'], [1 2 3 4], [], 1", "{[]}, [1 2 3 4], [], 1", "{%s}, [1 2 3 4], [], 1|zeros(0, 0, 'uint8')", "{%s}, [1 2 3 4], [], 1|''", "{%s}, [1 2 3 4], [], 1|zeros(0, 4, 3, 'uint8')", "{%s}, [1 2 3 4], [], 1|zeros(3, 0, 'uint16')",
         "cell(1, %s), [1 2 3 4], [], 1|#", "struct('a', 1), [1 2 3 4], [], 1", "true, [1 2 3 4], [], 1", "zeros(2, 3, 3, 'uint16'), [1 2 3 4], [], 1"]
DATA = ["5", "'text'", "[]", "{1, 'two'}", "struct('a', 3)", "[1 2 3]", "uint8(7)", "''", "{}"]
DATASHOW = {"5": {"k": "double", "s": [1, 1], "v": ["5"]}, "'text'": {"k": "char", "s": [1, 4], "v": H(b"text")}, "[]": {"k": "double", "s": [0, 0], "v": []}, "''": {"k": "char", "s": [0, 0], "v": "-"}, "{}": {"k": "cell", "s": [0, 0], "v": []},
            "{1, 'two'}": {"k": "cell", "s": [1, 2], "v": [{"k": "double", "s": [1, 1], "v": ["1"]}, {"k": "char", "s": [1, 3], "v": H(b"two")}]}, "struct('a', 3)": {"k": "struct", "s": [1, 1], "v": [["61", {"k": "double", "s": [1, 1], "v": ["3"]}]]},
            "[1 2 3]": {"k": "double", "s": [1, 3], "v": ["1", "2", "3"]}, "uint8(7)": {"k": "uint8", "s": [1, 1], "v": "07"}}
def client_case(ctx, V, x, rng, tracker, k):
    """One behaviour of the loop: collects the values first, gives the case afterwards."""
    nch = rng.choice([1, 1, 1, 2, 3]); chan = {1: rng.choice([[0], [0], [1], [2]]), 2: rng.choice([[0, 1], [0, 2], [1, 2]]), 3: [0, 1, 2]}[nch]
    imf = rng.choice([5, 1, 4, 7, 13, 15]); rf = rng.choice([14, 14, 6, 2, 4, 8, 10, 12])
    kinds = ("P" if imf & 1 else "") + ("M" if imf & 4 else ""); rk = ("R" if rf & 2 else "") + ("G" if rf & 4 else "") + ("K" if rf & 8 else "")
    def image():
        im = gen.rimage(rng, kinds)
        while im.lit[0] == "P" and (im.lit == "P:-" or any(c in U(im.lit[2:]) for c in b"\n\0")): im = gen.rimage(rng, kinds)
        if im.lit[0] == "M": V.image(im.lit)
        return im
    def region():
        r = gen.rregion(rng, kinds=tuple(rk))
        while r.lit[0] == "K" and "1" not in r.lit.split(":")[5]: r = gen.rregion(rng, kinds=tuple(rk))
        if r.lit[0] == "K": f = r.lit.split(":"); r = gen.mk_mask(0, 0, int(f[3]), int(f[4]), f[5]); V.mask(r.lit)
        return r
    rows, scripts, want, answers = [], [], {}, []
    names = [rng.choice([b"", b"Name", b"two words", b"a\\b", b"x" * 40]) for _ in range(3)]
    hello = gen.encode("hello", [], [(b"trax.version", b"4")] + [(a, b) for a, b in zip((b"trax.name", b"trax.description", b"trax.family"), names) if b] +
        [(b"trax.image", b";".join(v for m, v in IMGF.items() if imf & m)), (b"trax.region", b";".join(v for m, v in REG.items() if rf & m)), (b"trax.channels", b";".join(CHN[1 << c] for c in chan))])
    hello = hello.rstrip(b"\n").split(b" ", 1)[1].rstrip(b" ")
    def script(l):
        while len(scripts) < l: scripts.append([b"hello"])
        want.setdefault(l, [])
        return scripts[l - 1]
    script(1); alive = {}
    for e in x["hist"]:
        d = e["dec"]; data = rng.choice(DATA)
        if d == "stop": rows.append(("%s, %s, [], %%s" % (rng.choice(["[]", "{}", "''", "uint8([])", "cell(1, 0)"]), rng.choice(["[]", "[1 2 3 4]"])), data, None))
        elif d == "throw": rows.append(("'throw', [], [], %s", data, None))
        elif d == "wrong": rows.append(("wrong", data, None))
        elif e["asks"] == "nothing":    # a frame before any initialization ends the loop
            rows.append(("{%s}, [], [], %%s" % ", ".join(["'/x'"] * nch), data, None))
        else:
            im = [image() for _ in range(nch)]; r = region() if d == "init" else None; p = gen.rprops(rng) if rng.random() < .5 else gen.Props()
            p = gen.Props((a, b.replace(b"\0", b"")) for a, b in p.items())
            ex, sent = props_expr(rng, p) if p or rng.random() < .3 else ("[]", p)
            s = script(e["launch"]); out = answer = None
            if e["fate"] == "ok":
                a = gen.rregion(rng, special=True); q = safe(gen.rprops(rng)) if rng.random() < .5 else gen.Props()
                if a.lit[0] == "K": V.mask(a.lit)
                answer = (a, q); out = b"ask;line:" + gen.encode("state", [a.text.encode()], q.wire()).rstrip(b"\n")
            else: out = b"ask;" + {"die": rng.choice([b"exit:0", b"exit:7", b"sig:9", b"sig:11", b"text:@@TRAX:sta;exit:1"]), "quit": rng.choice([b"say:quit;exit:0", b'say:quit "trax.reason=done";hang']),
                                   "junk": rng.choice([b'line:@@TRAX:state "1,2,3";hang', b"line:@@TRAX:state;hang", b'line:@@TRAX:frame "x";hang']), "mute": rng.choice([b"hang", b"spin", b"stop"])}[e["fate"]]
            s.append(out)
            if r: want[e["launch"]].append("initialize[%s]{-}" % r.out)
            want[e["launch"]].append("frame[%s]{%s}" % (" ".join(i.out for i in im), sent.out()))
            rows.append(((im, r, ex), data, answer))
    mute = any(e["fate"] == "mute" for e in x["hist"]); T = rng.choice([1, 2]) if mute else rng.choice([5, 10, 30])
    d = os.path.join(ctx.work, "c%d" % k); os.makedirs(d, exist_ok=True); log, cnt, rep = (os.path.join(d, n) for n in ("log", "count", "report"))
    env = {"TRK_SCRIPT": b"|".join(b";".join(s) + b";answer" for s in scripts), "TRK_COUNT": cnt.encode(), "TRK_LOG": log.encode(), "TRK_HELLO": hello, "TRK_REPORT": rep.encode()}
    for i in range(rng.choice([0, 0, 1])): env["EXTRA"] = rng.choice([b"", b"two words", b"a=b"])
    data0 = rng.choice(DATA + [None]); arg = rng.choice([[], [], [b"one"], [b"two words", b"x"]])
    mode = rng.choice(["standard", "explicit", "explicit", None, None]) if k % 6 else "socket"
    opts = [("environment", "x_struct(%s)" % ", ".join("%s, %s" % (chars(a.encode()), chars(b)) for a, b in env.items())), ("timeout", str(T))]
    if data0 is not None: opts.append(("data", data0))
    if mode: opts.append(("connection", chars(rng.choice([mode, mode.title()]).encode())))
    if rng.random() < .2: opts.append(("debug", rng.choice(["true", "false", "1"]))); 
    logf = os.path.join(d, "trax.log") if rng.random() < .15 else None
    if logf: opts.append(("log", chars(logf.encode())))
    cwd = d if rng.random() < .3 else None
    if cwd: opts.append(("directory", chars(cwd.encode())))
    n = rng.choice([1, 1, 1, 0]); wrong = WRONG[V.turn % len(WRONG)]; V.turn += any(e["dec"] == "wrong" for e in x["hist"])
    if "|" in wrong: w, e = wrong.split("|"); wrong = w % (nch if e == "#" else ", ".join([e] * nch))
    if wrong.count("%s"): wrong = wrong % ("'/a'", ", ".join(["'/b'"] * nch))
    opts = options(rng, opts)
    def build_case():
        def mat(lit): v = V.got[lit]; f = lit.split(":"); return matrix("uint16" if lit[0] == "M" and f[3] == "2" else "uint8", [v["rows"], v["cols"]] + ([3] if lit[0] == "M" and f[3] == "3" else []), v["m"])
        def img(i): return chars(U(i.lit[2:])) if i.lit[0] == "P" else mat(i.lit)
        plan = []
        for e, data, _ in rows:
            if e == "wrong": plan.append("{%s}" % wrong)
            elif isinstance(e, str): plan.append("{%s}" % (e % data))
            else:
                im, r, ex = e
                i = img(im[0]) if nch == 1 and rng.random() < .7 else "{" + rng.choice([", ", "; "]).join(img(q) for q in im) + "}"
                plan.append("{%s, %s, %s, %s}" % (i, "[]" if r is None else mat(r.lit) if r.lit[0] == "K" else "[%s]" % " ".join(r.lit.split(":")[1:]), ex, data))
        cmd = tracker + "".join(" " + ('"%s"' % a.decode() if b" " in a else a.decode()) for a in arg)
        ops = ["x_clear('%s', '%s', '%s');" % (log, cnt, rep), "c(%d, [%s], %s%s);" % (n, "; ".join(plan), chars(cmd.encode()), opts)]
        return Case("client/%d" % k, ops, judge, meta={"behaviour": x, "wants": {str(a): b for a, b in want.items()}})
    flag = lambda t, m: {"k": "cell", "s": [1, len(l)], "v": l} if (l := [{"k": "char", "s": [1, len(v)], "v": H(v)} for q, v in t if m & q]) or True else None
    def text(b): return {"k": "char", "s": [1, len(b)] if b else [0, 0], "v": H(b)}
    def judge(obs):
        cb = [o for o in obs if o["op"] == "cb"]; o = obs[-1]
        if o["op"] != "c": return "the client did not end"
        if any(q["op"] == "badtime" for q in obs): return "the time told to the callback is no duration"
        last = {"k": "double", "s": [0, 0], "v": []} if data0 is None else DATASHOW[data0]; told = None
        for j, (e, data, answer) in enumerate(rows):
            if j >= len(cb): return "the callback was called %d times instead of %d (%s)" % (len(cb), len(rows), U(o["err"]) if o["err"] != "~" else "no error")
            s = dict((U(a), b) for a, b in cb[j]["state"]["v"]); where = "call %d of the callback: " % (j + 1)
            if cb[j]["data"] != last: return where + "data is %s instead of %s" % (cb[j]["data"], last)
            if told is None: m = None if empty(s[b"region"]) else "a region before any answer: %s" % s[b"region"]; m = m or props_differ(s[b"properties"], {}, True)
            else:
                w = show_region(V, told[0].out)
                m = None if same(s[b"region"], w) else "region %s instead of %s" % (s[b"region"], w)
                m = m or props_differ(s[b"properties"], told[1], True)
            if m: return where + m
            meta = dict((U(a), b) for a, b in s[b"tracker"]["v"])
            for a, b in zip((b"name", b"description", b"family"), names):
                if meta[a] != text(b): return where + "tracker %s is %s" % (a, meta[a])
            f = dict((U(a), b) for a, b in s[b"formats"]["v"])
            if f[b"region"] != flag(REG.items(), rf): return where + "region formats %s" % f[b"region"]
            if f[b"image"] != flag([(1, b"path"), (2, b"url"), (8, b"buffer"), (4, b"memory")], imf): return where + "image formats %s" % f[b"image"]
            if s[b"channels"] != flag(CHN.items(), sum(1 << c for c in chan)): return where + "channels %s" % s[b"channels"]
            if not isinstance(e, str): told = answer
            last = DATASHOW[data]
        if len(cb) > len(rows): return "the callback was called %d times instead of %d" % (len(cb), len(rows))
        if o["left"]: return "%d processes left" % o["left"]
        if o["time"] > len(want) * 6 + T * (2 if mute else 0) + 8: return "took %.1f s" % o["time"]
        if x["over"] == "failed":
            if o["ok"]: return "no error after %s" % x["hist"][-1]
            if not U(o["err"]).split(b":", 1)[-1].strip(): return "an error without a reason"
        else:
            if not o["ok"]: return "failed: %s" % U(o["err"])
            if n and o["out"] != [last]: return "result %s instead of %s" % (o["out"], last)
        try: lines = open(log, "rb").read().split(b"\n")
        except OSError: return "the tracker was not launched"
        got = {}; cur = None
        for l in lines:
            if l.startswith(b"L "): cur = int(l.split()[1]) + 1; got[cur] = []
            elif l: got[cur] += [msg_lit(q) for q in unwire(l + b"\n")]
        if sorted(got) != sorted(want): return "%d trackers were launched instead of %d" % (len(got), len(want))
        for l in want:
            g = [q for q in got[l] if not q.startswith("quit")]
            if g != want[l]: return "tracker %d received %s instead of %s" % (l, g, want[l])
            if "quit" in "".join(q.split("[")[0] for q in got[l][:-1]): return "tracker %d received a request after the end" % l
        from checks.launch import read_report
        r = read_report(rep)
        if r is None: return "no tracker was launched"
        if r["args"][1:] != arg: return "arguments %s instead of %s" % (r["args"][1:], arg)
        if cwd and os.path.realpath(r["cwd"].decode()) != os.path.realpath(cwd): return "working directory %s" % r["cwd"]
        for a, b in env.items():
            if a.encode() + b"=" + b not in r["env"]: return "environment without %s=%s" % (a, b)
        if ("TRAX_SOCKET" in " ".join(q.decode("latin1").split("=")[0] for q in r["env"])) != (mode == "socket"): return "connection mode %s was not used" % mode
    return build_case

def client(ctx, exe):
    rng = random.Random(ctx.seed + 261)
    r = tlc.run("MatlabMC", constants=dict(Part=1, MaxW=ctx.q(5, 6), MaxCalls=0, Fates='{"ok"}'), init="Init", next_="Next", invariants=["ImageBack", "MaskSame"])
    ctx.model(r, "pictures and masks as matrices")
    r = tlc.run("MatlabMC", constants=dict(Part=2, MaxW=1, MaxCalls=ctx.q(5, 6), Fates='{"ok", "die", "quit", "junk", "mute"}'), init="Init", next_="Next", invariants=["Ordered", "Fresh"], constraints=["Emit"], tags={"L"})
    ctx.model(r, "loop of the client")
    beh = [b for b in r.emitted["L"] if max(e["launch"] for e in b["hist"]) <= 3]; rng.shuffle(beh)
    strata = {}
    for b in beh: strata.setdefault((len(b["hist"]), b["hist"][-1]["dec"], b["hist"][-1]["fate"], max(e["launch"] for e in b["hist"])), []).append(b)
    pick = []; n = ctx.q(120, 1500)
    while len(pick) < n:
        for s in strata.values(): pick.append(s[len(pick) % len(s)])
    tracker = build.program("tracker.c", libs=False, lang="c"); V = Values()
    cases = [client_case(ctx, V, b, random.Random(ctx.seed * 7919 + k), tracker, k) for k, b in enumerate(pick)]
    V.ask(ctx, "matrices of images and masks, client")
    cases = [c() for c in cases]; dial = [c for c in cases if re.search(r"'socket'", c.ops[1], re.I)]     # few clients at once find a free port
    ctx.replay(exe, dial, what="client, Octave, sockets", leak=False, alarm=60, limit=25, jobs=5)
    ctx.replay(exe, [c for c in cases if c not in dial], what="client, Octave", leak=False, alarm=60, limit=25, jobs=28)

CALLS = ["0", "0, CMD", "0, 5, CB", "0, CMD, 5", "0, CMD, 'x_callback'", "2, CMD, CB", "0, [], CB", "0, {CMD}, CB", "0, CB, CMD"] + ["0, CMD, CB, " + o for o in (
    "'timeout'", "'timeout', []", "'timeout', {}", "'timeout', '5'", "'timeout', [1 2]", "'timeout', struct('a', 1)", "'debug', []", "'debug', 'x'", "'debug', {}", "'nonsense', 1", "'', 1", "5, 6", "[], 1", "'connection', 'bogus'", "'connection', ''",
    "'connection', 5", "'connection', []", "'environment', 5", "'environment', {}", "'environment', []", "'environment', repmat(struct('a', 'b'), 1, 2)", "'environment', x_struct('a', 5)", "'environment', x_struct('a', 'b', 'c', [])",
    "'environment', x_struct('a', {})", "'directory', 5", "'directory', {}", "'log', 5", "'timeout', 5, 'timeout'", "'data', 1, 'environment', 5")]
def refusals(ctx, exe):
    """Wrong calls of the client are errors and launch nothing; the client works afterwards."""
    rng = random.Random(ctx.seed + 2612); cases = []; tracker = build.program("tracker.c", libs=False, lang="c")
    calls = CALLS + (CALLS * 5 if ctx.tier == "thorough" else []); rng.shuffle(calls)
    for k in range(0, len(calls), 5):
        part = calls[k:k + 5]; mark = os.path.join(ctx.work, "launched%d" % k); rep = os.path.join(ctx.work, "ureport%d" % k)
        ops = ["u(%s);" % q.replace("CMD", chars(b"/usr/bin/touch " + mark.encode())).replace("CB", "@x_callback") for q in part]
        ops += ["x_clear('%s');" % rep, "c(1, {'/x', [1 2 3 4], [], 1; '/y', [], [], 2; [], [], [], 3}, %s, 'timeout', 20, 'environment', x_struct('TRK_SCRIPT', 'hello;answer', 'TRK_REPORT', '%s'));" % (chars(tracker.encode()), rep)]
        def judge(obs, part=part, mark=mark, rep=rep):
            u = [o for o in obs if o["op"] == "u"]
            if len(u) != len(part): return "only %d of %d calls returned" % (len(u), len(part))
            for o, q in zip(u, part):
                if o["ok"]: return "traxclient(%s) is accepted" % q
                if not U(o["err"]).split(b":", 1)[-1].strip(): return "traxclient(%s): an error without a reason" % q
            if os.path.exists(mark): return "one of the wrong calls launches the tracker: %s" % part
            o = obs[-1]
            if o["op"] != "c" or not o["ok"] or o["calls"] != 3 or o["out"] != [{"k": "double", "s": [1, 1], "v": ["3"]}] or not os.path.exists(rep): return "after wrong calls %s the client does not work: %s" % (part, o)
        cases.append(Case("refusals/%d" % k, ops, judge))
    ctx.replay(exe, cases, what="refusals, Octave", leak=False, alarm=60, limit=25, jobs=8)

def P26(ctx):
    exe = build.octave()
    client(ctx, exe)
    refusals(ctx, exe)
    introductions(ctx, exe)
    sessions(ctx, exe)
    ctx.rules.append("behaviours of Session.tla from the server's side up to the given number of calls and random longer ones, replayed on the Octave function with fresh payloads; behaviours of MatlabMC.tla up to the given number of calls of the callback, executed by the Octave client with real tracker processes, everything told to the callback and everything the trackers received judged")
