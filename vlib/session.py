"""Replays behaviours of spec/Session.tla on the real library."""
import random, re
from . import tlc, gen, build
from .core import Case, H, U

INVS = ["InOrder", "Agree", "Owed", "NoError", "Final", "OneQuit", "RefusedSilent"]

def tla_bool(b): return "TRUE" if b else "FALSE"

SHAPE = re.compile(r'(?:op|res|ok)\\*":\\*"?(\w+)')
def behaviours(ctx, name, mode="closed", ver=4, nch=1, multi=True, maxops=4, maxobj=2, maxchan=6, maxpipe=2, ahead=2, peer="any", bad=False, ends=True, noise=False,
               simulate=None, depth=None, seed=None, timeout=600, cap=None, seeds=()):
    c = dict(Mode='"%s"' % mode, Ver=ver, NCh=nch, Multi=tla_bool(multi), MaxOps=maxops, MaxObj=maxobj, MaxChan=maxchan, MaxPipe=maxpipe, Ahead=ahead, Peer='"%s"' % peer,
             Fresh="TRUE", Bad=tla_bool(bad), Ends=tla_bool(ends), Noise=tla_bool(noise))
    r = tlc.run("Session", constants=c, init="Init", next_="Long" if simulate else "Next", invariants=INVS, constraints=["Emit"], simulate=simulate,
                depth=(maxops + 1) if simulate else None, seed=seed or ctx.seed, timeout=timeout, workers=8, raw=True)
    ctx.model(r, "%s mode=%s v%d ch=%d multi=%s ops=%d%s" % (name, mode, ver, nch, multi, maxops, " simulate" if simulate else ""))
    hs = sorted(set(r.emitted.get("T", [])))
    ctx.detail["tlc"][-1]["behaviours"] = len(hs)
    if cap and len(hs) > cap:
        # behaviours with 0, 1, 2, .. exchanges that succeed equally often, and for each of these every sequence of calls and outcomes
        # in turn, so that the many ways to send nonsense do not push out the rest
        random.Random(ctx.seed * 7 + cap).shuffle(hs); groups = {}
        for h in hs: f = tuple(SHAPE.findall(h)); groups.setdefault(sum(a in ("initialize", "frame", "state") or (a == "sreply" and b == "true") for a, b in zip(f[1:], f)), {}).setdefault(f, []).append(h)
        ctx.detail["tlc"][-1]["shapes"] = sum(map(len, groups.values())); hs = []
        for k, g in enumerate(sorted(groups.values(), key=lambda g: sum(map(len, g.values())))):
            share = (cap - len(hs)) // (len(groups) - k); shapes = list(g.values()); n = 0; got = []
            while len(got) < share and shapes: shapes = [s for s in shapes if len(s) > n]; got += [s[n] for s in shapes[:share - len(got)]]; n += 1
            hs += got
    hs = [tlc.decode(h) for h in hs]
    cfg = dict(mode=mode, ver=ver, nch=nch, multi=multi)
    return [(cfg, h) for h in hs]

WHY = {"alive": r"alive|terminat|clos", "object": r"object", "channel": r"channel|image", "mode": r"mode|multi|object|version", "count": r"count|number|object", "region": r"region|object"}
CH = [1, 2, 4]

NOISE = [b"hello world\n", b"\n", b"@@TRAX:unknown \"a\" \n", b"@@TRAX:framex\n", b"@@TRAX:\n", b"@@TRAX:quit;\n", b" @@TRAX:quit \n", b"@@TRAX:frame \"a\"b\n",
         b"@@TRAX:state \"1,2,3,4\"x \n", b"@@@TRAX:quit \n", b"@@trax:quit \n", b"@@TRA\n", b"plain @@TRAX:quit \n", b"\xff\xfe\x80 binary \x01\n", b"@@TRAX:initialize \"k=v\"\\ \n", b"x" * 5000 + b"\n"]
BADIMG = [b"image:2;2;rgb;AAAA", b"image:0;1;gray8;AA==", b"image:1;1;gray9;AA==", b"image:2;2;rgb", b"image:a;b;c;d", b"data:image/png", b"image:1;1;rgb;A", b"image:-1;-1;gray8;AA=="]
BADREG = ["1,2,3", "mask:0,0,-1,4,1,2", "1,2,3,4,5", "mask:", "mask:1,2,3", ""]

def to_cases(ctx, beh, opts=None, prefix="", focus=None, tcp_every=17):
    """Concrete scripts and judges for behaviours."""
    opts = opts or {}
    cases = []
    for n, (cfg, hist) in enumerate(beh):
        cases.append(make_case("%s%d" % (prefix, n), cfg, hist, random.Random(ctx.seed * 99991 + n), opts, focus, tcp=(tcp_every and n % tcp_every == 3)))
    return cases

class Bind:
    """Assigns concrete payloads to payload identifiers."""
    def __init__(self, rng, cfg, opts):
        self.rng, self.cfg, self.opts = rng, cfg, opts
        self.map = {}
        self.kinds = opts.get("kinds") or ("PMB" if cfg["mode"] == "server" else "PUMB")
    def img(self, i):
        if i not in self.map: self.map[i] = gen.rimage(self.rng, self.kinds)
        return self.map[i]
    def reg(self, i, special=False):
        if i == "special": return gen.mk_special(self.rng.choice([0, 1, 2, 7]))
        if i not in self.map: self.map[i] = gen.rregion(self.rng, special)
        return self.map[i]
    def props(self, i):
        if i == "none": return gen.Props()
        if i not in self.map:
            if i.startswith("why"):
                r = self.rng
                p = gen.Props(); p[b"trax.reason"] = gen.rbytes(r); self.map[i] = p
                if r.random() < .08: p[b"trax.reason"] *= r.choice([9, 40, 300])
            else:
                p = self.map[i] = gen.rprops(self.rng)
                if p and self.rng.random() < .03: k = self.rng.choice(sorted(p)); p[k] *= self.rng.choice([20, 200, 900])
        return self.map[i]

def expressible(cfg, hist):
    """Whether the C++ interface can make the calls of a behaviour."""
    return cfg["ver"] in (3, 4) and not (cfg["ver"] == 3 and cfg["multi"]) and not any(e["op"] in ("sreplys", "swaits") or (e["op"] == "sreply" and cfg["ver"] < 4 and len(e["call"]["objs"]) != 1) for e in hist)

class PPBind(Bind):
    """Payloads of the C++ interface: elements of object lists have no properties unless they come from the harness."""
    def __init__(self, rng, cfg, opts, hist):
        Bind.__init__(self, rng, cfg, opts)
        # a reply of one object can carry properties, and the harness's own messages can carry any
        self.own = set()
        for e in hist:
            if e["op"] in ("cinit", "cframe") or (e["op"] == "sreply" and len(e["call"]["objs"]) != 1):
                for r, p in e["call"]["objs"]: self.own.add(p)
    def props(self, i):
        if i in self.own: return gen.Props()
        return Bind.props(self, i)

ODD = {1: b"file:///x/y.jpg", 2: b"http://x/y.jpg", 4: b"image:1;1;gray8;QQ==", 8: b"data:image/png;iVBORw0KGgo="}
def announced(rng, hist):
    """The image formats a server announces: (mask, letters of the kinds it is sent, images of kinds it does not accept)."""
    seen = {x["v"] for e in hist if e["op"] == "inject" for m in e["sent"] for x in m["args"] if x["k"] == "img"}
    iff = rng.choice([13, 13, rng.randint(1, 15)])
    if "badimg" in seen: iff &= 13      # everything that is no other image could be an URL
    if not iff or (iff == 15 and "url" in seen): iff = 13
    return iff, "".join(c for c, k in zip("PUMB", (1, 2, 4, 8)) if iff & k), [v for k, v in ODD.items() if not iff & k]

def merged(a, b):
    p = gen.Props(a); p.update(b); return p

def make_case(id, cfg, hist, rng, opts, focus, tcp=False, cpp=False):
    b = PPBind(rng, cfg, opts, hist) if cpp else Bind(rng, cfg, opts)
    mode, ver, nch, multi = cfg["mode"], cfg["ver"], cfg["nch"], cfg["multi"]
    sot = ver < 4
    chmask = (1 << nch) - 1 if nch < 3 else 7
    if nch == 1 and ver >= 2 and rng.random() < 0.3: chmask = rng.choice([2, 4])
    if nch == 2 and rng.random() < 0.5: chmask = rng.choice([5, 6])
    if ver < 2: chmask = 1
    chans = [i for i in range(3) if chmask & CH[i]]
    iff = 15
    if mode == "server": iff, b.kinds, odd = announced(rng, hist)
    ops, checks = [], []
    ft = "t" if tcp else "f"
    def op(line, chk): ops.append(line); checks.append(chk)
    def skip(o): return None
    if not cpp and opts.get("rchunk", True) and rng.random() < 0.3: ops.append("rchunk %d" % rng.choice([1, 2, 3, 5, 64]))
    if not cpp and rng.random() < 0.15: ops.append("wchunk %d" % rng.choice([1, 3, 7]))
    C, S = "1", "2"
    if mode in ("closed", "client"): ops.append("open 1 c " + ft)
    if mode in ("closed", "server"):
        op("sset 2 %s %d 14 %d %d %d - - - -" % (ft, ver, iff, chmask, 1 if multi else 0), lambda o: None if o["ok"] else "server set-up failed")
    if mode == "closed": ops.append("pump 2 1")
    if mode == "client":
        ops.append("feed 1 " + H(gen.encode("hello", (), [(b"trax.version", b"%d" % ver), (b"trax.region", b"rectangle;polygon;mask;"), (b"trax.image", b"path;url;memory;buffer;"),
                   (b"trax.channels", b"".join([b"color;", b"depth;", b"ir;"][i] for i in chans))] + ([(b"trax.multiobject", b"1")] if multi else []))))
    if mode in ("closed", "client"): op("cset 1", lambda o: None if o["ok"] else "client set-up failed")
    if mode == "server": op("drain 2", skip)
    eof = {C: False, S: False}
    def imgs_lit(ids):
        full = ["~"] * 3
        for k, i in zip(chans, ids): full[k] = b.img(i).lit if i != "none" else "~"
        return ",".join(full)
    def imgs_out(ids):
        full = ["~"] * 3
        for k, i in zip(chans, ids): full[k] = b.img(i).out
        return ",".join(full)
    def objs_lit(objs):
        if not objs: return "-"
        return ";".join(b.reg(r).lit + "|" + b.props(p).lit() for r, p in objs)
    def objs_out(objs):
        if not objs: return "~"
        return ";".join(b.reg(r).out + "|" + b.props(p).out() for r, p in objs)
    def wire(m):
        a = []
        for x in m["args"]:
            if x["k"] == "img":
                if x["v"] == "badimg": a.append(rng.choice(BADIMG))
                elif x["v"] == "url": a.append(rng.choice(odd))
                else: a.append(b.img(x["v"]).text)
            elif x["v"] == "badreg": a.append(rng.choice(BADREG).encode())
            else: a.append(b.reg(x["v"]).text.encode())
        t = m["type"]
        if t == "state" and rng.random() < 0.3: t = "status"
        if rng.random() < 0.1: t = t.upper()
        return gen.encode(t, a, b.props(m["props"]).wire())
    alive = {C: True, S: True}
    def why_check(why, missing):
        def f(o):
            e = U(o["err"])
            if e is None or len(e) < 3: return "refused without a reason"
            if any(c < 32 or c > 126 for c in e) or b"%" in e: return "reason is not readable: %r" % e
            if not re.search(WHY[why], e.decode(), re.I): return "reason %r does not describe the refusal (%s)" % (e, why)
            if why == "channel":
                ns = re.findall(rb"\d+", e)
                if ns and str(missing).encode() not in ns: return "reason %r names the wrong channel (missing: %s)" % (e, missing)
            return None
        return f
    nmsgs = {"n": 0}
    def sent_check(k, types):
        def f(o):
            d = U(o["d"])
            ls = d.split(b"\n")
            if ls[-1] != b"": return "sent an incomplete message %r" % d[-80:]
            got = [l[7:].split(b" ")[0].lower() for l in ls[:-1]]
            want = [t.encode() for t in types]
            got = [b"state" if x == b"status" else x for x in got]
            if got != want: return "sent %r instead of %r" % (got, want)
            return None
        return f
    def alive_check(side, exp):
        return None
    cl_alive = sv_alive = True
    for i, e in enumerate(hist):
        side = C if e["side"] == "c" else S
        o_ = e["op"]; x = e["exp"]; call = e["call"]
        if o_ == "noise":
            if not eof[side]: ops.append("feed %s %s" % (side, H(rng.choice(NOISE))))
            continue
        if o_ == "inject":
            for m in e["sent"]: ops.append("feed %s %s" % (side, H(wire(m))))
            continue
        if o_ == "eof":
            ops.append("eof " + side); eof[side] = True
            continue
        if o_ in ("cinit", "cframe", "sreply", "sreplys", "term"):
            types = [m["type"] for m in e["sent"]]
            if o_ in ("cinit", "cframe"):
                missing = next((CH[chans[k]] for k, v in enumerate(call["imgs"]) if v == "none"), None)
                pl = b.props(call["props"]).lit()
                if pl == "-" and not cpp and rng.random() < 0.5: pl = "~"
                ol = objs_lit(call["objs"])
                if o_ == "cframe" and ol == "-" and rng.random() < 0.7: ol = "~"
                if cpp and o_ == "cinit" and len(call["objs"]) == 1 and rng.random() < .5: line = "cinitr 1 %s %s %s" % (imgs_lit(call["imgs"]), b.reg(call["objs"][0][0]).lit, pl)
                else: line = "%s 1 %s %s %s" % (o_, imgs_lit(call["imgs"]), ol, pl)
            elif o_ == "sreply" and sot:
                r, p = call["objs"][0]
                b.map.setdefault(r, gen.rregion(rng, special=True))
                line = "sreplys 2 %s %s" % (b.reg(r).lit, b.props(p).lit()); missing = None
            elif o_ == "sreply":
                for r, p in call["objs"]: b.map.setdefault(r, gen.rregion(rng, special=True))
                line = "sreply 2 %s" % objs_lit(call["objs"]); missing = None
                if cpp and len(call["objs"]) == 1: line = "sreplys 2 %s %s" % (b.reg(call["objs"][0][0]).lit, b.props(call["objs"][0][1]).lit())
            elif o_ == "sreplys":
                r, p = call["objs"][0]
                line = "sreplys 2 %s %s" % (b.reg(r).lit, b.props(p).lit()); missing = None
            else:
                w = b.props(call["props"])
                line = "term %s %s" % (side, H(w[b"trax.reason"]) if w else "~"); missing = None
            def chk(o, x=x, o_=o_, missing=missing, e=e):
                if bool(o["r"] == 0) != bool(x["ok"]): return "%s %s" % (o_, "refused a legal call (%r)" % U(o["err"]) if x["ok"] else "accepted an illegal call")
                if not x["ok"] and o["r"] != -1: return "%s returned %d" % (o_, o["r"])
                if x["ok"] and o["err"] != "~": return "%s succeeded but left the error %r" % (o_, U(o["err"]))
                if not x["ok"] and (focus in (None, "P09", "P08")): return why_check(x["why"], missing)(o)
                return None
            op(line, chk)
            other = S if side == C else C
            if mode == "closed" and not eof[other]:
                op("pump %s %s 100000000" % (side, other), sent_check(len(types), types))
            else:
                op("drain " + side, sent_check(len(types), types))
            if o_ == "term":
                op("info " + side, lambda o: None if (o["alive"] == 0 and o["r0"] == -1 and o["set"] == -1) else "handle still reports it is alive after terminate")
            continue
        if o_ in ("swait", "swaits", "cwait"):
            pin = "-" if (x["props"] != "none" or rng.random() < 0.7) else "~"
            name = o_
            if o_ == "swait" and sot: name = "swaits"
            one = cpp and not sot and len(x["objects"]) <= 1 and rng.random() < .4        # the forms for a single region
            if one: name = "swaits" if o_ == "swait" else "cwaitr"
            if cpp and o_ == "cwait" and sot and rng.random() < .5: name = "cwaitr"; one = True
            if cpp: pin = "-"
            line = "%s %s %s" % (name, side, pin)
            exp_r = {"error": -1, "initialize": 2, "frame": 3, "quit": 4, "state": 5}[x["res"]]
            want_img = imgs_out(x["images"]) if x["images"] else "~"
            if name in ("swaits", "cwaitr"): want_obj = b.reg(x["objects"][0][0]).out if x["objects"] else "~"
            else: want_obj = objs_out(x["objects"])
            p = b.props(x["props"])
            if o_ == "swait" and not sot and x["res"] == "quit":
                p = gen.Props((k, v) for k, v in p.items() if not k.startswith(b"trax."))
            if one and x["objects"]: p = merged(p, b.props(x["objects"][0][1]))
            want_props = p.out() if pin == "-" else "~"
            def chk(o, exp_r=exp_r, want_img=want_img, want_obj=want_obj, want_props=want_props, name=name, x=x, wrong=(o_ == "swaits")):
                if o["r"] != exp_r: return "%s returned %d, required %d (%s)" % (name, o["r"], exp_r, x["res"])
                if "images" in o and o["images"] != want_img: return "%s delivered images %s, required %s" % (name, o["images"][:300], want_img[:300])
                if o["objects"] != want_obj: return "%s delivered objects %s, required %s" % (name, o["objects"][:300], want_obj[:300])
                if cpp and exp_r == 4 and want_props == "-" and o["props"] == H(b"trax.reason") + "=-": pass
                elif o["props"] != want_props: return "%s delivered properties %s, required %s" % (name, o["props"][:300], want_props[:300])
                if exp_r != -1 and o["err"] != "~": return "%s succeeded but left the error %r" % (name, U(o["err"]))
                if exp_r == 4 and o["alive"] != 0: return "handle still alive after quit"
                if focus == "P09" and wrong: return why_check("mode" if o["alive"] else "alive", None)(o)
                return None
            op(line, chk)
            # a wait never writes
            op("drain " + side, lambda o: None if o["d"] == "-" else "a wait sent %r" % U(o["d"])[:80])
            continue
        raise RuntimeError("unknown step " + o_)
    # closing: clean-up of whatever is still alive sends exactly one quit, of anything else nothing
    for side in ([C, S] if mode == "closed" else [S] if mode == "server" else [C]):
        dead = any((e["op"] == "term" or (e["op"] in ("swait", "cwait") and e["exp"].get("res") == "quit")) and (C if e["side"] == "c" else S) == side for e in hist)
        op("clean " + side, lambda o: None if o["null"] == 1 and o["r"] == 0 else "clean-up failed")
        op("drain " + side, sent_check(0, [] if dead else ["quit"]))
    visible = ("cinitr", "cwaitr", "sset", "cset", "drain", "info", "cinit", "cframe", "sreply", "sreplys", "term", "swait", "swaits", "cwait", "clean")
    def judge(obs, checks=checks, ops=[o for o in ops if o.split(" ")[0] in visible or (o.startswith("pump") and len(o.split(" ")) > 3)]):
        for k, chk in enumerate(checks):
            if k >= len(obs): return "only %d of %d observations" % (len(obs), len(checks))
            m = chk(obs[k])
            if m: return "step %d (%s): %s" % (k, ops[k][:120], m)
        return None
    return Case(id, ops, judge, meta={"cfg": cfg, "hist": hist})
