"""P18 property collections (spec/Maps.tla, MapOps.tla), P20 object and image lists (spec/Lists.tla), P19 C++ objects (spec/Sharing.tla)."""
import math, random, struct
from vlib import build, gen, oracle, tlc
from vlib.core import Case, H, U
LEVEL = "model_checking"

def L(b): return list(b)
def f32(x): return struct.unpack("f", struct.pack("f", x))[0]
def djb2(s):
    h = 5381
    for c in s: h = (h * 33 + (c - 256 if c > 127 else c)) & (2**64 - 1)
    return h

def same_hash(rng, n, mod=None):
    """n different keys with the same hash value (modulo mod)."""
    if mod is None:
        a = rng.choice([b"Az", b"Bz", b"Cz"]); b = bytes([a[0] + 1, a[1] - 33])     # 33 * (c + 1) + (d - 33)
        out = [a + a, a + b, b + a, b + b]
        rng.shuffle(out); assert len({djb2(k) for k in out}) == 1
        return out[:n]
    seen = {}
    while True:
        k = bytes(rng.choice(b"abcdefgh._-XYZ0123456789") for _ in range(rng.randint(1, 6)))
        l = seen.setdefault(djb2(k) % mod, [])
        if k not in l: l.append(k)
        if len(l) >= n: return l

def key_families(rng):
    return [[b"a", b"b", b"c", b"d"], same_hash(rng, 4), same_hash(rng, 4, 32), [b"k", b"ka", b"kab", b"kabc"], [b"", b"x", b" ", b"\xff\x80"], [b"name", b"Name", b"NAME", b"nam"],
            [b"trax.version", b"trax.name", b"trax.reason", b"trax"], [b"q" * 64, b"q" * 65, b"q" * 300, b"q" * 299 + b"r"], [b"a=b", b'"', b"\\", b"\n"], same_hash(rng, 4, 8)]
VALUES = [[b"", b"17"], [b"longer than the other one", b"x"], [b"-3", b"no number"], [b"2.5", b""], [b"v" * 5000, b"w" * 17], [b"1" * 9, b"0"], [b"\xff\n\\\"=", b"1"], [b"nan?", b"4k"]]

def numbers(ctx, texts, name="values read as numbers"):
    texts = list(texts)
    return dict(zip(texts, oracle.ask("MapOps", "Number(rec.s)", [{"s": L(t[:400])} for t in texts], ctx, name=name)))

def check_number(kind, text, gi, gf, di=-77, df=-7.5):
    """The two numeric getters against what the specification says about the text (kind)."""
    gf = f32(float(gf)); t = text.decode("latin-1")
    if kind == "int":
        if int(gi) != int(t): return "value %r read as int gives %s" % (text, gi)
        if gf != f32(float(t)): return "value %r read as float gives %r" % (text, gf)
    elif kind == "dec":
        if gf != f32(float(t)): return "value %r read as float gives %r" % (text, gf)
    elif kind == "junk":
        if int(gi) != di: return "value %r is no number but read as int gives %s instead of the default" % (text[:80], gi)
        if gf != df: return "value %r is no number but read as float gives %r instead of the default" % (text[:80], gf)

def check_map(o, want, probes, kinds, what):
    """Output of pall against the map the specification gives."""
    if o["c"] != len(want) or o["n"] != len(want): return "%s: count %d, enumerated %d, expected %d" % (what, o["c"], o["n"], len(want))
    got = {}
    if o["v"] not in ("-", "~"):
        for e in o["v"].split("&"):
            k, v = e.split("="); k, v = U(k or "-"), U(v or "-")
            if k in got: return "%s: key %r enumerated twice" % (what, k)
            got[k] = v
    if got != want: return "%s: enumeration gives %s, expected %s" % (what, str(got)[:300], str(want)[:300])
    for k, g in zip(probes, o["g"].split(",")):
        v, has, gi, gf = g.split(":"); v = U(v or "-")
        if v != want.get(k): return "%s: key %r has value %r, expected %r" % (what, k[:80], v and v[:80], want.get(k) and want[k][:80])
        if (has == "1") != (k in want): return "%s: has(%r) is %s" % (what, k[:80], has)
        m = check_number("junk", b"", gi, gf) if k not in want else check_number(kinds.get(want[k], "unsure"), want[k], gi, gf)
        if m: return "%s: key %r: %s" % (what, k[:80], m)

def P18(ctx):
    exe = build.harness("trxh")
    rng = random.Random(ctx.seed + 18)
    def run(c, **kw):
        r = tlc.run("Maps", constants=c, raw=True, **kw); ctx.model(r, "Maps %s" % c); return r
    run(dict(NS=2, NK=2, NV=2, MaxOps=60), init="Init", next_="Next", view="View", properties=["Local", "Keeps"])
    cfgs = ctx.q([(2, 3, 2, None)], [(2, 3, 2, None), (3, 2, 1, None), (2, 4, 2, 60000), (2, 2, 3, None)])
    fams = key_families(rng)
    kinds = numbers(ctx, {v for p in VALUES for v in p} | {b"2.5", b"33"})
    cases = []
    for ns, nk, nv, cap in cfgs:
        hs = run(dict(NS=ns, NK=nk, NV=nv, MaxOps=60), init="Init", next_="Next", view="View", action_constraints=["Emit"]).emitted["H"]
        if cap and len(hs) > cap: hs = rng.sample(hs, cap)
        for n, h in enumerate(map(tlc.decode, hs)):
            keys = fams[n % len(fams)][:nk]; vals = (VALUES[(n // len(fams)) % len(VALUES)] + [b"2.5", b"33"])[:nv]
            probes = keys + [b"absent", keys[0] + b"!"]
            ops = []
            for o in h["h"]:
                i, j = o["i"], o["j"]
                ops.append({"new": "pnew %d" % i, "set": "pset %d %s %s" % (i, H(keys[o["k"] - 1]) if o["k"] else "-", H(vals[o["v"] - 1]) if o["v"] else "-"), "copy": "pcopy %d %d" % (i, j),
                            "append": "pappend %d %d %d" % (j, i, o["k"]), "clear": "pclear %d" % i, "rel": "prel %d" % i}[o["f"]])
            live = [i for i in range(ns) if h["m"][i]["ok"]]
            ops += ["pall %d %s" % (i + 1, " ".join(map(H, probes))) for i in live]
            def judge(o, h=h, keys=keys, vals=vals, probes=probes, live=live):
                if len(o) != len(live): return "observations missing: %s" % str(o)[:300]
                for i, x in zip(live, o):
                    m = check_map(x, {keys[k]: vals[v - 1] for k, v in enumerate(h["m"][i]["e"]) if v}, probes, kinds, "collection %d" % (i + 1))
                    if m: return m
            cases.append(Case("t%d.%d.%d/%d" % (ns, nk, nv, n), ops, judge, {"calls": h["h"][-12:]}, leakcheck=True))
    ctx.replay(exe, cases, what="properties", limit=25)
    # ---- long histories of random calls, their meaning computed by the specification
    recs = []; scripts = []
    for n in range(ctx.q(500, 6000)):
        keys = list({k for f in rng.sample(fams, 2) for k in f}) + [b"p%d" % i for i in range(rng.randint(0, 40))]
        keys = [k for k in keys if len(k) < 80]
        ok = [False] * 3; sem = []; ops = []; show = []
        for step in range(ctx.q(40, 120)):
            i = rng.randrange(3); j = rng.randrange(3); q = rng.random(); k = rng.choice(keys)
            e = dict(f="", i=i + 1, j=j + 1, k=[], v=[], o=0)
            if not ok[i] or q < .03: e["f"] = "new"; ops.append("pnew %d" % i); ok[i] = True
            elif q < .08: e["f"] = "rel"; ops.append("prel %d" % i); ok[i] = False
            elif q < .13: e["f"] = "clear"; ops.append("pclear %d" % i)
            elif q < .2 and ok[j]: e["f"] = "copy"; ops.append("pcopy %d %d" % (i, j))
            elif q < .35 and ok[j]: e["f"] = "append"; e["o"] = rng.randrange(2); ops.append("pappend %d %d %d" % (j, i, e["o"] * rng.choice([1, 1, 7])))
            elif q < .45:
                v = rng.choice([0, 1, -1, 2**31 - 1, -2**31, rng.randint(-10**6, 10**6)])
                e.update(f="set", k=L(k), v=L(str(v).encode())); ops.append("pseti %d %s %d" % (i, H(k), v))
            else:
                v = rng.choice([b"", b"x", b"12", b"-7", b"8.25", b"?", rng.randbytes(rng.randint(0, 40)).replace(b"\0", b"\1"), b"abc" * rng.randint(0, 30)])
                e.update(f="set", k=L(k), v=L(v)); ops.append("pset %d %s %s" % (i, H(k), H(v)))
            sem.append(e)
            if ok[i] and (step % 3 == 0 or rng.random() < .2):
                pr = rng.sample(keys, min(4, len(keys))) + [b"absent"]
                ops.append("pall %d %s" % (i, " ".join(map(H, pr)))); show.append((len(sem) - 1, i, pr))
        recs.append({"ops": sem}); scripts.append((ops, show))
    means = oracle.ask("MapOps", "LET r == Run(rec.ops, 3) IN [i \\in DOMAIN r |-> [j \\in 1..3 |-> r[j][i].m]]".replace("[i \\in DOMAIN r |-> [j \\in 1..3 |-> r[j][i].m]]", "[i \\in DOMAIN r |-> [j \\in 1..3 |-> r[i][j].m]]"), recs, ctx, name="random histories of calls")
    allv = {bytes(e[1]) for m in means for st in m for c in st for e in c}
    kinds.update(numbers(ctx, allv, "values of the histories"))
    cases = []
    for n, (m, (ops, show)) in enumerate(zip(means, scripts)):
        def judge(o, m=m, show=show):
            if len(o) != len(show): return "observations missing"
            for x, (step, i, pr) in zip(o, show):
                r = check_map(x, {bytes(k): bytes(v) for k, v in m[step][i]}, pr, kinds, "collection %d after call %d" % (i, step + 1))
                if r: return r
        cases.append(Case("h%d" % n, ops, judge, leakcheck=True))
    ctx.replay(exe, cases, what="history", limit=25)
    # ---- values read as numbers
    ts = [tlc.decode(x) for x in run(dict(NS=1, NK=1, NV=1, MaxOps=ctx.q(3, 4)), init="TInit", next_="TNext", constraints=["TEmit"]).emitted["T"]]
    ts = [(bytes(x["s"]), x["n"]) for x in ts]
    extra = [str(rng.randint(-10**9 + 1, 10**9 - 1)).encode() for _ in range(ctx.q(1500, 20000))] + [("%d.%0*d" % (rng.randint(-9999, 9999), rng.randint(1, 4), rng.randint(0, 9))).encode() for _ in range(ctx.q(1500, 20000))]
    extra += [rng.randbytes(rng.randint(1, 5)).replace(b"\0", b"z") for _ in range(ctx.q(1500, 20000))]
    ts += list(numbers(ctx, set(extra), "random values read as numbers").items())
    ts = [t for t in ts if t[1] != "unsure"]
    cases = []
    for n in range(0, len(ts), 8):
        part = ts[n:n + 8]; ops = ["pnew 1"]; di, df = rng.choice([(-77, -7.5), (0, 0.0), (5, 0.25), (2**31 - 1, 1e30)])
        for i, (t, _) in enumerate(part): ops += ["pset 1 %s %s" % (H("k%d" % i), H(t)), "pgeti 1 %s %d" % (H("k%d" % i), di), "pgetf 1 %s %r" % (H("k%d" % i), df)]
        ops += ["pgeti 1 %s %d" % (H("none"), di), "pgetf 1 %s %r" % (H("none"), df)]
        def judge(o, part=part, di=di, df=df):
            for i, (t, kd) in enumerate(part + [(b"", "junk")]):
                m = check_number(kd, t, o[2 * i]["v"], o[2 * i + 1]["v"], di, f32(df))
                if m: return m
        cases.append(Case("n%d" % n, ops, judge))
    # numbers set as numbers
    for n in range(ctx.q(300, 4000)):
        v = rng.choice([rng.randint(-2**31, 2**31 - 1), rng.randint(-1000, 1000)]); q = rng.randint(-10**6, 10**6) / 4
        def judge(o, v=v, q=q):
            if o[0]["v"] != v: return "set_int %d is read as %s" % (v, o[0]["v"])
            if float(o[1]["v"]) != q: return "set_float %r is read as %s" % (q, o[1]["v"])
            if U(o[2]["v"]) != str(v).encode(): return "set_int %d is the string %r" % (v, U(o[2]["v"]))
        cases.append(Case("s%d" % n, ["pnew 1", "pset 1 %s %s" % (H("i"), H(b"17")), "pseti 1 %s %d" % (H("i"), v), "psetf 1 %s %r" % (H("f"), q), "pgeti 1 %s 3" % H("i"), "pgetf 1 %s 3" % H("f"), "pget 1 %s" % H("i")], judge))
    ctx.replay(exe, cases, what="number", limit=25)
    ctx.rules.append("every transition of the reachable graph of Maps.tla (%s collections/keys/values) from a shortest history, with ten families of keys (equal hash values, prefixes, empty, long) and eight of values; random histories of %d calls; every text of at most %d pieces read as a number" % (", ".join("%d/%d/%d" % c[:3] for c in cfgs), ctx.q(40, 120), ctx.q(3, 4)))
    ctx.assumptions += ["integers beyond nine digits, exponents, hexadecimal and other forms of strtod read as numbers are not judged"]

# ---------------------------------------------------------------------------------------------------- P20
REG = [("S:3", "S:4"), ("R:1:2:3:4", "R:2:2:3:4"), ("G:0:0:4:0:4:4", "G:1:0:4:0:4:4"), ("K:2:3:2:2:0110", "K:2:3:2:2:1110"), ("K:0:0:1:3:010", "K:0:0:1:3:110"), ("G:-5:2:7:1:8:9:0:0.5", "G:-4:2:7:1:8:9:0:0.5")]
IMG = ["P:" + H(b"/a/b.jpg"), "U:" + H(b"http://x/y"), "M:2:1:1:0102", "M:1:2:3:010203040506", "B1:" + H(gen.PNG + b"q"), "B2:" + H(gen.JPG + b"qq")]

def canon(l): return l.replace("|-", "").replace("|~", "")

def P20(ctx):
    exe = build.harness("trxh")
    rng = random.Random(ctx.seed + 20)
    def run(next_, c, **kw):
        r = tlc.run("Lists", constants=c, init="Init", next_=next_, view="View", action_constraints=["Emit"], invariants=["Typed"] if next_ == "Next" else [], raw=True, **kw); ctx.model(r, "Lists %s %s" % (next_, c))
        return r.emitted["H"]
    tlc_small = tlc.run("Lists", constants=dict(NL=2, NR=1, MaxLen=2, NV=1, MaxOps=60), init="Init", next_="Next", view="View", invariants=["Typed"], properties=["Local"]); ctx.model(tlc_small, "Lists Local")
    cases = []
    for c, cap in ctx.q([(dict(NL=2, NR=1, MaxLen=2, NV=2, MaxOps=60), 15000), (dict(NL=1, NR=1, MaxLen=4, NV=2, MaxOps=60), 6000), (dict(NL=2, NR=1, MaxLen=4, NV=2, MaxOps=5), 9000), (dict(NL=2, NR=1, MaxLen=40, NV=2, MaxOps=40), 1200)],
                        [(dict(NL=2, NR=1, MaxLen=2, NV=2, MaxOps=60), None), (dict(NL=1, NR=2, MaxLen=4, NV=2, MaxOps=60), 60000), (dict(NL=2, NR=1, MaxLen=4, NV=2, MaxOps=6), 80000), (dict(NL=3, NR=1, MaxLen=3, NV=1, MaxOps=6), 80000), (dict(NL=2, NR=1, MaxLen=40, NV=2, MaxOps=40), 12000)]):
        hs = run("Walk", c, simulate=ctx.q(200, 3000), depth=c["MaxOps"] + 1, seed=ctx.seed) if c["MaxLen"] > 10 else run("Next", c)
        if cap and len(hs) > cap: hs = rng.sample(hs, cap)
        for n, h in enumerate(map(tlc.decode, hs)):
            reg = ["S:0"] + list(REG[n % len(REG)]); key = [b"", b"k", b"label", b"a.b-c_d"][n % 4] or b"score"; vals = [None, b"one", b"2" * (n % 50)]
            size = {}; ops = []; out = lambda hi: rng.choice([hi, hi + 1, hi + 7, 2**20, 2**31 - 1]) ; low = lambda: rng.choice([-1, -1, -2, -1000, -2**31])
            def at(i, x): return low() if x == 0 else (x - 1 if x <= size.get(i, 0) else out(size.get(i, 0)))
            cur = {}
            for o in h["h"]:
                f, i, j, k, v = o["f"], o["i"], o["j"], o["k"], o["v"]
                if f == "new": ops.append("onew %d %d" % (i, j)); size[i] = j
                elif f == "rel": ops.append("orel %d" % i); size[i] = 0
                elif f == "set": ops.append("osetslot %d %d %d" % (i, at(i, j), k))
                elif f == "setown": ops.append("osetown %d %d %d %d" % (i, j - 1, k, v - 1))
                elif f == "prop": ops.append("oprop %d %d %s %s" % (i, at(i, j), H(key), H(vals[v])))
                elif f == "append": ops.append("oappend %d %d" % (i, j)); size[i] += size[j]
                elif f == "rnew": ops.append("rnew %d %s" % (i, reg[v])); cur[i] = v
                elif f == "rmut": ops.append("rmut %d %d" % (i, v - cur[i])); cur[i] = v
            last = h["h"][-1]
            live = [i for i in range(c["NL"]) if h["ol"][i]["ok"]]; regs = [i for i in range(c["NR"]) if h["r"][i]]
            probe = []
            for i in live:
                ops.append("oall %d" % (i + 1)); s = len(h["ol"][i]["e"])
                for x in (low(), out(s)): ops += ["oget %d %d" % (i + 1, x), "oprops %d %d" % (i + 1, x)]
            for i in regs: ops.append("rshow %d" % (i + 1))
            def judge(o, h=h, reg=reg, key=key, vals=vals, live=live, regs=regs):
                o = [x for x in o if x["op"] in ("oall", "oget", "oprops", "rshow")]
                if len(o) != 5 * len(live) + len(regs): return "observations missing"
                for i in live:
                    e = h["ol"][i]["e"]; a, o = o[:5], o[5:]
                    want = [reg[v] + "|" + ("-" if p == 0 else "%s=%s" % (H(key), H(vals[p]).replace("-", "") if vals[p] == b"" else H(vals[p]))) for v, p in e]
                    got = [x for x in a[0]["v"].split(";")] if a[0]["c"] else []
                    if a[0]["c"] != len(e): return "list %d has %d elements instead of %d" % (i + 1, a[0]["c"], len(e))
                    if len(got) != len(want) or any(g.rstrip("-") != w.rstrip("-") for g, w in zip(got, want)): return "list %d holds %s instead of %s" % (i + 1, got, want)
                    for x in a[1:]:
                        if x["v"] != "~": return "an index outside list %d gives %s" % (i + 1, x)
                for i, x in zip(regs, o):
                    if x["v"] != reg[h["r"][i]]: return "the caller's region is %s instead of %s" % (x["v"], reg[h["r"][i]])
            cases.append(Case("o%d%d%d/%d" % (c["NL"], c["NR"], c["MaxLen"], n), ops, judge, {"calls": h["h"][-10:]}, leakcheck=True))
    ctx.replay(exe, cases, what="objects", limit=25)
    cases = []
    hs = run("INext", dict(NL=ctx.q(1, 2), NR=1, MaxLen=1, NV=3, MaxOps=60))
    if len(hs) > 30000: hs = rng.sample(hs, 30000)
    for n, h in enumerate(map(tlc.decode, hs)):
        im = [IMG[(n + t) % len(IMG)] for t in range(3)]
        ops = ["inew %d %s" % (t + 1, im[t]) for t in range(3)]
        for o in h["h"]: ops.append({"lnew": "lnew %d" % o["i"], "lrel": "lrel %d" % o["i"], "lset": "lset %d %d %s" % (o["i"], o["j"], o["v"] or "~")}[o["f"]])
        live = [i for i in range(len(h["ol"])) if h["ol"][i]["ok"]]
        for i in live: ops += ["lall %d" % (i + 1)] + ["lget %d %d" % (i + 1, x) for x in (1, 2, 4, 0, 3, 5, 7, 8, 16, 4096, -1, 2**31 - 1)]
        def judge(o, h=h, im=im, live=live):
            o = [x for x in o if x["op"] in ("lall", "lget")]
            if len(o) != 13 * len(live): return "observations missing"
            for i in live:
                a, o = o[:13], o[13:]
                want = [im[v - 1] if v else "~" for v in h["ol"][i]["e"]] + ["~"] * 9
                got = [x["v"] for x in a[1:]]
                if not all(g == w for g, w in zip(got, want)): return "the channels of list %d hold %s instead of %s" % (i + 1, got, want)
        cases.append(Case("i/%d" % n, ops, judge, {"calls": h["h"][-10:]}, leakcheck=True))
    # lists that own their images
    for n in range(ctx.q(150, 1500)):
        pick = [rng.choice([None] + IMG) for _ in range(3)]
        ops = ["lnew 1"] + ["lgive 1 %d %s" % (ch, im) for ch, im in zip((1, 2, 4), pick) if im] + ["lall 1", "lclear 1", "lall 1", "lgive 1 2 %s" % IMG[0], "lclear 1", "lclear 1", "lall 1", "lrel 1"]
        def judge(o, pick=pick):
            if o[0]["v"].split(",") != [x or "~" for x in pick]: return "images %s are listed as %s" % (pick, o[0]["v"])
            for x in o[1:3]:
                if x["v"] != "~,~,~": return "a cleared list holds %s" % x["v"]
        cases.append(Case("own/%d" % n, ops, judge, leakcheck=True))
    for n in range(8):
        cases.append(Case("count/%d" % n, ["lcount %d" % n], lambda o, n=n: None if o[0]["v"] == bin(n).count("1") else "channels %d are %d images" % (n, o[0]["v"])))
    ctx.replay(exe, cases, what="images", limit=25)
    ctx.rules.append("every transition of the reachable graphs of Lists.tla (sampled where larger than the tier's bound), with six kinds of regions, properties, indices outside on both sides, then every list, every probe and every caller's region compared")

# ---------------------------------------------------------------------------------------------------- P19
# kinds of objects: the literals of the contents 1 and 2, and whether an empty object can be changed in place
OBJ = {"S": ("R", ["S:7", "S:-3"], True), "R": ("R", ["R:1:2:3:4", "R:-1.5:2:3:0.25"], True), "M": ("R", ["S:2", "R:5:6:7:8"], True),
       "G": ("R", ["G:1:2:30:4:5:60", "G:2:2:30:4:5:60.5"], False), "K": ("R", ["K:3:4:3:2:101100", "K:3:4:3:2:011011"], False),
       "I": ("I", ["M:2:2:1:01020304", "M:2:2:1:05020306"], False), "J": ("I", ["M:1:3:3:010203040506070809", "M:1:3:3:11020304050607080a"], False),
       "P": ("P", ["6b=31", "6b=32"], True), "Q": ("P", ["-=%s&6b6579=31" % H(b"v" * 300), "-=78&6b6579=-"], True)}
INIT = "S:0"
GONE, NONE = -2, -10

def sharing_cases(ctx, rng, hs, kind, tag, lists=None, nlen=1, sessions=False):
    """Cases that replay transitions of Sharing.tla with objects of one kind; lists is L, O or None."""
    pool, vals, blank = OBJ[kind]
    def lit(v): return "~" if v == 0 and pool != "P" else "-" if v == 0 else INIT if v == 9 else vals[v - 1]
    def inchan(e): return [1, 2, 4][e - 1] if 1 <= e <= nlen else rng.choice([0, 3, 8, 64, -1])
    def index(e): return e - 1 if 1 <= e <= nlen else rng.choice([-1, -5]) if e < 1 else rng.choice([nlen, nlen + 1, 2**20])
    out = []
    for n, h in hs:
        ops = []; av = {}; al = {}; ok = True
        for o in h["h"]:
            f, i, j, k, v = o["f"], o["i"], o["j"], o["k"], o["v"]
            if f == "new":
                ops.append("new %s %d %s" % (pool, i, lit(v))); av[i] = v
            elif f == "def": ops.append("def %s %d" % (pool, i)); av[i] = 0
            elif f in ("copy", "asg", "mvc", "mva"): ops.append("%s %s %d %d" % (f, pool, i, j)); av[i] = av[j]
            elif f == "del": ops.append("del %s %d" % (pool, i))
            elif f == "mut":
                if (av[i] == 0 and not blank) or (av[i] == 9 and kind in "GK"): ok = False; break
                ops.append("mut %s %d %s" % (pool, i, lit(v))); av[i] = v
            elif f == "lnew":
                if lists == "O": ops.append("osize %d %d" % (i, nlen)); al[i] = [9] * nlen
                else: ops.append("def L %d" % i); al[i] = [0] * nlen
            elif f in ("lcopy", "lasg", "lmvc", "lmva"): ops.append("%s %s %d %d" % (f[1:], lists, i, j)); al[i] = list(al[j])
            elif f == "ldel": ops.append("del %s %d" % (lists, i))
            elif f == "lset":
                ops.append("oset %d %d %d" % (i, index(j), k) if lists == "O" else "lset %d %d %d" % (i, inchan(j), k))
                if 1 <= j <= nlen: al[i] = list(al[i]); al[i][j - 1] = av[k]
            elif f == "lget":
                ops.append("oget %d %d %d" % (j, k - 1, i) if lists == "O" else "lget %d %d %d" % (j, [1, 2, 4][k - 1], i)); av[i] = al[j][k - 1]
        if not ok: continue
        want = []
        for i, v in enumerate(h["v"]):
            if v not in (GONE, NONE): ops.append("show %s %d" % (pool, i + 1)); want.append(("show", lit(v)))
        for i, e in enumerate(h["l"]):
            if not e or e == [GONE]: continue
            ops.append("show %s %d" % (lists, i + 1)); want.append(("show", ";".join(lit(v) + "|-" for v in e) if lists == "O" else ",".join([lit(v) for v in e] + ["~"] * (3 - nlen))))
            if lists == "O":
                for x in (-1, nlen, 2**31 - 1): ops.append("oprobe %d %d" % (i + 1, x)); want.append(("oprobe", "~"))
                if sessions:
                    f = "sendO" if n % 2 and not any(lit(v)[0] == "S" for v in e) else "replyO"      # a request has no special regions
                    ops.append("%s %d%s" % (f, i + 1, " -" if f == "sendO" else "")); want.append((f, ";".join(lit(v) + "|-" for v in e)))
            else:
                for x in (0, 8, 3): ops.append("lprobe %d %d" % (i + 1, x)); want.append(("lprobe", "~"))
                ch = sum(1 << x for x, v in enumerate(e) if v)
                if sessions and ch: ops.append("sendL %d %d" % (i + 1, ch)); want.append(("sendL", ",".join([lit(v) for v in e] + ["~"] * (3 - nlen))))
        def judge(o, want=want):
            if len(o) != len(want): return "observations missing or assignment does not return its object: %s" % str(o)[:300]
            for x, (op, w) in zip(o, want):
                got = x["v"] if op in ("show", "oprobe", "lprobe") else (x.get("images") if op == "sendL" else x.get("objects"))
                if got != w: return "%s: %s instead of %s" % (op, str(x)[:300], w)
        out.append(Case("%s/%d" % (tag, n), ops, judge, {"calls": h["h"][-12:]}, leakcheck=True))
    return out

def P19(ctx):
    exe = build.harness("trxpp")
    rng = random.Random(ctx.seed + 19)
    def run(c, **kw):
        kw.setdefault("invariants", ["Refines", "Exact"])
        r = tlc.run("Sharing", constants=c, init="Init", next_="Next", view="View", action_constraints=["Emit"], raw=True, timeout=700, **kw); ctx.model(r, "Sharing %s" % c)
        return r.emitted["H"]
    def take(hs, n): return list(enumerate(map(tlc.decode, hs if not n or len(hs) <= n else rng.sample(hs, n))))
    C = lambda ns, nl, ln, nv, mo, er, mb: dict(NS=ns, NL=nl, Len_=ln, NV=nv, MaxOps=mo, ElemRes="TRUE" if er else "FALSE", MutBlank="TRUE" if mb else "FALSE")
    cases = []
    # objects on their own
    for mb, kinds in ((True, "SRMPQ"), (False, "GKIJ")):
        hs = run(C(3, 0, 1, 2, 60, True, mb), properties=["Local"])
        for k in kinds: cases += sharing_cases(ctx, rng, take(hs, ctx.q(3500, None)), k, "objects-" + k)
    # with lists of them
    for ns, nl, ln, nv, mo, er, kinds in ctx.q([(2, 1, 1, 2, 60, True, "SRGK"), (2, 1, 2, 1, 60, False, "IJ"), (1, 2, 2, 1, 7, True, "MK"), (2, 2, 1, 1, 7, False, "IJ"), (1, 2, 1, 2, 60, True, "RG")],
                                               [(2, 1, 1, 2, 60, True, "SRGKM"), (2, 1, 2, 1, 60, False, "IJ"), (1, 2, 2, 1, 9, True, "MK"), (2, 2, 1, 1, 60, False, "IJ"), (1, 2, 1, 2, 60, True, "RG"), (1, 3, 1, 1, 8, True, "SK"), (2, 1, 3, 1, 8, False, "I")]):
        hs = run(C(ns, nl, ln, nv, mo, er, kinds[0] in "SRM"))
        for k in kinds: cases += sharing_cases(ctx, rng, take(hs, ctx.q(2200, 60000 if len(kinds) > 1 else None)), k, "lists%d%d%d-%s" % (ns, nl, ln, k), "O" if er else "L", ln, sessions=True)
    # long random behaviours
    for ns, nl, ln, er, kinds in ((4, 3, 2, True, "MKG"), (4, 3, 3, False, "IJ"), (5, 0, 1, True, "PQS")):
        r = tlc.run("Sharing", constants=C(ns, nl, ln, 2, 40, er, kinds[0] in "SRMP"), init="Init", next_="RandomNext", invariants=["LastE"], raw=True, simulate=ctx.q(150, 2000), depth=41, seed=ctx.seed)
        ctx.model(r, "Sharing simulation %d objects, %d lists" % (ns, nl))
        for k in kinds: cases += sharing_cases(ctx, rng, take(r.emitted.get("H", []), None), k, "random-" + k, None if not nl else "O" if er else "L", ln, sessions=True)
    ctx.replay(exe, cases, what="sharing", limit=25)
    # ---- values that arrive in sessions do not change copies of what was there before, and the other way round
    cases = []
    for n in range(ctx.q(1500, 20000)):
        cases.append(transfer(rng, n))
    ctx.replay(exe, cases, what="transfer", limit=25)
    ctx.rules.append("every transition (sampled beyond the tier's bound) of Sharing.tla for three objects, and for objects with lists, replayed on regions of every kind, memory images, property sets, object lists and image lists; random behaviours of 40 calls; all compared with the values of the model, with allocations accounted and memory errors trapped")
    ctx.assumptions += ["moved-from objects are only destroyed or assigned to"]

def rprops(rng):
    return "&".join("%s=%s" % (H(k), H(v)) for k, v in sorted({rng.choice([b"a", b"b", b"key", b"x.y"]): rng.choice([b"1", b"zz", b"q q", b'"\\\n']) for _ in range(rng.randint(1, 3))}.items()))
def addprops(a, b):
    d = {}
    for t in (a, b):
        if t not in ("-", ""): d.update(e.split("=") for e in t.split("&"))
    return "&".join("%s=%s" % (k, d[k]) for k in sorted(d, key=lambda k: bytes.fromhex(k))) or "-"

def transfer(rng, n):
    """One random step of a session whose results are stored into objects that share their value with copies."""
    regs = [v for k in "SRMGK" for v in OBJ[k][1]]
    reg = lambda: rng.choice(regs)
    elems = lambda m: ";".join("%s|%s" % (reg(), rng.choice(["-", rprops(rng)])) for _ in range(m))
    imgs = ["%s,~,~" % rng.choice(IMG), "~,%s,~" % rng.choice(IMG), "%s,%s,~" % (rng.choice(IMG), rng.choice(IMG)), "%s,%s,%s" % tuple(rng.choice(IMG) for _ in range(3))]
    inlit = lambda l: ",".join(x if x[0] != "B" else "B:" + x[3:] for x in l.split(","))
    old_r, old_p, old_i = reg(), rng.choice(["-", rprops(rng)]), rng.choice(imgs)
    old_o = ";".join("%s|-" % reg() for _ in range(rng.randint(1, 3)))
    ops = ["new R 1 " + old_r, "copy R 2 1", "new P 1 " + old_p, "copy P 2 1", "new L 1 " + inlit(old_i), "copy L 2 1", "new O 1 " + old_o, "copy O 2 1"]
    if rng.random() < .2: ops += ["def R 1", "def P 1", "def L 1", "def O 1"]
    fresh_p = "def P 1" in ops
    kind = rng.choice(["recvR", "recvO", "waitR", "waitO", "sendR", "replyR"])
    if kind[:4] in ("recv", "send"): regs = [v for v in regs if v[0] != "S"]
    if kind == "sendR": old_r2 = reg()
    new_p = rng.choice(["-", rprops(rng)]); img = rng.choice(imgs); want = []
    if kind in ("recvR", "recvO"):
        sot = rng.random() < .4 and kind == "recvR"
        ob = elems(1 if kind == "recvR" else rng.randint(1, 4))
        if sot: ob = ob.split("|")[0] + "|-"
        if kind == "recvR": ops.append("recvR 1 1 %s %s %s %s" % (inlit(img), ob, new_p, "sot" if sot else "mot"))
        else: ops.append("recvO 1 1 1 %s %s %s" % (inlit(img), ob, new_p))
        want = dict(call=0, r=2, images=img)
        if kind == "recvR": want["region"] = ob.split("|")[0]
        else: want["objects"] = ";".join(e.split("|")[0] + "|" + sortp(e.split("|")[1]) for e in ob.split(";"))
        if kind == "recvR" and not sot: got_p = addprops(new_p, ob.split("|")[1])
        else: got_p = new_p
        want["_props"] = got_p
    elif kind in ("waitR", "waitO"):
        ver = 3 if kind == "waitR" and rng.random() < .5 else 4
        ob = elems(1 if kind == "waitR" else rng.randint(1, 4))
        ops.append("waitR 1 1 %s %d" % (ob, ver) if kind == "waitR" else "waitO 1 1 %s" % ob)
        want = dict(w=2, call=0, r=5)
        if kind == "waitR": want["region"] = ob.split("|")[0]; want["_props"] = ob.split("|")[1]
        else: want["objects"] = ";".join(e.split("|")[0] + "|" + sortp(e.split("|")[1]) for e in ob.split(";")); want["_props"] = "-"
    elif kind == "sendR":
        ops += ["new R 3 " + old_r2, "new P 3 " + new_p, "sendR 3 3", "show R 3", "show P 3"]; want = dict(call=0, r=2, objects=old_r2 + "|-", props=sortp(new_p))
    else:
        sot = rng.random() < .5
        ops += ["new R 3 " + old_r, "new P 3 " + new_p, "replyR 3 3 %s" % ("sot" if sot else "mot"), "show R 3", "show P 3"]; want = dict(w=2, call=0, r=5, objects=old_r + "|" + sortp(new_p))
    ops += ["show R 2", "show P 2", "show L 2", "show O 2"]
    # the copies are changed: what was received stays
    ops += ["new R 2 S:99", "new P 2 7a=7a", "del L 2", "del O 2", "show R 1", "show P 1", "show L 1", "show O 1"]
    if kind[:4] in ("recv", "wait"): ops += ["del R 2", "del P 2"]
    def judge(o):
        x = next(y for y in o if y["op"] == kind)
        for k, v in want.items():
            if k == "_props": continue
            if x[k] != v: return "%s: %s is %s instead of %s: %s" % (kind, k, x[k], v, str(x)[:300])
        if "_props" in want:
            # entries that arrived are there; nothing else than what was there before
            got = x["props"]; base = "-" if fresh_p else old_p
            if got not in (sortp(want["_props"]), addprops(base, want["_props"])): return "%s: the properties are %s instead of %s" % (kind, got, want["_props"])
        sh = {}
        for y in o:
            if y["op"] == "show": sh.setdefault((y["k"], y["i"]), []).append(y["v"])
        if sh[("R", 2)][0] != old_r or sh[("P", 2)][0] != sortp(old_p) or sh[("L", 2)][0] != old_i or sh[("O", 2)][0] != old_o: return "%s changed a copy of an earlier value: %s" % (kind, sh)
        if kind in ("sendR", "replyR"):
            if sh[("R", 3)][0] != (old_r2 if kind == "sendR" else old_r) or sh[("P", 3)][0] != sortp(new_p): return "%s changed the value it sent: %s" % (kind, sh)
        else:
            if "region" in want and sh[("R", 1)][-1] != want["region"]: return "%s: the region is later %s" % (kind, sh)
            if sh[("P", 1)][-1] != x["props"]: return "%s: the properties are later %s" % (kind, sh)
            if "images" in want and kind == "recvO" and sh[("L", 1)][-1] != want["images"]: return "%s: the images are later %s" % (kind, sh)
            if "objects" in want and sh[("O", 1)][-1] != want["objects"]: return "%s: the objects are later %s" % (kind, sh)
    return Case("%s/%d" % (kind, n), ops, judge, leakcheck=True)

def sortp(p): return p if p == "-" else addprops(p, "-")
