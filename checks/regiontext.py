"""P13, P14: the text form of regions (spec/RegionText.tla, spec/RegionTextMC.tla)."""
import random, struct
from decimal import Decimal, ROUND_HALF_EVEN
from vlib import build, gen, oracle, tlc
from vlib.core import Case, H, U
LEVEL = "model_checking"

def L(b): return list(b)
def Bs(l): return bytes(l)

def lit(r):
    """Region of the specification as harness literal; coordinates become the nearest single precision numbers."""
    f = lambda t: gen.num(float(Bs(t)))
    if r["k"] == "special": return "S:%d" % int(Bs(r["c"]))
    if r["k"] == "rect": return "R:" + ":".join(f(t) for t in r["p"])
    if r["k"] == "poly": return "G:" + ":".join(f(t) for t in r["p"])
    return "K:%d:%d:%d:%d:%s" % (r["x"], r["y"], r["w"], r["h"], "".join(map(str, r["bits"])))

def nz(l):
    """A literal without negative zeros (they are the same number)."""
    return ":".join("0" if t == "-0" else t for t in l.split(":"))

def texts(ctx, start, pool, n, cap=None):
    r = tlc.run("RegionTextMC", constants=dict(Pool='"%s"' % pool, MaxN=n, MaxPix=1, Start='"%s"' % start), init="Init", next_="Next", constraints=["Emit"], invariants=["Stable"])
    ctx.model(r, "RegionTextMC texts %s/%s up to %d pieces" % (start, pool, n))
    l = r.emitted.get("X", [])
    if cap and len(l) > cap: random.Random(ctx.seed).shuffle(l); l = l[:cap]
    return l

def masks(ctx, n):
    r = tlc.run("RegionTextMC", constants=dict(Pool='"num"', MaxN=0, MaxPix=n, Start='"empty"'), init="MInit", next_="MNext", constraints=["MEmit"], invariants=["MRound"])
    ctx.model(r, "RegionTextMC all masks up to %d pixels" % n)
    return r.emitted.get("M", [])

def canon(v):
    """The four decimals of a single precision number, as the specification writes them."""
    d = Decimal(gen.f32(v)).quantize(Decimal("0.0001"), rounding=ROUND_HALF_EVEN)
    if d == 0: d = Decimal("0.0000")
    return str(d).encode()

def floats(rng):
    k = rng.random()
    if k < 0.2: return rng.choice([0.0, -0.0, 1.0, -1.0, 0.5, 0.25, 0.1, -0.1, 1e-4, 5e-5, 4.9e-5, -4e-5, 99999.9999, 16777216.0, 8191.9999, 1e7, 123456.789, 3.0e9, -3.0e9, 0.00005, 1.00005, 0.99995])
    if k < 0.5: return rng.uniform(-2000, 2000)
    if k < 0.6: return rng.uniform(-1, 1)
    if k < 0.8: return rng.randint(-40000, 40000) / 4.0
    if k < 0.9: return rng.uniform(-1e6, 1e6)
    return rng.randint(-20000000, 20000000) / 10000.0

def P13(ctx):
    exe = build.harness("trxh")
    rng = random.Random(ctx.seed + 13)
    cases = []
    seen = []
    def rt(id, l, want_lit=None, spec=None):
        """literal -> text -> region -> text; spec: the value in the specification's terms, for texts it can read."""
        def judge(o):
            o = o[0]
            if nz(o["v"]) != nz(want_lit or l): return "%s became %s through %r" % (l[:300], o["v"][:300], U(o["d"])[:200])
            if o["d2"] != o["d"]: return "encoded again %r became %r" % (U(o["d"])[:200], U(o["d2"])[:200])
            if spec is not None: seen.append((id, l, spec, U(o["d"])))
        cases.append(Case("rt/%s" % id, ["rt " + l], judge, leakcheck=rng.random() < 0.02))
    # all small masks, at several offsets
    for i, m in enumerate(masks(ctx, ctx.q(9, 12))):
        r = dict(m["r"])
        if i % 3 == 1: r["x"], r["y"] = rng.randint(-70000, 70000), rng.randint(-5, 9000)
        rt("mask%d" % i, lit(r), spec=r)
        if i % 4 == 2:      # set pixels of any value
            l = lit(r); h, b = l.rsplit(":", 1)
            rt("values%d" % i, h + ":" + "".join(rng.choice("1234") if c == "1" else c for c in b), want_lit=l, spec=r)
    for i in range(ctx.q(120, 1500)):      # larger masks: the round trip itself is the oracle
        w, h = rng.choice([(1, 200), (200, 1), (37, 41), (64, 64), (97, 13), (255, 3), (128, 130)])
        k = rng.random()
        if k < .3: bits = "".join(rng.choice("01") for _ in range(w * h))
        elif k < .6: bits = "".join(("0" * rng.randint(0, 60) + "1" * rng.randint(1, 90)) for _ in range(w * h // 20 + 1))[:w * h].ljust(w * h, rng.choice("01"))
        elif k < .8: bits = rng.choice("01") * (w * h)
        else: bits = "".join("1" if (x // 7 + y // 5) % 2 else "0" for y in range(h) for x in range(w))
        head = "K:%d:%d:%d:%d:" % (rng.randint(-500, 500), rng.randint(-500, 500), w, h)
        if i % 3 == 0: rt("bigvalues%d" % i, head + "".join(rng.choice("1234") if c == "1" else c for c in bits), want_lit=head + bits)
        else: rt("bigmask%d" % i, head + bits)
    # masks of the size of real images: runs of any length
    for i in range(ctx.q(24, 200)):
        w, h = rng.choice([(320, 240), (640, 480), (640, 480), (4097, 17), (70000, 3), (3, 40000)]) if i > 3 else [(640, 480), (65536, 2), (70001, 1), (1, 65600)][i]
        bits = ""
        while len(bits) < w * h: bits += rng.choice("01") * rng.choice([1, 7, 100, 255, 256, 257, 4095, 4096, 4097, 10007, 32767, 32768, 65535, 65536, 65537, 131073, w, w * h - 1])
        rt("hugemask%d" % i, "K:%d:%d:%d:%d:" % (rng.randint(-500, 500), rng.randint(-500, 500), w, h) + bits[:w * h])
    # numbers: what arrives is the number with four decimals
    def q(v): return gen.num(float(canon(v)))
    for i in range(ctx.q(3000, 60000)):
        if rng.random() < 0.5:
            v = [floats(rng) for _ in range(4)]; tag, kind = "R:", "rect"
        else:
            v = [floats(rng) for _ in range(2 * rng.choice([3, 3, 4, 5, 8, 40]))]; tag, kind = "G:", "poly"
        rt("num%d" % i, tag + ":".join(gen.num(x) for x in v), tag + ":".join(q(x) for x in v),
           {"k": kind, "p": [L(canon(x)) for x in v]} if len(v) < 20 else None)
    for i, c in enumerate([0, 1, 2, -1, 17, 99999, 2147483647, -2147483648, 1234567890, -7] + [rng.randint(-2**31, 2**31 - 1) for _ in range(100)]):
        rt("code%d" % i, "S:%d" % c, spec={"k": "special", "c": L(b"%d" % c)} if abs(c) < 1000000 else None)
    # documented texts
    tx = texts(ctx, "empty", "tok", ctx.q(6, 7), cap=ctx.q(20000, 200000)) + texts(ctx, "empty", "num", ctx.q(4, 5), cap=ctx.q(12000, 100000)) \
        + texts(ctx, "head", "run", ctx.q(5, 6), cap=ctx.q(20000, 200000)) + texts(ctx, "comma", "tok", 4)
    for i, x in enumerate(tx):
        if x["r"]["k"] == "any": continue
        s, r = Bs(x["s"]), x["r"]
        def judge(o, s=s, r=r):
            o = o[0]
            if r["k"] == "fail":
                return None if o["v"] == "~" else "%r decoded to %s, it is no region" % (s, o["v"][:200])
            if nz(o["v"]) != nz(lit(r)): return "%r decoded to %s instead of %s" % (s, o["v"][:300], lit(r)[:300])
            seen.append(("text %r" % s, s, r, U(o["d"])))
        cases.append(Case("text/%d" % i, ["rdec " + H(s)], judge))
    bad = ctx.replay(exe, cases, what="region text", limit=25)
    # what the code wrote, read by the specification
    if len(seen) > ctx.q(15000, 200000): rng.shuffle(seen); seen = seen[:ctx.q(15000, 200000)]
    ans = oracle.ask("RegionText", "Decode(rec.s)", [{"s": L(d)} for _, _, _, d in seen], ctx, name="texts written by the code read by RegionText.tla")
    for a, (id, l, r, d) in zip(ans, seen):
        ctx.traces += 1
        if r["k"] == "special": r = dict(r, c=L(b"%d" % int(Bs(r["c"]))))
        if r["k"] in ("rect", "poly"):      # numbers beyond single precision arrive as the nearest one
            same = a["k"] == r["k"] and len(a["p"]) == len(r["p"]) and all(x == y or gen.f32(float(Bs(x))) == gen.f32(float(Bs(y))) for x, y in zip(a["p"], r["p"]))
        else: same = a == r
        if not same and len(ctx.violations) < 20:
            ctx.violation("encode %s" % id, "%s was written as %r, which means %s" % (str(l)[:300], d[:300], str(a)[:300]), {"region": str(l), "text": d.hex()})
    ctx.rules.append("every mask up to %d pixels in every shape, every text of the enumerated grammars, sampled single precision coordinates, larger structured masks" % ctx.q(9, 12))
    ctx.assumptions += ["single precision limits what four decimals can hold: numbers are compared after rounding to float", "texts outside the documented number syntax are covered by P14"]

def P14(ctx):
    exe = build.harness("trxh")
    rng = random.Random(ctx.seed + 14)
    tx = texts(ctx, "empty", "hostile", ctx.q(4, 5), cap=ctx.q(25000, 250000)) + texts(ctx, "mask", "hostile", 3) + texts(ctx, "head", "hostile", 3) + texts(ctx, "head", "run", ctx.q(4, 5)) \
        + texts(ctx, "empty", "num", ctx.q(4, 5), cap=ctx.q(12000, 100000)) + texts(ctx, "comma", "hostile", 3)
    extra = []
    big = [b"0", b"1", b"-1", b"2147483647", b"-2147483648", b"4294967297", b"1e38", b"3.5e38", b"-1e38", b"1e308", b"1e999", b"nan", b"-inf", b"65536", b"46341", b"10000", b"1e-40", b"", b"x", b"0.0000001", b"99999", b"1e5"]
    for n in range(ctx.q(6000, 100000)):
        k = rng.random()
        if k < .35: s = b"mask:" + b",".join(rng.choice(big) for _ in range(rng.randint(0, 9)))
        elif k < .7: s = rng.choice([b"", b"", b"rect:", b"poly:", b"special:", b"mask:", b"other:", b"Mask:", b":", b"abcdefghijklmnopqrstuvwxyz:"]) + b",".join(rng.choice(big) for _ in range(rng.choice([0, 1, 3, 4, 4, 5, 6, 7, 8, 12])))
        elif k < .85:
            m = bytearray(gen.rregion(rng, True).text.encode() or b"0")
            for _ in range(rng.randint(1, 4)):
                p = rng.randint(0, len(m) - 1)
                q = rng.random()
                if q < .4: m[p] = rng.randint(1, 255)
                elif q < .7: del m[p]
                else: m[p:p] = rng.choice(big + [b",", b",,", b"-", b"mask:"])
                if not m: m = bytearray(b",")
            s = bytes(m)
        else: s = bytes(rng.randint(1, 255) for _ in range(rng.randint(1, 60)))
        extra.append(s)
    extra += [b"," * n for n in (1, 2, 3, 4, 5, 6, 7, 100, 5000, 60000)] + [b"9" * 100000, b"1," * 40000 + b"1", b"mask:0,0,1,1," + b"1," * 40000 + b"1", b"mask:" * 1000, b"1,2," * 20000 + b"3,4", b"mask:0,0,3000,3000", b"mask:0,0,10000,10000,5,100000000",
              b"mask:2147483647,2147483647,1,1,0,1", b"mask:-2147483648,0,2,2,0,4", b"mask:0,0,65536,65537,0,1", b"mask:0,0,46341,46341,1", b"0,0,1e30,1e30", b"0,0,-5,-5", b"0,0,0,0", b"1,1,1,1,1,1", b"0,0,1e9,0,0,1e9", b"-1e9,-1e9,1e9,-1e9,0,1e9", b"0,0,0,100000,0,50"]
    ans = [x["r"] for x in tx]
    strs = [Bs(x["s"]) for x in tx]
    idx = [i for i, s in enumerate(extra) if len(s) <= 200]
    dec = oracle.ask("RegionText", "[k |-> Decode(rec.s).k]", [{"s": L(extra[i])} for i in idx], ctx, name="meaning of hostile texts") if idx else []
    more = [{"k": "any"}] * len(extra)
    more = list(more)
    for i, a in zip(idx, dec): more[i] = a
    strs += extra; ans += more
    TYPE = {"special": 1, "rect": 2, "poly": 4, "mask": 8}
    cases = []
    for i, (s, r) in enumerate(zip(strs, ans)):
        def judge(o, s=s, r=r):
            o = o[0]
            if r["k"] == "fail" and o["ok"]: return "%r is no region and was decoded as kind %d" % (s[:200], o["type"])
            if r["k"] in TYPE and not o["ok"]: return "%r was refused" % s[:200]
            if r["k"] in TYPE and o["type"] != TYPE[r["k"]]: return "%r decoded as kind %d" % (s[:200], o["type"])
            if o["ok"] and not (o["enc"] and o["redec"] and o["retype"] == o["type"]): return "the region decoded from %r is not usable: %s" % (s[:200], o)
        cases.append(Case("use/%d" % i, ["rsafe " + H(s)], judge, leakcheck=i % 10 == 0))
    # over a session: the receiving side reports an error or exactly what decoding gives
    hello = gen.encode("hello", [], [(b"trax.version", b"3"), (b"trax.region", b"rectangle;polygon;mask;")])
    pick = [i for i in range(len(strs)) if b"\0" not in strs[i] and ans[i]["k"] != "mask" or len(strs[i]) < 3000]
    rng.shuffle(pick)
    for i in pick[:ctx.q(2500, 40000)]:
        s, r = strs[i], ans[i]
        if b"=" in s or len(s) > 150000: continue
        side = rng.choice("cs")
        if side == "c":
            ops = ["rdec " + H(s), "open 1 c f", "feed 1 " + H(hello), "cset 1", "cinit 1 P:70,~,~ R:1:2:3:4|- -", "feed 1 " + H(gen.encode("state", [s], [(b"k", b"v")])), "cwait 1 -", "feed 1 " + H(gen.encode("state", [b"5,6,7,8"])), "cwait 1 -"]
            def judge(o, s=s, r=r):
                d, w = o[0], o[3]
                if d["v"] == "~":
                    if w["r"] != -1 or w["objects"] != "~": return "state %r is no region but the client reported %s" % (s[:200], str(w)[:300])
                elif w["r"] != 5 or w["objects"] != d["v"] + "|6b=76": return "state %r decodes to %s but the client reported %s" % (s[:200], d["v"][:200], str(w)[:300])
                if o[4]["r"] == 5 and o[4]["objects"] != "R:5:6:7:8|-": return "reply after %r arrived as %s" % (s[:200], str(o[4])[:300])
        else:
            ops = ["rdec " + H(s), "sset 2 f 3 15 15 1 0 - - - -", "feed 2 " + H(gen.encode("initialize", [b"file://i", s], [(b"k", b"v")])), "swaits 2 -", "feed 2 " + H(gen.encode("initialize", [b"file://j", b"5,6,7,8"])), "swaits 2 -"]
            def judge(o, s=s, r=r):
                d, w = o[0], o[2]
                if d["v"] == "~":
                    if w["r"] != -1 or w["objects"] != "~" or w["images"] != "~": return "initialize with %r, which is no region, was reported as %s" % (s[:200], str(w)[:300])
                elif w["r"] == 2 and w["objects"] != d["v"]: return "initialize with %r was reported with %s instead of %s" % (s[:200], w["objects"][:300], d["v"][:300])
                elif w["r"] not in (2, -1): return "initialize with %r was reported as %d" % (s[:200], w["r"])
                if o[3]["r"] == 2 and o[3]["objects"] != "R:5:6:7:8": return "request after %r arrived as %s" % (s[:200], str(o[3])[:300])
        cases.append(Case("session-%s/%d" % (side, i), ops, judge))
    ctx.replay(exe, cases, what="hostile", alarm=20, limit=25)
    ctx.rules.append("every text of the hostile grammars up to the bound, plus mutated, extreme and very long texts; each decoded and then encoded, cloned, converted to every kind, compared, tested for a point and released under AddressSanitizer; a sample received in both roles of a session")
    ctx.assumptions += ["allocation failures are not injected", "pixel-wise operations on regions of 10^7 to 2*10^8 pixels are skipped for time"]
