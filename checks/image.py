"""P12: images and their transfer (spec/Image.tla, spec/ImageMC.tla)."""
import random
from vlib import build, gen, oracle, tlc
from vlib.core import Case, H, U
LEVEL = "model_checking"
ALL = 15
HELLO = [(b"trax.version", b"4"), (b"trax.image", b"path;url;memory;buffer;"), (b"trax.region", b"rectangle;")]

def L(b): return list(b)
def lit(i):
    """Image of the specification: the literal that creates it, and the one that shows it."""
    d = bytes(i.get("d") or i.get("v") or [])
    if i["k"] == "path": return "P:" + H(d)
    if i["k"] == "url": return "U:" + H(d)
    if i["k"] == "memory": return "M:%d:%d:%d:%s" % (i["w"], i["h"], i["f"], H(d))
    return "B%d:%s" % (i["f"], H(d))
def create(l): return "B:" + l[3:] if l[0] == "B" else l
KIND = {"P": 1, "U": 2, "M": 4, "B": 8}

def same(a, b):
    """Literals: an empty hex string may be written '-' or ''."""
    return a.replace(":-", ":") == b.replace(":-", ":")

def P12(ctx):
    exe = build.harness("trxh")
    rng = random.Random(ctx.seed + 12)
    def run(init, next_, emit, inv, tag, **kw):
        c = dict(MaxBytes=1, MaxPieces=0, Start='"empty"', Pool='"uri"'); c.update(kw)
        r = tlc.run("ImageMC", constants=c, init=init, next_=next_, constraints=[emit], invariants=[inv], raw=True)
        ctx.model(r, "ImageMC %s %s" % (init, kw))
        return r.emitted.get(tag, [])
    def pick(l, n):
        if n and len(l) > n: l = rng.sample(l, n)
        return [tlc.decode(x) for x in l]
    images = pick(run("IInit", "INext", "IEmit", "Round", "I", MaxBytes=ctx.q(4, 6)), ctx.q(4000, 40000)) + pick(run("BInit", "INext", "IEmit", "Round", "I", MaxBytes=ctx.q(4, 5)), ctx.q(700, 4000))
    names = []
    for st, n, cap in [("empty", 3, ctx.q(3500, None)), ("http", 2, None), ("filed", 2, None), ("dotted", 2, None)]:
        names += pick(run("TInit", "TNext", "NEmit", "Kept", "N", Start='"%s"' % st, Pool='"path"', MaxPieces=ctx.q(n, n + (n < 3))), cap)
    texts = []
    for st, pool, n, cap in [("rgb", "b64", ctx.q(4, 5), ctx.q(1500, None)), ("gray", "b64", 4, ctx.q(1500, None)), ("wide", "b64", 4, ctx.q(1500, None)), ("jpeg", "b64", 4, ctx.q(1000, None)), ("png", "b64", 4, ctx.q(1000, None)),
                             ("image", "head", ctx.q(4, 5), ctx.q(5000, 100000)), ("empty", "uri", 4, ctx.q(6000, None)), ("file", "path", 3, ctx.q(1500, None)), ("data", "type", 4, ctx.q(2000, None))]:
        texts += pick(run("TInit", "TNext", "TEmit", "Fixed", "T", Start='"%s"' % st, Pool='"%s"' % pool, MaxPieces=n), cap)
    cases = []
    wire = []
    # ---- images given to the client, over a real session, on one to three channels; the request that travels is kept
    def session(id, lits, mask=None, chunk=0, collect=False, sot=False):
        n = len(lits)
        ch = {1: 1, 2: 3, 3: 7}[n]
        arg = ",".join([create(x) for x in lits] + ["~"] * (3 - n))
        wants = ",".join(list(lits) + ["~"] * (3 - n))
        fmts = 0
        for x in lits: fmts |= KIND[x[0]]
        ver = 3 if sot else 4
        ops = ["sset 1 f %d 2 %d %d 0 - - - -" % (ver, fmts if mask is None else mask, ch), "open 2 c f", "pump 1 2", "cset 2"]
        if chunk: ops += ["rchunk %d" % chunk, "wchunk %d" % (chunk + 1)]
        ops += ["cinit 2 %s R:1:2:3:4|- -" % arg, "pump 2 1 99999999", "%s 1 -" % ("swaits" if sot else "swait")]
        if not sot: ops += ["cframe 2 %s ~ -" % arg, "pump 2 1", "swait 1 -"]
        def judge(o):
            i, d = o[2], o[3]
            if i["r"] != 0: return "the images %s were refused: %r" % (wants[:200], U(i["err"]))
            for w, code in ([(o[4], 2)] if sot else [(o[4], 2), (o[6], 3)]):
                if w["r"] != code: return "the request with %s was reported as %d: %r" % (wants[:200], w["r"], U(w["err"]))
                if not all(same(a, b) for a, b in zip(w["images"].split(","), wants.split(","))): return "the images %s arrived as %s" % (wants[:400], w["images"][:400])
            if collect:
                m = [x for x in U(d["d"]).split(b"\n") if x.startswith(b"@@TRAX:" + (b"initialize" if sot else b"frame"))]
                a = m[0].split(b'"')[1::2] if m else []
                if len(m) == 1 and len(a) >= n and b"\\" not in m[0]: wire.append((id, lits, a[:n]))
        cases.append(Case("send/%s" % id, ops, judge, leakcheck=rng.random() < 0.1))
    for k, i in enumerate(images):
        session("small%d" % k, [lit(i)], collect=k % 3 == 0, sot=k % 5 == 0)
    for k, i in enumerate(names):
        session("named%d" % k, [lit(i)], collect=k % 4 == 0, sot=k % 3 == 0)
    F = {1: 1, 2: 2, 3: 3}
    def rnd(big=False):
        l = gen.rimage(rng).out if not big else None
        if big:
            f = rng.choice([1, 2, 3]); w, h = rng.choice([(64, 48), (1, 5000), (5000, 1), (97, 89), (160, 120), (3, 2), (256, 1)])
            l = "M:%d:%d:%d:%s" % (w, h, f, H(bytes(rng.getrandbits(8) for _ in range(w * h * f))))
            if rng.random() < .4: l = "B%d:%s" % ((2, H(rng.choice([gen.JPG, gen.EXIF]) + rng.randbytes(rng.choice([1, 2, 3, 4096, 70000, 99999])))) if rng.random() < .5 else (1, H(gen.PNG + rng.randbytes(rng.choice([1, 2, 3, 4095, 65536, 50001])))))
        return l
    for k in range(ctx.q(700, 12000)):
        session("random%d" % k, [rnd() for _ in range(rng.randint(1, 3))], chunk=rng.choice([0, 0, 1, 5, 4095]), collect=k % 2 == 0, sot=rng.random() < .3)
    def huge(w, h, f): return "M:%d:%d:%d:%s" % (w, h, f, H(rng.randbytes(w * h * f)))
    for k, x in enumerate([(480, 320, 3), (480, 320, 2), (641, 479, 1), (300, 211, 1), (320, 240, 3), (177, 377, 1), (65537, 1, 2), (1, 65537, 3)] * ctx.q(1, 4)):
        session("huge%d" % k, [huge(*x)], chunk=rng.choice([0, 4096]), sot=k % 2 == 0)
    session("hugebuffer", ["B2:" + H(gen.JPG + rng.randbytes(500007))]); session("hugebuffer2", ["B1:" + H(gen.PNG + rng.randbytes(262143)), huge(200, 150, 3)])
    for k in range(ctx.q(60, 600)):
        session("large%d" % k, [rnd(True)], chunk=rng.choice([0, 0, 4096, 777]), collect=False, sot=rng.random() < .3)
    # ---- row access
    for k, i in enumerate(images[:ctx.q(400, 4000)]):
        if i["k"] != "memory": continue
        def judge(o, i=i):
            o = o[0]
            if (o["w"], o["h"], o["f"]) != (i["w"], i["h"], i["f"]) or o["d"] != H(bytes(i["d"])) or o["d2"] != o["d"]: return "rows of %s read back as %s" % (lit(i), str(o)[:300])
        cases.append(Case("rows/%d" % k, ["imrows " + lit(i)], judge))
    # ---- texts that arrive at the tracker
    base = [gen.rimage(rng).text for _ in range(ctx.q(400, 8000))]
    mut = []
    for b in base:
        if len(b) > 160: continue
        m = bytearray(b)
        for _ in range(rng.randint(1, 3)):
            p = rng.randint(0, len(m) - 1) if m else 0; q = rng.random()
            if q < .35 and m: m[p] = rng.randint(1, 255)
            elif q < .6 and m: del m[p]
            else: m[p:p] = rng.choice([b"=", b";", b":", b"A", b"0", b"9", b"\xff", b"99999999999"])
        mut.append(bytes(m))
    mut += [b"image:%d;%d;rgb;AAAA" % (w, h) for w, h in [(2**31 - 1, 1), (2**31, 2**31), (65536, 65536), (2**32 + 1, 1), (1, 2**32 + 1), (2**62, 4), (46341, 46341), (715827883, 2), (1431655766, 1), (10**20, 1)]]
    mut += [b"image:1;1;" + b"r" * 31 + b";AAAA", b"image:1;1;" + b"r" * 200 + b";AAAA", b"data:" + b"x" * 300, b"image:", b"data:", b"file:", b"file:/", b"file://", b"image:;;;", b"data:;", b"data:image/png;", b"data:image/png;=", b"data:image/png;==", b"data:image/png;A", b"image:1;1;gray8;A", b"image:1;1;gray8;===="]
    mut = [m for m in mut if b"\0" not in m]
    ans = oracle.ask("Image", "Read(rec.s)", [{"s": L(m)} for m in mut], ctx, name="meaning of mutated image texts")
    todo = [(bytes(x["s"]), x["r"]) for x in texts] + list(zip(mut, ans))
    for k, (s, r) in enumerate(todo):
        kind = KIND.get({"path": "P", "url": "U", "memory": "M", "buffer": "B"}.get(r["k"]), 0)
        mask = ALL if k % 4 else (ALL & ~kind if k % 8 else kind)
        if mask == 0: mask = ALL
        accept = r["k"] != "bad" and mask & kind
        sot = k % 3 == 0
        if sot: ops = ["sset 1 f 3 2 %d 1 0 - - - -" % mask, "feed 1 " + H(gen.encode("initialize", [s, b"1,2,3,4"])), "swaits 1 -", "feed 1 " + H(gen.encode("initialize", [b"file://next", b"1,2,3,4"])), "swaits 1 -"]
        else: ops = ["sset 1 f 4 2 %d 1 0 - - - -" % mask, "feed 1 " + H(gen.encode("initialize", [b"1,2,3,4"]) + gen.encode("frame", [s])), "swait 1 -"]
        # property syntax takes precedence for an argument that reads key=value
        if b"=" in s and all(c in gen.KEYCHARS for c in s.split(b"=")[0]) and len(s.split(b"=")[0]) <= 64: continue
        def judge(o, s=s, r=r, accept=accept, mask=mask):
            w = o[1]
            if w["r"] == -1:
                if w["images"] != "~" or w["objects"] != "~": return "error with data: %s" % str(w)[:300]
                if accept and r["sure"]: return "the image text %r was refused (formats %d)" % (s[:200], mask)
                return None
            if not accept: return "%r was delivered as %s (formats %d)" % (s[:200], w["images"][:200], mask)
            if not same(w["images"].split(",")[0], lit(r)): return "%r was delivered as %s instead of %s" % (s[:200], w["images"][:300], lit(r)[:300])
        cases.append(Case("text/%d" % k, ops, judge, leakcheck=k % 10 == 0))
    ctx.replay(exe, cases, what="image", alarm=20, limit=25)
    # ---- what travelled, read by the specification
    rec = [(id, l, a) for id, lits, args in wire for l, a in zip(lits, args) if len(a) <= 400]
    if len(rec) > ctx.q(2500, 30000): rec = rng.sample(rec, ctx.q(2500, 30000))
    for (id, l, a), r in zip(rec, oracle.ask("Image", "Read(rec.s)", [{"s": L(a)} for _, _, a in rec], ctx, name="image texts written by the code read by Image.tla")):
        ctx.traces += 1
        if not (r["k"] != "bad" and r["sure"] and same(lit(r), l)) and len(ctx.violations) < 20:
            ctx.violation("wire %s" % id, "%s was written as %r" % (l[:300], a[:300]), {"image": l, "text": a.hex()})
    ctx.rules.append("every raw image up to %d bytes over six byte values, encoded buffers, paths and URLs composed of up to three pieces (slashes, dots, drives, schemes, special characters), every text of eight enumerated grammars (sampled in the quick tier), mutated and extreme texts; sent through real sessions on up to three channels and in pieces" % ctx.q(4, 6))
    ctx.assumptions += ["texts outside the documented form (missing padding, stray bits, blanks in the header) may be refused or delivered as what they mean"]
