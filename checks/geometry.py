"""P15-P17: what regions cover (spec/Geometry.tla, spec/GeometryMC.tla)."""
import random
from vlib import build, gen, oracle, tlc
from vlib.core import Case, H, U
from vlib.session import tla_bool
LEVEL = "model_checking"
INVS = ["ShiftCov", "InBox", "Filled", "Formats", "NeverOutside", "ShiftPts"]

def shapes(ctx, name, kind, lo, hi, step, maxv=3, maxpix=4, probe=0, simulate=None, cap=None, depth=None):
    r = tlc.run("GeometryMC", constants=dict(Kind='"%s"' % kind, NLo=-lo, Hi=hi, Step=step, MaxV=maxv, MaxPix=maxpix, Probe=probe), init="Init", next_="NextR" if simulate else "Next",
                constraints=["Emit"], invariants=INVS, simulate=simulate, depth=depth, seed=ctx.seed, raw=True)
    ctx.model(r, "GeometryMC %s %s" % (name, "(random)" if simulate else ""))
    l = sorted(set(r.emitted.get("R", [])))
    if cap and len(l) > cap: random.Random(ctx.seed).shuffle(l); l = l[:cap]
    return [tlc.decode(x) for x in l]

def qn(v): return gen.num(v / 4.0)
def lit(r, dx=0, dy=0):
    if r["k"] == "rect": return "R:%s:%s:%s:%s" % (qn(r["x"] + 4 * dx), qn(r["y"] + 4 * dy), qn(r["w"]), qn(r["h"]))
    if r["k"] == "poly": return "G:" + ":".join("%s:%s" % (qn(x + 4 * dx), qn(y + 4 * dy)) for x, y in r["p"])
    if r["k"] == "mask": return "K:%d:%d:%d:%d:%s" % (r["x"] + dx, r["y"] + dy, r["w"], r["h"], "".join(map(str, r["bits"])))
    return "S:1"
def same(a, b):
    z = lambda s: ":".join("0" if t == "-0" else t for t in s.split(":"))
    return z(a) == z(b)
def pixels(l):
    """Foreground of a mask literal."""
    f = l.split(":")
    x, y, w, h = map(int, f[1:5])
    return {(x + i % w, y + i // w) for i, c in enumerate(f[5]) if c == "1"}

def world(ctx, probe=0):
    """A set of regions with the specification's answers."""
    s = []
    s += shapes(ctx, "rectangles", "rect", -2, 3, 1, maxpix=2, probe=probe and 3, cap=ctx.q(1500, 20000))
    s += shapes(ctx, "triangles", "poly", 0, 12, 4, maxv=3, probe=probe, cap=ctx.q(2500, 20000))
    s += shapes(ctx, "fractional triangles", "poly", -3, 7, 5, maxv=3, probe=probe)
    s += shapes(ctx, "quadrangles", "poly", -4, 8, 6, maxv=4, probe=probe, cap=ctx.q(3000, 30000))
    s += shapes(ctx, "masks", "mask", 0, 4, 4, maxpix=ctx.q(6, 8), probe=probe and 2)
    if not ctx.quick:
        s += shapes(ctx, "more triangles", "poly", -5, 15, 3, maxv=3, probe=0, cap=40000)
        s += shapes(ctx, "more rectangles", "rect", -4, 5, 1, maxpix=3, probe=0, cap=30000)
    s += shapes(ctx, "random polygons", "poly", -17, 22, 1, maxv=9, probe=probe and 7, simulate=ctx.q(120, 2500), depth=10, cap=ctx.q(1200, 30000))
    return s

def shifts(rng):
    k = rng.random()
    if k < .4: return 0, 0
    if k < .7: return rng.randint(-40, 40), rng.randint(-40, 40)
    if k < .95: return rng.randint(-3000, 3000), rng.randint(-3000, 3000)
    return rng.choice([-100000, 100000]), rng.choice([-99999, 70000])

def P15(ctx):
    exe = build.harness("trxh")
    rng = random.Random(ctx.seed + 15)
    cases = []
    for n, s in enumerate(world(ctx)):
        r = s["r"]; dx, dy = shifts(rng); l = lit(r, dx, dy)
        sh = lambda q: lit(q, dx, dy)
        empty = r["k"] == "mask" and not s["cov"]
        checks = []
        def bounds(o, s=s, dx=dx, dy=dy, l=l):
            if not s["b"]: return None
            want = [qn(s["b"][0] + 4 * dx), qn(s["b"][1] + 4 * dy), qn(s["b"][2] + 4 * dx), qn(s["b"][3] + 4 * dy)]
            got = [o["l"], o["t"], o["r"], o["b"]]
            if ["0" if x == "-0" else x for x in got] != ["0" if x == "-0" else x for x in want]: return "bounds of %s are %s instead of %s" % (l, got, want)
        def conv(want, kind, l=l):
            def j(o):
                if not same(o["src"], l): return "converting %s to %s changed it to %s" % (l, kind, o["src"])
                if not same(o["v"], want): return "%s became as %s %s instead of %s" % (l, kind, o["v"], want)
            return j
        def mask(o, cov=s["cov"], dx=dx, dy=dy, l=l):
            if not same(o["src"], l): return "converting %s to a mask changed it to %s" % (l, o["src"])
            if o["v"] == "~": return None if not cov else "%s could not be converted to a mask" % l
            if not o["v"].startswith("K:"): return "%s became %s instead of a mask" % (l, o["v"])
            want = {(x + dx, y + dy) for x, y in map(tuple, cov)}; got = pixels(o["v"])
            if got != want: return "the mask of %s lacks %s and has too much %s" % (l, sorted(want - got)[:6], sorted(got - want)[:6])
        def clone(o, l=l): return None if same(o["v"], l) else "the clone of %s is %s" % (l, o["v"])
        ops = ["rbounds " + l, "rclone " + l, "rconv %s 8" % l]; checks = [bounds, clone, mask]
        if not empty:
            ops += ["rconv %s 2" % l, "rconv %s 4" % l]; checks += [conv(sh(s["rect"]), "rectangle"), conv(sh(s["poly"]), "polygon")]
        def judge(o, checks=checks):
            for c, x in zip(checks, o):
                m = c(x)
                if m: return m
        cases.append(Case("region/%d" % n, ops, judge, leakcheck=n % 20 == 0))
        # the client converts what the tracker does not take
        if n % 9 == 0 and not empty:
            rf = rng.choice([2, 4, 8, 6, 10, 12, 14]); own = {"rect": 2, "poly": 4, "mask": 8}[r["k"]]
            ver = rng.choice([3, 4])
            ops = ["open 1 c f", "sset 2 f %d %d 15 1 1 - - - -" % (ver, rf), "pump 2 1", "cset 1", "cinit 1 P:70,~,~ %s|- -" % l, "pump 1 2", "swait%s 2 -" % ("s" if ver < 4 else "")]
            tgt = own if rf & own else 8 if rf & 8 else 4 if rf & 4 else 2
            if ver >= 4 and tgt == 2 and False: pass
            def judge(o, tgt=tgt, rf=rf, s=s, l=l, own=own, dx=dx, dy=dy):
                w = o[3]
                if o[2]["r"] != 0: return "initialize with %s was refused by the client (%s)" % (l, U(o[2]["err"]))
                if w["r"] != 2: return "initialize with %s was not received (%d)" % (l, w["r"])
                got = w["objects"].split("|")[0]
                if tgt == own: return None if same(got, l) else "%s arrived as %s" % (l, got)
                if tgt == 8:
                    want = {(x + dx, y + dy) for x, y in map(tuple, s["cov"])}
                    return None if got.startswith("K:") and pixels(got) == want else "%s arrived as %s instead of a mask of its pixels" % (l, got)
                want = lit(s["rect"] if tgt == 2 else s["poly"], dx, dy)
                return None if same(got, want) else "%s arrived as %s instead of %s" % (l, got, want)
            cases.append(Case("autoconvert/%d" % n, ops, judge))
    ctx.replay(exe, cases, what="geometry", limit=25)
    ctx.rules.append("all rectangles, triangles, quadrangles and masks of the enumerated grids (quarter pixels), random polygons up to 9 vertices, at shifted positions")
    ctx.assumptions += ["coordinates are multiples of a quarter pixel", "rectangles of at least one pixel; the width of a rectangle made from a polygon is the distance of its extremes, that of a rectangle made from a mask the number of columns (as implemented)",
                        "the legacy rasterization flag is not set"]

def P16(ctx):
    exe = build.harness("trxh")
    rng = random.Random(ctx.seed + 16)
    ws = world(ctx)
    by = {}
    for s in ws: by.setdefault(s["r"]["k"], []).append(s)
    recs, meta = [], []
    for n in range(ctx.q(6000, 80000)):
        a = rng.choice(by[rng.choice(list(by))]); b = rng.choice(by[rng.choice(list(by))])
        k = rng.random()
        d = (0, 0) if k < .3 else (rng.randint(-3, 3), rng.randint(-3, 3)) if k < .9 else (rng.randint(-40, 40), rng.randint(-9, 9))
        bd = []
        if rng.random() < .5:
            l, t = rng.randint(-4, 3), rng.randint(-4, 3); bd = [l, t, l + rng.randint(0, 6), t + rng.randint(0, 6)]
        recs.append({"a": a["r"], "b": b["r"], "d": list(d), "bd": bd})
    ans = oracle.ask("Geometry", "LET x == Shift(rec.b, rec.d[1], rec.d[2]) IN Overlap(rec.a, x, rec.bd)", recs, ctx, name="overlap of pairs")
    cases = []
    def val(p): return gen.f32(p[0] / p[1]) if p[1] else 0.0
    for n, (q, p) in enumerate(zip(recs, ans)):
        sx, sy = shifts(rng)
        (dx, dy) = q["d"]
        A, B = lit(q["a"], sx, sy), lit(q["b"], sx + dx, sy + dy)
        bd = " %d %d %d %d" % (q["bd"][0] + sx, q["bd"][1] + sy, q["bd"][2] + sx, q["bd"][3] + sy) if q["bd"] else ""
        want = val(p)
        def judge(o, want=want, A=A, B=B, bd=bd, p=p):
            for x, t in zip(o[:2], ("", "(exchanged) ")):
                v = float(x["o"])
                if not abs(v - want) <= 2e-6: return "overlap %sof %s and %s%s is %s instead of %d/%d" % (t, A, B, " within" + bd if bd else "", x["o"], p[0], p[1])
                if (v == 0) != (p[0] == 0): return "overlap of %s and %s%s is %s with %d shared pixels" % (A, B, bd, x["o"], p[0])
        cases.append(Case("pair/%d" % n, ["rover %s %s%s" % (A, B, bd), "rover %s %s%s" % (B, A, bd)], judge, leakcheck=n % 50 == 0))
    # a region with itself and with itself in other formats
    for n, s in enumerate(ws):
        sx, sy = shifts(rng); l = lit(s["r"], sx, sy)
        others = [l, "S:1"]
        if s["r"]["k"] == "rect": others.append(lit(s["poly"], sx, sy))
        if s["cov"]:
            xs = [x for x, _ in s["cov"]]; ys = [y for _, y in s["cov"]]; x0, y0, w, h = min(xs), min(ys), max(xs) - min(xs) + 1, max(ys) - min(ys) + 1
            c = set(map(tuple, s["cov"])); pad = rng.randint(0, 2)
            others.append("K:%d:%d:%d:%d:%s" % (x0 - pad + sx, y0 + sy, w + 2 * pad, h + pad, "".join("1" if (x0 - pad + i % (w + 2 * pad), y0 + i // (w + 2 * pad)) in c else "0" for i in range((w + 2 * pad) * (h + pad)))))
        want = [1.0 if s["cov"] else 0.0, 0.0] + [1.0 if s["cov"] else 0.0] * (len(others) - 2)
        def judge(o, want=want, others=others, l=l):
            for x, e, t in zip(o, want, others):
                if abs(float(x["o"]) - e) > 1e-6: return "overlap of %s with %s is %s instead of %g" % (l, t, x["o"], e)
        cases.append(Case("self/%d" % n, ["rover %s %s" % (l, t) for t in others], judge))
    # large regions: rectangles on whole pixels, against arithmetic on their sides
    for n in range(ctx.q(300, 3000)):
        def rr(): return [rng.randint(-300, 300), rng.randint(-300, 300), rng.randint(1, 400), rng.randint(1, 400)]
        a, b = rr(), rr()
        ix = max(0, min(a[0] + a[2], b[0] + b[2]) - max(a[0], b[0])); iy = max(0, min(a[1] + a[3], b[1] + b[3]) - max(a[1], b[1]))
        i = ix * iy; u = a[2] * a[3] + b[2] * b[3] - i
        A, B = "R:%d:%d:%d:%d" % tuple(a), rng.choice(["R:%d:%d:%d:%d", None]) or None
        x, y, w, h = b
        B = "R:%d:%d:%d:%d" % tuple(b) if rng.random() < .4 else "G:%d:%d:%d:%d:%d:%d:%d:%d" % (x, y, x + w - 1, y, x + w - 1, y + h - 1, x, y + h - 1) if rng.random() < .5 else "K:%d:%d:%d:%d:%s" % (x, y, w, h, "1" * (w * h))
        def judge(o, v=i / u, A=A, B=B[:60]):
            for x in o:
                if abs(float(x["o"]) - v) > 2e-6: return "overlap of %s and %s is %s instead of %.7g" % (A, B, x["o"], v)
        cases.append(Case("large/%d" % n, ["rover %s %s" % (A, B), "rover %s %s" % (B, A)], judge))
    ctx.replay(exe, cases, what="overlap", limit=25)
    ctx.rules.append("pairs of enumerated regions of all formats with relative shifts, common shifts and bounds, both orders; every region with itself, with a special region, and with itself in other formats; large rectangles")
    ctx.assumptions += ["coordinates are multiples of a quarter pixel, bounds are whole pixels; a pixel belongs to an outline as the specification's Cov says (nearest pixel vertices, spans floored)", "the legacy rasterization flag is not set", "results are compared to single precision"]

def P17(ctx):
    exe = build.harness("trxh")
    rng = random.Random(ctx.seed + 17)
    cases = []
    for n, s in enumerate(world(ctx, probe=3)):
        for rep in range(2):
            sx, sy = (0, 0) if rep == 0 else shifts(rng)
            l = lit(s["r"], sx, sy)
            pts = s["pts"]
            if abs(sx) > 50000: pts = pts[::7]
            ins = s["inside"][::7] if abs(sx) > 50000 else s["inside"]
            def judge(o, s=s, pts=pts, ins=ins, l=l, sx=sx, sy=sy):
                v = o[0]["v"]
                for g, e, p in zip(v, ins, pts):
                    if e != "edge" and g != ("1" if e == "in" else "0"):
                        return "point (%s, %s) is %s %s, reported %s" % (qn(p[0] + 4 * sx), qn(p[1] + 4 * sy), "inside" if e == "in" else "outside", l, g)
                if any(c != "0" for c in o[1]["v"]): return "a special region contains a point"
                if any(c != "0" for c in o[2]["v"]): return "%s contains a far point" % l
            cases.append(Case("points/%d.%d" % (n, rep), ["rcont %s %s" % (l, ",".join("%s:%s" % (qn(x + 4 * sx), qn(y + 4 * sy)) for x, y in pts)), "rcont S:%d 0:0,1:1,-3:2" % (n % 5),
                              "rcont %s 1e30:0,-1e30:3,0:1e30,-1e9:-1e9,nan:1,1:nan,3e9:3e9,-3e9:1" % l], judge, leakcheck=n % 40 == 0))
    ctx.replay(exe, cases, what="membership", limit=25)
    ctx.rules.append("probe grids of quarter-pixel points in and around every enumerated region, repeated with region and point shifted together; far and undefined points; special regions")
    ctx.assumptions += ["points exactly on the outline of a polygon may be reported either way", "coordinates are multiples of a quarter pixel"]
