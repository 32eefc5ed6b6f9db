"""P24: the evaluation client records one correct result per frame (spec/Evaluate.tla)."""
import base64, os, random, shutil, struct, subprocess, tempfile, threading
from vlib import build, oracle, proc, tlc
from vlib.core import Enough
LEVEL = "model_checking"
SOCKETS = threading.Semaphore(6)

def text(r):
    q = lambda v: "%g" % (v / 4)
    if r["k"] == "rect": return ",".join(map(q, (r["x"], r["y"], r["w"], r["h"])))
    if r["k"] == "poly": return ",".join(q(v) for p in r["p"] for v in p)
    if r["k"] == "special": return "7"
    b = r["bits"]; runs = []; v = 0; n = 0
    for x in b:
        if x != v: runs.append(n); n = 0; v = x
        n += 1
    if v: runs.append(n)
    return "mask:" + ",".join(map(str, [r["x"], r["y"], r["w"], r["h"]] + runs))

def same_text(a, b):
    if a.startswith("mask:") or b.startswith("mask:"): return a == b
    try: x, y = [float(v) for v in a.split(",")], [float(v) for v in b.split(",")]
    except ValueError: return False
    return len(x) == len(y) and all(abs(p - q) < 1e-3 for p, q in zip(x, y))

def pairs(ctx, n, bounds):
    """Pairs of groundtruth and answer with their overlap, computed by the specification."""
    rng = random.Random(ctx.seed + 24 + sum(bounds)); recs = []
    def rect(): return {"k": "rect", "x": 4 * rng.randint(-3, 14), "y": 4 * rng.randint(-3, 14), "w": 4 * rng.randint(2, 10), "h": 4 * rng.randint(2, 10)}
    for i in range(n):
        g = rect(); k = rng.random()
        if k < .15: a = dict(g)
        elif k < .6: a = dict(g, x=g["x"] + 4 * rng.randint(-4, 4), y=g["y"] + 4 * rng.randint(-4, 4), w=max(8, g["w"] + 4 * rng.randint(-3, 3)))
        elif k < .65: a = dict(g, x=g["x"] + 4 * (g["w"] // 8), w=g["w"])
        elif k < .7: a = dict(g, x=g["x"] + 400)
        elif k < .8: r = rect(); a = {"k": "poly", "p": [[r["x"], r["y"]], [r["x"] + r["w"], r["y"] + 4], [r["x"] + 8, r["y"] + r["h"]]]}
        elif k < .9: a = {"k": "mask", "x": g["x"] // 4, "y": g["y"] // 4, "w": 6, "h": 5, "bits": [1] + [rng.randint(0, 1) for _ in range(29)]}
        elif k < .95: a = {"k": "special"}
        else: a = dict(g, w=g["w"] // 8 * 4 or 4)
        if rng.random() < .15: g = {"k": "poly", "p": [[g["x"], g["y"]], [g["x"] + g["w"], g["y"]], [g["x"] + g["w"], g["y"] + g["h"]], [g["x"], g["y"] + g["h"]]]}
        recs.append({"g": g, "a": a, "bd": list(bounds)})
    ans = oracle.ask("Geometry", "[o |-> Overlap(rec.g, rec.a, rec.bd), u |-> Overlap(rec.g, rec.a, <<>>)]", recs, ctx, name="overlap of answers" + (" within the image" if bounds else ""))
    q = lambda p: p[0] / p[1] if p[1] else 0.0
    return [(text(r["g"]), text(r["a"]), q(p["o"]), r["a"]["k"], q(p["u"])) for r, p in zip(recs, ans)]

def pick(rng, pool, thr, good):
    """A pair whose overlap is clearly above (or at or below) the threshold; equality is used where it is exact."""
    for i in range(400):
        p = rng.choice(pool)
        if i < 40 and thr is not None and (p[2] > thr) == (p[4] > thr): continue      # the extent of the image decides
        if thr is None: return p
        v = p[2]
        exact = v in (0.0, 0.25, 0.5, 0.75, 1.0)
        if good and v > thr + 1e-4: return p
        if not good and (v < thr - 1e-4 or (v == thr and exact)): return p
    return None

def scenario(ctx, rng, x, pools, headers, work, bin_, tracker):
    """Files, plan and expectation of one behaviour of Evaluate; None if its threshold allows no such outcome."""
    n = x["len"]; bounded = rng.random() < .4
    thr = rng.choice(["0", "0.1", "0.25", "0.5", "0.5", "0.75", "0.9", "1"]) if x["thr"] else None
    if x["thr"] and any(o[2] == "good" for o in x["oc"]) and thr == "1": thr = "0.5"
    d = tempfile.mkdtemp(prefix="ev-", dir=work); seq = os.path.join(d, "seq"); os.makedirs(seq)
    chans = rng.choice([["color"]] * 4 + [["color", "depth"], ["color", "depth", "ir"], ["depth"], ["ir"], ["color", "ir"]])
    col = {"color": "c", "depth": "d", "ir": "i"}
    images = rng.choice(["path", "path", "path;memory", "memory;path;buffer", "buffer", "buffer", "buffer;url"]); buf = images.startswith("buffer")
    version = rng.choice([4, 4, 4, 3, 2, 1])
    if version == 1: chans = ["color"]
    data = {}; sizes = [rng.choice(list(pools[1])) for _ in range(n)]
    pool = lambda f: pools[1][sizes[f - 1]] if bounded else pools[0]
    first = {"color": "c", "depth": "d", "ir": "i"}[chans[0]]
    for f in range(n):
        for c in "cdi":
            k = "%s%03d" % (c, f + 1); kind = rng.choice(["jpeg", "jpeg", "png"] + ["gif"] * (not buf))
            h = rng.choice(headers[(kind, sizes[f] if c == first else rng.choice(list(pools[1])))]); h += bytes(-len(h) % 3)
            data[k] = h + b"<" + k.encode() + b">" + rng.randbytes(rng.randint(0, 9))
            if bounded or buf:
                with open(os.path.join(seq, k), "wb") as h: h.write(data[k])
    gt = [None] * n; reply = {}
    for launch, f, what in x["oc"]:
        p = pick(rng, pool(f), None if thr is None else float(thr), what != "bad")
        if p is None: shutil.rmtree(d); return None
        gt[f - 1] = p[0]; reply[(launch, f)] = p[1]
    for f in range(n):
        if gt[f] is None: gt[f] = rng.choice(pool(f + 1))[0]
    plan = []
    for launch, f, what in x["oc"]:
        a = "state:" + reply[(launch, f)]
        if rng.random() < .2: a = "say:state \"%s\" \"confidence=0.5\"" % reply[(launch, f)]
        if what == "die": a = rng.choice(["exit:0", "exit:3", "sig:9", "sig:6", "text:@@TRAX:sta;exit:1", "closeout;closein;exit:0"])
        elif what == "quit": a = rng.choice(["say:quit;exit:0", "say:quit \"trax.reason=enough\";sleep:200;exit:0"])
        elif what == "hang": a = rng.choice(["hang", "stubborn;hang", "text:@@TRAX:state \"1,2;hang"])
        elif what == "late": a += ";" + rng.choice(["exit:0", "sig:9", "say:quit;exit:0"])
        k = "%s%03d" % (col[chans[0]], f)
        if buf: k = "=" + base64.b64encode(("<%s>" % k).encode()).decode()
        plan.append("%s@%d %s" % (k, launch, a))
    sep = rng.random() < .5 or any(not h for h in x["has"])
    if sep:
        ini = [(rng.choice(pool(f + 1))[0] if h else "") for f, h in enumerate(x["has"])]
        while len(ini) > 1 and not ini[-1] and rng.random() < .7: ini.pop()        # frames at the end need not be listed
        if len(ini) == n and rng.random() < .2: ini += ["1,2,3,4"] * 2
    else: ini = gt
    extra = rng.choice([0, 0, 0, 1, 2]); which = rng.randint(0, 1)
    lists = [";".join([os.path.join(seq, "%s%03d" % (c, f + 1)) for c in "cdi"][:3 if len(chans) > 1 or chans[0] != "color" else 1]) for f in range(n + (extra if which else 0))]
    nl = lambda l: "\n".join(l) + ("\n" if rng.random() < .7 or not l[-1] else "")
    with open(os.path.join(d, "images"), "w") as h: h.write(nl(lists))
    with open(os.path.join(d, "gt"), "w") as h: h.write(nl(gt + ([] if which else ["3,3,9,9"] * extra)))
    with open(os.path.join(d, "plan"), "w") as h: h.write("\n".join(plan) + "\n")
    args = [bin_, "-I", os.path.join(d, "images"), "-G", os.path.join(d, "gt"), "-O", os.path.join(d, "out"), "-T", os.path.join(d, "times")]
    if sep:
        with open(os.path.join(d, "ini"), "w") as h: h.write("\n".join(ini) + "\n")
        args += ["-S", os.path.join(d, "ini")]
    if thr is not None: args += ["-f", thr]
    if x["r"]: args += ["-r", str(x["r"])]
    hang = any(o[2] == "hang" for o in x["oc"])
    args += ["-t", "2" if hang else rng.choice(["20", "30"])]
    props = {}
    for i in range(rng.choice([0, 0, 1, 2])): props["par%d" % i] = rng.choice(["1", "two words", "a=b", ""])
    for k, v in props.items(): args += ["-p", "%s=%s" % (k, v)]
    mode = rng.choice(["", "", "", "", "", "-x", "-x", "-X"]) if not hang else rng.choice(["", "-x"])
    if mode: args.append(mode)
    if rng.random() < .3: args.append(rng.choice(["-d", "-s"]))
    formats = rng.choice(["rectangle", "rectangle", "rectangle;polygon", "polygon", "mask;polygon;rectangle"])
    hello = "\"trax.version=%d\" \"trax.name=Plan\" \"trax.image=%s\" \"trax.region=%s\" \"trax.channels=%s\"" % (version, images, formats, ";".join(chans))
    for k, v in dict(TRK_LOG=os.path.join(d, "log"), TRK_COUNT=os.path.join(d, "count"), TRK_PLAN=os.path.join(d, "plan"), TRK_HELLO=hello, TRK_SCRIPT="hello;answer").items(): args += ["-e", "%s=%s" % (k, v)]
    if version < 4: args += ["-e", "TRK_LEGACY=1"]
    args += ["--", tracker, "with args", "x"]
    env = {k: v for k, v in os.environ.items() if not k.startswith("TRAX")}
    if bounded: env["TRAX_BOUNDED_OVERLAP"] = rng.choice(["true", "TRUE"])
    elif rng.random() < .15: env["TRAX_BOUNDED_OVERLAP"] = rng.choice(["false", "FALSE", "0"])
    # what has to be recorded
    out = []; launch = None
    starts = {f: l for l, k, f in x["req"] if k == "initialize"}
    for f, m in enumerate(x["out"], 1):
        if m == "track": out.append(next(reply[(l, g)] for l, g, w in x["oc"] if g == f))
        else: out.append({"skip": "0", "start": "1", "fail": "2"}[m])
    return dict(x=x, d=d, args=args, env=env, out=out, mode=mode, chans=chans, seq=seq, ini=ini, props=props, col=col, formats=formats, version=version, data=data, buf=buf)

def execute(s):
    def go():
        for f in ("out", "times", "log", "count"):
            try: os.unlink(os.path.join(s["d"], f))
            except OSError: pass
        with open(os.path.join(s["d"], "stdout"), "wb") as so:
            p = subprocess.Popen(s["args"], env=s["env"], cwd=s["d"], stdin=subprocess.DEVNULL, stdout=so, stderr=subprocess.STDOUT, start_new_session=True)
            try: rc = p.wait(timeout=60)
            except subprocess.TimeoutExpired: p.kill(); p.wait(); rc = None
        left = proc.members(p.pid)
        for q, _ in left:
            try: os.kill(q, 9)
            except OSError: pass
        return rc, left
    if s["mode"] == "-X":
        with SOCKETS: return go()
    return go()

def judge(s, rc, left):
    x = s["x"]; d = s["d"]
    if rc is None: return "the client does not end"
    if rc < 0: return "the client is ended by signal %d" % -rc
    if left: return "the client leaves processes behind"
    try:
        with open(os.path.join(d, "out")) as f: got = f.read().split("\n")[:-1]
    except OSError: got = None
    log = open(os.path.join(d, "log")).read().split("\n") if os.path.exists(os.path.join(d, "log")) else []
    if not x["ok"]:
        if rc == 0: return "the client reports success although the tracker failed to answer"
        if got is not None: return "the client records a result although the tracker failed to answer"
    else:
        if rc != 0: return "the client fails (exit %s): %s" % (rc, open(os.path.join(d, "stdout"), errors="replace").read()[-300:])
        if got is None: return "no result is written"
        if len(got) != x["len"]: return "%d results for %d frames: %s" % (len(got), x["len"], got)
        for f, (g, w) in enumerate(zip(got, s["out"]), 1):
            if not same_text(g, w): return "frame %d: recorded %r, expected %r (%s)" % (f, g, w, x["out"][f - 1])
        try:
            with open(os.path.join(d, "times")) as f: t = [float(v) for v in f.read().split()]
        except (OSError, ValueError): return "no times are written"
        if len(t) != x["len"]: return "%d times for %d frames" % (len(t), x["len"])
        if any(v < 0 or v > 60 * 1000 for v in t): return "times %s" % t
        for f, (v, m) in enumerate(zip(t, x["out"]), 1):
            if m == "skip" and v != 0: return "frame %d was skipped but took %g" % (f, v)
    # the requests the tracker saw
    seen = []; launch = None; pending = None
    for l in log:
        if l.startswith("L "): launch = int(l.split()[1]); continue
        if not l.startswith(("@@TRAX:initialize ", "@@TRAX:frame ")): continue
        kind = l[7:].split(" ")[0]; a = l.rstrip()[l.index('"') + 1:-1].split('" "')
        if kind == "initialize" and s["version"] == 4:
            if pending is not None: return "two objects are introduced by %r" % l
            if len(a) != 1: return "the object is introduced with %s" % a
            pending = a[0]; continue
        n = len(s["chans"])
        if len(a) < n: return "request %r" % l
        f = None
        for c, v in zip(s["chans"], a):
            if s["buf"]:
                try: v = base64.b64decode(v[v.rindex(";") + 1:])
                except ValueError: return "an image of request %r" % l
                k = next((k for k in s["data"] if s["data"][k] == v), None)
            else:
                k = v[len("file://" + s["seq"]) + 1:] if v.startswith("file://" + s["seq"] + "/") else None
            if k is None or k[0] != s["col"][c]: return "the %s image of request %r is not the one of the sequence" % (c, l[:300])
            if f is not None and int(k[1:]) != f: return "request %r has images of different frames" % l[:300]
            f = int(k[1:])
        rest = a[n:]; region = None
        if kind == "initialize":
            if not rest: return "no region in request %r" % l[:300]
            region = rest.pop(0)
        elif pending is not None: kind = "initialize"; region = pending; pending = None
        seen.append((launch, kind, f, region, rest))
    if pending is not None: return "an object is introduced without an image"
    want = [tuple(q) for q in x["req"]]
    if x["oc"] and x["oc"][-1][2] == "late" and len(seen) == len(want) + 1: seen = seen[:-1]
    if [q[:3] for q in seen] != want: return "requests seen by the tracker %s, expected %s" % ([q[:3] for q in seen], want)
    for launch, kind, f, region, rest in seen:
        if kind == "initialize":
            if sorted(rest) != sorted("%s=%s" % kv for kv in s["props"].items()): return "parameters sent at frame %d: %s" % (f, rest)
            if s["formats"] == "rectangle" and s["ini"][f - 1].count(",") == 3 and not s["ini"][f - 1].startswith("mask") and not same_text(region, s["ini"][f - 1]):
                return "frame %d is initialized with %s, expected %s" % (f, region, s["ini"][f - 1])
        elif rest: return "frame %d is sent with %s" % (f, rest)

def P24(ctx):
    rng = random.Random(ctx.seed + 240)
    lib = build.library("plain"); bin_ = None
    for root, _, files in os.walk(lib):
        if "traxclient" in files: bin_ = os.path.join(root, "traxclient")
    tracker = build.program("tracker.c", libs=False, lang="c")
    inv = "Whole Sane Skips NoGap Restart Shown Quiet".split()
    def run(c, **kw):
        r = tlc.run("Evaluate", constants=c, invariants=inv, constraints=["Emit"], raw=True, **kw); ctx.model(r, "Evaluate %s" % c); return r.emitted.get("E", [])
    good = run(dict(N=ctx.q(5, 6), MaxR=ctx.q(4, 6), Faults="{}"), spec="Spec", properties=["Terminates"])
    faulty = run(dict(N=4, MaxR=2, Faults='{"die", "quit", "hang", "late"}'), init="Init", next_="Next")
    total = (len(good), len(faulty))
    if len(good) > ctx.q(560, 6000): good = rng.sample(good, ctx.q(560, 6000))
    good = [tlc.decode(v) for v in good]
    fl = [v for v in map(tlc.decode, faulty) if not v["ok"]]
    fl = rng.sample(fl, min(len(fl), ctx.q(110, 900)))
    longs = [tlc.decode(v) for v in tlc_long(ctx, run)]
    r = tlc.run("HeaderMC", constants=dict(MaxSegs=ctx.q(2, 3)), init="Init", next_="Next", constraints=["Emit"], invariants=["Found"], raw=True); ctx.model(r, "HeaderMC")
    headers = {}
    for h in map(tlc.decode, r.emitted["H"]): headers.setdefault((h["k"], tuple(h["s"])), []).append(bytes(h["t"]))
    sizes = sorted({s for _, s in headers})
    pools = [pairs(ctx, ctx.q(400, 1500), []), {s: pairs(ctx, ctx.q(250, 800), [0, 0, *s]) for s in sizes}]
    todo = good + longs + fl; rng.shuffle(todo)
    def one(x):
        r = random.Random(repr(x["oc"]) + repr(x["has"]) + repr((x["r"], x["len"], ctx.seed)))
        s = scenario(ctx, r, x, pools, headers, ctx.work, bin_, tracker)
        if s is None: return None, None
        msg = judge(s, *execute(s))
        if msg: msg = judge(s, *execute(s))
        if msg is None: shutil.rmtree(s["d"], ignore_errors=True)
        return s, msg
    bad = 0
    for s, msg in proc.parallel(one, todo, 56):
        if s is None: continue
        ctx.traces += 1
        if msg:
            out = open(os.path.join(s["d"], "stdout"), errors="replace").read()[-600:]
            ctx.violation("evaluation " + " ".join(a for a in s["args"][1:] if not a.startswith("/"))[:200], msg,
                          {"args": s["args"], "behaviour": s["x"], "plan": open(os.path.join(s["d"], "plan")).read(), "stdout": out})
            if len(ctx.violations) >= 20: raise Enough()
    if todo: ctx.samples += [{"behaviour": todo[0]}, {"behaviour": todo[-1]}]
    ctx.detail["behaviours"] = {"complete": total[0], "with faults": total[1], "executed": len(todo)}
    ctx.rules.append("complete behaviours of Evaluate.tla (sequence lengths, initialization data, restart offsets, outcome per frame, faults of the tracker) executed with the real client and a scripted tracker; regions chosen so that their overlap, computed by Geometry.tla, gives the outcome")
    ctx.assumptions += ["overlap equal to the threshold is tested where both are exact binary fractions, otherwise pairs differ from it by at least 1e-4", "frames compared against a threshold have groundtruth", "a tracker that ends or times out makes the client fail without a result"]

def tlc_long(ctx, run):
    """Longer sequences with random initialization data and outcomes."""
    r = tlc.run("Evaluate", constants=dict(N=14, MaxR=9, Faults="{}"), init="InitR", next_="NextR", constraints=["Emit"], invariants="Whole Sane Skips NoGap Restart Shown Quiet".split(), simulate=ctx.q(60, 600), depth=60, seed=ctx.seed, raw=True)
    ctx.model(r, "Evaluate, random long sequences")
    return list(dict.fromkeys(r.emitted.get("E", [])))
