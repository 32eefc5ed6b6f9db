"""P21, P22: the tracker process controller (spec/Supervise.tla, SuperviseMC.tla, Controller.tla)."""
import os, random, shutil, threading
from vlib import build, oracle, proc, tlc
from vlib.core import Enough, H, U
LEVEL = "model_checking"
SOCKETS = threading.Semaphore(24)       # clients look for free ports in ranges of their own

SAYQUIT = 'say:quit "trax.reason=done"'
END = ["exit:0", "exit:3", "sig:9", "sig:11", "sleep:30;exit:1", "sleep:95;exit:0", "sleep:150;sig:9"]
MUTE = ["hang", "spin", "stop", 'text:@@TRAX:state "1,2;hang', "text:@@TRA;hang", 'line:@@TRAX;hang', "noise:50;hang"]
LOUD = ["flood", "flood:x", "flooderr"]
BAD = ['line:@@TRAX:state "1,2,3";hang', 'line:@@TRAX:frame "x";hang', 'line:@@TRAX:state;hang']

BADHELLO = ['line:@@TRAX:state "1,2,3,4";hang', 'say:hello "trax.version=5";hang', 'say:hello "trax.version=99" "trax.image=path" "trax.region=rectangle";hang', 'say:quit "a=b" "c";hang', 'line:@@TRAX:frame "x";hang']
def fault(rng, f, m):
    """The steps of one failing behaviour."""
    cls = f["cls"]
    if cls == "end": return rng.choice(END)
    if cls == "eof": return "closeout;hang"
    if cls == "gone": return "unplug;hang"
    if cls == "quit": return SAYQUIT + ";exit:0"
    if cls == "quitstay": return SAYQUIT + ";hang"
    if cls == "bad": return rng.choice(BADHELLO) if f["at"] == "pre" else rng.choice(BAD)
    if cls == "late": return "sleep:%d;exit:0" % rng.choice([250, 400, 700])
    return rng.choice(LOUD) if rng.random() < .07 else rng.choice(MUTE)

def script(rng, f, m, stubborn, T):
    pre = "stubborn;" if stubborn else ""
    if f["at"] != "pre" and rng.random() < .15: pre += "sleep:%d;" % (T * 500)
    if m == 2 and f["cls"] == "late": return pre + "sleep:%d;exit:0;connect:0" % rng.choice([250, 400, 700])
    if m == 2 and f["at"] == "pre" and f["cls"] == "mute" and rng.random() < .5: return pre + rng.choice(["connect:-1", "connect:%d;hello;answer" % (T * 1000 + rng.choice([500, 700, 1000])) if stubborn else "connect:-1"])
    if m == 2 and rng.random() < .3: pre += "connect:%d;" % rng.choice([1, 200, 400])
    b = fault(rng, f, m)
    if f["at"] == "pre": return pre + b
    if f["at"] == "post": return pre + "hello;" + b
    if f["at"] == "req": return pre + "hello;answer:%d;ask;%s" % (f["k"] - 1, b) if f["k"] > 1 else pre + "hello;ask;" + b
    if f["at"] == "ans": return pre + "hello;answer:%d;%s" % (f["k"], b)
    return pre + "hello;answer"

BIG = {0: 300, 1: 300, 2: 1800}
def steps(op, m, T, calm):
    """Operations of the driver for one operation of the specification."""
    one = {"query": "call 0 query", "init": "call 0 init P:%s R:1:2:3:4 -" % H("/x"), "frame": "call 0 frame P:%s -" % H("/y"), "wait": "call 0 wait", "reset": "call 0 reset",
           "ready": "call 0 ready", "tracking": "call 0 tracking", "bigframe": "call 0 bigframe %d" % BIG[m], "biginit": "call 0 biginit %d" % BIG[m],
           "sleep": "sleep %d" % (700 + calm), "longsleep": "sleep %d" % (T + 900 + calm), "kill": "killall 9", "freeze": "killall 19"}
    if op == "callback": return ["flag 1", "sleep %d" % (3500 + calm), "flag 0"]
    if op == "cwait": return ["raise 300 %d" % (3300 + calm), "call 0 wait", "raised", "sleep 100"]
    return [one[op]]

PLACES = [("lock", "m", 120), ("unlock", "m", 120), ("lock", "w", 60), ("unlock", "w", 60), ("waitpid", "m", 20), ("waitpid", "w", 40), ("close", "m", 25), ("close", "w", 8), ("write", "m", 60), ("read", "m", 6),
          ("send", "m", 60), ("recv", "m", 6), ("kill", "*", 4), ("spawn", "m", 3), ("poll", "*", 6), ("select", "*", 8), ("accept", "m", 3), ("lock", "l", 30), ("read", "l", 4), ("pipe", "m", 6)]
def delays(rng):
    """One to three pauses at single calls; together shorter than the timeout."""
    left = 1500; out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k, r, n = rng.choice(PLACES); ms = min(left, rng.choice([60, 130, 250, 600, 1100])); left -= ms
        if ms > 0: out.append("%s@%s:%d:%d" % (k, r, max(1, int(n ** rng.random())), ms))
    return ";".join(out)

def read_trace(path):
    """The record of a run.  A use of a stream during which nothing else happened says nothing and is left out."""
    ev = []; whole = 0
    with open(path) as f:
        for l in f:
            w = l.split()
            if w[0] == "count": whole = 1
            if len(w) != 4 or w[0] == "count": continue
            e = (w[0], int(w[1]), int(w[2]), int(w[3]))
            if e[0] == "done" and e[3] != -9 and ev and ev[-1][0] == "use" and ev[-1][1:3] == e[1:3]: ev.pop(); continue
            ev.append(e)
    if whole and len(ev) < 6000: ev.append(("end", 0, 0, 0))
    return ev[:6000]

class Bench:
    def __init__(self, ctx, variant="asan"):
        self.ctx = ctx
        self.exe = build.harness("trxproc", variant); self.pert = build.harness("trxpert", variant); self.tracker = build.program("tracker.c", libs=False, lang="c")

    def prepare(self, rng, x):
        """Everything that is decided by chance is decided once: a scenario can be run again."""
        x["T"] = T = x.get("T") or (3 if "pert" in x else rng.choice([1, 1, 1, 2]))
        x["stub"] = rng.random() < .3 if x.get("stub") is None else x["stub"]
        x["S"] = x["S0"] + "|hello;answer" if "S0" in x else "|".join([script(rng, f, x["m"], x["stub"], T) for f in x["P"]] + [("stubborn;" if x["stub"] else "") + "hello;answer"])
        x["slow"] = "stop" in x["S"] or x["stub"] or "freeze" in x["h"]
        env = {"TRK_SCRIPT": x["S"]}
        if x.get("delay"): env["TRK_DELAY"] = str(int(T * x["delay"]))
        ops = []
        if x.get("signals") is not None: ops.append("signals %d" % x["signals"])
        ops += ["fds", "new 0 %s %d %d %d %s %%s" % (H(self.tracker), T, x["m"], rng.choice([0, 1, 1, 2]), H("")), "watch 0"]
        x["first"] = len(ops); x["at"] = []
        tail = ["reset", "init", "wait", "frame", "wait"] if x.get("again", rng.random() < .5) else []
        x["all"] = x["h"] + tail
        for op in x["all"]:
            s = steps(op if op != "sleep" or rng.random() < .7 else "longsleep", x["m"], T * 1000, 2000 if "pert" in x else 0)
            k = 1 if op == "cwait" else 0
            x["at"].append((len(ops) + k, len(ops) + len(s)))
            ops += s + ["procs"]
        ops += ["del 0", "procs", "fds"]
        x["ops"] = ops; x["env"] = env
        return x

    def run(self, x):
        if x["m"] == 2:
            with SOCKETS: return self._run(x)
        return self._run(x)
    def _run(self, x):
        tag = "%d-%d" % (id(x), random.getrandbits(40))
        count = os.path.join(self.ctx.work, "count-" + tag); trace = os.path.join(self.ctx.work, "trace-" + tag)
        env = dict(x["env"], TRK_COUNT=count)
        ops = list(x["ops"]); i = x["first"] - 2
        ops[i] = ops[i] % "&".join("%s=%s" % (H(k), H(v)) for k, v in env.items())
        r = proc.run_script(self.pert if "pert" in x else self.exe, ops, self.ctx.work, alarm=40 + 15 * len(x["all"]), env={"PERT": x["pert"], "PERT_TRACE": trace} if "pert" in x else None)
        r.events = read_trace(trace) if "pert" in x else None
        for p in (count, trace):
            if os.path.exists(p): os.unlink(p)
        shutil.rmtree(r.dir, ignore_errors=True)
        return r, ops

    def history(self, x, r):
        h = []
        for op, (i, j) in zip(x["all"], x["at"]):
            if j >= len(r.obs): break
            o = r.obs[i]
            out = "throw" if "exc" in o else "true" if o.get("ret", 1) else "false"
            h.append({"op": op, "out": out, "ms": o["ms"] if o["op"] == "call" else 0, "kids": len(r.obs[j]["v"].split(",")) if r.obs[j]["v"] else 0})
        return h

    def rest(self, x, r, A):
        """What has to hold at the end of every history."""
        b = proc.broken(r)
        if b: return b
        n = len(r.obs)
        d, p, f = r.obs[n - 3:]
        if p["v"]: return "processes left after the controller was destroyed: " + p["v"]
        if r.left: return "processes left after the client ended: %s" % r.left
        if d["ms"] > A + 3000: return "destroying the controller took %d ms" % d["ms"]
        f0 = r.obs[x["first"] - 3]
        if f["v"] != f0["v"]: return "descriptors of the client changed from %s to %s" % (f0["v"], f["v"])
        if f["threads"] != f0["threads"]: return "threads of the client changed from %d to %d" % (f0["threads"], f["threads"])
        if "AddressSanitizer" in r.err or "ThreadSanitizer" in r.err: return "error in the client: " + r.err[:600]

    def judge(self, items, A):
        """items: (x, run).  A message for every run that does not conform, None for the others."""
        recs = [{"c": {"T": x["T"] * 1000, "A": A[1 if x["slow"] else 0], "m": x["m"], "P": x["P"]}, "h": self.history(x, r)} for x, r in items]
        ans = oracle.ask("Supervise", "Verdict(rec.c, rec.h)", recs, self.ctx, name="histories of the controller")
        traced = [r for _, r in items if r.events and proc.broken(r) is None]
        if traced:
            for r, a in zip(traced, oracle.ask("Monitor", "Verdict(rec.h)", [{"h": [dict(zip("ktab", e)) for e in r.events]} for r in traced], self.ctx, name="calls of the client")):
                r.found = "%s: %s" % (a["why"], r.events[max(0, a["bad"] - 6):a["bad"]]) if a["bad"] else None
            self.ctx.evals += sum(len(r.events) for r in traced)
        out = []
        for (x, r), rec, a in zip(items, recs, ans):
            msg = self.rest(x, r, rec["c"]["A"]) or getattr(r, "found", None)
            if a["bad"]:
                e = rec["h"][a["bad"] - 1]
                msg = "operation %d, %s: %s after %d ms with %d processes; possible: %s" % (a["bad"], e["op"], e["out"], e["ms"], e["kids"],
                      "; ".join(sorted("%s in %d..%d ms with %s processes" % (c["out"], c["lo"], c["hi"], "/".join(map(str, c["kids"]))) for c in a["can"]))) + (" (%s)" % msg if msg else "")
            out.append(msg)
        return out

    def check(self, xs, what, A=(4500, 5500), jobs=56, strict=None):
        ctx = self.ctx
        runs = proc.parallel(lambda x: self.run(x), xs, jobs)
        ctx.traces += len(xs)
        msgs = self.judge([(x, r) for x, (r, _) in zip(xs, runs)], A)
        bad = [i for i, m in enumerate(msgs) if m]
        # whatever failed has to fail again with less company
        for i in bad[:40]:
            x = xs[i]; worst = msgs[i]
            for _ in range(x.get("tries", 2)):
                r, ops = self.run(x)
                m = self.judge([(x, r)], A)[0]
                if not m: worst = None; break
                worst = m
            if worst:
                ctx.violation("%s %s" % (what, x["S"]), "plan %s, mode %d, timeout %d s, %s: %s" % (x["S"], x["m"], x["T"], " ".join(x["all"]), worst), {"harness": "trxproc", "env": x["env"], "ops": ops, "history": self.history(x, r), "observed": r.obs[-12:], "stderr": r.err[-1200:]})
                if len(ctx.violations) >= 20: raise Enough()
        if xs and len(ctx.samples) < 6: ctx.samples.append({"what": what, "plan": xs[0]["S"], "history": xs[0]["all"]})
        return runs

def scenarios(ctx, rng, count, c, modes):
    """Histories enumerated by SuperviseMC.tla: every transition of the specification is the end of one; a stratified choice."""
    out = []
    for mode in modes:
        r = tlc.run("SuperviseMC", constants=dict(c, Mode=mode), init="Init", next_="Next", constraints=["Limit", "Emit"], view="View", invariants=["Possible", "Bounded", "Gone", "Clean", "Kept", "Renewed"], raw=True, tags={"S"})
        ctx.model(r, "SuperviseMC mode %d %s" % (mode, c))
        strata = {}; classes = {}
        for e in r.emitted["S"]:
            i = e.index('\\"h\\":'); j = e.index('],\\"o\\"'); k = e.index('\\"c\\":')
            ops = e[i + 7:j].replace('\\"', '').split(",")
            strata.setdefault((e[:i], ops[-1], ops[-2] if len(ops) > 1 else ""), []).append(e)
            if ops[-1] not in ("ready", "tracking"): classes.setdefault((e[k:], ops[-1]), []).append(e)
        # half by the situation an operation meets, half by the plan of the trackers
        n = count // len(modes)
        def take(groups, n):
            keys = list(groups); rng.shuffle(keys)
            while 0 < len(keys) < n: keys += rng.sample(list(groups), min(len(groups), n - len(keys)))
            for k in keys[:n]:
                x = tlc.decode(rng.choice(groups[k])); h = []
                # looking does no harm
                for op in x["h"]:
                    h.append(op)
                    if rng.random() < .25: h += rng.choice([["ready"], ["ready", "tracking"], ["tracking"]])
                out.append({"P": x["P"], "h": h, "m": (mode if mode else rng.choice([0, 0, 1]))})
        take(classes, n // 2); take(strata, n - n // 2)
    return out

def failing(rng):
    """Every way of failing before the introduction, met by every operation that launches a tracker."""
    out = []
    for cls, bodies in [("end", END), ("eof", ["closeout;hang"]), ("gone", ["unplug;hang"]), ("quit", [SAYQUIT + ";exit:0"]), ("bad", BADHELLO), ("mute", MUTE + LOUD)]:
        for s in bodies:
            for op in ("query", "init", "reset"):
                m = rng.choice([0, 0, 1, 2]) if cls not in ("eof", "gone") else rng.choice([0, 1])
                out.append({"P": [{"at": "pre", "k": 0, "cls": cls}], "h": [op] + rng.choice([[], ["ready"], ["wait"], ["tracking", "frame"]]), "m": m, "S0": rng.choice(["", "", "stubborn;"]) + s, "stub": True})
    return out

FINE = {"at": "never", "k": 0, "cls": "mute"}
def several(ctx, b, xs, count):
    """Two or three controllers in one client, their histories interleaved; each is judged by itself."""
    rng = random.Random(ctx.seed + 223)
    quiet = [x for x in xs if not set(x["h"]) & {"kill", "freeze", "callback", "cwait", "sleep"} and len(x["h"]) > 1]
    groups = []
    for _ in range(count):
        g = [dict(rng.choice(quiet)) for _ in range(rng.choice([2, 2, 3]))]
        if rng.random() < .6: g[0] = dict(g[0], P=[FINE], h=["init", "wait"] + ["frame", "wait"] * rng.randint(2, 4))
        for x in g: x["T"] = 1; x["again"] = rng.random() < .5; b.prepare(rng, x)
        left = [list(range(len(x["all"]))) for x in g]; order = []
        while any(left):
            i = rng.choice([i for i in range(len(g)) if left[i]]); order.append((i, left[i].pop(0)))
        groups.append((g, order))
    def one(go):
        g, order = go
        if any(x["m"] == 2 for x in g):
            with SOCKETS: return run(g, order)
        return run(g, order)
    def run(g, order):
        ops = ["fds"]; counts = []
        for i, x in enumerate(g):
            c = os.path.join(ctx.work, "count-s%d" % random.getrandbits(50)); counts.append(c)
            n = x["ops"][x["first"] - 2] % "&".join("%s=%s" % (H(k), H(v)) for k, v in dict(x["env"], TRK_COUNT=c).items())
            ops.append("new %d %s" % (i, n.split(" ", 2)[2]))
        at = {}
        for i, k in order:
            at[(i, k)] = len(ops); ops.append(steps(g[i]["all"][k], g[i]["m"], 1000, 0)[0].replace("call 0", "call %d" % i))
        ops += ["del %d" % i for i in range(len(g))] + ["procs", "fds"]
        r = proc.run_script(b.exe, ops, ctx.work, alarm=60 + 12 * len(order))
        for c in counts:
            if os.path.exists(c): os.unlink(c)
        shutil.rmtree(r.dir, ignore_errors=True)
        recs = []
        for i, x in enumerate(g):
            h = []
            for k, op in enumerate(x["all"]):
                if at[(i, k)] >= len(r.obs): break
                o = r.obs[at[(i, k)]]; h.append({"op": op, "out": "throw" if "exc" in o else "true" if o.get("ret", 1) else "false", "ms": o["ms"], "kids": -1})
            recs.append({"c": {"T": 1000, "A": 5500, "m": x["m"], "P": x["P"]}, "h": h})
        return r, ops, recs
    def judge(results):
        ans = iter(oracle.ask("Supervise", "Verdict(rec.c, rec.h)", [q for _, _, recs in results for q in recs], ctx, name="histories of several controllers"))
        out = []
        for r, ops, recs in results:
            msg = proc.broken(r)
            for i, q in enumerate(recs):
                a = next(ans)
                if a["bad"] and not msg: e = q["h"][a["bad"] - 1]; msg = "controller %d, operation %d, %s: %s after %d ms; possible: %s" % (i, a["bad"], e["op"], e["out"], e["ms"], "; ".join("%s in %d..%d ms" % (c["out"], c["lo"], c["hi"]) for c in a["can"]))
            if not msg:
                if r.obs[-2]["v"] or r.left: msg = "processes left: %s %s" % (r.obs[-2]["v"], r.left)
                elif r.obs[-1]["v"] != r.obs[0]["v"] or r.obs[-1]["threads"] != r.obs[0]["threads"]: msg = "descriptors or threads left: %s, before %s" % (r.obs[-1], r.obs[0])
            out.append(msg)
        return out
    res = proc.parallel(one, groups, 40); ctx.traces += len(groups)
    for (g, order), (r, ops, _), m in zip(groups, res, judge(res)):
        for _ in range(2):
            if m: again = one((g, order)); m = judge([again])[0]
        if m: ctx.violation("several controllers " + " / ".join(x["S"] for x in g), m + " (" + "; ".join("%s: %s" % (x["S"], " ".join(x["all"])) for x in g) + ")", {"harness": "trxproc", "ops": ops, "observed": r.obs[-12:], "stderr": r.err[-1000:]})
        if len(ctx.violations) >= 20: raise Enough()

def controller(ctx):
    """The design: calling thread, watchdog and tracker as concurrent processes."""
    c = dict(T=2, Launches=2, Calls=ctx.q(2, 3), Careless="FALSE")
    r = tlc.run("Controller", constants=c, init="Init", next_="Next", constraints=["Bound"], invariants=["OneUser", "InUse", "Exclusive", "Owned", "Disposed", "InTime", "Fresh"])
    ctx.model(r, "Controller %s" % c)
    # the specification tells the careless design apart
    bad = tlc.run("Controller", constants=dict(c, Careless="TRUE"), init="Init", next_="Next", constraints=["Bound"], invariants=["OneUser", "InUse"])
    if not bad.violated: raise RuntimeError("Controller.tla accepts a watchdog that uses the streams of a call in progress")

BOUNDS = dict(MaxN=2, MaxL=2, MaxK=2, MaxOps=6)
def sessions(ctx, b, rng):
    """Long sessions with a tracker that is slow but always in time, with pauses of the caller."""
    xs = []
    for i in range(ctx.q(9, 60)):
        T = rng.choice([1, 1, 2]); h = ["init"]
        for _ in range(rng.choice([6, 8, ctx.q(8, 25)])):
            h.append("wait")
            if rng.random() < .2: h.append("sleep")
            h.append("frame")
        h.append("wait")
        xs.append({"P": [FINE], "h": h, "m": i % 3, "T": T, "delay": rng.choice([500, 600, 400]), "again": rng.random() < .3})
    b.check([b.prepare(rng, x) for x in xs], "slow tracker")

def full(ctx, b):
    """A tracker that answers without reading, with requests that leave no room for the message that ends the session."""
    size = lambda n: "call 0 init P:%s R:1:2:3:4 -" % H("/" + "x" * n)
    def run(n, m, after=()):
        count = os.path.join(ctx.work, "count-f%d" % random.getrandbits(50))
        env = {"TRK_SCRIPT": 'hello;line:@@TRAX:state "1,2,3,4";hang|hello;answer', "TRK_COUNT": count}
        ops = ["fds", "new 0 %s 1 %d 0 - %s" % (H(b.tracker), m, "&".join("%s=%s" % (H(k), H(v)) for k, v in env.items())), "watch 0", size(n)] + list(after) + ["del 0", "procs", "fds"]
        r = proc.run_script(b.exe, ops, ctx.work, alarm=60)
        if os.path.exists(count): os.unlink(count)
        shutil.rmtree(r.dir, ignore_errors=True)
        return r, ops
    fits = lambda r: len(r.obs) > 3 and r.obs[3].get("ret") == 1
    lo, hi = 56000, 66000
    for _ in range(3):      # the largest request that is taken without being read
        ns = sorted({lo + (hi - lo) * i // 24 for i in range(25)})
        ok = [fits(r) for r, _ in proc.parallel(lambda n: run(n, 0), ns, 25)]
        if all(ok) or not ok[0]: return
        k = ok.index(False); lo, hi = ns[k - 1], ns[k]
        if hi - lo < 2: break
    jobs = [(lo - d, m, t) for d in (0, 1, 3, 6, 9) for m in (0, 1) for t in ((), ("call 0 wait",), ("call 0 wait", "call 0 reset", "call 0 init P:%s R:1:2:3:4 -" % H("/x"), "call 0 wait"))]
    def judge(r, t):
        x = proc.broken(r)
        if x: return x
        if not fits(r): return None     # another machine, another buffer
        for i, o in enumerate(r.obs[4:4 + len(t)]):
            if "exc" in o or o.get("ret") == 0: return "%s fails" % t[i][:40]
            if o["ms"] > 8000: return "%s took %d ms" % (t[i][:40], o["ms"])
        d, p, f = r.obs[-3:]
        if d["ms"] > 8000: return "destroying the controller took %d ms" % d["ms"]
        if p["v"] or r.left: return "processes left: %s %s" % (p["v"], r.left)
        if f["v"] != r.obs[0]["v"]: return "descriptors of the client changed from %s to %s" % (r.obs[0]["v"], f["v"])
    res = proc.parallel(lambda j: run(*j), jobs, 24); ctx.traces += len(jobs)
    for j, (r, ops) in zip(jobs, res):
        m = judge(r, j[2])
        for _ in range(2):
            if m: r, ops = run(*j); m = judge(r, j[2])
        if m: ctx.violation("full stream", "a tracker that answers without reading, a path of %d bytes, mode %d: %s" % (j[0], j[1], m), {"harness": "trxproc", "ops": [o[:200] for o in ops], "observed": r.obs[-6:], "stderr": r.err[-1000:]})
        if len(ctx.violations) >= 20: raise Enough()

def P21(ctx):
    rng = random.Random(ctx.seed + 21)
    b = Bench(ctx)
    controller(ctx)
    r = tlc.run("Controller", constants=dict(T=2, Launches=ctx.q(1, 2), Calls=2, Careless="FALSE"), spec="Spec", constraints=["Bound"], properties=["Ends", "Reaping"])
    ctx.model(r, "Controller, every operation ends")
    xs = scenarios(ctx, rng, ctx.q(700, 12000), ctx.q(BOUNDS, dict(MaxN=3, MaxL=3, MaxK=2, MaxOps=8)), [0, 2])
    # operations that meet a silent tracker come first
    late = [x for x in xs if any(f["cls"] in ("mute", "eof", "bad", "quitstay", "late") for f in x["P"]) or set(x["h"]) & {"freeze", "bigframe", "cwait"}]
    xs = late[:ctx.q(320, 7000)] + [x for x in xs if x not in late][:ctx.q(40, 3000)]
    for x in xs:
        if rng.random() < .15: x["signals"] = rng.choice([0, 0, 3, 17])
    xs += failing(rng)
    b.check([b.prepare(rng, x) for x in xs], "history", jobs=64)
    sessions(ctx, b, rng)
    full(ctx, b)
    done(ctx)

def P22(ctx):
    rng = random.Random(ctx.seed + 22)
    b = Bench(ctx)
    controller(ctx)
    xs = scenarios(ctx, rng, ctx.q(650, 15000), ctx.q(BOUNDS, dict(MaxN=3, MaxL=3, MaxK=2, MaxOps=8)), [0, 2])
    rng.shuffle(xs); n = len(xs) // 9
    several(ctx, b, xs, ctx.q(30, 600))
    plain, pert = xs[:n * 3], [dict(x, pert=delays(rng)) for x in xs[n * 3:n * 7]]
    for x in plain:
        if rng.random() < .1: x["signals"] = rng.choice([0, 0, 3, 17])
    b.check([b.prepare(rng, x) for x in plain], "history", jobs=64)
    b.check([b.prepare(rng, x) for x in pert], "disturbed history", A=(6500, 7500), jobs=64)
    done(ctx)

def done(ctx):
    ctx.rules.append("every transition of SuperviseMC.tla (tracker plans x operations x situations) is the end of an enumerated history; a stratified choice of them is executed with real tracker processes, outcome, duration and remaining processes of every operation judged by Supervise!Verdict; calls to the operating system of the disturbed runs judged by Monitor!Verdict")
    ctx.assumptions += ["durations are judged with an allowance of 4.5 s (5.5 s for trackers that ignore signals) beyond the timeout", "a failure counts if it repeats", "trackers leave no processes of their own behind that hold their streams", "timeout 0 (no timeout) is left open"]
