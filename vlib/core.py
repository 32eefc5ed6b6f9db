"""Shared check machinery: running scripted cases against the real code, reporting, evidence."""
import json, os, random, shutil, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
from .build import VERIF, BUILD
from . import build

KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
REPLAY = os.path.join(BUILD, "replay")

def H(b):
    """bytes/str -> hex token of the harness ('-' empty, '~' None)."""
    if b is None: return "~"
    if isinstance(b, str): b = b.encode("latin-1")
    return bytes(b).hex() or "-"

def U(t):
    if t is None or t == "~": return None
    if t == "-": return b""
    return bytes.fromhex(t)

class Case:
    """One scripted execution: operations for the harness and the judge of its observations.
    judge(obs) -> None (conforms) or a string describing the disagreement.  obs is the list of JSON
    objects printed by the case's operations."""
    __slots__ = ("id", "ops", "judge", "meta", "leakcheck")
    def __init__(self, id, ops, judge, meta=None, leakcheck=False):
        self.id, self.ops, self.judge, self.meta, self.leakcheck = id, ops, judge, meta, leakcheck

class Outcome:
    __slots__ = ("obs", "crash", "hang", "live", "stderr")
    def __init__(self):
        self.obs = []; self.crash = None; self.hang = False; self.live = 0; self.stderr = ""

ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:max_allocation_size_mb=512:detect_stack_use_after_return=0",
            "UBSAN_OPTIONS": "print_stacktrace=1"}

def run_chunk(exe, cases, workdir, alarm=6, env=None, timeout=None):
    """Runs cases in one harness process, restarting after a crash or hang.  Returns {index: Outcome}."""
    res = {}
    todo = list(range(len(cases)))
    deaths = 0
    while todo and deaths < 6:          # enough evidence: the rest of this chunk is left unjudged
        fd, path = tempfile.mkstemp(prefix="script-", dir=workdir); os.close(fd)
        with open(path, "w") as f:
            for i in todo:
                f.write("B %d\n" % i); f.write("\n".join(cases[i].ops)); f.write("\nE\n")
        e = dict(os.environ); e.update(ASAN_ENV)
        if env: e.update(env)
        p = subprocess.Popen([exe, path, str(alarm)], stdout=subprocess.PIPE, stderr=open(path + ".err", "w+b"), stdin=subprocess.DEVNULL, env=e, cwd=workdir)
        cur = None; done = set()
        for line in p.stdout:
            try: o = json.loads(line)
            except ValueError:
                if cur is not None: res[cur].obs.append({"garbage": line.decode("latin-1")[:400]})
                continue
            if "B" in o:
                cur = int(o["B"]); res[cur] = Outcome()
            elif "E" in o:
                res[cur].live = o["live"]; done.add(cur); cur = None
            elif "hang" in o:
                if cur is not None: res[cur].hang = True
            else:
                res[cur].obs.append(o)
        rc = p.wait()
        with open(path + ".err", "rb") as f: err = f.read().decode("latin-1")
        os.unlink(path); os.unlink(path + ".err")
        if rc == 97:
            raise RuntimeError("harness misuse: " + err[-2000:])
        if rc == 0 and len(done) == len(todo):
            break
        if cur is None:
            rest = [i for i in todo if i not in done]
            if not rest: break
            cur = rest[0]; res[cur] = Outcome()
        deaths += 1
        if not res[cur].hang:
            res[cur].crash = rc; res[cur].stderr = err[-3000:]
        done.add(cur)
        todo = [i for i in todo if i not in done]
    return res

def run_cases(exe, cases, workdir, jobs=8, alarm=6, env=None):
    """Runs all cases in parallel chunks; a crash or hang counts only if a re-run of the case alone repeats it."""
    out = [None] * len(cases)
    n = len(cases)
    if n == 0: return out
    size = max(1, min(2000, (n + jobs * 4 - 1) // (jobs * 4)))
    chunks = [list(range(i, min(n, i + size))) for i in range(0, n, size)]
    def work(idx):
        return idx, run_chunk(exe, [cases[i] for i in idx], workdir, alarm, env)
    with ThreadPoolExecutor(max_workers=jobs) as ex:
        for idx, r in ex.map(work, chunks):
            for k, i in enumerate(idx):
                out[i] = r.get(k)
    redo = 0
    for i in range(n):
        if out[i] is not None and (out[i].hang or out[i].crash is not None):
            redo += 1
            if redo > 12: out[i] = None; continue
            r = run_chunk(exe, [cases[i]], workdir, alarm, env)
            out[i] = r.get(0) or Outcome()
    return out

class Enough(Exception):
    """Raised once a check has found plenty of violations: the rest is not explored."""

class Ctx:
    """One run of one property's check."""
    def __init__(self, prop, tier, seed, technique_level):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, technique_level
        self.rng = random.Random(seed * 1000003 + sum(map(ord, prop)))
        self.t0 = time.time()
        os.makedirs(BUILD, exist_ok=True); os.makedirs(REPLAY, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix="work-%s-" % prop, dir=BUILD)
        self.violations = []; self.known = []
        self.states = 0; self.transitions = 0; self.traces = 0; self.evals = 0
        self.samples = []; self.rules = []; self.assumptions = []; self.detail = {}
        self._known = load_known(prop)
        self.distinct = set()
    @property
    def quick(self): return self.tier == "quick"
    def q(self, quick, thorough): return quick if self.quick else thorough

    def violation(self, sig, what, replay):
        """sig: identity of the failing input/call site; what: description; replay: JSON-able reproduction."""
        for k in self._known:
            if k in sig:
                if k not in self.known:
                    self.known.append(k); print("KNOWN-FINDING: property=%s %s" % (self.prop, k)); sys.stdout.flush()
                return
        n = len(self.violations)
        path = os.path.join(REPLAY, "%s-%d.json" % (self.prop, n))
        if n < 20:
            with open(path, "w") as f: json.dump({"property": self.prop, "signature": sig, "what": what, "replay": replay}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  %s: %s" % (sig, what[:1500]))
            sys.stdout.flush()
        self.violations.append((sig, what, path))

    def model(self, r, name):
        """Accounts a TLC run of the specification itself; a violated invariant there is a property violation of the model."""
        self.states += r.distinct; self.transitions += r.states
        self.detail.setdefault("tlc", []).append({"run": name, "distinct": r.distinct, "generated": r.states, "depth": r.depth, "wall_s": round(r.wall, 2)})
        if r.violated:
            raise RuntimeError("specification run %s violates %s:\n%s" % (name, r.violated, r.output[-3000:]))

    def replay(self, exe, cases, alarm=6, env=None, what="behaviour", jobs=8, leak=True, limit=None):
        """Replays cases on the real code and judges each."""
        t = time.time()
        outs = run_cases(exe, cases, self.work, alarm=alarm, env=env, jobs=jobs)
        bad = 0
        for c, o in zip(cases, outs):
            if o is None: continue
            self.traces += 1
            msg = None
            if bad >= 25: break
            if o.hang: msg = "did not return (hang) after %d observations" % len(o.obs)
            elif o.crash is not None: msg = "process died (exit %s) after %d observations: %s" % (o.crash, len(o.obs), crash_summary(o.stderr))
            else:
                try: msg = c.judge(o.obs)
                except Exception as e: msg = "unreadable observations: %r %s" % (e, traceback.format_exc()[-600:])
                if msg is None and leak and c.leakcheck and o.live != 0:
                    r2 = run_chunk(exe, [c, c], self.work, alarm, env)
                    if r2.get(1) is not None and r2[1].live != 0:
                        msg = "%d allocations neither reachable nor released after everything was released" % r2[1].live
            if msg is not None:
                r2 = run_chunk(exe, [c], self.work, alarm, env).get(0)   # must repeat
                if r2 is not None and not r2.hang and r2.crash is None:
                    try: again = c.judge(r2.obs)
                    except Exception as e: again = "unreadable observations: %r" % e
                    if again is None and not (c.leakcheck and "allocations" in msg):
                        continue
                bad += 1
                self.violation("%s %s" % (what, c.id), msg, {"harness": os.path.basename(exe), "ops": c.ops, "meta": c.meta, "observed": o.obs[-12:], "stderr": o.stderr[-1500:]})
                if limit and bad >= limit: break
        if cases and len(self.samples) < 6:
            for c in (cases[0], cases[len(cases) // 2]):
                self.samples.append({"what": what, "id": str(c.id)[:200], "ops": [x[:160] for x in c.ops[:14]]})
        self.detail.setdefault("replay", []).append({"what": what, "cases": len(cases), "failed": bad, "wall_s": round(time.time() - t, 2)})
        if len(self.violations) >= 20: raise Enough()
        return bad

    def finish(self):
        cov = {"rule": "; ".join(self.rules) or "see assumptions", "samples": self.samples[:8] or [{"none": True}], "detail": self.detail}
        if self.level == "model_checking":
            cov.update({"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces})
        else:
            cov.update({"evaluations": self.traces + self.evals, "distinct_nontrivial": max(len(self.distinct), 0) or self.traces})
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": [{"signature": s, "what": w[:600], "replay": p} for s, w, p in self.violations[:20]]}
        d = os.path.join(VERIF, "evidence"); os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        print("%s: %s; %d model states, %d executions of the real code judged, %.1f s" % (
            self.prop, "%d VIOLATIONS" % len(self.violations) if self.violations else "held", self.states, self.traces + self.evals, time.time() - self.t0))
        return 1 if self.violations else 0

def crash_summary(err):
    keep = [l.strip() for l in err.splitlines() if "ERROR:" in l or "Assertion" in l or "runtime error" in l or "terminate called" in l or "what()" in l or l.strip().startswith(("#0 ", "#1 ", "#2 ", "#3 "))]
    return " | ".join(keep[:6])[:700]

def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                out.append(l.split(" ", 2)[2])
    return out
