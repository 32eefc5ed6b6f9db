"""Runs TLC on a specification module and collects what it prints."""
import json, os, re, shutil, subprocess, tempfile, time
from .build import VERIF

SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class TLCError(Exception):
    """TLC itself failed (parse error, evaluation error, time-out): an error of the check, not a violation."""

class Result:
    def __init__(self):
        self.emitted = {}      # tag -> list of decoded JSON values
        self.states = 0; self.distinct = 0; self.depth = 0
        self.violated = None   # name of the violated invariant/property, if any
        self.output = ""; self.wall = 0.0; self.ok = False

_tag = re.compile(r'^<<"([A-Za-z0-9_]+)", "(.*)">>$')

def decode(s):
    """Value of a raw emission."""
    return json.loads(_unescape(s))

def _unescape(s):
    return json.loads('"' + s + '"')

def run(module, constants=None, init=None, next_=None, spec=None, invariants=(), constraints=(), properties=(),
        view=None, postcondition=None, workers=8, simulate=None, depth=None, seed=1, env=None, timeout=800,
        heap="6g", symmetry=None, action_constraints=(), workdir=None, extra=(), deadlock=False, tags=None, stream=None, sources=None, raw=False):
    """Runs TLC on spec/<module>.tla with a configuration built from the arguments.
    Lines printed as <<"TAG", "json">> are decoded into result.emitted[TAG]."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=workdir)
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for k, v in (sources or {}).items():
            with open(os.path.join(d, k), "w") as f: f.write(v)
        cfg = []
        if spec: cfg.append("SPECIFICATION " + spec)
        if init: cfg.append("INIT " + init)
        if next_: cfg.append("NEXT " + next_)
        if constants:
            cfg.append("CONSTANTS")
            for k, v in constants.items():
                cfg.append("  %s %s %s" % (k, "<-" if isinstance(v, tuple) else "=", v[0] if isinstance(v, tuple) else v))
        for i in invariants: cfg.append("INVARIANT " + i)
        for i in constraints: cfg.append("CONSTRAINT " + i)
        for i in action_constraints: cfg.append("ACTION_CONSTRAINT " + i)
        for i in properties: cfg.append("PROPERTY " + i)
        if view: cfg.append("VIEW " + view)
        if symmetry: cfg.append("SYMMETRY " + symmetry)
        if postcondition: cfg.append("POSTCONDITION " + postcondition)
        cfg.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write("\n".join(cfg) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m", "-cp", JARS, "tlc2.TLC", "-config", "run.cfg", "-metadir", os.path.join(d, "meta"),
               "-workers", str(workers), "-noGenerateSpecTE", "-fp", "1"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-seed", str(seed)]
        if depth:
            cmd += ["-depth", str(depth)]
        cmd += list(extra) + [module + ".tla"]
        e = dict(os.environ)
        if env: e.update({k: str(v) for k, v in env.items()})
        t0 = time.time()
        res = Result()
        outp = os.path.join(d, "out.txt")
        with open(outp, "wb") as o:
            p = subprocess.Popen(cmd, cwd=d, stdout=o, stderr=subprocess.STDOUT, env=e)
            try:
                p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill(); p.wait()
                raise TLCError("%s: no answer after %d s" % (module, timeout))
        res.wall = time.time() - t0
        text = []
        with open(outp, "r", errors="replace") as f:
            for line in f:
                line = line.rstrip("\n")
                if line.startswith('<<"'):
                    m = _tag.match(line)
                    if m:
                        if tags is None or m.group(1) in tags:
                            if raw: res.emitted.setdefault(m.group(1), []).append(m.group(2)); continue
                            v = json.loads(_unescape(m.group(2)))
                            if stream: stream(m.group(1), v)
                            else: res.emitted.setdefault(m.group(1), []).append(v)
                        continue
                text.append(line)
        res.output = "\n".join(text)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", res.output)
        if m: res.states, res.distinct = int(m.group(1)), int(m.group(2))
        if simulate:
            m = re.findall(r"(\d+) states checked", res.output) or re.findall(r"(\d+) states generated", res.output)
            if m: res.states = res.distinct = int(m[-1])
        m = re.search(r"depth of the complete state graph search is (\d+)", res.output)
        if m: res.depth = int(m.group(1))
        m = re.search(r"Invariant (\S+) is violated", res.output) or re.search(r"Temporal properties were violated|Postcondition (\S+) .*violated|Action property (\S+) is violated|Deadlock reached", res.output)
        if m: res.violated = (m.group(1) if m.lastindex and m.group(1) else m.group(0))
        if p.returncode == 0:
            res.ok = True
        elif not res.violated:
            raise TLCError("%s: TLC exit %d\n%s" % (module, p.returncode, res.output[-4000:]))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)
