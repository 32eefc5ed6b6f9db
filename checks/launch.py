"""P23: the tracker is launched exactly as requested (spec/Launch.tla, LaunchMC.tla, Spawn.tla)."""
import os, random, shutil, threading
from vlib import build, oracle, proc, tlc
from vlib.core import Enough, H, U
LEVEL = "model_checking"
SOCKETS = threading.Semaphore(24)       # clients look for free ports in ranges of their own

def L(b): return list(b)

def read_report(path):
    """What a launched tracker saw: arguments, environment, directory, descriptors."""
    try:
        with open(path) as f: lines = [l.split() for l in f]
    except OSError: return None
    un = lambda t: b"" if t == "-" else bytes.fromhex(t)
    return {"args": [un(l[1]) for l in lines if l[0] == "arg"], "env": [un(l[1]) for l in lines if l[0] == "env"],
            "cwd": next((un(l[1]) for l in lines if l[0] == "cwd"), None), "fd": {int(l[1]): (l[2], int(l[3])) for l in lines if l[0] == "fd"}}

def envlit(m): return "&".join("%s=%s" % (H(k), H(v)) for k, v in m.items()) or "-"

class Bench:
    def __init__(self, ctx):
        self.ctx = ctx
        self.exe = build.harness("trxproc"); self.tracker = build.program("tracker.c", libs=False, lang="c").encode()
        self.n = 0; self.bad = 0; self.lock = threading.Lock()
        self.dir = os.path.join(ctx.work, "launch"); os.makedirs(self.dir)
    def path(self, stem="r"):
        with self.lock: self.n += 1; return os.path.join(self.dir, "%s%d" % (stem, self.n))
    def fail(self, what, msg, ops, run):
        self.ctx.violation("launch " + what, msg, {"harness": "trxproc", "ops": ops, "observed": run.obs[-12:], "stderr": run.err[-800:]})
        if len(self.ctx.violations) >= 20: raise Enough()

def new(i, cmd, env, mode=0, timeout=20, verbosity=0, cwd=b""): return "new %d %s %d %d %d %s %s" % (i, H(cmd), timeout, mode, verbosity, H(cwd), envlit(env))

def command_lines(ctx, b, items, what):
    """items: (rest of the command line, words or None).  The program is put in front, six launches per client."""
    rng = random.Random(ctx.seed + 231)
    spaced = os.path.join(b.dir, "a tracker's home", "the tracker"); os.makedirs(os.path.dirname(spaced), exist_ok=True)
    if not os.path.exists(spaced): os.link(b.tracker, spaced) if os.stat(b.tracker).st_dev == os.stat(b.dir).st_dev else shutil.copy2(b.tracker, spaced)
    groups = [items[i:i + 6] for i in range(0, len(items), 6)]
    def one(g):
        ops = []; want = []
        for i, (rest, words) in enumerate(g):
            q = rng.random()
            prog = b.tracker; first = prog
            if q < .3: first = b'"' + prog + b'"'
            elif q < .5: prog = spaced.encode(); first = b'"' + prog + b'"'
            rep = b.path()
            ops += [new(i, b" " * rng.choice([0, 0, 1, 3]) + first + b" " + rest, {b"TRK_REPORT": rep.encode()}, verbosity=rng.choice([0, 1, 2])), "call %d query" % i]
            want.append((rep, None if words is None else [prog] + words, first + b" " + rest))
        ops.append("exit")
        for attempt in (0, 1):
            r = proc.run_script(b.exe, ops, ctx.work, alarm=60)
            msg = judge(r, want)
            for rep, _, _ in want:
                if os.path.exists(rep): os.unlink(rep)
            shutil.rmtree(r.dir, ignore_errors=True)
            if msg is None: return None
        return msg, ops, r
    def judge(r, want):
        x = proc.broken(r)
        if x: return x
        for i, (rep, words, cmd) in enumerate(want):
            a, q = r.obs[2 * i], r.obs[2 * i + 1]; got = read_report(rep)
            if words is None:
                if "exc" not in a and "exc" not in q: return "command line %r is accepted" % cmd[-200:]
                if got: return "command line %r launches something" % cmd[-200:]
            else:
                if got is None: return "command line %r does not launch the program: %s %s" % (cmd[-200:], U(a.get("exc", "-")), U(q.get("exc", "-")))
                if got["args"] != words: return "command line %r: arguments %s, expected %s" % (cmd[-300:], str(got["args"][1:])[:400], str(words[1:])[:400])
                if q.get("ret") != 1: return "command line %r: the session is not established: %s" % (cmd[-200:], U(q.get("exc", "-")))
    for g, res in zip(groups, proc.parallel(one, groups, 48)):
        ctx.traces += len(g)
        if res: b.fail(what, *res)

def check_streams(got, mode, env, other):
    """Descriptors of a tracker: its own streams and nothing else."""
    fd = got["fd"]
    if 2 not in fd: return "the tracker has no standard error"
    own = {fd[2][0]}
    if mode == 1:
        i, o = env.get(b"TRAX_IN"), env.get(b"TRAX_OUT")
        if not i or not o: return "the dedicated streams are not announced"
        i, o = int(i), int(o)
        if i not in fd or fd[i][1] != os.O_RDONLY or not fd[i][0].startswith("pipe:"): return "the announced input %d is not open for reading" % i
        if o not in fd or fd[o][1] != os.O_WRONLY or not fd[o][0].startswith("pipe:"): return "the announced output %d is not open for writing" % o
        own |= {fd[i][0], fd[o][0]}
        own |= {fd[x][0] for x in (0, 1) if x in fd}
        if any(x in fd and fd[x][0].startswith("pipe:") for x in (0, 1)): return "standard streams of the tracker are not those of the client"
    else:
        for x, m in ((0, os.O_RDONLY), (1, os.O_WRONLY), (2, os.O_WRONLY)):
            if x not in fd or not fd[x][0].startswith("pipe:") or fd[x][1] != m: return "stream %d of the tracker is %s" % (x, fd.get(x))
            own.add(fd[x][0])
        if len(own) != 3: return "standard streams of the tracker are not separate"
    for n, (t, m) in fd.items():
        if n > 2 and t not in own: return "the tracker holds the foreign descriptor %d (%s)" % (n, t)
    if own & other - {fd[x][0] for x in (0, 1) if mode == 1 and x in fd}: return "two trackers share a stream"
    other |= own

def configurations(ctx, b, count):
    """Environment, directories, connection modes, several trackers side by side, failing launches in between."""
    rng = random.Random(ctx.seed + 232)
    names = [b"A", b"B_2", b"PATH2", b"HOME", b"LANG", b"with space", b"TRAX", b"TRAX_INX", b"TRAX_REGION_LEGACY", b"PWD", b"x" * 80]
    vals = [b"", b"1", b"two words", b"a=b=c", b"=x", b'"q"', b"\xff\x01", b"line\nline", b"v" * 3000, b"'", b"$HOME"]
    scen = []
    for n in range(count):
        caller = {b"PATH": b"/usr/bin:/bin"}
        for k in rng.sample(names, rng.randint(0, 6)): caller[k] = rng.choice(vals)
        for k in (b"TRAX_IN", b"TRAX_OUT", b"TRAX_SOCKET"):
            if rng.random() < .3: caller[k] = rng.choice([b"7", b"0", b"9099", b""])
        d = b.path("home"); os.makedirs(d)
        bindir = os.path.join(d, "bin dir"); os.makedirs(bindir); os.symlink(b.tracker, os.path.join(bindir, b"found-tracker".decode()))
        if rng.random() < .4: caller[b"PATH"] = bindir.encode() + b":/usr/bin"
        dirs = [b"", b"", os.path.join(d, "bin dir").encode(), b"bin dir", b"/", d.encode()]
        slots = []
        for i in range(rng.choice([1, 2, 3])):
            added = {k: rng.choice(vals) for k in rng.sample(names, rng.randint(0, 5))}
            added[b"TRK_REPORT"] = b.path().encode(); added[b"TRK_SCRIPT"] = b"hello;recv;state:%d,2,3,4;recv;state:%d,5,6,7;answer" % (i + 1, i + 1)
            bare = caller[b"PATH"].startswith(bindir.encode())
            prog = b"found-tracker" if bare and rng.random() < .6 else b.tracker
            if rng.random() < .12: prog = rng.choice([b"/nonexistent/program", b"no-such-program-here", b"/", b'""'])
            slots.append(dict(mode=rng.choice([0, 1, 2]), added=added, cwd=rng.choice(dirs), prog=prog, ok=prog in (b"found-tracker", b.tracker)))
        scen.append(dict(caller=caller, slots=slots, home=d))
    flat = [(s, x) for s in scen for x in s["slots"]]
    ans = oracle.ask("Launch", "[e |-> Environment(rec.c, rec.a), k |-> Added(rec.m)]",
                     [{"c": [[L(k), L(v[:60])] for k, v in s["caller"].items()], "a": [[L(k), L(v[:60])] for k, v in x["added"].items()], "m": x["mode"]} for s, x in flat], ctx, name="environments of launches")
    for (s, x), a in zip(flat, ans):
        full = {v[:60]: v for m in (s["caller"], x["added"]) for v in m.values()}
        x["env"] = {bytes(k): full[bytes(v)] for k, v in a["e"]}; x["keys"] = {bytes(k) for k in a["k"]}
    def one(s):
        if any(x["mode"] == 2 for x in s["slots"]):
            with SOCKETS: return run(s)
        return run(s)
    def run(s):
        ops = ["clearenv"] + ["setenv %s %s" % (H(k), H(v)) for k, v in s["caller"].items()] + ["chdir " + H(s["home"]), "cwd", "env", "fds"]
        base = len(ops) - 3
        for i, x in enumerate(s["slots"]): ops += [new(i, x["prog"] + b" 1", x["added"], mode=x["mode"], cwd=x["cwd"]), "call %d query" % i]
        for i, x in enumerate(s["slots"]): ops += ["call %d init P:%s R:1:2:3:4 -" % (i, H("/x")), "call %d wait" % i]
        for i, x in enumerate(s["slots"]): ops += ["call %d frame P:%s -" % (i, H("/y")), "call %d wait" % i]
        ops += ["cwd", "env"]
        for i in range(len(s["slots"])): ops.append("del %d" % i)
        ops += ["cwd", "env", "fds", "procs"]
        for attempt in range(3):
            r = proc.run_script(b.exe, ops, ctx.work, alarm=90)
            msg = judge(s, r, base)
            for x in s["slots"]:
                p = x["added"][b"TRK_REPORT"].decode()
                if os.path.exists(p): os.unlink(p)
            shutil.rmtree(r.dir, ignore_errors=True)
            if msg is None: return None
            if "TCP server socket" not in msg and attempt: break
        return msg, ops, r
    def judge(s, r, base):
        x = proc.broken(r)
        if x: return x
        o = r.obs; cwd0, env0, fds0 = o[base:base + 3]; k = base + 3; m = len(s["slots"]); other = set()
        for i, x in enumerate(s["slots"]):
            a, q = o[k + 2 * i], o[k + 2 * i + 1]
            if "exc" in a: return "controller not created: %s" % U(a["exc"])
            got = read_report(x["added"][b"TRK_REPORT"].decode())
            if not x["ok"]:
                if "exc" not in q or got: return "the program %r does not exist but is launched" % x["prog"]
                continue
            if got is None: return "program %r is not launched in mode %d, directory %r: %s" % (x["prog"], x["mode"], x["cwd"], U(q.get("exc", "-")))
            if q.get("ret") != 1: return "session not established in mode %d: %s" % (x["mode"], U(q.get("exc", "-")))
            if got["args"] != [x["prog"], b"1"]: return "arguments %s" % got["args"]
            env = {}
            for e in got["env"]:
                kk, _, v = e.partition(b"=")
                if kk in env: return "variable %r is given twice" % kk
                env[kk] = v
            want = x["env"]
            for kk in set(env) | set(want) | x["keys"]:
                if kk in x["keys"]:
                    if not env.get(kk): return "variable %r is not set in mode %d" % (kk, x["mode"])
                elif env.get(kk) != want.get(kk): return "variable %r is %r for the tracker, expected %r" % (kk, env.get(kk), want.get(kk))
            wd = os.path.realpath(os.path.join(s["home"], x["cwd"].decode()) if x["cwd"] else s["home"])
            if got["cwd"].decode() != wd: return "working directory of the tracker is %r, requested %r" % (got["cwd"], wd)
            msg = check_streams(got, x["mode"], env, other)
            if msg: return msg + " (mode %d)" % x["mode"]
        k += 2 * m
        for rnd, reg in ((0, "R:%d:2:3:4"), (1, "R:%d:5:6:7")):
            for i, x in enumerate(s["slots"]):
                a, w = o[k + 2 * i], o[k + 2 * i + 1]
                if not x["ok"]:
                    if not ("exc" in a or a.get("ret") == 0) or not ("exc" in w or w.get("ret") == 0): return "a tracker that was not launched answers"
                    continue
                if a.get("ret") != 1: return "request %d to tracker %d fails: %s" % (rnd + 1, i, U(a.get("exc", "-")))
                if w.get("ret") != 1 or w.get("region") != reg % (i + 1): return "answer %d of tracker %d is %s" % (rnd + 1, i, w)
            k += 2 * m
        for a, w, name in ((o[k], cwd0, "working directory"), (o[k + 1], env0, "environment")):
            if a["v"] != w["v"]: return "the client's %s changed while trackers run" % name
        k += 2 + m
        if o[k]["v"] != cwd0["v"]: return "the client's working directory changed"
        if o[k + 1]["v"] != env0["v"]: return "the client's environment changed"
        if o[k + 2]["v"] != fds0["v"]: return "descriptors of the client changed from %s to %s" % (fds0["v"], o[k + 2]["v"])
        if o[k + 3]["v"]: return "processes left: %s" % o[k + 3]["v"]
    for s, res in zip(scen, proc.parallel(one, scen, 40)):
        ctx.traces += 1
        if res: b.fail("configuration", *res)

def P23(ctx):
    rng = random.Random(ctx.seed + 23); b = Bench(ctx)
    def run(module, c, **kw):
        r = tlc.run(module, constants=c, raw=True, **kw); ctx.model(r, "%s %s" % (module, c)); return r
    run("Spawn", dict(N=ctx.q(3, 4), Dirs='{"a", "b"}'), init="Init", next_="Next", invariants=["Home", "Where", "Private", "Ends1"])
    run("LaunchMC", dict(MaxLen=1, MaxWords=ctx.q(3, 4)), init="WInit", next_="WNext", invariants=["Understood"])
    e = run("LaunchMC", dict(MaxLen=ctx.q(6, 7), MaxWords=1), init="CInit", next_="CNext", constraints=["CEmit", "BEmit"], invariants=["Shape", "Padding"]).emitted
    good, bad = e["C"], e["X"]
    if len(good) > ctx.q(1800, 12000): good = rng.sample(good, ctx.q(1800, 12000))
    if len(bad) > ctx.q(300, 2500): bad = rng.sample(bad, ctx.q(300, 2500))
    items = [(bytes(x["c"]), [bytes(w) for w in x["w"]]) for x in map(tlc.decode, good)]
    items += [(bytes(x["c"]), None) for x in map(tlc.decode, bad) if 34 in x["c"]]
    items += [(b" " * n, []) for n in range(4)]
    rng.shuffle(items)
    command_lines(ctx, b, items, "command line")
    # ---- random words written in random ways, and arbitrary text
    def word():
        q = rng.random()
        if q < .1: return b""
        if q < .7: return bytes(rng.choice(b"abcxyz 0189-_/\\=:;.,$*?!&|<>()[]{}~#%^+@`'\t\n\xc3\xa9\xff\x01\x7f") for _ in range(rng.randint(1, 12)))
        if q < .75: return b"long" * rng.randint(1, 2000)
        return rng.choice([b"--option=value with space", b"-x", b"C:\\path\\file", b"a'b", b"$(id)", b"%d%s%n", b"'", b"''", b"\\", b"\t", b"\n"])
    items = []
    for _ in range(ctx.q(300, 3000)):
        ws = [word() for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 40]))]
        ws = [w if not w.endswith(b"'") else w + b"." for w in ws]
        t = b"".join(b" " * rng.choice([1, 1, 1, 2, 5]) + (w if w and b" " not in w and rng.random() < .5 and not any(c in w for c in b"\t\n\r\v\f") else b'"' + w + b'"') for w in ws)
        items.append((t + b" " * rng.choice([0, 0, 1, 4]), ws))
    texts = [b'"', b'a "', b'" ', b'a b "c d', b'"a" "b', b'"a" b "']
    for _ in range(ctx.q(600, 5000)): texts.append(bytes(rng.choice(b'  ""ab\\\'-') for _ in range(rng.randint(1, 30))))
    for t, a in zip(texts, oracle.ask("Launch", "[c |-> Clear(rec.t), w |-> Split(rec.t), b |-> Split(rec.t) = Bad]", [{"t": L(t)} for t in texts], ctx, name="arbitrary command lines")):
        if not a["c"]: continue
        if a["b"] and b'"' not in t: continue
        items.append((t, None if a["b"] else [bytes(w) for w in a["w"]]))
    command_lines(ctx, b, items, "random command line")
    # ---- nothing to launch
    empties = [b"", b" ", b"    ", b'"', b' "', b'""', b'"" a', b'" "', b'"unfinished program']
    def one(c):
        ops = [new(0, c, {}), "call 0 query", "procs", "call 0 ready", "del 0", "fds"]
        r = proc.run_script(b.exe, ops, ctx.work, alarm=40); msg = proc.broken(r)
        if not msg and "exc" not in r.obs[0] and "exc" not in r.obs[1]: msg = "command line %r is accepted" % c
        if not msg and (r.obs[2]["v"] or r.obs[3].get("ret")): msg = "command line %r launches something" % c
        return msg and (msg, ops, r)
    for c, res in zip(empties, proc.parallel(one, empties, 16)):
        ctx.traces += 1
        if res: b.fail("no command", *res)
    configurations(ctx, b, ctx.q(120, 1500))
    ctx.rules.append("command lines enumerated by LaunchMC.tla (every text over space, quote, letter, apostrophe, backslash up to the bound) and random ones, meaning by Launch!Split; every launch reports its arguments, environment, directory and descriptors")
    ctx.assumptions += ["quotes inside unquoted words, words adjacent to closing quotes and apostrophes directly before quotes are left open", "relative program paths together with a requested directory are left open", "words do not contain NUL"]
