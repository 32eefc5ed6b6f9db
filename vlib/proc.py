"""Runs scripts of the process controller driver (harness/trxproc.cpp), each in a session of its own."""
import json, os, signal, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from .core import ASAN_ENV, crash_summary

class Run:
    """obs: the observations; ended: the script was completed; died: exit status if not; err: standard error; left: processes of the session still there at the end."""
    __slots__ = ("obs", "ended", "hang", "rc", "err", "out", "left", "dir", "events", "found")
    def __init__(self): self.events = self.found = None

def members(sid):
    """Processes of a session (its leader excluded), with their state."""
    out = []
    for p in os.listdir("/proc"):
        if not p.isdigit(): continue
        try:
            with open("/proc/%s/stat" % p) as f: s = f.read()
        except OSError: continue
        r = s[s.rindex(")") + 2:].split()
        if int(r[3]) == sid and int(p) != sid: out.append((int(p), r[0]))
    return out

def run_script(exe, ops, workdir, alarm=60, env=None, cwd=None, prefix=()):
    d = tempfile.mkdtemp(prefix="p-", dir=workdir)
    with open(os.path.join(d, "script"), "w") as f: f.write("\n".join(ops) + "\n")
    e = dict(os.environ); e.update(ASAN_ENV)
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=0:report_signal_unsafe=0"
    e.update(env or {})
    e = {k: v for k, v in e.items() if v is not None}
    with open(os.path.join(d, "err"), "wb") as er, open(os.path.join(d, "out"), "wb") as ou:
        p = subprocess.Popen(list(prefix) + [exe, os.path.join(d, "script"), os.path.join(d, "results"), str(alarm)], stdin=subprocess.DEVNULL, stdout=ou, stderr=er, env=e, cwd=cwd or d, start_new_session=True)
    r = Run(); r.dir = d
    try: r.rc = p.wait(timeout=alarm + 30)
    except subprocess.TimeoutExpired: p.kill(); r.rc = p.wait()
    r.left = members(p.pid)
    for q, _ in r.left:
        try: os.kill(q, signal.SIGKILL)
        except OSError: pass
    r.obs = []
    try:
        with open(os.path.join(d, "results")) as f:
            for l in f:
                try: r.obs.append(json.loads(l))
                except ValueError: r.obs.append({"op": "garbage", "v": l[:200]})
    except OSError: pass
    r.hang = any(o["op"] == "hang" for o in r.obs)
    r.ended = any(o["op"] in ("end", "exit") for o in r.obs)
    r.obs = [o for o in r.obs if o["op"] not in ("hang", "end")]
    with open(os.path.join(d, "err"), "rb") as f: r.err = f.read().decode("latin-1")[-20000:]
    with open(os.path.join(d, "out"), "rb") as f: r.out = f.read(200000)
    if r.rc == 97: raise RuntimeError("harness misuse: " + r.err[-2000:])
    return r

def broken(r):
    """What is wrong with a run that did not complete, or None."""
    if r.hang: return "the client did not return from operation %d" % (len(r.obs) + 1)
    if not r.ended or r.rc != 0: return "the client died (exit %s) at operation %d: %s" % (r.rc, len(r.obs) + 1, crash_summary(r.err) or r.err[-300:])
    return None

def parallel(f, items, jobs):
    with ThreadPoolExecutor(max_workers=jobs) as ex: return list(ex.map(f, items))
