"""Runs scripts on the Octave bindings: prepares the other side of every session, starts Octave, passes on what it observes.
Lines of a case: `in HEX` (what the peer sends, all at once), `tcp`, and Octave statements."""
import json, os, signal, socket, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
out = sys.stdout

def cases(path):
    cur = None
    for l in open(path):
        l = l.rstrip("\n")
        if l.startswith("B "): cur = [l[2:], []]
        elif l == "E": yield cur; cur = None
        elif l: cur[1].append(l)

def peer(l, data, path):
    l.settimeout(600)
    try:
        c = l.accept()[0]; c.settimeout(600); c.sendall(data); c.shutdown(socket.SHUT_WR)
        got = b""
        while True:
            d = c.recv(65536)
            if not d: break
            got += d
    except OSError: pass
    with open(path, "wb") as f: f.write(got)
    open(path + ".done", "w").close()
    l.close()

def run(batch, alarm, d):
    fds, lines = [], []
    for k, (cid, ops) in enumerate(batch):
        data = b"".join(bytes.fromhex(x[3:]) for x in ops if x.startswith("in ") and x != "in -")
        session = any(x.startswith("s(") for x in ops); tcp = "tcp" in ops
        po = os.path.join(d, "out%d" % k)
        lines.append('x_say(\'{"B":"%s"}\');' % cid)
        if session:
            open(po, "w").close(); fi = fo = port = 0
            if tcp:
                l = socket.socket(); l.bind(("127.0.0.1", 0)); l.listen(1); port = l.getsockname()[1]
                threading.Thread(target=peer, args=(l, data, po), daemon=True).start()
            else:
                pi = os.path.join(d, "in%d" % k)
                with open(pi, "wb") as f: f.write(data)
                fi = os.open(pi, os.O_RDONLY); fo = os.open(po, os.O_WRONLY | os.O_APPEND); fds += [fi, fo]
            lines.append('x_begin("%s", "", %d, %d, %d);' % (po, fi, fo, port))
        lines += [x for x in ops if not x.startswith("in ") and x != "tcp"]
        if session: lines.append("x_close();")
        lines.append('x_say(\'{"E":"%s","live":0}\');' % cid)
    script = os.path.join(d, "script_%d.m" % os.getpid())
    with open(script, "wb") as f: f.write(("warning('off', 'all'); unsetenv('LD_PRELOAD'); source('%s/trxoct.m');\n" % HERE + "\n".join(lines) + "\n").encode("latin-1"))
    e = dict(os.environ)
    if e.get("OCT_PRELOAD"): e["LD_PRELOAD"] = e.pop("OCT_PRELOAD")
    e["ASAN_OPTIONS"] = e.get("ASAN_OPTIONS", "") + ":detect_leaks=0"
    p = subprocess.Popen(["octave-cli", "-q", "--norc", "--no-history", "--no-window-system", "-p", HERE, script], stdout=subprocess.PIPE, stdin=subprocess.DEVNULL, env=e, pass_fds=fds, cwd=d, start_new_session=True)
    for f in fds: os.close(f)
    last = [time.time(), False]
    def watch():
        while p.poll() is None:
            time.sleep(.2)
            if time.time() - last[0] > alarm:
                last[1] = True
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
                return
    threading.Thread(target=watch, daemon=True).start()
    for l in p.stdout:
        if l.startswith((b'{"B"', b'{"E"')): last[0] = time.time()
        if l.startswith(b'{"'): out.buffer.write(l); out.buffer.flush()
    rc = p.wait()
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass
    if last[1]:
        out.write('{"hang":1}\n'); out.flush(); os._exit(98)
    if rc: os._exit(rc if 0 < rc < 256 else 99)

def main():
    alarm = int(sys.argv[2]) if len(sys.argv) > 2 else 20
    todo = list(cases(sys.argv[1]))
    for i in range(0, len(todo), 200):
        with tempfile.TemporaryDirectory(prefix="oct-", dir=os.getcwd()) as d: run(todo[i:i + 200], alarm, d)
    os._exit(0)
main()
