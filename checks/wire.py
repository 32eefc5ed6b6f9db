"""P01-P04: the message layer (spec/Wire.tla, spec/WireMC.tla, spec/WireGen.tla)."""
import random
from vlib import build, gen, oracle, tlc
from vlib.core import Case, H, U
LEVEL = "model_checking"
ST = {"error": -1, "hello": 1, "initialize": 2, "frame": 3, "quit": 4, "state": 5}

def L(b): return list(b)
def Bs(l): return bytes(l)
def mprops(m): return gen.Props((Bs(k), Bs(v)) for k, v in m["props"])

def mc(ctx):
    """The specification itself: reader automaton = line meaning, round trip and cut streams."""
    r = tlc.run("WireMC", constants=dict(MaxLen=ctx.q(4, 6), ArgAlphabet="{32, 34, 92, 10, 61, 110, 97}", MaxArg=ctx.q(2, 2), MaxArgs=ctx.q(1, 2)), init="Init", next_="Next",
                invariants=["Agree", "NoEarly"], constraints=["Bound"], timeout=850)
    ctx.model(r, "WireMC: reader automaton against line meaning, round trip and cuts (assumptions)")

def gen_lines(ctx, start, pool, n, emit="Emit", simulate=None, cap=None):
    r = tlc.run("WireGen", constants=dict(Start='"%s"' % start, Pool='"%s"' % pool, MaxN=n), init="Init", next_="Next", constraints=[emit], invariants=["RoundTripAll"],
                simulate=simulate, depth=n + 1 if simulate else None, seed=ctx.seed)
    ctx.model(r, "WireGen %s/%s up to %d pieces%s" % (start, pool, n, " (random)" if simulate else ""))
    l = r.emitted.get("L", [])
    if cap and len(l) > cap: random.Random(ctx.seed).shuffle(l); l = l[:cap]
    return l

# ---------------------------------------------------------------- P01
class Talk:
    """A closed session that carries given payloads; every message is also read off the wire by the specification."""
    def __init__(self, id, ver, opts):
        self.id, self.ver, self.ops, self.checks, self.wires = id, ver, [], [], []
        self.ops += ["open 1 c " + opts.get("ft", "f")]
        for k in ("rchunk", "wchunk", "eintr"):
            if opts.get(k): self.ops.append("%s %d" % (k, opts[k]))
        self.ft = opts.get("ft", "f")
    def op(self, line, chk=lambda o: None): self.ops.append(line); self.checks.append((line, chk))
    def wire(self, line, msgs):
        """pump; the bytes must be exactly these messages."""
        self.wires.append(msgs)
        self.op(line, ("wire", len(self.wires) - 1))
    def setup(self, name=None, desc=None, fam=None, custom=None):
        pr = [(b"trax.version", b"%d" % self.ver)]
        self.op("sset 2 %s %d 15 15 1 1 %s %s %s %s" % (self.ft, self.ver, H(name) if name else "~", H(desc) if desc else "~", H(fam) if fam else "~", (custom or gen.Props()).lit()),
                lambda o: None if o["ok"] else "server set-up failed")
        self.ops.append("pump 2 1")
        def chk(o):
            if not o["ok"]: return "client set-up failed"
            for k, v in (("name", name), ("desc", desc), ("family", fam)):
                if v and U(o[k]) != v: return "tracker %s %r arrived as %r" % (k, v, U(o[k]))
            if custom is not None and o["custom"] != custom.out(): return "custom entries %s arrived as %s" % (custom.out()[:300], o["custom"][:300])
            return None
        self.op("cset 1", chk)
    def start(self):
        im = gen.mk_path(b"p"); reg = gen.mk_rect(1, 2, 3, 4)
        self.op("cinit 1 %s,~,~ %s|- -" % (im.lit, reg.lit), ok); self.ops.append("pump 1 2")
        self.op("swait%s 2 -" % ("s" if self.ver < 4 else ""), lambda o: None if o["r"] == 2 else "initialize not received")
        self.reply(reg, gen.Props())
    def reply(self, reg, pr):
        self.op("sreply 2 %s|%s" % (reg.lit, pr.lit()) if self.ver >= 4 else "sreplys 2 %s %s" % (reg.lit, pr.lit()), ok)
        self.wire("pump 2 1 100000000", [("state", None, pr)])
        def chk(o):
            if o["r"] != 5: return "state not received (%d, %r)" % (o["r"], U(o["err"]))
            if o["objects"] != reg.out + "|" + pr.out(): return "state arrived as %s instead of %s" % (o["objects"][:400], (reg.out + "|" + pr.out())[:400])
        self.op("cwait 1 -", chk)
    def frame(self, im, pr):
        self.op("cframe 1 %s,~,~ ~ %s" % (im.lit, pr.lit()), ok)
        self.wire("pump 1 2 100000000", [("frame", [im.text], pr)])
        def chk(o):
            if o["r"] != 3: return "frame not received (%d, %r)" % (o["r"], U(o["err"]))
            if o["images"] != im.out + ",~,~": return "image arrived as %s instead of %s" % (o["images"][:400], im.out[:400])
            if o["props"] != pr.out(): return "properties arrived as %s instead of %s" % (o["props"][:400], pr.out()[:400])
        self.op("swait%s 2 -" % ("s" if self.ver < 4 else ""), chk)
    def quit(self, reason, client):
        a, b = ("1", "2") if client else ("2", "1")
        self.op("term %s %s" % (a, H(reason)), ok)
        self.wire("pump %s %s 100000000" % (a, b), [("quit", [], gen.Props({b"trax.reason": reason}))])
        sot = self.ver < 4
        def chk(o):
            if o["r"] != 4: return "quit not received (%d)" % o["r"]
            if not (client and not sot) and o["props"] != gen.Props({b"trax.reason": reason}).out(): return "reason %r arrived as %s" % (reason, o["props"])
        self.op(("swait%s 2 -" % ("s" if sot else "")) if client else "cwait 1 -", chk)
    def case(self):
        checks, wires = self.checks, self.wires
        t = self
        def judge(obs):
            for k, (line, chk) in enumerate(checks):
                if k >= len(obs): return "only %d of %d observations" % (len(obs), len(checks))
                if isinstance(chk, tuple):
                    t.seen.append((chk[1], U(obs[k]["d"])))
                    continue
                m = chk(obs[k])
                if m: return "step %d (%s): %s" % (k, line[:100], m)
        self.seen = []
        c = Case(self.id, self.ops, judge)
        return c

def ok(o):
    if o["r"] != 0: return "call failed (%d, %r)" % (o["r"], U(o["err"]))

def P01(ctx):
    mc(ctx)
    exe = build.harness("trxh")
    rng = random.Random(ctx.seed + 1)
    vals = [Bs(v) for v in gen_lines(ctx, "none", "bytes", ctx.q(3, 4), "EmitBytes")]
    vals += [bytes([c]) for c in range(1, 256)] + [b"a" + bytes([c]) + b"b" for c in range(1, 256)] + [bytes([c]) * 3 for c in range(1, 256)]
    vals += [bytes(rng.randint(1, 255) for _ in range(rng.randint(4, 60))) for _ in range(ctx.q(400, 6000))]
    rng.shuffle(vals)
    talks = []
    modes = [{}, {}, {"rchunk": 1}, {"rchunk": 2, "wchunk": 3}, {"rchunk": 3, "eintr": 2}, {"wchunk": 1, "rchunk": 5}, {"ft": "t"}, {"ft": "t", "rchunk": 7, "wchunk": 5}, {"eintr": 3}, {"ft": "t", "eintr": 2, "rchunk": 64}, {"wchunk": 2, "eintr": 3}, {"ft": "t", "wchunk": 3, "rchunk": 9, "eintr": 2}, {"wchunk": 5, "rchunk": 64, "eintr": 2}]
    keys = []
    for c in gen.KEYCHARS: keys += [bytes([c]), b"k" + bytes([c]), bytes([c]) + b"z", bytes([c]) * 64]
    keys += [b"q" * n for n in range(1, 65)]
    rng.shuffle(keys)
    ki = [0]
    def key():
        ki[0] += 1
        k = keys[ki[0] % len(keys)]
        return k if not k.startswith(b"trax.") else b"k"
    per = 10
    # values no longer than an argument may be, in every position a value can have
    for n in range(0, len(vals), 4 * per):
        chunk = vals[n:n + 4 * per]
        t = Talk("values/%d" % n, 3 if (n // (4 * per)) % 2 else 4, modes[(n // (4 * per)) % len(modes)])
        nm = [v for v in chunk if v][:3]
        t.setup(*(nm + [None] * (3 - len(nm))), custom=gen.Props({key(): chunk[-1], key(): chunk[0]}))
        t.start()
        for i in range(0, len(chunk), 4):
            q = chunk[i:i + 4]
            t.frame(gen.mk_path(q[0]) if i % 8 else gen.mk_url(b"http://x/" + q[0]), gen.Props({key(): q[1 % len(q)], key(): q[2 % len(q)]}))
            t.reply(gen.rregion(rng, True), gen.Props({key(): q[3 % len(q)], key(): q[0]}))
        t.quit(chunk[-1], client=(n // (4 * per)) % 3 == 0)
        talks.append(t)
    # messages around the size of the read buffer, so that every position of escapes, quotes and separators meets its border
    specials = [b"\"", b"\\", b"\n", b"=", b" ", b"x", b"\xff", b"\\n", b"\n\n"]
    for n in range(ctx.q(40, 400)):
        t = Talk("border/%d" % n, 3 + n % 2, modes[n % len(modes)] if n % 3 else {"rchunk": rng.choice([4095, 4096, 4097, 1])})
        t.setup(); t.start()
        for _ in range(6):
            base = rng.choice([4096, 4096, 8192, 12288]) - rng.randint(20, 60)
            v = b"".join(rng.choice([b"ab", b"xyz"]) for _ in range(base))[:base] + b"".join(rng.choice(specials) for _ in range(30))
            t.frame(gen.mk_path(v) if rng.random() < 0.5 else gen.mk_path(b"s"), gen.Props({key(): v, b"zz": rng.choice(specials)}))
            t.reply(gen.mk_rect(1, 2, 3, 4), gen.Props({key(): v[::-1], b"e": b""}))
        talks.append(t)
    # many entries and very long values
    for n in range(ctx.q(6, 60)):
        t = Talk("bulk/%d" % n, 3 + n % 2, modes[n % len(modes)])
        t.setup(); t.start()
        t.frame(gen.rimage(rng, "MB"), gen.Props({b"k%d" % i: gen.rbytes(rng) for i in range(300)}))
        t.frame(gen.mk_path(bytes(rng.randint(1, 255) for _ in range(60000))), gen.Props({b"long": bytes(rng.randint(1, 255) for _ in range(90000))}))
        t.reply(gen.rregion(rng), gen.Props({b"long": bytes(rng.choice(b"\\\"\n=n ") for _ in range(70000)), b"k" * 64: b"v" * 5000}))
        talks.append(t)
    cases = [t.case() for t in talks]
    bad = ctx.replay(exe, cases, what="transfer", limit=25)
    # trace validation: the bytes that travelled mean the messages that were sent
    recs, exp = [], []
    for t in talks:
        for w, d in t.seen:
            if len(d) <= 500: recs.append({"s": L(d)}); exp.append((t, t.wires[w], d))
    step = 1 if not ctx.quick else max(1, len(recs) // 6000)
    recs, exp = recs[::step], exp[::step]
    ans = oracle.ask("Wire", "Messages(rec.s)", recs, ctx, name="bytes on the wire read by Wire.tla")
    for a, (t, msgs, d) in zip(ans, exp):
        ctx.traces += 1
        m = None
        if len(a) != len(msgs): m = "%d messages on the wire instead of %d" % (len(a), len(msgs))
        else:
            for x, (ty, args, pr) in zip(a, msgs):
                if x["type"] != ty: m = "a %s message was written as %s" % (ty, x["type"])
                elif args is not None and [Bs(v) for v in x["args"]] != args: m = "arguments %r were written as %r" % (args, [Bs(v) for v in x["args"]])
                elif mprops(x) != pr: m = "entries %r were written as %r" % (dict(pr), dict(mprops(x)))
                elif args is None and len(x["args"]) != 1: m = "state with %d arguments" % len(x["args"])
        if m and len(ctx.violations) < 20: ctx.violation("wire %s" % t.id, (m + ": " + repr(d))[:1200], {"bytes": d.hex()})
    ctx.rules.append("every byte string over the 12 syntactically relevant byte classes up to length %d, every single byte in three contexts, every key length, as argument, value, custom entry, tracker name and reason; buffer-border and long messages; files and TCP, reads and writes cut into pieces and interrupted" % ctx.q(3, 4))
    ctx.assumptions += ["NUL cannot be part of a value", "the reader is exercised through the public wait calls; names beginning with trax. are reserved"]

# ---------------------------------------------------------------- P02
def expect_server(m):
    """Possible outcomes of a single-object wait (one channel, after initialization) for a message; None = do not care."""
    if m["type"] == "quit" and not m["args"]: return [("quit", None, mprops(m))]
    if m["type"] == "frame" and len(m["args"]) == 1:
        a = Bs(m["args"][0])
        if a.startswith(b"file://") and len(a) > 7: return [("frame", "P:" + H(a[7:]), mprops(m))]
        if b":" not in a and a: return [("frame", "P:" + H(a), mprops(m)), ("error",)]
        return [("error",), ("frame", None, mprops(m))]
    if m["type"] == "initialize" and len(m["args"]) == 2: return [("error",), ("initialize", None, mprops(m))]
    return [("error",)]

def expect_client(m):
    if m["type"] == "quit" and not m["args"]: return [("quit", None, mprops(m))]
    if m["type"] == "state" and len(m["args"]) == 1:
        if Bs(m["args"][0]) == b"1,2,3,4": return [("state", "R:1:2:3:4|" + mprops(m).out(), None)]
        return [("error",), ("state", None, None, mprops(m))]
    return [("error",)]

def matches(o, e, server):
    if o["r"] != ST[e[0]]: return False
    if e[0] == "error": return (o.get("images", "~"), o["objects"]) == ("~", "~") and o["props"] in ("-", "~")
    if e[0] == "quit": return o["props"] == e[2].out()
    if server:
        if e[1] is not None and o["images"] != e[1] + ",~,~": return False
        return o["props"] == e[2].out()
    if e[1] is not None: return o["objects"] == e[1]
    return o["objects"].split("|")[1] == e[3].out()

SETUP = {"server": ["sset 1 f 3 15 15 1 0 - - - -", "drain 1", "feed 1 " + H(gen.encode("initialize", [b"file://i", b"1,2,3,4"])), "swaits 1 -", "log 1"],
         "client": ["open 1 c f", "feed 1 " + H(gen.encode("hello", [], [(b"trax.version", b"3")])), "cset 1", "cinit 1 P:70,~,~ R:1:2:3:4|- -", "drain 1", "log 1"]}
NSET = {"server": 4, "client": 4}

def stream_case(id, side, stream, messages, final, opts=None, reps=2, cut=None):
    """Feeds a whole stream, ends it, and waits until and beyond its end.  messages: what the stream means;
    final: what the unterminated last piece may mean (None: nothing)."""
    ops = list(SETUP[side])
    for k, v in (opts or {}).items(): ops.append("%s %d" % (k, v))
    if opts and opts.get("split"):
        ops = [o for o in ops if not o.startswith("split")]
    ops.append("feed 1 " + H(stream)); ops.append("eof 1")
    n = 0
    for m in messages:
        n += 1
        if m["type"] == "quit" and not m["args"]: break
    ops += ["swaits 1 -" if side == "server" else "cwait 1 -"] * (n + 1 + reps) + ["log 1", "drain 1"]
    exp = expect_server if side == "server" else expect_client
    def judge(obs):
        obs = obs[NSET[side]:]
        quitted = False
        for k in range(n):
            e = exp(messages[k])
            if not any(matches(obs[k], x, side == "server") for x in e):
                return "wait %d gave %s; the stream's message %d is %s, so it must give %s" % (k + 1, str(obs[k])[:400], k + 1, show(messages[k]), str(e)[:400])
            quitted = e[0][0] == "quit"
        o = obs[n]
        if o["r"] != -1:
            if quitted: return "wait after quit gave %d" % o["r"]
            if final is None or not any(matches(o, x, side == "server") for x in exp(final)): return "wait %d beyond the last message gave %s" % (n + 1, str(o)[:400])
        for k in range(n + 1, n + 1 + reps):
            if obs[k]["r"] != -1 or obs[k]["objects"] != "~" or obs[k].get("images", "~") != "~": return "wait %d after the end of the stream gave %s" % (k + 1, str(obs[k])[:300])
        if not quitted:
            lg = U(obs[n + 1 + reps]["d"])
            if lg != stream: return "the log shows %r, the stream was %r" % (lg[-200:], stream[-200:])
        return None
    return Case(id, ops, judge)

def show(m): return "%s %r %r" % (m["type"], [Bs(a) for a in m["args"]], dict(mprops(m)))

def sentinel(side, k):
    if side == "server": return gen.encode("frame", [b"file://sentinel%d" % k], [(b"n", b"%d" % k)])
    return gen.encode("state", [b"1,2,3,4"], [(b"n", b"%d" % k)])

def M(type, args, props): return {"ok": True, "type": type, "args": [L(a) for a in args], "props": [[L(k), L(v)] for k, v in props]}
def sentinel_m(side, k):
    return M("frame", [b"file://sentinel%d" % k], [(b"n", b"%d" % k)]) if side == "server" else M("state", [b"1,2,3,4"], [(b"n", b"%d" % k)])

def P02(ctx):
    mc(ctx)
    exe = build.harness("trxh")
    rng = random.Random(ctx.seed + 2)
    cases = []
    opts = [{}, {}, {"rchunk": 1}, {"rchunk": 3}, {"eintr": 2}]
    def batches(name, side, lines, per=30):
        qs = [l for l in lines if l["m"]["ok"] and l["m"]["type"] == "quit" and not l["m"]["args"]]
        ls = [l for l in lines if not (l["m"]["ok"] and l["m"]["type"] == "quit" and not l["m"]["args"])]
        qs = qs[:400]
        for n in range(0, len(ls), per):
            stream, msgs = b"", []
            for k, l in enumerate(ls[n:n + per] + ([qs.pop()] if qs else [])):
                stream += Bs(l["s"]) + b"\n"
                if l["m"]["ok"]: msgs.append(l["m"])
                if l["m"]["type"] == "quit" and not l["m"]["args"]: break
                stream += sentinel(side, k); msgs.append(sentinel_m(side, k))
            cases.append(stream_case("%s/%d" % (name, n), side, stream, msgs, None, opts[(n // per) % len(opts)]))
    batches("tail-server", "server", gen_lines(ctx, "frame", "tail", ctx.q(4, 5), cap=ctx.q(20000, 250000)))
    batches("tail-client", "client", gen_lines(ctx, "state", "tail", ctx.q(3, 4)))
    batches("quotes-server", "server", gen_lines(ctx, "frame", "small", ctx.q(5, 7), cap=ctx.q(9000, 200000)))
    batches("begin-server", "server", gen_lines(ctx, "none", "begin", ctx.q(4, 5), cap=ctx.q(18000, 250000)))
    batches("begin-client", "client", gen_lines(ctx, "none", "begin", ctx.q(3, 4)))
    batches("word-server", "server", gen_lines(ctx, "word", "tail", ctx.q(3, 4)))
    batches("quoted-server", "server", gen_lines(ctx, "quoted", "tail", ctx.q(4, 5), cap=ctx.q(9000, 250000)))
    batches("valued-server", "server", gen_lines(ctx, "valued", "tail", ctx.q(4, 5), cap=ctx.q(9000, 250000)))
    batches("prefix-client", "client", gen_lines(ctx, "prefix", "begin", ctx.q(3, 4)))
    batches("random-server", "server", gen_lines(ctx, "frame", "tail", 25, emit="Emit", simulate=ctx.q(6, 150)))
    batches("bytes-server", "server", [l for l in gen_lines(ctx, "frame", "bytes", 3) if 10 not in l["s"]])
    # lines with arbitrary content, interpreted by the specification afterwards
    recs = []
    for n in range(ctx.q(2500, 40000)):
        k = rng.random()
        if k < 0.4:      # a valid message with a few bytes changed
            m = bytearray(gen.encode(rng.choice(["frame", "state", "quit", "initialize", "hello"]), [gen.rbytes(rng, 6) if rng.random() < .5 else b"file://x" for _ in range(rng.randint(0, 3))],
                                     [(gen.rkey(rng)[:6], gen.rbytes(rng, 6)) for _ in range(rng.randint(0, 3))])[:-1])
            for _ in range(rng.randint(1, 3)):
                p = rng.randint(0, len(m) - 1); q = rng.random()
                if q < .4: m[p] = rng.choice(b" \"\\=\rnk\xff")
                elif q < .7: del m[p]
                else: m.insert(p, rng.choice(b" \"\\=\rnk\xff"))
                if not m: m = bytearray(b"x")
            line = bytes(m).replace(b"\n", b"")
        elif k < 0.6: line = bytes(rng.randint(1, 255) for _ in range(rng.randint(0, 40))).replace(b"\n", b"")
        elif k < 0.7: line = b"x" * rng.choice([4093, 4094, 4095, 4096, 4097, 8190]) + rng.choice([b"", b"@@TRAX:quit", b"\"", b"\\"])
        elif k < 0.8: line = b"@@TRAX:frame file://word" + rng.choice([b"", b" ", b"  \r", b"\"", b" k=v", b"=", b" a=b=c", b"\r"])
        elif k < 0.9: line = b"@@TRAX:frame \"file://p\" " + b"\"" + b"k" * rng.choice([62, 63, 64, 65, 66, 130]) + b"=v\" "
        else: line = b"@@TRAX:" + b"q" * rng.choice([10, 63, 64, 65, 300, 5000]) + b" \"a\""
        recs.append({"s": L(line)})
    ans = oracle.ask("Wire", "LineMsg(rec.s)", recs, ctx, name="meaning of arbitrary lines")
    for side in ("server", "client"):
        batches("arbitrary-" + side, side, [{"s": r["s"], "m": a} for r, a in zip(recs, ans)], per=12)
    # foreign output around the introduction
    lines = gen_lines(ctx, "hello", "tail", 3)
    junk = [b"", b"starting tracker", b"@@TRAX: hello", b"@@TRAX:hallo \"trax.version=9\"", b"@@TRAX:hello \"bad", b"@@TRAX:hello \"trax.version=1\"x", b"\xff\xfe", b"@@TRAX:hello\\", b"hello @@TRAX:hello "]
    rng.shuffle(lines)
    for n, l in enumerate(lines[:ctx.q(1500, 100000)]):
        m = l["m"]
        pre = b"".join(rng.choice(junk) + b"\n" for _ in range(rng.randint(0, 3)))
        if not m["ok"]:
            m = M("hello", [], [(b"tag", b"%d" % n)]); stream = pre + Bs(l["s"]) + b"\n" + gen.encode("hello", [], [(b"tag", b"%d" % n)])
        else: stream = pre + Bs(l["s"]) + b"\n"
        def judge(o, m=m):
            o = o[0]
            if m["args"]: return None
            if not o["ok"]: return "introduction not understood: %s" % show(m)
            if o["custom"] != mprops(m).out(): return "entries of the introduction %s reported as %s" % (show(m), o["custom"][:300])
        cases.append(Case("hello/%d" % n, ["open 1 c f", "feed 1 " + H(stream), "eof 1", "cset 1"], judge))
    ctx.replay(exe, cases, what="stream", leak=False)
    ctx.rules.append("every line of the enumerated line grammars (pieces of prefixes, names, quotes, escapes, entries) followed by a well-formed message; mutated messages and arbitrary bytes interpreted by Wire.tla; results, delivered data and log compared")
    ctx.assumptions += ["lines are observed through wait results: contents of messages that are illegal at that point are only observed as errors that consume exactly one message",
                        "carriage returns are separators between arguments, the first byte of an unquoted word is literal (as implemented)"]

# ---------------------------------------------------------------- P03
def P03(ctx):
    mc(ctx)
    exe = build.harness("trxh")
    rng = random.Random(ctx.seed + 3)
    streams = []
    for n in range(ctx.q(60, 500)):
        for side in ("server", "client"):
            parts = []
            for k in range(rng.randint(1, 3)):
                props = [(gen.rkey(rng)[:8], gen.rbytes(rng, 8)) for _ in range(rng.randint(0, 3))]
                props = list({k: v for k, v in props}.items())
                if side == "server": parts.append(gen.encode("frame", [b"file://" + (gen.rbytes(rng, 8) or b"x")], props))
                else: parts.append(gen.encode("state", [b"1,2,3,4"], props))
                if rng.random() < 0.2: parts.append(rng.choice([b"noise\n", b"\n", b"@@TRAX:bad\n"]))
            if rng.random() < 0.25: parts.append(gen.encode("quit", [], [(b"trax.reason", gen.rbytes(rng))]))
            streams.append((side, b"".join(parts)))
    # long messages: cuts around the read buffer
    big = gen.encode("frame", [b"file://" + b"p" * 4060], [(b"k", b"v\n\"\\" * 20)])
    recs, keys = [], []
    for n, (side, s) in enumerate(streams):
        for k in range(len(s) + 1): recs.append({"s": L(s[:k])}); keys.append((side, n, k))
    # (the specification reads it with the run of 4060 ordinary bytes shortened to 10: repeating an ordinary byte
    # inside an argument changes nothing but that argument)
    long_, short = b"p" * 4060, b"p" * 10
    for k in list(range(4090, len(big) + 1)): recs.append({"s": L(big[:k].replace(long_, short))}); keys.append(("server", "big", k))
    ans = oracle.ask("Wire", "[ms |-> Messages(rec.s), fin |-> FinalMsg(rec.s)]", recs, ctx, name="meaning of cut streams")
    cases = []
    for (side, n, k), a, r in zip(keys, ans, recs):
        if n == "big":
            r = {"s": L(big[:k])}
            for m in a["ms"] + [a["fin"]]: m["args"] = [L(Bs(x).replace(short, long_)) for x in m["args"]]
        fin = a["fin"] if a["fin"]["ok"] else None
        # a cut argument or value is never reported: the last piece may only be reported when it ends between tokens
        o = rng.choice([{}, {}, {"rchunk": 1}, {"rchunk": 5}, {"eintr": 2}])
        cases.append(stream_case("cut/%s/%s/%d" % (side, n, k), side, Bs(r["s"]), a["ms"], fin, o, reps=3))
    # a lost peer during the introduction
    hello = gen.encode("hello", [], [(b"trax.version", b"3"), (b"trax.name", b"n \"q\""), (b"x", b"y")])
    for k in range(len(hello) + 1):
        def judge(o, k=k):
            o = o[0]
            if k == len(hello): return None if o["ok"] and o["custom"] == "78=79" else "introduction not understood"
            if o["ok"]:
                if o["custom"] not in ("-", "78=79"): return "a cut introduction was reported with %s" % o["custom"]
                if U(o["name"]) not in (None, b"", b"n \"q\""): return "a cut introduction was reported with the name %r" % U(o["name"])
                if k < len(b"@@TRAX:hello"): return "an introduction was invented"
            return None
        cases.append(Case("cut/hello/%d" % k, ["open 1 c f", "feed 1 " + H(hello[:k]), "eof 1", "cset 1"], judge))
    # every kind of lost connection in TCP and files, in the middle of a session, repeatedly
    for n in range(ctx.q(120, 1500)):
        ft = rng.choice("ft"); ver = rng.choice([3, 4])
        fr = gen.encode("frame", [b"file://a"], [(b"k", b"v")])
        cut = rng.randint(0, len(fr) - 1)
        ini = gen.encode("initialize", [b"file://i", b"1,2,3,4"]) if ver == 3 else gen.encode("initialize", [b"1,2,3,4"]) + gen.encode("frame", [b"file://i"])
        w = "swaits 2 -" if ver == 3 else "swait 2 -"
        rep = "sreplys 2 R:1:2:3:4 -" if ver == 3 else "sreply 2 R:1:2:3:4|-"
        ops = ["sset 2 %s %d 15 15 1 1 - - - -" % (ft, ver), "drain 2", "feed 2 " + H(ini), w, rep, "drain 2", "feed 2 " + H(fr), w, rep, "drain 2", "feed 2 " + H(fr[:cut]), "eof 2", w, w, w, "term 2 ~", w]
        def judge(o, cut=cut, fr=fr):
            r = [x["r"] for x in o if "r" in x and x["op"].startswith("swait")]
            if r[0] != 2 or r[1] != 3: return "session before the loss went wrong: %s" % r
            if r[2] != -1 and not (r[2] == 3 and cut >= len(fr) - 12): return "an incomplete frame (%r) was reported as %d" % (fr[:cut], r[2])
            if r[3:] != [-1, -1, -1]: return "waits after the loss gave %s" % r
        cases.append(Case("lost/%d" % n, ops, judge))
    ctx.replay(exe, cases, what="cut", alarm=5, leak=False)
    ctx.rules.append("well-formed streams for both roles cut at every byte; then three more waits; every wait must return promptly (5 s watchdog), results compared with Messages/FinalMsg of Wire.tla")
    ctx.assumptions += ["the unterminated last piece may be refused or reported if it ends between arguments"]

# ---------------------------------------------------------------- P04
def P04(ctx):
    from vlib import session
    mc(ctx)
    exe = build.harness("trxh")
    rng = random.Random(ctx.seed + 4)
    cases = []
    runs = [("v4", dict(ver=4, maxops=ctx.q(5, 6), ends=False, cap=ctx.q(2500, 40000))), ("v3", dict(ver=3, multi=False, nch=2, maxops=ctx.q(6, 8), ends=False, cap=ctx.q(2000, 40000))),
            ("bad", dict(ver=4, maxops=4, bad=True, ends=False, maxobj=2, cap=ctx.q(2500, 40000))),
            ("long", dict(ver=4, maxops=24, noise=True, simulate=ctx.q(30, 600))), ("server", dict(mode="server", ver=3, multi=False, maxops=4, ahead=1, ends=True, cap=ctx.q(1000, 20000))),
            ("server4", dict(mode="server", ver=4, maxops=5, ahead=1, peer="good", ends=False, cap=ctx.q(800, 20000))),
            ("client", dict(mode="client", ver=4, maxops=3, ends=True, cap=ctx.q(1000, 20000))), ("client4", dict(mode="client", ver=4, maxops=5, ahead=1, peer="good", ends=True, cap=ctx.q(1000, 20000)))]
    for name, kw in runs:
        for c in session.to_cases(ctx, session.behaviours(ctx, name, **kw), {}, prefix=name + "/"):
            cases.append(logged(c, rng))
    ctx.replay(exe, cases, what="log", leak=False)
    ctx.rules.append("behaviours of Session.tla replayed with log callbacks on both ends; after every call the log must have grown by exactly the bytes the call read and wrote; every 4th session is repeated without a log and must exchange the same bytes")
    ctx.assumptions += ["reading ahead of the consumed message may be logged when it is read or when it is consumed"]

class LogJudge: pass

def logged(c, rng):
    """Adds a log and traffic observation after every operation that transfers something."""
    ops = []; plan = []
    fed = {}
    for o in c.ops:
        a = o.split(" ")
        if a[0] in ("clean",):
            ops.append(o); plan.append(("skip",))
            continue
        ops.append(o)
        vis = a[0] in ("sset", "cset", "drain", "info", "cinit", "cframe", "sreply", "sreplys", "term", "swait", "swaits", "cwait") or (a[0] == "pump" and len(a) > 3)
        if vis: plan.append(("skip",))
        if a[0] in ("sset", "cset", "cinit", "cframe", "sreply", "sreplys", "term", "swait", "swaits", "cwait"):
            k = "2" if a[0] == "sset" else a[1]
            ops += ["log " + k, "traffic " + k]; plan += [("log", k, o), ("traffic", k, o)]
    tcpids = {o.split(" ")[1] for o in c.ops if o.split(" ")[0] in ("sset", "open") and " t" in o}
    def judge(obs):
        r = {}; w = {}; cons = {}; pend = {}
        k = 0
        for k, p in enumerate(plan):
            if k >= len(obs): return "only %d of %d observations" % (len(obs), len(plan))
            if p[0] == "log": last = U(obs[k]["d"])
            elif p[0] == "traffic":
                e = p[1]
                R, W = U(obs[k]["r"]), U(obs[k]["w"])
                nr, nw = R[len(r.get(e, b"")):], W[len(w.get(e, b"")):]
                r[e], w[e] = R, W
                # bytes read but not yet logged (read ahead) may be logged later
                pool = pend.get(e, b"") + nr
                wait = p[2].split(" ")[0] in ("swait", "swaits", "cwait", "cset")
                if wait:
                    # a wait logs a prefix of what it has read so far, at least up to the last message it used; it writes nothing
                    if nw: return "%s wrote %r" % (p[2], nw[:100])
                    if not pool.startswith(last): return "after %s the log shows %r, the bytes read were %r" % (p[2][:60], last[-160:], pool[:160])
                    rest = pool[len(last):]
                    pend[e] = rest
                    need = obs[k - 2].get("r", 0)
                    if need not in (-1,) and obs[k - 2].get("ok", 1) and last[-1:] != b"\n" and rest: return "after %s the log ends within a line: %r" % (p[2][:60], last[-80:])
                    if not last and obs[k - 2].get("r") in (2, 3, 4, 5): return "%s reported a message that is not in the log" % p[2][:60]
                else:
                    if not last.endswith(nw): return "after %s the log shows %r, the bytes written were %r" % (p[2][:60], last[-160:], nw[-160:])
                    ahead = last[:len(last) - len(nw)]
                    if ahead: return "%s logged %r which it did not write" % (p[2][:60], ahead[:160])
        return None
    return Case("log/" + c.id, ops, judge)
