"""P10: what is declared at setup is what the client reports (spec/Setup.tla, spec/SetupMC.tla)."""
import random
from vlib import build, gen, oracle, tlc
from vlib.core import Case, H, U
LEVEL = "model_checking"
NT = [256]

def tx(v): return "~" if v == NT else H(bytes(v))
def pr(m): return gen.Props({bytes(k): bytes(v) for k, v in m})
def rbits(rng, n): return rng.getrandbits(n)

def compare(o, r, exact=True):
    """Observation of a client against a Report of the specification."""
    e = r["exact"]
    if not o["ok"]: return "the introduction was refused"
    def chk(name, got, want):
        if got != want: return "%s is reported as %r, declared %r" % (name, got, want)
    out = []
    if e["ver"]: out.append(chk("version", o["version"], r["ver"]))
    if e["rf"]: out.append(chk("region formats", o["rf"], r["rf"]))
    elif o["rf"] & ~14: out.append("unknown region format reported: %d" % o["rf"])
    if e["if"]: out.append(chk("image formats", o["if"], r["if"]))
    if e["ch"] and e["ver"]: out.append(chk("channels", o["ch"], r["ch"]))
    if e["multi"] and e["ver"]:
        out.append(chk("multi-object support", o["multi"], 1 if r["multi"] else 0))
        out.append(chk("multi-object flag", o["flags"] & 1, 1 if r["multi"] else 0))
    out.append(chk("name", o["name"], tx(r["name"]))); out.append(chk("description", o["desc"], tx(r["desc"]))); out.append(chk("family", o["family"], tx(r["family"])))
    out.append(chk("custom entries", o["custom"], pr(r["custom"]).out()))
    return next((x for x in out if x), None)

def P10(ctx):
    exe = build.harness("trxh")
    rng = random.Random(ctx.seed + 10)
    def run(init, next_, emit, tag, inv, **kw):
        c = dict(MaxList=1, Field='"trax.region"'); c.update(kw)
        r = tlc.run("SetupMC", constants=c, init=init, next_=next_, constraints=[emit], invariants=inv, raw=True)
        ctx.model(r, "SetupMC %s %s" % (init, kw)); return r.emitted.get(tag, [])
    def pick(l, n):
        if n and len(l) > n: l = rng.sample(l, n)
        return [tlc.decode(x) for x in l]
    cases = []; raws = []
    # ---- declarations of a server
    decls = pick(run("DInit", "DNext", "DEmit", "D", ["Faithful", "OnWire"]), ctx.q(4000, None)) + pick(run("EInit", "ENext", "DEmit", "D", ["Faithful", "OnWire"]), ctx.q(4000, None))
    def rnd_text():
        return rng.choice([NT, list(gen.rbytes(rng, 40)), list(gen.rbytes(rng, 10)), [rng.randint(1, 255) for _ in range(rng.choice([1, 63, 64, 65, 255, 256, 400]))]])
    extra = []
    for _ in range(ctx.q(600, 8000)):
        cus = gen.rprops(rng, 0, 5)
        extra.append({"ver": rng.choice([-1, 0, 1, 2, 3, 4, 4, 4]), "rf": rng.randint(0, 15), "if": rng.randint(0, 15), "ch": rng.randint(1, 7), "multi": rng.random() < .5,
                      "name": rnd_text(), "desc": rnd_text(), "family": rnd_text(), "custom": [[list(k), list(v)] for k, v in cus.items()]})
    for d, r in zip(extra, oracle.ask("Setup", "Report(Hello(rec))", extra, ctx, name="reports of random declarations")):
        decls.append({"d": d, "r": r})
    for k, x in enumerate(decls):
        d, r = x["d"], x["r"]
        tcp = k % 17 == 0
        ops = (["rchunk %d" % rng.choice([1, 3, 64])] if k % 5 == 0 else []) + \
              ["sset 1 %s %d %d %d %d %d %s %s %s %s" % ("t" if tcp else "f", d["ver"], d["rf"], d["if"], d["ch"], 1 if d["multi"] else 0, tx(d["name"]), tx(d["desc"]), tx(d["family"]), pr(d["custom"]).lit() if d["custom"] else ("~" if k % 7 == 0 else "-")),
               "param 1", "open 2 %s" % ("t" if k % 23 == 0 else "f"), "pump 1 2 99999999", "cset 2"]
        def judge(o, d=d, r=r, raw=len(raws), tcp=tcp, ctcp=k % 23 == 0):
            if not o[0]["ok"]: return "the server could not be set up"
            raws[raw] = (d, U(o[2]["d"]))
            p = o[1]
            if p["version"] != r["ver"] or p["client"] != 0 or p["socket"] != (1 if tcp else 0): return "the server's own parameters: %s" % p
            if p["multi"] != (1 if r["multi"] else 0): return "the server reports multi-object support %d" % p["multi"]
            if o[3]["client"] != 1 or o[3]["socket"] != (1 if ctcp else 0): return "the client's own parameters: %s" % o[3]
            return compare(o[3], r)
        raws.append(None)
        cases.append(Case("declaration/%d" % k, ops, judge, meta=str(d)[:300], leakcheck=k % 12 == 0 and not tcp))
    # ---- hello messages that arrive
    hellos = []
    for f in ("trax.region", "trax.image", "trax.channels"):
        hellos += pick(run("HInit", "HNext", "HEmit", "H", ["NoExtra"], Field='"%s"' % f, MaxList=ctx.q(3, 4)), ctx.q(1500, 30000))
    hellos += pick(run("SInit", "SNext", "HEmit", "H", ["NoExtra"]), ctx.q(4000, None))
    for k, x in enumerate(hellos):
        m = [(bytes(a), bytes(b)) for a, b in x["m"]]
        if k % 3 == 0: rng.shuffle(m)
        line = gen.encode("hello", [], m)
        if k % 4 == 0 and all(b"\\" not in v and b" " not in v and v for _, v in m): line = b"@@TRAX:hello " + b" ".join(a + b"=" + b for a, b in m) + b"\n"
        if k % 6 == 0: line = rng.choice([b"\n", b"log line\n", b"@@TRAX\n", b"@@TRAX:\n", b"  @@TRAX:quit\n"]) + line
        def judge(o, r=x["r"], line=line):
            e = compare(o[0], r)
            return e and "%s; hello was %r" % (e, line[:300])
        cases.append(Case("hello/%d" % k, ["open 2 f", "feed 2 " + H(line), "cset 2"], judge, leakcheck=k % 20 == 0))
    # ---- anything as the first message
    firsts = pick(run("XInit", "XNext", "XEmit", "X", ["TRUEINV"], MaxList=ctx.q(2, 3)), ctx.q(None, None))
    for k, x in enumerate(firsts):
        s = bytes(x["s"])
        def judge(o, r=x["r"], s=s):
            if not r["ok"]: return "taken as an introduction: %r as %s" % (s, o[0]) if o[0]["ok"] else None
            e = compare(o[0], r["rep"])
            return e and "%s; stream was %r" % (e, s[:300])
        cases.append(Case("first/%d" % k, ["open 2 f", "feed 2 " + H(s), "eof 2", "cset 2"], judge, leakcheck=k % 5 == 0))
    ctx.replay(exe, cases, what="introduction", limit=25)
    # ---- the C++ interface on both sides
    cases = []; many = decls[:]; rng.shuffle(many); asks = []
    for k, x in enumerate(many[:ctx.q(1500, 20000)]):
        d = dict(x["d"]); sot = k % 2 == 0; d["ver"] = 3 if sot else -1
        if len(bytes([c for m in (d["name"], d["desc"], d["family"]) if m != NT for c in m])) > 600: continue
        for f in ("name", "desc", "family"):
            if d[f] == []: d[f] = NT                    # the C++ interface has no missing texts
        if len({bytes(a) for a, b in d["custom"]}) < len(d["custom"]) or any(not a for a, b in d["custom"]): continue
        asks.append((sot, d))
    for k, ((sot, d), r) in enumerate(zip(asks, oracle.ask("Setup", "Report(Hello(rec))", [d for _, d in asks], ctx, name="reports of declarations, C++"))):
        tcp = k % 11 == 0; why = rng.choice([b"", b"done", gen.rbytes(rng, 60) or b"x"]); cli = k % 3 == 0
        keys = sorted({bytes(a) for a, b in d["custom"]} | {b"absent", b"trax.name"})
        ops = ["introduce %s%s %d %d %d %d %s %s %s %s %s %s %d" % ("s" if sot else "m", "t" if tcp else "", d["rf"], d["if"], d["ch"], 1 if d["multi"] else 0,
               H(b"" if d["name"] == NT else bytes(d["name"])), H(b"" if d["desc"] == NT else bytes(d["desc"])), H(b"" if d["family"] == NT else bytes(d["family"])),
               "&".join("%s=%s" % (H(bytes(a)), H(bytes(b))) for a, b in d["custom"]) or "-", "&".join(map(H, keys)), H(why), cli)]
        def judge(o, d=d, r=r, keys=keys, why=why, cli=cli, sot=sot):
            o = o[0]; e = r["exact"]
            if not o["ok"]: return "the session is not alive"
            if o["version"] != r["ver"] or o["sv"] != r["ver"]: return "the version is %d, on the server %d, instead of %d" % (o["version"], o["sv"], r["ver"])
            if e["multi"] and o["multi"] != (1 if r["multi"] else 0): return "multi-object support %d" % o["multi"]
            cus = {bytes(a): bytes(b) for a, b in d["custom"]}; rep = {bytes(a): bytes(b) for a, b in r["custom"]}
            for what, m, c, ch in (("reported", o, rep, r["ch"]), ("kept", o["kept"], rep, r["ch"]), ("declared", o["own"], cus, d["ch"])):
                if m["rf"] != (d["rf"] if what == "declared" else r["rf"]) or m["if"] != d["if"] or m["ch"] != ch: return "%s formats and channels %s instead of %s" % (what, m, d)
                for f in ("name", "desc", "family"):
                    if m[f] != tx(d[f]): return "%s %s %r instead of %r" % (what, f, m[f], tx(d[f]))
                want = "&".join("%s=%s" % (H(k), H(c.get(k, b""))) for k in keys)
                if m["custom"] != want: return "%s custom entries %s instead of %s" % (what, m["custom"], want)
            if o["t"] != 1: return "terminate failed"
            if not cli: return None                      # nothing is owed to the client yet
            if o["end"] != 4: return "terminate returned %d, the other side received %d" % (o["t"], o["end"])
            if sot and why and o["why"] != H(why): return "the reason arrived as %s instead of %s" % (o["why"], H(why))
            if o["alive"]: return "a side still reports a live session: %d" % o["alive"]
        cases.append(Case("c++/%d" % k, ops, judge, meta=str(d)[:300], leakcheck=not tcp))
    ctx.replay(build.harness("trxpp"), cases, what="introduction, C++", limit=25)
    # ---- the raw hello, read by the specification
    got = [r for r in raws if r and r[1] is not None and len(r[1]) < 700]
    if len(got) > ctx.q(2500, 20000): got = rng.sample(got, ctx.q(2500, 20000))
    for (d, s), a in zip(got, oracle.ask("Setup", "Announces(rec.s, rec.d)", [{"s": list(s), "d": d} for d, s in got], ctx, name="raw hello messages read by Setup.tla")):
        ctx.traces += 1
        if not a and len(ctx.violations) < 20: ctx.violation("announced %s" % str(d)[:300], "the server announced %r" % s[:600], {"declaration": d, "bytes": s.hex()})
    ctx.rules.append("all combinations of version, region and image formats, channels and multi-object flag; all combinations of three texts and custom entries from pools; all lists of up to %d names per format entry; all subsets of entries; all sequences of %d first lines" % (ctx.q(3, 4), ctx.q(2, 3)))
    ctx.assumptions += ["version numbers outside 1..4, numbers with trailing text, and list elements with blanks or other case are undocumented: any reading of those entries is accepted"]
