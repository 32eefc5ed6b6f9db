"""P05-P09, P11: the protocol state machine and whole sessions (spec/Proto.tla, spec/Session.tla)."""
import random
from vlib import build, session
LEVEL = "model_checking"

def _run(ctx, runs, focus, cpp=0, **opts):
    exe = build.harness("trxh")
    for name, kw in runs:
        beh = session.behaviours(ctx, name, **kw)
        cases = session.to_cases(ctx, beh, opts, prefix=name + "/", focus=focus)
        ctx.replay(exe, cases, what="session", leak=False)
        if cpp:
            pp = [(i, c, h) for i, (c, h) in enumerate(beh) if session.expressible(c, h)]
            if len(pp) > cpp: pp = random.Random(ctx.seed).sample(pp, cpp)
            ctx.replay(build.harness("trxpp"), [session.make_case("c++/%s/%d" % (name, i), c, h, random.Random(ctx.seed * 7919 + i), opts, focus, cpp=True) for i, c, h in pp], what="session, C++", leak=False)
    ctx.rules.append("every behaviour of the listed Session.tla configurations up to the given number of calls, plus random longer ones, each replayed with fresh payloads on the real handles")
    ctx.assumptions += ["payload bytes are sampled per behaviour; the model treats them as opaque", "channels are loss-free until closed, as pipes and TCP are",
                        "single thread drives both ends; blocking waits are only issued when the model says an answer is available"]

def P05(ctx):
    S = dict(mode="server"); G = dict(mode="server", peer="good", ahead=1, ends=False)
    runs = [("v4multi", dict(S, ver=4, nch=1, maxops=3, ends=True, cap=ctx.q(5000, None))),
            ("v4multi-deep", dict(G, ver=4, nch=1, maxops=ctx.q(6, 7), cap=ctx.q(5000, 150000))),
            ("v4multi-any", dict(S, ver=4, nch=1, maxops=4, ends=False, cap=ctx.q(5000, None))),
            ("v4multi-2ch", dict(S, ver=4, nch=2, maxops=ctx.q(3, 4), ends=False, cap=ctx.q(2500, 150000))),
            ("v4multi-2ch-deep", dict(G, ver=4, nch=2, maxops=ctx.q(5, 6), cap=ctx.q(2000, 150000))),
            ("v4single", dict(S, ver=4, nch=1, multi=False, maxops=4, ends=False, cap=ctx.q(3000, 100000))),
            ("v3", dict(S, ver=3, nch=1, multi=False, maxops=ctx.q(5, 6), ahead=1, ends=False, cap=ctx.q(6000, 150000))),
            ("v2-3ch", dict(S, ver=2, nch=3, multi=False, maxops=ctx.q(5, 6), ahead=1, ends=False, cap=ctx.q(4000, 100000))),
            ("v1", dict(S, ver=1, nch=1, multi=False, maxops=ctx.q(5, 6), ahead=1, ends=True, cap=ctx.q(4000, 100000))),
            ("long4", dict(S, ver=4, nch=1, maxops=18, maxobj=3, noise=True, simulate=ctx.q(60, 1500), cap=ctx.q(2500, 50000))),
            ("long3", dict(S, ver=3, nch=2, multi=False, maxops=18, noise=True, simulate=ctx.q(60, 1500), cap=ctx.q(2500, 50000)))]
    _run(ctx, runs, "P05", cpp=ctx.q(800, 30000))

def P06(ctx):
    S = dict(mode="client"); G = dict(mode="client", peer="good", ahead=1)
    runs = [("v4multi", dict(S, ver=4, nch=1, maxops=ctx.q(3, 4), ends=True, cap=ctx.q(4000, 170000))),
            ("v4multi-any", dict(S, ver=4, nch=1, maxops=ctx.q(4, 5), ahead=1, maxobj=ctx.q(2, 1), ends=False, cap=ctx.q(4000, 170000))),
            ("v4multi-deep", dict(G, ver=4, nch=1, maxops=ctx.q(6, 7), ends=False, cap=ctx.q(3000, 100000))),
            ("v4single", dict(S, ver=4, nch=2, multi=False, maxops=ctx.q(3, 4), ends=True, cap=ctx.q(3000, 170000))),
            ("v4single-deep", dict(G, ver=4, nch=2, multi=False, maxops=ctx.q(7, 9), ends=True, cap=ctx.q(2000, 100000))),
            ("v3", dict(S, ver=3, nch=1, multi=False, maxops=4, ahead=1, ends=True, cap=ctx.q(5500, 170000))),
            ("v3-deep", dict(G, ver=3, nch=1, multi=False, maxops=ctx.q(7, 9), ends=True, cap=ctx.q(3000, 100000))),
            ("v1", dict(S, ver=1, nch=1, multi=False, maxops=ctx.q(3, 4), ends=True, cap=ctx.q(3000, None))),
            ("long4", dict(S, ver=4, nch=1, maxops=18, maxobj=2, noise=True, simulate=ctx.q(60, 1500), cap=ctx.q(2000, 50000))),
            ("long3", dict(S, ver=3, nch=2, multi=False, maxops=18, noise=True, simulate=ctx.q(60, 1500), cap=ctx.q(2000, 50000)))]
    _run(ctx, runs, "P06", cpp=ctx.q(800, 30000))

def P07(ctx):
    runs = [("v4multi", dict(ver=4, maxops=ctx.q(6, 7), ends=False, cap=ctx.q(9000, 200000))),
            ("v4single", dict(ver=4, multi=False, nch=2, maxops=ctx.q(7, 9), ends=False, cap=ctx.q(5000, 100000))),
            ("v3", dict(ver=3, multi=False, nch=1, maxops=ctx.q(7, 9), ends=False, cap=ctx.q(5000, 100000))),
            ("v2", dict(ver=2, multi=False, nch=3, maxops=ctx.q(6, 8), ends=False, cap=ctx.q(4000, 100000))),
            ("long4", dict(ver=4, maxops=30, maxobj=3, noise=True, simulate=ctx.q(40, 800))),
            ("long1", dict(ver=4, multi=False, maxops=30, noise=True, simulate=ctx.q(20, 400))),
            ("long3", dict(ver=3, multi=False, nch=2, maxops=30, noise=True, simulate=ctx.q(30, 600)))]
    _run(ctx, runs, "P07", cpp=ctx.q(4000, 50000))
    from checks import values
    rng = random.Random(ctx.seed + 7)
    ctx.replay(build.harness("trxpp"), [values.transfer(rng, n) for n in range(ctx.q(1500, 20000))], what="C++ values in a session", limit=25)

def P08(ctx):
    runs = [("v4", dict(ver=4, maxops=ctx.q(4, 5), bad=True, ends=True, maxobj=2, cap=ctx.q(12000, 250000), timeout=700)),
            ("v3", dict(ver=3, multi=False, maxops=ctx.q(4, 5), bad=True, ends=True, cap=ctx.q(8000, 200000))),
            ("server", dict(mode="server", ver=4, maxops=3, bad=True, ends=True, cap=ctx.q(3000, 100000))),
            ("server-deep", dict(mode="server", ver=4, maxops=4, bad=True, ends=True, peer="good", ahead=1, cap=ctx.q(4000, 100000))),
            ("client", dict(mode="client", ver=3, multi=False, maxops=3, bad=True, ends=True, cap=ctx.q(3000, 100000))),
            ("client-deep", dict(mode="client", ver=4, maxops=4, bad=True, ends=True, peer="good", ahead=1, cap=ctx.q(4000, 100000))),
            ("long", dict(ver=4, maxops=24, bad=True, ends=True, simulate=ctx.q(40, 800)))]
    _run(ctx, runs, "P08", cpp=ctx.q(1500, 30000))

def P09(ctx):
    runs = [("v4multi", dict(ver=4, maxops=ctx.q(4, 5), bad=True, ends=False, maxobj=2, cap=ctx.q(10000, 250000), timeout=700)),
            ("v4single", dict(ver=4, multi=False, nch=2, maxops=ctx.q(4, 5), bad=True, ends=False, cap=ctx.q(8000, 200000))),
            ("v3", dict(ver=3, multi=False, nch=3, maxops=ctx.q(4, 5), bad=True, ends=False, cap=ctx.q(8000, 200000))),
            ("long4", dict(ver=4, maxops=24, maxobj=3, bad=True, ends=False, simulate=ctx.q(40, 800))),
            ("long3", dict(ver=3, multi=False, nch=2, maxops=24, bad=True, ends=False, simulate=ctx.q(30, 800)))]
    _run(ctx, runs, "P09", cpp=ctx.q(1500, 30000))

def P11(ctx):
    runs = [("multi", dict(ver=4, maxops=ctx.q(5, 6), bad=True, ends=False, maxobj=2, cap=ctx.q(10000, 250000), timeout=800)) if not ctx.quick else
            ("multi", dict(ver=4, maxops=4, bad=True, ends=False, maxobj=3, cap=7000)),
            ("sessions", dict(ver=4, maxops=ctx.q(6, 7), ends=False, maxobj=ctx.q(2, 2), cap=ctx.q(5000, 200000))),
            ("server", dict(mode="server", ver=4, maxops=3, ends=False, bad=True, maxobj=3, cap=ctx.q(3000, 200000))),
            ("server-deep", dict(mode="server", ver=4, maxops=ctx.q(5, 6), ends=False, maxobj=3, peer="good", ahead=1, cap=ctx.q(4000, 200000))),
            ("long", dict(ver=4, maxops=30, maxobj=4, simulate=ctx.q(25, 1200), ends=False)),
            ("long-bad", dict(ver=4, maxops=30, maxobj=4, bad=True, simulate=ctx.q(40, 1200), ends=False)),
            ("many", dict(ver=4, maxops=14, maxobj=24, maxchan=80, simulate=ctx.q(20, 400), ends=False)),
            ("many-bad", dict(ver=4, maxops=14, maxobj=17, maxchan=80, bad=True, simulate=ctx.q(15, 300), ends=False))]
    _run(ctx, runs, "P11")
