"""Trace validation: evaluates functions of the specification on recorded data."""
import json, os, tempfile
from . import tlc

def ask(module, expr, records, ctx=None, extends="", defs="", workers=8, timeout=700, name="oracle"):
    """expr is a TLA+ expression over the variable `rec` (one record); returns its value for every record."""
    if not records: return []
    d = ctx.work if ctx else None
    fd, path = tempfile.mkstemp(suffix=".ndjson", dir=d)
    with os.fdopen(fd, "w") as f:
        for r in records: f.write(json.dumps(r) + "\n")
    n = max(1, min(64, len(records)))
    mod = ("---- MODULE Ask ----\nEXTENDS %s, Json, IOUtils, TLC\nVARIABLE b\nRecs == ndJsonDeserialize(IOEnv.ASK_FILE)\nN == %d\n%s\n"
           "Answer(rec) == %s\n"
           "Init == b \\in 1..N\nNext == /\\ b <= N /\\ b' = b + N\n        /\\ \\A i \\in {j \\in DOMAIN Recs : j %% N = b - 1} : PrintT(<<\"A\", ToJson([i |-> i, a |-> Answer(Recs[i])])>>)\n====\n"
           % (module, n, defs, expr))
    out = [None] * len(records)
    def got(tag, v): out[v["i"] - 1] = v["a"]
    r = tlc.run("Ask", init="Init", next_="Next", env={"ASK_FILE": path}, workers=workers, timeout=timeout, tags={"A"}, stream=got, sources={"Ask.tla": mod}, heap="10g")
    os.unlink(path)
    if any(x is None for x in out):
        raise tlc.TLCError("oracle gave no answer for %d of %d records\n%s" % (sum(x is None for x in out), len(out), r.output[-2000:]))
    if ctx:
        ctx.detail.setdefault("oracle", []).append({"run": name, "records": len(records), "wall_s": round(r.wall, 2)})
    return out
