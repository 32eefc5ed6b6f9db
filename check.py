#!/usr/bin/env python3
"""check.py PXX [--tier quick|thorough]: decides one property of /repo's current tree."""
import argparse, importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib.core import Ctx, Enough
MODULES = {"P01": "wire", "P02": "wire", "P03": "wire", "P04": "wire", "P05": "session", "P06": "session", "P07": "session", "P08": "session", "P09": "session", "P11": "session",
           "P10": "setup", "P12": "image", "P13": "regiontext", "P14": "regiontext", "P15": "geometry", "P16": "geometry", "P17": "geometry", "P18": "values", "P19": "values", "P20": "values",
           "P21": "process", "P22": "process", "P23": "launch", "P24": "evaluate", "P25": "python", "P26": "matlab"}
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    m = importlib.import_module("checks." + MODULES[a.property])
    ctx = Ctx(a.property, a.tier, a.seed, getattr(m, "LEVEL", "model_checking"))
    try:
        try: getattr(m, a.property)(ctx)
        except Enough: pass
        rc = ctx.finish()
    except Exception:
        import traceback; traceback.print_exc(); rc = 2      # the check itself failed: no verdict
    finally:
        import shutil; shutil.rmtree(ctx.work, ignore_errors=True)
    sys.exit(rc)
if __name__ == "__main__":
    main()
