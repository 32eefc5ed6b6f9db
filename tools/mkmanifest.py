#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run after adding a check)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {"default": "Bounds and the exact configurations are in the evidence file; payload contents are sampled per behaviour."}
def main():
    from tools import claims
    checks = []
    for p in sorted(claims.T):
        level, tech = claims.T[p][:2]
        note = claims.T[p][2] if len(claims.T[p]) > 2 else NOTE["default"]
        checks.append({"property": p, "quick_cmd": "python3 /verif/check.py %s --tier quick" % p, "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % p,
                       "technique": tech, "level": level, "level_note": note})
    m = {"version": 1, "setup_cmd": "python3 /verif/tools/setup.py", "checks": checks, "not_applicable": claims.NA, "notes": claims.NOTES}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1); open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
if __name__ == "__main__":
    main()
