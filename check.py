#!/usr/bin/env python3
"""check.py C07            run the check of one property (VERIF_TIER, VERIF_SEED)
check.py --replay FILE     re-execute a reported violation"""
import json, os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
from lib import base, drive


def replay(path):
    r = json.load(open(path))
    if "script" not in r:
        print(json.dumps(r, indent=1))
        return 0
    c = base.Check(r["property"])
    d = r["script"]
    d["before"] = [drive.Script(**b) for b in d.get("before", [])]
    s = drive.Script(**d)
    c.drivers(s.impl)
    c.replay([s], r["judge"], r["direct"], r["toy"], module=r["module"])
    return 1 if c.violations else 0


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(base.main(sys.argv[1]))
