#!/usr/bin/env python3
"""python3-vt run.py C03            one check (tier from VERIF_TIER)
   python3-vt run.py --replay FILE  re-execute a reported violation"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
for p in ("/opt/venv/lib/python3.12/site-packages", REPO, HERE):
    if p in sys.path:
        sys.path.remove(p)
    sys.path.insert(0, p)

if __name__ == "__main__":
    from pyvc import check
    sys.exit(check.main(sys.argv[1:]))
