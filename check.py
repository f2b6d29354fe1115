#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--case SUBSTR]... [-v] [-j N]"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--case", action="append")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    from engine import runner

    sys.exit(runner.main(a.property, a.tier, a.case, a.j, a.v, a.budget))
