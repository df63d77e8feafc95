"""usage: run.py C01 [--replay FILE] [--case I ...] [-v]   (env: VERIF_SEED, VERIF_TIER)"""
import argparse
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vmon import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED") or "1")
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int, nargs="*")
    ap.add_argument("--workers", type=int)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier, seed, only = a.tier, int(a.seed), a.case
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        tier, seed, only = r["tier"], int(r["seed"]), r["indices"]
    return core.main(a.property, tier, seed, only=only, verbose=a.v, workers=a.workers)


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
