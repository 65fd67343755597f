#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]: run (or replay) one property's check."""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from dst.registry import PROPS  # noqa: E402
from dst.runner import Check, replay  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument("--scale", type=float)
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    spec = PROPS[a.property]
    if a.replay:
        return replay(a.property, spec, a.replay)
    return Check(a.property, spec, a.tier, a.seed, a.workers, a.scale, a.budget).run()


if __name__ == "__main__":
    sys.exit(main())
