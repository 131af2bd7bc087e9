#!/usr/bin/env python3
"""check.py <PROPERTY-ID> [--thorough]: decide one property from /repo's source."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from sa.report import run_rule  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("sa.rules." + pid.lower())
    return run_rule(pid, mod, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
