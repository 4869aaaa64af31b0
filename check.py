#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: decide one property from /repo's current source."""
import importlib
import os
import sys

sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sa.report import Ctx


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module("sa.checks." + prop.lower())
    ctx = Ctx(prop, tier)
    mod.run(ctx)
    return ctx.finish(getattr(mod, "FLOOR", 1), getattr(mod, "EXPLANATION", mod.__doc__ or ""))


if __name__ == "__main__":
    sys.exit(main())
