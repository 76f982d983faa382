#!/usr/bin/env python3
"""check.py <ID>: decides one property for /repo's working tree (see DESIGN.md)."""
import importlib, os, sys, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import build
from ctx import Ctx


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or (sys.argv[2] if len(sys.argv) > 2 else "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    mod = importlib.import_module("props." + prop.lower())
    ctx = Ctx(prop, "thorough" if tier == "thorough" else "quick", seed)
    try:
        mod.check(ctx)
        return ctx.finish()
    except BaseException:
        traceback.print_exc()
        ctx.close()
        return 2


if __name__ == "__main__":
    sys.exit(main())
