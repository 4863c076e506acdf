#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] : decide one property (see DESIGN.md)."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vp import core, registry  # noqa: E402


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = a[0]
    mod, fn, level, title = registry.CHECKS[prop]
    ctx = core.Ctx(prop, tier, seed, level, title)
    try:
        getattr(importlib.import_module("vp." + mod), fn)(ctx)
        rc = ctx.finish()
    except core.CheckError as e:
        print("CHECK-ERROR property=%s: %s" % (prop, e), flush=True)
        rc = 1 if ctx.violations and ctx.finish() == 1 else 2
    except Exception:
        traceback.print_exc()
        rc = 1 if ctx.violations and ctx.finish() == 1 else 2
    sys.exit(rc)


if __name__ == "__main__":
    main()
