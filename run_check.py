#!/usr/bin/env python3
"""run_check.py PROPERTY [--tier quick|thorough] [--seed N]

Decides one property of /repo's working tree with the TLA+ specification in spec/.
Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.  Exit 2: tool error.
"""
import os, sys, time, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import common


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    prop = a[0]
    tier, seed = common.env_tier(), common.env_seed()
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--seed" in a:
        seed = int(a[a.index("--seed") + 1])
    t0 = time.time()
    try:
        if prop == "setup":
            common.build()
            return 0
        vh = common.build()
        import gadgets
        import header
        import start
        import lazycell
        mod = gadgets if prop in gadgets.SETS else header if prop in header.PROPS else start if prop in start.PROPS else lazycell if prop in lazycell.PROPS else None
        if mod is None:
            print(f"unknown property {prop}")
            return 2
        return mod.run(prop, vh, tier, seed, t0)
    except common.ToolError as e:
        print(f"TOOL ERROR: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
