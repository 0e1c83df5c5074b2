#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]     runs one property's check
   check.py --setup                                builds everything once"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vp


def main():
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        vp.build()
        return 0
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        import checks
        fn = checks.CHECKS[prop]
        ctx = vp.Ctx(prop, tier, seed)
        print("%s: tier %s, seed %d" % (prop, tier, seed), flush=True)
        fn(ctx)
        return ctx.finish()
    except vp.ToolError as e:
        print("ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
