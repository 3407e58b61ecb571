#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
sys.dont_write_bytecode = True
import vf


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    c = vf.Check(prop, tier, seed)
    try:
        importlib.import_module(prop.lower()).check(c)
    except vf.Broken as e:
        print("ERROR %s: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return c.finish()


sys.exit(main())
