#!/usr/bin/env python3
"""check.py <property> [quick|thorough] -- run one property's check."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vp


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module("checks")
    try:
        rc = mod.run(prop, tier)
    except vp.Broken as e:
        print(e)
        rc = 2
    sys.exit(rc)


if __name__ == "__main__":
    main()
