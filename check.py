#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property on /repo's current tree."""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
sys.setrecursionlimit(20000)
from abi_sa.build import Broken
from abi_sa.report import Report


def main():
    if sys.argv[1] == "--setup":
        from abi_sa import build
        build.irtool()
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        m = importlib.import_module("abi_sa.checks." + prop.lower())
        rep = Report(prop, tier)
        m.run(rep, tier)
        return rep.finish(getattr(m, "LEVEL", "other"), (m.__doc__ or "").strip(), getattr(m, "TRUSTED", ()))
    except Broken as e:
        print("%s: no answer: %s" % (prop, e))
        return 2
    except Exception:
        import traceback
        traceback.print_exc()
        print("%s: no answer: internal error of the analysis" % prop)
        return 2


sys.exit(main())
