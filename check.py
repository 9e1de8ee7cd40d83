#!/usr/bin/env python3
"""python3 check.py <PROPERTY-ID>  -- decide one property from /repo's source."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vp.core import Repo, AnalysisBroken
from vp.report import Report, finish


def main(argv):
    if len(argv) != 2:
        print(__doc__)
        return 2
    prop = argv[1]
    mod = importlib.import_module("vp.p_" + prop.lower())
    rep = Report(prop)
    try:
        repo = Repo()
        extra = mod.run(repo, rep) or {}
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN: %s" % e, file=sys.stderr)
        return 3
    except Exception:
        traceback.print_exc()
        return 4
    return finish(rep, getattr(mod, "LEVEL", "other"), extra)


if __name__ == "__main__":
    sys.exit(main(sys.argv))
