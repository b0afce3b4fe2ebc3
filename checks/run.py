#!/usr/bin/env python3
"""run.py <property id>: decides one property on /repo's current sources."""
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "engine")); sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import core, report

def main():
    rc = 0
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    db = None
    for pid in sys.argv[1:]:
        rep = report.Report(pid, tier)
        try:
            db = db or core.DB()
            mod = importlib.import_module(pid.lower())
            rep.rule = " ".join((mod.__doc__ or "").split())
            mod.run(db, rep)
            r = rep.finish(getattr(mod, "LEVEL", "other"), getattr(mod, "EXPLANATION", rep.rule))
            rc = max(rc, r)
        except core.CheckError as e:
            print("%s: CHECK ERROR: %s" % (pid, e)); rc = max(rc, 2)
        except Exception:
            traceback.print_exc(); rc = max(rc, 3)
    sys.exit(rc)
main()
