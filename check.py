#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("props." + pid.lower())
    rep = core.Report(pid, tier, seed, getattr(mod, "LEVEL", "model_checking"))
    sc = core.Scratch(pid)
    try:
        mod.run(rep, sc, tier, seed)
        rc = rep.finish()
    except core.CheckError as e:
        print("CHECK-ERROR %s: %s" % (pid, e))
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 4
    finally:
        sc.close()
    sys.exit(rc)


main()
