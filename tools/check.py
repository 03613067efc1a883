#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]: decides one property; see DESIGN.md."""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from tmfv import core


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    chk = core.Check(prop, tier)
    try:
        importlib.import_module("tmfv.p_" + prop.lower()).run(chk)
        return chk.finish()
    except Exception as e:
        if chk.violations:      # what was found before the machinery gave up counts
            print("check %s stopped early: %s" % (prop, str(e)[:2000]))
            return chk.finish()
        if isinstance(e, core.ToolError):
            print("check %s could not decide: %s" % (prop, e))
        else:
            traceback.print_exc()
        return 2


sys.exit(main())
