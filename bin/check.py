#!/usr/bin/env python3
"""usage: check.py ID      (VERIF_TIER=quick or thorough, VERIF_SEED=n)"""
import os, subprocess, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.dont_write_bytecode = True
import vt, allchecks as checks


def main():
    prop = sys.argv[1]
    chk = vt.Check(prop)
    try:
        checks.CHECKS[prop](chk)
    except vt.Stop:
        pass
    except (vt.ToolError, subprocess.TimeoutExpired) as e:
        if not chk.violations:
            traceback.print_exc()
            print("ERROR: the check of %s did not finish: %s" % (prop, str(e)[:300]))
            return 2
        print("the rest of the check did not finish: %s" % str(e)[:300])
    return chk.finish()


if __name__ == "__main__":
    sys.exit(main())
