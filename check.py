#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current tree.
VERIF_TIER=quick|thorough, VERIF_SEED=<n>.  Exit 0: held on everything
explored; 1: violated (VIOLATION line); 2: the check could not do its work."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vf

def main():
    prop = sys.argv[1]
    import plans
    plan = plans.PLANS.get(prop)
    if plan is None:
        print("no check for", prop)
        return 2
    ck = vf.Check(prop)
    try:
        plan(ck)
        return ck.finish()
    except vf.Infra as e:
        print("check %s could not do its work: %s" % (prop, e))
        if ck.violations:
            return ck.finish()
        return 2
    except Exception:
        traceback.print_exc()
        if ck.violations:
            return ck.finish()
        return 2

sys.exit(main())
