#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib


def main():
    prop = sys.argv[1]
    import registry
    last = None
    for attempt in range(2):
        rep = vlib.Report(prop, registry.LEVEL[prop])
        try:
            registry.RUN[prop](rep)
            return rep.finish()
        except vlib.Infra as e:
            last = e
            vlib.log("attempt failed:", str(e)[:3000])
        except Exception as e:
            last = e
            traceback.print_exc()
    if rep.violations:
        return rep.finish()
    print("check error:", last)
    return 2


sys.exit(main())
