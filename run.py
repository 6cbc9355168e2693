#!/usr/bin/env python3
"""run.py PROPERTY            check one property (tier from VERIF_TIER, seed from VERIF_SEED)
run.py --replay FILE         repeat a reported violation
run.py --setup               compile what does not depend on /repo"""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import core, engine


def main(a):
    if a and a[0] == "--setup":
        core.java_overrides()
        # the Java evaluation of BigNat must agree with its TLA+ definition
        return core.sh([sys.executable, os.path.join(core.VERIF, "tools", "selftest.py"), "bignat"], timeout=900).returncode
    if a and a[0] == "--replay":
        return engine.replay(a[1])
    from lib import props
    pid = a[0]
    c = engine.Check(pid)
    try:
        assumptions = props.CHECKS[pid](c)
        return c.finish(assumptions or ())
    except core.CheckError as e:
        if c.violations:                      # what was found and confirmed stands
            return c.finish()
        print("ERROR property=%s %s" % (pid, e))
        return 2


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except core.CheckError as e:
        print("ERROR", e)
        sys.exit(2)
