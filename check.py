#!/usr/bin/env python3
"""python3 check.py <property id> : decide one property on /repo's working tree.
Exit 0: held on everything explored; 1: VIOLATION printed; 2: the check failed."""
import os, sys, traceback
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "harness"), os.path.join(HERE, "checks")]
from common import Check, CheckError, Scratch, log


def main():
    pid = sys.argv[1]
    import registry
    f = registry.CHECKS[pid]
    c = Check(pid)
    with Scratch(pid) as sc:
        try:
            f(c, sc)
        except CheckError as e:
            if not c.violations:
                raise
            log("cut short:", e)
    return c.finish()


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        print("# check failed:", e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
