#!/usr/bin/env python3
"""check.py <ID> [quick|thorough]   decide one property
check.py replay <file>           repeat a recorded violation
check.py determinism [n]         run n scenarios repeatedly and compare"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import harness  # noqa: E402


def main(a):
    if len(a) >= 2 and a[0] == "replay":
        return harness.replay(a[1])
    if a and a[0] == "determinism":
        import determinism
        return determinism.main(int(a[1]) if len(a) > 1 else 40)
    if not a:
        print(__doc__)
        return 2
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return harness.run_check(a[0], tier)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
