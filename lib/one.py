"""Runs the cases of single units of a check: one.py CHECK SEED TIER UNIT... (prints what they find)."""
import os
import pickle
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
import checks  # noqa: E402
import harness  # noqa: E402


def run(prop, seed, tier, units, keep=None):
    chk = checks.CHECKS[prop]
    runner = harness.Runner({v: build.build(v) for v in chk.variants})
    for u in units:
        ctx = harness.Ctx(prop, seed, u, runner, tier=tier)
        for n, case in enumerate(chk.gen(ctx), 1):
            bad, dig = harness.judge(case, runner)
            for sig, msg in bad:
                print("unit %d case %d: %s\n    %s" % (u, n, sig, msg[:1500]))
                if keep:
                    for k, s in case.specs.items():
                        for f in s.files:
                            if f[0] == "file" and isinstance(f[2], bytes):
                                with open(os.path.join(keep, "%d.%d.%s.%s" % (
                                        u, n, k, os.path.basename(f[1] if isinstance(f[1], str) else f[1].decode()))),
                                          "wb") as h:
                                    h.write(f[2])
                        with open(os.path.join(keep, "%d.%d.%s.procs" % (u, n, k)), "w") as h:
                            h.write(repr(s.procs) + "\n")
    runner.close()


if __name__ == "__main__":
    run(sys.argv[1], int(sys.argv[2]), sys.argv[3], [int(x) for x in sys.argv[4:]],
        os.environ.get("ONE_KEEP"))
