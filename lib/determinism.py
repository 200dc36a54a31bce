"""Runs scenarios of every check twice, in servers started at different times with different
environments and under different load, and compares everything that was observed."""
import os
import random
import subprocess
import sys

import build
import checks
import checks_more  # noqa: F401
import harness


def main(n=40):
    exes = {v: build.build(v) for v in ("plain", "asan")}
    r = random.Random(n)
    bad = total = 0
    load = [subprocess.Popen([sys.executable, "-c", "while 1: pass"]) for _ in range(os.cpu_count() or 4)]
    try:
        for prop in sorted(checks.CHECKS):
            first = harness.Runner(exes)
            os.environ["SIM_NOISE_%d" % r.randrange(10**6)] = "x" * r.randrange(4000)
            second = harness.Runner(exes)
            first.memo_on = second.memo_on = False
            k = 0
            unit = 0
            while k < n:
                unit += 1
                ctx = harness.Ctx(prop, 991, unit, first)
                for case in checks.CHECKS[prop].gen(ctx):
                    for name, spec in case.specs.items():
                        v = case.variants.get(name, case.variant)
                        a, b = first.run(spec, v), second.run(spec, v)
                        k += 1
                        # Addresses in a crash report of the address sanitizer are not simulated.
                        if a.digest() != b.digest() or a.simns != b.simns or a.schedlog != b.schedlog or \
                                a.tree != b.tree:
                            bad += 1
                            print("DIFFERENT %s unit %d %s" % (prop, unit, name))
                    if k >= n:
                        break
            total += k
            first.close()
            second.close()
            print("%s: %d scenarios repeated" % (prop, k), flush=True)
    finally:
        for p in load:
            p.kill()
            p.wait()
    print("%d scenarios, %d not repeatable" % (total, bad))
    return 1 if bad else 0
