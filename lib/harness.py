"""Runs a check: seeded units of simulated runs, spread over worker processes; gates, minimises and
records every violation; writes the evidence."""
import hashlib
import json
import multiprocessing as mp
import os
import random
import re
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import build  # noqa: E402
import simc  # noqa: E402
import workload  # noqa: E402

REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")
WORKERS = int(os.environ.get("SIM_WORKERS", "0")) or min(8, os.cpu_count() or 4)


class Case:
    """Scenarios that belong together, and the oracle that judges their results."""

    def __init__(self, oracle, variant="plain", **params):
        self.oracle = oracle
        self.variant = variant
        self.params = params
        self.specs = {}
        self.variants = {}

    def add(self, name, spec, variant=None):
        self.specs[name] = spec
        if variant and variant != self.variant:
            self.variants[name] = variant
        return self

    def to_json(self):
        return {"oracle": self.oracle, "variant": self.variant, "params": self.params,
                "variants": self.variants, "specs": {k: s.to_json() for k, s in self.specs.items()}}

    @staticmethod
    def from_json(d):
        c = Case(d["oracle"], d["variant"], **d["params"])
        c.variants = d.get("variants", {})
        c.specs = {k: simc.Spec.from_json(s) for k, s in d["specs"].items()}
        return c


class Runner:
    """One scenario server per build variant, with a memo of recent runs."""

    def __init__(self, exes):
        self.exes = exes
        self.servers = {}
        self.memo = {}
        self.stats = new_stats()
        self.memo_on = True

    def run(self, spec, variant="plain"):
        w = spec.wire()
        key = (variant, hashlib.sha256(w).digest())
        if self.memo_on and key in self.memo:
            return self.memo[key]
        s = self.servers.get(variant)
        if s is None:
            s = self.servers[variant] = simc.Server(self.exes[variant])
        r = s.run(w)
        self.count(spec, r)
        if self.memo_on:
            if len(self.memo) > 24:
                self.memo.pop(next(iter(self.memo)))
            self.memo[key] = r
        return r

    def count(self, spec, r):
        st = self.stats
        st["runs"] += 1
        st["lives"] += len(r.lives)
        st["simns"] += r.simns
        st["steps"] += sum(l.steps for l in r.lives)
        st["switches"] += r.switches
        fired = 0
        for f, n in zip(spec.faults, r.fired):
            k = f[0] + ":" + f[3]
            c = st["faults"].setdefault(k, [0, 0])
            c[0] += 1
            if n:
                c[1] += n
                fired += 1
        for k, on in (("disk capacity", spec.cap >= 0), ("device capacity", spec.outcap >= 0),
                      ("heap limit", spec.heaplimit > 0)):
            if on:
                c = st["faults"].setdefault(k, [0, 0])
                c[0] += 1
                c[1] += 1
                fired += 1
        for t in spec.tags:
            c = st["faults"].setdefault(t, [0, 0])
            c[0] += 1
            c[1] += 1
            fired += 1
        st["hashes"].add(r.hash)
        if r.schedhash:
            st["scheds"].add(r.schedhash)
        if fired or r.switches or len(r.lives) > 1 or any(spec.heap) or any(len(p) > 3 for p in spec.procs):
            st["nontrivial"].add(r.hash)
        for l in r.lives:
            k = l.describe()
            st["endings"][k] = st["endings"].get(k, 0) + 1

    def close(self):
        for s in self.servers.values():
            s.close()
        self.servers = {}


def new_stats():
    return {"runs": 0, "lives": 0, "simns": 0, "steps": 0, "switches": 0, "faults": {},
            "hashes": set(), "nontrivial": set(), "scheds": set(), "endings": {}, "cases": 0,
            "units": 0, "probes": {}}


def merge_stats(a, b):
    for k in ("runs", "lives", "simns", "steps", "switches", "cases", "units"):
        a[k] += b[k]
    for k in ("hashes", "nontrivial", "scheds"):
        a[k] |= b[k]
    for k, v in b["faults"].items():
        c = a["faults"].setdefault(k, [0, 0])
        c[0] += v[0]
        c[1] += v[1]
    for f in ("endings", "probes"):
        for k, v in b[f].items():
            a[f][k] = a[f].get(k, 0) + v


class Ctx:
    """What a generator of cases sees: its PRNG, documents, the runner and the shrinker's knobs."""

    def __init__(self, prop, seed, unit, runner, knobs=None, tier="quick"):
        self.prop, self.seed, self.unit, self.runner = prop, seed, unit, runner
        self.knobs = knobs or {}
        self.tier = tier
        self.key = "%s:%s:%s" % (prop, seed, unit)
        self.rng = random.Random(self.key)
        self.docs = []

    def sub(self, name):
        return random.Random(self.key + ":" + name)

    def _doc(self, maker, pages, features):
        i = len(self.docs)
        kn = self.knobs.get("doc%d" % i, {})
        r = self.sub("doc%d" % i)
        if features is None:
            d = maker(r, pages=pages)
            features = d.features + workload.wrappings(self.sub("wrap%d" % i))
            r = self.sub("doc%d" % i)
        f = kn.get("features", features)
        p = kn.get("pages", pages)
        d = maker(r, pages=p, features={x for x in f if not x.startswith("in:")})
        workload.wrap(self.sub("wrapped%d" % i), d, f)
        d.features = sorted(f)
        d.npages = len(d.pages)
        self.docs.append({"features": sorted(f), "pages": len(d.pages)})
        return d

    def simple(self, pages=None, features=None):
        return self._doc(workload.simple_doc, pages, features)

    def messy(self, pages=None, features=None):
        return self._doc(workload.messy_doc, pages, features)

    def odd(self, pages=None, features=None):
        return self._doc(workload.odd_doc, pages, features)

    def run(self, spec, variant="plain"):
        return self.runner.run(spec, variant)

    def probe(self, name, n=1):
        if n:
            p = self.runner.stats["probes"]
            p[name] = p.get(name, 0) + n


def judge(case, runner):
    """Returns ([(signature, message)], digest)."""
    import checks
    res = {}
    h = hashlib.sha256()
    for k, s in case.specs.items():
        res[k] = runner.run(s, case.variants.get(k, case.variant))
        h.update(res[k].digest().encode())
    out = checks.ORACLES[case.oracle](res, case)
    return out or [], h.hexdigest()


# -- worker ----------------------------------------------------------------------------------------

def _worker(prop, seed, tier, exes, jobs, results, deadline, first):
    import checks
    runner = Runner(exes)
    try:
        while True:
            try:
                unit = jobs.get(timeout=1)
            except Exception:
                break
            if unit is None or time.time() > deadline or first.is_set():
                break
            ctx = Ctx(prop, seed, unit, runner, tier=tier)
            try:
                n = 0
                for case in checks.CHECKS[prop].gen(ctx):
                    n += 1
                    bad, dig = judge(case, runner)
                    for sig, msg in bad:
                        results.put(("bad", unit, n, sig, msg, case.to_json(), dig, ctx.docs))
                    if time.time() > deadline or first.is_set():
                        break
                runner.stats["cases"] += n
                runner.stats["units"] += 1
                results.put(("unit", unit, n))
            except Exception:
                results.put(("error", unit, traceback.format_exc()))
                break
    finally:
        results.put(("stats", runner.stats))
        runner.close()


def load_known():
    out = []
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                m = re.match(r"finding: property=(\S+) signature=(.*?) :: (.*)", line)
                if m:
                    out.append({"property": m.group(1), "signature": m.group(2), "what": m.group(3)})
    except OSError:
        pass
    return out


def fresh_replay(path):
    r = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), "replay", path],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return r.returncode, r.stdout.decode("utf-8", "replace")


def run_check(prop, tier):
    import checks
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    chk = checks.CHECKS[prop]
    exes = {v: build.build(v) for v in chk.variants}
    tb = time.time() - t0
    units = chk.quick if tier == "quick" else chk.thorough
    cap = chk.quick_s if tier == "quick" else chk.thorough_s
    if os.environ.get("SIM_UNITS"):
        units = int(os.environ["SIM_UNITS"])
    if os.environ.get("SIM_CAP"):
        cap = float(os.environ["SIM_CAP"])
    deadline = time.time() + cap
    ctxm = mp.get_context("fork")
    jobs, results = ctxm.Queue(), ctxm.Queue()
    first = ctxm.Event()
    for u in range(units):
        jobs.put(u)
    for _ in range(WORKERS):
        jobs.put(None)
    ws = [ctxm.Process(target=_worker, args=(prop, seed, tier, exes, jobs, results, deadline, first))
          for _ in range(WORKERS)]
    for w in ws:
        w.start()
    stats = new_stats()
    bad = {}
    samples = []
    left = WORKERS
    errors = []
    known = {k["signature"]: k for k in load_known() if k.get("property") == prop}
    hit = set()
    collect = os.environ.get("SIM_COLLECT")
    stop = 0
    while left:
        try:
            m = results.get(timeout=5)
        except Exception:
            if not any(w.is_alive() for w in ws):
                errors.append("a worker died")
                break
            if time.time() > deadline + 120:
                if not bad:
                    errors.append("a worker did not stop")
                break
            if stop and time.time() > stop:
                break
            continue
        if m[0] == "stats":
            merge_stats(stats, m[1])
            left -= 1
        elif m[0] == "error":
            errors.append("unit %s: %s" % (m[1], m[2]))
            first.set()
        elif m[0] == "unit":
            if len(samples) < 3:
                samples.append({"unit": m[1], "cases": m[2]})
        elif m[0] == "bad":
            sig = m[3]
            if sig in known:
                hit.add(sig)
                continue
            if sig not in bad or (m[1], m[2]) < (bad[sig][1], bad[sig][2]):
                bad[sig] = m
            if not collect:
                first.set()
                stop = stop or time.time() + 60
    for w in ws:
        w.join(10)
        if w.is_alive():
            w.kill()
    if errors and not bad:
        sys.stderr.write("check error: %s\n" % errors[0])
        write_evidence(prop, tier, seed, chk, stats, samples, time.time() - t0, tb, 0, errors)
        return 3
    rc = 0
    if bad and collect:
        for sig, m in sorted(bad.items()):
            print("BAD unit=%d case=%d sig=%s\n    %s" % (m[1], m[2], sig, m[4][:600]))
        bad_n = len(bad)
        print("%d signatures; runs=%d cases=%d units=%d %.1fs endings=%s" % (
            bad_n, stats["runs"], stats["cases"], stats["units"], time.time() - t0, stats["endings"]))
        return 1
    nviol = 0
    began = time.time()
    for sig in sorted(bad, key=lambda s: (bad[s][1], bad[s][2]))[:3]:
        if nviol and time.time() - began > 120:
            break
        r = confirm(prop, tier, seed, exes, bad[sig])
        if r is None:
            rc = rc or 3
            continue
        nviol += 1
        print("VIOLATION property=%s replay=%s" % (prop, r[0]))
        print("  %s: %s" % (sig, r[1][:1500]), flush=True)
        rc = 1
    for sig, k in known.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    write_evidence(prop, tier, seed, chk, stats, samples, time.time() - t0, tb, nviol, errors)
    if rc == 0:
        print("%s %s: held on %d simulated runs (%d cases, %d units), %d distinct histories, %.1f s "
              "(build %.1f s)" % (prop, tier, stats["runs"], stats["cases"], stats["units"],
                                  len(stats["nontrivial"]), time.time() - t0, tb))
    return rc


# -- confirming and minimising ---------------------------------------------------------------------

def check_case(case, runner, sig):
    try:
        bad, dig = judge(case, runner)
    except simc.SimError:
        return None, None
    for s, msg in bad:
        if s == sig:
            return msg, dig
    return None, dig


def confirm(prop, tier, seed, exes, m):
    """Gate: the same case twice in fresh servers, equal digests and the same violation."""
    _, unit, n, sig, msg, cj, dig, docs = m
    case = Case.from_json(cj)
    took = 0
    for _ in range(2):
        r = Runner(exes)
        t = time.time()
        msg2, dig2 = check_case(case, r, sig)
        took = time.time() - t
        r.close()
        if msg2 is None or dig2 != dig:
            sys.stderr.write("check error: unit %d case %d (%s) did not repeat exactly: %s / %s\n%s\n" %
                             (unit, n, sig, dig, dig2, msg))
            return None
    # Nothing gets smaller within the budget when one run of the case takes as long as a hang does.
    if took < 12:
        case, msg = minimise(prop, tier, seed, exes, unit, sig, case, msg, docs)
    os.makedirs(REPLAYS, exist_ok=True)
    h = hashlib.sha256(json.dumps(case.to_json(), sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(REPLAYS, "%s-%s.json" % (prop, h))
    with open(path, "w") as f:
        json.dump({"property": prop, "signature": sig, "message": msg, "seed": seed, "unit": unit,
                   "faults": {k: s.faults for k, s in case.specs.items()}, "case": case.to_json()},
                  f, indent=1)
    rc, out = fresh_replay(path)
    if rc != 1:
        sys.stderr.write("check error: replay of %s in a fresh process gave %d\n%s\n" % (path, rc, out))
        return None
    return path, msg


def minimise(prop, tier, seed, exes, unit, sig, case, msg, docs, budget=60.0):
    import checks
    end = time.time() + budget
    r = Runner(exes)

    def size(c):
        return sum(sum(len(f[2]) for f in s.files) + 1000 * len(s.faults) for s in c.specs.values())

    best, bmsg = case, msg
    # 1. Smaller documents: the generator again, with fewer features and pages.
    knobs = {}
    if checks.CHECKS[prop].reshrink:
        def attempt(kn, cap):
            ctx = Ctx(prop, seed, unit, r, knobs=kn, tier=tier)
            t = time.time()
            for c in checks.CHECKS[prop].gen(ctx):
                try:
                    bad, _ = judge(c, r)
                except simc.SimError:
                    continue
                for s, ms in bad:
                    if s == sig:
                        return c, ms
                if time.time() - t > cap or time.time() > end - budget * 0.4:
                    return None
            return None

        for i, d in enumerate(docs):
            feats, pages = list(d["features"]), d["pages"]
            trials = [{"pages": 1}] if pages > 1 else []
            trials += [{"features": []}] if feats else []
            trials += [{"drop": f} for f in feats]
            for tr in trials:
                if time.time() > end - budget * 0.4:
                    break
                cur = dict(knobs.get("doc%d" % i, {"features": feats, "pages": pages}))
                if "drop" in tr:
                    if tr["drop"] not in cur["features"]:
                        continue
                    cur["features"] = [f for f in cur["features"] if f != tr["drop"]]
                else:
                    cur.update(tr)
                kn = dict(knobs)
                kn["doc%d" % i] = cur
                try:
                    got = attempt(kn, 6.0)
                except Exception:
                    got = None
                if got and size(got[0]) <= size(best) * 1.2:
                    knobs = kn
                    best, bmsg = got
    # 2. Fewer faults, plainer environments, shorter schedules.
    def try_edit(edit):
        nonlocal best, bmsg
        if time.time() > end:
            return False
        c = Case.from_json(json.loads(json.dumps(best.to_json())))
        if edit(c) is False:
            return False
        try:
            m2, _ = check_case(c, r, sig)
        except Exception:
            return False
        if m2 is not None:
            best, bmsg = c, m2
            return True
        return False

    for k in list(best.specs):
        i = 0
        while i < len(best.specs[k].faults):
            def rm(c, k=k, i=i):
                c.specs[k].faults.pop(i)
            if not try_edit(rm):
                i += 1
        plain = simc.Spec()
        for fld in ("heap", "clock", "pid", "env", "cwd", "cap", "outcap", "model", "heaplimit"):
            if getattr(best.specs[k], fld) != getattr(plain, fld):
                def ed(c, k=k, fld=fld):
                    setattr(c.specs[k], fld, getattr(simc.Spec(), fld))
                try_edit(ed)
        for i in range(len(best.specs[k].files) - 1, -1, -1):
            def ed(c, k=k, i=i):
                if i >= len(c.specs[k].files):
                    return False
                c.specs[k].files.pop(i)
            if len(best.specs[k].files) > 12:
                break
        if best.specs[k].par >= 0:
            try:
                log = r.run(best.specs[k], best.variant).schedlog
            except simc.SimError:
                log = []
            n = len(log)
            # Truncate the forced schedule from the end, then let each process run on.
            step = n
            keep = log
            while step >= 1 and time.time() < end:
                if len(keep) > step:
                    def ed(c, k=k, cut=len(keep) - step):
                        c.specs[k].sched = list(keep[:cut])
                        c.specs[k].par = 0
                    if try_edit(ed):
                        keep = keep[:len(keep) - step]
                        continue
                step //= 2
    r.close()
    return best, bmsg


def replay(path):
    import checks  # noqa: F401
    with open(path) as f:
        d = json.load(f)
    case = Case.from_json(d["case"])
    need = {case.variant} | set(case.variants.values())
    exes = {v: build.build(v) for v in need}
    r = Runner(exes)
    msg, dig = check_case(case, r, d["signature"])
    r2 = Runner(exes)
    msg2, dig2 = check_case(case, r2, d["signature"])
    r.close()
    r2.close()
    if dig != dig2:
        print("check error: the replay is not deterministic")
        return 3
    if msg is None:
        print("replay of %s: the violation (%s) does not occur" % (path, d["signature"]))
        return 0
    print("VIOLATION property=%s replay=%s" % (d["property"], path))
    print("  %s: %s" % (d["signature"], msg))
    print("  digest %s" % dig)
    return 1


def write_evidence(prop, tier, seed, chk, stats, samples, wall, tb, nviol, errors):
    os.makedirs(EVIDENCE, exist_ok=True)
    search = max(0.001, wall - tb)
    cov = {
        "evaluations": stats["runs"],
        "distinct_nontrivial": len(stats["nontrivial"]),
        "rule": chk.rule + " A run is counted as distinct and non-trivial if its event history hash "
                "(every I/O event, clock reading, model consultation, heap placement and ending) is new "
                "and a fault fired, the document or a party was damaged, processes interleaved or "
                "followed each other, several operations shared a process, or the heap was perturbed.",
        "samples": samples + chk.samples,
        "units": stats["units"],
        "cases_judged": stats["cases"],
        "simulated_processes": stats["lives"],
        "runs_per_hour": int(stats["runs"] / search * 3600),
        "seeds_per_hour": int(stats["units"] / search * 3600),
        "simulated_seconds": round(stats["simns"] / 1e9, 3),
        "io_events": stats["steps"],
        "distinct_histories": len(stats["hashes"]),
        "distinct_interleavings": len(stats["scheds"]),
        "context_switches": stats["switches"],
        "faults": {k: {"planned": v[0], "fired": v[1]} for k, v in sorted(stats["faults"].items())},
        "endings": stats["endings"],
        "probes": stats["probes"],
        "components_real": ["all of /repo/src (built from the working tree)", "libpoppler", "utf8proc",
                            "boost::program_options", "libstdc++ streams"],
        "components_simulated": ["disk", "standard output and error devices", "clocks", "pids",
                                 "random sources", "shell (system/popen)", "TensorFlow model (cppflow)",
                                 "fontconfig"] +
                                (["heap"] if "plain" in chk.variants else []),
    }
    if errors:
        cov["errors"] = errors[:3]
    d = {"property": prop, "tier": tier, "seed": seed, "level": chk.level, "coverage": cov,
         "assumptions": chk.assumptions, "wall_s": round(wall, 2), "violations": nviol}
    tmp = os.path.join(EVIDENCE, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(d, f, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, prop + ".json"))
