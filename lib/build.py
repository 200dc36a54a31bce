"""Builds the simulator from /repo's current working tree, by content hash, outside /repo."""
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(VERIF, ".build"))
SIM = os.path.join(VERIF, "sim")
MODELS_DIR = "/sim/models"

VARIANTS = {
    # The simulated heap owns every address and every byte.
    "plain": ["-O2"],
    # AddressSanitizer and UBSan own the heap instead; every other seam is the same.
    "asan": ["-O1", "-DSIM_NO_HEAP",
             "-fsanitize=address,bounds,null,return,unreachable,bool,enum,integer-divide-by-zero",
             "-fno-sanitize-recover=all",
             "-fno-omit-frame-pointer"],
}
BASE = ["-std=c++20", "-g1", "-w", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0",
        "-include", "algorithm", "-include", "cstring", "-I/usr/include/poppler"]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def repo_sources(repo):
    cpp, hdr = [], []
    for root, dirs, files in os.walk(os.path.join(repo, "src")):
        dirs.sort()
        for n in sorted(files):
            p = os.path.join(root, n)
            if n.endswith(".cpp"):
                cpp.append(p)
            elif n.endswith((".h", ".hpp", ".inc")):
                hdr.append(p)
    return cpp, hdr


def cstr(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'


def build(variant="plain", repo=None, quiet=True):
    """Returns the path of the simulator binary for the given variant."""
    repo = repo or REPO
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, "lock." + variant), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(variant, repo, quiet)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def _build(variant, repo, quiet):
    cpp, hdr = repo_sources(repo)
    if not cpp:
        raise SystemExit("no sources in %s/src" % repo)
    simcpp = [os.path.join(SIM, f) for f in sorted(os.listdir(SIM)) if f.endswith(".cpp")]
    simhdr = [os.path.join(SIM, f) for f in sorted(os.listdir(SIM)) if f.endswith(".h")]
    simhdr.append(os.path.join(SIM, "stub/cppflow/cppflow.h"))
    meta = {}
    for n in ("project.description", "project.usage", "project.version"):
        try:
            meta[n] = _read(os.path.join(repo, n)).decode("utf-8", "replace").strip("\n")
        except OSError:
            meta[n] = "?"
    flags = list(BASE) + VARIANTS[variant] + [
        "-DCONFIG_SEMANTIC_ROLES_DETECTION_MODELS_DIR=" + cstr(MODELS_DIR),
        "-I" + os.path.join(SIM, "stub"), "-I" + os.path.join(repo, "src")]
    mainflags = ["-DPROGRAM_NAME=" + cstr("pdftotext++"),
                 "-DPROGRAM_DESCRIPTION=" + cstr(meta["project.description"]),
                 "-DPROGRAM_USAGE=" + cstr(meta["project.usage"]),
                 "-DVERSION=" + cstr(meta["project.version"])]
    hh = hashlib.sha256()
    for p in hdr + simhdr:
        hh.update(os.path.basename(p).encode() + b"\0" + hashlib.sha256(_read(p)).digest())
    hh.update(" ".join(flags + mainflags).encode())
    hdrhash = hh.hexdigest()
    objdir = os.path.join(OUT, "obj." + variant)
    os.makedirs(objdir, exist_ok=True)
    jobs, objs = [], []
    for p in cpp + simcpp:
        ism = p.endswith("/pdftotext++.cpp")
        key = hashlib.sha256((hdrhash + p).encode() + _read(p)).hexdigest()[:32]
        o = os.path.join(objdir, key + ".o")
        objs.append(o)
        if os.path.exists(o):
            os.utime(o)
            continue
        extra = (mainflags + ["-Dmain=ppp_main"]) if ism else []
        if p in simcpp and variant == "asan":
            extra = ["-fno-sanitize=all"]
        jobs.append((p, o, ["g++"] + flags + extra + ["-c", p, "-o", o + ".tmp"]))
    fails = []

    def run(j):
        p, o, cmd = j
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            fails.append((p, r.stdout.decode("utf-8", "replace")))
        else:
            os.replace(o + ".tmp", o)

    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(run, jobs))
    if fails:
        for p, t in fails:
            sys.stderr.write("compile failed: %s\n%s\n" % (p, t[-4000:]))
        raise SystemExit(3)
    key = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:32]
    exe = os.path.join(OUT, "sim.%s.%s" % (variant, key))
    if not os.path.exists(exe):
        link = ["g++"] + [f for f in VARIANTS[variant] if f.startswith("-f")] + ["-rdynamic"] + \
            wraps() + objs + ["-o", exe + ".tmp", "-lpoppler", "-lutf8proc", "-lboost_program_options", "-ldl"]
        r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            sys.stderr.write("link failed\n" + r.stdout.decode("utf-8", "replace")[-6000:])
            raise SystemExit(3)
        os.replace(exe + ".tmp", exe)
    os.utime(exe)
    _prune(variant, objdir, set(objs), exe)
    return exe


LOCALES = [("de_DE", "UTF-8"), ("tr_TR", "UTF-8"), ("fr_FR", "ISO-8859-1"), ("hi_IN", "UTF-8")]


def locales():
    """Compiles the locales that runs may find themselves in; returns their directory."""
    d = os.path.join(OUT, "locales")
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, "lock.locales"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if not os.path.exists(os.path.join(d, "done")):
            os.makedirs(d, exist_ok=True)
            for n, cs in LOCALES:
                try:
                    subprocess.run(["localedef", "-c", "-i", n, "-f", cs, os.path.join(d, n + "." + cs)],
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
                except (OSError, subprocess.TimeoutExpired):
                    pass                    # (without it, the locale is one that is not installed)
            open(os.path.join(d, "done"), "w").close()
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()
    return d


def wraps():
    """The calls that are routed through the simulator (see sim/steps.cpp)."""
    t = _read(os.path.join(SIM, "steps.cpp")).decode()
    return ["-Wl,--wrap=" + s for s in sorted(set(re.findall(r'__wrap_(_Z\w+)"', t)) |
                                              set(re.findall(r'\w+, "(_Z\w+)"', t)))]


def _prune(variant, objdir, keep, exe):
    """Keep the cache small: drop the oldest objects and binaries beyond a bound."""
    o = sorted((os.path.join(objdir, n) for n in os.listdir(objdir)), key=os.path.getmtime)
    for p in o[:max(0, len(o) - 400)]:
        if p not in keep:
            os.unlink(p)
    b = sorted((os.path.join(OUT, n) for n in os.listdir(OUT)
                if n.startswith("sim.%s." % variant)), key=os.path.getmtime)
    for p in b[:max(0, len(b) - 6)]:
        if p != exe:
            os.unlink(p)


if __name__ == "__main__":
    for v in (sys.argv[1:] or ["plain", "asan"]):
        print(build(v))
    print(locales())
