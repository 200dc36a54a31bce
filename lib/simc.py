"""Client of the scenario server: one Spec in, one Result out; both can be written to a file."""
import base64
import hashlib
import json
import os
import struct
import subprocess

import build

SIGNAMES = {4: "SIGILL", 5: "SIGTRAP", 6: "SIGABRT", 7: "SIGBUS", 8: "SIGFPE", 9: "SIGKILL",
            11: "SIGSEGV", 13: "SIGPIPE", 24: "SIGXCPU"}


class SimError(Exception):
    """The simulator itself failed: an error of the check, never a verdict."""


def op(*args):
    """One operation of a simulated process; args are str or bytes."""
    return b"\0".join(a if isinstance(a, bytes) else str(a).encode("utf-8", "surrogateescape")
                      for a in args)


class Spec:
    """A whole scenario. Everything that decides the execution is in here."""

    def __init__(self, seed=1):
        self.seed = seed
        self.heap = [0, 0, 0, 0]       # policy, gap, fill, shift
        self.heaplimit = 0
        self.clock = [1700000000 * 10**9, 1000, 20000]
        self.pid = 4242
        self.cwd = "/work"
        self.cap = -1
        self.outcap = -1
        self.outerr = 28
        self.outsig = 0
        self.model = [0, 0, 0]
        self.files = []                # [kind, path, bytes]; kind: file|rofile|wofile|dir|rodir|link (data: the target)
        self.faults = []               # [op, path, nth, act, arg, sticky]
        self.procs = []                # [[op bytes, ...], ...]
        self.env = []
        self.maxsteps = 2000000
        self.cpu = 20
        self.log = 0
        self.par = -1                  # >= 0: processes side by side; percent of switches
        self.ask = 0                   # record the model's questions and answers
        self.sched = []                # forced scheduling decisions
        self.tags = []                 # what else was done to the world (damage, a misbehaving party)

    def copy(self):
        s = Spec()
        s.__dict__.update({k: (list(v) if isinstance(v, list) else v)
                           for k, v in self.__dict__.items()})
        s.procs = [list(p) for p in self.procs]
        s.faults = [list(f) for f in self.faults]
        return s

    def wire(self):
        out = []

        def put(k, v):
            if not isinstance(v, bytes):
                v = str(v).encode("utf-8", "surrogateescape")
            kb = k.encode()
            out.append(bytes([len(kb)]) + kb + struct.pack("<I", len(v)) + v)

        put("seed", self.seed)
        put("heap", " ".join(map(str, self.heap)))
        if self.heaplimit:
            put("heaplimit", self.heaplimit)
        put("clock", " ".join(map(str, self.clock)))
        put("pid", self.pid)
        put("cwd", self.cwd)
        put("cap", self.cap)
        put("outcap", self.outcap)
        put("outerr", self.outerr)
        put("outsig", self.outsig)
        put("maxsteps", self.maxsteps)
        put("cpu", self.cpu)
        put("log", self.log)
        if self.ask:
            put("ask", 1)
        put("model", " ".join(map(str, self.model)))
        for kind, path, data in self.files:
            pb = path if isinstance(path, bytes) else path.encode("utf-8", "surrogateescape")
            put(kind, pb if kind in ("dir", "rodir") else pb + b"\0" + data)
        for e in self.env:
            put("env", e)
        for f in self.faults:
            g = list(f) + [0] * (6 - len(f))
            g[1] = str(g[1]).replace(" ", "%20")
            put("fault", " ".join(map(str, g)))
        if self.par >= 0:
            put("par", self.par)
            if self.sched:
                put("sched", bytes(self.sched))
        for p in self.procs:
            put("proc", "")
            for o in p:
                put("op", o)
        return b"".join(out)

    def to_json(self):
        d = dict(self.__dict__)
        d["files"] = [[k, p if isinstance(p, str) else ["b", base64.b64encode(p).decode()],
                       base64.b64encode(b or b"").decode()] for k, p, b in self.files]
        d["procs"] = [[base64.b64encode(o).decode() for o in p] for p in self.procs]
        return d

    @staticmethod
    def from_json(d):
        s = Spec()
        s.__dict__.update(d)
        s.files = [[k, p if isinstance(p, str) else base64.b64decode(p[1]), base64.b64decode(b)]
                   for k, p, b in d["files"]]
        s.procs = [[base64.b64decode(o) for o in p] for p in d["procs"]]
        return s


class Life:
    def __init__(self, how):
        self.how = how
        self.stdout = b""
        self.stderr = b""
        self.rawerr = b""
        self.steps = 0
        self.counts = {}

    @property
    def code(self):
        return int(self.how.split()[1]) if self.how.startswith("exit") else None

    @property
    def signal(self):
        return int(self.how.split()[1]) if self.how.startswith("signal") else None

    @property
    def hang(self):
        return self.how.startswith("hang")

    def describe(self):
        if self.signal:
            return SIGNAMES.get(self.signal, self.how)
        return self.how


class Result:
    def __init__(self, blob):
        self.lives = []
        self.fired = []
        self.files = {}
        self.dirs = []
        self.notes = []
        self.shell = []
        self.dumps = {}
        self.log = ""
        self.hash = ""
        self.simns = 0
        self.tree = []
        self.clock = []
        self.steplog, self.delaylog, self.stepallocs = [], [], []
        self.heap = [0, 0, 0]
        self.switches, self.schedhash, self.schedlog = 0, 0, []
        i = 0
        while i < len(blob):
            n = blob[i]
            k = blob[i + 1:i + 1 + n].decode()
            i += 1 + n
            (m,) = struct.unpack_from("<I", blob, i)
            i += 4
            v = blob[i:i + m]
            i += m
            if k == "life":
                self.lives.append(Life(v.decode()))
            elif k in ("stdout", "stderr", "rawerr"):
                setattr(self.lives[-1], k, v)
            elif k == "steps":
                self.lives[-1].steps = int(v)
            elif k == "counts":
                self.lives[-1].counts = {a.split()[0]: int(a.split()[1])
                                         for a in v.decode().splitlines()}
            elif k == "fired":
                self.fired.append(int(v))
            elif k == "node":
                p, rest = v.split(b"\0", 1)
                if rest[:1] == b"D":
                    self.dirs.append(p)
                else:
                    self.files[p] = rest[1:]
            elif k == "note":
                self.notes.append(v.decode("utf-8", "replace"))
            elif k == "shell":
                self.shell.append(v)
            elif k == "dump":
                p, rest = v.split(b"\0", 1)
                self.dumps[p.decode()] = self.dumps.get(p.decode(), b"") + rest
            elif k == "log":
                self.log = v.decode("utf-8", "replace")
            elif k == "hash":
                self.hash = v.decode()
            elif k == "simns":
                self.simns = int(v)
            elif k == "tree":
                self.tree = v.decode("utf-8", "surrogateescape").splitlines()
            elif k == "sched":
                self.switches, self.schedhash = (int(x) for x in v.split())
            elif k == "schedlog":
                self.schedlog = list(v)
            elif k == "steplog":
                self.steplog = [(int(a), n, int(x), int(y)) for a, n, x, y in
                                (t.split("\t") for t in v.decode().splitlines())]
            elif k == "stepallocs":
                self.stepallocs = [(n, int(x), int(y)) for n, x, y in
                                   (t.split("\t") for t in v.decode().splitlines())]
            elif k == "delaylog":
                self.delaylog = [(int(t[0]), t[1], t[2], t[3], t[4], int(t[5])) for t in
                                 (u.split("\t") for u in v.decode("utf-8", "replace").splitlines())]
            elif k == "clock":
                self.clock = [int(x) for x in v.split()]
            elif k == "heap":
                self.heap = [int(x) for x in v.split()]

    def digest(self):
        h = hashlib.sha256()
        if any(l.how == "hang cpu" for l in self.lives):
            # Where exactly the bound on the CPU time strikes is not determined by the seed.
            h.update("|".join(l.how for l in self.lives).encode())
            return h.hexdigest()
        for l in self.lives:
            h.update(l.how.encode() + b"|" + l.stdout + b"|" + l.stderr + b"|")
        for p in sorted(self.files):
            h.update(p + b"=" + self.files[p] + b"|")
        for k in sorted(self.dumps):
            h.update(k.encode() + b"=" + self.dumps[k] + b"|")
        h.update("\n".join(self.notes).encode())
        h.update(self.hash.encode())
        return h.hexdigest()


class Server:
    """A scenario server; every run is forked from its pristine image."""

    def __init__(self, exe):
        self.exe = exe
        env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "LOCPATH": build.locales(),
               "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:"
                               "handle_abort=0:detect_odr_violation=0:symbolize=1:"
                               "max_allocation_size_mb=2000:quarantine_size_mb=8",
               "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1:halt_on_error=1"}
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)
        self.runs = 0

    def run(self, spec):
        w = spec.wire() if isinstance(spec, Spec) else spec
        self.p.stdin.write(struct.pack("<I", len(w)) + w)
        self.p.stdin.flush()
        n = self._read(4)
        (m,) = struct.unpack("<I", n)
        if m == 0xFFFFFFFF:
            st = struct.unpack("<i", self._read(4))[0]
            raise SimError("scenario process failed with status %d" % st)
        self.runs += 1
        return Result(self._read(m))

    def _read(self, n):
        b = b""
        while len(b) < n:
            c = self.p.stdout.read(n - len(b))
            if not c:
                raise SimError("scenario server died")
            b += c
        return b

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


def save_replay(path, prop, spec, meta):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump({"property": prop, "spec": spec.to_json(), "meta": meta}, f, indent=1)
