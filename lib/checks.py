"""The checks: for each property a generator of seeded scenarios and the oracles that judge them."""
import re

import damage
import simc
import workload
from simc import Spec, op
from harness import Case

CHECKS = {}
ORACLES = {}

E_PERM, E_NOENT, E_INTR, E_IO, E_NOMEM, E_ACCES, E_EXIST, E_NOTDIR, E_ISDIR, E_INVAL, E_NFILE, \
    E_MFILE, E_FBIG, E_NOSPC, E_ROFS, E_PIPE, E_DQUOT = (1, 2, 4, 5, 12, 13, 17, 20, 21, 22, 23, 24,
                                                         27, 28, 30, 32, 122)


class Check:
    def __init__(self, prop, gen, quick, thorough, rule, variants=("plain",), level="exploration",
                 quick_s=75, thorough_s=780, assumptions=None, samples=None, reshrink=True):
        self.prop, self.gen = prop, gen
        self.quick, self.thorough = quick, thorough
        self.quick_s, self.thorough_s = quick_s, thorough_s
        self.rule = rule
        self.variants = list(variants)
        self.level = level
        self.assumptions = ASSUME + (assumptions or [])
        self.samples = samples or []
        self.reshrink = reshrink
        CHECKS[prop] = self


ASSUME = ["libpoppler, utf8proc, boost and libstdc++ behave as installed here",
          "the simulated disk follows POSIX for open, read, write, close, mkdir, stat, rename, unlink",
          "the semantic roles model is a simulated party; TensorFlow itself is not part of the run"]


def oracle(f):
    ORACLES[f.__name__] = f
    return f


def main(*args):
    return op("main", *args)


def world(ctx, pdf=None, path="/work/in.pdf", model=True):
    s = Spec(seed=ctx.rng.randrange(1, 2**31))
    if model:
        s.files += workload.model_files()
    if pdf is not None:
        s.files.append(["file", path, pdf])
    s.model = [0, ctx.rng.choice([0, 0, 40]), ctx.rng.randrange(1000)]
    return s


def b(p):
    return p if isinstance(p, bytes) else p.encode("utf-8", "surrogateescape")


def tail(x, n=300):
    return x[-n:].decode("utf-8", "replace")


def ended(life):
    """The violation of 'every run ends with an exit status', if any."""
    if life.hang:
        return "hang", "the run does not end (%s after %d steps)" % (life.how, life.steps)
    if life.signal:
        return "signal-" + life.describe(), "the run died of %s; %s" % (
            life.describe(), tail(life.rawerr, 1500))
    return None


def words_of(text):
    return text.decode("utf-8", "replace").split()


def text_words(out):
    return words_of(out)


def pick_doc(ctx, messy=0.4, long=0.0, **kw):
    if long and ctx.rng.random() < long:
        r = ctx.sub("long")
        return ctx.simple(features={"long"} | {x for x in ("type1", "bold", "twocol", "hyph", "footer", "heading")
                                               if r.random() < 0.3}, **kw)
    if ctx.rng.random() < 0.08:
        return ctx.odd(**kw)
    return messy_doc(ctx, **kw) if ctx.rng.random() < messy else ctx.simple(**kw)


def messy_doc(ctx, **kw):
    d = ctx.messy(**kw)
    if ctx.rng.random() < 0.25:
        damage.embed(ctx.rng, d)           # (what the font program says is part of the structure)
    return d


# == C01 ===========================================================================================

def c01(ctx):
    r = ctx.rng
    d = pick_doc(ctx, long=0.15)
    pdf = d.build()
    fmt = r.choice(["txt", "txt", "txt-extended"])
    form = r.choice(["file", "file", "file", "stale", "deep", "stdout", "dash"])
    out = {"file": "/work/out.txt", "stale": "/work/out.txt", "deep": "new/deeper/out.txt",
           "stdout": None, "dash": "-"}[form]
    full = {"file": "/work/out.txt", "stale": "/work/out.txt", "deep": "/work/new/deeper/out.txt",
            "stdout": None, "dash": None}[form]
    opts = ["--format", fmt]
    if r.random() < 0.2 and full:
        opts += ["--print-running-times"]
    vis = r.random() < 0.12
    if vis:
        opts += ["--visualization-path", "/work/vis.pdf", "--visualize-words"]
    base = world(ctx, pdf)
    if form == "stale":
        base.files.append(["file", full, b"stale content of an earlier run\n" * r.choice([1, 40, 900])])
    base.procs = [[main(*opts, "/work/in.pdf", *([out] if out else []))]]
    ref = ctx.run(base)
    text = ref.files.get(b(full), b"") if full else ref.lives[0].stdout
    nw = max(1, ref.lives[0].counts.get("write" if full else "out", 1))

    def case(s, **kw):
        return Case("delivered", full=full, sig=bool(s.outsig), **kw).add("ref", base).add("run", s)

    truth = d.truth() if d.style else None
    yield Case("delivered", full=full, sig=False, clean=True,
               truth=truth if fmt == "txt" else None).add("ref", base).add("run", base)
    for _ in range(14 if ctx.tier == "quick" else 30):
        s = base.copy()
        k = r.random()
        if full:
            if k < 0.3:
                # The disk fills up: anywhere, at the very ends, or at a buffer boundary.
                n = len(text)
                s.cap = max(0, r.choice([r.randrange(n + 1), n - 1, n - r.randrange(1, 20), 0,
                                         (r.randrange(n + 1) // 4096) * 4096,
                                         (r.randrange(n + 1) // 8191) * 8191]))
            elif k < 0.55:
                s.faults.append(["write", full, r.randint(1, nw + 1), "err",
                                 r.choice([E_IO, E_NOSPC, E_DQUOT, E_FBIG]), r.randint(0, 1)])
                if r.random() < 0.4:
                    s.faults.append(["write", full, r.randint(1, nw), "short", r.randint(1, 200), 0])
            elif k < 0.65:
                s.faults.append(["open", full, 1, "err",
                                 r.choice([E_ACCES, E_MFILE, E_NOSPC, E_ROFS, E_IO]), 1])
            elif k < 0.75:
                s.faults.append(["close", full, r.choice([1, 1, 1, 2]), "err",
                                 r.choice([E_IO, E_DQUOT, E_NOSPC]), 0])
            elif k < 0.85 and form == "deep":
                s.faults.append(["mkdir", r.choice(["*", "/work/new", "/work/new/deeper"]), 1, "err",
                                 r.choice([E_ACCES, E_NOSPC, E_ROFS, E_IO]), 1])
            elif k < 0.9:
                s.files = [f for f in s.files if f[1] != full]
                if form == "deep":
                    how = r.choice(["parentfile", "rodir", "isdir"])
                else:
                    how = r.choice(["isdir", "rofile"])
                if how == "parentfile":
                    s.files.append(["file", "/work/new", b"x"])
                elif how == "rodir":
                    s.files.append(["rodir", "/work/new", b""])
                elif how == "isdir":
                    if form == "deep":
                        s.files += [["dir", "/work/new", b""], ["dir", "/work/new/deeper", b""]]
                    s.files.append(["dir", full, b""])
                else:
                    s.files.append(["rofile", full, b"precious"])
            else:
                # Several at once.
                s.faults.append(["write", full, 0, "short", r.randint(1, 3000), 1])
                s.faults.append([r.choice(["write", "close"]), full, r.randint(1, nw + 2), "err", E_IO,
                                 r.randint(0, 1)])
        else:
            if k < 0.6:
                n = len(text)
                s.outcap = max(0, r.choice([r.randrange(n + 1), n - 1, 0, 1,
                                            (r.randrange(n + 1) // 4096) * 4096]))
                s.outerr = r.choice([E_NOSPC, E_PIPE, E_IO])
                s.outsig = int(s.outerr == E_PIPE and r.random() < 0.4)
            else:
                s.faults.append(["out", "<stdout>", r.randint(1, nw + 1), "err",
                                 r.choice([E_IO, E_NOSPC, E_PIPE]), r.randint(0, 1)])
                if r.random() < 0.3:
                    s.faults.append(["out", "<stdout>", r.randint(1, nw), "short", r.randint(1, 100), 0])
        yield case(s)


@oracle
def delivered(res, case):
    p = case.params
    ref, run = res["ref"], res["run"]
    rl, l = ref.lives[0], run.lives[0]
    full = p["full"]
    if rl.code != 0:
        return [("fault-free run failed", "without any fault: %s; %s" % (rl.how, tail(rl.rawerr)))]
    if l.signal == 13 and p["sig"]:
        return []
    e = ended(l)
    if e:
        return [e]
    want = ref.files.get(b(full)) if full else rl.stdout
    got = run.files.get(b(full)) if full else l.stdout
    if p.get("truth") is not None:
        a, w = sorted(words_of(want)), sorted(p["truth"])
        if a != w:
            miss = sorted(set(w) - set(a))[:8]
            extra = sorted(set(a) - set(w))[:8]
            return [("fault-free text wrong", "missing %s, not in the document %s" % (miss, extra))]
    if full and want is None:
        return [("fault-free run wrote nothing", "no file %s" % full)]
    if l.code == 0:
        if got != want:
            n = len(got) if got is not None else None
            return [("exit 0 without the complete text",
                     "exit status 0, but %s has %s of %d bytes (%s); standard error: '%s'; faults %s "
                     "cap=%d outcap=%d" % (full or "stdout", n, len(want),
                                           "same prefix" if got and want.startswith(got) else "different",
                                           tail(l.stderr, 100), case.specs["run"].faults,
                                           case.specs["run"].cap, case.specs["run"].outcap))]
    elif not l.stderr.strip():
        return [("failure without a message", "exit status %d and nothing on standard error; faults %s "
                 "cap=%d outcap=%d" % (l.code, case.specs["run"].faults, case.specs["run"].cap,
                                       case.specs["run"].outcap))]
    return []


Check("C01", c01, 160, 4000,
      "Seeded documents, formats and destinations; each run gets failures of the destination placed "
      "inside its own writes (capacity after any byte, failing open/mkdir/write/close, closed or full "
      "standard output), compared with the fault-free run of the same scenario.",
      level="fault_enumeration")


# == C02 ===========================================================================================

def padded(r, pdf):
    """The same PDF with up to some ten thousand unused bytes in it."""
    at = pdf.rfind(b"startxref")
    return pdf[:at] + b"%" * r.choice([0, 10, 3000, 9000, 40000, 70000]) + b"\n" + pdf[at:]


def unreadable(ctx, s, pdf):
    """Makes /work/in.pdf unreadable in one of many ways; returns the kind."""
    r = ctx.rng
    kind = r.choice(["missing", "missing", "dir", "forbidden", "empty", "random", "text", "header",
                     "junkafter", "locked", "locked", "handler", "openerr", "openerr", "readerr",
                     "readeof", "missingdir", "parentfile", "nearly", "badroot"])
    p = "/work/in.pdf"

    def put(data, k="file"):
        s.files.append([k, p, data])

    if kind == "dir":
        s.files.append(["dir", p, b""])
    elif kind == "forbidden":
        put(pdf, "wofile")
    elif kind == "empty":
        put(b"")
    elif kind == "random":
        put(bytes(r.randrange(256) for _ in range(r.choice([1, 10, 200, 5000]))))
    elif kind == "text":
        put(b"This is not a PDF, just some text.\n" * r.choice([1, 30, 500]))
    elif kind == "header":
        put(b"%PDF-1." + bytes([48 + r.randrange(8)]) + b"\n")
    elif kind == "junkafter":
        put(b"%PDF-1.4\n" + bytes(r.randrange(256) for _ in range(r.choice([20, 3000]))))
    elif kind in ("locked", "handler"):
        hx = "".join("%02x" % r.randrange(256) for _ in range(32))
        if kind == "locked":
            enc = "/Encrypt << /Filter /Standard /V %s /O <%s> /U <%s> /P -4 >> /ID [<%s> <%s>] " % (
                r.choice(["1 /R 2", "2 /R 3 /Length 128", "1 /R 3"]), hx, hx[::-1], hx[:32], hx[:32])
        else:
            enc = "/Encrypt << /Filter /NoSuchHandler /V 1 >> /ID [<%s> <%s>] " % (hx[:32], hx[:32])
        d = ctx.simple(pages=1, features=set())
        d.trailer_extra = enc.encode()
        put(d.build())
    elif kind == "openerr":
        put(pdf)
        s.faults.append(["open", p, 1, "err", r.choice([E_IO, E_MFILE, E_NFILE, E_ACCES, E_NOMEM]), 1])
    elif kind == "readerr":
        # From the first byte on, or somewhere in the middle.
        pdf = padded(r, pdf)
        put(pdf)
        n = 1
        if r.random() < 0.7:
            t = s.copy()
            t.procs = [[main(p, "-")]]
            t.faults = [["read", p, 0, "delay", 0, 1]]
            n = r.randint(1, max(1, ctx.run(t).fired[0]))
        s.faults.append(["read", p, n, "err", E_IO, 1])
    elif kind == "readeof":
        put(pdf)
        s.faults.append(["read", p, 1, "eof", 0, 1])
    elif kind == "parentfile":
        s.files.append(["file", "/work/sub", b"a file"])
        p = "/work/sub/in.pdf"
    elif kind == "missingdir":
        p = "/work/no/such/dir/in.pdf"
    elif kind == "nearly":
        # A PDF without any object that could be a catalog.
        put(b"%PDF-1.5\n1 0 obj\n<< /Type /Font >>\nendobj\ntrailer\n<< /Size 2 >>\nstartxref\n0\n%%EOF\n")
    elif kind == "badroot":
        # The catalog is none: not there, or something else.
        x = r.choice([b"17", b"null", b"[1 0 R]", b"(catalog)", b"/Catalog", b"1 0 R", b"true"])
        body = b"%PDF-1.4\n1 0 obj\n" + x + b"\nendobj\n"
        off = len(body)
        n = r.choice([1, 1, 2, 9])
        put(body + b"xref\n0 2\n0000000000 65535 f \n0000000009 00000 n \ntrailer\n<< /Size 2 /Root %d 0 R >>\n"
            b"startxref\n%d\n%%%%EOF\n" % (n, off))
    return kind, p


def some_options(r, vis=0.25):
    o = []
    if r.random() < 0.5:
        o += ["--format", r.choice(["txt", "txt-extended"])]
    if r.random() < 0.3:
        o += ["--print-running-times"]
    if r.random() < vis:
        o += ["--visualization-path", "/work/vis.pdf"]
        for k in VISOPTS:
            if r.random() < 0.3:
                o.append("--visualize-" + k)
    for k in SKIPS:
        if r.random() < 0.05:
            o.append("--skip-" + k)
    return o


VISOPTS = ["characters", "graphics", "figures", "shapes", "words", "text-lines", "text-blocks",
           "segments", "segment-cuts", "reading-order", "reading-order-cuts"]
SKIPS = ["embedded-font-files-parsing", "glyphs-statistics-calculation", "diacritic-marks-merging",
         "words-detection", "words-statistics-calculation", "page-segmentation",
         "text-lines-detection", "sub-super-scripts-detection",
         "text-lines-statistics-calculation", "text-blocks-detection", "reading-order-detection",
         "semantic-roles-prediction", "words-dehyphenation"]


def c02(ctx):
    r = ctx.rng
    pdf = ctx.simple(pages=1).build()
    for _ in range(12):
        s = world(ctx)
        s.maxsteps = 400000
        kind, p = unreadable(ctx, s, pdf)
        form = r.choice(["existing", "existing", "absent", "deep", "stdout", "dash", "same"])
        out = {"existing": "/work/out.txt", "absent": "/work/new.txt", "deep": "a/b/c.txt",
               "stdout": None, "dash": "-", "same": "/work/out.txt"}[form]
        s.files.append(["file", "/work/out.txt", b"the result of an earlier run\n"])
        if r.random() < 0.5:
            s.files.append(["file", "/work/vis.pdf", b"%PDF-1.4 an earlier visualization\n"])
        opts = some_options(r)
        s.procs = [[main(*opts, p, *([out] if out else []))]]
        ctx.probe("unreadable:" + kind)
        yield Case("refused", kind=kind).add("run", s)


@oracle
def refused(res, case):
    run = res["run"]
    l = run.lives[0]
    e = ended(l)
    if e:
        return [e]
    k = case.params["kind"]
    if k == "readerr" and not any(run.fired):
        return []
    if l.code == 0:
        return [("exit 0 for an unreadable PDF", "%s: exit status 0, stdout %r" % (k, l.stdout[:200]))]
    if not l.stderr.strip():
        return [("unreadable PDF without a message", "%s: exit status %d, nothing on standard error" % (
            k, l.code))]
    if l.stdout:
        return [("text from an unreadable PDF", "%s: %r" % (k, l.stdout[:200]))]
    if run.files or run.dirs:
        return [("unreadable PDF, but files changed", "%s: exit status %d; changed: %s" % (
            k, l.code, sorted(run.files) + sorted(run.dirs)))]
    have = sorted(n for n in run.tree if n.startswith("/work/") and n != "/work/")
    want = sorted(f[1] + ("/" if f[0] == "dir" else "") for f in case.specs["run"].files
                  if f[1].startswith("/work/"))
    if have != want:
        return [("unreadable PDF, but files vanished or appeared", "%s: %s instead of %s" % (
            k, have, want))]
    return []


Check("C02", c02, 400, 8000,
      "Seeded ways of making the input unreadable, option sets and states of the output path; files "
      "before and after are compared.", level="fault_enumeration")


# == C03 ===========================================================================================

NASTY = ["a b", "x;y", "$(touch pwned)", "`id`", "it's", 'say "hi"', "tab\there", "new\nline", "*", "?",
         "[ab]", "~", "#x", "a&b", "a|b", "a>b", "a<b", "\\back\\slash", "%s%n", "-p", "--", "..x", "...",
         "ünïcödé", "日本", "$HOME", "${PATH}", "a  b", " lead", "trail ", "!hist", "{a,b}", "a=b", ":",
         "(par)", "é", "x" * 120, "a'b\"c", ";rm -r .", "a\\", "$", "'", '"', "\x01", "0", "p q/r s"]


ROOTDIRS = ("/", "/work", "/home", "/tmp", "/var", "/sim", "/proc", "/dev", "/etc", "/usr")


def nasty_path(r, base="/work"):
    n = r.randint(0, 3)
    comps = [r.choice(NASTY) for _ in range(n)]
    leaf = r.choice(["out.txt", "out.txt", r.choice(NASTY).replace("/", "_"), "o u t.txt"])
    rel = r.random() < 0.5
    path = "/".join(comps + [leaf])
    k = r.random()
    if k < 0.1:
        path = "./" + path
    elif k < 0.18 and comps:
        path = comps[0] + "/../" + path
    elif k < 0.25:
        path = path.replace("/", "//")
    elif k < 0.3:
        return "/" + leaf.strip("/") if leaf not in (".", "..") else "/out.txt"
    if rel:
        if path[:1] == "-":
            path = "./" + path
        return path
    return base + "/" + path


def norm(path, cwd="/work"):
    import posixpath
    p = path if path.startswith("/") else cwd + "/" + path
    p = posixpath.normpath(p)
    return "/" + p.lstrip("/")


def prefixes(path, cwd="/work"):
    """Every directory that leads to the path, taken literally."""
    p = path if path.startswith("/") else cwd + "/" + path
    out = set()
    parts = p.split("/")
    for i in range(1, len(parts)):
        out.add(norm("/".join(parts[:i]) or "/"))
    return out


def lead(path, cwd, files):
    """Where the path leads to, and every directory on the way, as the operating system walks it - with
    the directories that do not exist yet made on the way."""
    links = {f[1]: f[2].decode() for f in files if f[0] == "link"}
    todo = [c for c in ((path if path.startswith("/") else cwd + "/" + path).split("/")) if c]
    cur, dirs, n = "", {"/"}, 0
    while todo:
        c = todo.pop(0)
        if c == ".":
            continue
        if c == "..":
            cur = cur.rpartition("/")[0]
            continue
        if cur + "/" + c in links and n < 40:
            n += 1
            t = links[cur + "/" + c]
            if t.startswith("/"):
                cur = ""
            todo = [x for x in t.split("/") if x] + todo
            continue
        cur += "/" + c
        if todo:
            dirs.add(cur)
    return cur or "/", dirs


def linked_path(r, s):
    """A path that leads over a symbolic link."""
    k = r.random()
    base = r.choice(["/work/", ""]) if s.cwd == "/work" else "/work/"
    if k < 0.7:
        s.files += [["dir", "/home/deep", b""], ["dir", "/home/deep/er", b""],
                    ["link", "/work/lnk", r.choice([b"/home/deep/er", b"../home/deep/er", b"../home/./deep/../deep/er"])]]
        return base + "lnk" + r.choice(["/", "//", "/./"]) + r.choice(
            ["out.txt", "../out.txt", "../new/out.txt", "n e w/out.txt", "../../out.txt", "../x;y/../out.txt"])
    s.files.append(["link", "/work/o.lnk", r.choice([b"/home/real.txt", b"../home/real.txt"])])
    if r.random() < 0.5:
        s.files.append(["file", "/home/real.txt", b"old content"])
    return base + "o.lnk"


LITTER = [".tmp", ".lock", "~", ".bak", ".part", ".new", ".old", ".orig", ".log", ".txt", ".swp", ".1"]


def c03(ctx):
    r = ctx.rng
    pdf = pick_doc(ctx, pages=1).build()
    fmt = r.choice(["txt", "txt-extended"])
    ref = world(ctx, pdf)
    ref.procs = [[main("--format", fmt, "/work/in.pdf", "-")]]
    for _ in range(14):
        s = ref.copy()
        s.cwd = r.choice(["/work", "/work", "/home", "/work/a b"])
        if s.cwd == "/work/a b":
            s.files.append(["dir", "/work/a b", b""])
        linked = r.random() < 0.3
        out = linked_path(r, s) if linked else nasty_path(r)
        src = "/work/in.pdf"
        if r.random() < 0.1:
            s.files.append(["link", "/home/in.lnk", b"../work/in.pdf"])
            src = "/home/in.lnk"
        opts = ["--format", fmt]
        vis = None
        if r.random() < 0.3:
            vis = r.choice(["/work/", "", "/home/"]) + r.choice(NASTY).replace("/", "_") + ".pdf"
            if vis.startswith("-"):
                vis = "./" + vis
            opts += ["--visualization-path=" + vis]
            if r.random() < 0.7:
                opts += ["--visualize-" + r.choice(VISOPTS)]
        dst, dirs = lead(out, s.cwd, s.files)
        vdst, vdirs = lead(vis, s.cwd, s.files) if vis else (None, set())
        if dst in ("/work", "/work/in.pdf", "/") or (not linked and any(f[1] == dst for f in s.files)):
            continue
        if vis and vdst == dst:
            continue
        # Bystanders: what a path split at blanks or at shell characters would hit.
        ok = dirs | {dst} | ({vdst} if vis else set()) | {f[1] for f in s.files}
        for frag in re.split(r"[ ;|&$`<>()'\"\\*?\n\t]+", out):
            f = norm(frag, s.cwd) if frag else ""
            if f and f not in ok and f not in ROOTDIRS and not any(x[1] == f or x[1].startswith(f + "/") for x in s.files) \
                    and r.random() < 0.5 and norm(f + "/..") in ("/work", "/home", "/"):
                s.files.append(["file", f, b"bystander " + b(frag)])
        for name in ("/work/out", "/work/notes.txt", "/home/keep", "/work/out.txt.bak", "/work/out.txt~",
                     "/work/out.txt.tmp", "/work/out.txt", "/home/out.txt"):
            if name not in ok:
                s.files.append(["file", name, b"bystander"])
        # ... and what lies beside the outputs under the names that temporary files, backups and locks would get.
        there = {"/work", "/home"} | {f[1] for f in s.files if f[0] == "dir"}
        for q in (dst, vdst, "/work/in.pdf"):
            if not q or "/" not in q or (q.rsplit("/", 1)[0] or "/") not in there:
                continue
            up, base = q.rsplit("/", 1)
            for name in (q + x for x in r.sample(LITTER, 4)):
                if name not in ok and not any(f[1] == name for f in s.files) and len(b(base)) < 200:
                    s.files.append(["file", name, b"bystander"])
            name = up + "/." + base + r.choice(["", ".swp", ".tmp", ".lock"])
            if name not in ok and not any(f[1] == name for f in s.files) and len(b(base)) < 200:
                s.files.append(["file", name, b"bystander"])
        pre = sorted(dirs - {"/", "/work", "/home", "/tmp", "/var"} -
                     {f[1] for f in s.files}, key=len)
        state = r.random()
        if state < 0.3:
            for d in pre[:r.randint(0, len(pre))]:
                s.files.append(["dir", d, b""])
        elif state < 0.5 and pre:
            d = r.choice(pre)
            if len(b(d)) < 400 and "\n" not in d and "\t" not in d:
                s.faults.append(["mkdir", d, 1, "err", E_EXIST, 0])
                ctx.probe("raced mkdir")
        if r.random() < 0.3 and not any(f[1] == dst for f in s.files):
            s.files.append(["file", dst, b"old content " * r.choice([1, 900])]) \
                if all(d in {f[1] for f in s.files} for d in pre) else None
        s.procs = [[main(*opts, src, out)]]
        yield Case("only_outputs", out=out, vis=vis, dst=dst, vdst=vdst, dirs=sorted(dirs | vdirs)).add(
            "ref", ref).add("run", s)


@oracle
def only_outputs(res, case):
    p = case.params
    ref, run = res["ref"], res["run"]
    l = run.lives[0]
    e = ended(l)
    if e:
        return [e]
    out, vis = b(p["dst"]), b(p["vdst"]) if p["vis"] else None
    allowed = {out} | ({vis} if vis else set())
    dirs = {b(d) for d in p["dirs"]}
    bad = sorted(set(run.files) - allowed)
    if bad:
        return [("a file that was not asked for was written", "output '%s': touched %s" % (p["out"], bad))]
    bad = sorted(set(run.dirs) - dirs)
    if bad:
        return [("a directory that was not asked for was made", "output '%s': made %s" % (p["out"], bad))]
    have = set(run.tree)
    lost = sorted(f[1] for f in case.specs["run"].files
                  if f[1] + ("/" if f[0] in ("dir", "rodir") else "") not in have and
                  not any(c in f[1] for c in "\n"))
    if lost:
        return [("a file was removed", "output '%s': lost %s" % (p["out"], lost))]
    for n in run.notes:
        if "shell" in n:
            return [("a path was handed to a shell", "output '%s': %s" % (p["out"], n))]
    if l.code != 0:
        return [("a legal output path was refused", "output '%s': %s; %s" % (
            p["out"], l.how, tail(l.stderr)))]
    if run.files.get(out) != ref.lives[0].stdout:
        got = run.files.get(out)
        return [("the output is not at its path", "output '%s' has %s bytes instead of %d" % (
            p["out"], len(got) if got is not None else None, len(ref.lives[0].stdout)))]
    if vis and not run.files.get(vis, b"").startswith(b"%PDF"):
        return [("the visualization is not at its path", "visualization '%s' missing" % p["vis"])]
    return []


Check("C03", c03, 160, 4000,
      "Seeded output and visualization paths over an alphabet of shell characters, quotes, blanks, "
      "non-ASCII and relative forms, with bystander files where a split path would land, existing or "
      "missing directories and directories created by somebody else at the moment of the mkdir.")


# == C04 ===========================================================================================

def crash_fault(r, counts, path="*", torn=True):
    ops = [(k, n) for k, n in counts.items() if k in ("open", "read", "write", "close", "mkdir", "stat",
                                                      "out", "seek", "modelload", "modelrun")]
    # Every kind of event with the same chance, so that rare ones are not drowned by reads.
    k, n = r.choice(ops)
    if k in ("write", "out") and torn and r.random() < 0.5:
        return [k, path, r.randint(1, n), "torn", r.randrange(1, 4000), 0]
    return [k, path, r.randint(1, n), "crash", 0, 0]


def c04(ctx):
    r = ctx.rng
    pdf = pick_doc(ctx).build()
    fmt = r.choice(["txt", "txt-extended"])
    form = r.choice(["file", "stale", "deep", "stdout"])
    out = {"file": "/work/out.txt", "stale": "/work/out.txt", "deep": "n1/n2/out.txt", "stdout": "-"}[form]
    opts = ["--format", fmt]
    vis = r.random() < 0.35
    if vis:
        opts += ["--visualization-path", "/work/vis.pdf"] + \
            ["--visualize-" + k for k in VISOPTS if r.random() < 0.4]
    base = world(ctx, pdf)
    if form == "stale":
        base.files.append(["file", out, b"longer than the new result " * 2000])
    if vis and r.random() < 0.5:
        base.files.append(["file", "/work/vis.pdf", b"stale visualization " * 9000])
    m = main(*opts, "/work/in.pdf", out)
    base.procs = [[m]]
    ref = ctx.run(base)
    counts = ref.lives[0].counts
    want = None if out == "-" else b(norm(out))
    for _ in range(10):
        once = base.copy()
        n = r.choice([1, 1, 1, 2, 3])
        for _k in range(n):
            once.faults.append(crash_fault(r, counts))
        again = once.copy()
        again.procs = [[m]] * (n + 1)
        yield Case("repeatable", out=out, vis=vis).add("ref", base).add("once", once).add("again", again)
    # Killed inside the writing of the results, at every write in turn.
    for path in ([out] if out != "-" else []) + (["/work/vis.pdf"] if vis else []):
        full = norm(path)
        for nth in range(1, 5):
            once = base.copy()
            once.faults.append([r.choice(["write", "write", "open", "close"]), full, nth,
                                r.choice(["crash", "torn"]), r.randrange(1, 6000), 0])
            if once.faults[0][0] != "write":
                once.faults[0][3] = "crash"
            again = once.copy()
            again.procs = [[m], [m]]
            yield Case("repeatable", out=out, vis=vis).add("ref", base).add("once", once).add(
                "again", again)
    del want


@oracle
def repeatable(res, case):
    p = case.params
    ref, once, again = res["ref"], res["once"], res["again"]
    if ref.lives[0].code != 0:
        return [("fault-free run failed", "%s; %s" % (ref.lives[0].how, tail(ref.lives[0].rawerr)))]
    out = None if p["out"] == "-" else b(norm(p["out"]))
    allowed = ({out} if out else set()) | ({b"/work/vis.pdf"} if p["vis"] else set())
    alldirs = {b(d) for d in prefixes(p["out"])} if out else set()
    bad = sorted(set(once.files) - allowed) + sorted(set(once.dirs) - alldirs)
    if bad:
        return [("a killed run left something behind", "%s; fault %s" % (bad, case.specs["once"].faults))]
    last = again.lives[-1]
    how = "after a run killed by %s" % case.specs["again"].faults
    e = ended(last)
    if e:
        return [("repeat: " + e[0], how + ": " + e[1])]
    if last.how != ref.lives[0].how:
        return [("the repeated run ends differently", "%s: %s instead of %s; %s" % (
            how, last.how, ref.lives[0].how, tail(last.stderr)))]
    if last.stdout != ref.lives[0].stdout or last.stderr != ref.lives[0].stderr:
        return [("the repeated run prints something else", how)]
    if set(again.files) - allowed or set(again.dirs) - alldirs:
        return [("something was left behind", "%s: %s" % (how, sorted(set(again.files) - allowed)))]
    for f in allowed:
        a, w = again.files.get(f), ref.files.get(f)
        if f.endswith(b"vis.pdf"):
            a, w = pdf_skeleton(a), pdf_skeleton(w)
        if a != w:
            return [("the repeated run writes something else", "%s: %s has %s bytes instead of %s" % (
                how, f.decode(), len(a) if a is not None else None, len(w) if w is not None else None))]
    return []


def pdf_skeleton(data):
    """A visualization without what legitimately differs between runs: dates, random ids."""
    if data is None:
        return None
    if b"/Encrypt " in data:
        # Dates and random ids are encrypted, too.
        data = re.sub(rb"stream\r?\n.*?endstream", b"stream", data, flags=re.S)
        data = re.sub(rb"\((?:\\.|[^\\()])*\)", b"()", data, flags=re.S)
        data = re.sub(rb"<[0-9a-fA-F]+>", b"<>", data)
    data = re.sub(rb"D:\d{14}[^)\s]*", b"D:", data)
    data = re.sub(rb"/ID\s*\[.*?(?=/Root|/Info|/Size|/Prev|/Type|/W\b|/Index|/Length|>>\r?\n)", b"/ID ", data,
                  flags=re.S)
    # The labels of cuts are random ids; a proportional font makes their position random, too.
    data = re.sub(rb"/Contents <feff[0-9a-f]{12}>", b"/Contents", data)
    data = re.sub(rb"-?[\d.]+ -[\d.]+ Td\n\([0-9A-Za-z]{3}\) Tj", b"Tj", data)
    data = re.sub(rb"/Length \d+|\d{10} \d{5} [nf]|startxref\s+\d+", b"", data)
    return data


Check("C04", c04, 60, 1500,
      "Seeded documents and destinations; the process is killed at seeded I/O events (each kind of event "
      "with equal chance, also inside a write and inside each output), once to three times in a row; then "
      "the same command runs again and is compared with the uninterrupted run.",
      level="fault_enumeration")


# == C05 ===========================================================================================

def c05(ctx):
    r = ctx.rng
    pdf = pick_doc(ctx, messy=0.5).build() if r.random() < 0.93 else r.choice(workload.real_docs())[1]
    big = r.random() < 0.15
    fmt = r.choice(["txt", "txt-extended"])
    out = r.choice(["/work/out.txt", "/work/out.txt", "-", "d1/out.txt"])
    base = world(ctx, pdf)
    if big:
        base.files = [f for f in base.files if not f[1].startswith("/sim")] + workload.model_files(False)
    vis = r.random() < 0.2
    opts = ["--format", fmt] + (["--visualization-path", "/work/vis.pdf", "--visualize-words"]
                                if vis else [])
    base.procs = [[main(*opts, "/work/in.pdf", out),
                   op("doc", 0, "/work/in.pdf", ""), op("dump", 0, "d")]]
    base.maxsteps = 3000000
    voc, rol = workload.MODELDIR + "/bpe-vocab.tsv", workload.MODELDIR + "/roles-vocab.tsv"
    for _ in range(7):
        s = base.copy()
        pool = []
        k = r.choice([1, 2, 7, 16, 64, 255, 1000])
        pool.append(["read", "/work/in.pdf", 0 if k > 15 else r.randint(1, 40), "short", k, int(k > 15)])
        if k <= 15:
            for j in range(r.randint(2, 12)):
                pool[-1:] += [["read", "/work/in.pdf", r.randint(1, 90), "short", r.randint(1, 9), 0]]
        pool.append(["read", "/work/in.pdf", r.randint(1, 60), "short", r.randint(1, 30), 0])
        pool.append(["read", voc, 0, "short", r.choice([1, 3, 17]), 1])
        pool.append(["read", rol, 0, "short", r.choice([1, 3, 17]), 1])
        pool.append(["read", workload.MODELDIR + "/saved_model.pb", 0, "short", 1, 1])
        if out != "-":
            o = norm(out)
            pool.append(["write", o, 0, "short", r.choice([1, 10, 500]), 1])
            pool.append(["write", o, r.randint(1, 4), "err", E_INTR, 0])
            pool.append(["write", o, r.randint(1, 4), "delay", r.choice([10**9, 10**12]), 0])
        else:
            pool.append(["out", "<stdout>", 0, "short", r.choice([1, 10, 500]), 1])
            pool.append(["out", "<stdout>", r.randint(1, 9), "delay", 10**10, 0])
        if vis:
            pool.append(["write", "/work/vis.pdf", 0, "short", r.choice([1, 100, 900]), 1])
        pool.append(["read", "*", r.randint(1, 80), "delay", r.choice([10**8, 10**11]), 0])
        pool.append(["open", "*", r.randint(1, 4), "delay", 10**10, 0])
        pool.append(["clock", "wall", r.randint(1, 2000), "jump", r.choice([-1, 1]) * 10**13, 0])
        r.shuffle(pool)
        s.faults = pool[:r.randint(1, 4)]
        yield Case("same_result", out=out, what="piecemeal I/O").add("ref", base).add("run", s)


@oracle
def same_result(res, case):
    """Everything observable equals the reference run."""
    ref, run = res["ref"], res["run"]
    what = case.params["what"]
    for a, c in zip(ref.lives, run.lives):
        e = ended(c)
        if e and not ended(a):
            return [("%s: %s" % (what, e[0]), "faults %s: %s" % (case.specs["run"].faults, e[1]))]
        if a.how != c.how:
            return [(what + " changes the exit status", "%s instead of %s; %s; faults %s" % (
                c.how, a.how, tail(c.stderr), case.specs["run"].faults))]
        if a.stdout != c.stdout:
            return [(what + " changes standard output", diff(a.stdout, c.stdout) + "; faults %s" %
                     case.specs["run"].faults)]
    for f in sorted(set(ref.files) | set(run.files)):
        a, c = ref.files.get(f), run.files.get(f)
        if f.endswith(b"vis.pdf"):
            a, c = pdf_skeleton(a), pdf_skeleton(c)
        if a != c:
            return [(what + " changes the output", "%s: %s; faults %s" % (
                f.decode("utf-8", "replace"), diff(a, c), case.specs["run"].faults))]
    for k in ref.dumps:
        if ref.dumps[k] != run.dumps.get(k):
            return [(what + " changes the detected structure", "%s; faults %s" % (
                diff(ref.dumps[k], run.dumps.get(k)), case.specs["run"].faults))]
    return []


def diff(a, c):
    if a is None or c is None:
        return "%s instead of %s" % ("nothing" if c is None else "%d bytes" % len(c),
                                     "nothing" if a is None else "%d bytes" % len(a))
    la, lc = a.split(b"\n"), c.split(b"\n")
    for i, (x, y) in enumerate(zip(la, lc)):
        if x != y:
            j = 0
            while j < min(len(x), len(y)) and x[j] == y[j]:
                j += 1
            j = max(0, j - 60)
            return "line %d: '%s' instead of '%s'" % (
                i + 1, y[j:j + 160].decode("utf-8", "replace"), x[j:j + 160].decode("utf-8", "replace"))
    return "%d bytes instead of %d" % (len(c), len(a))


Check("C05", c05, 70, 1500,
      "Seeded documents; reads and writes of PDF, vocabularies, model and outputs are cut short, "
      "interrupted and delayed in seeded places; everything observable must equal the undisturbed run.")


# == C06 ===========================================================================================

LOCALES = ["LC_ALL=de_DE.UTF-8", "LC_ALL=tr_TR.UTF-8", "LC_ALL=fr_FR.ISO-8859-1", "LC_ALL=hi_IN.UTF-8",
           "LC_NUMERIC=de_DE.UTF-8", "LC_CTYPE=tr_TR.UTF-8", "LANG=fr_FR.ISO-8859-1", "LC_ALL=C.UTF-8"]
ENVS = ["LANG=de_DE.UTF-8", "LC_ALL=C", "LC_ALL=xx_YY.UTF-8", "LC_NUMERIC=fr_FR", "TZ=Asia/Tokyo",
        "TZ=Nowhere/Else", "HOME=/nonexistent", "LANG=", "POSIXLY_CORRECT=1", "TMPDIR=/var",
        "LC_ALL=POSIX", "COLUMNS=10", "LANGUAGE=tr", "MALLOC_ARENA_MAX=1", "PATH=", "USER=somebody"]


def perturb(r, s):
    s.heap = [r.randrange(5), r.choice([0, 1, 3, 40]), r.randrange(7), r.randrange(4096)]
    s.clock = [r.choice([0, 10**9, 86399 * 10**9, 951782400 * 10**9, 1709164800 * 10**9,
                         4102444800 * 10**9, r.randrange(2 * 10**18)]),
               r.choice([0, 1, 1000, 10**6]), r.choice([0, 1000, 10**7])]
    s.pid = r.choice([1, 2, 32767, 65536, r.randrange(1, 4 * 10**6)])
    s.seed = r.randrange(1, 2**31)
    s.env = r.sample(ENVS, r.randint(0, 5))
    if r.random() < 0.6:
        s.env = [e for e in s.env if not e.startswith("LC_ALL")] + [r.choice(LOCALES)]
    s.cwd = r.choice(["/work", "/", "/home", "/tmp"])


def c06(ctx):
    r = ctx.rng
    k = r.random()
    if k < 0.06:
        pdf = r.choice(workload.real_docs())[1]
    else:
        pdf = (messy_doc(ctx) if k < 0.65 else ctx.simple()).build()
    fmt = r.choice(["txt", "txt-extended"])
    base = world(ctx, pdf)
    base.cpu = 60
    skips = [x for x in SKIPS if r.random() < 0.04]
    flags = "".join("skip-" + x + "," for x in skips)
    base.procs = [[main("--format", fmt, *["--skip-" + x for x in skips], "/work/in.pdf", "/work/out.txt")],
                  [op("doc", 0, "/work/in.pdf", flags), op("dump", 0, "d"),
                   op("ser", 0, "txt", "/work/lib.txt")]]
    for _ in range(5):
        s = base.copy()
        perturb(r, s)
        yield Case("same_result", what="the environment").add("ref", base).add("run", s)


Check("C06", c06, 110, 2500,
      "Seeded documents, each run in one plain world and in five worlds that differ in heap placement "
      "and reuse, residual memory contents, stack contents, clock, pid, random source, environment "
      "variables and working directory; outputs and the full detected structure must be equal.")


# == C07 ===========================================================================================

def c07(ctx):
    r = ctx.rng
    n = r.randint(2, 3)
    docs = []
    for i in range(n):
        d = pick_doc(ctx, messy=0.6, pages=r.choice([1, 1, 2]))
        if r.random() < 0.25:
            # Damaged font programs, whose interpretation leaves something behind.
            for f in damage.embed(r, d)[:r.randint(1, 2)]:
                for _ in range(r.choice([1, 1, 3])):
                    f.fontfile = damage.type1(r, f.fontfile)[1]
        docs.append(d.build() if r.random() < 0.93 else damage.whole(r, d.build())[1])
    s = world(ctx)
    kinds = []
    for i, pdf in enumerate(docs):
        k = r.random()
        if k < 0.75:
            s.files.append(["file", "/work/d%d.pdf" % i, pdf])
        elif k < 0.83:
            s.files.append(["file", "/work/d%d.pdf" % i, b"not a pdf"])
        elif k < 0.9:
            pass
        else:
            j = r.randrange(len(pdf))
            s.files.append(["file", "/work/d%d.pdf" % i, pdf[:j] + bytes([r.randrange(256)]) + pdf[j + 1:]])
        kinds.append(k)
    seq = []
    for j in range(r.randint(2, 5)):
        fl = "".join("skip-%s," % x for x in SKIPS if r.random() < 0.06)
        if r.random() < 0.15:
            fl += "trace,"
        seq.append((r.randrange(n), fl))
    ops = []
    live = []
    refs = {}
    expect = []
    for j, (i, fl) in enumerate(seq):
        ops += [op("doc", j, "/work/d%d.pdf" % i, fl), op("dump", j, "a%d" % j)]
        live.append(j)
        if r.random() < 0.5:
            ops.append(op("ser", j, r.choice(["txt", "txt-extended"]), "/work/o%d" % j))
        if r.random() < 0.25:
            ops.append(main(*some_options(r, 0.1), "/work/d%d.pdf" % r.randrange(n), "/work/m%d" % j))
        if len(live) > 1 and r.random() < 0.4:
            k = live.pop(r.randrange(len(live) - 1))
            ops += [op("dump", k, "z%d" % k), op("free", k)]
            expect.append(k)
    for k in live:
        ops.append(op("dump", k, "z%d" % k))
        expect.append(k)
    run = s.copy()
    run.procs = [ops]
    if r.random() < 0.5:
        run.heap = [r.randrange(5), r.choice([0, 3]), r.randrange(7), r.randrange(64)]
    c = Case("history_free", seq=[[i, fl] for i, fl in seq])
    for j, (i, fl) in enumerate(seq):
        key = "%d/%s" % (i, fl)
        if key not in refs:
            refs[key] = "ref%d" % len(refs)
            q = s.copy()
            q.procs = [[op("doc", 0, "/work/d%d.pdf" % i, fl), op("dump", 0, "a0")]]
            c.add(refs[key], q)
    c.params["refs"] = refs
    c.add("run", run)
    yield c


@oracle
def history_free(res, case):
    p = case.params
    run = res["run"]
    l = run.lives[0]
    e = ended(l)
    refs = {k: res[v] for k, v in p["refs"].items()}
    if e and not any(ended(x.lives[0]) for x in refs.values()):
        return [("sequence: " + e[0], "%s: %s" % (p["seq"], e[1]))]
    for j, (i, fl) in enumerate(p["seq"]):
        ref = refs["%d/%s" % (i, fl)]
        if ended(ref.lives[0]):
            continue
        a = ref.dumps.get("a0")
        c = run.dumps.get("a%d" % j)
        if ref.dumps.get("rc0") != run.dumps.get("rc%d" % j):
            return [("a document's status depends on what came before", "document %d of %s: %s instead "
                     "of %s" % (j, p["seq"], run.dumps.get("rc%d" % j), ref.dumps.get("rc0")))]
        if a != c:
            return [("a document's result depends on what came before",
                     "document %d of %s: %s" % (j, p["seq"], diff(a, c)))]
        z = run.dumps.get("z%d" % j)
        if c is not None and z is not None and z != c:
            return [("a result changed afterwards", "document %d of %s: %s" % (j, p["seq"], diff(c, z)))]
    return []


Check("C07", c07, 150, 3500,
      "Seeded sequences of two to five documents (also damaged, missing ones) with different settings, "
      "kept or released, in one process; each result is compared with the same document in a fresh "
      "process, and again after everything else was done.")


import checks_more  # noqa: E402,F401  (registers C08 to C18)
