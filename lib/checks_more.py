"""The checks C08 to C18."""
import copy
import re

import damage
import pdfgen
import simc
import workload
from checks import (Check, E_ACCES, E_INTR, E_IO, E_MFILE, E_NOENT, E_NOMEM, E_NOSPC, LOCALES, SKIPS, VISOPTS, b, diff,
                    ended, main, messy_doc, norm, oracle, pdf_skeleton, perturb, pick_doc, some_options, tail, words_of,
                    world)
from harness import Case
from simc import op

ROLES = ["paragraph", "reference", "marginal", "footnote", "heading", "formula", "title", "author-info",
         "abstract", "date", "caption", "table", "other", "toc"]


# -- whose crash? ----------------------------------------------------------------------------------

def blame(life):
    """Who crashed: 'poppler' if the innermost identifiable frame is Poppler's, else 'program'."""
    t = life.rawerr.decode("utf-8", "replace")
    i = t.find("crash frames:")
    if i >= 0:
        lines = t[i:].splitlines()[1:]
    else:
        lines = [x for x in t.splitlines() if re.match(r"\s*#\d+ ", x)]
    for x in lines:
        if "libpoppler" in x or "/poppler/" in x:
            return "poppler"
        if "3ppp" in x or "ppp_main" in x or "ppp::" in x or "/src/" in x and "/usr" not in x:
            return "program"
    return "program" if not lines else "unknown"


def died(life, where=""):
    """The violation 'a run died', unless Poppler itself is to blame."""
    e = ended(life)
    if not e:
        return None
    if life.signal and blame(life) == "poppler":
        return None
    return e[0], where + e[1]


def outside(life):
    return bool(ended(life))


# == C08 ===========================================================================================

def c08_doc(ctx):
    """A document rich in what the own parsers read."""
    r = ctx.rng
    d = messy_doc(ctx, pages=r.choice([1, 1, 2])) if r.random() < 0.6 else ctx.simple(pages=r.choice([1, 1, 2]))
    return d


def megaword(r, d):
    """One huge word, or a great many tiny ones."""
    p = d.pages[0]
    fk, f = "F2", d.fonts["F2"]
    n = r.choice([300, 1000, 2500])
    if r.random() < 0.5:
        s = "".join(r.choice("abcdefghij") for _ in range(n)) if r.random() < 0.7 else "a" * n
        p.text(fk, f, 0.2, 72, 400, s)
    else:
        for i in range(n // 2):
            p.text(fk, f, 6, 72 + (i % 40) * 12, 600 - (i // 40) * 8, r.choice("abc"))


def c08(ctx):
    r = ctx.rng
    base = world(ctx)
    base.cpu = 40
    base.maxsteps = 2000000
    for _ in range(6 if ctx.tier == "quick" else 12):
        s = base.copy()
        s.model = list(base.model)
        how = r.random()
        d = c08_doc(ctx) if _ == 0 else d      # one document, damaged in several ways
        e = copy.deepcopy(d)
        kind = ""
        if how < 0.35:
            fs = damage.embed(r, e)
            for f in fs[:r.randint(1, 2)]:
                kind, f.fontfile = damage.type1(r, f.fontfile)
                kind = "font " + kind
            pdf = e.build()
        elif how < 0.55:
            for p in e.pages:
                if r.random() < 0.8:
                    p.ops = damage.content(r, p.ops)
            kind = "content"
            pdf = e.build()
        elif how < 0.6:
            # What the document says its characters mean is nonsense.
            for fk in r.sample(sorted(e.fonts), min(len(e.fonts), r.randint(1, 3))):
                g = workload.strange_font(r, e.fonts[fk].name, r.choice([0.1, 0.4, 1.0]))
                if e.fonts[fk].kind != "cid":
                    g.kind = "type3"
                e.fonts[fk] = g
            kind = "unicode"
            pdf = e.build()
        elif how < 0.64:
            megaword(r, e)
            kind = "extent"
            pdf = e.build()
        elif how < 0.68:
            for p in e.pages:
                p.w, p.h = r.choice([(0, 0), (1, 1), (14400, 14400), (-612, -792), (612, 1), (10**7, 3)])
            kind = "page size"
            pdf = e.build()
        elif how < 0.72 and ctx.unit % 3 == 0 and workload.real_docs():
            n, pdf = r.choice(workload.real_docs()[:2] if len(workload.real_docs()) > 2 else
                              workload.real_docs())
            kind, pdf = damage.whole(r, pdf)
            kind = "real " + kind
        else:
            if r.random() < 0.5:
                damage.embed(r, e)
            kind, pdf = damage.whole(r, e.build())
            kind = "file " + kind
        s.tags = ["damage:" + kind]
        s.files.append(["file", "/work/in.pdf", pdf])
        if r.random() < 0.15:
            s.faults.append(["read", "/work/in.pdf", r.randint(1, 40), r.choice(["short", "eof", "flip", "err"]),
                             r.choice([1, 5, E_IO]), r.randint(0, 1)])
            if s.faults[-1][3] == "err":
                s.faults[-1][4] = E_IO
        opts = some_options(r, 0.25)
        if r.random() < 0.1:
            opts += ["--verbosity", r.choice(["debug", "trace"])]
        s.procs = [[main(*opts, "/work/in.pdf", "/work/out.txt")]]
        if r.random() < 0.4:
            s.procs.append([op("doc", 0, "/work/in.pdf", ""), op("check", 0), op("dump", 0, "d"),
                            op("free", 0)])
        variant = "asan" if r.random() < 0.6 else "plain"
        if variant == "plain" and r.random() < 0.5:
            s.heap = [r.randrange(5), r.choice([0, 3]), r.randrange(7), r.randrange(64)]
        yield Case("survives", variant=variant, kind=kind).add("run", s)


@oracle
def survives(res, case):
    run = res["run"]
    k = case.params["kind"]
    for l in run.lives:
        e = died(l, "damage '%s': " % k)
        if e:
            return [e]
        if outside(l):
            return []
    l = run.lives[0]
    if l.code != 0 and not l.stderr.strip():
        return [("failure without a message", "damage '%s': exit status %s and nothing on standard error" % (
            k, l.code))]
    if l.code == 0:
        out = run.files.get(b"/work/out.txt")
        if out is None:
            return [("success without a result", "damage '%s': exit status 0, but no output" % k)]
        try:
            out.decode("utf-8")
        except UnicodeDecodeError as ex:
            return [("the result is not valid UTF-8", "damage '%s': %s near %r" % (
                k, ex.reason, out[max(0, ex.start - 20):ex.start + 20]))]
    for n in run.notes:
        if n.startswith("invariant:"):
            return [("a broken result", "damage '%s': %s" % (k, n))]
    return []


Check("C08", c08, 200, 4000,
      "Seeded documents damaged in their bytes, objects, numbers, references, names, page sizes, content "
      "operators and - below the encryption - embedded Type 1 font programs, also read through a failing "
      "disk; run with seeded options under AddressSanitizer and on the simulated, scrambled heap.",
      variants=("plain", "asan"), quick_s=150,
      assumptions=["a crash whose innermost identifiable frame is libpoppler's is Poppler's"])


# == C09 ===========================================================================================

def c09(ctx):
    r = ctx.rng
    feats = {k for k in ("type1", "type3", "cid", "bold", "twocol", "footer", "heading", "shapes", "image",
                         "compress", "split") if r.random() < 0.3}
    for _ in range(6):
        if _ == 0 or r.random() < 0.3:
            fontcase = r.random() < 0.4
            d = ctx.simple(pages=r.choice([1, 2]) if fontcase else r.choice([2, 2, 3]),
                           features=set(feats) | ({"type1"} if fontcase else set()))
            pdf = d.build()
        s = world(ctx)
        s.cpu = 60
        s.maxsteps = 2000000
        out = r.choice(["/work/out.txt", "-"])
        if fontcase:
            import copy
            e = copy.deepcopy(d)
            hit = set()
            for f in e.fonts.values():
                if f.fontfile:
                    kind, f.fontfile = damage.type1(r, f.fontfile, hit)
            data = e.build()
            if r.random() < 0.2:
                data2 = data
                for nm, spans in e.spans.items():
                    if nm.startswith("fontfile:"):
                        st, en = spans[0]
                        kind, o = damage.stream_object(r, data[st:en])
                        data2 = damage.rebuild(data, [(st, en, o)])
                data = data2
            bad = []
            what = "font program: " + kind
        else:
            bad = sorted(r.sample(range(len(d.pages)), r.randint(1, len(d.pages) - 1)))
            edits = []
            what = []
            for i in bad:
                for st, en in d.spans.get("content:%d" % i, []):
                    if r.random() < 0.85 or not edits:
                        kind, o = damage.stream_object(r, pdf[st:en])
                        edits.append((st, en, o))
                        what.append("page %d: %s" % (i + 1, kind))
            data = damage.rebuild(pdf, edits)
            what = ", ".join(what)
        s.files.append(["file", "/work/in.pdf", data])
        s.procs = [[main("/work/in.pdf", out)]]
        ref = s.copy()
        ref.files = [f for f in s.files if f[1] != "/work/in.pdf"] + [["file", "/work/in.pdf", pdf]]
        s.tags = sorted({"damage:" + re.sub(r"page \d+", "page", w) for w in what.split(", ")})
        truth = [w for i, p in enumerate(d.pages) if i not in bad for w in p.truth]
        c = Case("rest_intact", truth=truth, what=what, out=out).add("ref", ref).add("run", s)
        if fontcase:
            c.params["hit"] = sorted(hit)
            for k in ("ref", "run"):
                q = c.specs[k].copy()
                q.procs = [[op("doc", 0, "/work/in.pdf", ""), op("dump", 0, "d")]]
                c.add("lib" + k, q)
        yield c


def glyph_boxes(dump):
    out = {}
    for line in dump.decode("utf-8", "replace").split("\n"):
        if line.startswith("font "):
            t = line.split(" ")
            for x in t[10:]:
                if "=" in x:
                    n, v = x.rsplit("=", 1)
                    try:
                        out[t[1], n] = tuple(float(y) for y in v.split(","))
                    except ValueError:
                        pass
    return out


def reshaped(res, case):
    """Glyphs that the damage turned into other glyphs of a possible size: nobody can tell that they are
    not what was meant."""
    a = glyph_boxes(res["libref"].dumps.get("d", b""))
    c = glyph_boxes(res["librun"].dumps.get("d", b""))
    hit = case.params["hit"]
    return [k for k, v in c.items() if a.get(k) != v and ("*" in hit or k[1] in hit) and
            any(x for x in v) and all(abs(x) <= 10000 for x in v)]


@oracle
def rest_intact(res, case):
    p = case.params
    ref, run = res["ref"], res["run"]
    l = run.lives[0]
    if outside(ref.lives[0]) or ref.lives[0].code != 0:
        return []
    def text(x):
        return x.lives[0].stdout if p["out"] == "-" else x.files.get(b"/work/out.txt", b"")
    good = words_of(text(ref))
    if any(good.count(w) != 1 for w in p["truth"]):
        return []                                  # judged by C01 and C16
    if outside(l):
        e = died(l)
        return [("rest: " + e[0], "%s: %s" % (p["what"], e[1]))] if e else []
    if l.code != 0:
        return [("damage costs the whole text", "%s: %s; %s" % (p["what"], l.how, tail(l.stderr)))]
    got = {}
    for w in words_of(text(run)):
        got[w] = got.get(w, 0) + 1
    lost = [w for w in p["truth"] if not got.get(w)]
    twice = [w for w in p["truth"] if got.get(w, 0) > 1]
    if lost and "hit" in p and reshaped(res, case):
        return []
    if lost:
        return [("words are lost or altered", "%s: lost %d of %d words: %s; there are %s" % (
            p["what"], len(lost), len(p["truth"]), lost[:6], sorted(set(got) - set(p["truth"]))[:6]))]
    # A damaged page may show any words, but hardly several of another page's.
    if len(twice) > (0 if "hit" in p else 2):
        return [("words come out twice", "%s: %s" % (p["what"], twice[:6]))]
    return []


Check("C09", c09, 150, 4000,
      "Seeded plainly typeset documents of unique words; the content streams of some pages (random bytes, "
      "cut or undecodable streams, wrong lengths, odd operators, missing objects) or the embedded font programs "
      "are damaged; every word of the other pages - with damaged fonts: every word - must come out once.")


# == C10 ===========================================================================================

def c10(ctx):
    r = ctx.rng
    pdf = pick_doc(ctx, messy=0.6, pages=r.choice([1, 1, 2])).build()
    fmt = r.choice(["txt", "txt-extended"])
    out = r.choice(["/work/out.txt", "/work/out.txt", "-"])
    base = world(ctx, pdf)
    opts = ["--format", fmt]
    if r.random() < 0.15:
        opts += ["--visualization-path", "/work/vis.pdf", "--visualize-words", "--visualize-text-blocks"]
    m = main(*opts, "/work/in.pdf", out)
    lib = [op("doc", 0, "/work/in.pdf", ""), op("dump", 0, "d")]
    base.procs = [[m]]
    ref = ctx.run(base)
    n = max(1, ref.heap[0])
    peak = max(1, ref.heap[1])
    base.procs = [[m]]
    libref = base.copy()
    libref.procs = [lib]
    rl = ctx.run(libref)
    nl = max(1, rl.heap[0])
    for _ in range(16 if ctx.tier == "quick" else 40):
        k = r.random()
        if k < 0.7:
            s = base.copy()
            case = Case("no_false_text", out=out).add("ref", base)
            tot = n
        else:
            s = libref.copy()
            case = Case("no_false_text", out=out, lib=True).add("ref", libref)
            tot = nl
        q = r.random()
        # Every step is as likely as any other, however few allocations it makes.
        steps = [x for x in (ref if case.params.get("lib") is None else rl).stepallocs if x[2] > x[1]]
        if q < 0.4 and steps:
            name = r.choice(sorted({x[0] for x in steps}))
            _n, x, y = r.choice([x for x in steps if x[0] == name])
            part = max(1, (y - x) // 12)              # anywhere in it, at its beginning or at its end
            x, y = r.choice([(x, y), (x, x + part), (y - part, y)])
            s.faults.append(["alloc", "*", r.randint(x + 1, y), "err", 0, int(r.random() < 0.3)])
        elif q < 0.5:
            s.faults.append(["alloc", "*", r.randint(1, tot), "err", 0, 0])
        elif q < 0.6:
            # Big allocations or a burst of them fail.
            a = r.randint(1, tot)
            for j in range(r.randint(2, 6)):
                s.faults.append(["alloc", "*", min(tot, a + r.randrange(1, 60) * (j + 1)), "err", 0, 0])
        elif q < 0.8:
            s.faults.append(["alloc", "*", r.randint(1, tot), "err", 0, 1])
        else:
            s.heaplimit = max(4096, int(peak * r.random()))
        yield case.add("run", s)


@oracle
def no_false_text(res, case):
    p = case.params
    ref, run = res["ref"], res["run"]
    l, rl = run.lives[0], ref.lives[0]
    if rl.code != 0 or (p.get("lib") and ref.dumps.get("rc0") != b"0"):
        return []
    f = "faults %s heaplimit=%s" % (case.specs["run"].faults, case.specs["run"].heaplimit)
    if l.hang:
        return [("hang", f + ": " + ended(l)[1])]
    if l.signal and l.signal != 6:
        e = died(l, f + ": ")
        return [e] if e else []
    if l.signal or l.code != 0:
        return []
    if p.get("lib"):
        if run.dumps.get("rc0") == b"0" and run.dumps.get("d") != ref.dumps.get("d"):
            return [("success with another structure", "%s: %s" % (f, diff(ref.dumps.get("d"), run.dumps.get("d"))))]
        return []
    if l.stdout != rl.stdout:
        return [("success with another text", "%s: %s" % (f, diff(rl.stdout, l.stdout)))]
    for k in set(ref.files) | set(run.files):
        a, c = ref.files.get(k), run.files.get(k)
        if k.endswith(b"vis.pdf"):
            if c is None or not c.startswith(b"%PDF"):
                return [("success without the visualization", f)]
            continue
        if a != c:
            return [("success with another text", "%s: %s" % (f, diff(a, c)))]
    return []


Check("C10", c10, 110, 3000,
      "Seeded documents; in each run one seeded allocation out of all that the run makes fails, or several "
      "of them, or all from one on, or the heap is limited to a share of what the run needs; a run that "
      "reports success must have delivered the text and structure of the undisturbed run.",
      level="fault_enumeration",
      assumptions=["dying of SIGABRT (an exception that cannot be handled, or Poppler giving up) counts as "
                   "stopping with a failure status when no memory is left",
                   "a crash whose innermost identifiable frame is libpoppler's is Poppler's"])


# == C11 ===========================================================================================

MD = workload.MODELDIR
BPE, ROL, SAVED = MD + "/bpe-vocab.tsv", MD + "/roles-vocab.tsv", MD + "/saved_model.pb"


def mess_vocab(r, data):
    lines = data.split(b"\n")
    for _ in range(r.choice([1, 1, 3, 20])):
        i = r.randrange(len(lines) + 1)
        k = r.choice(["bad", "bad", "del", "dup", "empty", "join", "long", "utf8", "num", "crlf"])
        if k == "bad":
            lines.insert(i, r.choice([b"", b"\t", b"abc", b"abc\t", b"\t5", b"abc\txyz", b"abc\t-1",
                                      b"abc\t99999999999999999999", b"abc\t1\t2", b"abc 7", b"abc\t 7",
                                      b"abc\t0x1f", b"abc\t7abc", b"\x00\x00\t\x00", b"abc\t2147483648"]))
        elif k == "del" and lines:
            lines.pop(min(i, len(lines) - 1))
        elif k == "dup" and lines:
            lines.insert(i, lines[r.randrange(len(lines))])
        elif k == "empty":
            lines = lines[:r.choice([0, 1, 2])]
        elif k == "join" and len(lines) > 1:
            j = min(i, len(lines) - 2)
            lines[j:j + 2] = [lines[j] + lines[j + 1]]
        elif k == "long":
            lines.insert(i, b"x" * r.choice([1000, 70000]) + r.choice([b"", b"\t3"]))
        elif k == "utf8":
            lines.insert(i, r.choice([b"\xff\xfe\t5", b"\xc3\t5", b"\xed\xa0\x80\t6", b"\xf8\x88\x80\x80\x80\t7",
                                      b"ab\xe2\x82\t8", "\U0001F600\t9".encode(), b"\x80\x80"]))
        elif k == "num" and lines:
            j = min(i, len(lines) - 1)
            lines[j] = re.sub(rb"\d+$", r.choice([b"-5", b"1e3", b"0", b"4294967296", b""]), lines[j])
        else:
            lines = [x + b"\r" for x in lines]
    out = b"\n".join(lines)
    return out[:-1] if r.random() < 0.3 else out


def second_attempt(ctx, pdf):
    """A predictor whose model could not be read, or failed, is asked once more (and for another document)."""
    r = ctx.rng
    base = world(ctx, pdf)
    other = ctx.simple(pages=1).build()
    base.files.append(["file", "/work/b.pdf", other])
    base.cpu = 40
    skip = "skip-semantic-roles-prediction,"
    docs = [op("doc", 0, "/work/in.pdf", skip), op("doc", 1, "/work/b.pdf", skip)]
    ask = [op("predict", 0, "p0"), op("roles", 0, "r0"), op("predict", 1, "p1"), op("roles", 1, "r1"),
           op("predict", 0, "p2"), op("roles", 0, "r2")]
    refs = {}
    for k in (0, 1):
        refs[k] = base.copy()
        refs[k].procs = [docs + ask[2 * k:2 * k + 2]]
    for _ in range(5):
        s = base.copy()
        s.procs = [docs + ask]
        k = r.random()
        p = r.choice([BPE, ROL])
        if k < 0.2:
            s.tags = ["model:reused"]
        elif k < 0.4:
            s.faults.append(["open", r.choice([BPE, ROL, SAVED]), 1, "err", r.choice([E_IO, E_ACCES, E_MFILE]), 0])
        elif k < 0.7:
            # The first attempt reads a part of a vocabulary only.
            if p == BPE and r.random() < 0.7:
                s.faults += [["read", p, 1, "short", r.randint(1, 200), 0], ["read", p, 2, "err", E_IO, 0]]
            else:
                s.faults.append(["read", p, 1, "err", E_IO, 0])
        elif k < 0.85:
            s.faults.append(["modelrun", "model", r.choice([1, 1, 2]), "err", 0, 0])
        else:
            s.faults.append(["modelload", "model", 1, "err", 0, 0])
        yield Case("second_attempt_right").add("run", s).add("ref0", refs[0]).add("ref1", refs[1])


@oracle
def second_attempt_right(res, case):
    run = res["run"]
    f = "faults %s: " % case.specs["run"].faults
    for k in ("run", "ref0", "ref1"):
        e = ended(res[k].lives[0])
        if e:
            return [("model (asked again): " + e[0], f + e[1])]
    d = run.dumps
    seen = []
    for i, slot in ((0, 0), (1, 1), (2, 0)):
        p, got = d.get("p%d" % i), d.get("r%d" % i)
        ref = res["ref%d" % slot].dumps
        if ref.get("p%d" % slot) != b"ok" or p is None:
            return []
        seen.append(p.decode())
        if p == b"ok" and got != ref.get("r%d" % slot):
            return [("a model that was read incompletely is used", f + "attempts %s: %s" % (seen, diff(ref.get("r%d" % slot), got)))]
        if p != b"ok" and not case.specs["run"].faults:
            return [("a predictor cannot be used again", f + "attempts %s" % seen)]
    if case.specs["run"].faults and "failed" not in seen and any(run.fired):
        return [("a failing model is not reported", f + "attempts %s" % seen)]
    return []


def c11(ctx):
    r = ctx.rng
    d = pick_doc(ctx, messy=0.5, pages=r.choice([1, 1, 2]))
    pdf = d.build()
    fmt = r.choice(["txt", "txt-extended"])
    if r.random() < 0.35:
        yield from second_attempt(ctx, pdf)
    for _ in range(10):
        s = world(ctx, pdf)
        old = r.random() < 0.5
        if old:
            s.files.append(["file", "/work/out.txt", b"the result of an earlier run\n"])
        vis = r.random() < 0.2
        kind = r.choice(["novocab", "norolesvocab", "nomodel", "nodir", "loadfault", "runfault", "runfault",
                         "throwload", "nan", "nan", "morecols", "fewercols", "fewerrows", "zerorows", "openerr", "readerr",
                         "readerr", "forbidden", "isdir", "emptymodel", "weird", "mess", "mess", "mess", "mess", "eof"])
        strict = True
        same = True
        s.model = [1, r.randrange(14), 0]            # the roles must not depend on the vocabulary

        def drop(path):
            s.files = [f for f in s.files if f[1] != path]

        if kind == "novocab":
            drop(BPE)
        elif kind == "norolesvocab":
            drop(ROL)
        elif kind == "nomodel":
            drop(SAVED)
        elif kind == "nodir":
            s.files = [f for f in s.files if not f[1].startswith(MD)]
        elif kind == "loadfault":
            s.faults.append(["modelload", "model", 1, "err", 0, 0])
        elif kind == "runfault":
            s.faults.append(["modelrun", "model", 1, "err", 0, 0])
        elif kind == "throwload":
            s.model = [5, 0, 0]
        elif kind == "nan":
            s.model = [2, 0, 0]
        elif kind == "morecols":
            s.model = [3, r.choice([0, 1, 5, 200]), 7]
        elif kind == "fewercols":
            s.model = [8, r.choice([0, 1, 13, 7]), 7]
        elif kind == "fewerrows":
            s.model = [6, 0, 7]
        elif kind == "zerorows":
            s.model = [7, 0, 7]
        elif kind == "openerr":
            s.faults.append(["open", r.choice([BPE, ROL, SAVED]), 1, "err", r.choice([E_IO, E_ACCES, E_MFILE, E_NOENT]), 1])
        elif kind == "readerr":
            p = r.choice([BPE, ROL])
            if r.random() < 0.5:
                s.files = [f for f in s.files if not f[1].startswith("/sim")] + workload.model_files(False)
            s.faults.append(["read", p, r.choice([1, 1, 2, 3]), "err", E_IO, 1])
            if s.faults[-1][2] > 1:
                n = 100 if p == BPE else 50
                s.faults.insert(0, ["read", p, 1, "short", r.randint(1, n), 0])
                s.faults.insert(0, ["read", p, 2, "short", r.randint(1, n), 0])
        elif kind == "forbidden":
            p = r.choice([BPE, ROL])
            s.files = [["wofile" if f[1] == p else f[0], f[1], f[2]] for f in s.files]
        elif kind == "isdir":
            p = r.choice([BPE, ROL])
            s.files = [["dir", f[1], b""] if f[1] == p else f for f in s.files]
        elif kind == "emptymodel":
            s.files = [[f[0], f[1], b""] if f[1] == SAVED else f for f in s.files]
        elif kind == "weird":
            s.model = [r.choice([9, 10]), 0, r.randrange(99)]
            strict = False
            same = False
        elif kind == "mess":
            p = r.choice([BPE, BPE, ROL])
            s.files = [[f[0], f[1], mess_vocab(r, f[2])] if f[1] == p else f for f in s.files]
            strict = False
        elif kind == "eof":
            s.faults.append(["read", r.choice([BPE, ROL]), r.randint(1, 2), "eof", 0, 1])
            strict = False
        ref = world(ctx, pdf)
        ref.model = list(s.model) if same and s.model[0] == 1 else [1, 0, 0]
        out = r.choice(["/work/out.txt", "/work/out.txt", "-", "n1/out.txt"])
        opts = ["--format", fmt] + (["--visualization-path", "/work/vis.pdf", "--visualize-text-blocks"] if vis else [])
        plain = ["--format", "txt", "/work/in.pdf", "-"]
        s.procs = [[main(*opts, "/work/in.pdf", out)]]
        s.cpu = 40
        ref.procs = [[main(*plain)]]
        lib = s.copy()
        lib.procs = [[op("doc", 0, "/work/in.pdf", ""), op("dump", 0, "d"), op("check", 0)]]
        s.tags = ["model:" + kind]
        variant = "asan" if kind in ("mess", "morecols", "fewercols", "fewerrows", "zerorows") and \
            r.random() < 0.25 else "plain"
        c = Case("model_failure", variant=variant, kind=kind, strict=strict, out=out, fmt=fmt, same=same)
        c.add("ref", ref, "plain").add("run", s)
        if r.random() < 0.4:
            c.add("lib", lib)
        yield c


@oracle
def model_failure(res, case):
    p = case.params
    ref, run = res["ref"], res["run"]
    l = run.lives[0]
    e = ended(l)
    if e:
        return [("model: " + e[0], "%s: %s" % (p["kind"], e[1]))]
    blocks = ref.lives[0].stdout.strip()
    lib = res.get("lib")
    if lib is not None:
        e = ended(lib.lives[0])
        if e:
            return [("model (library): " + e[0], "%s: %s" % (p["kind"], e[1]))]
        if p["strict"] and lib.dumps.get("rc0") == b"0" and blocks:
            return [("a failing model is not reported by the engine", p["kind"])]
        bad = [n for n in lib.notes if n.startswith("invariant:")]
        if bad:
            return [("a broken result", "%s: %s" % (p["kind"], bad[0]))]
    if l.code == 0:
        if p["strict"] and blocks:
            return [("exit 0 although the model failed", "%s: exit status 0" % p["kind"])]
        out = run.files.get(b(norm(p["out"]))) if p["out"] != "-" else l.stdout
        if out is None:
            return [("success without a result", p["kind"])]
        if p["fmt"] == "txt":
            w = ref.lives[0].stdout
            if (out != w) if p["same"] else sorted(words_of(out)) != sorted(words_of(w)):
                return [("another text", "%s: %s" % (p["kind"], diff(ref.lives[0].stdout, out)))]
        else:
            for m in re.finditer(rb"(?:^|\n\n)\[([^\]\n]*)\] ", out):
                if m.group(1).decode("utf-8", "replace").lower() not in ROLES:
                    return [("a role that does not exist", "%s: %r" % (p["kind"], m.group(0)))]
        return []
    if not l.stderr.strip():
        return [("failure without a message", "%s: exit status %d" % (p["kind"], l.code))]
    if run.files or run.dirs or l.stdout:
        return [("output was touched before the model failed", "%s: %s %r" % (
            p["kind"], sorted(run.files) + sorted(run.dirs), l.stdout[:80]))]
    return []


Check("C11", c11, 130, 4000,
      "Seeded documents; the model and its vocabularies are missing, forbidden, unreadable at a seeded read, "
      "fail to load or to answer, answer with the wrong shape or with NaN; vocabularies are malformed in "
      "seeded ways. Refusal must come before any output, success only with the right text and real roles.",
      variants=("plain", "asan"), level="fault_enumeration", quick_s=60)


# == C12 ===========================================================================================

def vocab_tokens(data):
    """id -> text of the byte pair vocabulary; the three special symbols follow it."""
    tok = {}
    for line in data.decode("utf-8").split("\n"):
        if "\t" in line:
            t, i = line.rsplit("\t", 1)
            tok[int(i)] = t
    return tok


def c12(ctx):
    r = ctx.rng
    k = r.random()
    if k < 0.03:
        d = ctx.odd(pages=r.choice([8, 20]), features=["grid"])
    elif k < 0.13:
        d = ctx.odd(features=["unicode"])
    else:
        d = pick_doc(ctx, messy=0.6, pages=r.choice([1, 1, 2, 3]))
    pdf = d.build()
    s = world(ctx, pdf)
    s.model = r.choice([[0, 0, r.randrange(999)], [0, 0, r.randrange(999)], [11, 0, r.randrange(999)],
                        [11, r.choice([1, 10, 1000]), r.randrange(999)], [1, r.randrange(14), 0],
                        [12, r.choice([0, 1, 10]), r.randrange(999)], [13, 0, r.randrange(999)]])
    if r.random() < 0.3:
        s.files = [f for f in s.files if not f[1].startswith("/sim")] + workload.model_files(False)
    fl = "".join("skip-%s," % x for x in SKIPS if x not in ("semantic-roles-prediction", "reading-order-detection",
                                                         "text-blocks-detection", "words-detection",
                                                         "page-segmentation", "text-lines-detection")
                 and r.random() < 0.05)
    flags = ["--skip-" + x for x in (y[5:] for y in fl.split(",")) if x]
    s.tags = ["model:ratings %d" % s.model[0]]
    lib = s.copy()
    lib.ask = 1
    lib.procs = [[op("doc", 0, "/work/in.pdf", fl), op("words", 0, "w")]]
    ext = s.copy()
    ext.procs = [[main(*flags, "--format", "txt-extended", "/work/in.pdf", "/work/ext.txt"),
                  main(*flags, "--format", "txt", "/work/in.pdf", "/work/txt.txt")]]
    c = Case("roles_right", mode=s.model[0]).add("lib", lib).add("ext", ext)
    wanted = []
    for i in range(r.randint(1, 3)):
        roles = r.sample(ROLES, r.choice([1, 1, 2, 3, 7, 13]))
        fmt = r.choice(["txt", "txt-extended"])
        q = s.copy()
        q.procs = [[main(*flags, "--format", fmt, *sum((["--role", x] for x in roles), []), "/work/in.pdf",
                         "/work/f.txt")]]
        wanted.append([roles, fmt])
        c.add("f%d" % i, q)
    c.params["wanted"] = wanted
    # Without the model: no roles are predicted, and the model is not even needed.
    no = s.copy()
    no.ask = 1
    if r.random() < 0.7:
        no.files = [f for f in no.files if not f[1].startswith("/sim")]
    no.procs = [[op("doc", 0, "/work/in.pdf", fl + "skip-semantic-roles-prediction,"), op("words", 0, "w")],
                [main(*flags, "--skip-semantic-roles-prediction", "--format", "txt", "/work/in.pdf", "/work/txt.txt")]]
    c.add("no", no)
    # ... and everything else is as if the model had called every block "other".
    oth = s.copy()
    oth.model = [1, ROLES.index("other"), 0]
    oth.procs = [[op("doc", 0, "/work/in.pdf", fl), op("words", 0, "w")],
                 [main(*flags, "--format", "txt", "/work/in.pdf", "/work/txt.txt")]]
    c.add("oth", oth)
    yield c


def parse_words(dump):
    """[(page, role, emphasised, [[(first, second, merged, text)] per line])] from a 'words' dump."""
    out = []
    page = 0
    for line in dump.decode("utf-8", "replace").split("\n"):
        if line == "P":
            page += 1
        elif line.startswith("B "):
            _, role, e = line.split(" ")
            out.append((page, int(role), e == "e", []))
        elif line == "L":
            out[-1][3].append([])
        elif line.startswith("W "):
            m, t = line[5:].split("\t", 1)
            out[-1][3][-1].append((line[2] == "1", line[3] == "2", m, t))
    return page, out


def block_text(lines):
    ws = []
    for l in lines:
        for f, s, m, t in l:
            if not s:
                ws.append(m if f else t)
    return " ".join(ws)


def render(npages, blocks, fmt, roles=None):
    """The text a document must be serialized to (the reference model of the serializers)."""
    out = []
    prev = False
    for pg in range(1, npages + 1):
        for p, role, e, lines in blocks:
            if p != pg or (roles is not None and (role >= len(ROLES) or ROLES[role] not in roles)):
                continue
            if prev:
                out.append("\n\n")
            if fmt == "txt-extended":
                out.append("[%s] " % ROLES[role].upper())
                if e:
                    out.append("\x01")
            out.append(block_text(lines))
            prev = True
        if fmt == "txt-extended":
            out.append("\n\x0c")
    out.append("\n")
    return "".join(out).encode("utf-8")


def alnum(t):
    return "".join(c for c in t if c.isascii() and c.isalnum())


@oracle
def roles_right(res, case):
    p = case.params
    for k in res:
        for l in res[k].lives:
            e = ended(l)
            if e:
                return [(e[0], "%s: %s" % (k, e[1]))]
    lib, ext = res["lib"], res["ext"]
    if lib.dumps.get("rc0") != b"0":
        return [("fault-free run failed", "status %s" % lib.dumps.get("rc0"))]
    npages, blocks = parse_words(lib.dumps.get("w", b""))
    asks = [x.split("\t") for x in lib.dumps.get("asks", b"").decode().splitlines()]
    if len(asks) != len(blocks):
        return [("not every block was put to the model once", "%d blocks, %d questions" % (len(blocks), len(asks)))]
    voc = [f[2] for f in case.specs["lib"].files if f[1] == BPE]
    tok = vocab_tokens(voc[0])
    size = len(set(tok.values()))
    rows = []
    for best, ids in asks:
        t = ""
        full = False
        ids = [int(x) for x in ids.split()]
        for i in ids:
            if i in tok and i < size:
                t += tok[i]
        full = not ids or ids[-1] != size            # not padded: cut off
        rows.append((int(best), alnum(t), full, ids.count(size + 1)))
    left = []
    for pg, role, e, lines in blocks:
        left.append([role, alnum("".join(m if f else t for l in lines for f, s, m, t in l if not s)),
                     alnum("".join(t for l in lines for f, s, m, t in l)), False])
    # Every question belongs to one block: the most specific questions choose first.
    for best, t, cut, unknown in sorted(rows, key=lambda x: (x[3], -len(x[1]))):
        def same(q):
            if cut:
                return q[1].startswith(t) or q[2].startswith(t) or (unknown and sub(t, q[2]))
            return t in (q[1], q[2]) or (unknown and sub(t, q[2]) and len(q[2]) - len(t) <= unknown)

        fit = [q for q in left if not q[3] and same(q)]
        hit = [q for q in fit if q[0] == best]
        if hit:
            min(hit, key=lambda q: abs(len(q[2]) - len(t)))[3] = True
        elif fit:
            q = fit[0]
            return [("a block has another role than the model rated highest", "block '%s' has role %s, the "
                     "model rated %s highest" % (q[2][:60], ROLES[q[0]] if 0 <= q[0] < 14 else q[0], ROLES[best]))]
        else:
            return [("the model was asked about something else", "question '%s' fits no block" % t[:80])]
    for name, fmt in (("ext", "txt-extended"), ("txt", "txt")):
        w = render(npages, blocks, fmt)
        g = ext.files.get(b("/work/%s.txt" % name))
        if g != w:
            return [("the output does not have the blocks' roles and texts", diff(w, g))]
    for i, (roles, fmt) in enumerate(p["wanted"]):
        g = res["f%d" % i].files.get(b"/work/f.txt")
        w = render(npages, blocks, fmt, roles)
        if g != w:
            return [("the role filter selects other blocks", "%s: %s" % (roles, diff(w, g)))]
    no = res["no"]
    if no.dumps.get("rc0") != b"0" or no.lives[1].code != 0:
        return [("skipping the prediction fails", "%s; %s" % (no.lives[1].how, tail(no.lives[1].stderr)))]
    if "asks" in no.dumps:
        return [("the model was asked although that was to be skipped", "")]
    n2, b2 = parse_words(no.dumps.get("w", b""))
    rs = {x[1] for x in b2}
    if rs - {ROLES.index("other")}:
        return [("roles without a model", "roles %s" % sorted(rs))]
    oth = res["oth"]
    if no.dumps.get("w") != oth.dumps.get("w") or no.files.get(b"/work/txt.txt") != oth.files.get(b"/work/txt.txt"):
        return [("skipping the prediction changes more than the roles", diff(
            oth.files.get(b"/work/txt.txt"), no.files.get(b"/work/txt.txt")))]
    return []


def sub(t, full):
    """t is a subsequence of full (characters that the vocabulary lacks are unknown)."""
    it = iter(full)
    return all(c in it for c in t)


Check("C12", c12, 120, 4000,
      "Seeded documents and models (deterministic parties with seeded ratings of any scale); each question the "
      "model got is decoded through the vocabulary and matched with the blocks of the document, whose roles and "
      "serializations - filtered by seeded role sets - are compared with an executable reference.")


# == C13 ===========================================================================================

STEPS = [("Load PDF", None), ("Parse PDF", None),
         ("Calculate glyph statistics", "glyphs-statistics-calculation"),
         ("Merge combining diacritics", "diacritic-marks-merging"),
         ("Detect words", "words-detection"),
         ("Calculate words statistics", "words-statistics-calculation"),
         ("Segment pages", "page-segmentation"),
         ("Detect lines", "text-lines-detection"),
         ("Detect sub/superscripts", "sub-super-scripts-detection"),
         ("Calculate text line statistics", "text-lines-statistics-calculation"),
         ("Detect text blocks", "text-blocks-detection"),
         ("Detect reading order", "reading-order-detection"),
         ("Dehyphenate words", "words-dehyphenation"), ("Serialize", None)]


def c13(ctx):
    r = ctx.rng
    pdf = pick_doc(ctx, messy=0.5, pages=r.choice([1, 1, 2])).build()
    seen = None
    for _ in range(7):
        base = world(ctx, pdf)
        base.maxsteps = 2000000
        fmt = r.choice(["txt", "txt-extended"])
        out = r.choice(["/work/out.txt", "/work/out.txt", "-"])
        skips = [x for x in SKIPS if r.random() < 0.08]
        vis = r.random() < 0.3
        opts = ["--format", fmt, "--print-running-times"] + ["--skip-" + x for x in skips]
        if vis:
            opts += ["--visualization-path", "/work/vis.pdf", "--visualize-" + r.choice(VISOPTS)]
        # From "nothing takes any time" to "every look at the clock takes long".
        base.clock = [1700000000 * 10**9 + r.randrange(10**9),
                      *r.choice([(0, 0), (0, 1000), (1000, 20000), (10**5, 10**6), (10**7, 10**7),
                                 (0, 400000)])]
        if r.random() < 0.3:
            base.env = r.sample(["LC_ALL=xx_YY.UTF-8", "TZ=Asia/Tokyo", "HOME=/"] + LOCALES, 2)
        base.procs = [[main(*opts, "/work/in.pdf", out)]]
        plain = base.copy()
        plain.procs = [[main(*[o for o in opts if o != "--print-running-times"], "/work/in.pdf", out)]]
        ref = ctx.run(base)
        na = max(1, ref.lives[0].counts.get("alloc", 1))
        nc = max(1, ref.lives[0].counts.get("clock", 1))
        names = [n for n, sk in STEPS if sk not in skips]
        if seen is None:                    # the steps that can be observed at their calls
            full = base.copy()
            full.procs = [[main("/work/in.pdf", "/work/out.txt")]]
            seen = sorted({x[1] for x in ctx.run(full).steplog})
        s = base.copy()
        for _k in range(r.randint(1, 6)):
            ns = r.choice([10**6, 1500000, 999999, 10**9, 12345678901, 10**12, 10**15,
                           r.randrange(1, 10**10)])
            k = r.random()
            if k < 0.45:
                s.faults.append(["step", r.choice(names), r.choice([1, 2]), "delay", ns, 0])
            elif k < 0.55:
                s.faults.append(["read", "/work/in.pdf", r.randint(1, 40), "delay", ns, 0])
            elif k < 0.62:
                s.faults.append(["modelrun", "model", 1, "delay", ns, 0])
            elif k < 0.68:
                s.faults.append([r.choice(["open", "read", "close"]), BPE, r.choice([1, 1, 2]), "delay", ns, 0])
            elif k < 0.75 and out != "-":
                s.faults.append([r.choice(["open", "write", "close"]), out, 1, "delay", ns, 0])
            elif k < 0.82 and vis:
                s.faults.append([r.choice(["open", "write", "close"]), "/work/vis.pdf", 1, "delay", ns, 0])
            elif k < 0.9:
                s.faults.append(["alloc", "*", r.randint(1, na), "delay", ns, 0])
            else:
                s.faults.append(["clock", r.choice(["wall", "mono"]), r.randint(1, nc), "delay", ns, 0])
        for _k in range(r.choice([0, 1, 1, 2, 4])):
            # Someone sets the wall clock: while it is looked at, or at any point of a step.
            where = r.choice([["clock", "wall", r.choice([1, 2, 3, r.randint(1, nc)])],
                              ["step", r.choice(names), r.choice([1, 2])],
                              ["step", r.choice(names), r.choice([1, 2])],
                              ["read", "/work/in.pdf", r.randint(1, 40)],
                              ["open", out if out != "-" else "/work/in.pdf", 1],
                              ["alloc", "*", r.randint(1, na)]])
            s.faults.append(where + ["jump", r.choice([-1, 1]) * r.choice([10**9, 3600 * 10**9, 10**16,
                                                                          r.randrange(1, 10**12)]), 0])
        if vis and r.random() < 0.15:
            s.faults.append(["open", "/work/vis.pdf", 1, "err", E_ACCES, 1])
        if out != "-" and r.random() < 0.12:
            s.faults.append([r.choice(["write", "close"]), out, 1, "err", r.choice([E_NOSPC, E_IO]), 1])
            s.faults.append(["step", "Serialize", r.choice([1, 2]), "delay", r.randrange(10**7, 10**10), 0])
        yield Case("times_real", names=names + (["Visualize"] if vis else []), out=out, seen=seen).add(
            "plain", plain).add("ref", base).add("run", s)


def parse_times(text):
    """(total, [(name, ms, percent)]) of the running-time report, or what is wrong with it."""
    rows = []
    total = None
    try:
        text = text.decode("utf-8")
    except UnicodeDecodeError:
        text = text.decode("latin-1")           # (numbers are printed the way the locale wants them)
    for line in text.splitlines():
        line = re.sub(r"\x1b\[\d*m", "", line)
        m = re.match(r"Finished in (-?[\d.,' \u202f\u00a0]+) ms\.$", line)
        if m:
            if total is not None:
                return None, "two reports"
            total = int(re.sub(r"[^\d-]", "", m.group(1)))
            continue
        if total is None or not line.strip():
            continue
        m = re.match(r" \* (.*?):\s*(-?[\d.,' \u202f\u00a0]+?) ms \((\S+?)\s*%\)$", line)
        if not m:
            return None, "line '%s'" % line
        try:
            pc = float(m.group(3).replace(",", "."))
        except ValueError:
            return None, "percentage '%s'" % m.group(3)
        rows.append((m.group(1), int(re.sub(r"[^\d-]", "", m.group(2))), pc))
    if total is None:
        return None, "no report"
    return (total, rows), None


@oracle
def times_real(res, case):
    p = case.params
    plain = res["plain"].lives[0]
    if plain.code != 0:
        e = ended(plain)
        return [("fault-free run failed", "%s; %s" % (plain.how, tail(plain.stderr)))] if not e else []
    for k in ("ref", "run"):
        x = res[k]
        l = x.lives[0]
        spec = case.specs[k]
        w = "faults %s clock %s: " % (spec.faults, spec.clock)
        e = ended(l)
        if e:
            return [(e[0], w + e[1])]
        failed = any(f[3] == "err" and n for f, n in zip(spec.faults, x.fired))
        if (l.code != 0) != failed:
            return [("the running times change the exit status", w + "%s; %s" % (l.how, tail(l.stderr)))]
        rep = l.stdout
        if p["out"] == "-":
            if not l.stdout.startswith(plain.stdout):
                return [("the running times change the text", w + diff(plain.stdout, l.stdout))]
            rep = l.stdout[len(plain.stdout):]
        got, bad = parse_times(rep)
        if failed and bad == "no report":
            continue
        if bad:
            return [("the report is malformed", w + "%s in %r" % (bad, rep[:1500]))]
        total, rows = got
        names = [n for n, _, _ in rows]
        if sorted(names) != sorted(p["names"]):
            return [("the report names other steps than were run", w + "%s instead of %s" % (names, p["names"]))]
        ran = {n for _p, n, _t0, _t1 in x.steplog}
        idle = [n for n in names if n in p["seen"] and n not in ran]
        if idle:
            return [("the report names a step that was not run", w + "%s" % idle)]
        neg = [(n, t) for n, t, _ in rows if t < 0]
        if neg or total < 0:
            return [("a negative running time", w + "%s total %s" % (neg, total))]
        if total != sum(t for _, t, _ in rows):
            return [("the total is not the sum of its parts", w + "%d instead of %d" % (
                total, sum(t for _, t, _ in rows)))]
        for n, t, pc in rows:
            want = 100.0 * t / total if total else 0.0
            if not (pc == pc) or abs(pc - want) > 0.1001:
                return [("a wrong percentage", w + "%s: %s%% instead of %.2f%%" % (n, pc, want))]
        # What really happened, in simulated time. The clock readings around a step cost time, too.
        slack = 2 + 24 * spec.clock[1] // 10**6
        free = sum(d[5] for d in x.delaylog if not d[1] and d[2] not in ("Serialize", "Reload PDF"))
        window = {}
        for _p, n, t0, t1 in x.steplog:
            if t1 >= 0:
                window[n] = window.get(n, 0) + (t1 - t0)
        total_ns = x.simns
        if total > total_ns // 10**6:
            return [("a total longer than the run", w + "%d ms, but the whole run took %.3f ms" % (
                total, total_ns / 1e6))]
        for n, t, _ in rows:
            if n == "Visualize" or n not in window:
                continue
            ms = window[n] / 1e6
            if t < ms - 1.001 or t > ms + slack + free / 1e6:
                return [("a reported time is not the elapsed time", w + "'%s' took %.3f ms, reported %d ms" % (
                    n, ms, t))]
        if "Visualize" in names:
            # It has no single call: at least its delays, at most what came after the serialization.
            t = dict((n, t) for n, t, _ in rows)["Visualize"]
            mine = sum(d[5] for d in x.delaylog if (d[1] == "Reload PDF" or not d[1] and d[2] in (
                "Serialize", "Reload PDF")) and d[3] not in ("out", "alloc", "clock"))
            ends = [t1 for _p, n, t0, t1 in x.steplog if n == "Serialize"]
            if t < mine // 10**6 or (ends and t > (total_ns - ends[0]) / 1e6 + 1):
                return [("a reported time is not the elapsed time", w + "'Visualize' was delayed by %d ms, %d ms "
                         "were left, reported %d ms" % (mine // 10**6, (total_ns - ends[-1]) / 1e6, t))]
    return []


Check("C13", c13, 120, 4000,
      "Seeded documents and options on clocks that stand still, tick slowly or fast; seeded delays inside steps, "
      "between them, in reads, model, allocations and writes, and jumps of the wall clock; the report is compared "
      "with the simulator's own record of when each step began and ended.",
      assumptions=["the steps are observed at their calls (linker --wrap); a step that was renamed is only "
                   "checked against the total"])


# == C14 ===========================================================================================

DEBUGS = ["pdf-parsing", "glyphs-statistics-calculation", "diacritic-marks-merging", "words-detection",
          "words-statistics-calculation", "page-segmentation", "text-lines-detection",
          "text-lines-statistics-calculation", "sub-super-scripts-detection", "text-blocks-detection",
          "reading-order-detection", "semantic-roles-prediction", "words-dehyphenation"]


def looks(r, npages=3):
    """Options that only look at the extraction."""
    o = []
    k = r.random()
    if k < 0.45:
        o += ["--verbosity", r.choice(["trace", "debug", "info", "warn", "error"])]
    for x in DEBUGS:
        if r.random() < 0.15:
            o.append("--debug-" + x)
    if r.random() < 0.3:
        o += ["--log-page-filter", str(r.choice([1, 1, 2, npages, npages + 1, 99, -1, 0]))]
    if r.random() < 0.3:
        o.append("--print-running-times")
    if r.random() < 0.35:
        o += ["--visualization-path", "/work/vis.pdf"]
        for x in VISOPTS:
            if r.random() < 0.3:
                o.append("--visualize-" + x)
    return o


def c14(ctx):
    r = ctx.rng
    if r.random() < 0.9:
        d = pick_doc(ctx, messy=0.7) if r.random() > 0.08 else ctx.odd(features=["unicode"])
        pdf = d.build()
        n = len(d.pages)
    else:
        pdf, n = r.choice(workload.real_docs())[1], 1
        if len(pdf) > 120000:
            pdf = ctx.messy().build()
    damaged = r.random() < 0.15
    if damaged:
        pdf = damage.whole(r, pdf)[1]
    fmt = r.choice(["txt", "txt-extended"])
    skips = ["--skip-" + x for x in SKIPS if r.random() < 0.05]
    base = world(ctx, pdf)
    base.cpu = 60
    base.maxsteps = 2000000
    base.model = r.choice([base.model, base.model, [11, 1, r.randrange(999)], [1, r.randrange(14), 0]])
    for _ in range(6):
        out = "-" if r.random() < 0.25 else "/work/out.txt"
        a = base.copy()
        a.procs = [[main("--format", fmt, *skips, "/work/in.pdf", out)]]
        s = base.copy()
        o = looks(r, n)
        s.procs = [[main("--format", fmt, *skips, *o, "/work/in.pdf", out)]]
        if r.random() < 0.4:
            # The extra work moves memory around, and so may other things.
            s.heap = [r.randrange(5), r.choice([0, 3]), r.randrange(7), r.randrange(64)]
        s.tags = ["look:" + re.sub(r"^--", "", x) for x in o if x.startswith("--")]
        if any("visualization" in x for x in o) and r.random() < 0.1:
            s.faults.append(["open", "/work/vis.pdf", 1, "err", E_ACCES, 1])
        variant = "plain"
        if r.random() < 0.1:
            variant = "asan"
            s.heap = [0, 0, 0, 0]
        quiet = not any(x.startswith("--debug") or x in ("trace", "debug", "info", "warn") for x in o)
        yield Case("only_looks", opts=o, out=out, quiet=quiet, damaged=damaged).add("ref", a).add("run", s, variant)


@oracle
def only_looks(res, case):
    p = case.params
    ref, run = res["ref"], res["run"]
    a, c = ref.lives[0], run.lives[0]
    w = "%s: " % " ".join(p["opts"])
    if outside(a):
        return []                          # judged by C08
    e = died(c, w)
    if e:
        return [("looking: " + e[0], e[1])]
    if outside(c):
        return []
    failed = any(f[3] == "err" and n for f, n in zip(case.specs["run"].faults, run.fired))
    if c.code != a.code and not (failed and a.code == 0 and c.code != 0):
        # A damaged PDF that the visualization alone cannot cope with may be reported.
        if not (a.code == 0 and c.code == 5 and "--visualization-path" in p["opts"] and
                p["damaged"] and c.stderr.strip()):
            return [("looking changes the exit status", w + "%s instead of %s; %s" % (c.how, a.how, tail(c.stderr)))]
    if p["out"] == "-":
        if p["quiet"]:
            if not c.stdout.startswith(a.stdout):
                return [("looking changes the text", w + diff(a.stdout, c.stdout))]
        elif a.code == 0 and a.stdout not in c.stdout:
            return [("looking changes the text", w + "the text is not in the output in one piece")]
    else:
        f = b"/work/out.txt"
        if ref.files.get(f) != run.files.get(f):
            return [("looking changes the text", w + diff(ref.files.get(f), run.files.get(f)))]
    if p["quiet"] and "--print-running-times" not in p["opts"] and p["out"] != "-" and c.stdout:
        return [("output although nothing was asked for", w + repr(c.stdout[:200]))]
    extra = set(run.files) - set(ref.files) - {b"/work/vis.pdf"}
    if extra:
        return [("looking writes files", w + "%s" % sorted(extra))]
    return []


Check("C14", c14, 110, 3000,
      "Seeded documents (also damaged ones) with seeded verbosity, debug switches, log page filters, running "
      "times and visualizations, on a differently behaving heap or under AddressSanitizer; text and exit status "
      "are compared with the run that does not look.",
      variants=("plain", "asan"), quick_s=70)


# == C15 ===========================================================================================

VIS = "/work/vis.pdf"
LOOKFLAGS = "".join("skip-%s," % x for x in SKIPS if x != "embedded-font-files-parsing")


def c15(ctx):
    r = ctx.rng
    if r.random() < 0.94:
        d = pick_doc(ctx, messy=0.6)
        pdf = d.build()
    else:
        d = None
        pdf = r.choice(workload.real_docs()[:2])[1]
    if ctx.unit == 0:                       # the known finding
        yield from crowded()
    fmt = r.choice(["txt", "txt-extended"])
    for _ in range(8):
        kinds = [x for x in VISOPTS if r.random() < r.choice([0.15, 0.3, 0.7])]
        out = "-" if r.random() < 0.15 else "/work/out.txt"
        vis = r.choice([VIS, VIS, VIS, "vis.pdf", "/work/my vis.pdf", "/work/a/vis.pdf"])
        full = norm(vis)
        base = world(ctx, pdf)
        base.cpu = 60
        base.maxsteps = 2000000
        more = ["--print-running-times"] if r.random() < 0.25 else []
        if out != "-" and r.random() < 0.15:
            more += ["--verbosity", r.choice(["error", "warn", "info", "debug"])]
        m = main("--format", fmt, "--visualization-path", vis, *["--visualize-" + k for k in kinds],
                 *more, "/work/in.pdf", out)
        base.files.append(["dir", "/work/a", b""])
        text = base.copy()
        text.procs = [[main("--format", fmt, "/work/in.pdf", out)],
                      [op("doc", 0, "/work/in.pdf", ""), op("dump", 0, "o"),
                       op("doc", 1, "/work/in.pdf", LOOKFLAGS), op("dump", 1, "p")]]
        look = [op("calm"), op("doc", 1, full, LOOKFLAGS), op("dump", 1, "v"), op("free", 1)]
        base.procs = [[m], look]
        c = Case("visualized", vis=full, kinds=kinds, out=out).add("text", text).add("ref", base)
        ref = ctx.run(base)
        t = ctx.run(text)
        if _ == 0 or r.random() < 0.15:
            yield c
            continue
        size = len(ref.files.get(b(full), b""))
        tsize = len(t.files.get(b"/work/out.txt", b""))
        s = base.copy()
        k = r.random()
        if k < 0.25 and size:
            s.cap = tsize + r.choice([r.randrange(size), size - 1, size - r.randrange(1, 20), 0,
                                      r.randrange(size) // 4096 * 4096, size])
        elif k < 0.4:
            n = max(1, -(-size // 4096))
            s.faults.append(["write", full, r.choice([1, n, r.randint(1, n + 1)]), "err",
                             r.choice([E_IO, E_NOSPC]), r.randint(0, 1)])
            if r.random() < 0.4:
                s.faults.append(["write", full, r.randint(1, n), "short", r.randint(1, 4000), 0])
        elif k < 0.48:
            s.faults.append(["close", full, 1, "err", r.choice([E_IO, E_NOSPC]), 0])
        elif k < 0.56:
            s.faults.append(["open", full, 1, "err", r.choice([E_ACCES, E_MFILE, E_NOSPC, E_IO]), 1])
        elif k < 0.68:
            s.faults.append(["open", "/work/in.pdf", 2, "err", r.choice([E_NOENT, E_ACCES, E_MFILE, E_IO]), 1])
        elif k < 0.76:
            n = inreads(ctx, text)
            if r.random() < 0.4:
                s.faults.append(["read", "/work/in.pdf", n + 1, "eof", 0, 1])
            else:
                # (Anywhere in the second reading, which includes the copying.)
                n += r.randint(0, max(1, inreads(ctx, base) - n - 1))
                s.faults.append(["read", "/work/in.pdf", n + 1, "err", E_IO, 1 if r.random() < 0.7 else 0])
        elif k < 0.84:
            how = r.choice(["isdir", "rofile", "nodir", "parentfile"])
            ctx.probe("visualization path: " + how)
            if how == "isdir":
                s.files.append(["dir", full, b""])
            elif how == "rofile":
                s.files.append(["rofile", full, b"precious"])
            else:
                gone = "/work/gone/vis.pdf"
                if how == "parentfile":
                    s.files.append(["file", "/work/gone", b"x"])
                s.procs[0] = [main("--format", fmt, "--visualization-path", gone,
                                   *["--visualize-" + q for q in kinds], *more, "/work/in.pdf", out)]
                c.params["runvis"] = gone
        elif k < 0.90:
            # Nothing fails, but it comes in pieces.
            s.faults.append(["write", full, 0, "short",
                             r.choice([1, 7, 100, 1000] if size < 60000 else [100, 1000, 3000]), 1])
            s.maxsteps = base.maxsteps + 4 * size
            if r.random() < 0.5:
                s.faults.append(["write", full, r.randint(1, 9), "err", E_INTR, 0])
        elif k < 0.93 or not pages_of(d):
            s.files.append(["file", full, b"%PDF-1.4 stale " * r.choice([1, 100, 9000])])
        else:
            # Someone replaces the PDF after it was read and before, or while, it is read once more.
            how = r.choice(["fewer", "fewer", "other", "length", "length", "cut", "empty", "same"])
            ctx.probe("PDF changed: " + how)
            s.tags = ["changed:" + how]
            if how == "fewer":
                e = copy.deepcopy(d)
                e.pages = e.pages[:r.randint(1, max(1, len(e.pages) - 1))] if len(e.pages) > 1 else e.pages
                new = e.build()
            elif how == "length":
                # (Another document that is exactly as long.)
                new = same_length(r, pdf)
            else:
                new = {"other": lambda: pick_doc(ctx, messy=0.5).build(), "cut": lambda: pdf[:len(pdf) // 2],
                       "empty": lambda: b"", "same": lambda: pdf}[how]()
            s.files.append(["file", "/work/in.pdf.swap", new])
            at = r.random()
            if at < 0.4 and out != "-":
                s.faults.append(["open", out, 1, "swap", r.randint(0, 1), 0])
            elif at < 0.8:
                s.faults.append(["open", "/work/in.pdf", 2, "swap", r.randint(0, 1), 0])
            else:
                s.faults.append(["read", "/work/in.pdf", inreads(ctx, text) + r.randint(1, 4), "swap", 1, 0])
        yield c.add("run", s)


def pages_of(d):
    return getattr(d, "pages", None)


def same_length(r, pdf):
    new = b""
    for _k in range(6):
        new = workload.simple_doc(r, 1, set()).build()
        at = new.rfind(b"startxref")
        gap = len(pdf) - len(new) - len(new[at:]) - 1
        if gap > 0:
            return new + b"%" * gap + b"\n" + new[at:]
    return new


def inreads(ctx, text):
    """How often the PDF itself is read before it is opened once more."""
    s = text.copy()
    s.procs = [text.procs[0]]
    s.faults = [["read", "/work/in.pdf", 0, "delay", 0, 1]]
    return ctx.run(s).fired[0]


def crowded():
    d = pdfgen.Doc()
    fo = d.font("F1", pdfgen.Font("CMR10", "plain"))
    p = pdfgen.Page()
    d.pages.append(p)
    for i in range(130):
        p.text("F1", fo, 4, 40, 770 - 5.5 * i, " ".join(["crowd"] * 17))
    s = simc.Spec()
    s.seed = 1
    s.model = [1, 5, 0]
    s.files = [list(q) for q in workload.model_files()] + [["file", "/work/in.pdf", d.build()]]
    s.cpu = 60
    s.maxsteps = 2000000
    kinds = ["characters"]
    text, ref = s.copy(), s.copy()
    text.procs = [[main("/work/in.pdf", "/work/out.txt")], [op("doc", 0, "/work/in.pdf", ""), op("dump", 0, "o"),
                  op("doc", 1, "/work/in.pdf", LOOKFLAGS), op("dump", 1, "p")]]
    ref.procs = [[main("--visualization-path", VIS, "--visualize-characters", "/work/in.pdf", "/work/out.txt")],
                 [op("calm"), op("doc", 1, VIS, LOOKFLAGS), op("dump", 1, "v"), op("free", 1)]]
    yield Case("visualized", vis=VIS, kinds=kinds, out="/work/out.txt").add("text", text).add("ref", ref)


def page_marks(dump, kinds):
    """How many annotations the visualization needs on each page."""
    out = []
    for page in dump.decode("utf-8", "replace").split("\npage ")[1:]:
        lines = page.split("\n")
        n = 0
        for k, pre, per in (("characters", "c ", 1), ("words", "word ", 1), ("text-lines", " line ", 1),
                            ("text-blocks", "block ", 2), ("reading-order", "block ", 4), ("figures", "fig ", 1),
                            ("shapes", "shape ", 1), ("graphics", "graphic ", 1), ("segments", "seg ", 1),
                            ("segment-cuts", "seg-cut ", 3), ("reading-order-cuts", "ro-cut ", 3)):
            if k in kinds:
                n += per * sum(1 for x in lines if x.startswith(pre))
        out.append(n)
    return out


def chars_of(dump):
    out = {}
    page = 0
    n = 0
    for line in dump.decode("utf-8", "replace").split("\n"):
        if line.startswith("page "):
            n += 1
            page = n
        elif line.startswith("c "):
            m = re.match(r"c (\S+) .* name=.*? base=\S+ sub=\S+ '(.*)' d='", line)
            if m:
                k = (page, m.group(1), m.group(2))
                out[k] = out.get(k, 0) + 1
    return n, out


@oracle
def visualized(res, case):
    p = case.params
    t, ref = res["text"], res["ref"]
    if t.lives[0].code != 0 or outside(ref.lives[0]):
        e = died(ref.lives[0]) if t.lives[0].code == 0 else None
        return [("visualizing: " + e[0], e[1])] if e else []
    f = b"/work/out.txt"
    for k in ("ref", "run"):
        full = b(p.get("runvis", p["vis"]) if k == "run" else p["vis"])
        if k not in res:
            continue
        x = res[k]
        l = x.lives[0]
        spec = case.specs[k]
        w = "%s; faults %s cap=%d: " % (" ".join(p["kinds"]), spec.faults, spec.cap)
        e = died(l, w)
        if e:
            return [("visualizing: " + e[0], e[1])]
        if outside(l):
            continue
        if p["out"] == "-":
            if not l.stdout.startswith(t.lives[0].stdout):
                return [("the text is not delivered", w + diff(t.lives[0].stdout, l.stdout))]
        elif x.files.get(f) != t.files.get(f):
            return [("the text is not delivered", w + diff(t.files.get(f), x.files.get(f)))]
        if k == "ref" and l.code != 0:
            return [("fault-free run failed", w + "%s; %s" % (l.how, tail(l.stderr)))]
        if l.code != 0:
            if not l.stderr.strip():
                return [("failure without a message", w + "exit status %d" % l.code)]
            continue
        v = x.files.get(full)
        if v is None:
            return [("exit 0 without a visualization", w + "no file %s" % p["vis"])]
        if b"Page annotations object" in x.lives[-1].stderr and max(
                page_marks(t.dumps.get("o", b""), p["kinds"]) + [0]) > 10000:
            return [("more than 10000 marks on a page", w + tail(x.lives[-1].stderr))]
        if x.dumps.get("rc1") != b"0":
            return [("exit 0, but the visualization is not loadable", w + "status %s, %d bytes" % (
                x.dumps.get("rc1"), len(v)))]
        n, have = chars_of(x.dumps.get("v", b""))
        n0, want = chars_of(t.dumps.get("p", b""))
        if n != n0:
            return [("the visualization lacks pages", w + "%d instead of %d" % (n, n0))]
        lost = [c for c, q in want.items() if have.get(c, 0) < q]
        if lost:
            return [("the visualization lacks text", w + "%d of %d characters, e.g. %s" % (
                len(lost), len(want), lost[:3]))]
        bad = marks(v, t.dumps.get("o", b""), p["kinds"])
        if bad:
            return [("the visualization lacks marks", w + bad)]
        if k == "run" and "runvis" not in p and pdf_skeleton(v) != pdf_skeleton(ref.files.get(b(norm(p["vis"])))):
            return [("the visualization differs from that of an undisturbed run", w + diff(
                pdf_skeleton(ref.files.get(b(norm(p["vis"])))), pdf_skeleton(v)))]
    return []


def marks(v, dump, kinds):
    """Every element that was to be visualized has its box."""
    if any(k in kinds for k in ("segments", "segment-cuts", "reading-order-cuts", "shapes", "graphics", "figures")):
        exact = False
    else:
        exact = True
    lines = dump.decode("utf-8", "replace").split("\n")
    n = 0
    for k, pre in (("characters", "c "), ("words", "word "), ("text-lines", " line "), ("text-blocks", "block "),
                   ("reading-order", "block "), ("figures", "fig "), ("shapes", "shape "), ("graphics", "graphic "),
                   ("segments", "seg ")):
        if k in kinds:
            n += sum(1 for x in lines if x.startswith(pre))
    have = v.count(b"/Subtype /Square")
    if have < n or (exact and have != n):
        return "%d boxes for %d elements" % (have, n)
    # Cuts are lines with an id, and a number if they are used; blocks have their role, and in the visualization of
    # the reading order a number each and lines from one to the next.
    text = line = circle = 0
    for k, pre in (("segment-cuts", "seg-cut "), ("reading-order-cuts", "ro-cut ")):
        if k in kinds:
            cuts = [x for x in lines if x.startswith(pre)]
            line += len(cuts)
            text += len(cuts) + sum(1 for x in cuts if " chosen=1 " in x)
    if "text-blocks" in kinds:
        text += sum(1 for x in lines if x.startswith("block "))
    if "reading-order" in kinds:
        per = []
        for x in lines:
            if x.startswith("page "):
                per.append(0)
            elif x.startswith("block "):
                per[-1] += 1
        text += sum(per) + sum(q for q in per if q > 1)
        circle += sum(q for q in per if q > 1)
        line += sum(q - 1 for q in per if q > 1)
    for what, sub, want in (("labels", b"/Subtype /FreeText", text), ("lines", b"/Subtype /Line", line),
                            ("circles", b"/Subtype /Circle", circle)):
        if v.count(sub) < want:
            return "%d %s instead of %d" % (v.count(sub), what, want)
    return None


Check("C15", c15, 64, 3000,
      "Seeded documents and kinds of visualization; the disk fills up anywhere inside the visualization, its "
      "writes, open and close fail or come in pieces, its path is unusable, the PDF vanishes or empties before it "
      "is opened again; the text must be delivered, and after exit 0 the visualization is parsed by a calm "
      "process and compared with the document character by character and box by box.",
      level="fault_enumeration", quick_s=70)


# == C16 ===========================================================================================

def c16(ctx):
    r = ctx.rng
    k = r.random()
    truth = None
    if k < 0.45:
        d = ctx.simple(features={"chain"} | {x for x in ("compress", "split", "heading", "bold", "type1")
                                              if r.random() < 0.3}) if k < 0.06 else ctx.simple()
        pdf = d.build()
        if d.style:
            truth = [p.truth for p in d.pages]
    elif k < 0.5:
        pdf = ctx.odd(features=["hyphens"]).build()
    elif k < 0.93:
        pdf = (messy_doc(ctx) if k < 0.82 else ctx.odd(features=["unicode"]) if k < 0.88 else ctx.odd()).build()
    else:
        pdf = r.choice(workload.real_docs())[1]
        if len(pdf) > 400000:
            pdf = ctx.messy(pages=3).build()
    for _ in range(6):
        data, tags, tr = pdf, [], truth
        if r.random() < 0.2:
            kind, data = damage.whole(r, pdf)
            tags, tr = ["damage:file " + kind], None
        s = world(ctx, data)
        s.cpu = 60
        s.maxsteps = 3000000
        s.tags = tags
        s.model = r.choice([s.model, s.model, [11, 1, r.randrange(999)], [1, r.randrange(14), 0]])
        skips = [x for x in SKIPS if r.random() < 0.06] if r.random() < 0.5 else []
        out = r.choice(["/work/out.txt", "/work/out.txt", "-"])
        fmt = r.choice(["txt", "txt-extended"])
        flags = "".join("skip-%s," % x for x in skips)
        if r.random() < 0.5:
            perturb(r, s)
            s.cwd = "/work"
        if r.random() < 0.4:
            s.faults.append(["read", "/work/in.pdf", r.choice([0, r.randint(1, 50)]), "short",
                             r.choice([16, 100, 700]), r.randint(0, 1)])
        if r.random() < 0.2:
            s.faults.append(["read", r.choice([BPE, "/work/in.pdf"]), r.randint(1, 9), "delay", 10**9, 0])
        if r.random() < 0.15:
            s.faults.append(["alloc", "*", r.randint(1, 150000), "err", 0, 0])
            tr = None
        if r.random() < 0.15 and out != "-":
            s.faults.append(["write", out, r.randint(1, 3), r.choice(["short", "err"]), 4, 0])
        lib = s.copy()
        # The allocation that fails is another one there.
        lib.faults = [f for f in lib.faults if f[0] not in ("alloc", "write")]
        lib.procs = [[op("doc", 0, "/work/in.pdf", flags), op("check", 0), op("words", 0, "w"),
                      op("dump", 0, "d"),
                      op("ser", 0, "txt", "/work/lib.txt"), op("ser", 0, "txt-extended", "/work/lib.ext")]]
        s.procs = [[main("--format", fmt, *["--skip-" + x for x in skips], "/work/in.pdf", out)]]
        if any(x in skips for x in ("words-detection", "page-segmentation", "text-lines-detection",
                                    "text-blocks-detection", "glyphs-statistics-calculation",
                                    "words-statistics-calculation", "text-lines-statistics-calculation",
                                    "words-dehyphenation", "diacritic-marks-merging",
                                    "sub-super-scripts-detection", "reading-order-detection",
                                    "embedded-font-files-parsing")):
            tr = None
        yield Case("conserved", truth=tr, fmt=fmt, out=out, skips=skips).add("lib", lib).add("run", s)


def bare(t):
    return "".join(c for c in t if c not in HYPHENS and not c.isspace())


HYPHENS = "-\u00ad\u2010\u2011\u2012\u2013\u2014\u2212"


@oracle
def conserved(res, case):
    p = case.params
    lib, run = res["lib"], res["run"]
    ll, l = lib.lives[0], run.lives[0]
    if outside(ll) or outside(l):
        for k in ("lib", "run"):
            if not case.specs[k].tags and not any(f[0] == "alloc" for f in case.specs[k].faults):
                e = died(res[k].lives[0])
                if e:
                    return [e]
        return []
    if lib.dumps.get("rc0") != b"0":
        return []
    w = "skipping %s: " % p["skips"] if p["skips"] else ""
    for n in lib.notes:
        if n.startswith("invariant:"):
            m = re.sub(r"'.*?'|at \S+|\d+", "_", n)
            return [("not conserved: " + re.sub(r"[\s=]+", " ", m)[:60].strip(), w + n)]
    npages, blocks = parse_words(lib.dumps.get("w", b""))
    # Hyphenated words: the first part carries exactly the text of all its parts.
    flat = [x for pg, role, e, lines in blocks for q in lines for x in q]
    for i, (first, second, merged, text) in enumerate(flat):
        if not first:
            continue
        parts = [text]
        for x in flat[i + 1:]:
            if not x[1] or x[0]:
                break
            parts.append(x[3])
        if len(parts) < 2:
            return [("a hyphenated word without its second part", w + "'%s' -> '%s'" % (text, merged))]
        if "".join(x[:-1] for x in parts[:-1]) + parts[-1] != merged:
            return [("a hyphenated word is not made of its parts", w + "%s -> '%s'" % (parts, merged))]
    # A word that ends a line with a hyphen continues in the next line.
    rows = [q for pg, role, e, lines in blocks for q in lines if q]
    if "words-dehyphenation" not in p["skips"]:
        for q, nxt in zip(rows, rows[1:]):
            hyph = len(q[-1][3]) > 1 and q[-1][3].endswith("-")
            if hyph != bool(nxt[0][1]):
                return [("a hyphenated word is not joined" if hyph else "words without a hyphen are joined",
                         w + "'%s' at the end of a line and '%s' at the beginning of the next" % (
                             q[-1][3], nxt[0][3]))]
    # Nothing but hyphens may vanish between the words and the text.
    every = bare("".join(x[3] for x in flat))
    text = bare("".join(block_text(lines) for pg, role, e, lines in blocks))
    if every != text:
        return [("text is lost on the way from the words to the output", w + diff(every.encode(), text.encode()))]
    for path, fmt in (("/work/lib.txt", "txt"), ("/work/lib.ext", "txt-extended")):
        g, want = lib.files.get(b(path)), render(npages, blocks, fmt)
        if g != want:
            return [("the output is not the document's text", w + diff(want, g))]
    if l.code != 0:
        return []
    got = l.stdout if p["out"] == "-" else run.files.get(b(p["out"]))
    want = render(npages, blocks, p["fmt"])
    if got != want:
        return [("the program's output is not the document's text", w + "faults %s: %s" % (
            case.specs["run"].faults, diff(want, got)))]
    if p["truth"] is not None:
        # Page by page: every word once.
        for i, words in enumerate(p["truth"]):
            have = []
            for pg, role, e, lines in blocks:
                if pg == i + 1:
                    have += block_text(lines).split()
            if sorted(have) != sorted(words):
                miss = sorted(set(words) - set(have))[:6]
                extra = sorted(set(have) - set(words))[:6]
                return [("words of a plain document are lost, altered or invented", w + "page %d: missing %s, "
                         "not in the document %s" % (i + 1, miss, extra))]
    return []


Check("C16", c16, 130, 4000,
      "Seeded documents - plain ones of known words, messy, damaged and real ones - with seeded skips on perturbed "
      "heaps and through piecemeal, delayed I/O and failing allocations; the conservation laws are checked on the "
      "finished structures and the outputs are compared with an executable reference of the serializers.",
      quick_s=60)


# == C17 ===========================================================================================

def c17(ctx):
    r = ctx.rng
    docs = [pick_doc(ctx, messy=0.5, pages=1).build() for _ in range(r.choice([1, 2, 2]))]
    base = world(ctx)
    base.maxsteps = 2000000
    for i, pdf in enumerate(docs):
        base.files.append(["file", "/work/d%d.pdf" % i, pdf])
    if r.random() < 0.25:
        base.files.append(["file", "/work/bad.pdf", b"%PDF-1.4\nnothing"])
    tops = r.sample(["new", "x/y", "x/y/z", "x", "./q", "q//r", "/work/deep/er"], r.randint(1, 3))
    for rep in range(2):
        n = r.choice([2, 2, 3, 4])
        procs = []
        outs = []
        twins = r.random() < 0.25
        for i in range(n):
            bad = any(f[1] == "/work/bad.pdf" for f in base.files) and r.random() < 0.2
            pdf = "/work/bad.pdf" if bad else r.choice(["/work/d%d.pdf", "d%d.pdf"]) % r.randrange(len(docs))
            out = r.choice([r.choice(tops) + "/o%d.txt" % i] * 6 + ["/work/o%d.txt" % i, "-"])
            opts = ["--format", r.choice(["txt", "txt-extended"])]
            if r.random() < 0.1:
                opts += ["--skip-" + r.choice(SKIPS)]
            vis = None
            if r.random() < 0.15 and not (twins and any(b"/Encrypt" in d for d in docs)):
                vis = "/work/v%d.pdf" % i
                # Two writers of one file: what they write must not be random.
                what = r.choice([v for v in VISOPTS if not (twins and "cuts" in v)])
                opts += ["--visualization-path", vis, "--visualize-" + what]
            m = [main(*opts, pdf, out)]
            if twins and procs:
                m, o = procs[0], outs[0]
                out, vis = o[0], o[1]
            procs.append(m)
            outs.append((out, vis))
        run = base.copy()
        run.procs = procs
        run.par = r.choice([0, 3, 15, 40, 70, 100])
        killed = not twins and r.random() < 0.4
        if killed:
            k = r.choice(["open", "read", "write", "mkdir", "stat", "close", "read", "step"])
            p = "*" if k != "step" else r.choice(STEPS)[0]
            run.faults.append([k, p, r.randint(1, {"read": 60, "stat": 12, "mkdir": 4, "open": 14, "write": 8,
                                                   "close": 10, "step": 4}[k]), "crash", 0, 0])
        for _k in range(r.choice([0, 0, 1, 2])):
            run.faults.append([r.choice(["read", "stat", "open"]), "*", r.randint(1, 80),
                               "delay", r.choice([10**6, 10**10]), 0])
        if r.random() < 0.2:
            run.faults.append(["read", "*", 0, "short", r.choice([100, 1000]), 1])
        c = Case("side_by_side", outs=outs, twins=twins)
        for i in range(n):
            s = base.copy()
            s.procs = [procs[i]]
            c.add("solo%d" % i, s)
        c.add("run", run)
        for _again in range(4):
            q = run.copy()
            q.seed = r.randrange(1, 2**31)          # another schedule of the same parties
            q.par = r.choice([0, 3, 15, 40, 70, 100])
            c.add("run%d" % _again, q)
        yield c


@oracle
def side_by_side(res, case):
    p = case.params
    for name in res:
        if name.startswith("solo"):
            continue
        run, spec = res[name], case.specs[name]
        want_files, want_dirs, maybe = {}, set(), set()
        for i, (out, vis) in enumerate(p["outs"]):
            solo = res["solo%d" % i]
            a, c = solo.lives[0], run.lives[i]
            w = "run %d of %d, faults %s: " % (i + 1, len(p["outs"]), spec.faults)
            if outside(a):
                return []
            if c.how == "crash":
                maybe |= set(solo.files) | set(solo.dirs)
                continue
            e = ended(c)
            if e:
                return [("side by side: " + e[0], w + e[1])]
            if c.how != a.how:
                return [("side by side, a run ends differently", w + "%s instead of %s; %s" % (
                    c.how, a.how, tail(c.stderr)))]
            if c.stdout != a.stdout:
                return [("side by side, a run prints something else", w + diff(a.stdout, c.stdout))]
            if c.stderr != a.stderr:
                return [("side by side, a run reports something else", w + "'%s' instead of '%s'" % (
                    tail(c.stderr), tail(a.stderr)))]
            want_files.update(solo.files)
            want_dirs |= set(solo.dirs)
        for f, v in want_files.items():
            g = run.files.get(f)
            if f.endswith(b".pdf"):
                g, v = pdf_skeleton(g), pdf_skeleton(v)
            if g != v:
                return [("side by side, an output differs", "%s, faults %s: %s" % (
                    f.decode("utf-8", "replace"), spec.faults, diff(v, g)))]
        more = set(run.files) - set(want_files) - maybe
        if more or set(run.dirs) - want_dirs - maybe or want_dirs - set(run.dirs):
            return [("side by side, other files or directories are left", "%s" % sorted(
                more | (set(run.dirs) ^ want_dirs)))]
    return []


Check("C17", c17, 110, 2000,
      "Seeded groups of two to four runs on the same or different PDFs with outputs in shared, not yet existing "
      "directories; a seeded scheduler interleaves them at every I/O event, one may be killed anywhere; each "
      "surviving run must end, print and write as it does alone.",
      assumptions=["processes interleave at I/O events; between them they share nothing"])


# == C18 ===========================================================================================

GIVES = {"words-detection": r"(?m)^word ", "page-segmentation": r"(?m)^seg ", "text-lines-detection": r"(?m)^ line ",
         "text-blocks-detection": r"(?m)^block ", "words-dehyphenation": r"(?m)^word .*( hy1=| hy2$)",
         "sub-super-scripts-detection": r"(?m)^c .* sub=(?!00)", "diacritic-marks-merging": r"(?m)^c .* d='[^']",
         "semantic-roles-prediction": r"(?m)^block .* role=(?!12 )",
         "reading-order-detection": r"(?m)^block .* role=(?!12 )"}


def c18(ctx):
    r = ctx.rng
    k = r.random()
    d = ctx.odd() if k < 0.6 else messy_doc(ctx, pages=r.choice([1, 1, 2])) if k < 0.85 else ctx.simple()
    truth = [w for p in d.pages for w in p.truth] if d.style else None
    pdf = d.build()
    dens = r.choice([0.08, 0.08, 0.3, 0.5, 0.9])
    if r.random() < 0.2:
        # The name of another format: either it is refused, or the text comes out in it.
        ref = world(ctx, pdf)
        ref.maxsteps = 3000000
        ref.procs = [[main("/work/in.pdf", "/work/out.txt")]]
        s = ref.copy()
        fmt = r.choice(["jsonl", "jsonl", "jsonl", "json", "xml", "TXT", "txt-", "text", "txt-extended ", ""])
        s.procs = [[main("--format", fmt, "/work/in.pdf", "/work/out.txt")]]
        yield Case("other_format", fmt=fmt).add("ref", ref).add("run", s)
    for _ in range(5):
        s = world(ctx, pdf)
        s.cpu = 60
        s.maxsteps = 3000000
        q = r.random()
        if q < 0.15:
            skips = []
        elif q < 0.22:
            skips = [r.choice(SKIPS)]
        elif q < 0.29:
            x = r.choice(SKIPS)
            skips = [y for y in SKIPS if y != x]
        elif q < 0.33:
            i = r.randrange(len(SKIPS))
            skips = SKIPS[i:]
        else:
            skips = [x for x in SKIPS if r.random() < dens]
        nomodel = {"semantic-roles-prediction", "reading-order-detection"} & set(skips)
        if nomodel and r.random() < 0.6:
            if r.random() < 0.5:
                s.files = [f for f in s.files if f[1] == "/work/in.pdf"]
            else:
                s.model = [r.choice([2, 3, 4, 5, 7]), 1, 1]
        fmt = r.choice(["txt", "txt-extended"])
        out = r.choice(["/work/out.txt", "/work/out.txt", "/work/new/out.txt", "-"])
        opts = ["--format", fmt] + ["--skip-" + x for x in skips]
        roles = None
        if r.random() < 0.25:
            roles = r.sample(ROLES, r.randint(1, 4)) + (["other"] if r.random() < 0.5 else [])
            for x in roles:
                opts += ["--role", x]
        if r.random() < 0.2:
            opts += [r.choice(["--control-characters", "--semantic-roles", "--no-scripts", "--no-dehyphenation"])]
        vis = r.random() < 0.35
        logs = out != "-"
        if logs and r.random() < 0.4:
            opts += ["--verbosity", r.choice(["trace", "debug", "info", "warn", "error"])]
            for x in DEBUGS:
                if r.random() < 0.15:
                    opts.append("--debug-" + x)
            if r.random() < 0.3:
                opts += ["--log-page-filter", str(r.choice([0, 1, 2, 99, -1]))]
        if logs and r.random() < 0.3:
            opts.append("--print-running-times")
        if vis:
            opts += ["--visualization-path", "/work/vis.pdf"]
            opts += ["--visualize-" + x for x in VISOPTS if r.random() < 0.4]
        files = ["/work/in.pdf", out]
        args = opts + files if r.random() < 0.7 else files + opts
        if r.random() < 0.4:
            s.heap = [r.randrange(5), r.choice([0, 1, 3, 40]), r.randrange(7), r.randrange(4096)]
        flags = "".join("skip-%s," % x for x in skips)
        lib = s.copy()
        lib.procs = [[op("doc", 0, "/work/in.pdf", flags), op("dump", 0, "d"), op("words", 0, "w")]]
        raw = s.copy()
        raw.procs = [[op("doc", 0, "/work/in.pdf", "".join("skip-%s," % x for x in SKIPS)), op("dump", 0, "d")]]
        s.procs = [[main(*args)]]
        c = Case("normal_end", skips=skips, roles=roles, fmt=fmt, out=out, vis=vis, nomodel=bool(nomodel),
                 opts=opts, truth=truth)
        c.add("run", s).add("lib", lib).add("raw", raw)
        if r.random() < 0.4:
            c.add("asan", s.copy(), "asan")
        fs = [f for f in d.fonts.values() if f.fontfile and f.fontfile[0]]
        if fs and "embedded-font-files-parsing" in skips:
            import copy
            e = copy.deepcopy(d)
            for f in e.fonts.values():
                if f.fontfile and f.fontfile[0]:
                    f.fontfile = damage.type1(r, f.fontfile)[1]
            o = lib.copy()
            o.files = [f for f in lib.files if f[1] != "/work/in.pdf"] + [["file", "/work/in.pdf", e.build()]]
            c.add("otherfont", o)
        yield c


def letters(t):
    import unicodedata
    n = {}
    for ch in unicodedata.normalize("NFKD", t):
        if ch.isalnum():
            n[ch] = n.get(ch, 0) + 1
    return n


@oracle
def other_format(res, case):
    w = "--format '%s': " % case.params["fmt"]
    rl, l = res["ref"].lives[0], res["run"].lives[0]
    for x in (rl, l):
        e = died(x)
        if e:
            return [("%s" % e[0], w + e[1])]
        if outside(x):
            return []
    if rl.code != 0:
        return [("an accepted combination of options fails", "no option: %s; %s" % (rl.how, tail(rl.stderr)))]
    got = res["run"].files.get(b"/work/out.txt")
    if l.code != 0:
        if not l.stderr.strip():
            return [("an option value is refused without a message", w + l.how)]
        return []
    if got is None:
        return [("success without a result", w + "no output file")]
    want = res["ref"].files.get(b"/work/out.txt", b"")
    a, h = letters(want.decode("utf-8", "replace")), letters(got.decode("utf-8", "replace"))
    miss = {k: n - h.get(k, 0) for k, n in a.items() if h.get(k, 0) < n}
    if miss:
        return [("the result lacks text", w + "%s" % dict(list(sorted(miss.items()))[:6]))]
    return []


@oracle
def normal_end(res, case):
    p = case.params
    w = "%s: " % " ".join(p["opts"])
    for k in ("run", "asan", "lib", "raw"):
        if k not in res:
            continue
        l = res[k].lives[0]
        e = died(l)
        if e:
            return [("%s" % e[0], w + e[1])]
        if outside(l):
            return []
    run, lib = res["run"], res["lib"]
    for k in ("run", "asan"):
        if k in res and res[k].lives[0].code != 0:
            l = res[k].lives[0]
            return [("an accepted combination of options fails", w + "%s: %s; %s" % (k, l.how, tail(l.stderr)))]
    got = run.lives[0].stdout if p["out"] == "-" else run.files.get(b(p["out"]))
    if got is None:
        return [("success without a result", w + "no output file")]
    try:
        text = got.decode("utf-8")
    except UnicodeDecodeError as ex:
        return [("the result is not valid UTF-8", w + str(ex))]
    if lib.dumps.get("rc0") != b"0":
        return [("the library fails where the program does not", w + str(lib.dumps.get("rc0")))]
    if "asan" in res:
        o = res["asan"].lives[0].stdout if p["out"] == "-" else res["asan"].files.get(b(p["out"]))
        if o != got:
            return [("the same run gives another text", w + diff(got, o or b""))]
    npages, blocks = parse_words(lib.dumps.get("w", b""))
    want = render(npages, blocks, p["fmt"], p["roles"])
    if got != want:
        return [("the output is not the document's text", w + diff(want, got))]
    if p["vis"] and not run.files.get(b"/work/vis.pdf"):
        return [("success without a visualization", w)]
    if p["nomodel"] and run.lives[0].counts.get("modelrun"):
        return [("a step that was left out has an effect", w + "the model was asked")]
    d = lib.dumps.get("d", b"").decode("utf-8", "replace")
    for x in p["skips"]:
        if x in GIVES:
            m = re.search(GIVES[x], d)
            if m:
                return [("a step that was left out has an effect", w + "%s: %s" % (
                    x, d[m.start():m.start() + 200].split("\n")[0]))]
    raw = res["raw"].dumps.get("d", b"").decode("utf-8", "replace")
    if set(p["skips"]) >= set(SKIPS) and d != raw:
        return [("a step that was left out has an effect", w + diff(raw.encode(), d.encode()))]
    if "otherfont" in res and not outside(res["otherfont"].lives[0]):
        o = res["otherfont"].dumps.get("d", b"").decode("utf-8", "replace")
        if o != d:
            return [("a step that was left out has an effect", w + "embedded-font-files-parsing: " + diff(
                d.encode(), o.encode()))]
    # Nothing is invented: the characters of the text are those the pages were parsed for.
    have = {}
    for line in raw.split("\n"):
        m = re.match(r"c .*? '(.*)' d='' op=", line)
        if m:
            for ch, n in letters(m.group(1)).items():
                have[ch] = have.get(ch, 0) + n
    if p["fmt"] == "txt":
        for ch, n in letters(text).items():
            if n > have.get(ch, 0):
                return [("text is invented", w + "%d times '%s' on the pages, %d times in the output" % (
                    have.get(ch, 0), ch, n))]
    if p["truth"] is not None and not p["skips"] and p["roles"] is None and p["fmt"] == "txt":
        if sorted(words_of(got)) != sorted(p["truth"]):
            return [("words of a plain document are lost, altered or invented", w + diff(
                " ".join(sorted(p["truth"])).encode(), b" ".join(sorted(got.split()))))]
    return []


Check("C18", c18, 200, 4000,
      "Seeded subsets of skipped steps, roles, formats, observation and visualization options on well-formed "
      "documents, most of them odd (no pages, no text, one character, no sizes, singular matrices, piles, drawings "
      "only), some without a model, plain and under AddressSanitizer, against the structures of the library, a "
      "reference serializer and the characters that were parsed.",
      variants=("plain", "asan"), quick_s=60)
