"""Swarm workload: random documents with known text, small enough to run thousands of times."""
import os
import unicodedata

import pdfgen
from pdfgen import Doc, Font, Page, Words, text_width

REPO = os.environ.get("SIM_REPO", "/repo")
MODELDIR = "/sim/models"


def para_lines(rng, words, size, colw, nlines, hyph=0.0):
    """Random lines of unique words that fill the column width; returns [(tokens, hyphenated)]."""
    lines = []
    carry = None
    for i in range(nlines):
        toks = []
        w = 0.0
        if carry:
            toks.append(carry)
            w = text_width(carry, size)
            carry = None
        last = i == nlines - 1
        limit = colw * (0.35 + 0.5 * rng.random()) if last else colw
        while True:
            nw = words.word()
            add = text_width(nw, size) + (text_width(" ", size) if toks else 0)
            if w + add > limit and toks:
                break
            toks.append(nw)
            w += add
        hy = False
        if not last and hyph and rng.random() < hyph and len(toks[-1]) >= 6:
            k = len(toks[-1]) // 2
            carry = toks[-1][k:]
            toks[-1] = toks[-1][:k] + "-"
            hy = True
        lines.append((toks, hy))
    return lines


def put_line(page, rng, fk, font, size, x, y, toks, colw, style):
    """style: one string with spaces, one string per word, one per glyph, or justified words."""
    if style == "line":
        page.text(fk, font, size, x, y, " ".join(toks), mode=rng.choice(["Tj", "TJ", "hex"]))
        return
    gap = text_width(" ", size)
    if style == "justify" and len(toks) > 1:
        total = sum(text_width(t, size) for t in toks)
        g = (colw - total) / (len(toks) - 1)
        if gap * 0.8 < g < gap * 3.0:
            gap = g
    for t in toks:
        if style == "glyph":
            cx = x
            for c in t:
                page.text(fk, font, size, cx, y, c)
                cx += text_width(c, size)
        else:
            page.text(fk, font, size, x, y, t, mode=rng.choice(["Tj", "TJ"]))
        x += text_width(t, size) + gap


def merge(lines):
    """The words a reader sees: hyphenated parts joined."""
    out = []
    pend = None
    for toks, hy in lines:
        toks = list(toks)
        if pend is not None:
            toks[0] = pend + toks[0]
            pend = None
        if hy:
            pend = toks.pop()[:-1]
        out += toks
    if pend:
        out.append(pend)
    return out


# More of one thing than usual: fonts, lines in a block, columns, letters in a word, pages, area, words in a line.
SCALES = ["manyfonts", "dense", "threecol", "longword", "manypages", "hugesheet", "landscape"]


def simple_doc(rng, pages=None, features=None):
    """A document whose every word must come out. Features are drawn per document (swarm)."""
    d = Doc()
    f = features
    if f is None:
        f = {k for k in ("type1", "type3", "cid", "bold", "twocol", "hyph", "footer", "heading",
                         "shapes", "image", "compress", "split", "diffs", "rot", "empty", "super", "chain")
             if rng.random() < 0.3}
        if rng.random() < 0.06:
            f.add("long")
        if rng.random() < 0.22:
            f.add(rng.choice(SCALES))
    words = Words(rng)
    base = rng.choice(["Tempora", "Helveto", "Garamon"])
    d.compress = "compress" in f
    body = Font(base + "-Roman", "plain")
    if "type1" in f:
        chars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-.,()"
        body = Font("ABCDEF+" + base, "type1")
        body.fontfile = pdfgen.type1("ABCDEF+" + base, chars, pfb=rng.random() < 0.3,
                                     hexform=rng.random() < 0.3, subrs=rng.randint(1, 5),
                                     tricky=rng.randint(0, 1))
    elif "type3" in f:
        body = Font("" if rng.random() < 0.7 else "Drawn", "type3")
        body.chars = "".join(chr(c) for c in range(33, 127))
    elif "cid" in f:
        body = Font("ABCDEG+" + base + "CID", "cid")
        body.nbytes = rng.choice([2, 2, 1, 3, 4])
    text = {}
    if body.kind in ("type3", "cid") and rng.random() < 0.6:
        text = script(rng, body)
    d.font("F1", body)
    bold = d.font("F2", Font(base + "-Bold", "plain", bold=True))
    if "type3" in f:
        x = Font("", "type3")
        x.chars = "".join(chr(c) for c in range(33, 127))
        d.font("F3", x)
    faces = []
    if "manyfonts" in f:
        for i in range(rng.choice([5, 12, 33])):
            faces.append("G%d" % i)
            d.font("G%d" % i, Font("%s%d-%s" % (base, i * 7, rng.choice(["Roman", "Book"])), "plain"))
    size = rng.choice([9, 10, 10, 11, 12])
    if "dense" in f:
        size = rng.choice([4, 5, 6])
    lead = round(size * rng.choice([1.2, 1.25, 1.4]), 2)
    # A long text does not fit into any buffer on its way to the output.
    long = "long" in f
    npages = pages or rng.choice([2, 2, 3, 4, 5] if long else [1, 1, 1, 2, 2, 3])
    if "manypages" in f and not pages:
        npages = rng.choice([9, 10, 11, 12, 17, 26])
    pw, ph = 612, 792
    if "hugesheet" in f:
        pw, ph = rng.choice([(1190, 1684), (3370, 2384), (842, 1190)])
    elif "landscape" in f:
        pw, ph = rng.choice([(792, 612), (1224, 792), (960, 540)])
    styles = ["line", "words", "justify"] if rng.random() < 0.8 else ["glyph"]
    if body.kind == "type3" and "line" in styles:
        styles = ["words"]
    style = rng.choice(styles)
    hy = 0.25 if "hyph" in f else 0.0
    for pi in range(npages):
        p = Page(pw, ph, rotate=0)
        d.pages.append(p)
        p.split_contents = "split" in f
        if "empty" in f and pi == npages - 1 and npages > 1:
            continue
        y = ph - 72.0
        lm = 72.0
        if "heading" in f and rng.random() < 0.7:
            toks = [words.word() for _ in range(rng.randint(2, 4))]
            put_line(p, rng, "F2", bold, size + 4, lm, y, toks, 400, "line")
            p.truth += toks
            p.blocks.append(toks)
            y -= lead * 2.5
        cols = 2 if "twocol" in f else 1
        colw = rng.choice([468.0, 340.0, 222.0]) if cols == 1 else 222.0
        if "threecol" in f:
            cols = rng.choice([3, 3, 4]) if pw <= 700 else rng.choice([3, 5])
            colw = round((pw - 144.0 - 24 * (cols - 1)) / cols, 1)
        elif cols == 1 and pw > 700:
            colw = rng.choice([colw, pw - 144.0])
        npar = rng.choice([1, 1, 2]) if cols == 1 else rng.choice([1, 1, 1, 2])
        if "manypages" in f:
            npar = 1
        if long:
            npar = int((y - 90) / (lead * 10.6))
        top = y
        for ci in range(cols):
            y = top
            x0 = lm + ci * (colw + 24)
            for _ in range(npar):
                fk, fo = "F1", body
                if "bold" in f and rng.random() < 0.3:
                    fk, fo = "F2", bold
                elif "type3" in f and rng.random() < 0.3:
                    fk, fo = "F3", d.fonts["F3"]
                st = style
                if fo.kind == "type3" and st in ("line",):
                    st = "words"
                nl = 9 if long else rng.choice([2, 2, 3, 4])
                if faces:
                    fk = rng.choice(faces)
                    fo = d.fonts[fk]
                    st = style
                if "dense" in f and not long and "manypages" not in f and ph > 600:
                    nl = max(2, int((y - 110) / lead / npar) - 3)
                lines = para_lines(rng, words, size, colw, nl, hy)
                if "longword" in f and not hy:
                    for _ in range(rng.choice([1, 2])):
                        t_ = lines[rng.randrange(len(lines))][0]
                        for n_ in (60, 40, 25, 12):          # syllables
                            w_ = words.word(n_, n_ + 5)
                            if text_width(w_, size) < colw * 0.95:
                                t_[:] = [w_]
                                break
                for toks, _h in lines:
                    put_line(p, rng, fk, fo, size, x0, y, toks, colw, st)
                    y -= lead
                if "chain" in f and cols == 1 and not hy and not long and fo.kind != "type3" and rng.random() < 0.5:
                    # a narrow place: one word over several lines
                    parts = [words.word() for _ in range(rng.choice([2, 3, 3, 4]))]
                    tail = [words.word() for _ in range(2)]
                    ls = [([q + "-"], True) for q in parts[:-1]] + [([parts[-1]] + tail, False)]
                    for toks, _h in ls:
                        put_line(p, rng, fk, fo, size, x0, y, toks, colw, "words")
                        y -= lead
                    lines = lines + ls
                m = merge(lines)
                if text and fo is body:
                    m = ["".join(text.get(c, c) for c in w_) for w_ in m]
                p.truth += m
                p.blocks.append(m)
                y -= lead * 1.6
        if "footer" in f:
            t = words.word()
            p.text("F1", body, size - 1, 300, 40, t)
            t = "".join(text.get(c, c) for c in t)
            p.truth.append(t)
            p.blocks.append([t])
        if "shapes" in f:
            p.ops.append(b"q 1 0 0 RG 72 60 m 540 60 l S Q\n")
            p.ops.append(b"q 72 62 100 0.5 re f Q\n")
        if "image" in f:
            p.ops.append(b"q 40 0 0 40 400 80 cm /Im Do Q\n")
            p.images = 1
    d.features = sorted(f)
    d.style = style
    return d


# Where the letters of other scripts begin (nothing that is a blank, a mark, a hyphen or a symbol of formulas).
SCRIPTS = [0x430, 0x3b1, 0xe0, 0x1d44e, 0x1d586, 0xe000, 0xf8d0, 0xf0000, 0x10ff00, 0x4e00, 0x20000, 0xac00, 0x5d0, 0x671,
           0x1f600, 0xff41, 0x10400, 0x3041, 0x14a, 0x1e02, 0x2460]


def script(rng, font):
    """Gives the letters of a font other texts; returns them."""
    first = rng.choice(SCRIPTS)
    text = {}
    for i, c in enumerate("abcdefghijklmnopqrstuvwxyz"):
        if rng.random() < 0.9:
            u = chr(first + i)
            if unicodedata.category(u)[0] in "LSNC" and unicodedata.category(u) != "Cn" and \
                    not unicodedata.decomposition(u):
                text[c] = u
    for c in rng.sample("abcdefghijklmnopqrstuvwxyz", rng.choice([0, 1, 2, 3])):
        text[c] = rng.choice(["ffi", "st", "\u0436\u0437", "Abcdef", "\U0001d44e\U0001d44f", "\ufb01"])
        if font.kind == "type3" and rng.random() < 0.7:
            # (A name that stands for something else when the font says nothing about the character.)
            if len(text[c]) > 1 and not font.names:
                font.names[c] = rng.choice(["circlecopyrt", "prime", "epsilon1"])
    font.umap = dict(text)
    if font.kind == "type3" and rng.random() < 0.4:
        c = rng.choice("abcdefghijklmnopqrstuvwxyz")
        if c not in font.names and "circlecopyrt" not in font.names.values():
            font.names[c] = "circlecopyrt"
            font.umap[c] = "x"
            text[c] = "\u00a9"
    return text


_vocab = None


def model_files(small=True, rng=None):
    """The resources of the simulated model party."""
    global _vocab
    if _vocab is None:
        R = os.path.join(REPO, "resources/models/2021-08-30_model-3K-documents")
        with open(os.path.join(R, "bpe-vocab.tsv"), "rb") as fh:
            big = fh.read()
        with open(os.path.join(R, "roles-vocab.tsv"), "rb") as fh:
            roles = fh.read()
        lines = big.split(b"\n")
        _vocab = (big, b"\n".join(lines[:300]) + b"\n", roles)
    big, sm, roles = _vocab
    return [["dir", "/sim", b""], ["dir", MODELDIR, b""],
            ["file", MODELDIR + "/bpe-vocab.tsv", sm if small else big],
            ["file", MODELDIR + "/roles-vocab.tsv", roles],
            ["file", MODELDIR + "/saved_model.pb", b"SIMMODEL 1\n"]]


# -- messy documents: every construct the pipeline reacts to, no layout truth ----------------------

MATH = {"S": "summationdisplay", "P": "productdisplay", "I": "integraldisplay", "s": "summation",
        "p": "product", "i": "integral", "t": "summationtext", "=": "equal", "<": "less"}


def messy_doc(rng, pages=None, features=None):
    """Pages full of what real papers contain: formulas, accents, figures, footnotes, rotation."""
    d = Doc()
    words = Words(rng)
    f = features
    ALL = ("accents", "math", "figures", "rot", "super", "columns", "centered", "footnotes",
           "table", "overlap", "tinyhuge", "type1", "type3", "nameless", "cid", "hyph", "refs",
           "outside", "invisible", "ligature", "multifont", "compress", "split", "emptypage",
           "pagerot", "shapes", "caps", "samefontname", "color", "graphics", "stacked", "vertical")
    if f is None:
        f = {k for k in ALL if rng.random() < 0.35}
    d.compress = "compress" in f
    chars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-.,()"
    base = rng.choice(["CMR10", "Tempora-Roman", "ABCDEF+NimbusRomNo9L-Regu"])
    body = Font(base, "plain")
    if "type1" in f:
        body = Font(base, "type1")
        body.fontfile = pdfgen.type1(base, chars, pfb=rng.random() < 0.3, subrs=rng.randint(1, 5),
                                     tricky=rng.randint(0, 1))
    elif "cid" in f:
        body = Font(base, "cid")
        body.nbytes = rng.choice([2, 2, 1, 3, 4])
    elif "type3" in f:
        body = Font("", "type3")
        body.chars = "".join(chr(c) for c in range(33, 127))
    d.font("F1", body)
    fonts = [("F1", body)]

    def addfont(k, fo):
        d.font(k, fo)
        fonts.append((k, fo))
        return fo

    bold = addfont("F2", Font(base + "-Bold" if "samefontname" not in f else base, "plain", bold=True))
    ital = addfont("F4", Font("Tempora-Italic", "plain", italic=True))
    if "nameless" in f:
        for i in range(rng.randint(1, 3)):
            x = Font("", "type3")
            x.chars = "".join(chr(c) for c in range(33, 127))
            x.scale = rng.choice([1.0, 1.0, 0.8, 1.3])
            addfont("N%d" % i, x)
    mathf = None
    if "math" in f:
        mathf = Font("CMEX10", "plain", diffs={ord(k): v for k, v in MATH.items()})
        addfont("M1", mathf)
    accf = None
    if "accents" in f:
        accf = Font("CMR8acc", "plain", diffs={65: "acute", 66: "grave", 67: "dieresis", 68: "circumflex",
                                             69: "tilde", 70: "caron", 71: "cedilla", 72: "ring"})
        addfont("A1", accf)
    if "ligature" in f:
        lig = Font("CMRlig", "plain", diffs={65: "fi", 66: "fl", 67: "ff", 68: "ffi", 69: "quotedblleft",
                                             70: "germandbls", 71: "emdash"})
        addfont("L1", lig)
    size = rng.choice([8, 9, 10, 10, 11])
    lead = round(size * rng.choice([1.15, 1.2, 1.3]), 2)
    npages = pages or rng.choice([1, 1, 1, 2, 2, 3])
    npar = rng.choice([1, 2])
    for pi in range(npages):
        p = Page(rotate=rng.choice([90, 180, 270]) if "pagerot" in f and rng.random() < 0.5 else 0)
        p.drawn = 0
        d.pages.append(p)
        p.split_contents = "split" in f
        if "emptypage" in f and rng.random() < 0.25:
            continue
        cols = 2 if "columns" in f else 1
        colw = 222.0 if cols == 2 else rng.choice([468.0, 300.0])
        y = 730.0
        fk, fo = "F1", body
        st = "words" if body.kind == "type3" else rng.choice(["line", "words", "justify"])
        if "centered" in f:
            for s in (size + 5, size):
                toks = [words.word() for _ in range(rng.randint(2, 5))]
                w = text_width(" ".join(toks), s)
                put_line(p, rng, "F2", bold, s, 306 - w / 2, y, toks, w, "line")
                y -= s * 1.6
        if "caps" in f:
            put_line(p, rng, "F2", bold, size, 72, y, [words.word().upper() for _ in range(2)], 300, "line")
            y -= lead * 1.8
        top = y
        low = y
        for ci in range(cols):
            y = top
            x0 = 72 + ci * (colw + 24)
            for _ in range(npar):
                lines = para_lines(rng, words, size, colw, rng.choice([2, 3, 3, 5]),
                                   0.3 if "hyph" in f else 0.0)
                ind = rng.choice([0, 0, size * 1.5])
                for li, (toks, _h) in enumerate(lines):
                    xx = x0 + (ind if li == 0 else 0)
                    if "multifont" in f and rng.random() < 0.4 and len(toks) > 2:
                        k = rng.randrange(1, len(toks))
                        ff = rng.choice(fonts[1:3])
                        put_line(p, rng, fk, fo, size, xx, y, toks[:k], colw, "words")
                        xx += text_width(" ".join(toks[:k]) + " ", size)
                        put_line(p, rng, ff[0], ff[1], size, xx, y, toks[k:], colw, "words")
                    else:
                        put_line(p, rng, fk, fo, size, xx, y, toks, colw - ind, st)
                    if "super" in f and rng.random() < 0.35:
                        ex = xx + text_width(" ".join(toks), size) + 0.5
                        dy = rng.choice([3.5, -2.0])
                        p.text(fk, fo, size - 3, min(ex, x0 + colw - 6), y + dy, str(rng.randrange(10)))
                    if accf is not None and rng.random() < 0.5:
                        # an accent drawn over (or under) an existing letter
                        wpos = xx + text_width(toks[0][:1], size) * 0.2
                        for _m in range(rng.choice([1, 1, 1, 2, 3])):
                            p.text("A1", accf, size, wpos, y + rng.choice([0, 0.3, 1.0]),
                                   rng.choice("ABCDEFGH"))
                    if "ligature" in f and rng.random() < 0.3:
                        p.text("L1", d.fonts["L1"], size, xx + colw * 0.5, y - 0.1, rng.choice("ABCDEFG"))
                    y -= lead
                y -= lead * rng.choice([0.4, 0.8, 1.5])
                if mathf is not None and rng.random() < 0.7:
                    # a display formula with limits stacked over and under the big operator
                    ox = x0 + colw * 0.35
                    op = rng.choice("SPIspit")
                    p.text("M1", mathf, size + 2, ox, y, op)
                    p.text("F4", ital, size - 3, ox + 1, y + size + 1, rng.choice("nmk"))
                    p.text("F4", ital, size - 3, ox - 2, y - size + 1, rng.choice("ijk") + "=1")
                    p.text("F4", ital, size, ox + size * 1.4, y, "x")
                    p.text("F4", ital, size - 3, ox + size * 2.0, y - 2, "i")
                    p.text("F1", body, size, ox + size * 2.6, y, "(" + str(rng.randrange(9)) + ")")
                    y -= lead * 2.6
                if "stacked" in f and rng.random() < 0.8:
                    # operators whose limits contain operators, drawn from the top or from the bottom
                    st_ = [(rng.choice(["lim", "sup", "lim", words.word()]),
                            size + rng.choice([4, 4, 1, -2])) for j in range(rng.randint(2, 5))]
                    if rng.random() < 0.5:
                        rng.shuffle(st_)
                    up = rng.choice([1, -1])
                    ox = x0 + colw * 0.3
                    for j, (t_, z_) in enumerate(st_):
                        p.text("F1", body, max(z_, 3), ox + rng.choice([0, 1, 4, 8, 12]),
                               y - lead * 1.2 * (j if up > 0 else len(st_) - 1 - j), t_,
                               **({"rot": rng.choice([90, 270])} if rng.random() < 0.15 else {}))
                    y -= lead * 1.2 * (len(st_) + 1)
                if "nameless" in f and rng.random() < 0.6:
                    k, x = rng.choice([q for q in fonts if q[0].startswith("N")])
                    put_line(p, rng, k, x, size, x0, y, [words.word() for _ in range(3)], colw, "words")
                    y -= lead * 1.2
                if "table" in f and rng.random() < 0.6:
                    for r in range(3):
                        for c in range(3):
                            p.text("F1", body, size, x0 + c * colw / 3, y, words.word(1, 2))
                        y -= lead
                    y -= lead
                if "figures" in f and rng.random() < 0.7:
                    w, h = colw * 0.6, 50
                    p.ops.append(b"q %d %d %d %d re W n " % (int(x0 + 10), int(y - h), int(w), h) +
                                 b"0.5 w %d %d m %d %d l S " % (int(x0 + 12), int(y - h + 4),
                                                                int(x0 + w), int(y - 6)))
                    p.text("F1", body, size - 2, x0 + 20, y - 20, words.word())
                    p.text("F1", body, size - 2, x0 + 20, y - 35, words.word())
                    p.ops.append(b"Q\n")
                    y -= h + lead
                    p.text("F2", bold, size, x0, y, "Figure %d: " % (ci + 1) + words.word())
                    y -= lead * 1.6
            low = min(low, y)
        if "refs" in f:
            for i in range(rng.randint(1, 3)):
                put_line(p, rng, fk, fo, size, 72, low, ["[%d]" % (i + 1)] +
                         [words.word() for _ in range(5)], 400, "words")
                low -= lead
                put_line(p, rng, fk, fo, size, 90, low, [words.word() for _ in range(2)], 400, "words")
                low -= lead
        if "vertical" in f:
            if "V1" not in d.fonts:
                d.font("V1", Font("CMRvert", "cid"))
                d.fonts["V1"].vertical = True
                d.fonts["V1"].nbytes = rng.choice([1, 2, 2, 4])
            for i in range(rng.choice([1, 3])):
                p.text("V1", d.fonts["V1"], size, 500 - lead * i, 690, words.word() + " " + words.word(),
                       rot=rng.choice([0, 0, 0, 90, 180, 270]))
        if "rot" in f:
            p.text("F1", body, size, 40, 300, words.word() + " " + words.word(),
                   rot=rng.choice([90, 180, 270]))
        if "overlap" in f:
            t = words.word()
            for dx in (0, 0.2, 0.4):
                p.text("F2", bold, size, 320 + dx, 150, t)
        if "tinyhuge" in f:
            p.text("F2", bold, 1, 300, 130, words.word())
            p.text("F2", bold, 70, 100, 60, rng.choice("ABC"))
        if "outside" in f:
            p.text("F2", bold, size, 700, 900, words.word())
        if "invisible" in f:
            how = rng.choice([b"3 Tr\n", b"/G0 gs\n", b"/G1 gs\n"])
            p.ops.append(how)
            p.text("F2", bold, size, 350, 120, words.word())
            p.ops.append(b"0 Tr /G2 gs\n")
        if "color" in f:
            p.ops.append(b"0.2 0.4 0.9 RG 0.9 0.1 0.1 rg\n")
        if "shapes" in f:
            p.ops.append(b"q 72 90 m 300 90 l S 72 88 200 0.5 re f Q\n")
        if "graphics" in f:
            p.ops.append(b"q 40 0 0 40 400 90 cm /Im Do Q\n")
            p.images = 1
        if "footnotes" in f:
            p.ops.append(b"q 0.4 w 72 84 m 200 84 l S Q\n")
            p.text("F1", body, size - 4, 72, 78, "1")
            put_line(p, rng, fk, fo, size - 2, 77, 75, [words.word() for _ in range(4)], 300, "words")
        p.text("F1", body, size - 1, 303, 40, str(pi + 1))
    d.features = sorted(f)
    d.style = ""
    return d


# -- ways of packing the same pages into a file ----------------------------------------------------

WRAPS = ["in:nested", "in:objstm", "in:encrypt", "in:increment", "in:form", "in:origin", "in:crop",
         "in:userunit", "in:annots", "in:inlineimage", "in:blank", "in:shift",
         "in:layer"]


def wrappings(rng):
    if rng.random() < 0.55:
        return []
    return rng.sample(WRAPS, rng.choice([1, 1, 2, 3]))


def wrap(rng, d, features):
    """None of this changes the text of the document."""
    d.nested = "in:nested" in features
    d.objstm = "in:objstm" in features
    d.increment = "in:increment" in features and not d.objstm
    if "in:encrypt" in features and not d.objstm:
        d.encrypt = b"owner"
    for p in d.pages:
        if "in:form" in features:
            p.form = rng.choice([1, 1, 2])
        if "in:origin" in features:
            p.origin = (rng.choice([0, 100, -300]), rng.choice([77, -1000, 5000]))
        if "in:crop" in features:
            x, y = p.origin
            p.crop = rng.choice([(x + 3, y + 3, x + p.w - 3, y + p.h - 3), (x - 50, y - 50, x + p.w + 50, y + p.h + 50)])
        if "in:userunit" in features:
            p.userunit = rng.choice([0.5, 2, 3])
        if "in:shift" in features:
            # All of it, or some of it, lies beside the visible page.
            p.shift = (rng.choice([0, 0, -150, -700, 900]), rng.choice([0, -400, 800, 3000]))
        if "in:layer" in features:
            # The invisible text that lies over a scanned page.
            p.ops.insert(0, rng.choice([b"3 Tr\n", b"/G0 gs\n", b"/G1 gs\n", b"1 g 1 G\n"]))
        if "in:annots" in features:
            p.annots = [(rng.choice([b"Stamp", b"Link"]), b"annotated") for _ in range(rng.randint(1, 2))]
        if "in:inlineimage" in features:
            p.ops.append(b"q 20 0 0 20 450 90 cm BI /W 2 /H 2 /BPC 8 /CS /G ID abcd EI Q\n")
    if "in:blank" in features:
        for _ in range(rng.choice([1, 1, 2])):
            q = Page()
            q.nocontents = rng.random() < 0.5
            d.pages.insert(rng.randint(0, len(d.pages)), q)


REALPDFS = ["test/pdfs/1-article-two-columns.pdf", "test/pdfs/2-article-one-column.pdf",
            "test/pdfs/diagram.pdf", "test/pdfs/TextBlocksDetectionUtilsTest.pdf",
            "test/pdfs/TextLinesDetectionUtilsTest.pdf", "test/pdfs/WordsDetectionUtilsTest.pdf",
            "e2e/pdfs/test.pdf"]


def real_docs():
    """The repository's own sample documents, when they are there."""
    out = []
    for n in REALPDFS:
        try:
            with open(os.path.join(REPO, n), "rb") as fh:
                out.append((os.path.basename(n), fh.read()))
        except OSError:
            pass
    return out


# -- documents that are well-formed and odd --------------------------------------------------------

ODD = ["zero", "blank", "spaces", "onechar", "punct", "digits", "pile", "tiny", "huge", "zerosize", "negsize",
       "scaled", "outside", "invisible", "drawing", "figure", "marks", "rotated", "operators", "longline",
       "column", "manypages", "smallpage", "hugepage", "singular", "ligatures", "rise", "upper", "samewords",
       "mixedsizes", "hyphens", "nothingembedded", "sparse", "grid", "deep", "vertical", "unicode", "unicode", "unicode"]

# What a ToUnicode map can give for a character (bytes are UTF-16): controls, halves of surrogate pairs, nothing,
# several characters, marks, characters beyond the BMP, private and unassigned ones, hyphens, spaces, other scripts.
UNICODES = [b"\xd8\x00", b"\xdc\x00", b"\xdf\xff", b"\xd8\x35\xdc\x00", b"\x00\x00", b"\x00\x01", b"\x00\x0a", b"\x00\x0c",
            b"\x00\x09", b"\x00\x7f", b"\x00\x80", b"\x00\x9f", b"", "ffi", "abc" * 9, "\u0301", "\u0308", "\u00b4",
            "\u00a8", "e\u0301", "\u0301e", "\u02c7", "\U0001f600", "\U0001d465", "\ue000", "\uffff", "\ufffe", "\ufeff",
            "\u00ad", "\u2010", "\u2212", "-", "\u00a0", "\u200b", "\u2028", "\u3000", " ", "\u05d0", "\u0627", "\u4e2d",
            "\u0e01", "\u00e9", "\u00df", "\u0130", "\u01c5", "\u1e9e", "\u2211", "\u222b", "(", "A", "7", "@", "\U0010ffff",
            b"\xdb\xff\xdf\xff", b"\xdc\x00\xd8\x00", b"\xd8\x00", b"\xdb\xff", b"\xdc\x00", b"\xdf\xff", b"\xd8\x00\x00\x41", "\u00bf", "\u0149", "\u0390", "\ufb01", "\ufdfa"]


def strange_font(rng, name, share=0.4):
    """A font whose ToUnicode map gives strange text for some of its characters."""
    f = Font(name, rng.choice(["cid", "cid", "type3"]))
    f.nbytes = rng.choice([2, 2, 1, 3, 4])
    f.umap = {chr(c): rng.choice(UNICODES) for c in range(33, 127) if rng.random() < share}
    return f


def odd_doc(rng, pages=None, features=None):
    """Documents without text, or with hardly any, or with text that no one would typeset."""
    d = Doc()
    words = Words(rng)
    kind = [x for x in (features or [rng.choice(ODD)]) if x in ODD][:1]
    k = kind[0] if kind else "onechar"
    body = d.font("F1", Font("CMR10", "plain"))
    bold = d.font("F2", Font("CMR10-Bold", "plain", bold=True))
    n = pages or rng.choice([1, 1, 2, 3])
    if k == "zero":
        n = 0
    if k == "manypages":
        n = rng.choice([20, 40])
    if k == "nothingembedded":
        body.kind, body.fontfile = "type1", (b"", 0, 0, 0)
    for pi in range(n):
        p = Page()
        p.drawn = 0
        d.pages.append(p)
        T = lambda s, x=72, y=700, size=10, fk="F1", **kw: p.text(fk, d.fonts[fk], size, x, y, s, **kw)  # noqa: E731
        if k == "blank":
            p.nocontents = rng.random() < 0.5
        elif k == "spaces":
            for i in range(rng.choice([1, 5])):
                T(" " * rng.randint(1, 9), y=700 - 20 * i)
        elif k == "onechar":
            T(rng.choice("aZ5.-([%"), rng.choice([0, 72, 300]), rng.choice([0, 1, 400, 780]))
        elif k == "punct":
            for i in range(rng.choice([1, 3])):
                T(rng.choice(["... --- !!!", "(", ".", "- - -", "%&/()=?"]), y=700 - i * 12)
        elif k == "digits":
            for i in range(4):
                T(" ".join(str(rng.randrange(9999)) for _ in range(5)), y=700 - i * 12)
        elif k == "pile":
            for i in range(rng.choice([2, 10, 60])):
                T(rng.choice(["a", "b", words.word()]), 100, 500)
        elif k in ("tiny", "huge", "zerosize", "negsize", "mixedsizes"):
            for i in range(6):
                size = {"tiny": rng.choice([0.01, 0.1, 1]), "huge": rng.choice([300, 2000, 100000]), "zerosize": 0,
                        "negsize": -10, "mixedsizes": rng.choice([1, 5, 10, 33, 90])}[k]
                T(words.word() + " " + words.word(), y=700 - i * 14, size=size)
        elif k == "scaled":
            p.ops.append(b"%d Tz\n" % rng.choice([0, 1, 50, 400, -100]))
            for i in range(4):
                T(words.word() + " " + words.word(), y=700 - i * 14)
        elif k == "outside":
            for i in range(4):
                T(words.word() + " " + words.word(), x=rng.choice([-500, 800, 10**6]), y=rng.choice([-90, 900, 400]))
        elif k == "invisible":
            p.ops.append(rng.choice([b"3 Tr\n", b"7 Tr\n", b"/G0 gs\n", b"/G1 gs\n"]))
            for i in range(4):
                T(words.word() + " " + words.word(), y=700 - i * 14)
        elif k == "drawing":
            for i in range(rng.choice([1, 20])):
                p.ops.append(b"%d %d m %d %d l S %d %d 30 20 re f\n" % tuple(rng.randrange(600) for _ in range(6)))
            if rng.random() < 0.5:
                p.ops.append(b"q 40 0 0 40 400 80 cm /Im Do Q\n")
                p.images = 1
        elif k == "figure":
            p.ops.append(b"q 100 300 200 200 re W n\n")
            for i in range(3):
                T(words.word(), 120, 400 - 15 * i)
            p.ops.append(b"Q\n")
        elif k == "marks":
            if "A1" not in d.fonts:
                d.font("A1", Font("CMacc", "plain", diffs={65: "acute", 66: "grave", 67: "dieresis", 68: "circumflex"}))
            for i in range(rng.choice([1, 4])):
                T(rng.choice(["A", "AB", "A B C", "ABCD"]), y=700 - i * rng.choice([0, 12]), fk="A1")
            if rng.random() < 0.5:
                T("a", 72, 700)
            if rng.random() < 0.6:                   # a letter with several marks, drawn before or after it
                for i in range(rng.choice([1, 4])):
                    seq = [("F1", rng.choice("aeou"))]
                    for j in range(rng.randint(1, 4)):
                        seq.insert(rng.choice([0, len(seq)]), ("A1", rng.choice("ABCD")))
                    for fk_, c_ in seq:
                        T(c_, 200 + 20 * i + rng.choice([0, 0, 0.5, 2]), 500 + rng.choice([0, 0, 3]), fk=fk_)
        elif k == "vertical":
            if "V1" not in d.fonts:
                d.font("V1", Font("CMRvert", "cid"))
                d.fonts["V1"].vertical = True
                d.fonts["V1"].nbytes = rng.choice([1, 2, 2, 3])
            for i in range(rng.choice([1, 2, 6])):
                T(words.word() + " " + words.word(), 500 - 12 * i, 690, fk="V1", rot=rng.choice([0, 0, 90, 180, 270]))
        elif k == "rotated":
            a = rng.choice([90, 180, 270])
            for i in range(4):
                T(words.word() + " " + words.word(), 300 + 12 * i, 400, rot=a)
        elif k == "operators":
            if "M1" not in d.fonts:
                d.font("M1", Font("CMEX10", "plain", diffs={ord(a): v for a, v in MATH.items()}))
            for i in range(rng.choice([1, 5])):
                T(rng.choice("SPIspit"), 100 + 30 * i, 500, fk="M1")
                if rng.random() < 0.5:
                    T("i", 100 + 30 * i, 490, size=6, rot=rng.choice([0, 0, 90, 180, 270]))
        elif k == "longline":
            T(" ".join(words.word() for _ in range(200)), size=3)
        elif k == "column":
            for i in range(50):
                T(rng.choice("abc"), 300, 740 - 14 * i)
        elif k == "manypages":
            T(words.word())
        elif k in ("smallpage", "hugepage"):
            p.w, p.h = (rng.choice([1, 20]), rng.choice([1, 30])) if k == "smallpage" else (14400, 14400)
            T(words.word(), 1, 1)
            T(words.word(), 1, 15)
        elif k == "singular":
            for m in (b"0 0 0 0", b"1 0 0 0", b"0 0 0 1", b"1 1 1 1", b"-1 0 0 1"):
                p.ops.append(b"BT /F1 10 Tf %s 100 500 Tm (%s) Tj ET\n" % (m, words.word().encode()))
        elif k == "ligatures":
            if "L1" not in d.fonts:
                d.font("L1", Font("CMRlig", "plain", diffs={65: "fi", 66: "ffl", 67: "germandbls", 68: "nosuchglyph",
                                                          69: "uni00AD", 70: "u1F600", 71: "a.alt"}))
            for i in range(4):
                T("".join(rng.choice("ABCDEFG") for _ in range(5)), y=700 - i * 12, fk="L1")
        elif k == "rise":
            for i in range(6):
                p.ops.append(b"%d Ts\n" % rng.randint(-9, 9))
                T(words.word(), 72 + 60 * i, 600)
        elif k == "upper":
            for i in range(5):
                T(" ".join(words.word().upper() for _ in range(4)), y=700 - 12 * i, fk=rng.choice(["F1", "F2"]))
        elif k == "samewords":
            w = words.word()
            for i in range(8):
                T(" ".join([w] * 6), y=700 - 12 * i)
        elif k == "unicode":
            for x in ("U1", "U2"):
                if x not in d.fonts:
                    d.font(x, strange_font(rng, "CM" + x, rng.choice([0.1, 0.4, 1.0])))
                    if x == "U2" and rng.random() < 0.4:      # blocks without any text
                        d.fonts[x].umap = {chr(c): b"" for c in range(33, 127)}
            T(words.word(), 300, rng.choice([100, 750]), fk="U2")
            for i in range(rng.choice([2, 8])):
                T(" ".join(words.word() for _ in range(rng.randint(1, 6))), y=700 - 12 * i,
                  fk=rng.choice(["U1", "U1", "U2", "F1"]))
        elif k == "hyphens":
            for i in range(6):
                T(rng.choice(["-", words.word() + "-", "well-" + words.word() + "-", words.word()[:1] + "-", "--"]),
                  y=700 - 12 * i)
        elif k == "grid":                            # many blocks
            for i in range(rng.choice([3, 9])):
                for j in range(rng.choice([2, 5])):
                    T(words.word(), 40 + 110 * j, 740 - 80 * i, size=rng.choice([8, 10]))
        elif k == "sparse":
            for i in range(5):
                T(words.word(), rng.randrange(500), rng.randrange(20, 780), size=rng.choice([8, 10, 14]))
        elif k == "deep":
            p.ops.append(b"q " * 60)
            T(words.word())
            p.ops.append(b"Q " * 60)
        else:
            T(words.word())
    d.features = [k]
    d.style = ""
    return d
