"""Writes small PDF files. pages: a list of pages; a page is a list of (font, size, x, y, text), or bytes."""
import sys


def width(ch):
    return 280 if ch in "il.,;:'|!" else 800 if ch in "mwMW" else 680 if ch.isupper() else \
        250 if ch == " " else 330 if ch in "-()" else 520


def tw(s, size):
    return sum(map(width, s)) * size / 1000.0


def esc(s):
    return s.encode("latin-1").replace(b"\\", b"\\\\").replace(b"(", b"\\(").replace(b")", b"\\)")


def pdf(pages, fonts=("Tempora", "Tempora-Bold"), mediabox="0 0 612 792", extra=None, fontfiles=None, flags=None,
        fontkeys="", catalog=""):
    """fontfiles: {index: bytes of a Type 1 font program}; extra: {object name: bytes} appended verbatim."""
    objs = {}
    fontfiles = fontfiles or {}
    n = 3
    fdict = b""
    for k, f in enumerate(fonts):
        fo, fd, ff = n, n + 1, n + 2
        n += 3
        wid = " ".join(str(width(chr(c))) for c in range(32, 256))
        emb = ""
        if k in fontfiles:
            b = fontfiles[k]
            i = b.find(b"eexec") + 6
            objs[ff] = b"<< /Length %d /Length1 %d /Length2 %d /Length3 0 >> stream\n" % (len(b), i, len(b) - i) + \
                b + b"\nendstream"
            emb = "/FontFile %d 0 R" % ff
        else:
            objs[ff] = b"null"
        fl = (flags or {}).get(k, 34)
        objs[fd] = ("<< /Type /FontDescriptor /FontName /%s /Flags %d /FontBBox [-100 -250 1000 900] /Ascent 750 "
                    "/Descent -250 /CapHeight 660 /ItalicAngle 0 /StemV %d %s >>" %
                    (f, fl, 120 if "Bold" in f else 80, emb)).encode()
        objs[fo] = ("<< /Type /Font /Subtype /Type1 /BaseFont /%s /Encoding /WinAnsiEncoding /FirstChar 32 "
                    "/LastChar 255 /Widths [%s] /FontDescriptor %d 0 R %s >>" % (f, wid, fd, fontkeys)).encode()
        fdict += b"/F%d %d 0 R " % (k + 1, fo)
    kids = []
    for p in pages:
        c = p
        if not isinstance(p, bytes):
            c = b"".join(b"BT /F%d %g Tf 1 0 0 1 %.2f %.2f Tm (%s) Tj ET\n" % (f, s, x, y, esc(t))
                         for f, s, x, y, t in p)
        objs[n] = b"<< /Length %d >> stream\n" % len(c) + c + b"\nendstream"
        objs[n + 1] = ("<< /Type /Page /Parent 2 0 R /MediaBox [%s] /Contents %d 0 R /Resources << /Font << " %
                       (mediabox, n)).encode() + fdict + b">> >> >>"
        kids.append(n + 1)
        n += 2
    objs[1] = ("<< /Type /Catalog /Pages 2 0 R %s >>" % catalog).encode()
    objs[2] = ("<< /Type /Pages /Count %d /Kids [%s] >>" % (len(kids), " ".join("%d 0 R" % k for k in kids))).encode()
    for v in (extra or {}).values():
        objs[n] = v
        n += 1
    out = bytearray(b"%PDF-1.5\n%\xe2\xe3\xcf\xd3\n")
    offs = {}
    for k in sorted(objs):
        offs[k] = len(out)
        out += b"%d 0 obj\n" % k + objs[k] + b"\nendobj\n"
    x = len(out)
    out += b"xref\n0 %d\n0000000000 65535 f \n" % n
    for k in range(1, n):
        out += b"%010d 00000 n \n" % offs[k]
    out += b"trailer << /Size %d /Root 1 0 R >>\nstartxref\n%d\n%%%%EOF\n" % (n, x)
    return bytes(out)


SYL = "ba ce di fo gu ha je ki lo mu na pe ri so tu va we xi yo zu".split()


def word(i, n=3):
    """The i-th word: all different."""
    s = ""
    for _ in range(n):
        s += SYL[i % 20]
        i //= 20
    return s


def paragraph(first, lines=8, x=72, y=700, width=420, size=10, font=1, lead=12):
    """Returns (items, words): a paragraph of the words number first, first + 1, ..."""
    items, words = [], []
    for k in range(lines):
        toks = []
        while tw(" ".join(toks + [word(first)]), size) < width * (0.5 if k == lines - 1 else 1):
            toks.append(word(first))
            first += 1
        words += toks
        items.append((font, size, x, y - k * lead, " ".join(toks)))
    return items, words


def eexec(clear, private):
    """A Type 1 font program with the private part encrypted in binary."""
    r = 55665
    out = bytearray()
    for b in b"\0\0\0\0" + private:
        c = b ^ (r >> 8)
        r = ((c + r) * 52845 + 22719) & 0xffff
        out.append(c)
    return clear + bytes(out)


def write(path, data):
    with open(path, "wb") as f:
        f.write(data)
