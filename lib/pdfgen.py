"""Writes PDF documents whose text is known: every word is unique, so that each word of an output can
be attributed to exactly one place of the input."""
import re
import zlib

SYL = ["ba", "ce", "di", "fo", "gu", "ha", "je", "ki", "lo", "mu", "na", "pe", "ri", "so", "tu", "va",
       "we", "xi", "yo", "zu", "bra", "cle", "dri", "flo", "gru", "pla", "sté", "tro", "sna", "ke"]


def width(ch):
    if ch in "il.,;:'|!":
        return 280
    if ch in "mwMW":
        return 800
    if ch.isupper():
        return 680
    if ch == " ":
        return 250
    if ch in "-()":
        return 330
    return 520


def esc(b):
    return b.replace(b"\\", b"\\\\").replace(b"(", b"\\(").replace(b")", b"\\)")


class Words:
    """Unique pseudo-words."""

    def __init__(self, rng, ascii_only=True):
        self.rng = rng
        self.used = set()
        self.ascii = ascii_only

    def word(self, lo=2, hi=4):
        while True:
            w = "".join(self.rng.choice(SYL) for _ in range(self.rng.randint(lo, hi)))
            if self.ascii:
                w = w.replace("é", "e")
            if w not in self.used:
                self.used.add(w)
                return w


class Font:
    """kind: plain (not embedded, with widths), type1 (embedded, synthetic font program),
    type3 (drawn, optionally nameless), cid (two-byte codes with a ToUnicode map)."""

    def __init__(self, name, kind="plain", bold=False, italic=False, diffs=None, fontfile=None,
                 tounicode=True, serif=True):
        self.name = name
        self.kind = kind
        self.bold = bold
        self.italic = italic
        self.serif = serif
        self.diffs = diffs or {}        # char code -> glyph name
        self.fontfile = fontfile
        self.tounicode = tounicode
        self.extra_widths = {}
        self.nbytes = 2                 # cid: the length of a code
        self.vertical = False           # cid: written from top to bottom
        self.names = {}                 # type3: character -> glyph name

    def encode(self, s):
        if self.kind == "cid":
            return b"".join(ord(c).to_bytes(self.nbytes, "big") for c in s)
        out = bytearray()
        for c in s:
            o = ord(c)
            out.append(o if o < 256 else 63)
        return bytes(out)


class Page:
    def __init__(self, w=612, h=792, rotate=0):
        self.w, self.h, self.rotate = w, h, rotate
        self.ops = []            # content stream fragments (bytes)
        self.truth = []          # words in reading order
        self.noise = []          # words that need not appear (figure text)
        self.split_contents = False
        self.blocks = []         # expected text blocks: list of token lists
        self.images = 0
        self.origin = (0, 0)     # of the MediaBox
        self.shift = (0, 0)      # of everything on the page
        self.crop = None
        self.userunit = None
        self.form = 0            # the content sits in so many nested form XObjects
        self.nocontents = False
        self.annots = []         # (kind, text)

    def text(self, fontkey, font, size, x, y, s, mode="Tj", rot=0, raw=None):
        enc = raw if raw is not None else font.encode(s)
        m = {0: "1 0 0 1", 90: "0 1 -1 0", 180: "-1 0 0 -1", 270: "0 -1 1 0"}[rot]
        if mode == "Tj":
            body = b"(" + esc(enc) + b") Tj"
        elif mode == "hex":
            body = b"<" + enc.hex().encode() + b"> Tj"
        else:
            step = font.nbytes if font.kind == "cid" else 1
            parts = [enc[i:i + step] for i in range(0, len(enc), step)]
            body = b"[" + b" 0 ".join(b"(" + esc(p) + b")" for p in parts) + b"] TJ"
        self.ops.append(("BT /%s %g Tf %s %.2f %.2f Tm " % (fontkey, size, m, x, y)).encode() +
                        body + b" ET\n")


def text_width(s, size):
    return sum(width(c) for c in s) * size / 1000.0


class Doc:
    def __init__(self):
        self.fonts = {}          # key -> Font
        self.pages = []
        self.compress = False
        self.title = "t"
        self.corrupt = None
        self.eol = b"\n"
        self.offsets = []
        self.spans = {}          # logical name -> (start, end) byte range in the file
        self.pageobj = []
        self.trailer_extra = b""
        self.nested = False      # a tree of page nodes with inherited attributes
        self.objstm = False      # objects in object streams, a cross-reference stream
        self.encrypt = None      # the owner's password; the user's is empty
        self.increment = False   # an incremental update replaces the content of the pages

    def font(self, key, f):
        self.fonts[key] = f
        return f

    def truth(self):
        return [w for p in self.pages for w in p.truth]

    # -- writing ----------------------------------------------------------------------------------
    def build(self):
        objs = {}
        names = {}
        nxt = [3]

        def new(name=None):
            n = nxt[0]
            nxt[0] += 1
            if name:
                names[n] = name
            return n

        def stream(d, data, compress=False):
            if compress:
                data = zlib.compress(data)
                d = d + b" /Filter /FlateDecode"
            return (b"<< " + d + b" /Length %d >>\nstream\n" % len(data)) + data + b"\nendstream"

        fontrefs = {}
        for key, f in self.fonts.items():
            n = new("font:" + key)
            fontrefs[key] = n
            bf = f.name.encode()
            flags = (64 if f.italic else 0) | (2 if f.serif else 0) | 32 | (1 << 18 if f.bold else 0)
            tu = None
            if f.tounicode and f.kind in ("type3", "cid"):
                tu = new("tounicode:" + key)
                chars = getattr(f, "chars", None) or "".join(chr(c) for c in range(32, 127))
                lines = []
                nb = f.nbytes if f.kind == "cid" else 1
                for c in chars:
                    u = getattr(f, "umap", {}).get(c, c)
                    uh = u.hex() if isinstance(u, bytes) else u.encode("utf-16-be").hex()
                    lines.append("<%0*x> <%s>" % (nb * 2, ord(c), uh))
                cm = "/CIDInit /ProcSet findresource begin\n12 dict begin\nbegincmap\n" \
                     "/CMapName /X def\n1 begincodespacerange\n" + \
                     "<%s> <%s>" % ("00" * nb, "ff" * nb) + "\nendcodespacerange\n"
                for i in range(0, len(lines), 90):
                    ch = lines[i:i + 90]
                    cm += "%d beginbfchar\n%s\nendbfchar\n" % (len(ch), "\n".join(ch))
                cm += "endcmap\nend\nend\n"
                objs[tu] = stream(b"", cm.encode(), self.compress)
            if f.kind == "type3":
                chars = getattr(f, "chars", None) or "".join(chr(c) for c in range(32, 127))
                cp = []
                diffs = []
                proc = new("proc:" + key)
                objs[proc] = stream(b"", b"50 0 0 0 50 70 d1 0 0 40 60 re f")
                for c in chars:
                    gn = f.names.get(c, "g%d" % ord(c)).encode()
                    cp.append(b"/%s %d 0 R" % (gn, proc))
                    diffs.append(b"%d /%s" % (ord(c), gn))
                lo, hi = min(map(ord, chars)), max(map(ord, chars))
                ws = b" ".join(b"%g" % (width(chr(c)) / 10.0) for c in range(lo, hi + 1))
                d = b"<< /Type /Font /Subtype /Type3 /FontBBox [0 -20 80 80] " \
                    b"/FontMatrix [0.01 0 0 0.01 0 0] /CharProcs << " + b" ".join(cp) + \
                    b" >> /Encoding << /Type /Encoding /Differences [" + b" ".join(diffs) + \
                    b"] >> /FirstChar %d /LastChar %d /Widths [" % (lo, hi) + ws + b"]"
                if f.name:
                    d += b" /Name /" + bf
                if tu:
                    d += b" /ToUnicode %d 0 R" % tu
                objs[n] = d + b" /Resources << >> >>"
                continue
            fd = new("descriptor:" + key)
            fdd = b"<< /Type /FontDescriptor /FontName /" + bf + b" /Flags %d" % flags + \
                b" /FontBBox [-100 -250 1000 900] /ItalicAngle %d" % (-12 if f.italic else 0) + \
                b" /Ascent 750 /Descent -250 /CapHeight 700 /StemV %d" % (120 if f.bold else 80)
            if f.bold:
                fdd += b" /FontWeight 700"
            if f.fontfile is not None:
                ff = new("fontfile:" + key)
                data, l1, l2, l3 = f.fontfile
                objs[ff] = stream(b"/Length1 %d /Length2 %d /Length3 %d" % (l1, l2, l3), data,
                                  self.compress)
                fdd += b" /FontFile %d 0 R" % ff
            objs[fd] = fdd + b" >>"
            if f.kind == "cid":
                de = new("cidfont:" + key)
                chars = getattr(f, "chars", None) or "".join(chr(c) for c in range(32, 127))
                ws = b" ".join(b"%d [%d]" % (ord(c), width(c)) for c in chars)
                objs[de] = b"<< /Type /Font /Subtype /CIDFontType2 /BaseFont /" + bf + \
                    b" /CIDSystemInfo << /Registry <41646f6265> /Ordering <4964656e74697479> /Supplement 0 >>" \
                    b" /FontDescriptor %d 0 R /DW 520 /W [" % fd + ws + b"] /CIDToGIDMap /Identity >>"
                enc = b"/Identity-V" if f.vertical else b"/Identity-H"
                if f.nbytes != 2:
                    w = f.nbytes * 2
                    em = new("cmap:" + key)
                    objs[em] = stream(
                        b"/Type /CMap /CMapName /X%d /WMode %d /CIDSystemInfo << /Registry <41646f6265> /Ordering "
                        b"<4964656e74697479> /Supplement 0 >>" % (w, f.vertical),
                        b"/CIDInit /ProcSet findresource begin\n12 dict begin\nbegincmap\n/CMapName /X%d def\n"
                        b"/WMode %d def\n1 begincodespacerange\n<%s> <%s>\nendcodespacerange\n1 begincidrange\n"
                        b"<%0*x> <%0*x> 0\nendcidrange\nendcmap\nend\nend\n" % (
                            w, f.vertical, b"00" * f.nbytes, b"ff" * f.nbytes, w, 0, w, 255), self.compress)
                    enc = b"%d 0 R" % em
                objs[n] = b"<< /Type /Font /Subtype /Type0 /BaseFont /" + bf + \
                    b" /Encoding " + enc + b" /DescendantFonts [%d 0 R]" % de + \
                    (b" /ToUnicode %d 0 R" % tu if tu else b"") + b" >>"
                continue
            ws = b" ".join(b"%d" % f.extra_widths.get(c, width(chr(c))) for c in range(32, 256))
            enc = b"/WinAnsiEncoding"
            if f.diffs:
                enc = b"<< /Type /Encoding /BaseEncoding /WinAnsiEncoding /Differences [" + \
                    b" ".join(b"%d /%s" % (c, g.encode()) for c, g in sorted(f.diffs.items())) + \
                    b"] >>"
            sub = b"Type1" if f.kind == "type1" else b"TrueType"
            objs[n] = b"<< /Type /Font /Subtype /" + sub + b" /BaseFont /" + bf + \
                b" /Encoding " + enc + b" /FirstChar 32 /LastChar 255 /Widths [" + ws + \
                b"] /FontDescriptor %d 0 R >>" % fd
        res = b"<< /Font << " + b" ".join(b"/%s %d 0 R" % (k.encode(), v)
                                         for k, v in fontrefs.items()) + b" >>"
        img = None
        if any(p.images for p in self.pages):
            img = new("image")
            objs[img] = stream(b"/Type /XObject /Subtype /Image /Width 4 /Height 4 "
                               b"/ColorSpace /DeviceGray /BitsPerComponent 8", bytes(range(16)))
            res += b" /XObject << /Im %d 0 R >>" % img
        res += b" /ExtGState << /G0 << /CA 0 /ca 0 >> /G1 << /CA 0.4 /ca 0.7 >> /G2 << /CA 1 /ca 1 >> >> >>"
        resn = new("resources")
        objs[resn] = res
        kids = []
        nodes = []
        for i, p in enumerate(self.pages):
            pn = new("page:%d" % i)
            kids.append(pn)
            ops = list(p.ops)
            if p.origin != (0, 0) or p.shift != (0, 0):
                ops.insert(0, b"1 0 0 1 %d %d cm\n" % (p.origin[0] + p.shift[0], p.origin[1] + p.shift[1]))
            cn = []
            parts = [b"".join(ops)]
            if p.split_contents and len(ops) > 1:
                h = len(ops) // 2
                parts = [b"".join(ops[:h]), b"".join(ops[h:])]
            own = b"%d 0 R" % resn
            for k in range(p.form):
                fm = new("form:%d" % i)
                objs[fm] = stream(b"/Type /XObject /Subtype /Form /BBox [%d %d %d %d] /Resources " % (
                    p.origin[0], p.origin[1], p.origin[0] + p.w, p.origin[1] + p.h) + own,
                    b"\n".join(parts), self.compress)
                parts = [b"q /Fm Do Q\n"]
                own = b"<< /XObject << /Fm %d 0 R >> >>" % fm
            for part in parts:
                c = new("content:%d" % i)
                objs[c] = stream(b"", part, self.compress)
                cn.append(c)
            cref = b"%d 0 R" % cn[0] if len(cn) == 1 else \
                b"[" + b" ".join(b"%d 0 R" % c for c in cn) + b"]"
            box = b"/MediaBox [%d %d %d %d] " % (p.origin[0], p.origin[1], p.origin[0] + p.w, p.origin[1] + p.h)
            extra = b""
            if p.crop:
                extra += b"/CropBox [%d %d %d %d] " % p.crop
            if p.userunit:
                extra += b"/UserUnit %g " % p.userunit
            an = []
            for kind, s in p.annots:
                a = new("annot:%d" % i)
                ap = new("appearance:%d" % i)
                objs[ap] = stream(b"/Type /XObject /Subtype /Form /BBox [0 0 100 20] /Resources %d 0 R" % resn,
                                  b"BT /%s 10 Tf 2 5 Td (" % sorted(fontrefs)[0].encode() + esc(s) + b") Tj ET\n")
                objs[a] = b"<< /Type /Annot /Subtype /%s /Rect [100 300 200 320] /AP << /N %d 0 R >> /F 4 " \
                    % (kind, ap) + (b"/Contents <%s> " % s.hex().encode() if kind != b"Link" else b"") + b">>"
                an.append(b"%d 0 R" % a)
            if an:
                extra += b"/Annots [" + b" ".join(an) + b"] "
            cont = b"" if p.nocontents else b"/Contents " + cref
            parent, own_res = 2, b"/Resources " + own
            if self.nested:
                parent = new("node:%d" % i)
                objs[parent] = b"<< /Type /Pages /Parent 2 0 R /Kids [%d 0 R] /Count 1 " % pn + box + own_res + \
                    b" /Rotate %d >>" % p.rotate
                nodes.append(parent)
                objs[pn] = b"<< /Type /Page /Parent %d 0 R " % parent + extra + cont + b" >>"
            else:
                objs[pn] = b"<< /Type /Page /Parent 2 0 R " + box + own_res + \
                    b" /Rotate %d " % p.rotate + extra + cont + b" >>"
        self.pageobj = kids
        objs[1] = b"<< /Type /Catalog /Pages 2 0 R >>"
        names[1] = "catalog"
        objs[2] = b"<< /Type /Pages /Kids [" + b" ".join(b"%d 0 R" % k for k in nodes or kids) + \
            b"] /Count %d >>" % len(kids)
        names[2] = "pages"
        trailer = self.trailer_extra
        old = {}
        if self.increment:
            for n in [n for n in objs if names.get(n, "").startswith("content:")]:
                old[n] = objs[n]
                objs[n] = stream(b"", b"0 0 m 9 9 l S\n")
        if self.encrypt is not None:
            import hashlib
            pad = bytes.fromhex("28BF4E5E4E758A4164004E56FFFA01082E2E00B6D0683E802F0CA9FE6453697A")
            perm = (-44) & 0xffffffff
            ident = hashlib.md5(b"id").digest()
            okey = hashlib.md5((self.encrypt + pad)[:32]).digest()[:5]
            o = rc4(okey, pad)
            key = hashlib.md5(pad + o + perm.to_bytes(4, "little") + ident).digest()[:5]
            u = rc4(key, pad)

            def lock(n, body):
                k = hashlib.md5(key + n.to_bytes(3, "little") + b"\0\0").digest()[:10]
                m = re.search(rb"\nstream\n", body)
                head, data = (body, None) if not m else (body[:m.start()], body[m.end():-len(b"\nendstream")])
                head = re.sub(rb"<([0-9a-f]+)>", lambda x: b"<" + rc4(k, bytes.fromhex(
                    x.group(1).decode())).hex().encode() + b">", head)
                return head if data is None else head + b"\nstream\n" + rc4(k, data) + b"\nendstream"

            for d in (objs, old):
                for n in list(d):
                    d[n] = lock(n, d[n])
            en = new("encrypt")
            objs[en] = b"<< /Filter /Standard /V 1 /R 2 /O <" + o.hex().encode() + b"> /U <" + u.hex().encode() + \
                b"> /P -44 >>"
            trailer += b"/Encrypt %d 0 R /ID [<%s> <%s>] " % (en, ident.hex().encode(), ident.hex().encode())
        out = bytearray(b"%PDF-1.5\n%\xe2\xe3\xcf\xd3\n")
        offs = {}
        inside = {}

        def write(n, body):
            offs[n] = len(out)
            out.extend(b"%d 0 obj\n" % n + body + b"\nendobj\n")
            self.spans.setdefault(names.get(n, "obj%d" % n), []).append((offs[n], len(out)))

        if self.objstm and self.encrypt is None:
            plain = [n for n in sorted(objs) if b"\nstream\n" not in objs[n]]
            for g in range(0, len(plain), 20):
                ns = plain[g:g + 20]
                sn = new("objstm")
                head, body = b"", b""
                for k, n in enumerate(ns):
                    head += b"%d %d " % (n, len(body))
                    body += objs[n] + b"\n"
                    inside[n] = (sn, k)
                objs[sn] = stream(b"/Type /ObjStm /N %d /First %d" % (len(ns), len(head)), head + body,
                                  self.compress)
        for n in sorted(objs):
            if n not in inside:
                write(n, objs[n])
        xr = len(out)
        size = max(objs) + 1
        if inside:
            sn = size
            offs[sn] = xr
            rows = b"\0" * 7
            for n in range(1, sn + 1):
                rows += b"\2" + inside[n][0].to_bytes(4, "big") + inside[n][1].to_bytes(2, "big") \
                    if n in inside else b"\1" + offs[n].to_bytes(4, "big") + b"\0\0"
            out += b"%d 0 obj\n" % sn + stream(b"/Type /XRef /Size %d /W [1 4 2] /Root 1 0 R " % (sn + 1) + trailer,
                                               rows, self.compress) + b"\nendobj\n"
            size = sn + 1
            self.spans["xref"] = [(xr, len(out))]
            t = len(out)
            out += b"startxref\n%d\n%%%%EOF\n" % xr
            self.spans["trailer"] = [(t, len(out))]
        else:
            out += b"xref\n0 %d\n0000000000 65535 f \n" % size
            for n in range(1, size):
                out += b"%010d 00000 n \n" % offs[n]
            self.spans["xref"] = [(xr, len(out))]
            t = len(out)
            out += b"trailer\n<< /Size %d /Root 1 0 R %s>>\nstartxref\n%d\n%%%%EOF\n" % (size, trailer, xr)
            self.spans["trailer"] = [(t, len(out))]
        if old and not inside:
            for n in sorted(old):
                write(n, old[n])
            x2 = len(out)
            out += b"xref\n"
            for n in sorted(old):
                out += b"%d 1\n%010d 00000 n \n" % (n, offs[n])
            out += b"trailer\n<< /Size %d /Root 1 0 R /Prev %d %s>>\nstartxref\n%d\n%%%%EOF\n" % (
                size, xr, trailer, x2)
        return bytes(out)


def rc4(key, data):
    s = list(range(256))
    j = 0
    for i in range(256):
        j = (j + s[i] + key[i % len(key)]) & 255
        s[i], s[j] = s[j], s[i]
    i = j = 0
    out = bytearray()
    for b in data:
        i = (i + 1) & 255
        j = (j + s[i]) & 255
        s[i], s[j] = s[j], s[i]
        out.append(b ^ s[(s[i] + s[j]) & 255])
    return bytes(out)


# -- synthetic Type 1 font programs ----------------------------------------------------------------

def _crypt(data, r):
    out = bytearray()
    for b in data:
        c = b ^ (r >> 8)
        out.append(c)
        r = ((c + r) * 52845 + 22719) & 0xffff
    return bytes(out)


def _num(v):
    if -107 <= v <= 107:
        return bytes([v + 139])
    if 108 <= v <= 1131:
        v -= 108
        return bytes([247 + (v >> 8), v & 255])
    if -1131 <= v <= -108:
        v = -v - 108
        return bytes([251 + (v >> 8), v & 255])
    return b"\xff" + (v & 0xffffffff).to_bytes(4, "big")


GLYPHNAMES = {"-": "hyphen", ".": "period", ",": "comma", "(": "parenleft", ")": "parenright",
              "'": "quoteright", ":": "colon", ";": "semicolon"}
for _i, _n in enumerate("zero one two three four five six seven eight nine".split()):
    GLYPHNAMES[str(_i)] = _n


def glyphname(c):
    return c if c.isalpha() else GLYPHNAMES.get(c, "space")


def type1(name, chars, pfb=False, hexform=False, subrs=3, matrix="0.001 0 0 0.001 0 0", tricky=0):
    """A complete Type 1 font program; returns (data, length1, length2, length3)."""
    head = ("%%!PS-AdobeFont-1.0: %s 001.001\n11 dict begin\n/FontInfo 5 dict dup begin\n"
            "/version (001.001) readonly def\n/FullName (%s) readonly def\n/Weight (Medium) readonly def\n"
            "/ItalicAngle 0 def\n/isFixedPitch false def\nend readonly def\n/FontName /%s def\n"
            "/PaintType 0 def\n/FontType 1 def\n/FontMatrix [%s] readonly def\n"
            "/Encoding 256 array\n0 1 255 {1 index exch /.notdef put} for\n" % (
                name, name, name, matrix)).encode()
    for c in chars:
        head += b"dup %d /%s put\n" % (ord(c), glyphname(c).encode())
    head += b"readonly def\n/FontBBox {-100 -250 1000 900} readonly def\ncurrentdict end\n" \
            b"currentfile eexec\n"
    body = b"dup /Private 8 dict dup begin\n/RD {string currentfile exch readstring pop} " \
           b"executeonly def\n/ND {noaccess def} executeonly def\n/NP {noaccess put} executeonly def\n" \
           b"/BlueValues [] def\n/MinFeature {16 16} def\n/password 5839 def\n/lenIV 4 def\n"
    body += b"/Subrs %d array\n" % subrs
    for i in range(subrs):
        cs = _num(50 + i) + _num(10) + b"\x05" + b"\x0b"        # rlineto, return
        if i == 0:
            cs = b"\x0b"
        e = _crypt(b"\0\0\0\0" + cs, 4330)
        body += b"dup %d %d RD " % (i, len(e)) + e + b" NP\n"
    body += b"ND\n2 index /CharStrings %d dict dup begin\n" % (len(chars) + 1)

    def glyph(nm, cs):
        e = _crypt(b"\0\0\0\0" + cs, 4330)
        return b"/" + nm.encode() + b" %d RD " % len(e) + e + b" ND\n"

    body += glyph(".notdef", _num(0) + _num(250) + b"\x0d\x0e")
    done = set()
    for c in chars:
        nm = glyphname(c)
        if nm in done:
            continue
        done.add(nm)
        w = width(c)
        hgt = 700 if c.isupper() or c in "bdfhklt0123456789" else 480
        low = -200 if c in "gjpqy" else 0
        cs = _num(20) + _num(w) + b"\x0d"                       # hsbw
        cs += _num(0) + _num(low) + b"\x15"                     # rmoveto
        if subrs > 1 and ord(c) % 3 == 0:
            cs += _num(1 + ord(c) % (subrs - 1)) + b"\x0a"      # callsubr
        if tricky and ord(c) % 4 == 1:                          # div
            cs += _num((w - 40) * 2) + _num(2) + b"\x0c\x0c" + b"\x06"
        else:
            cs += _num(w - 40) + b"\x06"                        # hlineto
        cs += _num(hgt - low) + b"\x07"                         # vlineto
        if ord(c) % 2:
            cs += _num(-10) + _num(5) + _num(-20) + _num(5) + _num(-10) + _num(0) + b"\x08"
        cs += b"\x09\x0e"                                       # closepath endchar
        body += glyph(nm, cs)
    body += b"end\nend\nreadonly put\nnoaccess put\ndup/FontName get exch definefont pop\n" \
            b"mark currentfile closefile\n"
    enc = _crypt(b"\0\0\0\0" + body, 55665)
    if hexform:
        hx = enc.hex().encode()
        enc = b"\n".join(hx[i:i + 64] for i in range(0, len(hx), 64)) + b"\n"
    tail = (b"0" * 64 + b"\n") * 8 + b"cleartomark\n"
    if pfb:
        def seg(t, d):
            return b"\x80" + bytes([t]) + len(d).to_bytes(4, "little") + d
        return (seg(1, head) + seg(2, enc) + seg(1, tail) + b"\x80\x03",
                len(head), len(enc), len(tail))
    return head + enc + tail, len(head), len(enc), len(tail)
