"""Seeded damage to documents: bytes, objects, numbers, streams, font programs."""
import re
import zlib

import pdfgen

EXTREME = [b"0", b"-1", b"1", b"65535", b"-65536", b"2147483647", b"-2147483648", b"4294967296",
           b"99999999999999999999", b"1e10", b"0.000000001", b"-0.0001", b"1000000", b"-99999", b"3.4e38",
           b"32768", b"255", b"256"]
ODD = [b"null", b"true", b"/Name", b"(text)", b"[ ]", b"<< >>", b"<414243>", b"[1 2 3]", b"1 0 R",
       b"2 0 R", b"9999 0 R", b"/", b"()"]


def flip_bytes(r, data, lo=0, hi=None, n=None):
    hi = len(data) if hi is None else hi
    if hi <= lo:
        return data
    d = bytearray(data)
    for _ in range(n or r.choice([1, 1, 2, 4, 16, 64])):
        i = r.randrange(lo, hi)
        d[i] = r.choice([r.randrange(256), d[i] ^ (1 << r.randrange(8)), 0, 255])
    return bytes(d)


def chunk(r, data, lo=0, hi=None):
    """Deletes, repeats or moves a chunk."""
    hi = len(data) if hi is None else hi
    if hi - lo < 4:
        return data
    i = r.randrange(lo, hi)
    j = min(hi, i + r.choice([1, 3, 10, 100, 1000]))
    k = r.random()
    if k < 0.4:
        return data[:i] + data[j:]
    if k < 0.8:
        return data[:j] + data[i:j] * r.choice([1, 2, 50]) + data[j:]
    m = r.randrange(lo, hi)
    return data[:m] + data[i:j] + data[m:]


def truncate(r, data):
    return data[:r.choice([r.randrange(len(data)), len(data) - r.randrange(1, min(200, len(data)))])]


NUM = re.compile(rb"(?<![\w.#/])-?\d+(?:\.\d+)?(?![\w.])")


def numbers(r, data, spans=None, n=None):
    """Replaces some numbers by extreme ones (and sometimes by things that are no numbers)."""
    lo, hi = (0, len(data)) if not spans else r.choice(spans)
    ms = list(NUM.finditer(data, lo, hi))
    if not ms:
        return data
    pick = sorted(r.sample(ms, min(len(ms), n or r.choice([1, 1, 2, 5]))), key=lambda m: -m.start())
    for m in pick:
        v = r.choice(EXTREME) if r.random() < 0.8 else r.choice(ODD)
        data = data[:m.start()] + v + data[m.end():]
    return data


KEYS = re.compile(rb"/[A-Z][A-Za-z0-9]+")


def keys(r, data, n=None):
    """Renames dictionary keys or names."""
    ms = list(KEYS.finditer(data))
    if not ms:
        return data
    for m in sorted(r.sample(ms, min(len(ms), n or r.choice([1, 1, 2]))), key=lambda m: -m.start()):
        other = r.choice(ms).group(0) if r.random() < 0.6 else r.choice([b"/X", b"/Type0", b"/Type3",
                                                                        b"/MMType1", b"/FontFile2",
                                                                        b"/FontFile3", b"/Kids", b"/Parent"])
        data = data[:m.start()] + other + data[m.end():]
    return data


def refs(r, data, n=None):
    """Redirects references to other objects: loops, wrong types, missing objects."""
    ms = list(re.finditer(rb"(\d+) 0 R", data))
    if not ms:
        return data
    objs = [int(m.group(1)) for m in ms] + [1, 2, 9999]
    for m in sorted(r.sample(ms, min(len(ms), n or r.choice([1, 1, 2, 4]))), key=lambda m: -m.start()):
        data = data[:m.start()] + b"%d 0 R" % r.choice(objs) + data[m.end():]
    return data


def whole(r, data):
    """Some damage to the whole file; returns (kind, bytes)."""
    k = r.choice(["flip", "flip", "chunk", "truncate", "numbers", "numbers", "keys", "refs", "mixed"])
    if k == "flip":
        return k, flip_bytes(r, data)
    if k == "chunk":
        return k, chunk(r, data)
    if k == "truncate":
        return k, truncate(r, data)
    if k == "numbers":
        return k, numbers(r, data)
    if k == "keys":
        return k, keys(r, data)
    if k == "refs":
        return k, refs(r, data)
    for _ in range(r.randint(2, 4)):
        data = r.choice([flip_bytes, chunk, numbers, keys, refs])(r, data) or b"x"
    return k, data


# -- content streams -------------------------------------------------------------------------------

FRAGMENTS = [b"q ", b"Q ", b"BT ", b"ET ", b"q q q q ", b"0 0 0 0 0 0 cm ", b"1e9 0 0 1e9 0 0 cm ",
             b"0 Tz ", b"-100 Tz ", b"1000000 Tc ", b"-50 Tc ", b"1e7 Tw ", b"/F1 0 Tf ", b"/F1 -12 Tf ",
             b"/F1 1e6 Tf ", b"/F1 0.0001 Tf ", b"/NoSuch 10 Tf ", b"0 0 0 0 re W n ",
             b"1 0 0 1 1e12 -1e12 Tm ", b"0 0 0 0 5 5 Tm ", b"[(abc) -1e9 (def)] TJ ", b"() Tj ", b"<00> Tj ",
             b"(\\000\\001\\377) Tj ", b"7 Tr ", b"3 Tr ", b"99 Tr ", b"/Im Do ", b"/NoIm Do ", b"(unterminated ",
             b"<< /A ", b"[ [ [ ", b"] >> ", b"BI /W 1 /H 1 ID x EI ", b"1 0 0 RG 0 0 m 1e9 1e9 l S ",
             b"0 0 612 792 re f ", b"nan inf Td ", b"-- 1.2.3 Td ", b"T* ", b"5 TL T* ' \" ", b"0.0001 w ",
             b"BMC EMC /Span BDC ", b"sh ", b"d0 ", b"1 1 1 1 1 1 d1 ", b"100000 0 0 100000 0 0 cm "]


def content(r, ops):
    """Inserts and alters operators; ops is a list of content fragments."""
    ops = list(ops)
    for _ in range(r.choice([1, 2, 4, 10])):
        i = r.randrange(len(ops) + 1)
        k = r.random()
        if k < 0.5 or not ops:
            ops.insert(i, r.choice(FRAGMENTS))
        elif k < 0.8:
            j = r.randrange(len(ops))
            ops[j] = numbers(r, ops[j])
        elif k < 0.9:
            j = r.randrange(len(ops))
            ops[j] = flip_bytes(r, ops[j], n=2) if ops[j] else b""
        else:
            j = r.randrange(len(ops))
            ops.insert(i, ops[j] * r.choice([1, 3, 20]))
    return ops


# -- Type 1 font programs --------------------------------------------------------------------------

def decrypt(data, key, skip):
    out = bytearray()
    k = key
    for c in data:
        out.append(c ^ (k >> 8))
        k = ((c + k) * 52845 + 22719) & 0xffff
    return bytes(out[skip:])


def charstring_ops(r):
    """A random charstring: numbers and operators, also nonsensical ones."""
    out = b""
    for _ in range(r.randint(1, 40)):
        k = r.random()
        if k < 0.55:
            v = r.choice([r.randrange(-200, 1000), r.randrange(-2**31, 2**31), 0, 1, 2, 3, -1, 2**31 - 1,
                          -2**31, 30000])
            out += pdfgen._num(v)
        elif k < 0.85:
            out += bytes([r.choice([1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 21, 22, 30, 31])])
        elif k < 0.97:
            out += bytes([12, r.choice([0, 1, 2, 6, 7, 12, 16, 17, 33, r.randrange(256)])])
        else:
            out += bytes([r.randrange(32)])
    return out


# The operators of charstrings and the number of their operands.
CHAROPS = {b"\x01": 2, b"\x03": 2, b"\x04": 1, b"\x05": 2, b"\x06": 1, b"\x07": 1, b"\x08": 6, b"\x0a": 1,
           b"\x0d": 2, b"\x15": 2, b"\x16": 1, b"\x1e": 4, b"\x1f": 4, b"\x0c\x01": 6, b"\x0c\x02": 6,
           b"\x0c\x06": 5, b"\x0c\x07": 4, b"\x0c\x0c": 2, b"\x0c\x10": 2, b"\x0c\x11": 0, b"\x0c\x21": 2}


def charstring_starved(r, subrs):
    """A charstring whose operators get fewer (sometimes more) operands than they need; also calls of
    other subroutines (callothersubr) that find too few, and calls of subroutines that do not exist."""
    out = b""
    for _ in range(r.randint(1, 8)):
        op, n = r.choice(list(CHAROPS.items()))
        op = r.choice([op, op, op, op, b"\x0a", b"\x0c\x0c", b"\x0c\x10", b"\x0c\x10"])
        n = CHAROPS[op]
        k = r.choice([0, max(n - 1, 0), max(n - 1, 0), r.randint(0, n), n, n + 1])
        if op == b"\x0a":
            args = [r.choice(subrs + [-1, 7, 4711])]
        elif op == b"\x0c\x10":
            args = [r.randrange(500) for _ in range(r.choice([0, 0, 1, 2, 3]))]
            args += [r.choice([0, 1, 3, 5, 99, -1]), r.choice([0, 1, 2, 3, 3, 0, 4, 12])]
        else:
            args = [r.randrange(-300, 700) for _ in range(k)]
            if r.random() < 0.3:
                args = [r.choice([-2**31, -2**31, 2**31 - 1, -1, -1, 0, 1, a]) for a in args]
        out += b"".join(pdfgen._num(a) for a in args) + op
        if r.random() < 0.08:
            # The end of the charstring within a number or an operator.
            return out + r.choice([b"\x0c", b"\xff", b"\xff\x01\x02", b"\xf8", b"\xfc"])
        if r.random() < 0.4:
            out += b"\x0c\x11" * r.randint(1, 4)
    return out


T1BAD = [(rb"/lenIV \d+", [b"/lenIV -1", b"/lenIV 0", b"/lenIV 99999", b"/lenIV x", b"/lenIV 4294967295"]),
         (rb"/Subrs \d+", [b"/Subrs 0", b"/Subrs -5", b"/Subrs 99999999", b"/Subrs x", b"/Subrs"]),
         (rb"/CharStrings \d+", [b"/CharStrings 0", b"/CharStrings -1", b"/CharStrings 999999999",
                                 b"/CharStrings"]),
         (rb" RD ", [b" -| ", b" RD", b"RD ", b" XX "]),
         (rb"dup \d+ \d+ RD", [b"dup 99999 5 RD", b"dup -1 5 RD", b"dup 1 -5 RD", b"dup 1 999999 RD",
                              b"dup 1 99999999999999999999 RD", b"dup " + b"8" * 250000 + b" 3 RD",
                              b"dup 99999999999999999999 3 RD",
                              b"dup 1 " + b"1" * 250000 + b" RD"]),
         (rb"/\w+ \d+ RD", [b"/a -3 RD", b"/b 9999999 RD", b"/c 0 RD", b"/ 3 RD", b"/d RD",
                            b"/e 99999999999999999999 RD", b"/" + b"g" * 250000 + b" 3 RD",
                            b"/f " + b"7" * 250000 + b" RD", b"/g" + b" " * 250000 + b"3 RD"])]
HEADBAD = [(rb"/FontMatrix \[[^\]]*\]", [b"/FontMatrix [0 0 0 0 0 0]", b"/FontMatrix [1 2]", b"/FontMatrix []",
                                        b"/FontMatrix [a b c d e f]", b"/FontMatrix [1e99 0 0 1e99 0 0]",
                                        b"/FontMatrix [. - + e 0 0]", b"/FontMatrix",
                                        b"/FontMatrix [0.001 0 0 0.001 0 0 %s]" % (b"7 " * 7),
                                        b"/FontMatrix [%s]" % (b"90 " * 300), b"/FontMatrix ]3 4 5["]),
           (rb"/Weight \([^)]*\)", [b"/Weight (", b"/Weight ()", b"/Weight (" + b"w" * 3000 + b")"]),
           (rb"/FontName /\S+", [b"/FontName /", b"/FontName", b"/FontName /" + b"n" * 5000]),
           (rb"/Encoding 256 array", [b"/Encoding StandardEncoding def", b"/Encoding", b"/Encoding 256"]),
           (rb"dup \d+ /\S+ put", [b"dup 999 /a put", b"dup -5 /b put", b"dup x /c put", b"dup 1 / put",
                                   b"dup 99999999999999999999 /d put", b"dup 8#101 /e put"]),
           (rb"eexec\n", [b"eexec", b"eexec ", b"eexec\r\n", b"exec\n", b"eexec\n\n\n"])]


def type1(r, fontfile, hit=None):
    """Damages a font program below its encryption; returns (kind, fontfile). Adds the names of the
    glyphs whose description was damaged to hit ("*": possibly any)."""
    hit = set() if hit is None else hit
    data, l1, l2, l3 = fontfile
    if len(data) < 100 or not 0 < l1 < len(data):
        return "none", fontfile                  # (damaged before, beyond recognition)
    pfb = data[:2] == b"\x80\x01"
    if pfb:
        head = data[6:6 + l1]
        enc = data[6 + l1 + 6:6 + l1 + 6 + l2]
        tail = data[6 + l1 + 6 + l2 + 6:]
    else:
        head, enc, tail = data[:l1], data[l1:l1 + l2], data[l1 + l2:]
    hexform = bool(re.match(rb"^[0-9a-fA-F\s]{64}", enc))
    digits = re.sub(rb"[^0-9a-fA-F]", b"", enc).decode()
    raw = bytes.fromhex(digits[:len(digits) & ~1]) if hexform else enc
    body = decrypt(raw, 55665, 4)
    kind = r.choice(["outer", "private", "charstring", "charstring", "charstring", "charstring", "header", "header",
                     "token", "token", "token", "token", "lengths", "lengths", "cut", "pfbhdr" if pfb else "outer"])
    if kind != "charstring":
        hit.add("*")
    if kind == "outer":
        f = r.choice([flip_bytes, chunk])
        return kind, (f(r, data), l1, l2, l3)
    if kind == "lengths":
        v = [0, 1, -1, 2**31 - 1, -2**31, l1 + 1, l1 - 1, l2, 10**9]
        return kind, (data, r.choice([l1, r.choice(v)]), r.choice([l2, r.choice(v)]), r.choice([l3, r.choice(v)]))
    if kind == "cut":
        n = r.choice([r.randrange(len(data)), l1 + r.randrange(40), r.randrange(60), 0])
        return kind, (data[:n], l1, l2, l3)
    if kind == "pfbhdr":
        i = r.choice([0, 6 + l1, 12 + l1 + l2])
        d = bytearray(data)
        for _ in range(r.randint(1, 3)):
            if i + 5 < len(d):
                d[i + r.randrange(6)] = r.choice([0, 1, 2, 3, 255, 128, r.randrange(256)])
        return kind, (bytes(d), l1, l2, l3)
    if kind == "header":
        pat, alts = r.choice(HEADBAD)
        ms = list(re.finditer(pat, head))
        if ms:
            m = r.choice(ms)
            head = head[:m.start()] + r.choice(alts) + head[m.end():]
        if r.random() < 0.3:
            head = r.choice([flip_bytes, chunk, numbers])(r, head)
    elif kind == "private":
        body = r.choice([flip_bytes, chunk])(r, body)
    elif kind == "token":
        for _ in range(r.choice([1, 1, 2])):
            pat, alts = r.choice(T1BAD)
            ms = list(re.finditer(pat, body))
            if ms:
                m = r.choice(ms)
                body = body[:m.start()] + r.choice(alts) + body[m.end():]
    else:
        for _ in range(r.choice([1, 3, 8, 20])):
            ms = list(re.finditer(rb"(dup \d+|/\S+) (\d+) RD ", body))
            if not ms:
                break
            m = r.choice(ms)
            n = int(m.group(2))
            hit.add("*" if m.group(1)[:1] != b"/" else m.group(1)[1:].decode("latin-1"))
            subrs = [int(x) for x in re.findall(rb"dup (\d+) \d+ RD ", body)]
            k = r.random()
            if k < 0.35:
                cs = charstring_ops(r)
            elif k < 0.65:
                cs = charstring_starved(r, subrs)
            else:
                cs = flip_bytes(r, decrypt(body[m.end():m.end() + n], 4330, 4) or b"\x0e", n=2)
            if r.random() < 0.25:
                # A subroutine that calls itself or another one (or a glyph that calls one).
                own = int(m.group(1)[4:]) if m.group(1)[:3] == b"dup" else None
                call = own if own is not None and r.random() < 0.5 else r.choice(subrs + [r.randrange(6)])
                cs = r.choice([b"", cs]) + pdfgen._num(call) + b"\x0a" + cs
            e = pdfgen._crypt(b"\0\0\0\0" + cs, 4330)
            body = body[:m.start()] + m.group(1) + b" %d RD " % len(e) + e + body[m.end() + n:]
    raw = pdfgen._crypt(b"\0\0\0\0" + body, 55665)
    enc = raw
    if hexform:
        hx = raw.hex().encode()
        enc = b"\n".join(hx[i:i + 64] for i in range(0, len(hx), 64)) + b"\n"
    if pfb:
        def seg(t, d):
            return b"\x80" + bytes([t]) + len(d).to_bytes(4, "little") + d
        return kind, (seg(1, head) + seg(2, enc) + b"\x80\x01" + len(tail).to_bytes(4, "little") + tail,
                      len(head), len(enc), l3)
    return kind, (head + enc + tail, len(head), len(enc), l3)


def embed(r, d):
    """Makes sure that the document embeds a font program."""
    fs = [f for f in d.fonts.values() if f.fontfile]
    if not fs:
        c = [f for f in d.fonts.values() if f.kind == "plain" and not f.diffs]
        for f in r.sample(c, min(len(c), r.randint(1, 2))):
            f.kind = "type1"
            f.fontfile = pdfgen.type1(f.name, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-.,",
                                      pfb=r.random() < 0.3, hexform=r.random() < 0.3, subrs=r.randint(1, 6),
                                      tricky=r.randint(0, 1))
            fs.append(f)
    return fs


# -- one page, one stream --------------------------------------------------------------------------

def stream_object(r, obj):
    """Damages the stream inside one object 'n 0 obj << >> stream ... endstream endobj'. Keeps the
    object delimiters, so that no other object is affected. Returns (kind, bytes)."""
    m = re.match(rb"(\d+ 0 obj\n<<)(.*?)(>>\nstream\n)(.*)(\nendstream\nendobj\n)$", obj, re.S)
    if not m:
        return "none", obj
    pre, dic, mid, data, post = m.groups()
    kind = r.choice(["random", "flip", "cut", "filter", "wrongfilter", "length", "empty", "garbage",
                     "notstream"])
    if kind == "random":
        data = bytes(r.randrange(256) for _ in range(len(data)))
    elif kind == "flip":
        data = flip_bytes(r, data)
    elif kind == "cut":
        data = data[:r.randrange(len(data) + 1)]
    elif kind == "filter":
        dic = b" /Filter /NoSuchDecode" + re.sub(rb"/Filter /\w+", b"", dic)
    elif kind == "wrongfilter":
        f = r.choice([b"/FlateDecode", b"/LZWDecode", b"/ASCIIHexDecode", b"/RunLengthDecode",
                      b"/ASCII85Decode", b"/DCTDecode", b"/CCITTFaxDecode"])
        dic = b" /Filter " + f + re.sub(rb"/Filter /\w+", b"", dic)
    elif kind == "length":
        dic = re.sub(rb"/Length \d+", r.choice([b"/Length 0", b"/Length -1", b"/Length (x)",
                                                b"/Length 5", b""]), dic)
        return kind, pre + dic + mid + data + post
    elif kind == "empty":
        data = b""
    elif kind == "garbage":
        data = b"".join(r.choice(FRAGMENTS) for _ in range(30))
    else:
        return kind, re.match(rb"\d+ 0 obj\n", obj).group(0) + r.choice(ODD[:7]) + b"\nendobj\n"
    if b"stream" in data or b"endobj" in data or b" obj" in data:
        data = data.replace(b"stream", b"xxxxxx").replace(b"endobj", b"xxxxxx").replace(b" obj", b"xxxx")
    dic = re.sub(rb"/Length \d+", b"/Length %d" % len(data), dic)
    return kind, pre + dic + mid + data + post


def inflate(data):
    try:
        return zlib.decompress(data)
    except zlib.error:
        return data


def rebuild(pdf, edits):
    """Replaces byte ranges [(start, end, bytes)] and writes a new cross-reference table."""
    for s, e, d in sorted(edits, key=lambda x: -x[0]):
        pdf = pdf[:s] + d + pdf[e:]
    i = pdf.rfind(b"\nxref\n") + 1
    body = pdf[:i]
    tail = pdf[i:]
    m = re.match(rb"xref\n0 (\d+)\n", tail)
    size = int(m.group(1))
    offs = {}
    for q in re.finditer(rb"(?:^|\n)(\d+) 0 obj\n", body):
        n = int(q.group(1))
        if n not in offs:
            offs[n] = q.start(1)
    out = bytearray(body) + b"xref\n0 %d\n0000000000 65535 f \n" % size
    for n in range(1, size):
        out += b"%010d 00000 n \n" % offs.get(n, 0)
    t = tail[tail.index(b"trailer"):]
    t = re.sub(rb"startxref\n\d+", b"startxref\n%d" % i, t)
    return bytes(out) + t
