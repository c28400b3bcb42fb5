"""Damaged and hostile workbook inputs: mutants of generated workbooks, of their
containers and of the sample files, streams made of random records, and
constructions that claim a lot with few bytes."""
import glob, os, random, struct
from .randbook import *
from . import formula as F, ole
from .runner import REPO

CODES = []
def codes():
    if not CODES:
        from xlrd import biffh
        CODES.extend(sorted(v for k, v in vars(biffh).items() if k.startswith("XL_") and isinstance(v, int) and 0 < v < 0x10000 and not k.startswith("XL_CELL")))
    return CODES

VERS = (20, 21, 30, 40, 45, 50, 70, 80, 80, 80)

def records(st):
    out = []; p = 0
    while p + 4 <= len(st):
        rc, n = struct.unpack("<HH", st[p:p + 4])
        out.append((rc, st[p + 4:p + 4 + n])); p += 4 + n
    return out

def join(rs):
    return b"".join(rec(rc, d[:0xFFFF]) for rc, d in rs)

def base(rng, bv=None):
    bv = bv or rng.choice(VERS)
    b = random_book(rng, bv, density=rng.choice([.05, .15, .4]), small=True, kinds=rng.random() < .2, names=True)
    return bv, b.stream(rng)

_samples = []
def samples():
    if not _samples:
        for f in sorted(glob.glob(os.path.join(REPO, "tests", "samples", "*.xls"))):
            d = open(f, "rb").read()
            if len(d) < 200000: _samples.append((os.path.basename(f), d))
    return _samples

WORDS = [0, 1, 2, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF]

def bytes_mutant(rng, data, n=None):
    a = bytearray(data)
    kinds = []
    for _ in range(n or rng.choice([1, 1, 1, 2, 3, 8, 40])):
        if not a: break
        k = rng.randrange(9); p = rng.randrange(len(a)); kinds.append(k)
        if k == 0: a[p] ^= 1 << rng.randrange(8)
        elif k == 1: a[p] = rng.choice([0, 1, 0x7F, 0x80, 0xFF])
        elif k == 2: a[p] = rng.randrange(256)
        elif k == 3: a[p:p + 2] = struct.pack("<H", rng.choice(WORDS))
        elif k == 4: a[p:p + 4] = struct.pack("<I", rng.choice([0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFE, len(a), rng.getrandbits(32)]))
        elif k == 5: del a[p:p + rng.choice([1, 2, 4, 100])]
        elif k == 6: a[p:p] = rng.randbytes(rng.choice([1, 2, 4, 100]))
        elif k == 7: q = rng.randrange(len(a)); n2 = rng.choice([1, 4, 50, 512]); a[p:p + n2] = a[q:q + n2]
        else: a[p:p + 16] = bytes([rng.choice([0, 255])]) * 16
    return "bytes%s" % sorted(set(kinds)), bytes(a)

def record_mutant(rng, st, n=None):
    rs = records(st); what = []
    if not rs: return "none", st
    for _ in range(n or rng.choice([1, 1, 1, 2, 3, 6])):
        if not rs: break
        i = rng.randrange(len(rs)); rc, d = rs[i]
        k = rng.randrange(14); what.append(k)
        if k == 0: del rs[i]
        elif k == 1: rs.insert(rng.randrange(len(rs) + 1), (rc, d))
        elif k == 2: j = rng.randrange(len(rs)); rs[i], rs[j] = rs[j], rs[i]
        elif k == 3: rs[i] = (rc, d[:rng.randrange(len(d) + 1)])
        elif k == 4: rs[i] = (rc, d + rng.randbytes(rng.choice([1, 2, 8, 100])))
        elif k == 5: rs[i] = (rng.choice(codes()), d)
        elif k == 6: rs[i] = (rc, rng.randbytes(len(d)))
        elif k == 7: rs[i] = (rc, b"")
        elif k == 8 and d:
            a = bytearray(d); p = rng.randrange(len(a)); a[p:p + 2] = struct.pack("<H", rng.choice(WORDS)); rs[i] = (rc, bytes(a))
        elif k == 9 and d:
            p = rng.randrange(len(d)); rs[i:i + 1] = [(rc, d[:p]), (0x3C, d[p:])]
        elif k == 10: rs[i:i] = [(rng.choice(codes()), rng.randbytes(rng.choice([0, 1, 2, 4, 6, 8, 14, 20, 40])))]
        elif k == 11: rs[i:i] = [(rng.choice([0x809, 0x409, 0x209, 9]), struct.pack("<HHHH", rng.choice([0x600, 0x500, 0, 2, 0x400]), rng.choice([5, 0x10, 0x20, 0x40, 0x100]), 0x1234, 1997))]
        elif k == 12: rs[i:i] = [(0x0A, b"")]
        else:
            j = rng.randrange(len(rs)); rs[i:i] = rs[j:j + rng.randint(1, 20)]
    return "records%s" % sorted(set(what)), join(rs)

BOFS = {20: (9, 2), 21: (9, 2), 30: (0x209, 0), 40: (0x409, 0), 45: (0x409, 0), 50: (0x809, 0x500), 70: (0x809, 0x500), 80: (0x809, 0x600)}

def synth(rng):
    """random records after plausible BOF records"""
    bv = rng.choice(VERS)
    op, ver = BOFS[bv]
    def bofrec(kind): return (op, struct.pack("<HHHH", ver, kind, 0x1234, 1993 if bv == 50 else 1997))
    def payload():
        n = rng.choice([0, 2, 4, 6, 7, 8, 10, 12, 14, 16, 20, 24, 32, 50, 100, 600])
        k = rng.random()
        if k < .3: return rng.randbytes(n)
        if k < .6: return b"".join(struct.pack("<H", rng.choice([0, 0, 1, 2, 3, 5, 8, 0x10, 255, 256, 0xFFFF])) for _ in range(n // 2))
        if k < .8: return bytes(n)
        return struct.pack("<HHH", rng.randint(0, 20), rng.randint(0, 20), 0) + b"".join(struct.pack("<H", rng.randint(0, 5)) for _ in range(n // 2))
    def block(n): return [(rng.choice(codes()), payload()) for _ in range(rng.randint(0, n))]
    if bv < 50:
        g = [bofrec(0x100 if bv == 45 else 0x10)] + block(30) + [(0x0A, b"")]
        if bv == 45 and rng.random() < .5: g += [bofrec(0x10)] + block(20) + [(0x0A, b"")]
        return bv, join(g)
    # globals with one sheet whose offset is right
    g1 = block(12); g2 = block(12)
    sh = [bofrec(0x10)] + block(30) + [(0x0A, b"")]
    bs = struct.pack("<IH", 0, 0) + (b"\x01\x00S" if bv >= 80 else b"\x01S")
    pre = [bofrec(5)] + ([(0x42, struct.pack("<H", 1200 if bv >= 80 else 1252))] if rng.random() < .7 else []) + g1
    glob = pre + [(0x85, bs)] + g2 + [(0x0A, b"")]
    off = len(join(glob))
    bs = struct.pack("<IH", off, 0) + bs[6:]
    return bv, join(pre + [(0x85, bs)] + g2 + [(0x0A, b"")] + sh)

def container(rng, st, bv):
    if bv < 50 or rng.random() < .3: return st
    L = ole.random_layout(rng)
    L.ssz = rng.choice([9, 9, 9, 7, 12]); L.sssz = min(6, L.ssz)
    kids = [ole.stream("Workbook" if bv >= 80 else "Book", st)]
    if rng.random() < .5: kids.append(ole.stream("\x05SummaryInformation", rng.randbytes(300)))
    if rng.random() < .3: kids.append(ole.storage("_VBA_PROJECT_CUR", [ole.stream("dir", rng.randbytes(500))]))
    return ole.build(kids, L).data

def hostile(rng):
    """-> (class of damage, bytes)"""
    k = rng.random()
    if k < .12:
        n, d = rng.choice(samples())
        w, d = bytes_mutant(rng, d)
        return "sample-" + w, d
    if k < .3:
        bv, st = synth(rng)
        return "synthetic", container(rng, st, bv)
    bv, st = base(rng)
    if k < .4:
        w, d = bytes_mutant(rng, container(rng, st, bv))
        return "file-" + w, d
    if k < .6:
        w, d = bytes_mutant(rng, st)
        return "stream-" + w, container(rng, d, bv)
    if k < .95:
        w, d = record_mutant(rng, st)
        return "stream-" + w, container(rng, d, bv)
    d = container(rng, st, bv)
    return "cut", d[:rng.randrange(len(d) + 1)]

# ------------------------------------------------ few bytes that claim a lot
def _book(rng, bv, cells=True):
    b = BookB(bv, codepage=1200 if bv >= 80 else 1252)
    if bv != 20: b.add_xf(0)
    sh = b.sheet("S", 0); sh.dims = (5, 5)
    if cells: sh.number(0, 0, 1.0, bytes(3) if bv == 20 else 0); sh.label(1, 1, "t", bytes(3) if bv == 20 else 0)
    return b, sh

def _names(rng, bv, raws):
    """a workbook with these name formulas (token bytes, or functions of the index)"""
    b, sh = _book(rng, bv)
    ns = F.NameSet(b, rng)
    for i, r in enumerate(raws): ns.add("N%d" % i, raw=r, scope=None, extras=b"")
    ns.install()
    return b.stream(rng)

def _tname(bv, i):
    return b"\x23" + struct.pack("<H", i + 1) + bytes(2 if bv >= 80 else 12)

def bombs(rng):
    """-> list of (name, biff version, stream, declared cells) ; deterministic given rng"""
    out = []
    def add(name, bv, st, declared=0): out.append((name, bv, st, declared))
    def sheet(name, bv, recs, declared=0, pre=(), cells=True):
        b, sh = _book(rng, bv, cells)
        for rc, d in recs: sh.raw(rec(rc, d))
        for rc, d in pre: b.post.append(rec(rc, d))
        add(name, bv, b.stream(rng), declared)
    P = struct.pack
    for bv in (50, 80):
        fd = ("<H" + "HHHH")
        for r in ((0, 0xFFFF, 0, 0xFFFF), (0xFFFF, 0xFFFF, 0xFFFF, 0xFFFF), (9, 0, 9, 0), (0, 0xFFFF, 0x100, 0xFFFF)):
            sheet("merged %r" % (r,), bv, [(0xE5, P("<HHHHH", 1, *r))])
        sheet("merged count", bv, [(0xE5, P("<HHHHH", 65535, 0, 1, 0, 1))])
        for r in ((0, 300, 0, 0xFFFF), (0, 0xFFFF, 0xFFF0, 0xFFFF), (500, 0, 500, 0)):
            body = P("<HHHH", *r) + bytes.fromhex("D0C9EA79F9BACE118C8200AA004BA90B") + P("<iI", 2, 0x1C & ~0x14 | 8) + P("<I", 2) + "a\0".encode("utf-16le")
            sheet("hyperlink %r" % (r,), bv, [(0x1B8, body)], declared=(r[1] - r[0] + 1) * 256 if r[1] > r[0] else 0)
        for n in (0x7FFFFFFF, 0xFFFFFFFF, 65536):
            body = P("<HHHH", 0, 0, 0, 0) + bytes.fromhex("D0C9EA79F9BACE118C8200AA004BA90B") + P("<iI", 2, 0x14) + P("<I", n) + b"a\0" * 10
            sheet("hyperlink text %#x" % n, bv, [(0x1B8, body)])
            sheet("hyperlink path %#x" % n, bv, [(0x1B8, P("<HHHH", 0, 0, 0, 0) + bytes.fromhex("D0C9EA79F9BACE118C8200AA004BA90B") + P("<iI", 2, 1) + bytes.fromhex("0303000000000000C000000000000046") + P("<HI", 0xFFFF, n) + b"x\0" + bytes(24) + P("<I", 0))])
        # names
        S = b"\x17" + bytes([250]) + (b"\0" if bv >= 80 else b"") + b"x" * 250
        ref = b"\x3A" + P("<HHH", 0, 1, 1) if bv >= 80 else b"\x3A" + P("<h8xHHHB", -1, 0, 0, 1, 1)
        N = 60
        dbl = lambda op: [_tname(bv, i - 1) * 2 + op for i in range(1, N)]
        add("doubling text", bv, _names(rng, bv, [S] + dbl(b"\x08")))
        add("doubling areas", bv, _names(rng, bv, [ref] + dbl(b"\x10")))
        add("squaring areas", bv, _names(rng, bv, [ref + ref + b"\x10"] + [_tname(bv, i - 1) * 2 + b"\x10" + _tname(bv, i - 1) * 2 + b"\x10" + b"\x0F" for i in range(1, N)]))
        add("power tower", bv, _names(rng, bv, [b"\x1E\x09\x00"] + [_tname(bv, i - 1) * 2 + b"\x07" for i in range(1, N)]))
        add("squaring numbers", bv, _names(rng, bv, [b"\x1E\xFF\xFF"] + [_tname(bv, i - 1) * 2 + b"\x05" for i in range(1, N)]))
        add("doubling text, last first", bv, _names(rng, bv, [_tname(bv, i + 1) * 2 + b"\x08" for i in range(N)] + [S]))
        add("every name needs all others", bv, _names(rng, bv, [b"".join(_tname(bv, j) for j in range(40) if j != i) + b"\x03" * 38 for i in range(40)]))
        add("self reference", bv, _names(rng, bv, [_tname(bv, 0)]))
        add("branching chains", bv, _names(rng, bv, [_tname(bv, (i + 1) % 30) + _tname(bv, (i + 2) % 30) + b"\x03" for i in range(30)]))
        add("deep parentheses", bv, _names(rng, bv, [b"\x1E\x01\x00" + b"\x15" * 7000]))
        add("long minus", bv, _names(rng, bv, [b"\x1E\x01\x00" + b"\x13" * 7000]))
        add("long concatenation", bv, _names(rng, bv, [S * 28 + b"\x08" * 27]))
        add("long union", bv, _names(rng, bv, [ref * 900 + b"\x10" * 899]))
        add("long intersection of unions", bv, _names(rng, bv, [ref * 400 + b"\x10" * 399 + ref * 400 + b"\x10" * 399 + b"\x0F"]))
        add("attr", bv, _names(rng, bv, [b"\x19\x04\xFF\xFF" + bytes(20), b"\x19\x04\x00\x00", b"\x19\x40\0\0" * 2000 + b"\x1E\1\0"]))
        sheet("page breaks", bv, [(0x1B, P("<H", 65535)), (0x1A, P("<H", 65535))])
        sheet("colinfo", bv, [(0x7D, P("<HHHHHH", 0, 65535, 10, 0, 0, 0))] * 20)
        sheet("rows", bv, [(0x208, P("<HHHHHHHH", r, 0, 65535, 255, 0, 0, 0x100, 15)) for r in range(65530, 65536)])
        sheet("dimensions", bv, [(0x200, P("<IIHHH", 0, 0xFFFFFFFF, 0, 0xFFFF, 0))])
        sheet("mulblank", bv, [(0xBE, P("<HHHH", 0, 0, 0, 65535))] * 3 + [(0xBD, P("<HH", 0, 60000) + bytes(6) + P("<H", 65535))])
        sheet("label ranges", bv, [(0x15F, P("<HH", 65535, 65535)), (0x15F, P("<H", 65535) + bytes(16))])
        sheet("note", bv, [(0x1C, P("<HHH", 0, 0, 65535) + b"abc")])
        sheet("embedded", bv, [(0x809, P("<HHHH", 0x600, 0x20, 0, 1997))])
        sheet("array", bv, [(0x221, P("<HHBB", 0, 65535, 0, 255) + bytes(30)), (0x4BC, P("<HHBB", 0, 65535, 0, 255) + bytes(30))])
        for n, d in (("palette", P("<H", 65535)), ("format", P("<H", 200) + b"\xFF\xFF\0"), ("style", P("<HH", 0, 65535)), ("country", b""), ("externsheet", P("<H", 65535)), ("supbook", P("<HH", 65535, 1) + b"\x01\0\0a" * 3),
                     ("supbook names", P("<H", 65535) + b"\x01\0\0a" + b"\0\0\0" * 200), ("codepage", P("<H", 65001)), ("font", b""), ("xf", b""), ("boundsheet", b"")):
            rc = {"palette": 0x92, "format": 0x41E, "style": 0x293, "country": 0x8C, "externsheet": 0x17, "supbook": 0x1AE, "supbook names": 0x1AE, "codepage": 0x42, "font": 0x31, "xf": 0xE0, "boundsheet": 0x85}[n]
            sheet("short " + n, bv, [], pre=[(rc, d)])
        sheet("zero records", bv, [(0, b"")] * 20000)
    for nm, n in (("2**31-1", 0x7FFFFFFF), ("-1", -1), ("70000", 70000)):
        sheet("sst count " + nm, 80, [], pre=[(0xFC, P("<ii", 1, n) + b"\x01\0\0a")])
        sheet("sst empty strings " + nm, 80, [], pre=[(0xFC, P("<ii", 1, n) + b"\0\0\0" * 2700)])
    for fl, tail in ((0, b""), (1, b""), (4, P("<i", 0x7FFFFFFF)), (4, P("<i", -1)), (4, P("<i", -2 ** 31)), (8, P("<H", 65535)), (12, P("<Hi", 65535, 0x7FFFFFFF))):
        sheet("sst string flags %d" % fl, 80, [], pre=[(0xFC, P("<iiHB", 1, 1, 65535, fl) + tail + b"abc"), (0x3C, b"\0" + b"x" * 50), (0x3C, b"\0")] + [(0x3C, b"\1")] * 500)
        sheet("sst continues", 80, [], pre=[(0xFC, P("<iiHB", 1, 1, 65535, fl) + tail + b"abc")] + [(0x3C, b"")] * 500)
    obj = (0x5D, P("<HHHHH", 0x15, 18, 0x19, 1, 0) + bytes(12) + P("<HH", 0, 0))
    for cc, cb in ((65535, 65535), (65535, 0), (0, 65535), (1, 8)):
        sheet("txo %d %d" % (cc, cb), 80, [obj, (0x1B6, P("<HH6sHHH", 0, 0, bytes(6), cc, cb, 0))] + [(0x3C, b"\0")] * 300)
        sheet("txo2 %d %d" % (cc, cb), 80, [obj, (0x1B6, P("<HH6sHHH", 0, 0, bytes(6), cc, cb, 0))] + [(0x3C, b"")] * 300)
    # sheets that point at other places
    for bv in (50, 70, 80):
        b, sh = _book(rng, bv)
        st = b.stream(rng); rs = records(st)
        i = [j for j, (rc, d) in enumerate(rs) if rc == 0x85][0]
        for off in (0, 4, 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, len(st), len(st) - 4, len(st) + 1, 8):
            q = list(rs); q[i] = (0x85, P("<I", off) + rs[i][1][4:]); add("sheet at %#x" % off, bv, join(q))
        q = list(rs); q[i + 1:i + 1] = [rs[i]] * 300
        shift = sum(4 + len(d) for rc, d in q) - len(st)
        off = P("<I", struct.unpack("<I", rs[i][1][:4])[0] + shift)
        add("300 sheets at one place", bv, join([(rc, off + d[4:]) if rc == 0x85 else (rc, d) for rc, d in q]))
        for kd in (5, 0x10, 0x20, 0x100):
            add("only BOF %#x" % kd, bv, join([(0x809, P("<HHHH", 0x600 if bv >= 80 else 0x500, kd, 1, 1997))] * 200))
    # BIFF4W: SHEETHDR lengths that go nowhere or back
    def w4(length, again=0):
        op = (0x409, P("<HHHH", 0, 0x100, 1, 1992))
        bs = (0x85, b"\1S"); eof = (0x0A, b"")
        shb = join([(0x409, P("<HHHH", 0, 0x10, 1, 1992)), (0x203, P("<HHHd", 0, 0, 0, 1.0)), eof])
        return op, bs, shb, eof
    op, bs, shb, eof = w4(0)
    head = join([op, (0x42, P("<H", 1252)), (0x8E, P("<i", 0))])
    bsr = join([bs])
    for nm, ln in (("zero", 0), ("back to itself", -(4 + 6)), ("back to the name", -(4 + 6) - len(bsr)), ("back to the start", -(4 + 6) - len(bsr) - len(head)), ("before the file", -10000), ("beyond", 0x7FFFFFFF), ("inside", 8)):
        st = head + bsr * 3 + rec(0x8F, P("<i", ln) + b"\1S") + shb + join([eof])
        add("sheet header " + nm, 45, st)
        st = head + bsr + rec(0x8F, P("<i", ln) + b"\1S") + shb + join([eof])
        add("sheet header one " + nm, 45, st)
    # old versions
    for bv in (20, 21, 30, 40):
        sheet("old colwidth", bv, [(0x24, P("<BBH", 0, 255, 10)), (0x24, P("<BBH", 255, 0, 10))])
        sheet("old columndefault", bv, [(0x20, P("<HH", 0, 65535)), (0x20, P("<HH", 5, 5)), (0x20, P("<HH", 9, 2))])
        sheet("old rows", bv, [(0x08 if bv < 30 else 0x208, P("<HHHH", 65535, 0, 65535, 255) + bytes(10))])
        sheet("old dimensions", bv, [(0x00 if bv < 30 else 0x200, P("<HHHH", 0, 65535, 0, 65535) + bytes(2))])
        sheet("old far cell", bv, [(0x03 if bv < 30 else 0x203, P("<HH", 16383, 255) + (bytes(3) if bv < 30 else bytes(2)) + bytes(8))], declared=16384 * 256)
        sheet("old too far cell", bv, [(0x03 if bv < 30 else 0x203, P("<HH", 65535, 65535) + (bytes(3) if bv < 30 else bytes(2)) + bytes(8))])
        sheet("old format", bv, [(0x1E, b"\xFF" + b"[" * 200)])
        sheet("no eof", bv, [])
        n, v, s, d = out[-1]; out[-1] = (n, v, s[:-4], d)
    for s in ('"' * 9000, "[" * 9000, "]" * 9000, "[h" * 4000, "\\" * 9001, "_" * 9001, "*" * 9001, "y" * 9000, "[$-409]" * 1200, "E" * 9000, '"a' * 4500, "[]" * 4000, "[h][" * 2000, ";" * 9000):
        b, sh = _book(rng, 80)
        d = P("<H", 200) + P("<H", min(len(s), 4000)) + b"\0" + s[:4000].encode("latin-1")
        b.post += [rec(0x41E, d)] * 30
        add("format %r" % s[:6], 80, b.stream(rng))
    for bv in (50, 80):
        b, sh = _book(rng, bv)
        b.post += [rec(0xE0, bytes(20 if bv >= 80 else 16))] * 5000
        add("5000 xfs", bv, b.stream(rng))
    return out

def ole_bombs(rng):
    """container claims: header fields at the extremes"""
    bv, st = base(rng, 80)
    L = ole.Layout(); d = ole.build([ole.stream("Workbook", st)], L).data
    out = []
    for off, sz in ((0x18, 2), (0x1A, 2), (0x1C, 2), (0x1E, 2), (0x20, 2), (0x2C, 4), (0x30, 4), (0x38, 4), (0x3C, 4), (0x40, 4), (0x44, 4), (0x48, 4), (0x4C, 4)):
        for v in ([0, 1, 2, 0x7FFF, 0x8000, 0xFFFF, 12, 20, 21, 31, 32, 63] if sz == 2 else [0, 1, 2, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFD, 1000000, 0x40000000]):
            out.append(("header %#x = %#x" % (off, v), d[:off] + struct.pack("<H" if sz == 2 else "<I", v) + d[off + sz:]))
    return out
