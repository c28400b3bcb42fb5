"""The sample workbooks of the repository, written by real spreadsheet programs:
an independent reader of their containers, and rewriting of their record streams."""
import glob, os, struct
from .runner import REPO
from .build import rec
unpack = struct.unpack

def read_ole(d, names=("workbook", "book")):
    """bytes of the named stream, or None"""
    ssz, sssz = unpack("<HH", d[30:34])
    nfat, dir0, _, cutoff, mfat0, nmfat, dif0, ndif = unpack("<IIIIIIII", d[44:76])
    S = 1 << ssz
    sec = lambda n: d[512 + n * S:512 + (n + 1) * S] if S == 512 else d[(n + 1) * S:(n + 2) * S]
    fat = list(unpack("<109I", d[76:512]))
    while dif0 < 0xFFFFFFFC and ndif:
        x = unpack("<%dI" % (S // 4), sec(dif0)); fat += x[:-1]; dif0 = x[-1]; ndif -= 1
    table = []
    for n in [x for x in fat if x < 0xFFFFFFFC][:nfat]: table += unpack("<%dI" % (len(sec(n)) // 4), sec(n))
    def chain(n, tab, get):
        out = []
        while n < 0xFFFFFFFC:
            out.append(get(n)); n = tab[n]
            if len(out) > len(d): raise ValueError("loop")
        return b"".join(out)
    dirs = chain(dir0, table, sec)
    ents = []
    for i in range(0, len(dirs), 128):
        e = dirs[i:i + 128]; n = unpack("<H", e[64:66])[0]
        ents.append((e[:max(0, n - 2)].decode("utf-16le"), e[66], unpack("<I", e[116:120])[0], unpack("<I", e[120:124])[0]))
    root = [e for e in ents if e[1] == 5][0]
    mini = None
    for want in names:
        for nm, ty, st, size in ents:
            if ty == 2 and nm.lower() == want:
                if size >= cutoff: return chain(st, table, sec)[:size]
                if mini is None:
                    mini = chain(root[2], table, sec)
                    mt = chain(mfat0, table, sec); mtab = unpack("<%dI" % (len(mt) // 4), mt)
                return chain(st, mtab, lambda n: mini[n << sssz:(n + 1) << sssz])[:size]
    return None

_all = []
def samples():
    """[(name, file bytes, record stream)] of the samples that xlrd supports"""
    if not _all:
        for f in sorted(glob.glob(os.path.join(REPO, "tests", "samples", "*.xls"))):
            nm = os.path.basename(f)[:-4]
            if nm in ("corrupted_error",): continue      # damaged on purpose
            with open(f, "rb") as g: d = g.read()
            st = read_ole(d) if d[:8] == b"\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1" else d
            if st: _all.append((nm, d, st))
    return _all

def records(st):
    """[(offset, code, payload)] up to the end of the stream"""
    out = []; p = 0
    while p + 4 <= len(st):
        rc, n = unpack("<HH", st[p:p + 4])
        if p + 4 + n > len(st): break
        out.append((p, rc, st[p + 4:p + 4 + n])); p += 4 + n
    return out

TIED = {0x06, 0x206, 0x406, 0x4BC, 0x221, 0x21, 0x236, 0x37, 0x36, 0x207, 0xEC, 0x5D, 0x1B6, 0x3C, 0x1B8}
BOFS = {0x809, 0x409, 0x209, 9}

def insert(st, f):
    """the stream with what f() gives put between its records - in the globals and in
    the sheets, nowhere inside a group of records that belong together - and the
    sheet directory adjusted.  Padding after the last substream is dropped."""
    rs = records(st)
    out = []; moved = {}; pos = 0; depth = 0; fix = []
    for i, (p, rc, d) in enumerate(rs):
        if depth and rc != 0x3C and rs[i - 1][1] not in TIED:
            x = f()
            if x: out.append(x); pos += len(x)
        if rc in BOFS: depth += 1
        moved[p] = pos
        if rc == 0x85 and len(d) > 6: fix.append(len(out))
        r = rec(rc, d); out.append(r); pos += len(r)
        if rc == 0x0A: depth -= 1
        if rc == 0 and not depth: out.pop(); pos -= len(r)
    for j in fix:
        r = out[j]; old = unpack("<I", r[4:8])[0]
        if old in moved: out[j] = r[:4] + struct.pack("<I", moved[old]) + r[8:]
    return b"".join(out)

class Like(object):
    """stands in for a generated workbook where only the version matters"""
    names_exp = codepage = None
    sheets = ()
    def __init__(self, nm, bv): self.name, self.bv = nm, bv
    def worksheets(self): return []

def version(st):
    rc, n = unpack("<HH", st[:4]); v = unpack("<H", st[4:6])[0]
    return {0x09: 21, 0x209: 30, 0x409: 40}.get(rc) or (80 if v == 0x600 else 70)

def pick(rng):
    """-> (stand-in, file bytes, record stream)"""
    nm, d, st = rng.choice(samples())
    return Like(nm, version(st)), d, st

def repack(rng, st, bv):
    """the same stream stored otherwise"""
    from . import ole
    if rng.random() < (.2 if bv >= 50 else .5): return st
    return ole.build([ole.stream("Workbook" if bv >= 80 else "Book", st)] + ([ole.stream("\x05SummaryInformation", rng.randbytes(300))] if rng.random() < .5 else []), ole.random_layout(rng)).data
