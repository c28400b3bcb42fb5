"""C22 - content the library does not support is ignored without disturbing the rest."""
import copy
from xlmon.judge import *
from xlmon.randbook import *
from xlmon import formula, samples as SM
from xlmon.runner import Violation, short

ID = "C22"; LEVEL = "exploration"
RULE = "distinct = distinct (version, level, unsupported record code) and (version, kind of unsupported structure, formatting) insertions after which the whole observation was compared with the one made without them"
ASSUMPTIONS = ["a record is unsupported when the library documents no observation that comes from it; every other code is inserted",
               "records are not inserted inside a group the file format keeps together (FORMULA+STRING, a record and its CONTINUEs, an object and its text)",
               "payloads are up to 8224 bytes, sometimes 60000; contents are random or, for drawings, charts, conditional formats and custom views, well formed",
               "in a workbook with defined names the extra sheets come last (elsewhere they would renumber the sheets the names refer to)"]
REQUIRED = {"codes_inserted": 200000, "sweep_books": 200, "noise_books": 100, "charts": 100, "nested_charts": 20, "cf": 200, "cf_blocks": 60,
            "views": 50, "view_pagebreaks": 50, "objects": 200, "textboxes": 50, "antique_objects": 30, "notes_with_textboxes_after": 8, "extra_sheets": 60, "substructure_in_chart": 200, "names_books": 20, "sample_books": 100}
CASE_TIMEOUT = 120

HANDLED = {0x203,0xFD,0x204,0xD6,0x27E,0xBD,0x208,0x06,0x206,0x406,0x205,0x7D,0x55,0x99,0xAB,0x201,0xBE,0x200,0x00,0x1B8,0x800,0x0A,0x5D,0xEC,
           0x1B6,0x1C,0x872,0x809,0x409,0x209,0x009,0x8C,0x15F,0x221,0x4BC,0x1B0,0x1B1,0x225,0xE5,0x23E,0xA0,0x41,0x1B,0x1A,0x41E,0x1E,0x31,0x231,
           0x293,0x92,0x56,0x443,0x243,0x43,0x22,0x42,0x2F,0x5C,0x44,0x03,0x02,0x04,0x05,0x01,0x45,0x08,0x24,0x20,0x3E,0xFC,0xE0,0x23,0x17,0x8E,
           0x8F,0x1AE,0x18,0x218,0x85,0x3C,0x207,0x07,0x236,0x37,0x21,0x36,0x1AA,0x1AB,0x25}
FREE = [c for c in range(65536) if c not in HANDLED]
KNOWN = [0x1D, 0x26, 0x27, 0x28, 0x29, 0x14, 0x15, 0x83, 0x84, 0xA1, 0x9D, 0x9E, 0x9B, 0x33, 0x4D, 0x50, 0x51, 0x5E, 0x60, 0x61, 0x7E, 0x80, 0x81, 0x82, 0x86,
         0x87, 0x88, 0x89, 0x8D, 0x90, 0x91, 0x94, 0x95, 0x96, 0x97, 0x9A, 0x9C, 0xA9, 0xAE, 0xAF, 0xB0, 0xB1, 0xB2, 0xB4, 0xB5, 0xB6, 0xB7, 0xB9, 0xC1, 0xC5,
         0xC6, 0xC8, 0xCD, 0xD0, 0xD2, 0xD3, 0xD5, 0xD7, 0xDA, 0xDC, 0xDE, 0xDF, 0xE1, 0xE2, 0xE3, 0xEB, 0xED, 0xEF, 0xF0, 0xF6, 0xFF, 0x100, 0x13D, 0x160, 0x161,
         0x1A9, 0x1AF, 0x1B2, 0x1B3, 0x1B5, 0x1B7, 0x1BA, 0x1BB, 0x1BC, 0x1BE, 0x1C0, 0x1C1, 0x802, 0x803, 0x804, 0x810, 0x850, 0x862, 0x863, 0x867, 0x868, 0x86A,
         0x86B, 0x871, 0x876, 0x879, 0x87B, 0x87C, 0x87D, 0x87E, 0x88B, 0x88E, 0x892, 0x896, 0x89A, 0x89C, 0x8A3, 0x8A4, 0x1001, 0x1002, 0x1033, 0x1034, 0xFFFF, 0x0F, 0x11,
         0x0C, 0x0D, 0x0E, 0x10, 0x12, 0x13, 0x19, 0x1F, 0x2A, 0x2B, 0x3D, 0x40, 0x54, 0x57, 0x58, 0x59, 0x5A, 0x5B, 0x5F, 0x106, 0x223, 0x22A, 0x259, 0x34]
KNOWN = [c for c in KNOWN if c not in HANDLED]

def plan(tier, seed):
    s = []
    for rep in range(1 if tier == "quick" else 6):
        for bv in range(8):
            for ch in range(64): s.append({"seed": seed, "kind": "sweep", "i": bv, "chunk": ch, "rep": rep})
    return s + specs_for(tier, seed, noise=(720, 10000), struct=(1440, 16000), sheets=(600, 6000), sample=(160, 3000))

def payload(rng):
    k = rng.random()
    n = 0 if k < .15 else rng.randint(1, 24) if k < .7 else rng.randint(25, 400) if k < .95 else rng.randint(401, 8224) if k < .998 else 60000
    return rng.choice([rng.randbytes, lambda n: b"\0" * n, lambda n: b"\xff" * n, lambda n: b"\x09\x08" * (n // 2)])(n)

def junk(rng, mon, codes=None):
    c = rng.choice(codes) if codes else rng.choice(FREE) if rng.random() < .5 else rng.choice(KNOWN)
    mon.count("codes_inserted")
    if rng.random() < .05: return rec(0, b"")
    d = rec(c, payload(rng))
    if rng.random() < .2: d += b"".join(rec(0x3C, payload(rng)) for _ in range(rng.randint(1, 3)))
    return d

def noise(mon, p):
    def f(rng):
        return b"".join(junk(rng, mon) for _ in range(rng.randint(1, 3))) if rng.random() < p else b""
    return f

# ---------------------------------------------------------------- structures
def chart(rng, bv, mon, depth=0):
    """a whole chart substream, holding codes that mean something in a worksheet"""
    mon.count("charts")
    if depth: mon.count("nested_charts")
    o = [bof(bv, 0x20)]
    for _ in range(rng.randint(0, 14)):
        k = rng.random()
        if k < .12 and depth < 4: o.append(chart(rng, bv, mon, depth + 1))
        elif k < .3: o.append(junk(rng, mon))
        else:
            mon.count("substructure_in_chart")
            c = rng.choice([0x203, 0x204, 0x201, 0x205, 0x208, 0x200, 0x23E, 0x1A, 0x1B, 0xA0, 0x41, 0x5D, 0xEC, 0x1B6, 0x3C, 0x1C, 0xE5, 0x55, 0x225, 0x31, 0xE0, 0x1B8, 0x06, 0x207,
                            0xFD, 0x7D, 0x15F, 0x1001, 0x1033, 0x1034, 0x27E, 0xBD, 0xFC, 0x18, 0x22, 0x42, 0x92])
            o.append(rec(c, payload(rng)[:8224]) if rng.random() < .5 else rec(0x203, pack("<HHHd", rng.randint(0, 9), rng.randint(0, 9), 0, 7777.0)))
    return b"".join(o) + EOF_REC

FT = {0x04: 8, 0x06: 2, 0x07: 2, 0x08: 2, 0x09: 12, 0x0A: 12, 0x0B: 6, 0x0C: 20, 0x0E: 8, 0x0F: 6, 0x10: 8, 0x11: 4, 0x12: 8, 0x14: 10}
def obj8(rng, mon, typ, oid):
    """OBJ record of any type (BIFF8)"""
    mon.count("objects")
    flags = rng.choice([0x6011, 0x0011, 0x2101, 0x4011, rng.getrandbits(16) & ~0x0100])
    d = pack("<HHHHH12x", 0x15, 18, typ, oid, flags)
    for _ in range(rng.randint(0, 4)):
        ft = rng.choice(list(FT)); d += pack("<HH", ft, FT[ft]) + rng.randbytes(FT[ft])
    if typ in (0x12, 0x14) and rng.random() < .6:
        if rng.random() < .5:           # drop-down of an autofilter: the list data has no length of its own
            d = d[:8] + pack("<H", flags | 0x100) + d[10:]
            d += pack("<HH", 0x13, rng.choice([0x1FEE, 0, 0, 4, 16])) + rng.choice([b"", b"\0\0"]) + rng.randbytes(16)
            return rec(0x5D, d)
        n = rng.choice([0, 16, 20]); d += pack("<HH", 0x13, n) + rng.randbytes(n)
    d += rng.choice([pack("<HH", 0, 0), pack("<HH", 0, 0) + b"\0" * rng.randint(1, 4), b""])
    return rec(0x5D, d)

def textbox(rng, mon, text, oid):
    mon.count("textboxes")
    n = u16len(text); units = text.encode("utf-16le")
    runs = [(0, rng.randint(0, 9)), (n, 0)] if n else []
    t = rec(0x1B6, pack("<HHHHHHHHH", 0x212, rng.randint(0, 4), 0, 0, 0, n, 8 * len(runs), 0, 0) + (rng.randbytes(rng.randint(0, 20)) if rng.random() < .3 else b""))
    i = 0
    while i < n:
        k = min(n - i, rng.choice([4000, rng.randint(1, 50)]))
        if 0xD8 <= units[2 * (i + k) - 1] <= 0xDB and i + k < n: k += 1
        s = units[2 * i:2 * (i + k)]
        t += rec(0x3C, (b"\1" + s) if any(s[1::2]) or rng.random() < .3 else b"\0" + s[::2]); i += k
    if runs: t += rec(0x3C, b"".join(pack("<HHI", a, b, 0) for a, b in runs))
    return t

class Ids(object):
    def __init__(self): self.n = 0x8000
    def __call__(self): self.n += 1; return self.n

def drawing(rng, bv, mon, ids, text):
    if bv < 80:
        d = rec(0x5D, pack("<IHHHHHH", rng.randint(1, 9), rng.choice([0, 1, 2, 5, 6, 8]), rng.randint(1, 99), 0x11, 0, 0, 0) + rng.randbytes(rng.randint(10, 60)))
        mon.count("objects")
        if rng.random() < .3: d += chart(rng, bv, mon)
        return d
    o = []
    for _ in range(rng.randint(1, 4)):
        o.append(rec(0xEC, b"\x0f\0\x02\xf0" + pack("<I", rng.randint(0, 500)) + rng.randbytes(rng.randint(0, 200))))
        if rng.random() < .2: o.append(rec(0x3C, rng.randbytes(rng.randint(1, 300))))
        if rng.random() < .25:          # an object in a form the library does not read, with its text
            mon.count("antique_objects")
            o.append(rec(0x5D, rng.choice([pack("<HH", rng.choice([0x04, 0x06, 0x0D, 0x16, 0]), rng.choice([0, 2, 22, 18])) + rng.randbytes(rng.randint(0, 30)),
                                           pack("<HH", 0x15, rng.choice([16, 20, 0])) + pack("<HHH", 0x19, rng.randint(1, 9), 0x4011) + rng.randbytes(14),
                                           pack("<IHHHHHH", rng.randint(1, 9), 6, rng.randint(1, 99), 0x11, 0, 0, 0) + rng.randbytes(20)])))
            if rng.random() < .8: o.append(rec(0xEC, b"\0\0\x0d\xf0\0\0\0\0") + textbox(rng, mon, text(rng.choice([0, 5, 40])), ids()))
            continue
        typ = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0x0B, 0x0C, 0x0D, 0x0E, 0x0F, 0x10, 0x11, 0x12, 0x13, 0x14, 0x1E])
        o.append(obj8(rng, mon, typ, ids()))
        if typ == 5 and rng.random() < .9: o.append(chart(rng, bv, mon))
        elif typ in (2, 3, 6, 7, 0x0B, 0x0C, 0x0E, 0x1E) or rng.random() < .3:
            o.append(rec(0xEC, b"\0\0\x0d\xf0\0\0\0\0"))
            o.append(textbox(rng, mon, text(rng.choice([0, 5, 40, 3000])), ids()))
    return b"".join(o)

def condfmt(rng, mon, env, b):
    """CONDFMT + CFs with every combination of formatting blocks"""
    rr = [(lambda a, c: (a, a + rng.randint(0, 5), c, min(255, c + rng.randint(0, 3))))(rng.randint(0, 60), rng.randint(0, 250)) for _ in range(rng.randint(1, 4))]
    box = (min(x[0] for x in rr), max(x[1] for x in rr), min(x[2] for x in rr), max(x[3] for x in rr))
    n = rng.randint(1, 3)
    o = rec(0x1B0, pack("<6H", n, rng.getrandbits(16), *box) + pack("<H", len(rr)) + b"".join(pack("<4H", *x) for x in rr))
    for _ in range(n):
        mon.count("cf")
        fl = 0; d = b""
        blocks = [bit for bit in (25, 26, 27, 28, 29, 30) if rng.random() < .4]
        user = 0
        for bit in blocks:
            fl |= 1 << bit
            if bit == 25:
                if rng.random() < .3:
                    user = 1; s = ustr("0.0\"x\"" + b.text(5), 2); d += pack("<H", len(s) + 2) + s
                else: d += bytes([0, rng.randint(0, 60)])
            else: d += rng.randbytes({26: 118, 27: 8, 28: 8, 29: 4, 30: 2}[bit])
        mon.seen("cf-blocks", (tuple(blocks), user)); mon.count("cf_blocks")
        fl |= rng.getrandbits(22)
        def fm(opt):
            if opt and rng.random() < .4: return b""
            k = rng.random()
            if k < .25: return b"\x1e" + pack("<H", rng.randint(0, 9))
            if k < .5: return b"\x4c" + pack("<HH", rng.getrandbits(16), 0xC000 | rng.getrandbits(8)) + b"\x1e\5\0\x0d"
            if k < .75:
                g = formula.Gen(rng, env, (), odd=.1, rel=.3)
                t = g.any(2) if rng.random() < .5 else g.refexpr(2)
                return formula.encode(t, env, rng)
            return rng.choice([b"\x44\0\0\0\xC0\x44\1\0\0\xC0\x11", b"\x25\0\0\5\0\0\xC0\1\xC0\x25\0\0\5\0\0\xC0\1\xC0\x0F\x42\1\4\0",
                               b"\x24\0\0\0\0\x24\1\0\1\0\x10\x42\1\4\0", b"\x17\1\0A", b"\x17\1\1A\0"])
        f1, f2 = fm(0), fm(1)
        o += rec(0x1B1, pack("<BBHHIH", rng.choice([1, 2]), rng.randint(0, 8), len(f1), len(f2), fl, user | rng.choice([0, 0x8002])) + d + f1 + f2)
    return o

def customview(rng, bv, mon):
    mon.count("views")
    o = [rec(0x1AA, rng.randbytes(16) + pack("<III", rng.randint(1, 9), 100, 0x40) + rng.randbytes(32))]
    if rng.random() < .7: o.append(rec(0x1D, rng.randbytes(15)))
    for c in (0x1B, 0x1A):
        if rng.random() < .7:
            k = rng.randint(0, 4); mon.count("view_pagebreaks")
            o.append(rec(c, pack("<H", k) + (rng.randbytes(6 * k) if bv >= 80 else rng.randbytes(2 * k))))
    for c, n in ((0x14, 5), (0x15, 0), (0x83, 2), (0x84, 2), (0x26, 8), (0x27, 8), (0x28, 8), (0x29, 8), (0xA1, 34), (0x33, 2), (0x89C, 40), (0x9D, 2)):
        if rng.random() < .4: o.append(rec(c, rng.randbytes(n)))
    return b"".join(o) + rec(0x1AB, b"\1\0")

# ---------------------------------------------------------------- oracle
MODES = [dict(), dict(formatting_info=True), dict(ragged_rows=True), dict(formatting_info=True, ragged_rows=True), dict(on_demand=True), dict(formatting_info=True, verbosity=2),
         dict(verbosity=1), dict(formatting_info=True, verbosity=7)]

def observed(data, **kw):
    bk = open_bytes(data, **kw)
    return O.observe(bk), bk

def compare(mon, rng, b, plain, noisy, what, key, modes=None, base=None):
    for kw in modes or ([dict(formatting_info=True)] + rng.sample(MODES, 2)):
        w = "BIFF%d %s, %r" % (b.bv, what, kw)
        want, bk0 = observed(plain, **{k: v for k, v in kw.items() if k != "verbosity"})
        r, got = outcome(observed, noisy, **kw)
        if r == "exc": raise Violation(key + ":" + type(got).__name__, "%s: opening and reading raises %s: %s (reads without them)" % (w, type(got).__name__, short(str(got), 200)))
        got, bk = got
        if not same(got, want):
            d = O.diff(got, want)[:4]
            raise Violation(key + ":" + (d[0][0].split("/")[-1] or "?"), "%s: %s" % (w, "; ".join("%s is %s, without them %s" % x for x in d)))
        mon.count("comparisons", O.size(want))
        if b.worksheets() and rng.random() < .3:
            judge_book(mon, b, bk, bool(kw.get("formatting_info")), bool(kw.get("ragged_rows")), w)
        mon.seen("mode", (b.bv, key, tuple(sorted(kw))))

def both(b, rng, seed, change):
    """(plain, changed) streams with the same layout choices"""
    p = b.stream(random.Random(seed))
    change()
    return wrap(p, b.bv), wrap(b.stream(random.Random(seed)), b.bv)

def safe(sh, i):
    """may something be inserted before item i? (not between an object and its text)"""
    return not (i and sh.items[i - 1][:2] == b"\xec\0")

def run(spec, mon):
    rng = rng_for(spec); k = spec["kind"]
    bv = ALL_BV[spec["i"] % 8]
    if k == "struct" and rng.random() < .5: bv = 80
    seed = rng.getrandbits(40)
    if k == "sample":
        like, data, st = SM.pick(rng)
        p = rng.choice([.02, .2, 1])
        noisy = SM.repack(rng, SM.insert(st, lambda: junk(rng, mon) if rng.random() < p else b""), like.bv)
        mon.count("sample_books")
        compare(mon, rng, like, data, noisy, "sample %s with unknown and unsupported records between the others" % like.name, "sample")
        return
    if k == "sweep":
        b = random_book(rng, bv, density=.5, small=True, nsheets=1)
        codes = [c for c in range(spec["chunk"] * 1024, spec["chunk"] * 1024 + 1024) if c not in HANDLED]
        rng.shuffle(codes)
        sh = b.sheets[0]
        plain = wrap(b.stream(random.Random(seed)), bv)
        n_items = max(1, len(sh.items))
        glob = 6
        # the globals are assembled twice (offsets): refill the source each time
        def refill(key, n):
            pays = [(c, payload(rng)[:300]) for c in codes]
            chunks = -(-len(pays) // n)
            pos = [0]; last = [None]
            def f(r):
                if last[0] is not r: last[0] = r; pos[0] = 0
                t = pays[pos[0]:pos[0] + chunks]; pos[0] += chunks
                return b"".join(rec(*x) for x in t)
            return f
        b.noise, sh.noise = refill("b", glob), refill("s", min(8, n_items + 1))
        noisy = wrap(b.stream(random.Random(seed)), bv)
        mon.count("codes_inserted", 2 * len(codes)); mon.count("sweep_books")
        for c in codes: mon.seen("code", (bv, c))
        try:
            compare(mon, rng, b, plain, noisy, "with one record of each unsupported code 0x%04X-0x%04X in globals and sheet" % (spec["chunk"] * 1024, spec["chunk"] * 1024 + 1023), "sweep",
                    modes=[dict(formatting_info=True), dict()])
        except Violation as v:
            for lev, o, other in (("workbook globals", b, sh), ("sheet", sh, b)):
                other.noise = None
                for c in codes:
                    d = rec(c, payload(rng)[:300])
                    o.noise = lambda r: d
                    compare(mon, rng, b, plain, wrap(b.stream(random.Random(seed)), bv), "with records 0x%04X (%d bytes) before each record of the %s" % (c, len(d) - 4, lev), "sweep:0x%X" % c,
                            modes=[dict(formatting_info=True), dict()])
            raise v
        return
    names = k != "sheets" and rng.random() < .5 or rng.random() < .3
    if k == "sheets" and bv < 50: bv = rng.choice([50, 70, 80, 80])
    b = random_book(rng, bv, names=names and k != "sheets", kinds=True, small=rng.random() < .9, density=rng.choice([.3, 1]))
    if b.names_exp is not None: mon.count("names_books")
    b.shuffle_substreams = rng.random() < .5
    b.gaps = False
    if k == "noise":
        def change():
            b.noise = noise(mon, rng.choice([.2, 1]))
            for sh in b.sheets: sh.noise = noise(mon, rng.choice([.2, 1]))
        plain, noisy = both(b, rng, seed, change)
        mon.count("noise_books")
        compare(mon, rng, b, plain, noisy, "with unknown and unsupported records between the others", "noise")
        return
    if k == "struct":
        ids = Ids()
        env = formula.Env(80, [s.kind for s in b.sheets])
        text = lambda n: b.text(n) if n else ""
        done = []
        if bv >= 80 and rng.random() < .6:     # comments whose NOTE records come at the end, after other objects
            from xlmon.annot import Annot
            for sh in b.worksheets():
                an = getattr(sh, "annot", None) or Annot(sh); an.objid = 2000; tail = []
                for j in range(rng.randint(1, 5)): tail.append(an.note(60 + j, rng.randint(0, 255), b.text(rng.choice([1, 9, 60])), b.text(4), objid=None))
                sh.items += tail; mon.count("notes_with_textboxes_after")
        def change():
            for sh in b.worksheets():
                items = []
                for i in range(len(sh.items) + 1):
                    while rng.random() < (.25 if len(sh.items) < 40 else .06) and safe(sh, i):
                        q = rng.random()
                        if q < .3: done.append("drawing"); items.append(drawing(rng, bv, mon, ids, text))
                        elif q < .5: done.append("chart"); items.append(chart(rng, bv, mon))
                        elif q < .75 and bv >= 80: done.append("condfmt"); items.append(condfmt(rng, mon, env, b))
                        elif q < .95 and bv >= 80: done.append("view"); items.append(customview(rng, bv, mon))
                        else: items.append(junk(rng, mon))
                    if i < len(sh.items): items.append(sh.items[i])
                sh.items = items
        plain, noisy = both(b, rng, seed, change)
        for x in set(done): mon.seen("struct", (bv, x))
        if done: mon.sample("BIFF%d: %s" % (bv, " ".join(done[:8])))
        compare(mon, rng, b, plain, noisy, "with drawings, charts, conditional formats or custom views", "struct")
        return
    # extra sheets of unsupported kinds
    if names: formula.random_names(b, rng, odd=0)
    plain = wrap(b.stream(random.Random(seed)), bv)
    n = rng.randint(1, 5)
    for _ in range(n):
        kind = rng.choice([1, 2, 6, 1, 2, rng.choice([3, 4, 5, 7, 16, 128, 255])])
        taken = set(s.name.lower() for s in b.sheets)
        nm = "Extra%d" % rng.randint(0, 10 ** 6)
        if nm.lower() in taken: continue
        sh = b.sheet(nm, kind, rng.choice([0, 0, 1, 2])); mon.count("extra_sheets")
        if kind == 1: random_sheet(b, sh, rng, .5, annotations=False)
        else: sh.items += [chart(rng, bv, mon)[len(bof(bv, 0x20)):-len(EOF_REC)]] + [junk(rng, mon) for _ in range(rng.randint(0, 5))]
        if b.names_exp is None and rng.random() < .8:
            b.sheets.insert(rng.randint(0, len(b.sheets) - 1), b.sheets.pop())
    mon.seen("kinds", tuple(s.kind for s in b.sheets))
    other = wrap(b.stream(random.Random(seed)), bv)
    compare(mon, rng, b, plain, other, "with chart, macro and module sheets added", "sheets")
    for kw in (dict(), dict(on_demand=True)):
        bk = open_bytes(other, **kw)
        want = [s.name for s in b.worksheets()]
        mon.equal(bk.sheet_names(), want, "sheet-list", "names of the worksheets of a workbook with sheets of kinds %s" % [s.kind for s in b.sheets])
        mon.equal((bk.nsheets, [s.name for s in bk.sheets()]), (len(want), want), "sheet-list", "sheets() of a workbook with sheets of kinds %s" % [s.kind for s in b.sheets])
        for s in b.sheets:
            if s.kind:
                r, v = outcome(bk.sheet_by_name, s.name)
                if r == "ok" and s.name not in want: raise Violation("sheet-list", "sheet_by_name(%r) finds a sheet of kind %d" % (s.name, s.kind))
                mon.count("assertions")
