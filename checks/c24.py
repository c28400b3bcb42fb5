"""C24 - workbook inventory: version, workbook settings, and the worksheet list."""
from xlmon.util import *
from xlmon.randbook import random_book
from xlmon.judge import judge_sheet
from xlmon.runner import Violation, same, short
import xlrd

ID = "C24"; LEVEL = "exploration"
RULE = "distinct = distinct (reported version, beginning-of-file form, sheet-kind sequence, directory/physical order) inventories judged"
ASSUMPTIONS = ["worksheet names within a workbook are unique, as Excel enforces",
               "below BIFF8 the code-page record precedes the sheet directory",
               "the user name is reported without its trailing padding",
               "BIFF2: a file with no cell-format records is reported as 20, otherwise 21; 0x0809 records with version 5 are BIFF5 when dated before 1994 or carrying one of the three known BIFF5 build numbers, else BIFF7"]
REQUIRED = {"books": 800, "sheets": 6000, "lookups": 30000, "physically_permuted": 150, "nonworksheets": 500, "refused": 250, "bof_forms": 700, "xlw_books": 60, "no_worksheets": 10, "record_orders": 300}
CASE_TIMEOUT = 120

VBS = [(0x809, 0x600), (0x809, 0x500), (0x409, 0x400), (0x209, 0x300), (0x009, 2)]
DODGY = {0x0000: 21, 0x0007: 21, 0x0200: 21, 0x0300: 30, 0x0400: 40}

def plan(tier, seed):
    return specs_for(tier, seed, inv=(20000, 200000), bof=(20000, 150000), xlw=(3600, 30000), refuse=(6000, 40000))

def bof_record(rng, bv, kind):
    """one of the beginning-of-file forms that mean version bv -> (record, form label)"""
    build, year = rng.choice([0, 0x1234, 2412, 3218, 3321, 6319, 0xFFFF, rng.randint(0, 65535)]), rng.choice([0, 1993, 1994, 1995, 1996, 1997, 2003, 65535])
    B5 = (2412, 3218, 3321)
    if bv >= 50:
        if bv == 50 and year >= 1994 and build not in B5:
            if rng.random() < .5: build = rng.choice(B5)
            else: year = rng.choice([0, 1, 1993])
        if bv == 70:
            year = year if year >= 1994 else rng.choice([1994, 1995, 65535])
            while build in B5: build = rng.choice([0, 1, 2411, 2413, 3217, 3219, 3320, 3322, 65535])
        n = rng.choice([8, 16, 20, 12] if bv >= 70 or year else [8, 16, 4, 5, 6, 7]) if bv < 80 else rng.choice([16, 16, 8, 4, 6, 20, 19])
        d = (pack("<HHHHII", 0x600 if bv == 80 else 0x500, kind, build, year, rng.getrandbits(32), 6) + b"\0" * 4)[:n]
        return rec(0x809, d), (bv, n, year < 1994, build in B5)
    if rng.random() < .35 and not (bv == 45):
        v2 = rng.choice([k for k, v in DODGY.items() if v == (21 if bv == 20 else bv)])
        n = rng.choice([4, 6, 8, 16]); op = 0x809
    elif bv == 45 and rng.random() < .3: op, v2, n = 0x809, 0x400, rng.choice([4, 8, 16])
    else:
        op = {20: 0x009, 21: 0x009, 30: 0x209, 40: 0x409, 45: 0x409}[bv]
        v2 = rng.choice([0, 2, 3, 4, 0x200, 0x300, 0x400, rng.randint(0, 65535)]); n = rng.choice([4, 6, 8])
    return rec(op, (pack("<HHHH", v2, kind, build, year) + b"\0" * 8)[:n]), (bv, op, n, v2 if op == 0x809 else -1)

def nm_text(rng, b, used):
    while 1:
        n = rng.choice([1, 2, 31, 31, rng.randint(1, 31), rng.randint(1, 31), 30, 255 if rng.random() < .1 else 5])
        t = rand_text(rng, None if b.bv >= 80 else b.enc, n, astral=b.bv >= 80).replace("\0", "") or "S%d" % rng.randint(0, 99999)
        if used and rng.random() < .25:      # nearly an existing name
            o = rng.choice(sorted(used)); t = rng.choice([o + " ", " " + o, o[:-1] or "x", o + "1", o.swapcase(), o[::-1]])
        if b.bv < 80: t = "".join(c for c in t if can(c, b.enc))
        while (u16len(t) if b.bv >= 80 else len(t.encode(b.enc))) > 255: t = t[:-1]
        if t and t not in used: used.add(t); return t

def user_text(rng, b):
    k = rng.random()
    if k < .15: return ""
    t = rand_text(rng, None if b.bv >= 80 else b.enc, rng.choice([1, 5, 20, 31, 54]), astral=b.bv >= 80).replace("\0", "")
    if k < .4: t = "  " + t
    if k > .8: t = t + "   "
    while (u16len(t) if b.bv >= 80 else len(t.encode(b.enc))) > (109 if b.bv >= 80 else 255): t = t[:-1]
    return t

def fill(rng, sh, j):
    """cells that identify the sheet"""
    x = bytes(3) if sh.b.bv == 20 else 0
    sh.number(j % 5, j % 7, j + .5, x)
    sh.label(j % 5 + 1, 0, "sheet %d" % j, x)
    if rng.random() < .2: sh.number(6, 2, rng.random(), x)
    if sh.b.country and sh.b.bv < 80 and rng.random() < .3: sh.first.append(rec(0x8C, pack("<HH", *sh.b.country)))

def make(rng, bv, n):
    cp = rng.choice([None, 1252, 1251, 932, 1253, 1250, 437, 10000]) if bv < 80 else rng.choice([1200, 1200, None])
    b = BookB(bv, codepage=cp)
    if rng.random() < .8: b.user = user_text(rng, b)
    if rng.random() < .7: b.datemode = rng.randint(0, 1)
    if rng.random() < .6: b.country = (rng.choice([1, 61, 1000, 65535, rng.randint(0, 65535)]), rng.choice([0, 1, 44, 65535, rng.randint(0, 65535)]))
    if bv < 50: b.add_format(0, "General")
    if bv != 20: b.add_xf(0)
    used = set()
    for j in range(n):
        kind = 0 if bv < 50 or rng.random() < .7 else rng.choice([1, 2, 6])
        sh = b.sheet(nm_text(rng, b, used), kind, rng.choice([0, 0, 1, 2]) if bv >= 50 else 0)
        fill(rng, sh, j)
    return b

def stream5(rng, mon, b):
    """BIFF5+ workbook with its global records in a random legal order; -> stream, physical order"""
    bv = b.bv
    cp = [rec(0x42, pack("<H", b.codepage))] if b.codepage is not None else []
    free = []
    if b.datemode is not None: free.append(rec(0x22, pack("<H", b.datemode)))
    if b.country: free.append(rec(0x8C, pack("<HH", *b.country)))
    if b.user is not None:
        t = ustr(b.user, 2, rng.random() < .2) if bv >= 80 else bstr(b.user, b.enc, 1)
        w = rec(0x5C, t + b" " * max(0, (112 if bv >= 80 else 32) - len(t)))
        if rng.random() < .3: cp = [w] + cp        # before the code page
        else: free.append(w)
    fmt = b.fmt_records()
    seq = [("r", x) for x in free] + [("f", 0)]
    for j in range(len(b.sheets)): seq.append(("s", j))
    rng.shuffle(seq)
    js = iter(range(len(b.sheets)))
    seq = [(k, next(js) if k == "s" else v) for k, v in seq]      # directory order is b.sheets order
    mon.count("record_orders")
    seeds = rng.getrandbits(30)
    def assemble(offs):
        r2 = random.Random(seeds)
        o = [b.bofrec] + cp
        for k, v in seq:
            o.append(noise2(r2))
            if k == "r": o.append(v)
            elif k == "f": o.extend(fmt)
            else:
                sh = b.sheets[v]
                nm = ustr(sh.name, 1, r2.random() < .2) if bv >= 80 else bstr(sh.name, b.enc, 1)
                o.append(rec(0x85, pack("<iBB", offs[v], sh.visibility, sh.kind) + nm))
        return b"".join(o) + EOF_REC
    def noise2(r2):
        return rec(r2.choice([0x3D, 0x40, 0x8D, 0x9C, 0xE1, 0xC1, 0x1AF, 0x160]), r2.randbytes(r2.choice([0, 2, 4, 18]))) if r2.random() < .2 else b""
    g = assemble([0] * len(b.sheets))
    order = list(range(len(b.sheets)))
    if rng.random() < .6: rng.shuffle(order)
    pos = len(g); offs = [0] * len(order); out = []
    for j in order:
        sh = b.sheets[j]
        if rng.random() < .2: z = rng.randbytes(rng.choice([1, 3, 4, 20])); out.append(z); pos += len(z)
        offs[j] = pos
        k = {0: 0x10, 1: 0x40, 2: 0x20, 6: 6}[sh.kind]
        if rng.random() < .4: bb = bof_record(rng, rng.choice([50, 70, 80]), k)[0]   # a sheet's own version is immaterial
        else: bb = bof(bv, k)
        z = bb + sh.body(rng) + EOF_REC; out.append(z); pos += len(z)
    return assemble(offs) + b"".join(out), order

def build(rng, mon, bv, n):
    b = make(rng, bv, n)
    b.bofrec, form = bof_record(rng, bv, 5 if bv >= 50 else 0x100 if bv == 45 else 0x10)
    mon.count("bof_forms"); mon.seen("bof", form)
    order = list(range(n))
    if bv >= 50: s, order = stream5(rng, mon, b)
    else:
        b.user_first = rng.random() < .3
        z = b.stream(rng); ln = struct.unpack("<H", z[2:4])[0]
        s = b.bofrec + z[4 + ln:]
    return b, s, order

def judge(rng, mon, b, s, what):
    bv = b.bv; ws = b.worksheets()
    fmt = rng.random() < .4; od = rng.random() < .5
    data = wrap(s, bv) if rng.random() < .7 else s
    bk = open_bytes(data, formatting_info=fmt, on_demand=od)
    mon.count("books")
    names = [x.name for x in ws] if bv >= 45 else ["Sheet 1"]
    cp = b.codepage if b.codepage is not None or bv < 80 else 1200
    for k, g, e in (("biff_version", bk.biff_version, bv), ("nsheets", bk.nsheets, len(ws)), ("sheet_names", bk.sheet_names(), names),
                    ("datemode", bk.datemode, b.datemode or 0), ("countries", tuple(bk.countries), b.country or (0, 0)),
                    ("user_name", bk.user_name, (b.user or "").rstrip()), ("codepage", bk.codepage, cp)):
        mon.equal(g, e, "book:" + k, "%s: %s" % (what, k))
    l = bk.sheet_names(); l.reverse(); l.append("x")          # the caller's list is the caller's
    mon.equal(bk.sheet_names(), names, "book:sheet_names", what + ": names after changing the returned list")
    if not ws: mon.count("no_worksheets")
    mon.count("nonworksheets", len(b.sheets) - len(ws))
    n = len(ws)
    idx = list(range(n)); rng.shuffle(idx)
    got = {}
    for j in idx:
        how = rng.randrange(6)
        s_ = [lambda: bk.sheet_by_index(j), lambda: bk.sheet_by_name(names[j]), lambda: bk[j], lambda: bk[names[j]], lambda: bk.sheet_by_index(j - n), lambda: bk[j - n]][how]()
        mon.count("lookups")
        w = "%s: sheet %d of %d obtained by %s" % (what, j, n, ["index", "name", "[index]", "[name]", "negative index", "[negative index]"][how])
        sh = ws[j]
        mon.equal((s_.name, s_.number, s_.visibility), (names[j], j, sh.visibility), "sheet-identity", w + ": (name, number, visibility)")
        if s_.book is not bk: raise Violation("sheet-book", w + ": .book is not the workbook")
        name = sh.name; sh.name = names[j]
        try: judge_sheet(mon, b, sh, s_, j, fmt, False, w, annotations=False)
        finally: sh.name = name
        got[j] = s_; mon.count("sheets")
    for j in range(n):
        for k, x in (("index", bk.sheet_by_index(j)), ("name", bk.sheet_by_name(names[j])), ("[index]", bk[j]), ("[name]", bk[names[j]]), ("-index", bk.sheet_by_index(j - n)), ("[-index]", bk[j - n])):
            if x is not got[j]: raise Violation("lookup", "%s: by %s of %d gives sheet %r number %r, not sheet %r" % (what, k, j, x.name, x.number, names[j]))
            mon.count("lookups")
        if not bk.sheet_loaded(j) or not bk.sheet_loaded(names[j]): raise Violation("lookup", "%s: sheet %d was obtained but is not reported as loaded" % (what, j))
    for k, lst in (("sheets()", bk.sheets()), ("iteration", list(bk)), ("indexing by position", [bk[j] for j in range(n)])):
        if [id(x) for x in lst] != [id(got[j]) for j in range(n)]:
            raise Violation("sheet-list", "%s: %s gives %s, expected %s" % (what, k, short([x.name for x in lst]), short(names)))
        mon.count("lookups", n)
    l = bk.sheets(); l.reverse(); l.append(None)
    mon.equal([x.number for x in bk.sheets()], list(range(n)), "sheet-list", what + ": sheets() after changing the returned list")
    nonws = [x.name for x in b.sheets if x.kind]
    probes = nonws + ["", "no such sheet", "Sheet 1 "] + [x.swapcase() for x in names] + [x + " " for x in names] + [x[:-1] for x in names]
    for x in rng.sample(probes, min(len(probes), 12)):
        if x in names: continue
        for k, f in (("sheet_by_name", bk.sheet_by_name), ("[]", bk.__getitem__), ("sheet_loaded", bk.sheet_loaded), ("unload_sheet", bk.unload_sheet)):
            try: r = f(x)
            except xlrd.XLRDError: mon.count("lookups"); continue
            raise Violation("missing-name", "%s: %s(%r) returned %r; worksheets are %s" % (what, k, x, r, short(names)))
    for x in {n, n + 1, n + 1000, -n - 1, -n - 2, 10 ** 12, -10 ** 12}:
        for k, f in (("sheet_by_index", bk.sheet_by_index), ("[]", bk.__getitem__)):
            try: r = f(x)
            except IndexError: mon.count("lookups"); continue
            raise Violation("missing-index", "%s: %s(%d) of %d sheets returned %r" % (what, k, x, n, r))
    mon.sample("%s: reported %d sheets %s, datemode %r, countries %r, user %r" % (what, n, short(names), bk.datemode, bk.countries, bk.user_name))
    mon.seen("inventory", (bv, tuple(x.kind for x in b.sheets), tuple(x.visibility for x in ws)[:6], n))

def run(spec, mon):
    rng = rng_for(spec); k = spec["kind"]; i = spec["i"]
    if k == "inv":
        bv = (80, 70, 50, 80)[i % 4]
        n = rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 20]) if rng.random() < .97 else 260
        b, s, order = build(rng, mon, bv, n)
        if rng.random() < .03:
            for sh in b.sheets: sh.kind = sh.kind or rng.choice([1, 2, 6])
            s, order = stream5(rng, mon, b)
        if order != sorted(order): mon.count("physically_permuted")
        mon.seen("order", tuple(order)[:8])
        return judge(rng, mon, b, s, "BIFF%d, %d sheets %s" % (bv, n, "".join("wmc___v"[x.kind] for x in b.sheets)[:30]))
    if k == "bof":
        bv = (20, 21, 30, 40, 45, 50, 70, 80)[i % 8]
        b, s, order = build(rng, mon, bv, 1 if bv <= 40 else 2)
        return judge(rng, mon, b, s, "BIFF%d (BOF %s)" % (bv, s[:12].hex()))
    if k == "xlw":
        n = rng.choice([1, 2, 3, 5, 9, 30])
        b, s, order = build(rng, mon, 45, n)
        mon.count("xlw_books")
        return judge(rng, mon, b, s, "BIFF4 workbook of %d sheets" % n)
    # streams whose beginning says they are not a workbook xlrd reads
    bv = (80, 70, 50, 80, 40, 30, 21)[i % 7]
    b, s, order = build(rng, mon, bv, 1)
    ln = struct.unpack("<H", s[2:4])[0]; rest = s[4 + ln:]
    how = i // 7 % 3
    if how == 0 or bv < 50 and how == 1:                 # wrong kind of stream
        kind = rng.choice([0x06, 0x20, 0x40, 0x100, 0x10, 0, 1, 0x11, 0x105, 0xFFFF] if bv >= 50 else [0x06, 0x20, 0x40, 0, 0x11, 0x110, 0xFFFF])
        z = {80: bof(80, kind), 70: bof(70, kind), 50: bof(50, kind), 40: bof(40, kind), 30: bof(30, kind), 21: bof(21, kind)}[bv]; why = "stream type 0x%x" % kind
    elif how == 1:                                       # a version that does not exist
        v2 = rng.choice([0x0100, 0x0501, 0x0601, 0x0700, 0x0800, 0x0900, 0x1000, 0x0005, 0x0006, 0xFFFF])
        z = rec(0x809, pack("<HHHHII", v2, 5, 0, 1997, 0, 0)); why = "version 0x%x" % v2
    else:
        op = rng.choice([0x808, 0x109, 0x309, 0x509, 0x609, 0x909, 0x0A, 0x85, 0x80A])
        z = rec(op, pack("<HHHHII", 0x600, 5, 0, 1997, 0, 0)); why = "first record 0x%x" % op
    what = "BIFF%d stream with %s" % (bv, why)
    data = wrap(z + rest, bv) if rng.random() < .5 else z + rest
    try: bk = open_bytes(data)
    except xlrd.XLRDError: mon.count("refused"); mon.seen("refusal", why); return
    raise Violation("accepted", "%s opened as BIFF%r with sheets %s" % (what, bk.biff_version, short(bk.sheet_names())))
