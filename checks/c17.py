"""C17 - formula cells report their stored result whatever records surround them."""
from xlmon.randbook import *
from xlmon.judge import judge_sheet
from xlmon.runner import Violation, same, short
import struct

ID = "C17"; LEVEL = "exploration"
RULE = "distinct = distinct (version, result kind, intermediate record, string length class, number of pieces and their compression switches) formula cells whose reported type and value were compared with the stored result"
ASSUMPTIONS = ["a string result is stored in the STRING record(s) that follow the formula, with at most one array, shared-formula or table record between, as the format prescribes",
               "a string whose pieces carry more units than announced, or that is not followed by its STRING, is refused (observed, not judged by value)"]
REQUIRED = {"formulas": 60000, "strings": 15000, "split_strings": 4000, "between_string": 3000, "between_other": 3000, "switches": 800, "midchar_splits": 200, "dates": 1000, "refused": 500}
CASE_TIMEOUT = 120

def plan(tier, seed):
    return specs_for(tier, seed, mix=(35000, 200000), lengths=(6000, 30000), numbers=(2500, 8000), malformed=(12000, 40000))

VERS = (20, 21, 30, 40, 45, 50, 70, 80, 80, 80)

def between(rng, bv, r, c):
    """a record that may stand between a formula and its string"""
    toks = rng.choice([b"\x1e\x01\x00", b"\x17\x01a" if bv < 80 else b"\x17\x01\0a", b"\x44\0\0\0\0", b"\x1f" + rng.randbytes(8), rng.randbytes(rng.randint(3, 60))])
    rng_ = pack("<HHBB", r, min(65535, r + rng.randint(0, 3)), c, min(255, c + rng.randint(0, 3)))
    k = rng.choice(["ARRAY", "SHRFMLA", "TABLEOP", "TABLEOP2"])
    if k == "SHRFMLA" and bv < 50: k = "ARRAY"
    if k == "TABLEOP2" and bv >= 30: k = "TABLEOP"
    if k == "ARRAY":
        if bv >= 50: d = rec(0x221, rng_ + pack("<HIH", rng.randint(0, 3), 0, len(toks)) + toks)
        elif bv >= 30: d = rec(0x221, rng_ + pack("<HH", rng.randint(0, 3), len(toks)) + toks)
        else: d = rec(0x21, rng_ + pack("<BB", rng.randint(0, 1), len(toks)) + toks)
    elif k == "SHRFMLA": d = rec(0x4BC, rng_ + pack("<BBH", 0, rng.randint(1, 9), len(toks)) + toks)
    elif k == "TABLEOP":
        if bv >= 30: d = rec(0x236, rng_ + pack("<HHHHH", rng.getrandbits(4), 0, 0, 1, 1))
        else: d = rec(0x36, rng_ + pack("<BBHH", 0, rng.randint(0, 1), 0, 1))
    else: d = rec(0x37, rng_ + pack("<BBHHHH", 0, 0, 0, 1, 2, 2))
    return k, d

def pieces8(rng, text, n):
    """split a string's code units into n pieces, each with its own compression switch"""
    u = text.encode("utf-16le"); m = len(u) // 2
    cuts = sorted(rng.randint(0, m) for _ in range(n - 1))
    cuts = [0] + cuts + [m]
    out = []; sw = 0; last = None
    for a, b in zip(cuts, cuts[1:]):
        p = u[2 * a:2 * b]
        if any(p[1::2]) or rng.random() < .35: out.append(b"\x01" + p); f = 1
        else: out.append(b"\0" + p[::2]); f = 0
        if rng.random() < .1: out[-1] = bytes([out[-1][0] | rng.choice([4, 8, 0xF0]) & 0xF0]) + out[-1][1:]
        sw += last is not None and f != last; last = f
    return out, sw

def string_recs(rng, b, text, n):
    """STRING (+ CONTINUE) records holding text in n pieces"""
    if b.bv >= 80:
        ps, sw = pieces8(rng, text, n)
        ps[0] = pack("<H", u16len(text)) + ps[0]
        rc = 0x207
        mid = sum(1 for p in ps[:-1] if len(p) >= 3 and p[2 if p is ps[0] else 0] & 1 and 0xD8 <= p[-1] <= 0xDB)
    else:
        e = text.encode(b.enc); m = len(e)
        cuts = [0] + sorted(rng.randint(0, m) for _ in range(n - 1)) + [m]
        ps = [e[x:y] for x, y in zip(cuts, cuts[1:])]
        def broken(p):
            try: p.decode(b.enc); return 0
            except UnicodeError: return 1
        mid = sum(map(broken, ps)); sw = 0
        ps[0] = (pack("<H", m) if b.bv >= 30 else bytes([m])) + ps[0]
        rc = 0x207 if b.bv >= 30 else 7
    return b"".join(rec(rc if i == 0 else 0x3C, p) for i, p in enumerate(ps)), sw, mid

def new_book(rng, bv):
    cp = None if bv >= 80 else rng.choice([1252, 932, 936, 1251, 950, None])
    b = BookB(bv, codepage=cp if bv < 80 else 1200)
    if bv < 50: b.add_format(0, "General"); b.add_format(0, "yyyy-mm-dd"); b.add_format(0, "0.00")
    if bv != 20:
        for k in ((0, 1, 2) if bv < 50 else (0, 14, 2, 22)): b.add_xf(k, rng=rng)
    b.text = lambda n=40: rand_text(rng, None if bv >= 80 else b.enc, n, astral=bv >= 80)
    return b

def long_text(rng, b, n):
    """exactly n stored units"""
    t = ""
    lim = n
    R = "abcXYZ 09" + "".join(c for c in "éЖ日本語中文€" if b.bv >= 80 or can(c, b.enc))
    size = (lambda s: u16len(s)) if b.bv >= 80 else (lambda s: len(s.encode(b.enc)))
    chunk = "".join(rng.choice(R) for _ in range(min(n, 400)))
    if b.bv >= 80 and rng.random() < .3: chunk += "\U0001f600"
    t = chunk * (n // max(1, size(chunk)))
    while size(t) < n:
        c = rng.choice(R)
        t += c if size(t + c) <= n else "q"
    return t

def xfs(rng, b):
    if b.bv == 20: return bytes([rng.choice([0, 0x40]), rng.randrange(3), 0])
    return rng.randrange(len(b.xfs))

def add_formula(rng, mon, b, sh, r, c, text=None, npieces=None, kind=None):
    bv = b.bv
    x = xfs(rng, b)
    kind = kind or rng.choice(["num", "num", "str", "str", "str", "bool", "err", "empty"])
    bt = b""; bk = None
    if rng.random() < .4: bk, bt = between(rng, bv, r, c)
    mon.count("formulas")
    if kind == "num":
        v = rng.choice([rand_double(rng), rand_double(rng), float("inf"), float("-inf"), struct.unpack("<d", pack("<Q", 0x7FF8 << 48 | rng.getrandbits(20)))[0], 40000.5])
        sh.formula_num(r, c, v, x, bt)
        key = (bv, kind, bk)
    elif kind in ("bool", "err", "empty"):
        v = {"bool": rng.randint(0, 1), "err": rng.choice([0, 7, 15, 23, 29, 36, 42]), "empty": 0}[kind]
        sh.formula_special(r, c, {"bool": 1, "err": 2, "empty": 3}[kind], v, x, bt, rng.randbytes(3))
        key = (bv, kind, v, bk)
    else:
        if text is None: text = b.text(rng.choice([1, 5, 20, 100]))
        if bv < 30:
            while len(text.encode(b.enc)) > 255: text = text[:len(text) // 2]
        n = npieces or rng.choice([1, 1, 1, 2, 3, 6])
        sr, sw, mid = string_recs(rng, b, text, n)
        sh.formula_str(r, c, text, x, bt, sr, junk=rng.randbytes(5))
        mon.count("strings"); mon.count("split_strings", n > 1); mon.count("switches", sw > 0); mon.count("midchar_splits", mid > 0)
        key = (bv, kind, bk, len(text).bit_length(), n, sw)
    if bk: mon.count("between_string" if kind == "str" else "between_other")
    mon.seen("formula", key)

def judge(rng, mon, b, what):
    fmt, rag = rng.random() < .4, rng.random() < .3
    bk = open_bytes(wrap(b.stream(rng), b.bv), formatting_info=fmt, ragged_rows=rag, on_demand=rng.random() < .3)
    for j, sh in enumerate(b.worksheets()):
        o = judge_sheet(mon, b, sh, bk.sheet_by_index(j), j, fmt, rag, "BIFF%d %s" % (b.bv, what))
        mon.count("dates", sum(t.count(DATE) for t, v, x in o["grid"]))

def run(spec, mon):
    rng = rng_for(spec); k = spec["kind"]; i = spec["i"]
    bv = VERS[i % len(VERS)]
    b = new_book(rng, bv)
    sh = b.sheet("S"); sh.dims = (10, 10)
    if k == "malformed": return malformed(rng, mon, b, sh)
    if k == "lengths":
        L = rng.choice([0, 1, 2, 3, 127, 128, 254, 255] + ([256, 257, 1000, 4111, 4112, 4113, 8223, 8224] + ([16448, 32767] if bv >= 80 else [20000, 32767]) if bv >= 30 else []))
        t = long_text(rng, b, L)
        lim = 8000 if bv >= 50 else 2000
        need = (2 * L if bv >= 80 else L) // lim + 1
        for j in range(4):
            # every piece must fit into a record
            while 1:
                n = need + rng.randint(0, 5) + (need > 1)
                sr, sw, mid = string_recs(rng, b, t, n)
                pos = 0; big = 0
                while pos < len(sr): l = sr[pos + 2] | sr[pos + 3] << 8; big = max(big, l); pos += 4 + l
                if big <= 65000: break
            bt = between(rng, bv, j, 0)[1] if rng.random() < .4 else b""
            sh.formula_str(j, 0, t, xfs(rng, b), bt, sr, junk=rng.randbytes(5))
            mon.count("formulas"); mon.count("strings"); mon.count("split_strings", n > 1); mon.count("switches", sw > 0); mon.count("midchar_splits", mid > 0)
            sh.number(j, 1, float(j), xfs(rng, b))
            mon.seen("length", (bv, L, n, sw > 0))
        return judge(rng, mon, b, "string result of %d units" % L)
    if k == "numbers":
        for r in range(60):
            for c in range(4): add_formula(rng, mon, b, sh, r, c, kind="num")
        return judge(rng, mon, b, "numeric results")
    for r in range(rng.randint(1, 12)):
        for c in range(rng.randint(1, 8)):
            z = rng.random()
            if z < .7: add_formula(rng, mon, b, sh, r, c)
            elif z < .8: sh.number(r, c, rand_double(rng), xfs(rng, b))
            elif z < .9:
                t = b.text(10)
                if bv < 30:
                    while len(t.encode(b.enc)) > 255: t = t[:len(t) // 2]
                sh.label(r, c, t, xfs(rng, b))
            else: sh.boolerr(r, c, rng.randint(0, 1), 0, xfs(rng, b))
    if rng.random() < .3: add_formula(rng, mon, b, sh, 0, 0)         # a formula stored over an earlier cell
    judge(rng, mon, b, "mixed formulas")

def malformed(rng, mon, b, sh):
    """a string result without its string must not become some other value"""
    bv = b.bv
    x = xfs(rng, b)
    sh.number(0, 0, 1.0, x)
    head = sh.formula_head(1, 1, x, b"\0" * 6 + b"\xff\xff")
    how = rng.choice(["other", "two", "eof", "short", "long", "special"])
    good = string_recs(rng, b, "hello", 1)[0]
    if how == "other": tail = rec(0x203 if bv >= 30 else 3, pack("<HHHd", 5, 5, 0, 1.0) if bv >= 30 else pack("<HH3sd", 5, 5, bytes(3), 1.0))
    elif how == "two": tail = between(rng, bv, 1, 1)[1] + between(rng, bv, 1, 1)[1] + good
    elif how == "eof": tail = b""
    elif how == "special": head = sh.formula_head(1, 1, x, bytes([rng.randint(4, 255), 0, 0, 0, 0, 0, 0xFF, 0xFF])); tail = b""
    else:
        n = 5 + (3 if how == "short" else -2)
        body = good[4:]
        body = (pack("<H", n) + body[2:]) if bv >= 30 else bytes([n]) + body[1:]
        tail = rec(0x207 if bv >= 30 else 7, body) + rec(0x203 if bv >= 30 else 3, pack("<HHHd", 5, 5, 0, 1.0) if bv >= 30 else pack("<HH3sd", 5, 5, bytes(3), 1.0))
    sh.raw(head + tail)
    r, v = outcome(lambda: open_bytes(wrap(b.stream(rng), bv)).sheet_by_index(0))
    mon.count("refused"); mon.count("comparisons"); mon.seen("malformed", (bv, how))
    if r == "ok":
        got = outcome(v.cell, 1, 1)
        raise Violation("malformed:" + how, "BIFF%d string result with %s: accepted as %r" % (bv, {"other": "no STRING record", "two": "two records before the STRING", "eof": "nothing after it", "short": "too few units", "long": "too many units", "special": "an undefined result kind"}[how], got[1]))
