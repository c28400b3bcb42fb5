"""C12 - numbers are typed as dates exactly when their format is a date format."""
from xlmon.randbook import *
from xlmon.runner import Violation, same

ID = "C12"; LEVEL = "exploration"
RULE = "distinct = distinct (version, record form, formatting_info, format text or built-in key) cells whose type and value were compared with an independent classifier"
ASSUMPTIONS = ["ordinal format 0 below BIFF5 is General, as Excel writes it (an unknown key falls back to it)",
               "a format containing both date and digit codes after the discards is a date format when date codes outnumber digit codes (the library's documented heuristic)",
               "FORMAT records precede the XF records that use them, as in every file",
               "text of a FORMAT record wins over the built-in meaning of its key"]
REQUIRED = {"cells": 30000, "dates": 5000, "numbers": 5000, "texts": 2000, "builtin": 2000, "unknown_key": 200}
CASE_TIMEOUT = 120

def plan(tier, seed):
    return specs_for(tier, seed, text=(6400, 90000), builtin=(1280, 6000), mixed=(3200, 40000), epilogue=(1280, 9000))

LIT = ['"d"', '"0"', '"yyyy 0#"', '""', '"m', '"Days:"', '"\u5e74"', '"a;b"']
ESC = ["\\d", "\\0", "\\\\", '\\"', "\\m", "\\[", "\\ "]
PAD = ["_d", "_0", "_)", "_(", "* ", "*0", "*d", "*-", '_"']
BRK = ["[Red]", "[Blue]", "[h]", "[mm]", "[ss]", "[$-409]", "[$€-2]", "[<100]", "[>=1000]", "[Color 3]", "[$yen]", "[White]", "[DBNum1]", "[black", "]"]
DAT = ["yyyy", "yy", "m", "mm", "mmm", "mmmm", "d", "dd", "ddd", "h", "hh", "s", "ss", "AM/PM", "Y", "M", "D", "H", "S", "a/p"]
NUM = ["0", "00", "#", "#,##0", "0.00", "?", "# ?/?", "0%", "0.0", "##0.0"]
SEP = [";", ":", "/", "-", " ", ".", ",", "(", ")", "$", "+", "@", "General", "E+", "e", "\u20ac", "x", "G", "%"]
REAL = ["General", "general", "GENERAL", "@", "0.00E+00", "##0.0E+0", "yyyy-mm-dd", "d/m/yyyy h:mm", "[h]:mm:ss", "[$-409]d-mmm-yy;@", '#,##0.00_);[Red](#,##0.00)',
        '"Yes";"Yes";"No"', "hh\\hmm\\mss\\s", "mm:ss.0", '_-* #,##0.00_-;-* #,##0.00_-;_-* "-"??_-;_-@_-', "yyyy\"\u5e74\"m\"\u6708\"d\"\u65e5\"", '"d"0', "0\\d", "0.0_d", "[h]", "[d]0", "d0", "dd00", "ddd0", "0d0",
        "[Red]d", "General\\ d", 'General"."', "Standard", "", " ", ";", ";;;", "\\", '"', "_", "*", "\\y0", "0 \"days\"", "h", "m", "s", "d", "y", "Q", "??/??", "mmm-yy", "[s].000", "hh:mm:ss.000", "d.m.", "TT.MM.JJJJ", "mmss0", "0 d 0 d"]

def fmt_text(rng, short):
    k = rng.random()
    if k < .3: t = rng.choice(REAL)
    else:
        pools = [(LIT, 2), (ESC, 2), (PAD, 2), (BRK, 2), (DAT, 4), (NUM, 3), (SEP, 3)]
        if rng.random() < .5: pools = rng.sample(pools, 3)
        w = [p[1] for p in pools]
        t = "".join(rng.choice(rng.choices(pools, w)[0][0]) for _ in range(rng.randint(1, 8)))
    if rng.random() < .2: t = t + ";" + rng.choice(REAL)
    if short: t = "".join(c for c in t if ord(c) < 128 or c in "\u20ac")[:120]
    return t

def cells_for(b, sh, rng, r, xfx, mon, log):
    """one cell per numeric record form with format xfx, in row r"""
    bv = b.bv
    want = {}
    def add(c, form, v): want[c] = (form, float(v))
    if bv == 20 or bv == 21:
        v = rng.choice([0, 1, 59, 60, 61, 36526, 65535]); sh.integer(r, 0, v, xfx); add(0, "INTEGER", v)
        v = rand_double(rng); sh.number(r, 1, v, xfx); add(1, "NUMBER", v)
        v = rand_double(rng); sh.formula_num(r, 2, v, xfx); add(2, "FORMULA", v)
    else:
        v = rand_double(rng); sh.number(r, 0, v, xfx); add(0, "NUMBER", v)
        u = u32_finite(rng); sh.rk(r, 1, u, xfx); add(1, "RK", rk_value(u))
        v = rand_double(rng); sh.formula_num(r, 2, v, xfx); add(2, "FORMULA", v)
        if bv >= 50:
            us = [u32_finite(rng) for _ in range(2)]; sh.mulrk(r, 3, [(xfx, u) for u in us])
            add(3, "MULRK", rk_value(us[0])); add(4, "MULRK", rk_value(us[1]))
    return want

def run(spec, mon):
    rng = rng_for(spec); k = spec["kind"]; i = spec["i"]
    bv = ALL_BV[i % 8]
    if k == "builtin" and bv < 50: bv = (50, 70, 80)[i % 3]
    b = BookB(bv, codepage=None if bv >= 80 else 1252)
    b.datemode = rng.randint(0, 1)
    labels = []
    if k == "builtin":
        keys = list(range(0, 164)); rng.shuffle(keys); keys = keys[:100]
        for key in keys: b.add_xf(key, rng=rng); labels.append("built-in %d" % key)
        for key in (165, 200, 999, 65535): b.add_xf(key, rng=rng); labels.append("unknown key %d" % key)
    elif k == "epilogue" and bv <= 45 and bv != 20:
        # no or few FORMAT records: unknown keys
        for j in range(rng.randint(0, 3)): b.add_format(0, rng.choice(["0", "d-mmm", "h:mm"]) if j else "General")
        for key in rng.sample(range(0, 60), 10): b.add_xf(key, rng=rng); labels.append("key %d of %d formats" % (key, len(b.formats)))
        if bv == 21: pass
    else:
        n = rng.randint(1, 60) if bv not in (20, 21) else rng.randint(1, 60)
        if bv < 50: b.add_format(0, "General")
        for j in range(n):
            t = fmt_text(rng, bv < 80)
            if bv < 50: key = b.add_format(0, t)
            else:
                key = rng.choice([164 + j, 164 + j, rng.randint(1, 163)]) if k == "mixed" else 164 + j
                if any(kk == key for kk, _ in b.formats): key = 164 + j
                b.add_format(key, t)
        if k == "mixed" and bv >= 50:
            extra = [0, 1, 9, 14, 22, 45, 47, 49, 27, 57, 71, 81, 999]
        else: extra = []
        if bv != 20:
            ks = [x for x, _ in b.formats] + extra
            if bv == 21: ks = ks[:60]
            if rng.random() < .3: rng.shuffle(ks)
            for key in ks: b.add_xf(key, rng=rng); labels.append(repr(dict(b.formats).get(key, "built-in %d" % key)))
    nsh = 1 if bv <= 40 else rng.randint(1, 2)
    wants = []
    for si in range(nsh):
        sh = b.sheet("S%d" % si); sh.dims = (200, 5)
        if bv == 21 and rng.random() < .3: b.always_ixfe = True
        W = {}
        if bv == 20:
            order = list(range(min(len(b.formats), 63)))
            for r, key in enumerate(order): W[r] = (key, cells_for(b, sh, rng, r, bytes([rng.choice([0, 0x40]), key, 0]), mon, None))
        else:
            order = list(range(len(b.xfs)))
            if rng.random() < .3: rng.shuffle(order)
            for r, x in enumerate(order): W[r] = (x, cells_for(b, sh, rng, r, x, mon, None))
            sh.cur_ixfe = None
        wants.append(W)
    data = wrap(b.stream(rng), bv)
    for fmt in (False, True):
        bk = open_bytes(data, formatting_info=fmt, on_demand=rng.random() < .3, ragged_rows=rng.random() < .3)
        for si, W in enumerate(wants):
            s = bk.sheet_by_index(si)
            for r, (x, cs) in W.items():
                if bv == 20:
                    key = x; lab = repr(b.formats[key][1]); t = date_from_text(b.formats[key][1])
                else:
                    key = b.xfs[x].exp["format_key"]; lab = labels[x]
                    t = b.fmt_type(key) == 1
                    if not any(kk == key for kk, _ in b.formats):
                        mon.count("builtin" if b.fmt_type(key) is not None else "unknown_key", len(cs))
                    else: mon.count("texts", len(cs))
                want = DATE if t else NUMBER
                for c, (form, v) in cs.items():
                    gt, gv = s.cell_type(r, c), s.cell_value(r, c)
                    if gt != want: raise Violation("type:" + form, "BIFF%d %s record, format %s (key %d), formatting_info=%s: cell type %d, expected %d" % (bv, form, lab, key, fmt, gt, want))
                    if not same(gv, v): raise Violation("value:" + form, "BIFF%d %s record, format %s: value %r, stored %r" % (bv, form, lab, gv, v))
                    mon.seen("cell", (bv, form, fmt, lab))
                mon.count("cells", len(cs)); mon.count("dates" if t else "numbers", len(cs)); mon.count("comparisons", 2 * len(cs))
    if labels: mon.sample("BIFF%d: %s" % (bv, ", ".join(labels[:6])))
