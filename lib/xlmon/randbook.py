"""Random whole workbooks (all record kinds) with reference expectations."""
import random
from . import fmtrecs
from .annot import random_annot
from .util import *

ENCODINGS = {1252: "cp1252", 1251: "cp1251", 1250: "cp1250", 437: "cp437", 850: "cp850", 10000: "mac_roman", 932: "cp932",
             936: "cp936", 1253: "cp1253", 874: "cp874", 32768: "mac_roman", 32769: "cp1252", 10007: "mac_cyrillic"}
FORMATS = ["General", "0.00", "yyyy-mm-dd", "#,##0;[Red]-#,##0", "h:mm:ss", "[h]:mm", "0.00E+00", '"d"0', "d/m/yy", "@",
           '"Year" yyyy', "\\y0", "_d0", "mm:ss.0", "[$-409]d\\-mmm\\-yy;@", "0.0%", "# ?/?", '"days" 0 "d"', "[Red]d", "General;d"]

def random_book(rng, bv, density=1.0, annotations=True, kinds=False, nsheets=None, names=False, fmt_level=1.0, unique_names=True, small=False, enc=None, text=None):
    cp = None
    if bv < 80 and enc is not None:
        b = BookB(bv, enc=enc)
    elif bv < 80:
        if rng.random() < .8:
            cp = rng.choice(list(ENCODINGS))
        b = BookB(bv, codepage=cp)
        enc = b.enc
    else:
        b = BookB(bv, codepage=rng.choice([1200, 1200, None, 1252]))
        enc = None
    b.bof_year = rng.choice([1996, 1997, 2003])
    b.small = small
    text = text or (lambda n=40: rand_text(rng, enc, n, astral=bv >= 80))
    def short_text(n, limit):
        t = text(n)
        while (len(t.encode(enc)) if enc else u16len(t)) > limit: t = t[:len(t) // 2]
        return t
    b.text = text
    if rng.random() < .7: b.user = short_text(20, 31).replace("\0", "")
    if rng.random() < .4: b.datemode = rng.randint(0, 1)
    if rng.random() < .4: b.country = (rng.randint(1, 400), rng.randint(1, 400))
    # formats / xfs / fonts
    for i in range(rng.randint(1, 6)):
        nm = short_text(15, 30)
        b.fonts.append(fmtrecs.font(bv, nm, rng, enc or "latin-1"))
    keys = []
    nf = rng.randint(0, 6) if bv >= 50 else rng.randint(1, 10)
    for i in range(nf):
        k = rng.choice([164 + i, 164 + i, 164 + i, rng.randint(1, 60), rng.randint(164, 400), rng.choice([0x7FFF, 0x8000, 0xFFFF])])
        s = rng.choice(FORMATS)
        if enc and not all(can(c, enc) for c in s): s = "0.00"
        keys.append(b.add_format(k, s))
    keys = list(dict.fromkeys(keys))
    if bv >= 50: keys += [0, 0, 1, 14, 22, 49, 20]
    nx = 0 if bv == 20 else rng.randint(1, 20) if rng.random() < .95 else rng.choice([70, 300, 300, 1100, 4000 if not small else 500])
    for i in range(nx):
        b.add_xf(rng.choice(keys) if rng.random() > .03 or bv < 50 else 999, rng=rng)
    if b.xfs and rng.random() < .6:
        for i in range(rng.randint(1, 4)):
            if rng.random() < .5: b.styles.append(fmtrecs.style(bv, rng.randrange(len(b.xfs)), builtin=rng.randint(0, 9), level=rng.randint(0, 6)))
            else:
                nm = short_text(12, 60) or "Style"
                b.styles.append(fmtrecs.style(bv, rng.randrange(len(b.xfs)), name=nm, enc=enc or "latin-1"))
    if rng.random() < .4 and bv >= 30:
        b.palette = [tuple(rng.randint(0, 255) for _ in range(3)) for _ in range(56 if bv >= 50 else 16)]
    n = 1 if bv <= 40 else (nsheets or rng.randint(1, 4))
    used = set()
    if bv >= 80:
        for _ in range(rng.randint(0, 12)):
            t = text(rng.choice([10, 40, 400]))
            runs = [(rng.randint(0, u16len(t)), rng.randint(0, 20)) for _ in range(rng.randint(1, 4))] if rng.random() < .3 else None
            b.add_sst(t, runs, rng.randbytes(rng.randint(0, 40)) if rng.random() < .2 else None, rng.random() < .3)
    for i in range(n):
        nm = short_text(12, 31).replace("\0", "") or "S%d" % i
        while nm in used: nm = "S%d" % rng.randint(0, 9999)
        used.add(nm)
        kind = 0
        if kinds and bv >= 50 and rng.random() < .35: kind = rng.choice([1, 2, 6])
        sh = b.sheet(nm, kind, rng.choice([0, 0, 0, 1, 2]))
        if kind == 0: random_sheet(b, sh, rng, density, annotations)
    if not b.worksheets() and bv >= 50:
        sh = b.sheet("Only", 0); random_sheet(b, sh, rng, density, annotations)
    if names and bv >= 50 and rng.random() < .8:
        from .formula import random_names
        random_names(b, rng)
    return b

def random_sheet(b, sh, rng, density=1.0, annotations=True, ncells=None):
    bv = b.bv
    sh.dims = (rng.randint(0, 100), rng.randint(0, 256)) if rng.random() < .95 else None
    if bv in (21, 30, 40): sh.dims = sh.dims or (5, 5)
    X = range(len(b.xfs))
    def xf():
        if bv == 20: return bytes([rng.choice([0, 0x40, 0x80, 0xC0]), rng.choice([0, 1, 2, 3]) % max(1, len(b.formats)) | rng.randrange(4) << 6, rng.getrandbits(8)])
        return rng.choice(X)
    rows = rng.choice([3, 10, 40, 200]); cols = rng.choice([3, 10, 40, 256])
    if getattr(b, 'small', False): rows, cols = min(rows, 40), min(cols, 40)
    maxr = rows if getattr(b, 'small', False) else 65536 if bv >= 80 else 16384
    n = ncells if ncells is not None else int(rng.choice([0, 5, 30, 120]) * density)
    extra = []
    if bv >= 30 and bv <= 80 and bv != 20:
        for r in range(rng.randint(0, 5)):
            sh.row(rng.randint(0, rows), height=rng.randint(0, 8000), default_height=rng.randint(0, 1),
                   bits=(rng.getrandbits(7) & ~0x88) | rng.getrandbits(2) << 28, xf=rng.randrange(min(len(b.xfs), 0xFFF)) if rng.random() < .5 else None)
    elif bv == 21 or bv == 20:
        for r in range(rng.randint(0, 3)):
            sh.row(rng.randint(0, rows), height=rng.randint(0, 8000), default_height=rng.randint(0, 1),
                   xf=None if bv == 20 or rng.random() < .5 else rng.randrange(min(len(b.xfs), 60)))
    if bv >= 30:
        for r in range(rng.randint(0, 3)):
            c1 = rng.randint(0, 255); c2 = rng.choice([c1, min(255, c1 + rng.randint(0, 9)), 256])
            sh.colinfo(c1, c2, rng.randint(0, 20000), rng.choice(X), (rng.getrandbits(2) | rng.randint(0, 7) << 8 | rng.getrandbits(1) << 12))
    if annotations: random_annot(sh, rng, b.text)
    rk_pool = [0, 2, 3, 1, 0x3FF00000, 0x40590001, 0xFFFFFFFE, 0xFFFFFFFF, 0x7FFFFFFE]
    for i in range(n):
        r = rng.randrange(rows) if rng.random() > .01 else rng.randrange(min(maxr, 2000))
        c = rng.randrange(cols)
        k = rng.random()
        x = xf()
        tail = rng.randbytes(rng.randint(1, 6)) if bv >= 30 and rng.random() < .08 else b""   # some writers leave rubbish at the end
        if k < .2: sh.number(r, c, rand_double(rng), x, tail)
        elif k < .3 and bv < 30: sh.integer(r, c, rng.randint(0, 65535), x)
        elif k < .3: sh.rk(r, c, rng.choice(rk_pool + [u32_finite(rng)]), x)
        elif k < .36 and bv >= 50:
            m = rng.randint(1, min(6, 256 - c))
            sh.mulrk(r, c, [(xf(), rng.choice(rk_pool + [u32_finite(rng)])) for _ in range(m)])
        elif k < .42: sh.blank(r, c, x)
        elif k < .46 and bv >= 50: sh.mulblank(r, c, [xf() for _ in range(rng.randint(1, min(6, 256 - c)))])
        elif k < .6 and b.sst: sh.labelsst(r, c, rng.randrange(len(b.sst)), x)
        elif k < .68:
            t = b.text(30)
            if bv < 30:
                while len(t.encode(b.enc)) > 255: t = t[:len(t) // 2]
            sh.label(r, c, t, x)
        elif k < .72 and bv >= 50:
            t = b.text(20)
            sh.rstring(r, c, t, [(rng.randint(0, 20), rng.randint(0, 20) if bv < 80 or rng.random() < .8 else rng.randint(0, 65535)) for _ in range(rng.randint(0, 3))], x)
        elif k < .8: sh.boolerr(r, c, rng.choice([0, 1]), 0, x, tail)
        elif k < .84: sh.boolerr(r, c, rng.choice([0, 7, 15, 23, 29, 36, 42, 42, 43, rng.choice([1, 255, 128])]), 1, x, tail)
        elif k < .9: sh.formula_num(r, c, rand_double(rng), x)
        elif k < .95: sh.formula_special(r, c, *rng.choice([(1, 1), (1, 0), (2, 42), (2, 0), (3, 0)]), xf=x)
        else:
            t = b.text(20) or "q"
            if bv < 30:
                while len(t.encode(b.enc)) > 255: t = t[:len(t) // 2]
            sh.formula_str(r, c, t, x)
    if bv >= 80 and rng.random() < .4:
        rr = []
        for _ in range(rng.randint(0, 3)):
            a, d = rng.randint(0, rows), rng.randint(0, min(cols, 250))
            rr.append((a, a + rng.randint(1, 4), d, min(256, d + rng.randint(1, 4))))
        sh.merge(rr)
    return sh

def u32_finite(rng):
    while 1:
        u = rng.getrandbits(32)
        if u & 2 or (u >> 20 & 0x7FF) != 0x7FF: return u

def expect_sheet(b, sh, fmt, ragged, number):
    """expectation in observe.obs_sheet terms (subset of keys)"""
    g, nr, nc, runs = sh.grid(fmt)
    rows = expected_rows(g, nr, nc, fmt, ragged)
    if ragged and fmt:
        base = sh.grid_no_merge(fmt)
        if nr > base and nr > 0 and not any(r == nr - 1 for r, c in g):
            rows[nr - 1] = ([0], [""])
    e = {"name": sh.name if b.bv >= 45 else "Sheet 1", "number": number, "nrows": nr, "ncols": nc,
         "visibility": sh.visibility if b.bv >= 50 else 0, "rich_text": runs,
         "merged_cells": list(sh.merged) if fmt else []}
    e["_rows"] = rows
    e["_grid"] = g
    return e
