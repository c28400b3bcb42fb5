"""C05 - the cell grid is exactly what the sheet's cell records say."""
from xlmon.util import *
from xlmon.runner import Violation, same

ID = "C05"; LEVEL = "exploration"
RULE = "distinct = distinct (version, option combination, write-order class, record-kind sequence hash) histories whose whole grid was compared with the reference"
ASSUMPTIONS = ["DIMENSIONS (if any) precedes the cell records, as in every BIFF version"]
REQUIRED = {"grids": 400, "cells": 20000, "empty_cells": 20000, "overwrites": 500, "merged_extensions": 10, "last_row": 2, "last_col": 20, "late_dimensions": 50}
CASE_TIMEOUT = 120

def plan(tier, seed):
    return specs_for(tier, seed, seq=(10000, 60000), edge=(160, 800), tiny=(4000, 30000), corner=(1, 4))

def positions(rng, n, maxr, maxc, order):
    rows = rng.choice([1, 2, 5, 20, 60]); cols = rng.choice([1, 2, 5, 20, 256])
    rows = min(rows, maxr); cols = min(cols, maxc)
    P = [(rng.randrange(rows), rng.randrange(cols)) for _ in range(n)]
    if order == "asc": P.sort()
    elif order == "desc": P.sort(reverse=True)
    elif order == "colmajor": P.sort(key=lambda p: (p[1], p[0]))
    elif order == "colmajor-desc": P.sort(key=lambda p: (-p[1], p[0]))
    elif order == "rowdesc": P.sort(key=lambda p: (-p[0], p[1]))
    elif order == "rowasc-coldesc": P.sort(key=lambda p: (p[0], -p[1]))
    elif order == "blocks":
        P.sort(); k = rng.randint(1, 5); m = max(1, len(P) // k); B = [P[i:i + m] for i in range(0, len(P), m)]; rng.shuffle(B); P = [p for b in B for p in b]
    elif order == "twice": P = P[:n // 2] + P[:n // 2]
    return P

ORDERS = ["asc", "desc", "colmajor", "colmajor-desc", "rowdesc", "rowasc-coldesc", "blocks", "twice", "random", "random"]

def write_cell(b, sh, rng, r, c, x, kinds):
    bv = b.bv
    k = rng.choice(kinds)
    if rng.random() < .02:              # a second (wrong or late) DIMENSIONS record
        keep = sh.dims; sh.dims = (rng.choice([0, 1, 3, 60000]), rng.choice([0, 1, 2, 256]))
        sh.raw(sh.dims_record()); sh.dims = keep; sh.extra_dims = getattr(sh, "extra_dims", 0) + 1
    tail = rng.randbytes(rng.randint(1, 4)) if bv >= 30 and rng.random() < .1 else b""
    if k == "num": sh.number(r, c, rand_double(rng), x(), tail)
    elif k == "int":
        if bv < 30: sh.integer(r, c, rng.randint(0, 65535), x())
        else: sh.rk(r, c, rng.getrandbits(30) << 2 | 2 | rng.getrandbits(1), x())
    elif k == "mul":
        n = rng.randint(1, min(8, 256 - c))
        if bv < 50: sh.number(r, c, 1.0, x())
        else: sh.mulrk(r, c, [(x(), rng.getrandbits(30) << 2 | 2 | rng.getrandbits(1)) for _ in range(n)])
    elif k == "blank": sh.blank(r, c, x())
    elif k == "mulblank":
        n = rng.randint(1, min(8, 256 - c))
        if bv < 50: sh.blank(r, c, x())
        else: sh.mulblank(r, c, [x() for _ in range(n)])
    elif k == "sst":
        if b.sst: sh.labelsst(r, c, rng.randrange(len(b.sst)), x())
        else: sh.label(r, c, "s%d" % rng.randint(0, 99), x())
    elif k == "label": sh.label(r, c, rand_text(rng, b.enc if bv < 80 else None, 12, astral=bv >= 80)[:200], x())
    elif k == "rstring":
        if bv >= 50: sh.rstring(r, c, rand_text(rng, b.enc if bv < 80 else None, 12, astral=bv >= 80), [(0, 1)], x())
        else: sh.label(r, c, "r", x())
    elif k == "bool": sh.boolerr(r, c, rng.randint(0, 1), 0, x(), tail)
    elif k == "err": sh.boolerr(r, c, rng.choice([0, 7, 15, 23, 29, 36, 42]), 1, x(), tail)
    elif k == "fnum": sh.formula_num(r, c, rand_double(rng), x())
    elif k == "fspec": sh.formula_special(r, c, *rng.choice([(1, 1), (1, 0), (2, 42), (2, 7), (3, 0)]), xf=x())
    else: sh.formula_str(r, c, "f%d" % rng.randint(0, 999), x())
    return k

KINDS = "num num int int mul blank blank mulblank sst sst label rstring bool err fnum fspec fstr".split()

def base(rng, bv):
    b = BookB(bv)
    if bv <= 40 or bv == 45: b.add_format(0, "General"); b.add_format(1, "yyyy-mm-dd")
    if bv != 20:
        for key in (0, 1, 1 if bv < 50 else 14): b.add_xf(key, rng=rng)
    if bv >= 80:
        for t in ("", "a", "été", "日本"): b.add_sst(t)
    sh = b.sheet("S")
    sh.dims = rng.choice([(0, 0), (1, 1), (3, 3), (60000, 256), (rng.randint(0, 100), rng.randint(0, 256))])
    if bv in (70, 80, 50) and rng.random() < .2: sh.dims = None
    if bv == 20: x = lambda: bytes([rng.choice([0, 0x40]), rng.randrange(2), 0])
    else: x = lambda: rng.randrange(3)
    return b, sh, x

def verify(mon, b, sh, rng, tag, data=None, combos=((0, 0), (1, 0), (0, 1), (1, 1)), full=True):
    data = data or wrap(b.stream(rng), b.bv)
    for fmt, rag in combos:
        bk = open_bytes(data, formatting_info=bool(fmt), ragged_rows=bool(rag), on_demand=rng.random() < .3)
        s = bk.sheet_by_index(0)
        g, nr, nc, _ = sh.grid(fmt)
        ctx = "BIFF%d %s formatting=%d ragged=%d" % (b.bv, tag, fmt, rag)
        mon.equal((s.nrows, s.ncols), (nr, nc), "size", ctx + ": (nrows, ncols)")
        rows = expected_rows(g, nr, nc, fmt, rag)
        if rag and fmt and nr > sh.grid_no_merge(fmt) and nr and not any(r == nr - 1 for r, c in g):
            rows[nr - 1] = ([0], [""])
        for r in range(nr):
            et, ev = rows[r]
            gt, gv = list(s.row_types(r)), list(s.row_values(r))
            if gt != et or not same(gv, ev):
                if len(gt) != len(et): raise Violation("row-length", "%s: row %d has %d cells, expected %d" % (ctx, r, len(gt), len(et)))
                c = next(c for c in range(len(et)) if gt[c] != et[c] or not same(gv[c], ev[c]))
                raise Violation("cell", "%s: cell (%d, %d) is type %r value %r, expected type %r value %r" % (ctx, r, c, gt[c], gv[c], et[c], ev[c]))
            if s.row_len(r) != len(et): raise Violation("row-length", "%s: row_len(%d) = %r, expected %d" % (ctx, r, s.row_len(r), len(et)))
        # single-cell access on stored cells and a sample of empty ones
        for (r, c), (t, v, xf) in (g.items() if len(g) < 400 else rng.sample(sorted(g.items()), 400)):
            if s.cell_type(r, c) != t or not same(s.cell_value(r, c), v):
                raise Violation("cell", "%s: cell_type/cell_value(%d, %d) = %r/%r, expected %r/%r" % (ctx, r, c, s.cell_type(r, c), s.cell_value(r, c), t, v))
        mon.count("assertions", 2 * nr + len(g)); mon.count("grids"); mon.count("cells", len(g)); mon.count("empty_cells", sum(len(t) for t, v in rows) - len(g))
        if fmt and any(bb > sh.grid_no_merge(1) for a, bb, c, d in sh.merged): mon.count("merged_extensions")
        if any(c == 255 for r, c in g): mon.count("last_col")
        mon.seen("history", (b.bv, fmt, rag, tag, tuple(o[:3] for o in sh.ops[:30])))
    seen = set(); ov = 0
    for o in sh.ops:
        ov += o[:2] in seen; seen.add(o[:2])
    mon.count("overwrites", ov); mon.count("late_dimensions", getattr(sh, "extra_dims", 0))
    return

def run(spec, mon):
    rng = rng_for(spec); k = spec["kind"]; i = spec["i"]
    bv = ALL_BV[i % 8] if k != "corner" else (80, 70)[i % 2]
    b, sh, x = base(rng, bv)
    maxr = 65536 if bv >= 80 else 16384
    if k == "seq":
        order = rng.choice(ORDERS)
        kinds = KINDS if rng.random() < .6 else rng.sample(KINDS, 3)
        for r, c in positions(rng, rng.choice([1, 3, 10, 40, 150, 400]), maxr, 256, order):
            write_cell(b, sh, rng, r, c, x, kinds)
            if bv >= 80 and rng.random() < .01:
                a, d = rng.randint(0, 70), rng.randint(0, 250)
                sh.merge([(a, a + rng.randint(1, 5), d, min(256, d + rng.randint(1, 5)))])
        if bv >= 80 and rng.random() < .15:
            a, d = rng.randint(0, 70), rng.randint(0, 250)
            sh.merge([(a, a + rng.randint(1, 5), d, min(256, d + rng.randint(1, 5)))])
        verify(mon, b, sh, rng, order)
        mon.sample("BIFF%d, %d cell records, %s order" % (bv, len(sh.ops), order))
    elif k == "tiny":
        # every short program over a 3x3 corner: the growth paths depend on the order of the first few cells
        n = rng.randint(1, 6)
        for _ in range(n):
            write_cell(b, sh, rng, rng.choice([0, 1, 2, 3, 7]), rng.choice([0, 1, 2, 5, 255]), x, KINDS)
        verify(mon, b, sh, rng, "tiny%d" % n)
    elif k == "edge":
        # last row; few columns so that the padded grid stays small
        P = [(maxr - 1, rng.randrange(3)), (0, rng.randrange(3)), (maxr - 2, 0), (rng.randrange(maxr), 1), (5, 2)]
        rng.shuffle(P)
        for r, c in P[:rng.randint(1, 5)] + [(maxr - 1, 1)]: write_cell(b, sh, rng, r, c, x, [q for q in KINDS if not q.startswith("mul")])
        verify(mon, b, sh, rng, "last-row", combos=((rng.randint(0, 1), 0), (rng.randint(0, 1), 1)))
        mon.count("last_row")
    else:
        write_cell(b, sh, rng, maxr - 1, 255, x, ["num"]); write_cell(b, sh, rng, 0, 0, x, ["label"])
        verify(mon, b, sh, rng, "corner", combos=((0, 1), (1, 0)) if i else ((0, 1),))
        mon.count("last_row")
