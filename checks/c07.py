"""C07 - all cell accessors agree with one grid and with Python slicing."""
from xlmon.randbook import *
from xlmon.runner import Violation, same

ID = "C07"; LEVEL = "exploration"
RULE = "distinct = distinct (accessor, grid shape, start class, end class, ragged, formatting) calls whose result was compared with Python slicing of the reference grid"
ASSUMPTIONS = ["the reference grid is the one written by the generator; the format of an empty cell is the row's, the column's or 15",
               "a negative single index may either raise IndexError or mean what it means for a Python list"]
REQUIRED = {"calls": 100000, "outside": 3000, "sheets": 100, "fresh_lists": 500, "from_end": 10000}
CASE_TIMEOUT = 120

def plan(tier, seed):
    return specs_for(tier, seed, small=(208, 6000), rand=(96, 4000), wide=(16, 300))

def run(spec, mon):
    rng = rng_for(spec); i = spec["i"]; k = spec["kind"]
    bv = ALL_BV[i % 8]
    if k == "small":
        b = BookB(bv)
        if bv < 50: b.add_format(0, "General")
        b.fonts.append(fmtrecs.font(bv, "Arial", rng))
        if bv != 20:
            for _ in range(20): b.add_xf(0, rng=rng)
        for si in range(1 if bv <= 40 else 2):
            sh = b.sheet("S%d" % si); sh.dims = (1, 1)
            nr, nc = rng.randint(0, 6), rng.randint(1, 7)
            x = (lambda: b"\0\0\0") if bv == 20 else (lambda: rng.randrange(20))
            if bv >= 30:
                for r in range(nr + 1):
                    if rng.random() < .4: sh.row(r, xf=rng.randrange(20))
                for c in range(nc + 1):
                    if rng.random() < .4: sh.colinfo(c, c, 1000, rng.randrange(20))
            for r in range(nr):
                for c in range(nc):
                    q = rng.random()
                    if q < .3: sh.number(r, c, float(10 * r + c), x())
                    elif q < .5: sh.label(r, c, "r%dc%d" % (r, c), x())
                    elif q < .6: sh.boolerr(r, c, rng.randint(0, 1), 0, x())
                    elif q < .7: sh.blank(r, c, x())
            if bv >= 80 and rng.random() < .3: sh.merge([(0, nr + 2, 0, nc + 1)])
    elif k == "rand":
        b = random_book(rng, bv, annotations=False)
    else:
        b = BookB(bv)
        if bv < 50: b.add_format(0, "General")
        if bv != 20: b.add_xf(0)
        sh = b.sheet("W"); sh.dims = (1, 1)
        x = b"\0\0\0" if bv == 20 else 0
        for r in (0, 1, 299): sh.number(r, rng.choice([0, 100, 255]), 1.0, x)
        sh.label(3, 255, "end", x)
    data = wrap(b.stream(rng), bv)
    for fmt, rag in ((0, 0), (1, 0), (0, 1), (1, 1)):
        bk = open_bytes(data, formatting_info=bool(fmt), ragged_rows=bool(rag))
        for si, sh in enumerate(b.worksheets()):
            judge(mon, rng, bk, bk.sheet_by_index(si), b, sh, si, fmt, rag, k)
        ws = b.worksheets()
        mon.check([id(s) for s in bk] == [id(bk.sheet_by_index(j)) for j in range(len(ws))], "book-iter", "iterating the workbook does not give the sheets in order")
        for j in range(len(ws)):
            nm = bk.sheet_names()[j]
            mon.check(bk[j] is bk.sheet_by_index(j) and bk[nm] is bk.sheet_by_name(nm) and bk[j] is bk[nm], "book-index", "book[%d] / book[%r]" % (j, nm))

def tup(c): return (c.ctype, c.value, c.xf_index)

def judge(mon, rng, bk, s, b, sh, si, fmt, rag, kind):
    e = expect_sheet(b, sh, fmt, rag, si)
    rows = e["_rows"]; g = e["_grid"]
    bv20 = b.bv == 20
    nr, nc = e["nrows"], e["ncols"]
    ctx = "BIFF%d sheet %d formatting=%d ragged=%d: " % (b.bv, si, fmt, rag)
    mon.equal((s.nrows, s.ncols), (nr, nc), "size", ctx + "size")
    T = [r[0] for r in rows]; V = [r[1] for r in rows]
    X = []
    for r in range(nr):
        if not fmt: X.append([None] * len(T[r])); continue
        l = []
        for c in range(len(T[r])):
            if bv20: l.append(s.cell_xf_index(r, c))
            elif (r, c) in g: l.append(g[r, c][2])
            elif r in sh.rows and sh.rows[r]["xf_index"] > -1: l.append(sh.rows[r]["xf_index"])
            elif c in sh.cols: l.append(sh.cols[c]["xf_index"])
            else: l.append(15)
        X.append(l)
    cells = [list(zip(T[r], V[r], X[r])) for r in range(nr)]
    n = [0]
    def eq(got, want, what):
        n[0] += 1
        if not same(got, want):
            raise Violation(what.split("(")[0], "%s%s returned %s, expected %s" % (ctx, what, repr(got)[:200], repr(want)[:200]))
    def raises(f, what):
        mon.count("outside")
        try: v = f()
        except IndexError: return
        except Exception as ex:
            raise Violation("outside:" + what.split("(")[0], "%s%s raised %s" % (ctx, what, type(ex).__name__))
        raise Violation("outside:" + what.split("(")[0], "%s%s is outside the grid (%d rows, %d columns) but returned %r" % (ctx, what, nr, nc, v))
    # rows and iteration
    eq([[tup(c) for c in row] for row in s.get_rows()], cells, "get_rows()")
    eq([[tup(c) for c in row] for row in s], cells, "iter()")
    it1, it2 = iter(s), iter(s)      # independent iterators
    for r in range(min(nr, 3)):
        eq([tup(c) for c in next(it1)], cells[r], "next(iter 1)"); eq([tup(c) for c in next(it2)], cells[r], "next(iter 2)")
    R = range(nr) if nr <= 12 else sorted(rng.sample(range(nr), 10) + [0, nr - 1])
    for r in R:
        L = len(T[r])
        eq(s.row_len(r), L, "row_len(%d)" % r)
        eq([tup(c) for c in s.row(r)], cells[r], "row(%d)" % r); eq([tup(c) for c in s[r]], cells[r], "sheet[%d]" % r)
        C = range(L) if L <= 12 else sorted(set(rng.sample(range(L), 8) + [0, L - 1]))
        for c in C:
            eq(tup(s.cell(r, c)), cells[r][c], "cell(%d, %d)" % (r, c)); eq(tup(s[r, c]), cells[r][c], "sheet[%d, %d]" % (r, c))
            eq(s.cell_type(r, c), T[r][c], "cell_type(%d, %d)" % (r, c)); eq(s.cell_value(r, c), V[r][c], "cell_value(%d, %d)" % (r, c))
            if fmt: eq(s.cell_xf_index(r, c), X[r][c], "cell_xf_index(%d, %d)" % (r, c))
        bounds = list(range(-L - 2, L + 3)) if L <= 7 else sorted(set([-10 ** 9, -L - 1, -L, -L + 1, -2, -1, 0, 1, L - 1, L, L + 1, 256, 65536, 10 ** 9] + [rng.randint(-L - 3, L + 3) for _ in range(5)]))
        if L <= 7: bounds += [10 ** 9, -10 ** 9]
        full = kind == "small" and L <= 5
        pairs = [(a, z) for a in bounds for z in bounds + [None]]
        if not full and len(pairs) > 40: pairs = rng.sample(pairs, 40)
        for a, z in pairs:
            w = "(%d, %r, %r)" % (r, a, z)
            eq(list(s.row_types(r, a, z)), T[r][a:z], "row_types" + w)
            eq(s.row_values(r, a, z), V[r][a:z], "row_values" + w)
            eq([tup(c) for c in s.row_slice(r, a, z)], cells[r][a:z], "row_slice" + w)
            mon.seen("call", ("row", L, a, z, rag, fmt))
        for a in bounds[:9]:
            eq(list(s.row_types(r, a)), T[r][a:], "row_types(%d, %d)" % (r, a)); eq(s.row_values(r, start_colx=a), V[r][a:], "row_values(%d, %d)" % (r, a))
            eq(s.row_values(r, end_colx=a), V[r][:a], "row_values(%d, end=%d)" % (r, a))
            eq([tup(c) for c in s.row_slice(r, a)], cells[r][a:], "row_slice(%d, %d)" % (r, a)); eq([tup(c) for c in s.row_slice(r, end_colx=a)], cells[r][:a], "row_slice(%d, end=%d)" % (r, a))
        # the lists handed out are the caller's
        x = s.row_values(r); y = s.row_types(r); z = s.row(r)
        if L:
            x[0] = "poison"; x.append("poison"); y[0] = 5; del z[:]
            zz = s.row_slice(r); zz[0].value = "poison"; zz[0].ctype = 5
            if fmt or True: eq(s.row_values(r), V[r], "row_values(%d) after the caller changed an earlier result" % r); eq(list(s.row_types(r)), T[r], "row_types(%d) after the caller changed an earlier result" % r)
            eq([tup(c) for c in s.row(r)], cells[r], "row(%d) after the caller changed an earlier result" % r)
            mon.count("fresh_lists")
        for c in (L, L + 1, 256, 65536, -L - 1):
            for w, f in (("cell_value", s.cell_value), ("cell_type", s.cell_type), ("cell", s.cell), ("[]", lambda a, z: s[a, z])) + ((("cell_xf_index", s.cell_xf_index),) if fmt else ()):
                raises(lambda: f(r, c), "%s(%d, %d)" % (w, r, c))
        # counted from the end: refused, or what it means for a Python list
        def back(f, want, w):
            mon.count("from_end")
            try: v = f()
            except IndexError: return
            eq(v, want, w)
        if L:
            for c in {-1, -L, -rng.randint(1, L)}:
                for q in {r, r - nr}:
                    back(lambda: s.cell_value(q, c), V[r][c], "cell_value(%d, %d)" % (q, c)); back(lambda: s.cell_type(q, c), T[r][c], "cell_type(%d, %d)" % (q, c))
                    back(lambda: tup(s.cell(q, c)), cells[r][c], "cell(%d, %d)" % (q, c)); back(lambda: tup(s[q, c]), cells[r][c], "sheet[%d, %d]" % (q, c))
                    if fmt: back(lambda: s.cell_xf_index(q, c), X[r][c], "cell_xf_index(%d, %d)" % (q, c))
        q = r - nr
        back(lambda: [tup(c) for c in s.row(q)], cells[r], "row(%d)" % q); back(lambda: [tup(c) for c in s[q]], cells[r], "sheet[%d]" % q)
        back(lambda: s.row_values(q), V[r], "row_values(%d)" % q); back(lambda: list(s.row_types(q)), T[r], "row_types(%d)" % q)
        back(lambda: [tup(c) for c in s.row_slice(q, -2)], cells[r][-2:], "row_slice(%d, -2)" % q); back(lambda: s.row_len(q), L, "row_len(%d)" % q)
        if not rag and L:
            c = -rng.randint(1, L)
            back(lambda: [tup(x) for x in s.col(c)], [cells[q][c] for q in range(nr)], "col(%d)" % c); back(lambda: s.col_values(c, 0, r + 1), [V[q][c] for q in range(r + 1)], "col_values(%d, 0, %d)" % (c, r + 1))
            back(lambda: list(s.col_types(c)), [T[q][c] for q in range(nr)], "col_types(%d)" % c)
    for r in (nr, nr + 1, 65536, -nr - 1):
        for w, f in (("cell_value", lambda: s.cell_value(r, 0)), ("cell", lambda: s.cell(r, 0)), ("row", lambda: s.row(r)), ("row_values", lambda: s.row_values(r)),
                     ("row_types", lambda: s.row_types(r)), ("row_slice", lambda: s.row_slice(r)), ("row_len", lambda: s.row_len(r)), ("sheet[]", lambda: s[r]), ("cell_type", lambda: s.cell_type(r, 0))):
            raises(f, "%s(%d)" % (w, r))
    # columns
    C = range(nc) if nc <= 9 else sorted(set(rng.sample(range(nc), 6) + [0, nc - 1]))
    for c in C:
        bounds = list(range(-nr - 2, nr + 3)) if nr <= 7 else sorted(set([-10 ** 9, -nr - 1, -nr, -nr + 1, -2, -1, 0, 1, nr - 1, nr, nr + 1, 65536, 10 ** 9] + [rng.randint(-nr - 3, nr + 3) for _ in range(4)]))
        pairs = [(a, z) for a in bounds for z in bounds + [None]]
        if not (kind == "small" and nr <= 4) and len(pairs) > 40: pairs = rng.sample(pairs, 40)
        for a, z in [()] + pairs if False else pairs:
            w = "(%d, %r, %r)" % (c, a, z)
            sub = range(nr)[a:z]
            if all(len(T[r]) > c for r in sub):
                eq(list(s.col_types(c, a, z)), [T[r][c] for r in sub], "col_types" + w)
                eq(list(s.col_values(c, a, z)), [V[r][c] for r in sub], "col_values" + w)
                eq([tup(x) for x in s.col_slice(c, a, z)], [cells[r][c] for r in sub], "col_slice" + w)
                eq([tup(x) for x in s.col(c, a, z)], [cells[r][c] for r in sub], "col" + w)
            else:
                for w2, f in (("col_types", s.col_types), ("col_values", s.col_values), ("col_slice", s.col_slice), ("col", s.col)):
                    raises(lambda: f(c, a, z), w2 + w)
            mon.seen("call", ("col", nr, a, z, rag, fmt))
        if all(len(T[r]) > c for r in range(nr)):
            eq([tup(x) for x in s.col(c)], [cells[r][c] for r in range(nr)], "col(%d)" % c)
            eq(s.col_values(c), [V[r][c] for r in range(nr)], "col_values(%d)" % c); eq(list(s.col_types(c)), [T[r][c] for r in range(nr)], "col_types(%d)" % c)
            if nr:
                eq(s.col_values(c, end_rowx=-1), [V[r][c] for r in range(nr - 1)], "col_values(%d, end_rowx=-1)" % c)
                eq(s.col_values(c, start_rowx=1), [V[r][c] for r in range(1, nr)], "col_values(%d, start_rowx=1)" % c)
                y = s.col_values(c); y[0] = "poison"
                eq(s.col_values(c), [V[r][c] for r in range(nr)], "col_values(%d) after the caller changed an earlier result" % c)
    if nr:
        for c in (nc, nc + 1, 256):
            for w, f in (("col", s.col), ("col_values", s.col_values), ("col_types", s.col_types), ("col_slice", s.col_slice)):
                raises(lambda: f(c), "%s(%d)" % (w, c))
    mon.count("calls", n[0]); mon.count("assertions", n[0]); mon.count("sheets")
    mon.sample("%d x %d sheet: %d calls compared" % (nr, nc, n[0]))
