"""C06 - ragged_rows and formatting_info only change what they document."""
from xlmon.randbook import *
from xlmon.runner import Violation, same

ID = "C06"; LEVEL = "exploration"
RULE = "distinct = distinct (version, nrows, ncols, data cells, blank cells, merged ranges) workbooks whose four openings were compared with each other and with the reference"
ASSUMPTIONS = ["run lists of rich text are formatting attributes (shared-string runs appear only with formatting information)"]
REQUIRED = {"quadruples": 300, "data_cells": 5000, "blank_only_fmt": 200, "merged_margin": 10, "guards": 2000, "short_rows": 500}
CASE_TIMEOUT = 120

def plan(tier, seed):
    return specs_for(tier, seed, rand=(1200, 40000), blanks=(480, 12000), samples=(12, 12))

SAMPLES = "Formate biff4_no_format_no_window2 formula_test_names formula_test_sjmachin issue20 namesdemo picture_in_cell profiles ragged xf_class invalid_formula".split()
COMBOS = ((0, 0), (0, 1), (1, 0), (1, 1))

def make_blanks(rng, bv):
    """mostly blank cells, merged ranges and a few data cells"""
    b = BookB(bv)
    if bv < 50: b.add_format(0, "General")
    b.fonts.append(fmtrecs.font(bv, "Arial", rng))
    for i in range(1 if bv == 20 else 4):
        if bv != 20: b.add_xf(0, rng=rng)
    sh = b.sheet("B"); sh.dims = (5, 5)
    x = (lambda: b"\0\0\0") if bv == 20 else (lambda: rng.randrange(4))
    for _ in range(rng.randint(0, 12)):
        r, c = rng.randint(0, 12), rng.choice([0, 1, 3, 9, 255])
        k = rng.random()
        if k < .6: sh.blank(r, c, x())
        elif k < .75 and bv >= 50: sh.mulblank(r, min(c, 250), [x() for _ in range(rng.randint(1, 5))])
        else: sh.number(r, c, float(rng.randint(0, 99)), x())
    if bv >= 80:
        for _ in range(rng.randint(0, 2)):
            a, d = rng.randint(0, 20), rng.randint(0, 20)
            sh.merge([(a, a + rng.randint(1, 4), d, d + rng.randint(1, 4))])
    return b

def snap(data, fmt, rag, on_demand):
    bk = open_bytes(data, formatting_info=bool(fmt), ragged_rows=bool(rag), on_demand=on_demand)
    return bk, [bk.sheet_by_index(i) for i in range(bk.nsheets)]

def cells(s):
    """{(r, c): (type, value)} of every stored position, and the row lengths"""
    g, L = {}, []
    for r in range(s.nrows):
        t, v = s.row_types(r), s.row_values(r)
        if len(t) != len(v): raise Violation("row-length", "row %d: %d types but %d values" % (r, len(t), len(v)))
        if s.row_len(r) != len(t): raise Violation("row-length", "row %d: row_len %d, %d cells" % (r, s.row_len(r), len(t)))
        L.append(len(t))
        for c in range(len(t)): g[r, c] = (t[c], v[c])
    return g, L

SHEET_COMMON = "name number visibility notes hyperlinks hyperlink_map col_label_ranges row_label_ranges view defaults".split()
BOOK_COMMON = "biff_version nsheets sheet_names datemode codepage encoding countries user_name names name_map name_and_scope_map".split()

def guard(mon, bk, s):
    import xlrd
    probes = [("cell_xf_index(0, 0)", lambda: s.cell_xf_index(0, 0)), ("cell_xf_index(70000, 300)", lambda: s.cell_xf_index(70000, 300)),
              ("computed_column_width(0)", lambda: s.computed_column_width(0)), ("computed_column_width(255)", lambda: s.computed_column_width(255))]
    for w, f in probes:
        try:
            v = f()
        except xlrd.XLRDError:
            mon.count("guards"); continue
        except Exception as e:
            raise Violation("guard", "without formatting_info %s raised %s, not the library's error" % (w, type(e).__name__))
        raise Violation("guard", "without formatting_info %s returned %r" % (w, v))
    if s.nrows and s.row_len(0):
        c = s.cell(0, 0)
        mon.check(c.xf_index is None, "guard", lambda: "without formatting_info cell(0,0).xf_index is %r" % (c.xf_index,))
    for n in ("rowinfo_map", "colinfo_map"):
        mon.check(not getattr(s, n), "guard", lambda: "without formatting_info %s is %r" % (n, getattr(s, n)))
    mon.check(not list(s.merged_cells) and not list(s.horizontal_page_breaks) and not list(s.vertical_page_breaks), "guard",
              "without formatting_info merged cells or page breaks are reported")
    for n in ("xf_list", "font_list"):
        pass    # partially filled for date typing

def run(spec, mon):
    rng = rng_for(spec); i = spec["i"]
    b = None
    if spec["kind"] == "samples":
        if i >= len(SAMPLES): return
        data = open("/repo/tests/samples/%s.xls" % SAMPLES[i] if not os.environ.get("XLMON_REPO") else os.environ["XLMON_REPO"] + "/tests/samples/%s.xls" % SAMPLES[i], "rb").read()
    else:
        bv = ALL_BV[i % 8]
        b = random_book(rng, bv, names=True) if spec["kind"] == "rand" else make_blanks(rng, bv)
        data = wrap(b.stream(rng), bv)
    od = rng.random() < .3
    snaps = {}
    for fmt, rag in COMBOS:
        r, v = outcome(snap, data, fmt, rag, od)
        if r != "ok": raise Violation("open", "formatting_info=%d ragged_rows=%d: %s: %s" % (fmt, rag, type(v).__name__, v))
        snaps[fmt, rag] = v
    base_bk, base = snaps[0, 0]
    if base_bk.biff_version in (20, 21):
        for v in snaps.values(): v[0].biff_version = 20      # 2.0 / 2.1 is inferred from the records actually read
    books = {k: O.obs_book(v[0], bool(k[0])) for k, v in snaps.items()}
    for k in COMBOS[1:]:
        for n in BOOK_COMMON: mon.equal(books[k][n], books[0, 0][n], "book-" + n, "%s with formatting_info=%d ragged_rows=%d" % ((n,) + k))
    for n in books[1, 0]: mon.equal(books[1, 1][n], books[1, 0][n], "book-" + n, "%s with ragged rows" % n)
    for si in range(len(base)):
        if b is not None: sh = b.worksheets()[si]; sh.grid(1)
        S = {k: v[1][si] for k, v in snaps.items()}
        G = {k: cells(s) for k, s in S.items()}
        obs = {k: O.obs_sheet(s, bool(k[0])) for k, s in S.items()}
        if base_bk.biff_version < 80:      # nearest palette entry: the palette is formatting
            for k in COMBOS: obs[k]["view"].pop("gridline_colour_index")
        for k in COMBOS[1:]:
            for n in SHEET_COMMON: mon.equal(obs[k][n], obs[0, 0][n], "sheet-" + n, "sheet %d, %s with formatting_info=%d ragged_rows=%d" % ((si, n) + k))
        # ragged: same counts, same non-empty cells, rows end at last stored cell
        for fmt in (0, 1):
            a, z = S[fmt, 0], S[fmt, 1]
            mon.equal((z.nrows, z.ncols), (a.nrows, a.ncols), "ragged-size", "sheet %d formatting=%d: size with ragged rows" % (si, fmt))
            ga, la = G[fmt, 0]; gz, lz = G[fmt, 1]
            na = {k: v for k, v in ga.items() if v[0] != EMPTY}; nz = {k: v for k, v in gz.items() if v[0] != EMPTY}
            if not same(na, nz):
                k = next(k for k in sorted(set(na) | set(nz)) if not same(na.get(k), nz.get(k)))
                raise Violation("ragged-cells", "sheet %d formatting=%d: cell %r is %r with ragged rows, %r without" % (si, fmt, k, nz.get(k), na.get(k)))
            last = {}
            for r, c in na: last[r] = max(last.get(r, -1), c)
            for r in range(a.nrows):
                mon.check(la[r] == a.ncols, "padded-length", lambda: "sheet %d formatting=%d: padded row %d has %d cells of %d" % (si, fmt, r, la[r], a.ncols))
                want = last.get(r, -1) + 1
                margin = fmt and r == a.nrows - 1 and want == 0 and lz[r] == 1     # merged range's bottom margin
                if lz[r] != want and not margin:
                    raise Violation("ragged-length", "sheet %d formatting=%d: ragged row %d has %d cells, its last stored cell is in column %d" % (si, fmt, r, lz[r], want - 1))
                if want < a.ncols: mon.count("short_rows")
            if fmt:
                for n in ("rich_text", "merged_cells", "rowinfo", "colinfo", "gcw", "horizontal_page_breaks", "vertical_page_breaks", "widths"):
                    mon.equal(obs[1, 1][n], obs[1, 0][n], "ragged-" + n, "sheet %d: %s with ragged rows" % (si, n))
                xa = {(r, c): x for r in range(a.nrows) for c, x in enumerate(obs[1, 0]["grid"][r][2]) if ga[r, c][0] != EMPTY}
                xz = {(r, c): x for r in range(a.nrows) for c, x in enumerate(obs[1, 1]["grid"][r][2]) if gz[r, c][0] != EMPTY}
                mon.equal(xz, xa, "ragged-xf", "sheet %d: format indexes with ragged rows" % si)
        # formatting: all data cells the same; extra ones are blanks
        g0, g1 = G[0, 0][0], G[1, 0][0]
        d0 = {k: v for k, v in g0.items() if v[0] != EMPTY}; d1 = {k: v for k, v in g1.items() if v[0] not in (EMPTY, BLANK)}
        bl = {k for k, v in g1.items() if v[0] == BLANK}
        over = {k for k in bl if k in d0}     # a later BLANK record overwrites the data cell when it is read
        if not same({k: v for k, v in d0.items() if k not in over}, d1):
            k = next(k for k in sorted(set(d0) | set(d1)) if k not in over and not same(d0.get(k), d1.get(k)))
            raise Violation("formatting-cells", "sheet %d: cell %r is %r with formatting_info, %r without" % (si, k, d1.get(k), d0.get(k)))
        if b is not None:
            sh = b.worksheets()[si]
            wrote = {}
            for o in sh.ops: wrote[o[0], o[1]] = o[2] == BLANK
            for k in over:
                if not wrote.get(k): raise Violation("formatting-cells", "sheet %d: cell %r is blank with formatting_info but %r without" % (si, k, d0[k]))
        elif over: raise Violation("formatting-cells", "sheet %d: cells %r are blank with formatting_info" % (si, sorted(over)[:3]))
        nr = max([r + 1 for r, c in d1] + [r + 1 for r, c in bl] + [m[1] for m in obs[1, 0]["merged_cells"]] + [0])
        nc = max([c + 1 for r, c in d1] + [c + 1 for r, c in bl] + [m[3] for m in obs[1, 0]["merged_cells"]] + [0])
        if True:
            if b is not None: mon.equal((S[1, 0].nrows, S[1, 0].ncols), (nr, nc), "formatting-size", "sheet %d: size with formatting_info" % si)
            n0 = max([r + 1 for r, c in d0] + [0]), max([c + 1 for r, c in d0] + [0])
            mon.equal((S[0, 0].nrows, S[0, 0].ncols), n0, "plain-size", "sheet %d: size without formatting_info" % si)
            if (nr, nc) != n0 and obs[1, 0]["merged_cells"]: mon.count("merged_margin")
        for k, v in obs[0, 0]["rich_text"].items():
            if b is not None and k in sh.multi: continue       # overwritten cell: run lists not judged
            mon.check(obs[1, 0]["rich_text"].get(k) == v, "rich-text", lambda: "run list of %r lost with formatting_info" % (k,))
        if b is not None:
            for fmt, rag in COMBOS:
                e = expect_sheet(b, b.worksheets()[si], fmt, rag, si)
                rows = e["_rows"]
                got = [(t, v) for t, v, x in obs[fmt, rag]["grid"]]
                mon.equal(got, [tuple(x) for x in rows], "reference-grid", "sheet %d formatting=%d ragged=%d" % (si, fmt, rag))
        guard(mon, snaps[0, 0][0], S[0, 0]); guard(mon, snaps[0, 1][0], S[0, 1])
        mon.count("quadruples"); mon.count("data_cells", len(d0)); mon.count("blank_only_fmt", len(bl))
        mon.seen("workbook", (base_bk.biff_version, nr, nc, len(d0), len(bl), len(obs[1, 0]["merged_cells"])))
    mon.sample("BIFF%d, %d sheets" % (base_bk.biff_version, len(base)))
