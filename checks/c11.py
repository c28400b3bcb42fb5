"""C11 - formatting records decode to exactly the stored attributes."""
from xlmon.randbook import *
from xlmon.runner import Violation, same
from xlmon import fmtrecs as F

ID = "C11"; LEVEL = "exploration"
RULE = "distinct = distinct (version, attribute path, value) triples observed equal to the stored ones, plus distinct (version, source of the effective format) and (version, width rule) situations"
ASSUMPTIONS = ["BIFF2 XF indexes are assigned by the library: the resolved attributes are compared instead of the index",
               "a parent style index outside the XF table and an unknown format key are reported as 0 (existing, tested convention)",
               "book-level formatting of a BIFF4 workbook (4W) is that of its last sheet (documented warning)"]
REQUIRED = {"xfs": 4000, "fonts": 1000, "styles": 200, "palettes": 100, "effective": 3000, "widths": 20000, "rows": 200, "cols": 300, "many_xfs": 60}
CASE_TIMEOUT = 120

def plan(tier, seed):
    return specs_for(tier, seed, rand=(4500, 40000), sweep=(1440, 12000), prec=(2700, 30000), v20=(720, 6000))

XF_FIELDS = {
 80: dict(font_index=(0, 1, 2, 3, 5, 6, 300, 0xFFFF), cell_locked=2, formula_hidden=2, is_style=2, lotus_123_prefix=2, hor_align=8, text_wrapped=2, vert_align=8, rotation=256,
          indent_level=16, shrink_to_fit=2, text_direction=4, used=64, left_line=16, right_line=16, top_line=16, bottom_line=16, diag_line=16, left_col=128, right_col=128, top_col=128,
          bottom_col=128, diag_col=128, diag_down=2, diag_up=2, fill=64, patcol=128, bgcol=128, parent_style_index=(0, 1, 2, 5, 100, 0xFFF), just_last=2),
 50: dict(font_index=(0, 1, 2, 3, 5, 6, 300, 0xFFFF), cell_locked=2, formula_hidden=2, is_style=2, lotus_123_prefix=2, hor_align=8, text_wrapped=2, vert_align=8, orient=4, used=64,
          left_line=8, right_line=8, top_line=8, bottom_line=8, left_col=128, right_col=128, top_col=128, bottom_col=128, fill=64, patcol=128, bgcol=128, parent_style_index=(0, 1, 2, 5, 100, 0xFFF)),
 40: dict(font_index=(0, 1, 2, 3, 5, 6, 255), cell_locked=2, formula_hidden=2, is_style=2, lotus_123_prefix=2, hor_align=8, text_wrapped=2, vert_align=4, orient=4, used=64,
          left_line=8, right_line=8, top_line=8, bottom_line=8, left_col=32, right_col=32, top_col=32, bottom_col=32, fill=64, patcol=32, bgcol=32, parent_style_index=(0, 1, 2, 5, 100, 0xFFF)),
 30: dict(font_index=(0, 1, 2, 3, 5, 6, 255), cell_locked=2, formula_hidden=2, is_style=2, lotus_123_prefix=2, hor_align=8, text_wrapped=2, used=64,
          left_line=8, right_line=8, top_line=8, bottom_line=8, left_col=32, right_col=32, top_col=32, bottom_col=32, fill=64, patcol=32, bgcol=32, parent_style_index=(0, 1, 2, 5, 100, 0xFFF)),
 21: dict(font_index=(0, 1, 2, 3, 255), cell_locked=2, formula_hidden=2, hor_align=8, bits=16, fill=2, unused=256),
}
XF_FIELDS[70] = XF_FIELDS[50]; XF_FIELDS[45] = XF_FIELDS[40]
FONT_FIELDS = {
 80: dict(height=(0, 1, 160, 200, 255, 256, 65535), options=64, colour=(0, 7, 8, 63, 64, 0x7FFF), weight=(0, 100, 400, 700, 1000), esc=3, ul=(0, 1, 2, 0x21, 0x22), family=6, charset=(0, 1, 2, 77, 128, 204, 255)),
 40: dict(height=(0, 1, 160, 200, 255, 256, 65535), options=64, colour=(0, 7, 8, 23, 0x7FFF)), 20: dict(height=(0, 1, 160, 200, 255, 256, 65535), options=16)}

def vals(v): return range(v) if isinstance(v, int) else v

def base_b(rng, bv):
    b = BookB(bv, codepage=None if bv >= 80 else 1252)
    if bv < 50:
        for t in ("General", "0.00", "yyyy-mm-dd"): b.add_format(0, t)
    return b

def compare_book(mon, rng, b, bk, bv, what):
    e = b.expect_book(True)
    o = O.obs_book(bk, True)
    for k in ("biff_version",): 
        if bv in (20, 21): o[k] = e[k] = 2
    # formats: exact for stored ones
    of = {k: (v[1], v[2]) for k, v in o["formats"].items()}
    for k, s in e["formats"].items():
        if k not in of: raise Violation("format-missing", "%s: format %r is not reported" % (what, k))
        t, txt = of[k]
        want = s[1]
        if txt != want: raise Violation("format-text", "%s: format %r text is %r, stored %r" % (what, k, txt, want))
        if (t == 1) != (s[0] == 1): raise Violation("format-type", "%s: format %r (%r) has type %r" % (what, k, txt, t))
    extra = set(of) - set(e["formats"])
    if extra: raise Violation("format-extra", "%s: formats %r were never stored" % (what, sorted(extra)[:5]))
    mon.equal([(k, s) for k, t, s in o["format_list"]][-len(e["format_list"]):] if e["format_list"] else [], e["format_list"], "format-list", what + ": format_list")
    for k, (kk, t, s) in o["formats"].items(): mon.equal(kk, k, "format-key", what + ": format_key of format %r" % k)
    fonts = [f for f in o["fonts"] if f["font_index"] != 4]
    mon.equal(len(fonts), len(e["fonts"]), "font-count", what + ": number of fonts")
    for i, (g, w) in enumerate(zip(fonts, e["fonts"])):
        if not same(g, w): raise Violation("font", "%s: font %d: %s" % (what, i, O.diff(g, w)))
        for k, v in w.items():
            if k not in ("name", "font_index"): mon.seen("attribute", (bv, "font." + k, v))
    for j, f in enumerate(bk.font_list): mon.equal(f.font_index, j, "font-position", what + ": font_list[%d].font_index" % j)
    mon.count("fonts", len(fonts)); mon.count("comparisons", 15 * len(fonts))
    if bv != 20:
        mon.equal(len(o["xfs"]), len(e["xfs"]), "xf-count", what + ": number of XF records")
        for i, (g, w) in enumerate(zip(o["xfs"], e["xfs"])): compare_xf(mon, g, w, bv, what, i)
    mon.equal(o["styles"], e["styles"], "styles", what + ": style_name_map"); mon.count("styles", len(e["styles"]))
    mon.equal(o["palette_record"], e["palette_record"], "palette", what + ": palette_record")
    for k in set(o["colour_map"]) | set(e["colour_map"]):
        mon.equal(o["colour_map"].get(k, "absent"), e["colour_map"].get(k, "absent"), "colour-map", what + ": colour_map[%d]" % k)
    if b.palette is not None: mon.count("palettes")

def compare_xf(mon, g, w, bv, what, i):
    g, w = dict(g), dict(w)
    w["used"] = {k: v for k, v in w["used"].items() if k in g["used"]}     # internal attributes: judged when present
    if "lotus_123_prefix" not in g or "lotus_123_prefix" not in w: g.pop("lotus_123_prefix", None); w.pop("lotus_123_prefix", None)
    if not same(g, w): raise Violation("xf", "%s: XF %d: %s" % (what, i, O.diff(g, w)))
    mon.count("xfs"); mon.count("comparisons", 40)
    for k in ("alignment", "border", "background", "protection", "used"):
        for a, v in w[k].items(): mon.seen("attribute", (bv, k + "." + a, v))
    for k in ("format_key", "font_index", "is_style", "parent_style_index"): mon.seen("attribute", (bv, k, w[k]))

def run(spec, mon):
    rng = rng_for(spec); k = spec["kind"]; i = spec["i"]
    if k == "v20": return run_v20(spec, rng, mon)
    if k == "prec": return run_prec(spec, rng, mon)
    bv = (21, 30, 40, 45, 50, 70, 80, 80)[i % 8]
    if k == "rand":
        b = random_book(rng, bv if i % 9 else 20, density=.2, small=True); bv = b.bv
        if b.palette is not None and rng.random() < .5: b.palette = b.palette[:rng.randint(1, len(b.palette))]
        if b.palette is not None: b.palette_extra = rng.choice([b"", b"", b"\0", b"\0" * 4])
        if bv == 20: b.xfs = []
        else:
            for _ in range(rng.choice([0, 20, 200])): b.add_xf(rng.choice([x for x, _ in b.formats] + ([0, 14, 22, 49, 60, 400] if bv >= 50 else [62])) if b.formats or bv >= 50 else 0, rng=rng)
    else:
        b = base_b(rng, bv)
        fill = rng.choice([0, 0, None])       # other fields zero, or random
        for n in range(7): b.fonts.append(F.font(bv, "Font%d" % n, rng, "cp1252"))
        flds = XF_FIELDS[bv]
        names = sorted(flds)
        pick = [names[(i // 8 + j * 7) % len(names)] for j in range(5)]
        keys = [0, 1, 2] if bv < 50 else [0, 1, 14, 22, 49, 164]
        if bv >= 50: b.add_format(164, "yyyy"); b.add_format(165, "0.000")
        b.add_xf(0)
        for nm in pick:
            for v in vals(flds[nm]):
                kw = {nm: v}
                if nm == "parent_style_index" : kw["is_style"] = 0
                b.add_xf(rng.choice(keys), rng=rng if fill is None else None, **kw)
        ff = FONT_FIELDS[80 if bv >= 50 else 40 if bv >= 30 else 20]
        for nm in rng.sample(sorted(ff), 2):
            for v in vals(ff[nm]): b.fonts.append(F.font(bv, rand_text(rng, b.enc if bv < 80 else None, 10, astral=bv >= 80)[:40] if rng.random() < .3 else "F", rng if fill is None else None, "cp1252", **{nm: v}))
        for _ in range(rng.randint(0, 6)):
            if rng.random() < .6: b.styles.append(F.style(bv, rng.randrange(len(b.xfs)), builtin=rng.randint(0, 9), level=rng.randint(0, 6)))
            else: b.styles.append(F.style(bv, rng.randrange(len(b.xfs)), name="My style %d" % rng.randint(0, 99) if rng.random() < .9 else "", enc="cp1252"))
        if rng.random() < .1 and bv != 45: b.styles.insert(0, (b"\0\0\0\0", "Normal", (1, 0)))
        if rng.random() < .6 and bv >= 30:
            b.palette = [tuple(rng.randint(0, 255) for _ in range(3)) for _ in range(rng.randint(1, 56 if bv >= 50 else 16))]
        for j in range(1 if bv <= 40 else 2):
            sh = b.sheet("S%d" % j); sh.dims = (3, 3); sh.number(0, 0, 1.0, 0)
    bk = open_bytes(wrap(b.stream(rng), bv), formatting_info=True, on_demand=rng.random() < .3)
    bk.sheets()
    compare_book(mon, rng, b, bk, bv, "BIFF%d %s" % (bv, k))
    if k == "rand":
        for j, sh in enumerate(b.worksheets()): compare_sheet(mon, rng, b, sh, bk.sheet_by_index(j), "BIFF%d sheet %d" % (bv, j))
    mon.sample("BIFF%d: %d fonts, %d formats, %d XFs, %d styles%s" % (bv, len(b.fonts), len(b.formats), len(b.xfs), len(b.styles), ", palette" if b.palette else ""))

def effective(sh, g, r, c):
    if (r, c) in g: return g[r, c][2], "cell"
    if r in sh.rows and sh.rows[r]["xf_index"] != -1: return sh.rows[r]["xf_index"], "row"
    if c in sh.cols and sh.cols[c]["xf_index"] != -1: return sh.cols[c]["xf_index"], "column"
    return 15, "default"

def width(b, sh, a, c):
    bv = b.bv
    d = a.defs if a is not None else {"defcolwidth": None, "standardwidth": None}
    gcw = a.gcw[c] if a is not None else 0
    col = sh.cols.get(c)
    if bv >= 80:
        if col is not None: return col["width"], "column"
        if d["standardwidth"] is not None: return d["standardwidth"], "standard"
    elif bv >= 40:
        if gcw:
            if d["standardwidth"] is not None: return d["standardwidth"], "global-standard"
        elif col is not None: return col["width"], "column"
    elif bv == 30 or col is not None and col["has_width"]:
        if col is not None: return col["width"], "column"
    if d["defcolwidth"] is not None: return d["defcolwidth"] * 256, "default-width"
    return 2048, "fallback"

def compare_sheet(mon, rng, b, sh, s, what):
    g, nr, nc, _ = sh.grid(1)
    a = getattr(sh, "annot", None)
    bv = b.bv
    if bv != 20:
        for r in range(nr):
            if nr * nc > 4000 and rng.random() > 4000. / (nr * nc): continue
            for c in range(nc):
                w, src = effective(sh, g, r, c)
                x = s.cell_xf_index(r, c)
                if x != w: raise Violation("effective-" + src, "%s: cell (%d, %d) has format index %r, expected the %s's %r" % (what, r, c, x, src, w))
                mon.count("effective"); mon.seen("effective", (bv, src))
                if rng.random() < .1: mon.equal(s.cell(r, c).xf_index, w, "effective-cell", "%s: cell(%d, %d).xf_index" % (what, r, c))
    got = {r: O.attrs(v, O.ROW) for r, v in s.rowinfo_map.items()}
    mon.equal(sorted(got), sorted(sh.rows), "row-set", what + ": rows with attributes")
    for r, w in sh.rows.items():
        for k, v in w.items():
            if k == "xf_index" and bv == 20: continue
            mon.equal(got[r][k], v, "row-" + k, "%s: row %d %s" % (what, r, k)); mon.seen("attribute", (bv, "row." + k, v))
        mon.count("rows")
    got = {c: O.attrs(v, O.COL) for c, v in s.colinfo_map.items()}
    if True:
        mon.equal(sorted(got), sorted(sh.cols), "col-set", what + ": columns with attributes")
        for c, w in sh.cols.items():
            for k, v in w.items():
                if k == "has_width" or k == "xf_index" and bv == 20: continue
                mon.equal(got[c][k], v, "col-" + k, "%s: column %d %s" % (what, c, k)); mon.seen("attribute", (bv, "col." + k, v))
            mon.count("cols")
    if True:
        for c in range(256):
            w, src = width(b, sh, a, c)
            mon.equal(s.computed_column_width(c), w, "width-" + src, "%s: width of column %d" % (what, c)); mon.count("widths"); mon.seen("width", (bv, src))
    if a is not None:
        for k, v in a.defs.items(): mon.equal(getattr(s, k), v, "default-" + k, "%s: %s" % (what, k))

def col2(rng, sh, xf):
    c1 = rng.choice([0, 1, 2, 3, 5, 250, 255])
    if rng.random() < .5: sh.colwidth(c1, min(255, rng.choice([c1, c1 + 1, c1 + 3, 255])), rng.randint(0, 65535))
    else: sh.columndefault(c1, [xf() for _ in range(min(256 - c1, rng.choice([1, 2, 4, 256])))])

def near(rng, last, new, flip):
    "mostly a variation of the arguments used last in one respect, to tell records apart that differ in one bit"
    if not last or rng.random() < .3: last[:] = [new()]; return dict(last[0])
    kw = dict(last[0])
    for _ in range(rng.choice([0, 1, 1, 1, 2])): flip(kw)
    if rng.random() < .5: last[:] = [dict(kw)]
    return kw

def run_prec(spec, rng, mon):
    from xlmon.annot import Annot
    bv = (30, 40, 45, 50, 70, 80, 21)[spec["i"] % 7]
    nx = rng.choice([257, 2049, 2500, 4095]) if spec["i"] % 13 == 5 and bv > 21 else 30     # 12-bit indexes in style records and of parents
    lastrow, lastcol = [], []
    def newrow():
        return dict(height=rng.choice([255, rng.randint(0, 0x7FFF)]), default_height=rng.randint(0, 1), bits=rng.getrandbits(7) & ~0x88 | rng.getrandbits(2) << 28, xf=rng.choice([None, rng.randrange(nx)]))
    def fliprow(kw):
        k = rng.choice(sorted(kw))
        if k == "height": kw[k] ^= 1 << rng.randrange(15)
        elif k == "default_height": kw[k] ^= 1
        elif k == "bits": kw[k] ^= 1 << rng.choice([0, 1, 2, 4, 5, 6, 28, 29])
        else: kw[k] = rng.choice([None, rng.randrange(nx)])
    def newcol(): return dict(width=rng.choice([2340, rng.randint(0, 65535)]), xf=rng.randrange(nx), flags=rng.getrandbits(2) | rng.randint(0, 7) << 8 | rng.getrandbits(1) << 12)
    def flipcol(kw):
        k = rng.choice(sorted(kw))
        if k == "width": kw[k] ^= 1 << rng.randrange(16)
        elif k == "flags": kw[k] ^= 1 << rng.choice([0, 1, 8, 9, 10, 12])
        else: kw[k] = rng.randrange(nx)
    b = base_b(rng, bv)
    b.fonts.append(F.font(bv, "A", rng))
    for _ in range(nx): b.add_xf(rng.choice([0, 0, 0, 62]), rng=rng)      # 62: not a known format
    if nx > 30:
        mon.count("many_xfs")
        for k in range(rng.randint(1, 20)): b.styles.append(F.style(bv, rng.randrange(nx), name="Style %d" % k, enc="cp1252"))
    for j in range(1 if bv <= 40 else rng.randint(1, 2)):
        sh = b.sheet("P%d" % j); sh.dims = (9, 9)
        a = Annot(sh)
        acts = []
        many = rng.random() < .3
        for _ in range(rng.randint(0, 40 if many else 6)): acts.append("row")
        for _ in range(rng.randint(0, 15 if many else 5)): acts.append("col")
        for _ in range(rng.randint(0, 10)): acts.append("cell")
        for x in ("dcw", "std", "gcw", "drh"):
            if rng.random() < .5: acts.append(x)
        if rng.random() < .7: rng.shuffle(acts)
        for x in acts:
            if x == "row" and bv == 21: kw = near(rng, lastrow, newrow, fliprow); del kw["bits"]; sh.row(rng.randint(0, 60 if many else 6), **kw)
            elif x == "col" and bv == 21: col2(rng, sh, lambda: rng.randrange(nx))
            elif x == "row": sh.row(rng.randint(0, 60 if many else 6), **near(rng, lastrow, newrow, fliprow))
            elif x == "col":
                c1 = rng.choice([0, 1, 2, 3, 5, 250, 255]); c2 = rng.choice([c1, c1 + 1, c1 + 3, 255, 256])
                c2 = max(c1, min(c2, 256))
                kw = near(rng, lastcol, newcol, flipcol)
                sh.colinfo(c1, c2, kw["width"], kw["xf"], kw["flags"])
            elif x == "cell":
                r, c = rng.randint(0, 6), rng.randint(0, 6)
                if rng.random() < .5: sh.number(r, c, 1.0, rng.randrange(nx))
                elif rng.random() < .5: sh.blank(r, c, rng.randrange(nx))
                else: sh.label(r, c, "t", rng.randrange(nx))
            elif x == "dcw": a.defcolwidth(rng.randint(0, 255))
            elif x == "std" and bv >= 40: a.standardwidth(rng.randint(0, 65535))
            elif x == "gcw" and bv >= 40: a.gcw_rec([int(rng.random() < .5) for _ in range(256)])
            elif x == "drh": a.defrowheight(rng.getrandbits(4), rng.randint(0, 0x7FFF))
    bk = open_bytes(wrap(b.stream(rng), bv), formatting_info=True, ragged_rows=False)
    for j, sh in enumerate(b.worksheets()): compare_sheet(mon, rng, b, sh, bk.sheet_by_index(j), "BIFF%d sheet %d" % (bv, j))
    compare_book(mon, rng, b, bk, bv, "BIFF%d precedence" % bv)

def run_v20(spec, rng, mon):
    """BIFF2.0: attributes are in the cell records themselves"""
    b = BookB(20, codepage=1252)
    for t in ("General", "0.00", "d-mmm", "h:mm", "0%"): b.add_format(0, t)
    for n in range(4): b.fonts.append(F.font(20, "F%d" % n, rng, "cp1252"))
    sh = b.sheet("S"); sh.dims = (5, 5)
    D = [F.xf(20, rng.randrange(5), rng=rng) for _ in range(rng.randint(1, 12))]
    put = {}
    for _ in range(rng.randint(1, 40)):
        r, c = rng.randint(0, 8), rng.randint(0, 8)
        x = rng.choice(D); put[r, c] = x
        k = rng.randrange(5)
        if k == 0: sh.number(r, c, 2.5, x.raw)
        elif k == 1: sh.integer(r, c, 7, x.raw)
        elif k == 2: sh.blank(r, c, x.raw)
        elif k == 3: sh.label(r, c, "txt", x.raw)
        else: sh.boolerr(r, c, 1, 0, x.raw)
        if rng.random() < .15: sh.row(rng.randint(0, 8), height=rng.randint(0, 0x7FFF), default_height=rng.randint(0, 1), xf=rng.choice([None, rng.choice(D).raw]))
        if rng.random() < .15: col2(rng, sh, lambda: rng.choice(D).raw)
    bk = open_bytes(b.stream(rng), formatting_info=True)
    s = bk.sheet_by_index(0)
    compare_sheet(mon, rng, b, sh, s, "BIFF2.0")
    byraw = {d.raw: d for d in D}; plain20 = F.xf(20, 0, cell_locked=1)      # the workbook default: locked, General, first font
    want = {(r, c): (d, "cell") for (r, c), d in put.items()}
    for r in range(s.nrows):
        for c in range(s.ncols):
            x, src = effective(sh, put, r, c) if (r, c) not in put else (None, "cell")
            mon.seen("effective", (20, src))
            if src in ("row", "column"): want[r, c] = byraw[x], src
            elif src == "default":
                xi = s.cell_xf_index(r, c)
                if not 0 <= xi < len(bk.xf_list): raise Violation("xf-default", "BIFF2.0 cell (%d, %d) has no format of its own; its format index %r is not in xf_list (%d entries)" % (r, c, xi, len(bk.xf_list)))
                want[r, c] = plain20, src
    for (r, c), (d, src) in want.items():
        xi = s.cell_xf_index(r, c)
        g = O.obs_xf(bk.xf_list[xi]); w = dict(d.exp)
        mon.equal(g["xf_index"], xi, "xf-position", "xf_list[%d].xf_index" % xi)
        for k in ("alignment", "border", "background", "protection", "format_key", "font_index"):
            if not same(g[k], w[k]): raise Violation("xf", "BIFF2.0 cell (%d, %d), format of the %s: %s: %s" % (r, c, src, k, O.diff(g[k], w[k])))
        mon.count("xfs"); mon.count("effective"); mon.count("comparisons", 30)
        for k in ("alignment", "border", "background", "protection"):
            for a, v in w[k].items(): mon.seen("attribute", (20, k + "." + a, v))
    for r in range(s.nrows):
        for c in range(s.ncols):
            mon.equal(s.cell(r, c).xf_index, s.cell_xf_index(r, c), "effective-cell", "cell(%d, %d).xf_index" % (r, c))
    e = b.expect_book(True); fonts = [O.attrs(f, O.FONT) for f in bk.font_list if f.font_index != 4]
    mon.equal(fonts, e["fonts"], "font", "BIFF2.0 fonts"); mon.count("fonts", len(fonts))
