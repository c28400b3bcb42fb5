"""Whole-workbook judgement: an opened Book against what its builder stored."""
from . import observe as O
from .util import *
from .randbook import expect_sheet
from .runner import Violation, same, short

def judge_sheet(mon, b, sh, s, number, fmt, rag, what, annotations=True, xf=True):
    """cells (all), run lists, merged ranges, row/column records and annotations of one sheet"""
    e = expect_sheet(b, sh, fmt, rag, number)
    o = O.obs_sheet(s, fmt)
    w = "%s sheet %d %r" % (what, number, sh.name[:20])
    for k in ("name", "number", "nrows", "ncols", "visibility", "merged_cells"):
        if not same(o[k], e[k]): raise Violation("sheet:" + k, "%s: %s is %s, stored %s" % (w, k, short(o[k]), short(e[k])))
    for r, (gt, gv, gx) in enumerate(o["grid"]):
        et, ev = e["_rows"][r]
        if gt != et or not same(gv, ev):
            if len(gt) != len(et): raise Violation("row-length", "%s: row %d has %d cells, expected %d" % (w, r, len(gt), len(et)))
            c = next(c for c in range(len(et)) if gt[c] != et[c] or not same(gv[c], ev[c]))
            raise Violation("cell", "%s: cell (%d, %d) is type %r value %s, stored type %r value %s" % (w, r, c, gt[c], short(gv[c]), et[c], short(ev[c])))
        if xf and fmt and b.bv != 20:
            for c, x in enumerate(gx):
                st = e["_grid"].get((r, c))
                if st and x != st[2]: raise Violation("cell-xf", "%s: cell (%d, %d) has XF %r, stored %r" % (w, r, c, x, st[2]))
    n = len(e["_grid"])
    mon.count("cells", n); mon.count("comparisons", n + 6)
    runs = dict((k, v) for k, v in o["rich_text"].items() if k not in sh.multi)
    want = dict((k, [tuple(x) for x in v]) for k, v in e["rich_text"].items())
    if not same(runs, want): raise Violation("runs", "%s: run lists: %s" % (w, O.diff(runs, want)[:3]))
    if fmt:
        for name, rows, got in (("rowinfo", sh.rows, o["rowinfo"]), ("colinfo", sh.cols, o["colinfo"])):
            if set(rows) != set(got): raise Violation(name, "%s: %s keys %s, stored %s" % (w, name, short(sorted(got)), short(sorted(rows))))
            for k, d in rows.items():
                for a, v in d.items():
                    if not same(got[k][a], v): raise Violation(name, "%s: %s[%d].%s is %r, stored %r" % (w, name, k, a, got[k][a], v))
            mon.count("comparisons", len(rows))
    if annotations and getattr(sh, "annot", None): judge_annot(mon, sh, o, fmt, w)
    return o

def judge_annot(mon, sh, o, fmt, w):
    e = sh.annot.expect(fmt)
    for k, v in e.items():
        g = o[k]
        if k == "view":
            v = dict(v); g = dict(g)
            if isinstance(v["gridline_colour_index"], tuple): v.pop("gridline_colour_index"); g.pop("gridline_colour_index")
        if k in ("notes", "view", "defaults", "hyperlink_map"):
            g = dict(g)
        if not same(g, v): raise Violation("annotation:" + k, "%s: %s: %s" % (w, k, "; ".join("%s is %s, stored %s" % x for x in O.diff(g, v)[:4])))
        mon.count("comparisons", max(1, O.size(v)))

def judge_text_book(mon, b, bk, fmt, what):
    """every piece of text at workbook level"""
    e = b.expect_book(fmt); o = O.obs_book(bk, fmt)
    for k in ("nsheets", "sheet_names", "datemode", "countries", "user_name"):
        if not same(o[k], e[k]): raise Violation("book:" + k, "%s: %s is %s, stored %s" % (what, k, short(o[k]), short(e[k])))
    if fmt:
        got = [f["name"] for f in o["fonts"] if f["font_index"] != 4]; want = [f["name"] for f in e["fonts"]]
        if got != want: raise Violation("font-names", "%s: font names %s, stored %s" % (what, short(got), short(want)))
        n = len(e["format_list"])
        got = [x[2] for x in o["format_list"]][-n:] if n else []; want = [s for k, s in e["format_list"]]
        if got != want: raise Violation("format-strings", "%s: format strings %s, stored %s" % (what, short(got), short(want)))
        if not same(o["styles"], e["styles"]): raise Violation("styles", "%s: style names %s, stored %s" % (what, short(o["styles"]), short(e["styles"])))
        mon.count("comparisons", len(e["fonts"]) + n + len(e["styles"]))
    if b.names_exp is not None:
        got = [x.name for x in bk.name_obj_list]; want = [x.text for x in b.names_exp.names]
        if got != want: raise Violation("names", "%s: defined names %s, stored %s" % (what, short(got), short(want)))
    mon.count("comparisons", 5)
    return o

def judge_book(mon, b, bk, fmt, rag, what, annotations=True):
    judge_text_book(mon, b, bk, fmt, what)
    ws = b.worksheets()
    return [judge_sheet(mon, b, sh, bk.sheet_by_index(j), j, fmt, rag, what, annotations) for j, sh in enumerate(ws)]
