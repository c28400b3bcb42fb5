"""Canonical observation of an xlrd Book through its documented public API."""
from .runner import same, short, Violation

FONT = "height bold italic underlined struck_out outline shadow colour_index weight escapement underline_type family character_set name font_index".split()
AL = "hor_align vert_align rotation text_wrapped indent_level shrink_to_fit text_direction".split()
BO = ["%s_%s" % (s, k) for s in ("top", "bottom", "left", "right", "diag") for k in ("colour_index", "line_style")] + ["diag_down", "diag_up"]
BG = "fill_pattern background_colour_index pattern_colour_index".split()
PR = "cell_locked formula_hidden".split()
FLAGS = "format font alignment border background protection".split()
ROW = "height has_default_height outline_level outline_group_starts_ends hidden height_mismatch has_default_xf_index xf_index additional_space_above additional_space_below".split()
COL = "width xf_index hidden bit1_flag outline_level collapsed".split()
NOTE = "author col_hidden colx rich_text_runlist row_hidden rowx show text".split()
LINK = "frowx lrowx fcolx lcolx type url_or_path desc target textmark quicktip".split()
VIEW = ("show_formulas show_grid_lines show_sheet_headers panes_are_frozen show_zero_values automatic_grid_line_colour "
        "columns_from_right_to_left show_outline_symbols remove_splits_if_pane_freeze_is_removed sheet_selected sheet_visible "
        "show_in_page_break_preview first_visible_rowx first_visible_colx gridline_colour_index gridline_colour_rgb "
        "cooked_page_break_preview_mag_factor cooked_normal_view_mag_factor cached_page_break_preview_mag_factor "
        "cached_normal_view_mag_factor scl_mag_factor vert_split_pos horz_split_pos horz_split_first_visible "
        "vert_split_first_visible split_active_pane has_pane_record").split()
DEFS = ("defcolwidth standardwidth default_row_height default_row_height_mismatch default_row_hidden "
        "default_additional_space_above default_additional_space_below").split()
NAME = "name hidden func vbasic macro complex builtin funcgroup binary name_index scope raw_formula".split()

def attrs(o, names):
    return dict((n, getattr(o, n)) for n in names)

def obs_xf(x):
    d = {"format_key": x.format_key, "font_index": x.font_index, "is_style": x.is_style,
         "parent_style_index": x.parent_style_index, "xf_index": x.xf_index,
         "alignment": attrs(x.alignment, AL), "border": attrs(x.border, BO),
         "background": attrs(x.background, BG), "protection": attrs(x.protection, PR)}
    used = {}
    for f in FLAGS:
        v = getattr(x, "_%s_flag" % f, None)
        if v is not None: used[f] = v
    d["used"] = used
    if hasattr(x, "lotus_123_prefix"): d["lotus_123_prefix"] = x.lotus_123_prefix
    return d

def obs_operand(o):
    if o is None: return None
    v = o.value
    if isinstance(v, list):
        v = [tuple(r.coords) if hasattr(r, "coords") else r for r in v]
    return (o.kind, v, o.text)

def obs_name(n):
    d = attrs(n, NAME)
    d["result"] = obs_operand(n.result) if getattr(n, "result", None) is not None else None
    return d

def obs_book(b, fmt):
    d = {"biff_version": b.biff_version, "nsheets": b.nsheets, "sheet_names": list(b.sheet_names()),
         "datemode": b.datemode, "codepage": b.codepage, "encoding": b.encoding, "countries": tuple(b.countries),
         "user_name": b.user_name}
    d["names"] = [obs_name(n) for n in b.name_obj_list]
    d["name_map"] = dict((k, [n.name_index for n in v]) for k, v in b.name_map.items())
    d["name_and_scope_map"] = dict((k, n.name_index) for k, n in b.name_and_scope_map.items())
    d["formats"] = dict((k, (f.format_key, f.type, f.format_str)) for k, f in b.format_map.items())
    d["format_list"] = [(f.format_key, f.type, f.format_str) for f in b.format_list]
    if fmt:
        d["fonts"] = [attrs(f, FONT) for f in b.font_list]
        d["styles"] = dict((k, tuple(v)) for k, v in b.style_name_map.items())
        d["palette_record"] = [tuple(c) for c in b.palette_record]
        d["colour_map"] = dict((k, None if v is None else tuple(v)) for k, v in b.colour_map.items())
        d["xfs"] = [obs_xf(x) for x in b.xf_list]
    return d

def obs_grid(s, fmt):
    rows = []
    for r in range(s.nrows):
        t = list(s.row_types(r)); v = list(s.row_values(r))
        x = [s.cell_xf_index(r, c) for c in range(len(t))] if fmt else None
        rows.append((t, v, x))
    return rows

def obs_sheet(s, fmt):
    d = {"name": s.name, "number": s.number, "nrows": s.nrows, "ncols": s.ncols, "visibility": s.visibility}
    d["grid"] = obs_grid(s, fmt)
    d["rich_text"] = dict((k, [tuple(x) for x in v]) for k, v in s.rich_text_runlist_map.items())
    d["merged_cells"] = [tuple(x) for x in s.merged_cells]
    d["col_label_ranges"] = [tuple(x) for x in s.col_label_ranges]
    d["row_label_ranges"] = [tuple(x) for x in s.row_label_ranges]
    d["horizontal_page_breaks"] = [tuple(x) for x in s.horizontal_page_breaks]
    d["vertical_page_breaks"] = [tuple(x) for x in s.vertical_page_breaks]
    d["gcw"] = tuple(s.gcw)
    d["view"] = attrs(s, VIEW)
    d["defaults"] = attrs(s, DEFS)
    d["rowinfo"] = dict((k, attrs(v, ROW)) for k, v in s.rowinfo_map.items())
    d["colinfo"] = dict((k, attrs(v, COL)) for k, v in s.colinfo_map.items())
    d["notes"] = dict((k, attrs(v, NOTE)) for k, v in s.cell_note_map.items())
    links = list(s.hyperlink_list)
    ids = dict((id(h), i) for i, h in enumerate(links))
    d["hyperlinks"] = [attrs(h, LINK) for h in links]
    d["hyperlink_map"] = dict((k, ids.get(id(h), "not-in-list")) for k, h in s.hyperlink_map.items())
    if fmt:
        d["widths"] = [s.computed_column_width(c) for c in range(256)]
    return d

def observe(b, fmt=None, sheets=None):
    if fmt is None: fmt = bool(b.formatting_info)
    d = {"sheets": [obs_sheet(b.sheet_by_index(i), fmt) for i in (range(b.nsheets) if sheets is None else sheets)]}
    d["book"] = obs_book(b, fmt)
    return d

def diff(a, b, path="", out=None, limit=8):
    """paths where two observations differ (a = got, b = expected)"""
    if out is None: out = []
    if len(out) >= limit: return out
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=repr):
            if k not in a: out.append((path + "/" + str(k), "missing", short(b[k], 120)))
            elif k not in b: out.append((path + "/" + str(k), short(a[k], 120), "unexpected"))
            elif not same(a[k], b[k]): diff(a[k], b[k], path + "/" + str(k), out, limit)
            if len(out) >= limit: break
    elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and type(a) == type(b) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y): diff(x, y, path + "/" + str(i), out, limit)
            if len(out) >= limit: break
    elif not same(a, b):
        out.append((path, short(a, 160), short(b, 160)))
    return out

def size(x):
    """number of scalar observations in a nested value"""
    if isinstance(x, dict): return sum(size(v) for v in x.values())
    if isinstance(x, (list, tuple)): return sum(size(v) for v in x)
    return 1

def compare(mon, got, want, key, ctx=""):
    """whole-observation equality"""
    mon.count("comparisons", size(want))
    if not same(got, want):
        d = diff(got, want)
        raise Violation(key, "%s: %d+ differences: %s" % (ctx, len(d), "; ".join("%s got %s want %s" % x for x in d)))

def subset(mon, got, want, key, ctx=""):
    """every key of `want` (dict) must be present and equal in `got`; nested dicts exact"""
    mon.count("comparisons", size(want))
    out = []
    for k, v in want.items():
        if k not in got: out.append(("/" + str(k), "missing", short(v, 100)))
        elif not same(got[k], v): diff(got[k], v, "/" + str(k), out)
        if len(out) > 8: break
    if out:
        raise Violation(key + ":" + out[0][0].split("/")[1] if len(out[0][0].split("/")) > 1 else key,
                        "%s: %s" % (ctx, "; ".join("%s got %s want %s" % x for x in out)))
