"""Formatting record makers: raw bytes plus the attributes they mean.
Written from the published BIFF layouts, not from xlrd."""
import struct
pack = struct.pack

STD_STRINGS = {
 0: "General", 1: "0", 2: "0.00", 3: "#,##0", 4: "#,##0.00", 5: "$#,##0_);($#,##0)", 6: "$#,##0_);[Red]($#,##0)",
 7: "$#,##0.00_);($#,##0.00)", 8: "$#,##0.00_);[Red]($#,##0.00)", 9: "0%", 10: "0.00%", 11: "0.00E+00",
 12: "# ?/?", 13: "# ??/??", 14: "m/d/yy", 15: "d-mmm-yy", 16: "d-mmm", 17: "mmm-yy", 18: "h:mm AM/PM",
 19: "h:mm:ss AM/PM", 20: "h:mm", 21: "h:mm:ss", 22: "m/d/yy h:mm", 37: "#,##0_);(#,##0)", 38: "#,##0_);[Red](#,##0)",
 39: "#,##0.00_);(#,##0.00)", 40: "#,##0.00_);[Red](#,##0.00)",
 41: "_(* #,##0_);_(* (#,##0);_(* \"-\"_);_(@_)", 42: "_($* #,##0_);_($* (#,##0);_($* \"-\"_);_(@_)",
 43: "_(* #,##0.00_);_(* (#,##0.00);_(* \"-\"??_);_(@_)", 44: "_($* #,##0.00_);_($* (#,##0.00);_($* \"-\"??_);_(@_)",
 45: "mm:ss", 46: "[h]:mm:ss", 47: "mm:ss.0", 48: "##0.0E+0", 49: "@"}

FLAGS = ("format", "font", "alignment", "border", "background", "protection")

class XFDef(object):
    def __init__(self, raw, exp):
        self.raw, self.exp = raw, exp

def _get(kw, rng, name, hi, default=0):
    if name in kw: return kw[name]
    return rng.randint(0, hi) if rng is not None else default

def xf(bv, fmtkey=0, rng=None, **kw):
    """One XF record.  Unspecified fields are random (rng) or zero."""
    g = lambda name, hi, d=0: _get(kw, rng, name, hi, d)
    is_style = g("is_style", 1)
    e = {"format_key": fmtkey, "is_style": is_style}
    al = dict(hor_align=0, vert_align=0, rotation=0, text_wrapped=0, indent_level=0, shrink_to_fit=0, text_direction=0)
    bo = dict(("%s_%s" % (s, k), 0) for s in ("top", "bottom", "left", "right", "diag") for k in ("colour_index", "line_style"))
    bo.update(diag_down=0, diag_up=0)
    bg = dict(fill_pattern=0, background_colour_index=0, pattern_colour_index=0)
    pr = dict(cell_locked=g("cell_locked", 1), formula_hidden=g("formula_hidden", 1))
    used = g("used", 63)
    lotus = g("lotus_123_prefix", 1)
    e["protection"], e["alignment"], e["border"], e["background"] = pr, al, bo, bg
    prot = pr["cell_locked"] | pr["formula_hidden"] << 1
    if bv >= 30: e["lotus_123_prefix"] = lotus
    if bv >= 50:
        font = g("font_index", 0xFFFF if rng and rng.random() < .1 else 12)
        parent = kw.get("parent_style_index")
        if parent is None: parent = 0xFFF if is_style else g("parent", 0xFFF if rng and rng.random() < .05 else 5)
        tp = prot | is_style << 2 | lotus << 3 | parent << 4
        al["hor_align"], al["text_wrapped"], al["vert_align"] = g("hor_align", 7), g("text_wrapped", 1), g("vert_align", 4)
        a1 = al["hor_align"] | al["text_wrapped"] << 3 | al["vert_align"] << 4
    if bv >= 80:
        al["rotation"] = g("rotation", 255)
        al["indent_level"], al["shrink_to_fit"], al["text_direction"] = g("indent_level", 15), g("shrink_to_fit", 1), g("text_direction", 2)
        a2 = al["indent_level"] | al["shrink_to_fit"] << 4 | al["text_direction"] << 6
        a1 |= g("just_last", 1) << 7
        for s in ("left", "right", "top", "bottom"):
            bo[s + "_line_style"] = g(s + "_line", 15); bo[s + "_colour_index"] = g(s + "_col", 127)
        bo["diag_line_style"] = g("diag_line", 15); bo["diag_colour_index"] = g("diag_col", 127)
        bo["diag_down"], bo["diag_up"] = g("diag_down", 1), g("diag_up", 1)
        bg["fill_pattern"], bg["pattern_colour_index"], bg["background_colour_index"] = g("fill", 63), g("patcol", 127), g("bgcol", 127)
        b1 = (bo["left_line_style"] | bo["right_line_style"] << 4 | bo["top_line_style"] << 8 | bo["bottom_line_style"] << 12
              | bo["left_colour_index"] << 16 | bo["right_colour_index"] << 23 | bo["diag_down"] << 30 | bo["diag_up"] << 31)
        b2 = (bo["top_colour_index"] | bo["bottom_colour_index"] << 7 | bo["diag_colour_index"] << 14
              | bo["diag_line_style"] << 21 | bg["fill_pattern"] << 26)
        b3 = bg["pattern_colour_index"] | bg["background_colour_index"] << 7
        raw = pack("<HHHBBBBIIH", font, fmtkey, tp, a1, al["rotation"], a2, used << 2, b1, b2, b3)
    elif bv >= 50:
        o = g("orient", 3); al["rotation"] = (0, 255, 90, 180)[o]
        bg["pattern_colour_index"], bg["background_colour_index"], bg["fill_pattern"] = g("patcol", 127), g("bgcol", 127), g("fill", 63)
        for s in ("left", "right", "top", "bottom"):
            bo[s + "_line_style"] = g(s + "_line", 7); bo[s + "_colour_index"] = g(s + "_col", 127)
        b1 = (bg["pattern_colour_index"] | bg["background_colour_index"] << 7 | bg["fill_pattern"] << 16
              | bo["bottom_line_style"] << 22 | bo["bottom_colour_index"] << 25)
        b2 = (bo["top_line_style"] | bo["left_line_style"] << 3 | bo["right_line_style"] << 6 | bo["top_colour_index"] << 9
              | bo["left_colour_index"] << 16 | bo["right_colour_index"] << 23)
        raw = pack("<HHHBBII", font, fmtkey, tp, a1, o | used << 2, b1, b2)
    elif bv >= 30:
        font = g("font_index", 255 if rng and rng.random() < .1 else 12)
        parent = kw.get("parent_style_index")
        if parent is None: parent = 0xFFF if is_style else g("parent", 0xFFF if rng and rng.random() < .05 else 5)
        al["hor_align"], al["text_wrapped"] = g("hor_align", 7), g("text_wrapped", 1)
        bg["fill_pattern"], bg["pattern_colour_index"], bg["background_colour_index"] = g("fill", 63), g("patcol", 31), g("bgcol", 31)
        bk = bg["fill_pattern"] | bg["pattern_colour_index"] << 6 | bg["background_colour_index"] << 11
        b = 0
        for i, s in enumerate(("top", "left", "bottom", "right")):
            bo[s + "_line_style"] = g(s + "_line", 7); bo[s + "_colour_index"] = g(s + "_col", 31)
            b |= bo[s + "_line_style"] << (8 * i) | bo[s + "_colour_index"] << (8 * i + 3)
        tp = prot | is_style << 2 | lotus << 3
        if bv >= 40:
            al["vert_align"] = g("vert_align", 3); o = g("orient", 3); al["rotation"] = (0, 255, 90, 180)[o]
            raw = pack("<BBHBBHI", font, fmtkey, tp | parent << 4,
                       al["hor_align"] | al["text_wrapped"] << 3 | al["vert_align"] << 4 | o << 6, used << 2, bk, b)
        else:
            al["vert_align"] = 2
            raw = pack("<BBBBHHI", font, fmtkey, tp, used << 2, al["hor_align"] | al["text_wrapped"] << 3 | parent << 4, bk, b)
    else:
        e["is_style"] = 0; is_style = 0
        font = g("font_index", 3)
        h = g("hor_align", 7); al["hor_align"] = h; al["vert_align"] = 2
        bits = g("bits", 15); fill = g("fill", 1)
        if bv == 20: bits, fill = g("bits", 15), g("fill", 1)
        for i, s in enumerate(("left", "right", "top", "bottom")):
            on = bits >> i & 1
            bo[s + "_line_style"] = 1 if on else 0; bo[s + "_colour_index"] = 8 if on else 0
        bg.update(fill_pattern=17 if fill else 0, background_colour_index=9, pattern_colour_index=8)
        he = h | bits << 3 | fill << 7
        used = 63; parent = 0
        if bv == 21:
            raw = pack("<BBBB", font, g("unused", 255), (fmtkey & 63) | prot << 6, he)
        else:
            raw = pack("<BBB", prot << 6, (fmtkey & 63) | font << 6, he)
            parent = 0xFFF
    e["font_index"], e["parent_style_index"] = font, parent
    e["used"] = {f: used >> i & 1 for i, f in enumerate(FLAGS)}
    return XFDef(raw, e)

def font(bv, name, rng=None, enc="latin-1", **kw):
    """(raw FONT payload, expected attributes, EFONT colour or None)"""
    g = lambda n, hi, d=0: _get(kw, rng, n, hi, d)
    h = g("height", 0xFFFF, 200)
    opt = g("options", 0x3F if bv >= 30 else 0xF)
    e = dict(height=h, bold=opt & 1, italic=opt >> 1 & 1, underlined=opt >> 2 & 1, struck_out=opt >> 3 & 1,
             outline=0, shadow=0, name=name, escapement=0, family=0, character_set=1)
    e["underline_type"] = e["underlined"]
    e["weight"] = 700 if e["bold"] else 400
    efont = None
    if bv >= 30: e["outline"], e["shadow"] = opt >> 4 & 1, opt >> 5 & 1
    if bv >= 50:
        from .build import ustr, bstr
        e["colour_index"], e["weight"], e["escapement"] = g("colour", 0x7FFF), g("weight", 1000, 400), g("esc", 2)
        e["underline_type"], e["family"], e["character_set"] = g("ul", 0x22), g("family", 5), g("charset", 255)
        raw = pack("<HHHHHBBBB", h, opt, e["colour_index"], e["weight"], e["escapement"], e["underline_type"], e["family"],
                   e["character_set"], 0) + (ustr(name, 1) if bv >= 80 else bstr(name, enc, 1))
    elif bv >= 30:
        from .build import bstr
        e["colour_index"] = g("colour", 0x7FFF)
        raw = pack("<HHH", h, opt, e["colour_index"]) + bstr(name, enc, 1)
    else:
        from .build import bstr
        e["colour_index"] = 0x7FFF
        raw = pack("<HH", h, opt) + bstr(name, enc, 1)
        if kw.get("efont") is not None: efont = kw["efont"]
        elif rng is not None and rng.random() < .5: efont = rng.randint(0, 0x7FFF)
    return raw, e, efont

def style(bv, xfx, name=None, builtin=None, level=0, enc="latin-1"):
    """(raw STYLE payload, style name, (built_in, xf_index))"""
    from .build import ustr, bstr, STYLE_NAMES
    if builtin is not None:
        nm = STYLE_NAMES[builtin] + (str(level + 1) if builtin in (1, 2) else "")
        return pack("<HBB", xfx | 0x8000, builtin, level), nm, (1, xfx)
    s = ustr(name, 2) if bv >= 80 else bstr(name, enc, 1)
    return pack("<H", xfx) + s, name, (0, xfx)
