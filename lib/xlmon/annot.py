"""Sheet annotation and view records with their expected observations."""
import struct
from .build import *
pack = struct.pack

VIEW_OPT = ("show_formulas show_grid_lines show_sheet_headers panes_are_frozen show_zero_values automatic_grid_line_colour "
            "columns_from_right_to_left show_outline_symbols remove_splits_if_pane_freeze_is_removed sheet_selected sheet_visible "
            "show_in_page_break_preview").split()

def default_view():
    d = dict(zip(VIEW_OPT, (0, 1, 1, 0, 1, 1, 0, 1, 0, 0, 0, 0)))
    d.update(first_visible_rowx=0, first_visible_colx=0, gridline_colour_index=0x40, gridline_colour_rgb=None,
             cached_page_break_preview_mag_factor=0, cached_normal_view_mag_factor=0, scl_mag_factor=None,
             vert_split_pos=0, horz_split_pos=0, horz_split_first_visible=0, vert_split_first_visible=0,
             split_active_pane=0, has_pane_record=0)
    return d

def default_defs():
    return dict(defcolwidth=None, standardwidth=None, default_row_height=None, default_row_height_mismatch=0,
                default_row_hidden=0, default_additional_space_above=0, default_additional_space_below=0)

class Annot(object):
    """Attach to a SheetB; collects expectations."""
    def __init__(self, sh):
        self.sh = sh; self.bv = sh.b.bv
        self.view = default_view()
        self.defs = default_defs()
        self.notes = {}
        self.links = []
        self.linkmap = {}
        self.col_labels, self.row_labels = [], []
        self.hbreaks, self.vbreaks = [], []
        self.gcw = (0,) * 256
        self.objid = 0; self.midpairs = 0
        sh.annot = self

    # ---- view
    def window2(self, options, row=0, col=0, colour=0x40, rgb=(0, 0, 0), pbp=0, normal=0, short=False, tail=b"\0\0\0\0"):
        bv = self.bv
        v = self.view
        v["first_visible_rowx"], v["first_visible_colx"] = row, col
        if bv >= 80:
            for i, n in enumerate(VIEW_OPT): v[n] = options >> i & 1
            self.sh.raw(rec(0x23E, pack("<HHHHHHH", options, row, col, colour, 0, pbp, normal) + tail))
            v["gridline_colour_index"] = colour
            v["cached_page_break_preview_mag_factor"], v["cached_normal_view_mag_factor"] = pbp, normal
        elif bv >= 30:
            for i, n in enumerate(VIEW_OPT): v[n] = options >> i & 1
            self.sh.raw(rec(0x23E, pack("<HHH", options, row, col) + bytes(rgb) + b"\0"))
            v["gridline_colour_rgb"] = tuple(rgb); v["gridline_colour_index"] = ("nearest", tuple(rgb))
        else:
            auto = options >> 5 & 1
            for i in range(5): v[VIEW_OPT[i]] = options >> i & 1
            v["automatic_grid_line_colour"] = auto
            self.sh.raw(rec(0x3E, bytes(options >> i & 1 for i in range(5)) + pack("<HHB", row, col, auto) + bytes(rgb) + b"\0"))
            v["gridline_colour_rgb"] = tuple(rgb); v["gridline_colour_index"] = ("nearest", tuple(rgb))

    def scl(self, num, den):
        self.sh.raw(rec(0xA0, pack("<HH", num, den)))
        r = num * 100 // den if den else 0
        self.view["scl_mag_factor"] = r if 10 <= r <= 400 else 100

    def pane(self, x, y, top, left, active, pad=b"\0"):
        self.sh.raw(rec(0x41, pack("<HHHHB", x, y, top, left, active) + pad))
        self.view.update(vert_split_pos=x, horz_split_pos=y, horz_split_first_visible=top, vert_split_first_visible=left,
                         split_active_pane=active, has_pane_record=1)

    def expected_view(self):
        v = dict(self.view)
        scl = v["scl_mag_factor"]
        active = 100 if scl is None else scl
        if v["show_in_page_break_preview"]:
            z = v["cached_normal_view_mag_factor"]
            v["cooked_page_break_preview_mag_factor"] = active
            v["cooked_normal_view_mag_factor"] = z if 10 <= z <= 400 else active
        else:
            z = v["cached_page_break_preview_mag_factor"]
            v["cooked_normal_view_mag_factor"] = active
            v["cooked_page_break_preview_mag_factor"] = 60 if z == 0 else z if 10 <= z <= 400 else active
        return v

    # ---- defaults
    def defcolwidth(self, w):
        self.sh.raw(rec(0x55, pack("<H", w))); self.defs["defcolwidth"] = w
    def standardwidth(self, w):
        self.sh.raw(rec(0x99, pack("<H", w))); self.defs["standardwidth"] = w
    def defrowheight(self, bits, h):
        self.sh.raw(rec(0x225, pack("<HH", bits, h)))
        self.defs.update(default_row_height=h, default_row_height_mismatch=bits & 1, default_row_hidden=bits >> 1 & 1,
                         default_additional_space_above=bits >> 2 & 1, default_additional_space_below=bits >> 3 & 1)
    def gcw_rec(self, bits):
        """bits: 256 ints"""
        words = [sum(bits[32 * i + j] << j for j in range(32)) for i in range(8)]
        self.sh.raw(rec(0xAB, b"\x20\0" + pack("<8I", *words))); self.gcw = tuple(bits)
    def pagebreaks(self, horizontal, items):
        if self.bv >= 80:
            d = b"".join(pack("<HHH", *x) for x in items); exp = [tuple(x) for x in items]
        else:
            d = b"".join(pack("<H", x[0]) for x in items)
            exp = [(x[0], 0, 255 if horizontal else 65535) for x in items]
        self.sh.raw(rec(0x1B if horizontal else 0x1A, pack("<H", len(items)) + d))
        (self.hbreaks if horizontal else self.vbreaks).extend(exp)
    def labelranges(self, rows, cols):
        def enc(l): return pack("<H", len(l)) + b"".join(pack("<HHHH", a, b - 1, c, d - 1) for a, b, c, d in l)
        self.sh.raw(rec(0x15F, enc(rows) + enc(cols)))
        self.row_labels.extend(rows); self.col_labels.extend(cols)

    # ---- notes
    def note(self, r, c, text, author="", runs=(), flags=0, objid=None, rng=None, pad=True, split=None, midpair=False, between=b""):
        """BIFF8: returns the NOTE record (to be emitted later); BIFF<8 emits it"""
        e = dict(rowx=r, colx=c, text=text, author="", show=0, row_hidden=0, col_hidden=0, rich_text_runlist=[(0, 0)])
        if self.bv < 80:
            b = text.encode(self.sh.b.enc)
            m = split or 2048
            chunks = [b[i:i + m] for i in range(0, len(b), m)] or [b""]
            out = rec(0x1C, pack("<HHH", r, c, len(b)) + chunks[0])
            for ch in chunks[1:]: out += rec(0x1C, pack("<HHH", 0xFFFF, 0, len(ch)) + ch)
            self.sh.raw(out)
            self.notes[r, c] = e
            return b""
        if objid is None:
            self.objid += 1; objid = self.objid
        e.update(author=author, show=flags >> 1 & 1, row_hidden=flags >> 7 & 1, col_hidden=flags >> 8 & 1)
        n = u16len(text)
        obj = rec(0x5D, pack("<HHHHH12x", 0x15, 18, 0x19, objid, 0x4011) + pack("<HH22x", 0x0D, 22) + pack("<HH", 0, 0))
        rl = [tuple(x) for x in runs]
        stored = rl + ([(n, 0)] if n else [])
        k = len(rl)
        while k and rl[k - 1][0] == n: k -= 1
        e["rich_text_runlist"] = rl[:k]
        txo = rec(0x1B6, pack("<HHHHHHHHH", 0x212, 0, 0, 0, 0, n, 8 * len(stored), 0, 0))
        units = text.encode("utf-16le")
        i = 0
        while i < n:
            t = min(n - i, rng.randint(1, max(1, n - i)) if (rng is not None and split) else 4000)
            if 0xD8 <= units[2 * (i + t) - 1] <= 0xDB and i + t < n:
                if midpair: self.midpairs += 1
                else: t += 1
            seg = units[2 * i:2 * (i + t)]
            if any(seg[1::2]) or (rng is not None and rng.random() < .2): txo += rec(0x3C, b"\x01" + seg)
            else: txo += rec(0x3C, b"\0" + seg[::2])
            i += t
        j = 0
        while j < len(stored):
            t = rng.randint(1, len(stored) - j) if (rng is not None and split) else len(stored) - j
            txo += rec(0x3C, b"".join(pack("<HHI", a, b, 0) for a, b in stored[j:j + t])); j += t
        self.sh.raw(rec(0xEC, b"\x0f\0\x02\xf0\0\0\0\0") + obj)
        self.sh.raw(between + txo)
        self.notes[r, c] = e
        return rec(0x1C, pack("<HHHH", r, c, flags, objid) + ustr(author, 2) + (b"\0" if pad else b""))

    # ---- hyperlinks
    GUID = b"\xD0\xC9\xEA\x79\xF9\xBA\xCE\x11\x8C\x82\x00\xAA\x00\x4B\xA9\x0B"
    URLM = b"\xE0\xC9\xEA\x79\xF9\xBA\xCE\x11\x8C\x82\x00\xAA\x00\x4B\xA9\x0B"
    FILEM = b"\x03\x03\x00\x00\x00\x00\x00\x00\xC0\x00\x00\x00\x00\x00\x00\x46"

    def hlink(self, rng4, kind, url=None, desc=None, target=None, textmark=None, quicktip=None, extra24=False, uplevels=0,
              shortpath=b"", descbit=0x14, trailing=b"", moniker=None):
        r1, r2, c1, c2 = rng4
        def nz(s): return pack("<I", u16len(s) + 1) + s.encode("utf-16le") + b"\0\0"
        opt = 0; d = b""
        if desc is not None: opt |= descbit; d += nz(desc)
        if target is not None: opt |= 0x80; d += nz(target)
        path = None
        if kind == "url":
            opt |= 3
            u = url.encode("utf-16le") + b"\0\0"
            ex = b"\x79\x58\x81\xF4\x3B\x1D\x7F\x48\xAF\x2C\x82\x5D\xC4\x85\x27\x63\0\0\0\0\xA5\xAB\0\0" if extra24 else b""
            d += self.URLM + pack("<I", len(u) + len(ex)) + u + ex
            path = url
        elif kind == "local file":
            opt |= 1 | (2 if uplevels == 0 and rng4[0] % 2 else 0)
            d += self.FILEM + pack("<HI", uplevels, len(shortpath) + 1) + shortpath + b"\0" + b"\xFF\xFF\xAD\xDE" + b"\0" * 20
            if url is not None:
                x = url.encode("utf-16le")
                d += pack("<IIH", len(x) + 6, len(x), 3) + x
                path = url
            else:
                d += pack("<I", 0)
                path = b"..\\" * uplevels + shortpath
        elif kind == "unc":
            opt |= 0x103; d += nz(url); path = url
        elif kind == "workbook":
            assert textmark is not None
        if kind == "unknown" and url is not None: # a moniker saved as a string, but not an absolute one
            opt |= 0x101; d += nz(url); path = url
        if kind == "unknown" and moniker is not None: # a moniker of another class, with data of its own
            opt |= 1; d += moniker
        if textmark is not None:
            opt |= 8; d += nz(textmark)
            if moniker is not None: textmark = None # can't be found
        if kind == "unknown":
            assert opt & 0x16B != 8
        h = rec(0x1B8, pack("<HHHH", r1, r2, c1, c2) + self.GUID + b"\x02\0\0\0" + pack("<I", opt) + d + trailing)
        if quicktip is not None:
            h += rec(0x800, pack("<HHHHH", 0x800, r1, r2, c1, c2) + quicktip.encode("utf-16le") + b"\0\0")
        self.sh.raw(h)
        i = len(self.links)
        self.links.append(dict(frowx=r1, lrowx=r2, fcolx=c1, lcolx=c2, type=kind, url_or_path=path, desc=desc, target=target,
                               textmark=textmark, quicktip=quicktip))
        for r in range(r1, r2 + 1):
            for c in range(c1, c2 + 1): self.linkmap[r, c] = i

    # ---- expectation in observe.obs_sheet terms
    def expect(self, fmt):
        return {"view": self.expected_view(), "defaults": dict(self.defs), "notes": self.notes, "hyperlinks": self.links,
                "hyperlink_map": self.linkmap, "col_label_ranges": self.col_labels, "row_label_ranges": self.row_labels,
                "horizontal_page_breaks": self.hbreaks if fmt else [], "vertical_page_breaks": self.vbreaks if fmt else [],
                "gcw": self.gcw if fmt else (0,) * 256}


def random_annot(sh, rng, text, level=1.0):
    """Random annotations; `text(maxlen)` makes encodable text.  Emits into sh.items."""
    a = Annot(sh)
    bv = a.bv
    p = lambda x: rng.random() < x * level
    rr = lambda: (lambda x, y: (min(x, y), max(x, y)))(rng.randint(0, 40), rng.randint(0, 40))
    def rangelist():
        out = []
        for _ in range(rng.randint(0, 3)):
            (r1, r2), (c1, c2) = rr(), rr()
            out.append((r1, r2 + 1, c1, c2 + 1))
        return out
    if p(.6):
        a.window2(rng.getrandbits(12), rng.randint(0, 60), rng.randint(0, 255), rng.choice([0x40, 8, 63, rng.randint(0, 100)]),
                  rng.choice(PAL8[:8] + [tuple(rng.randint(0, 255) for _ in range(3))]),
                  rng.choice([0, 0, 60, 10, 400, 9, 401, 75, 65535]), rng.choice([0, 100, 10, 400, 9, 401, 33]),
                  tail=rng.choice([b"\0\0\0\0", b"", b"\0\0"]))
    if bv >= 40 and p(.4): a.scl(*rng.choice([(1, 1), (3, 4), (1, 10), (4, 1), (1, 11), (401, 100), (7, 3), (1, 0), (99, 1000), (rng.randint(1, 400), 100)]))
    if p(.4): a.pane(rng.randint(0, 5000), rng.randint(0, 5000), rng.randint(0, 100), rng.randint(0, 255), rng.randint(0, 3), rng.choice([b"\0", b""]))
    if p(.4): a.defcolwidth(rng.randint(0, 255) if p(.9) else rng.choice([256, 300, 65535]))
    if bv >= 40 and p(.3): a.standardwidth(rng.randint(0, 20000) if p(.9) else rng.choice([32768, 65280, 65535]))
    if bv >= 30 and p(.4): a.defrowheight(rng.getrandbits(4), rng.randint(0, 8000))
    if 40 <= bv and p(.4): a.gcw_rec([int(rng.random() < .3) for _ in range(256)])
    if bv >= 20 and p(.4):
        for hz in (True, False):
            if rng.random() < .7:
                a.pagebreaks(hz, [(rng.randint(1, 200), rng.randint(0, 5), rng.randint(6, 255)) for _ in range(rng.randint(0, 4))])
    if bv >= 80 and p(.3): a.labelranges(rangelist(), rangelist())
    late = []
    if p(.6):
        for _ in range(rng.randint(1, 4)):
            t = text(rng.choice([5, 30, 200]))
            n = u16len(t)
            runs = sorted(set((rng.randint(0, n), rng.randint(0, 9)) for _ in range(rng.randint(0, 3)))) if n else []
            big = rng.random() < .1
            if big: t = (t or "q") * (5000 // max(1, len(t)))
            late.append(a.note(rng.randint(0, 300), rng.randint(0, 255), t, text(12), runs, rng.choice([0, 2, 0x80, 0x100, 0x182]),
                               rng=rng, pad=rng.random() < .8, split=rng.choice([None, 7 if not big else 2048, 2048]) if bv < 80 else rng.random() < .5))
    if bv >= 80 and p(.6):
        for _ in range(rng.randint(1, 4)):
            kind = rng.choice(["url", "url", "local file", "unc", "workbook", "unknown"])
            (r1, r2), (c1, c2) = rr(), rr()
            r2 = min(r2, r1 + 4); c2 = min(c2, c1 + 4)
            z = lambda: text(15).replace("\0", "")
            kw = dict(desc=z() if rng.random() < .6 else None, target=z() if rng.random() < .2 else None,
                      textmark=z() if kind == "workbook" or (kind != "unknown" and rng.random() < .3) else None,
                      quicktip=z() if rng.random() < .3 else None, descbit=rng.choice([0x14, 0x14, 0x10]))
            if kind == "url": kw.update(url="http://" + z(), extra24=rng.random() < .5)
            elif kind == "unc": kw.update(url="\\\\srv\\" + z())
            elif kind == "local file":
                kw.update(uplevels=rng.choice([0, 1, 2, 3, rng.randint(0, 30)]), shortpath=bytes(rng.choice(b"ABCdef~1.xls \\\xe9") for _ in range(rng.randint(0, 12))),
                          url="dir\\" + z() if rng.random() < .6 else None)
            elif kind == "unknown": kw.update(unknown_link(rng, z))
            a.hlink((r1, r2, c1, c2), kind, **kw)
    for n in late:
        if n: sh.raw(n)
    return a

def unknown_link(rng, z):
    """a link of a kind that isn't one of the named ones: without a moniker, with one saved as a string, with one of a foreign class"""
    q = rng.random(); mark = z() if rng.random() < .6 else None
    if q < .35: return dict(url="rel\\" + z(), textmark=mark)
    if q < .7:
        return dict(moniker=b"\x05\x03\0\0\0\0\0\0\xC0\0\0\0\0\0\0\x46" + pack("<I", rng.choice([1, 2, 0, 0x7FFFFFFF])) + bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 4, 11, 40]))), textmark=mark)
    return {}
