"""BIFF record-stream builder with a reference expectation for everything it
writes.  Independent of xlrd: written from the BIFF record layouts.

BookB(bv)  -> add fonts/formats/xfs/sheets..., then
   .stream(rng)        BIFF record stream (bytes)
   .expect(fmt, ragged) canonical observation the library must report
"""
import struct
pack = struct.pack

EMPTY, TEXT, NUMBER, DATE, BOOL, ERROR, BLANK = range(7)
ALL_BV = (20, 21, 30, 40, 45, 50, 70, 80)

BUILTIN_TYPE = {}
for _lo, _hi, _t in ((0, 0, 3), (1, 13, 2), (14, 22, 1), (27, 36, 1), (37, 44, 2), (45, 47, 1),
                     (48, 48, 2), (49, 49, 4), (50, 58, 1), (59, 62, 2), (67, 70, 2), (71, 81, 1)):
    for _k in range(_lo, _hi + 1): BUILTIN_TYPE[_k] = _t

PAL8 = [(0,0,0),(255,255,255),(255,0,0),(0,255,0),(0,0,255),(255,255,0),(255,0,255),(0,255,255),
(128,0,0),(0,128,0),(0,0,128),(128,128,0),(128,0,128),(0,128,128),(192,192,192),(128,128,128),
(153,153,255),(153,51,102),(255,255,204),(204,255,255),(102,0,102),(255,128,128),(0,102,204),(204,204,255),
(0,0,128),(255,0,255),(255,255,0),(0,255,255),(128,0,128),(128,0,0),(0,128,128),(0,0,255),
(0,204,255),(204,255,255),(204,255,204),(255,255,153),(153,204,255),(255,153,204),(204,153,255),(255,204,153),
(51,102,255),(51,204,204),(153,204,0),(255,204,0),(255,153,0),(255,102,0),(102,102,153),(150,150,150),
(0,51,102),(51,153,102),(0,51,0),(51,51,0),(153,51,0),(153,51,102),(51,51,153),(51,51,51)]
PAL5 = list(PAL8); PAL5[39] = (227, 227, 227)
PAL2 = PAL8[:16]
STYLE_NAMES = ["Normal", "RowLevel_", "ColLevel_", "Comma", "Currency", "Percent", "Comma [0]",
               "Currency [0]", "Hyperlink", "Followed Hyperlink"]

def rec(rc, data=b""):
    assert len(data) <= 0xFFFF, (hex(rc), len(data))
    return pack("<HH", rc, len(data)) + data

def bof(bv, kind, year=1997, build=0x1234):
    if bv == 80: return rec(0x809, pack("<HHHHII", 0x600, kind, build, year, 0xC1, 6))
    if bv == 70: return rec(0x809, pack("<HHHH", 0x500, kind, build, 1996 if year < 1994 else year))
    if bv == 50: return rec(0x809, pack("<HHHH", 0x500, kind, build, 1993))
    if bv in (40, 45): return rec(0x409, pack("<HHH", 0x400, kind, 0))
    if bv == 30: return rec(0x209, pack("<HHH", 0x300, kind, 0))
    return rec(0x009, pack("<HH", 2, kind))

EOF_REC = rec(0x0A)

def ustr(s, lenlen=2, force16=False, rich=None, pho=None):
    """BIFF8 unicode string"""
    b, wide = enc8(s, force16)
    fl = wide | (8 if rich is not None else 0) | (4 if pho is not None else 0)
    out = pack("<B" if lenlen == 1 else "<H", u16len(s)) + bytes([fl])
    if rich is not None: out += pack("<H", len(rich))
    if pho is not None: out += pack("<i", len(pho))
    out += b
    if rich is not None: out += b"".join(pack("<HH", *r) for r in rich)
    if pho is not None: out += pho
    return out

def u16len(s):
    return len(s.encode("utf-16le", "surrogatepass")) // 2

def enc8(s, force16=False):
    if not force16:
        try:
            return s.encode("latin-1"), 0
        except UnicodeEncodeError:
            pass
    return s.encode("utf-16le", "surrogatepass"), 1

def bstr(s, enc, lenlen=1):
    b = s.encode(enc)
    return pack("<B" if lenlen == 1 else "<H", len(b)) + b

def rk_variants(v):
    """all 4-byte compressed encodings whose documented meaning is exactly v"""
    out = []
    b = struct.unpack("<Q", pack("<d", v))[0]
    if not (b & 0x3FFFFFFFF):
        out.append(((b >> 32) & 0xFFFFFFFC) | 0)
    if v == v and abs(v) < 1e9:
        if v == int(v) and -(1 << 29) <= v < (1 << 29) and not (v == 0 and b):
            out.append(((int(v) << 2) & 0xFFFFFFFC) | 2)
        i = round(v * 100)
        if -(1 << 29) <= i < (1 << 29) and pack("<d", i / 100.0) == pack("<d", v):
            out.append(((i << 2) & 0xFFFFFFFC) | 3)
    return out

def rk_value(u):
    """reference meaning of a 4-byte compressed number"""
    if u & 2:
        i = u >> 2
        if i >= 1 << 29: i -= 1 << 30
        v = float(i)
    else:
        v = struct.unpack("<d", pack("<Q", (u & 0xFFFFFFFC) << 32))[0]
    return v / 100.0 if u & 1 else v

def date_from_text(fmt):
    """reference classification of a number-format string (see C12)"""
    out = []
    i = 0
    n = len(fmt)
    while i < n:
        c = fmt[i]
        if c == '"':
            j = fmt.find('"', i + 1)
            i = n if j < 0 else j + 1
            continue
        if c in "\\_*":
            i += 2
            continue
        out.append(c)
        i += 1
    s = "".join(out)
    res = []
    i = 0
    while i < len(s):
        if s[i] == "[":
            j = s.find("]", i)
            if j >= 0:
                i = j + 1
                continue
        res.append(s[i])
        i += 1
    s = "".join(res)
    d = sum(c in "ymdhsYMDHS" for c in s)
    k = sum(c in "0#?" for c in s)
    return d > k

class XFDef(object):
    """One cell-format record: raw bit fields + what they mean."""
    def __init__(self, raw, exp):
        self.raw, self.exp = raw, exp

class BookB(object):
    def __init__(self, bv, enc=None, codepage=None, override=None):
        self.bv = bv
        self.codepage = codepage
        self.override = override
        if bv >= 80:
            self.enc = "utf-16le"
        else:
            self.enc = enc or override or codec_for(codepage) or "latin-1"
        self.fonts = []       # (raw, exp)
        self.formats = []     # (key, string)
        self.xfs = []         # XFDef (>=21)
        self.styles = []      # (raw, name, (builtin, xf))
        self.palette = None
        self.palette_extra = b""
        self.sheets = []
        self.sst = []         # (text, runs, pho)
        self.sst_index = {}
        self.sst_recs = None  # explicit records (list of payloads)
        self.datemode = None
        self.country = None
        self.user = None      # text
        self.user_raw = None
        self.user_first = False
        self.pre = []         # extra global records (raw bytes) before BOUNDSHEET
        self.post = []        # after BOUNDSHEET (externsheet, names, ...)
        self.names_exp = None
        self.noise = None     # callable(rng) -> bytes, inserted between global records
        self.bof_year, self.bof_build = 1997, 0x1234
        self.order_codepage_late = False
        self.trailer = b""

    # -------------------------------------------------------------- text
    def s(self, text, lenlen, force16=False):
        if self.bv >= 80: return ustr(text, lenlen, force16)
        return bstr(text, self.enc, lenlen)

    # -------------------------------------------------------------- formats
    def add_format(self, key, text):
        """text FORMAT record.  key ignored (ordinal) below BIFF5."""
        if self.bv < 50: key = len(self.formats)
        self.formats.append((key, text))
        return key

    def add_xf(self, fmtkey=0, **kw):
        from . import fmtrecs
        x = fmtrecs.xf(self.bv, fmtkey, **kw)
        self.xfs.append(x)
        return len(self.xfs) - 1

    def fmt_type(self, key):
        """expected Format type code for a key, or None if unknown"""
        t = None
        for k, s in self.formats:
            if k == key: t = 1 if date_from_text(s) else 3
        if t is None and self.bv >= 50: t = BUILTIN_TYPE.get(key)
        return t

    def xf_celltype(self, xfx):
        if not self.xfs:
            return NUMBER
        key = self.xfs[xfx].exp["format_key"]
        return DATE if self.fmt_type(key) == 1 else NUMBER

    def add_sst(self, text, runs=None, pho=None, force16=False):
        self.sst.append((text, runs, pho, force16))
        return len(self.sst) - 1

    def sheet(self, name, kind=0, visibility=0):
        sh = SheetB(self, name, kind, visibility)
        self.sheets.append(sh)
        return sh

    def worksheets(self):
        return [s for s in self.sheets if s.kind == 0]

    # -------------------------------------------------------------- records
    def fmt_records(self):
        """FONT, FORMAT, XF, STYLE, PALETTE in file order"""
        bv = self.bv
        out = []
        frc = 0x231 if bv in (30, 40, 45) else 0x31
        for raw, _, efont in self.fonts:
            out.append(rec(frc, raw))
            if efont is not None: out.append(rec(0x45, pack("<H", efont)))
        fmrc = 0x1E if bv <= 30 else 0x41E
        if bv <= 40 and self.formats and bv >= 30:
            out.append(rec(0x56, pack("<H", len(self.formats))))
        for key, s in self.formats:
            if bv <= 30: d = bstr(s, self.enc, 1)
            elif bv <= 45: d = pack("<H", 0) + bstr(s, self.enc, 1)
            elif bv < 80: d = pack("<H", key) + bstr(s, self.enc, 1)
            else: d = pack("<H", key) + ustr(s, 2)
            out.append(rec(fmrc, d))
        xrc = {20: 0x43, 21: 0x43, 30: 0x243, 40: 0x443, 45: 0x443}.get(bv, 0xE0)
        for x in self.xfs: out.append(rec(xrc, x.raw))
        for raw, _, _ in self.styles: out.append(rec(0x293, raw))
        if self.palette is not None:
            out.append(rec(0x92, pack("<H", len(self.palette)) +
                           b"".join(bytes(c) + b"\0" for c in self.palette) + self.palette_extra))
        return out

    def head_records(self):
        bv = self.bv
        out = []
        cp = [rec(0x42, pack("<H", self.codepage))] if self.codepage is not None else []
        wa = []
        if self.user_raw is not None:
            wa = [rec(0x5C, self.user_raw)]
        elif self.user is not None:
            if bv >= 80:
                b = ustr(self.user, 2)
                wa = [rec(0x5C, b + b" " * (112 - len(b)))]
            else:
                b = bstr(self.user, self.enc, 1)
                wa = [rec(0x5C, b + b" " * max(0, 32 - len(b)))]
        out += (wa + cp) if self.user_first else (cp + wa)
        if self.datemode is not None: out.append(rec(0x22, pack("<H", self.datemode)))
        return out

    def stream(self, rng=None):
        import random
        rng = rng or random.Random(0)
        bv = self.bv
        noise = self.noise or (lambda r: b"")
        if bv <= 40:
            sh = self.sheets[0]
            recs = self.head_records() + self.fmt_records()
            if self.country: recs.append(rec(0x8C, pack("<HH", *self.country)))
            body = b"".join(noise(rng) + r for r in recs)
            return bof(bv, 0x10) + body + sh.body(rng) + EOF_REC + self.trailer
        if bv == 45:
            out = [bof(45, 0x100)] + self.head_records()
            out.append(rec(0x8E, pack("<i", 0)))
            for sh in self.sheets: out.append(rec(0x85, bstr(sh.name, self.enc, 1)))
            if self.country: out.append(rec(0x8C, pack("<HH", *self.country)))
            out = [b"".join(noise(rng) + r if i else r for i, r in enumerate(out))]
            for sh in self.sheets:
                sub = bof(45, 0x10) + b"".join(self.fmt_records()) + sh.body(rng) + EOF_REC
                out.append(rec(0x8F, pack("<i", len(sub)) + bstr(sh.name, self.enc, 1)))
                out.append(sub)
            out.append(EOF_REC)
            return b"".join(out) + self.trailer
        # BIFF5+
        head = self.head_records()
        mid = self.fmt_records() + list(self.pre)
        tail = list(self.post)
        if self.country: tail.append(rec(0x8C, pack("<HH", *self.country)))
        if bv >= 80:
            ss = self.sst_recs if self.sst_recs is not None else sst_records(self.sst, rng)
            if ss:
                tail.append(rec(0xFC, ss[0]) + b"".join(rec(0x3C, x) for x in ss[1:]))
        def assemble(offs):
            o = [bof(bv, 5, self.bof_year, self.bof_build)]
            r2 = random.Random(self._nseed)
            for r in head + mid: o.append(noise(r2) + r)
            for sh, off in zip(self.sheets, offs):
                nm = ustr(sh.name, 1) if bv >= 80 else bstr(sh.name, self.enc, 1)
                o.append(noise(r2) + rec(0x85, pack("<iBB", off, sh.visibility, sh.kind) + nm))
            for r in tail: o.append(noise(r2) + r)
            o.append(noise(r2) + EOF_REC)
            return b"".join(o)
        self._nseed = rng.getrandbits(30)
        glob = assemble([0] * len(self.sheets))
        # physical order of the sheet substreams is free
        order = list(range(len(self.sheets)))
        if getattr(self, "shuffle_substreams", False): rng.shuffle(order)
        offs = [0] * len(self.sheets)
        body = []
        pos = len(glob)
        for i in order:
            sh = self.sheets[i]
            if getattr(self, "gaps", False) and rng.random() < .4:
                g = rng.randbytes(rng.choice([1, 2, 3, 4, 7, 30])); body.append(g); pos += len(g)
            offs[i] = pos
            b = bof(bv, {0: 0x10, 1: 0x40, 2: 0x20, 6: 6}.get(sh.kind, 0x10), self.bof_year, self.bof_build) + sh.body(rng) + EOF_REC
            body.append(b); pos += len(b)
        return assemble(offs) + b"".join(body) + self.trailer

    # -------------------------------------------------------------- expectations
    def colour_map(self):
        pal = PAL8 if self.bv >= 80 else PAL5 if self.bv >= 50 else PAL2
        m = dict(enumerate(PAL8[:8]))
        for i, c in enumerate(pal): m[8 + i] = c
        m[8 + len(pal)] = m[9 + len(pal)] = m[0x51] = m[0x7FFF] = None
        if self.palette is not None:
            for i, c in enumerate(self.palette): m[8 + i] = tuple(c)
        return m

    def expect_book(self, fmt):
        bv = self.bv
        ws = self.worksheets()
        e = {"biff_version": bv, "nsheets": len(ws),
             "sheet_names": [s.name for s in ws] if bv >= 45 else ["Sheet 1"],
             "datemode": self.datemode or 0,
             "countries": self.country or (0, 0),
             "user_name": (self.user or "").rstrip()}
        if fmt:
            fonts = [dict(x[1], font_index=i if i < 4 else i + 1) for i, x in enumerate(self.fonts)]
            for i, x in enumerate(self.fonts):
                if x[2] is not None: fonts[i]["colour_index"] = x[2]
            e["fonts"] = fonts
            fm = {}
            if bv >= 50 and self.xfs:
                from .fmtrecs import STD_STRINGS
                for k, t in BUILTIN_TYPE.items(): fm[k] = (t, STD_STRINGS.get(k))
            for k, s in self.formats: fm[k] = (1 if date_from_text(s) else 3, s)
            e["formats"] = fm
            e["format_list"] = [(k, s) for k, s in self.formats]
            if bv != 20:
                e["xfs"] = [dict(x.exp, xf_index=i) for i, x in enumerate(self.xfs)]
                for x in e["xfs"]:
                    if x["format_key"] not in fm: x["format_key"] = 0
                    if not x["is_style"] and not (0 <= x["parent_style_index"] < len(self.xfs)):
                        x["parent_style_index"] = 0
            e["styles"] = {nm: v for _, nm, v in self.styles}
            e["palette_record"] = [tuple(c) for c in self.palette or []]
            e["colour_map"] = self.colour_map()
        return e

    def expect(self, fmt=False, ragged=False):
        return {"book": self.expect_book(fmt),
                "sheets": [s.expect(fmt, ragged, i) for i, s in enumerate(self.worksheets())]}


def codec_for(cp):
    if cp is None: return None
    t = {1200: "utf_16_le", 10000: "mac_roman", 10006: "mac_greek", 10007: "mac_cyrillic",
         10029: "mac_latin2", 10079: "mac_iceland", 10081: "mac_turkish", 32768: "mac_roman", 32769: "cp1252"}
    if cp in t: return t[cp]
    if 300 <= cp <= 1999: return "cp%d" % cp
    return None


from .sst import sst_records


class SheetB(object):
    def __init__(self, book, name, kind, visibility):
        self.b, self.name, self.kind, self.visibility = book, name, kind, visibility
        self.items = []      # raw record bytes (one item = atomic group)
        self.ops = []        # (r, c, ctype|'num', value, xf, fmt_only, runs|None)
        self.dims = None     # (nrows, ncols) recorded, arbitrary
        self.merged = []
        self.rows = {}
        self.cols = {}
        self.defs = {}
        self.ext = {}        # other expected attributes
        self.first = []      # records right after BOF (before DIMENSIONS)
        self.noise = None
        self.notes = {}
        self.hlinks = []
        self.cur_ixfe = None

    def raw(self, data): self.items.append(data)

    # ----- cell records
    def _xf2(self, xf, out):
        """BIFF2 cell attributes (3 bytes); may emit an IXFE"""
        b = self.b
        if b.bv == 21:
            if xf >= 63 or getattr(b, "always_ixfe", False):
                if self.cur_ixfe != xf:
                    out.append(rec(0x44, pack("<H", xf))); self.cur_ixfe = xf
                return bytes([0x3F, 0, 0])
            return bytes([xf, 0, 0])
        return xf     # BIFF2.0: xf *is* the 3 attribute bytes

    def op(self, r, c, ct, v, xf, fmt_only=False, runs=None):
        self.ops.append((r, c, ct, v, xf, fmt_only, runs))

    def number(self, r, c, v, xf=0, extra=b""):
        out = []
        if self.b.bv >= 30: out.append(rec(0x203, pack("<HHHd", r, c, xf, v) + extra))
        else:
            a = self._xf2(xf, out); out.append(rec(0x003, pack("<HH3sd", r, c, a, v)))
        self.raw(b"".join(out)); self.op(r, c, "num", float(v), xf)

    def integer(self, r, c, v, xf=0):
        out = []
        a = self._xf2(xf, out); out.append(rec(0x002, pack("<HH3sH", r, c, a, v)))
        self.raw(b"".join(out)); self.op(r, c, "num", float(v), xf)

    def rk(self, r, c, u, xf=0):
        self.raw(rec(0x27E, pack("<HHHI", r, c, xf, u))); self.op(r, c, "num", rk_value(u), xf)

    def mulrk(self, r, c, pairs):
        d = pack("<HH", r, c) + b"".join(pack("<HI", x, u) for x, u in pairs) + pack("<H", c + len(pairs) - 1)
        self.raw(rec(0xBD, d))
        for i, (x, u) in enumerate(pairs): self.op(r, c + i, "num", rk_value(u), x)

    def blank(self, r, c, xf=0):
        out = []
        if self.b.bv >= 30: out.append(rec(0x201, pack("<HHH", r, c, xf)))
        else:
            a = self._xf2(xf, out); out.append(rec(0x001, pack("<HH3s", r, c, a)))
        self.raw(b"".join(out)); self.op(r, c, BLANK, "", xf, True)

    def mulblank(self, r, c, xfs):
        self.raw(rec(0xBE, pack("<HH", r, c) + b"".join(pack("<H", x) for x in xfs) + pack("<H", c + len(xfs) - 1)))
        for i, x in enumerate(xfs): self.op(r, c + i, BLANK, "", x, True)

    def label(self, r, c, s, xf=0, force16=False, rich=None, pho=None):
        out = []
        bv = self.b.bv
        if bv >= 80: out.append(rec(0x204, pack("<HHH", r, c, xf) + ustr(s, 2, force16, rich, pho)))
        elif bv >= 30: out.append(rec(0x204, pack("<HHH", r, c, xf) + self.b.s(s, 2, force16)))
        else:
            a = self._xf2(xf, out); out.append(rec(0x004, pack("<HH3s", r, c, a) + bstr(s, self.b.enc, 1)))
        self.raw(b"".join(out)); self.op(r, c, TEXT, s, xf)

    def rstring(self, r, c, s, runs, xf=0, force16=False, rich=None, pho=None):
        d = pack("<HHH", r, c, xf)
        if self.b.bv >= 80:
            d += ustr(s, 2, force16, rich, pho) + pack("<H", len(runs)) + b"".join(pack("<HH", *x) for x in runs)
        else:
            d += bstr(s, self.b.enc, 2) + bytes([len(runs)]) + b"".join(pack("<BB", *x) for x in runs)
        self.raw(rec(0xD6, d)); self.op(r, c, TEXT, s, xf, False, ("rstring", list(runs)))

    def labelsst(self, r, c, idx, xf=0):
        t, runs, pho, f = self.b.sst[idx]
        self.raw(rec(0xFD, pack("<HHHi", r, c, xf, idx)))
        self.op(r, c, TEXT, t, xf, False, ("sst", list(runs)) if runs else None)

    def boolerr(self, r, c, v, is_err, xf=0, extra=b""):
        out = []
        if self.b.bv >= 30: out.append(rec(0x205, pack("<HHHBB", r, c, xf, v, is_err) + extra))
        else:
            a = self._xf2(xf, out); out.append(rec(0x005, pack("<HH3sBB", r, c, a, v, is_err)))
        self.raw(b"".join(out)); self.op(r, c, ERROR if is_err else BOOL, v, xf)

    def formula_head(self, r, c, xf, res8, flags=0, toks=b"\x1e\x01\x00"):
        bv = self.b.bv
        out = []
        if bv >= 50: out.append(rec(0x006, pack("<HHH8sHIH", r, c, xf, res8, flags, 0, len(toks)) + toks))
        elif bv >= 30: out.append(rec(0x206 if bv == 30 else 0x406, pack("<HHH8sHH", r, c, xf, res8, flags, len(toks)) + toks))
        else:
            a = self._xf2(xf, out); out.append(rec(0x006, pack("<HH3s8sBB", r, c, a, res8, flags & 255, len(toks)) + toks))
        return b"".join(out)

    def formula_num(self, r, c, v, xf=0, between=b""):
        b8 = pack("<d", v)
        assert b8[6:8] != b"\xff\xff"
        self.raw(self.formula_head(r, c, xf, b8) + between); self.op(r, c, "num", float(v), xf)

    def formula_special(self, r, c, kind, v=0, xf=0, between=b"", junk=b"\0\0\0"):
        """kind 1 bool, 2 error, 3 empty text"""
        b8 = bytes([kind, junk[0], v, junk[1], junk[2], 0, 0xFF, 0xFF])
        self.raw(self.formula_head(r, c, xf, b8) + between)
        self.op(r, c, {1: BOOL, 2: ERROR, 3: TEXT}[kind], "" if kind == 3 else v, xf)

    def formula_str(self, r, c, s, xf=0, between=b"", string_recs=None, force16=False, junk=b"\0" * 5):
        b8 = b"\0" + junk + b"\xff\xff"
        bv = self.b.bv
        if string_recs is None:
            rc = 0x207 if bv >= 30 else 0x007
            string_recs = rec(rc, self.b.s(s, 2 if bv >= 30 else 1, force16))
        self.raw(self.formula_head(r, c, xf, b8) + between + string_recs); self.op(r, c, TEXT, s, xf)

    # ----- other sheet records
    def row(self, r, height=255, default_height=0, bits=0x100, xf=None, cmin=0, cmax=0, exp=None):
        bv = self.b.bv
        if bv >= 30:
            h = height | (default_height << 15)
            self.raw(rec(0x208, pack("<HHHHHHI", r, cmin, cmax, h, 0, 0, bits | (0 if xf is None else 0x80 | (xf << 16)))))
            self.rows[r] = {"height": height, "has_default_height": default_height, "outline_level": bits & 7,
                            "outline_group_starts_ends": bits >> 4 & 1, "hidden": bits >> 5 & 1,
                            "height_mismatch": bits >> 6 & 1, "has_default_xf_index": 0 if xf is None else 1,
                            "xf_index": -1 if xf is None else xf,
                            "additional_space_above": bits >> 28 & 1, "additional_space_below": bits >> 29 & 1}
        else:
            h = height | (default_height << 15)
            out = []
            if xf is None:
                d = pack("<HHHHHBH", r, cmin, cmax, h, 0, 0, 0)
                x = -1
            else:
                a = self._xf2(xf, out)
                if bv == 21: 
                    d = pack("<HHHHHBH", r, cmin, cmax, h, 0, 1, 0) + a + pack("<H", xf)
                else:
                    d = pack("<HHHHHBH", r, cmin, cmax, h, 0, 1, 0) + a
                x = xf
            out.append(rec(0x008, d))
            self.raw(b"".join(out))
            self.rows[r] = {"height": height, "has_default_height": default_height,
                            "has_default_xf_index": 0 if xf is None else 1, "xf_index": x}

    def colinfo(self, c1, c2, width, xf=0, flags=2):
        self.raw(rec(0x7D, pack("<HHHHHH", c1, c2, width, xf, flags, 0)))
        for c in range(c1, min(c2, 255) + 1):
            self.cols[c] = {"width": width, "xf_index": xf, "hidden": flags & 1, "bit1_flag": flags >> 1 & 1,
                            "outline_level": flags >> 8 & 7, "collapsed": flags >> 12 & 1}

    def _col2(self, c):
        return self.cols.setdefault(c, {"width": 0, "xf_index": -1, "hidden": 0, "bit1_flag": 0, "outline_level": 0, "collapsed": 0, "has_width": False})

    def colwidth(self, c1, c2, width):
        """BIFF2: width of columns c1..c2"""
        self.raw(rec(0x24, pack("<BBH", c1, c2, width)))
        for c in range(c1, c2 + 1): self._col2(c).update(width=width, has_width=True)

    def columndefault(self, c1, xfs):
        """BIFF2: default cell attributes of columns c1.."""
        out = []
        attrs = b"".join(self._xf2(x, out) for x in xfs)
        self.raw(b"".join(out) + rec(0x20, pack("<HH", c1, c1 + len(xfs)) + attrs))
        for i, x in enumerate(xfs): self._col2(c1 + i)["xf_index"] = x

    def merge(self, ranges):
        self.raw(rec(0xE5, pack("<H", len(ranges)) + b"".join(pack("<HHHH", a, b - 1, c, d - 1) for a, b, c, d in ranges)))
        self.merged.extend(ranges)

    # ----- output
    def dims_record(self):
        if self.dims is None: return b""
        nr, nc = self.dims
        bv = self.b.bv
        if bv >= 80: return rec(0x200, pack("<iiHHH", 0, nr, 0, nc, 0))
        if bv >= 30: return rec(0x200, pack("<HHHHH", 0, nr & 0xFFFF, 0, nc, 0))
        return rec(0x000, pack("<HHHH", 0, nr & 0xFFFF, 0, nc))

    def body(self, rng):
        noise = self.noise or (lambda r: b"")
        o = []
        for r in self.first: o.append(noise(rng) + r)
        o.append(noise(rng) + self.dims_record())
        for r in self.items: o.append(noise(rng) + r)
        o.append(noise(rng))
        return b"".join(o)

    # ----- expectation
    def grid(self, fmt):
        g = {}
        runs = {}
        nr = nc = 0
        for r, c, ct, v, xf, fo, rr in self.ops:
            if fo and not fmt: continue
            nr = max(nr, r + 1); nc = max(nc, c + 1)
            if ct == "num":
                ct = self.b.xf_celltype(xf) if self.b.bv != 20 else self.type20(xf)
            g[r, c] = (ct, v, xf)
            if rr and rr[0] == "rstring": runs[r, c] = rr[1]
            elif rr and fmt: runs[r, c] = rr[1]
        seen = set(); multi = set()
        for o in self.ops:
            if o[:2] in seen: multi.add(o[:2])
            seen.add(o[:2])
        self.multi = multi     # cells written more than once: run lists not judged
        for k in multi: runs.pop(k, None)
        if fmt:
            for a, b, c, d in self.merged:
                nr = max(nr, b); nc = max(nc, d)
        return g, nr, nc, runs

    def type20(self, attr):
        key = attr[1] & 0x3F
        t = None
        for k, s in self.b.formats:
            if k == key: t = date_from_text(s)
        return DATE if t else NUMBER

    def expect(self, fmt, ragged, number):
        g, nr, nc, runs = self.grid(fmt)
        e = {"name": self.name if self.b.bv >= 45 else "Sheet 1", "number": number,
             "nrows": nr, "ncols": nc, "visibility": self.visibility if self.b.bv >= 50 else 0,
             "cells": g, "rich_text": runs}
        e.update(self.ext)
        e["notes"] = self.notes
        e["hyperlinks"] = self.hlinks
        if fmt:
            e["merged_cells"] = list(self.merged)
            e["rowinfo"] = self.rows
            e["colinfo"] = self.cols
        else:
            e["merged_cells"] = []
            e["rowinfo"] = {}
            e["colinfo"] = {}
        return e

    def grid_no_merge(self, fmt):
        """row count from cell records alone"""
        nr = 0
        for r, c, ct, v, xf, fo, rr in self.ops:
            if fo and not fmt: continue
            nr = max(nr, r + 1)
        return nr
