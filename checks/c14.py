"""C14 - pre-Unicode text decodes by codepage, and the override always wins."""
from xlmon.randbook import *
from xlmon import formula as F
from xlmon.judge import judge_book
from xlmon.runner import Violation, same, short
import xlrd, codecs

ID = "C14"; LEVEL = "exploration"
RULE = "distinct = distinct (version, stored encoding, how it was declared, kind of text) combinations with non-ASCII text observed"
ASSUMPTIONS = ["the interpreter's codecs define each encoding; characters a codec doesn't round-trip are not stored",
               "an encoding that cannot decode plain ASCII bytes (UTF-16 and the like) is not used below BIFF8",
               "text that cannot be decoded may be refused at opening or when its sheet is loaded; a defined name's formula that cannot be decoded leaves the name without a value (C15)"]
REQUIRED = {"declared": 600, "none": 250, "override": 1000, "biff8": 500, "undecodable": 2000, "unknown_codepage": 60, "nonascii_texts": 20000, "cells": 20000}
CASE_TIMEOUT = 120

# codepage number -> codec of the published list
NUMBERED = {437: "cp437", 720: "cp720", 737: "cp737", 775: "cp775", 850: "cp850", 852: "cp852", 855: "cp855", 857: "cp857", 858: "cp858",
            860: "cp860", 861: "cp861", 862: "cp862", 863: "cp863", 864: "cp864", 865: "cp865", 866: "cp866", 869: "cp869", 874: "cp874",
            932: "cp932", 936: "gbk", 949: "cp949", 950: "cp950", 1250: "cp1250", 1251: "cp1251", 1252: "cp1252", 1253: "cp1253",
            1254: "cp1254", 1255: "cp1255", 1256: "cp1256", 1257: "cp1257", 1258: "cp1258", 1361: "johab", 367: "ascii",
            10000: "mac_roman", 10006: "mac_greek", 10007: "mac_cyrillic", 10029: "mac_latin2", 10079: "mac_iceland", 10081: "mac_turkish",
            32768: "mac_roman", 32769: "cp1252"}
OVERRIDES = ["cp1252", "cp1251", "utf-8", "utf_8", "shift_jis", "big5", "gb18030", "gbk", "euc_kr", "euc_jp", "koi8-r", "iso-8859-1", "latin1", "iso8859_15", "iso-8859-7",
             "cp437", "cp866", "mac_roman", "mac-cyrillic", "CP1250", "cp932", "tis-620", "ascii", "cp874", "hp-roman8", "ptcp154", "big5hkscs", "cp1006"]
WEIRD = [0, 1, 99, 299, 709, 1999, 2000, 10001, 20127, 28591, 40000, 65000, 65001, 65535]

def known(num):
    try: codecs.lookup("cp%d" % num); return True
    except LookupError: return False
NUMBERED = dict((k, v) for k, v in NUMBERED.items() if k >= 10000 or known(k))

_rep = {}
def repertoire(enc):
    """characters outside ASCII the codec can store"""
    if enc not in _rep:
        out = []
        for b in range(0x80, 0x100):
            try: c = bytes([b]).decode(enc)
            except UnicodeError: continue
            if len(c) == 1 and can(c, enc): out.append(c)
        rng = random.Random(enc)
        pool = "éüñßÿÀÁ€‰ЖЯдфіαβγΩאבגไทยعربي中文日本語テキスト한국어「」ąęśćžščřőűđ₫ươ"
        out += [c for c in pool if can(c, enc)]
        for _ in range(3000):
            c = chr(rng.choice([rng.randint(0xA0, 0x6FF), rng.randint(0x3040, 0x30FF), rng.randint(0x4E00, 0x9FFF), rng.randint(0xAC00, 0xD7A3), rng.randint(0x1E00, 0x1EF9), rng.randint(0x2010, 0x2600)]))
            if can(c, enc): out.append(c)
        _rep[enc] = [c for c in out if not c.isspace()]
    return _rep[enc]

def plan(tier, seed):
    return specs_for(tier, seed, declared=(3840, 60000), none=(1280, 20000), override=(5760, 80000), biff8=(2560, 30000), undecodable=(14400, 150000), unknown=(960, 3000))

def texter(rng, enc):
    R = repertoire(enc) if enc else list("éüЖ日本한\u0100€")
    def text(n=40):
        k = rng.random()
        n = max(1, n)
        if not R or k < .2: t = "".join(rng.choice("abcXYZ 019_-") for _ in range(rng.randint(0, n)))
        elif k < .6: t = "".join(rng.choice(R) for _ in range(rng.randint(1, n)))
        else: t = "".join(rng.choice(R) if rng.random() < .4 else rng.choice("abcXYZ 0.'") for _ in range(rng.randint(1, n)))
        return t
    return text

def make(rng, bv, enc, record):
    """a workbook whose text is stored in `enc` and whose CODEPAGE record says `record`"""
    text = texter(rng, enc)
    b = random_book(rng, bv, density=rng.choice([.3, .8]), annotations=rng.random() < .7, kinds=rng.random() < .2, small=True, enc=enc, text=text)
    b.codepage = record
    b.user_first = rng.random() < .5
    if rng.random() < .8:
        # formats carrying quoted text
        if bv < 80 or rng.random() < .5:
            for _ in range(rng.randint(1, 3)):
                t = text(8).replace('"', "")
                b.add_format(rng.choice([170, 171, 172]) if bv >= 50 else 0, '"%s"0' % t)
    if bv >= 50:
        ns = F.NameSet(b, rng)
        for j in range(rng.randint(0, 4)):
            t = text(10).replace("\0", "") or "n"
            ns.add("N" + t, rng.choice([("str", text(20)), ("int", j), F.rand_ref(rng, ns.env)]), rng.choice([None] + list(range(len(b.sheets)))))
        ns.install()
    return b

def judge(mon, b, data, kw, what, key):
    fmt, rag = kw["formatting_info"], kw["ragged_rows"]
    bk = open_bytes(data, **kw)
    judge_book(mon, b, bk, fmt, rag, what)
    n = b.names_exp
    if n is not None:
        for i, x in enumerate(n.names):
            if x.tree[0] == "str" and x.usable:
                r = bk.name_obj_list[i].result
                if r is None or r.value != x.tree[1]: raise Violation("name-string", "%s: name %r has the value %r, stored %r" % (what, x.text, r, x.tree[1]))
    cnt = 0
    for sh in b.worksheets():
        for o in sh.ops:
            if o[2] == TEXT and any(ord(c) > 127 for c in o[3]): cnt += 1
    mon.count("nonascii_texts", cnt + sum(any(ord(c) > 127 for c in s.name) for s in b.worksheets()))
    mon.count("comparisons"); mon.count("books")
    if cnt: mon.seen("encoding", key)
    return bk

def options(rng):
    return dict(formatting_info=rng.random() < .5, ragged_rows=rng.random() < .3, on_demand=rng.random() < .3)

def run(spec, mon):
    rng = rng_for(spec); k = spec["kind"]; i = spec["i"]
    old = (20, 21, 30, 40, 45, 50, 70, 70)[i % 8]
    if k == "declared":
        num = sorted(NUMBERED)[i // 8 % len(NUMBERED)]; enc = NUMBERED[num]
        b = make(rng, old, enc, num)
        what = "BIFF%d codepage %d" % (old, num)
        bk = judge(mon, b, wrap(b.stream(rng), old), options(rng), what, (old, enc, "declared"))
        if bk.codepage != num: raise Violation("codepage", "%s: Book.codepage is %r" % (what, bk.codepage))
        if not same_codec(bk.encoding, enc): raise Violation("encoding", "%s: Book.encoding is %r" % (what, bk.encoding))
    elif k == "none":
        b = make(rng, old, "iso-8859-1", None)
        what = "BIFF%d without codepage" % old
        bk = judge(mon, b, wrap(b.stream(rng), old), options(rng), what, (old, "latin-1", "none"))
        if bk.codepage is not None: raise Violation("codepage", "%s: Book.codepage is %r" % (what, bk.codepage))
        if not same_codec(bk.encoding, "iso-8859-1"): raise Violation("encoding", "%s: Book.encoding is %r" % (what, bk.encoding))
    elif k == "override":
        enc = OVERRIDES[i // 8 % len(OVERRIDES)]
        how = rng.choice(["missing", "wrong", "unknown", "1200"])
        rec_ = {"missing": None, "wrong": rng.choice(list(NUMBERED)), "unknown": rng.choice(WEIRD), "1200": 1200}[how]
        b = make(rng, old, enc, rec_)
        what = "BIFF%d codepage %r (%s) overridden by %r" % (old, rec_, how, enc)
        bk = judge(mon, b, wrap(b.stream(rng), old), dict(options(rng), encoding_override=enc), what, (old, enc, how))
        if not same_codec(bk.encoding, enc): raise Violation("encoding", "%s: Book.encoding is %r" % (what, bk.encoding))
        if bk.codepage != rec_: raise Violation("codepage", "%s: Book.codepage is %r" % (what, bk.codepage))
    elif k == "biff8":
        rec_ = rng.choice([None, 1200, 1252, rng.choice(list(NUMBERED)), rng.choice(WEIRD)])
        ov = rng.choice([None, None] + OVERRIDES)
        b = make(rng, 80, None, rec_)
        what = "BIFF8 codepage %r, override %r" % (rec_, ov)
        kw = options(rng)
        if ov: kw["encoding_override"] = ov
        unknown = rec_ is not None and 300 <= rec_ <= 1999 and not known(rec_) and not ov
        r, v = outcome(judge, mon, b, wrap(b.stream(rng), 80), kw, what, (80, ov, rec_))
        if r == "exc" and not (unknown and isinstance(v, LookupError)): raise v
    elif k == "unknown":
        num = rng.choice([x for x in WEIRD if not known(x) or x < 300 or x > 1999])
        if rng.random() < .5: b = make(rng, old, "ascii", num)
        else:                                     # nothing but even-length plain text: any guess would "succeed"
            b = BookB(old, codepage=num, enc="ascii")
            if old != 20: b.add_xf(0)
            sh = b.sheet("Ab" if old >= 45 else "Sheet1"); sh.dims = (4, 4)
            for r_ in range(3): sh.label(r_, 0, rng.choice(["ab", "wxyz", "", "Even"]) or "ab", bytes(3) if old == 20 else 0)
            mon.count("unknown_minimal")
        r, v = outcome(open_bytes, wrap(b.stream(rng), old))
        if r == "ok": raise Violation("unknown-codepage", "BIFF%d with codepage %d opened, encoding %r" % (old, num, v.encoding))
        if not isinstance(v, (LookupError, UnicodeError, xlrd.XLRDError)): raise Violation("unknown-codepage", "BIFF%d with codepage %d: %r" % (old, num, v))
        mon.count("comparisons"); mon.count("unknown_codepage")
        return
    else: return undecodable(rng, old if i % 4 else 80, mon)
    mon.count(k)

def same_codec(a, b):
    try: return codecs.lookup(a).name == codecs.lookup(b).name
    except (LookupError, TypeError): return False

# bytes that the codec refuses, in one place
BAD = {"utf-8": b"ab\xff\xfe", "ascii": b"a\x80", "cp932": b"a\x81", "cp1252": b"a\x81b", "cp1253": b"\xaa", "cp874": b"\xdb\xfc\xff", "cp949": b"x\xff", "cp950": b"x\xff\xff", "cp1257": b"\xa1", "shift_jis": b"z\xfd", "cp1255": b"\xff"}
PLACES = ["sheetname", "label", "rstring", "formula", "font", "format", "style", "user", "note", "name", "externsheet"]

def undecodable(rng, bv, mon):
    place = rng.choice(PLACES)
    if bv >= 80:
        # a lone surrogate is the only thing UTF-16 refuses
        bad = rng.choice([b"\x00\xd8", b"a\0\x00\xdc", b"\x3d\xd8a\0"])
        return undecodable8(rng, bad, mon)
    enc = rng.choice(list(BAD)); bad = BAD[enc]
    try: bad.decode(enc); return
    except UnicodeDecodeError: pass
    if place in ("rstring", "name", "externsheet") and bv < 50: place = "label"
    if place == "style" and bv < 30 or place == "format" and bv == 20: place = "label"
    if place == "sheetname" and bv < 45: place = "formula"
    if place == "note" and bv < 20: place = "label"
    via = rng.choice(["codepage", "override", "override"]) if enc.startswith("cp") else "override"
    b = BookB(bv, enc=enc, codepage=int(enc[2:]) if via == "codepage" else rng.choice([None, 1252, 437]))
    b.fonts.append(fmtrecs.font(bv, "Arial", rng, "ascii"))
    if bv < 50: b.add_format(0, "General")
    if bv != 20: b.add_xf(0)
    sh = b.sheet("Sheet1"); sh.dims = (5, 5)
    x = bytes(3) if bv == 20 else 0
    sh.number(0, 0, 1.0, x)
    class Raw(str):
        """text whose encoded form is fixed"""
        def encode(self, *a, **k): return bad
    t = Raw("?")
    if place == "sheetname": sh.name = t
    elif place == "label": sh.label(1, 1, t, x)
    elif place == "rstring": sh.rstring(1, 1, t, [(0, 1)], x)
    elif place == "formula": sh.formula_str(1, 1, t, x)
    elif place == "font": b.fonts.append(fmtrecs.font(bv, t, rng, enc))
    elif place == "format": b.formats.append((180 if bv >= 50 else 1, t))
    elif place == "style": b.styles.append(fmtrecs.style(bv, 0, name=t, enc=enc))
    elif place == "user":
        b.user_raw = bytes([len(bad)]) + bad + b" " * 10; b.user_first = rng.random() < .5 and b.codepage is not None
    elif place == "note":
        from xlmon.annot import Annot
        Annot(sh).note(1, 1, t)
    elif place == "name": b.pre.append(F.name_record(F.Env(bv, [0], enc), t, 0, b"\x1e\1\0"))
    elif place == "externsheet": b.pre.append(rec(0x17, bytes([len(bad), 3]) + bad))
    fmt = rng.random() < .5 or place in ("font", "format", "style")
    kw = dict(formatting_info=fmt, on_demand=rng.random() < .4)
    if via == "override": kw["encoding_override"] = enc
    def go():
        bk = open_bytes(wrap(b.stream(rng), bv), **kw)
        return [O.obs_sheet(s, fmt) for s in bk.sheets()], O.obs_book(bk, fmt)
    r, v = outcome(go)
    mon.count("undecodable"); mon.count("comparisons"); mon.seen("undecodable", (bv, enc, place))
    if r == "ok": raise Violation("undecodable:" + place, "BIFF%d %s bytes %r as %s (%s) were accepted: %s" % (bv, enc, bad, place, via, short([s["grid"] for s in v[0]])))

def undecodable8(rng, bad, mon):
    place = rng.choice(["sheetname", "label", "rstring", "formula", "sst", "font", "format", "style", "user", "name"])
    b = BookB(80); b.fonts.append(fmtrecs.font(80, "Arial", rng, "ascii")); b.add_xf(0)
    sh = b.sheet("Sheet1"); sh.dims = (5, 5); sh.number(0, 0, 1.0, 0)
    n = len(bad) // 2
    u2 = pack("<HB", n, 1) + bad; u1 = pack("<BB", n, 1) + bad
    if place == "label": sh.raw(rec(0x204, pack("<HHH", 1, 1, 0) + u2))
    elif place == "rstring": sh.raw(rec(0xD6, pack("<HHH", 1, 1, 0) + u2 + pack("<HHH", 1, 0, 1)))
    elif place == "formula":
        sh.raw(sh.formula_head(1, 1, 0, b"\0" * 6 + b"\xff\xff") + rec(0x207, u2))
    elif place == "sst":
        b.sst_recs = [pack("<II", 1, 1) + u2]; sh.raw(rec(0xFD, pack("<HHHi", 1, 1, 0, 0)))
    elif place == "font":
        d = fmtrecs.font(80, "A", rng, "ascii")[0][:14]; b.fonts.append((d + u1, {}, None))
    elif place == "format": b.pre.append(rec(0x41E, pack("<H", 170) + u2))
    elif place == "style": b.pre.append(rec(0x293, pack("<H", 0) + u2))
    elif place == "user": b.user_raw = u2 + b" " * 5
    elif place == "name": b.post.append(rec(0x18, pack("<HBBHHH4B", 0, 0, n, 3, 0, 0, 0, 0, 0, 0) + b"\1" + bad + b"\x1e\1\0"))
    st = b.stream(rng)
    if place == "sheetname":
        nm = ustr("Sheet1", 1); z = st.index(nm)
        # same record length: 4 bad units' worth of bytes fill the place of the 6 characters
        rep = bytes([3, 1]) + (bad + b"a\0a\0a\0")[:6]
        st = st[:z] + rep + st[z + len(nm):]
    def go():
        bk = open_bytes(wrap(st, 80), formatting_info=True)
        return [O.obs_sheet(s, True) for s in bk.sheets()], O.obs_book(bk, True)
    r, v = outcome(go)
    mon.count("undecodable"); mon.count("comparisons"); mon.seen("undecodable", (80, bad, place))
    if r == "ok": raise Violation("undecodable8:" + place, "BIFF8 ill-formed UTF-16 %r as %s was accepted" % (bad, place))
