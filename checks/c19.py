"""C19 - sheet annotations and view settings are reported exactly."""
from xlmon.randbook import *
from xlmon.annot import Annot, VIEW_OPT, unknown_link
from xlmon.judge import judge_sheet, judge_annot
from xlmon.runner import Violation, same, short
import xlrd

ID = "C19"; LEVEL = "exploration"
RULE = "distinct = distinct (version, annotation kind, shape) items stored and compared with what the sheet reports"
ASSUMPTIONS = ["an object's text follows its object record, and a note follows its text, as Excel writes them; text that belongs to no note is not reported",
               "hyperlink strings are NUL-terminated and contain no NUL; the short 8.3 path is reported as the stored bytes, prefixed by its parent-directory count",
               "below BIFF8 the gridline colour is stored as RGB: the reported index must be one of the nearest in the book's colour map",
               "a zoom of 0, or outside 10-400 %, is documented to fall back as described for the cooked factors"]
REQUIRED = {"sheets": 4000, "notes": 4000, "note_pieces": 2000, "midpairs": 100, "links": 4000, "quicktips": 600, "overlaps": 300, "views": 3000, "merged": 1500, "labels": 1000, "breaks": 3000, "nearest": 400, "defaults": 300, "orphans": 300}
CASE_TIMEOUT = 120
VERS = (20, 21, 30, 40, 45, 50, 70, 80, 80, 80, 80)

def plan(tier, seed):
    return specs_for(tier, seed, mix=(7500, 150000), view=(6000, 80000), notes=(6000, 120000), links=(5250, 120000), ranges=(3000, 60000), objects=(3750, 60000))

def book(rng, bv, n=None):
    cp = None if bv >= 80 else rng.choice([1252, 1251, 932, None])
    b = BookB(bv, codepage=cp if bv < 80 else 1200)
    if bv < 50: b.add_format(0, "General")
    if bv != 20: b.add_xf(0)
    b.text = lambda n=40: rand_text(rng, None if bv >= 80 else b.enc, n, astral=bv >= 80)
    if rng.random() < .4 and bv >= 30:
        b.palette = [tuple(rng.randint(0, 255) for _ in range(3)) for _ in range(56 if bv >= 50 else 16)]
    for j in range(1 if bv <= 40 else n or rng.randint(1, 3)):
        sh = b.sheet("S%d" % j, 0, rng.choice([0, 0, 1, 2])); sh.dims = (5, 5)
        Annot(sh)
    return b

def cell(b, rng, sh):
    x = bytes(3) if b.bv == 20 else 0
    if rng.random() < .5: sh.number(rng.randint(0, 20), rng.randint(0, 20), rng.random(), x)
    else: sh.label(rng.randint(0, 20), rng.randint(0, 20), "t%d" % rng.randint(0, 99), x)

def merge_order(rng, a, c):
    """random interleaving of two item lists"""
    out = []; a, c = list(a), list(c)
    while a or c:
        out.append((a if a and (not c or rng.random() < len(a) / float(len(a) + len(c))) else c).pop(0))
    return out

def judge(rng, mon, b, what, combos=None):
    data = wrap(b.stream(rng), b.bv)
    for fmt, rag in combos or [(rng.random() < .6, rng.random() < .2)]:
        bk = open_bytes(data, formatting_info=fmt, ragged_rows=rag, on_demand=rng.random() < .3)
        ws = b.worksheets()
        order = list(range(len(ws))); rng.shuffle(order)
        for j in order:
            sh = ws[j]; s = bk.sheet_by_index(j)
            w = "BIFF%d %s" % (b.bv, what)
            o = judge_sheet(mon, b, sh, s, j, fmt, rag, w)
            a = sh.annot
            mon.count("sheets"); mon.count("notes", len(a.notes)); mon.count("links", len(a.links)); mon.count("merged", len(sh.merged) * fmt)
            mon.count("quicktips", sum(1 for l in a.links if l["quicktip"] is not None)); mon.count("midpairs", a.midpairs)
            mon.count("labels", len(a.row_labels) + len(a.col_labels)); mon.count("breaks", (len(a.hbreaks) + len(a.vbreaks)) * fmt)
            g = a.view["gridline_colour_index"]
            if isinstance(g, tuple) and fmt:      # the colour map is empty without formatting information
                gi = o["view"]["gridline_colour_index"]
                cm = dict((k, v) for k, v in bk.colour_map.items() if v is not None)
                d = lambda v: sum((x - y) ** 2 for x, y in zip(v, g[1]))
                if gi not in cm or d(cm[gi]) != min(map(d, cm.values())): raise Violation("gridline-colour", "%s: gridline colour %r reported as index %r" % (w, g[1], gi))
                mon.count("nearest"); mon.count("comparisons")
            for k, v in a.notes.items(): mon.seen("note", (b.bv, len(v["text"]).bit_length(), len(v["rich_text_runlist"]), v["show"], v["row_hidden"], v["col_hidden"]))
            for l in a.links: mon.seen("link", (l["type"], l["desc"] is None, l["target"] is None, l["textmark"] is None, l["quicktip"] is None, l["lrowx"] - l["frowx"], l["lcolx"] - l["fcolx"]))
            v = a.expected_view(); mon.seen("view", (b.bv,) + tuple(v[x] for x in VIEW_OPT) + (v["scl_mag_factor"] is None, v["has_pane_record"]))
            if len(a.links) > 1 and sum((l["lrowx"] - l["frowx"] + 1) * (l["lcolx"] - l["fcolx"] + 1) for l in a.links) > len(a.linkmap): mon.count("overlaps")
    return bk

def run(spec, mon):
    rng = rng_for(spec); k = spec["kind"]; i = spec["i"]
    bv = VERS[i % len(VERS)]
    if k == "mix":
        b = random_book(rng, bv, density=.3, kinds=rng.random() < .3, small=True, annotations=False)
        for sh in b.worksheets():
            cells = sh.items; sh.items = []
            if rng.random() < .85: random_annot(sh, rng, b.text)
            else: Annot(sh); mon.count("defaults")
            sh.items = merge_order(rng, sh.items, cells)
        b.shuffle_substreams = rng.random() < .3
        return judge(rng, mon, b, "mixed annotations")
    if k == "view": return view(rng, mon, i, bv)
    if k in ("links", "objects", "ranges") or k == "notes" and i % 3: bv = 80 if k in ("links", "objects") else rng.choice([50, 70, 80, 80]) if k == "ranges" else 80
    return {"notes": notes, "links": links, "ranges": ranges, "objects": objects}[k](rng, mon, i, bv)

def view(rng, mon, i, bv):
    b = book(rng, bv)
    for sh in b.sheets:
        a = sh.annot
        if rng.random() < .1: mon.count("defaults"); continue
        jobs = []
        n12 = i // len(VERS)
        bits = (1 << n12 % 12) if n12 < 24 else (0xFFF ^ 1 << n12 % 12) if n12 < 48 else rng.getrandbits(12)
        if rng.random() < .2: bits |= rng.getrandbits(4) << 12
        zs = [0, 1, 9, 10, 11, 59, 60, 61, 99, 100, 101, 399, 400, 401, 65535]
        colour = rng.choice([0, 7, 8, 9, 63, 64, 65, rng.randint(0, 0x7FFF)])
        jobs.append(lambda: a.window2(bits, rng.choice([0, 1, 255, 256, 16383] + [65535] * (bv >= 80)), rng.choice([0, 1, 25, 255]), colour,
                                      rng.choice(list(PAL5) + [(0, 0, 0), (255, 255, 255)]) if rng.random() < .5 else tuple(rng.randint(0, 255) for _ in range(3)),
                                      rng.choice(zs), rng.choice(zs), tail=rng.choice([b"\0\0\0\0", b"", b"\0\0"])))
        if bv >= 40 and rng.random() < .7:
            d = rng.choice([1, 2, 3, 4, 7, 10, 100, 0, rng.randint(1, 65535)]); m = rng.choice([1, 2, 3, 5, 9, 10, 40, 41, 99, 100, 101, 399, 400, 401, rng.randint(0, 65535)])
            jobs.append(lambda: a.scl(m, d))
        if rng.random() < .6: jobs.append(lambda: a.pane(rng.choice([0, 1, 255, rng.randint(0, 65535)]), rng.choice([0, 1, rng.randint(0, 65535)]), rng.choice([0, 1, rng.randint(0, 65535)]), rng.choice([0, 255]), rng.randint(0, 3), rng.choice([b"\0", b""])))
        if rng.random() < .5: jobs.append(lambda: a.defcolwidth(rng.choice([0, 1, 8, 255, 65535])))
        if bv >= 40 and rng.random() < .5: jobs.append(lambda: a.standardwidth(rng.choice([0, 1, 2340, 65535])))
        if bv >= 30 and rng.random() < .5: jobs.append(lambda: a.defrowheight(rng.getrandbits(4), rng.choice([0, 1, 255, 0x7FFF])))
        if rng.random() < .3: jobs.append(jobs[0])                  # stored twice: the later one counts
        if rng.random() < .5: jobs.append(lambda: cell(b, rng, sh))
        rng.shuffle(jobs)
        for j in jobs: j()
        mon.count("views")
    judge(rng, mon, b, "view settings", [(True, False), (False, False)])

def notes(rng, mon, i, bv):
    b = book(rng, bv)
    for sh in b.sheets:
        a = sh.annot; late = []
        used = []
        for j in range(rng.randint(1, 8)):
            L = rng.choice([0, 1, 2, 7, 100, 255, 256, 1000, 2047, 2048, 2049, 4111, 8224, 8225, 9000, 20000]) if rng.random() < .4 else rng.randint(0, 80)
            t = b.text(30) or "x"
            t = (t * (L // len(t) + 1))[:L]
            if bv >= 80 and rng.random() < .3: t = "".join(rng.choice("a\U0001f600é") for _ in range(rng.randint(1, 30)))
            n = u16len(t)
            runs = sorted(rng.sample(range(n), min(n, rng.randint(0, 5)))) if n else []
            runs = [(x, rng.randint(0, 50)) for x in runs]
            if rng.random() < .2 and n: runs.append((n, rng.randint(0, 9)))
            if bv < 80 and len(t.encode(b.enc)) > 65535: t = t[:9000]
            r, c = rng.choice([0, 5, 255, 16383] + [65535] * (bv >= 80)), rng.choice([0, 5, 255])
            if rng.random() < .7: r, c = rng.randint(0, 200), rng.randint(0, 255)
            if bv >= 80 and (r, c) in used and rng.random() < .7: continue
            used.append((r, c))
            split = (rng.choice([None, 1, 2, 3, 7, 2048, 2048]) if n < 200 else rng.choice([2048, 1000, None]) if n < 8000 else 2048) if bv < 80 else rng.random() < .6
            z = a.note(r, c, t, b.text(rng.choice([1, 5, 40])), runs, rng.choice([0, 2, 0x80, 0x100, 0x182, rng.getrandbits(16)]), rng=rng, pad=rng.random() < .7, split=split, midpair=rng.random() < .6)
            mon.count("note_pieces", 1 if split else 0)
            if z: late.append((r, c, z, a.notes[r, c]))
            if rng.random() < .2: cell(b, rng, sh)
        rng.shuffle(late)
        for r, c, z, e in late: sh.raw(z); a.notes[r, c] = e
    judge(rng, mon, b, "notes")

def links(rng, mon, i, bv):
    b = book(rng, bv)
    for sh in b.sheets:
        a = sh.annot
        for j in range(rng.randint(1, 8)):
            kind = ["url", "local file", "unc", "workbook", "unknown", "url"][(i + j) % 6]
            r1 = rng.choice([0, 1, 5, 6, 7, 65535]); c1 = rng.choice([0, 1, 2, 255])
            r2 = min(65535, r1 + rng.choice([0, 0, 0, 1, 3, 20])); c2 = min(255, c1 + rng.choice([0, 0, 0, 1, 3, 20]))
            z = lambda m=0: (rand_text(rng, None, rng.choice([3, 30, 300])).replace("\0", "") or "x" * m)
            p = lambda x: rng.random() < x
            kw = dict(desc=z() if p(.5) else None, target=z() if p(.3) else None, quicktip=z() if p(.3) else None, descbit=rng.choice([0x14, 0x14, 0x10]),
                      textmark=z() if kind == "workbook" or kind != "unknown" and p(.4) else None, trailing=rng.choice([b"", b"", b"\0\0", b"A\0"]))
            if kind == "url": kw.update(url=rng.choice(["http://", "mailto:", "https://", ""]) + z(1), extra24=p(.5))
            elif kind == "unc": kw.update(url="\\\\srv\\" + z())
            elif kind == "local file":
                kw.update(uplevels=rng.randint(0, 9), shortpath=bytes(rng.choice(b"ABCdef~1.xls\\\xe9\xff") for _ in range(rng.randint(0, 40))),
                          url="dir\\" + z() if p(.6) else None)
            elif kind == "unknown": kw.update(unknown_link(rng, z))
            a.hlink((r1, r2, c1, c2), kind, **kw)
            if p(.3): cell(b, rng, sh)
    judge(rng, mon, b, "hyperlinks")

def ranges(rng, mon, i, bv):
    b = book(rng, bv)
    def rl(n):
        out = []
        for _ in range(n):
            r = rng.randint(0, 100); c = rng.randint(0, 250)
            out.append((r, r + rng.choice([1, 1, 2, 40]), c, min(256, c + rng.choice([1, 2, 6]))))
        return out
    for sh in b.sheets:
        a = sh.annot
        for j in range(rng.randint(1, 6)):
            k = rng.randrange(4)
            if k == 0 and bv >= 80: sh.merge(rl(rng.choice([0, 1, 2, 5, 50, 1026] if j == 0 else [0, 1, 3])))
            elif k == 1 and bv >= 80: a.labelranges(rl(rng.choice([0, 1, 4, 100])), rl(rng.choice([0, 1, 4, 100])))
            elif k == 2:
                m = 65535 if bv >= 80 else 16383
                a.pagebreaks(rng.random() < .5, [(rng.choice([0, 1, m, rng.randint(0, m)]), rng.choice([0, rng.randint(0, 65535)]), rng.choice([255, 65535, rng.randint(0, 65535)])) for _ in range(rng.choice([0, 1, 3, 1000]))])
            elif bv >= 40: a.gcw_rec([1 if x == rng.randrange(256) else int(rng.random() < rng.choice([0, .5, 1])) for x in range(256)])
            if rng.random() < .3: cell(b, rng, sh)
    judge(rng, mon, b, "ranges", [(True, rng.random() < .3), (False, False)])

def objects(rng, mon, i, bv):
    """notes among other drawing objects and text that belongs to no note"""
    b = book(rng, bv)
    def txo(text, runs=()):
        n = u16len(text); st = list(runs) + [(n, 0)] if n else []
        return rec(0x1B6, pack("<HHHHHHHHH", 0x212, 0, 0, 0, 0, n, 8 * len(st), 0, 0)) + (rec(0x3C, b"\x01" + text.encode("utf-16le")) + rec(0x3C, b"".join(pack("<HHI", x, y, 0) for x, y in st)) if n else b"")
    def obj(oid, ty=6, tail=b"\0\0\0\0", extra=b""):
        return rec(0xEC, rng.randbytes(24)) + rec(0x5D, pack("<HHHHH12x", 0x15, 18, ty, oid, rng.choice([0x4011, 0x6011, 0])) + extra + tail)
    for sh in b.sheets:
        a = sh.annot; a.objid = 100 * rng.randint(0, 20); late = []
        for j in range(rng.randint(2, 8)):
            k = rng.randrange(7)
            mon.count("orphans", k != 0)
            if k == 0:
                z = rng.choice([b"", b"", rec(0xEC, rng.randbytes(16)), rec(0xEB, rng.randbytes(9))])
                late.append((rng.randint(0, 50), rng.randint(0, 50)))
                r, c = late[-1]
                late[-1] += (a.note(r, c, b.text(20), b.text(5), [], rng.choice([0, 2]), rng=rng, split=True, between=z), a.notes[r, c])
            elif k == 1: sh.raw(obj(5000 + j) + txo("box %d" % j))                       # a text box
            elif k == 2: sh.raw(obj(6000 + j, 8, extra=pack("<HH", 7, 2) + b"\2\0" + pack("<HH", 8, 2) + b"\1\0"))   # a picture
            elif k == 3: sh.raw(txo("stray %d" % j))                                    # text without an object
            elif k == 4: late.append((1, 1, rec(0x1C, pack("<HHHH", 1, 1, 0, 7000 + j) + ustr("ghost", 2) + b"\0"), None))   # a note whose text is nowhere
            elif k == 5: sh.raw(obj(8000 + j, 0x10, extra=pack("<HH", 0x0C, 20) + pack("<4x5H6x", 1, 0, 100, 1, 10)))
            else: sh.raw(obj(9000 + j, 0x14, tail=rng.choice([b"\0\0\0\0", b"\0" * 8, b""])))
            if rng.random() < .3: cell(b, rng, sh)
        a.notes.clear()
        for z in late:
            sh.raw(z[2])
            if z[3] is not None: a.notes[z[:2]] = z[3]
    judge(rng, mon, b, "drawing objects")
