"""C18 - hostile input: opening always ends promptly with a Book or an exception."""
import gc, io, os, resource, struct, sys, time, tracemalloc, zipfile
from xlmon import hostile as H
from xlmon.randbook import *
from xlmon.runner import Violation, short
import xlrd
from xlrd.book import Book

ID = "C18"; LEVEL = "fault_enumeration"
RULE = "distinct = distinct (damage class, outcome type) pairs over all damaged inputs offered"
ASSUMPTIONS = ["promptly: at most 3 s of CPU time plus 40 us per byte and 25 us per declared cell (a file of a few kilobytes otherwise takes milliseconds); hang watchdog at 30 s",
               "memory: peak of Python-allocated memory at most 6 MB plus 300 bytes per byte of input and 60 bytes per cell of the sheets' reported extents and per cell the stored hyperlinks cover",
               "an ordinary exception is any Exception other than RecursionError and MemoryError",
               "a cut record stream must be refused (any ordinary exception); the library's own error is required for empty input, input without a workbook signature, and encrypted workbooks"]
REQUIRED = {"liveness_checked": 15000, "cuts": 8000, "opened": 3000, "usable_cells": 100000, "bombs": 250, "memory_measured": 1500, "encrypted": 200, "bofs": 2000, "near_bof_codes": 300, "refused_by_library_error": 500, "scaling_points": 40}
CASE_TIMEOUT = 200
CASE_RSS = 2600
REACH = True
KINDS = ("records", "streams", "files", "synthetic", "samples", "random")

def plan(tier, seed):
    s = specs_for(tier, seed, mutant=(700, 60000), cuts=(90, 3000), bomb=(40, 200), olebomb=(4, 20), junk=(40, 1500), encrypted=(240, 8000), scale=(30, 120), dumps=(60, 3000), bofs=(40, 1000))
    return s

class Sink(object):
    def write(self, s): pass
    def flush(self): pass

EXTENT = 3000000       # cells; larger grids are not walked

def walk(mon, b, what, fmt):
    """everything a reader would do; without formatting_info no call may fail"""
    names = b.sheet_names()
    if b.biff_version >= 50 and b.nsheets != len(names): raise Violation("sheet-count", "%s: nsheets %d, names %r" % (what, b.nsheets, names))
    total = 0
    for i in range(b.nsheets):
        s = b.sheet_by_index(i)
        total += s.nrows * s.ncols
        if s.nrows * s.ncols > EXTENT: mon.count("big_extents"); continue
        n = 0
        for r in range(s.nrows):
            ty = s.row_types(r); va = s.row_values(r)
            if not (len(ty) == len(va) == s.row_len(r)):
                raise Violation("row-length", "%s: sheet %d row %d: %d types, %d values, row_len %d, ncols %d" % (what, i, r, len(ty), len(va), s.row_len(r), s.ncols))
            for c, (t, v) in enumerate(zip(ty, va)):
                good = (t == 1 and type(v) is str or t in (2, 3) and type(v) in (int, float) or t == 4 and type(v) in (int, bool) or t == 5 and type(v) is int or t in (0, 6) and v == "")
                if not good: raise Violation("cell-type", "%s: sheet %d (%d, %d) has type %r and value %r" % (what, i, r, c, t, v))
                n += 1
            if r < 30:
                row = s.row(r)
                if [x.ctype for x in row] != list(ty): raise Violation("row", "%s: row(%d) disagrees with row_types" % (what, r))
        for c in range(min(s.ncols, 20)): s.col_values(c) if not b.ragged_rows else None
        mon.count("usable_cells", n)
        s.cell_note_map, s.hyperlink_map, s.rowinfo_map, s.colinfo_map
        if fmt: [s.computed_column_width(c) for c in range(0, 256, 17)]
        for x in s.hyperlink_list: x.url_or_path
    for nm in b.name_obj_list:
        nm.name, nm.scope
        for f in (nm.cell, nm.area2d):
            try: f()
            except (xlrd.XLRDError, IndexError): pass
    return total

def links_area(data_recs):
    t = 0
    for rc, d in data_recs:
        if rc == 0x1B8 and len(d) >= 8:
            a, z, y, x = struct.unpack("<HHHH", d[:8])
            if z >= a and x >= y: t += (z - a + 1) * (min(x, 255) - y + 1) if y < 256 else 0
    return t

def attempt(mon, rng, what, data, declared=0, measure=False, **kw):
    """open and read under all monitors -> outcome"""
    kw.setdefault("logfile", Sink())
    state = {}
    def f():
        b = xlrd.open_workbook(file_contents=data, **kw)
        state["b"] = b
        mon.count("opened")
        fmt = bool(kw.get("formatting_info"))
        try:
            state["ext"] = walk(mon, b, what, fmt)
        except Violation: raise
        except Exception as e:
            if kw.get("on_demand"): raise           # loading a sheet is part of opening it
            if not fmt: raise Violation("unusable", "%s: opened, but reading raised %s: %s" % (what, type(e).__name__, e))
            raise
        return b
    if measure:
        tracemalloc.start(); tracemalloc.reset_peak(); m0 = tracemalloc.get_traced_memory()[0]
    t0 = time.process_time()
    try:
        k, v = guarded(mon, what, f, 30)
        cpu = time.process_time() - t0
        if measure: peak = tracemalloc.get_traced_memory()[1] - m0
    finally:
        if measure: tracemalloc.stop()
    ext = state.get("ext", 0)
    if "b" in state and ext == 0:
        try: ext = sum(s.nrows * s.ncols for s in state["b"]._sheet_list if s is not None)
        except Exception: pass
    n = len(data) + 500
    mon.count("assertions", 3)
    # an extent may have been reached by a sheet that then failed: allow one full sheet when something large failed
    if not measure and cpu > 3 + 40e-6 * n + 25e-6 * (ext + declared) and not (k == "exc" and cpu < 12):
        raise Violation("slow", "%s: %d bytes, %d cells took %.1f s of CPU" % (what, len(data), ext, cpu))
    if measure:
        mon.count("memory_measured")
        lim = 6e6 + 300 * n + 60 * ext + 400 * declared + (120 * 65536 if k == "exc" else 0)
        if peak > lim and not (k == "exc" and peak < 400e6):
            raise Violation("memory", "%s: %d bytes, %d cells needed %.1f MB" % (what, len(data), ext, peak / 1e6))
    if k == "exc": mon.count("raised"); mon.seen("outcome", (what.split(" ")[0], type(v).__name__))
    else: mon.seen("outcome", (what.split(" ")[0], "ok"))
    state.clear()
    return k, v

def options(rng):
    kw = {"formatting_info": rng.random() < .5, "on_demand": rng.random() < .25, "ragged_rows": rng.random() < .25}
    if rng.random() < .1: kw["ignore_workbook_corruption"] = True
    if rng.random() < .1: kw["verbosity"] = rng.choice([1, 2, 3])
    if rng.random() < .05: kw["encoding_override"] = rng.choice(["cp1252", "utf-8", "utf-16-le", "ascii", "cp932"])
    return kw

def run(spec, mon):
    return globals()["do_" + spec["kind"]](rng_for(spec), mon, spec["i"], spec)

def do_mutant(rng, mon, i, spec):
    for j in range(25):
        w, d = H.hostile(rng)
        kw = options(rng)
        st = d if d[:4] != b"\xD0\xCF\x11\xE0" else b""
        decl = 0
        if b"\xB8\x01" in d:
            q = d.find(b"\xB8\x01")
            while q >= 0 and decl < 3e7:
                if q + 12 <= len(d): decl += links_area([(0x1B8, d[q + 4:q + 12])])
                q = d.find(b"\xB8\x01", q + 1)
        if decl > 2000000: mon.count("skipped_large_links"); continue
        attempt(mon, rng, "%s %r" % (w, kw), d, declared=decl, measure=rng.random() < .15, **kw)

def do_cuts(rng, mon, i, spec):
    bv = H.VERS[i % len(H.VERS)]
    b = random_book(rng, bv, density=.05, small=True, nsheets=rng.choice([1, 2]), names=True)
    st = b.stream(rng)
    end = len(st)
    if i % 4 == 3:                 # end of the last record read: worksheets may come in any order
        pass
    pts = range(end) if end < 700 else sorted(set([0, 1, 2, 3, 4, 5, 8, end - 1, end - 2, end - 3, end - 4] + [rng.randrange(end) for _ in range(260)]))
    bof = 4 + struct.unpack("<H", st[2:4])[0]
    for p in pts:
        kw = {"formatting_info": rng.random() < .3, "on_demand": rng.random() < .2, "ragged_rows": rng.random() < .2}
        what = "cut at %d of %d BIFF%d %r" % (p, end, bv, kw)
        k, v = attempt(mon, rng, what, st[:p], **kw)
        mon.count("cuts")
        if k == "ok": raise Violation("cut-accepted", "%s: a truncated record stream was opened as if complete" % what)
        if p < bof:
            if not isinstance(v, xlrd.XLRDError): raise Violation("cut-error", "%s: raised %s: %s, not the library's error" % (what, type(v).__name__, v))
            mon.count("refused_by_library_error")
    # the same content in a file
    with Scratch() as d:
        for p in [0, 1, rng.randrange(end), rng.randrange(end)]:
            fn = os.path.join(d, "c%d.xls" % p); open(fn, "wb").write(st[:p])
            for mm in (True, False):
                k, v = guarded(mon, "cut file", lambda: xlrd.open_workbook(fn, use_mmap=mm, logfile=Sink()))
                if k == "ok": raise Violation("cut-accepted", "file cut at %d of %d was opened" % (p, end))
                if p < bof and not isinstance(v, xlrd.XLRDError): raise Violation("cut-error", "file cut at %d raised %s: %s" % (p, type(v).__name__, v))

BOMBS = {}
def do_bomb(rng, mon, i, spec):
    n = 40 if spec["seed"].split(".")[0] and i < 40 else 40
    if "b" not in BOMBS: BOMBS["b"] = H.bombs(random.Random(spec["seed"].split(".")[0]))
    bl = BOMBS["b"]
    for j in range(i % n, len(bl), n):
        name, bv, st, decl = bl[j]
        for kw in ({}, {"formatting_info": True}, {"formatting_info": True, "ragged_rows": True}, {"on_demand": True}) if i < 40 else (options(rng),):
            for measure in (False, True):
                data = wrap(st, bv) if rng.random() < .5 else st
                attempt(mon, rng, "bomb:%s BIFF%d %r" % (name, bv, kw), data, declared=decl, measure=measure, **kw)
        mon.count("bombs")

def do_olebomb(rng, mon, i, spec):
    bl = H.ole_bombs(rng)
    for j in range(i % 4, len(bl), 4):
        name, data = bl[j]
        for kw in ({}, {"ignore_workbook_corruption": True}):
            attempt(mon, rng, "container:%s %r" % (name, kw), data, measure=rng.random() < .5, **kw)
        mon.count("bombs")

BOFCODES = (0x0809, 0x0409, 0x0209, 0x0009)
def do_junk(rng, mon, i, spec):
    for j in range(40):
        k = rng.randrange(9)
        if k == 0: d = b""
        elif k == 1: d = rng.randbytes(rng.choice([1, 2, 3, 4, 7, 8, 20, 100, 5000]))
        elif k == 2: d = bytes([rng.choice([0, 32, 255])]) * rng.choice([1, 2, 4, 8, 100, 100000])
        elif k == 3: d = rng.choice([b"<html><body>", b"name,value\n1,2\n", b"{\"a\": 1}", b"%PDF-1.4", b"\x89PNG\r\n\x1a\n", b"\xef\xbb\xbfa,b\n", b"\x1f\x8b\x08\x00", b"<?xml version=\"1.0\"?>"]) * rng.choice([1, 50])
        elif k == 4: d = b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1"[:rng.randint(1, 8)]
        elif k == 5: d = b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1" + rng.randbytes(rng.choice([0, 10, 504, 2000]))
        elif k == 6:
            L = ole.Layout(); d = ole.build([ole.stream(rng.choice(["WordDocument", "Contents", "workbook2", "Boo"]), rng.randbytes(rng.choice([10, 5000]))), ole.storage("Workbook2", [])], L).data
        elif k == 7: d = struct.pack("<HH", rng.choice(BOFCODES), rng.choice([0, 1, 3, 4, 6, 8, 16, 20, 21, 255, 65535])) + rng.randbytes(rng.choice([0, 1, 4, 8, 20, 300]))
        else:
            bio = io.BytesIO()
            with zipfile.ZipFile(bio, "w") as z: z.writestr("x.txt", "hello")
            d = bio.getvalue()[:rng.choice([2, 4, 10, 60, 10 ** 6, 10 ** 6])]
            if rng.random() < .5:
                x = bytearray(d)
                for _ in range(rng.choice([1, 2, 8])): x[rng.choice([rng.randrange(len(x)), max(0, len(x) - 1 - rng.randrange(80))])] = rng.randrange(256)
                d = bytes(x)
        kw = options(rng)
        what = "junk%d %s... (%d bytes) %r" % (k, d[:12].hex(), len(d), kw)
        r, v = attempt(mon, rng, what, d, measure=rng.random() < .2, **kw)
        if r == "ok" and k != 7: raise Violation("junk-accepted", what + " was opened as a workbook")
        must = (k == 6 or len(d) < 2 or struct.unpack("<H", d[:2])[0] not in BOFCODES) and not d.startswith(b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1") or k == 6
        if must:
            if not isinstance(v, xlrd.XLRDError): raise Violation("junk-error", "%s: raised %s: %s, not the library's error" % (what, type(v).__name__, v))
            mon.count("refused_by_library_error")
    if i % 4 == 0:
        with Scratch() as sc:
            fn = os.path.join(sc, "e.xls"); open(fn, "wb").close()
            for mm in (True, False):
                for od in (True, False):
                    r, v = guarded(mon, "empty file", lambda: xlrd.open_workbook(fn, use_mmap=mm, on_demand=od, logfile=Sink()))
                    if r == "ok" or not isinstance(v, xlrd.XLRDError): raise Violation("empty-file", "an empty file gave %s %r" % (r, v))
                    mon.count("refused_by_library_error")

def bof_version(op, ver, build, year):
    if op == 0x809:
        if ver == 0x600: return 80
        if ver == 0x500: return 50 if year < 1994 or build in (2412, 3218, 3321) else 70
        return {0: 21, 7: 21, 0x200: 21, 0x300: 30, 0x400: 40}.get(ver, 0)
    return {0x409: 40, 0x209: 30, 9: 21}[op]

def minimal(rng):
    """the rest of a small worksheet or workbook"""
    b = random_book(rng, rng.choice([21, 30, 40, 80]), density=.05, small=True, nsheets=1)
    st = b.stream(rng)
    return st[4 + struct.unpack("<H", st[2:4])[0]:]

def do_bofs(rng, mon, i, spec):
    """streams that begin with the record of something other than a workbook"""
    for j in range(60):
        op = rng.choice(BOFCODES); ver = rng.choice([0x600, 0x600, 0x500, 0x500, 0, 2, 7, 0x200, 0x300, 0x400, 0x700, 0xFFFF, rng.getrandbits(16)])
        kind = rng.choice([5, 5, 0x10, 0x10, 6, 0x20, 0x40, 0x100, 0, 0xFFFF, rng.getrandbits(16)])
        build, year = rng.choice([0, 2412, 3218, 3321, 4321]), rng.choice([0, 1993, 1994, 1997])
        n = rng.choice([8, 8, 8, 16, 4, 6, 0, 1, 2, 3, 20, 21, 64, 0x1000, 0xFFFF])
        v = bof_version(op, ver, build, year)
        if n < 8 and op == 0x809: v = bof_version(op, ver, build if n >= 6 else 0, 0)
        bad = not 4 <= n <= 20 or v == 0
        if not bad: bad = not (kind == 5 or kind == 0x10 and v < 50 or kind == 0x100 and v == 40)
        body = (struct.pack("<HHHH", ver, kind, build, year) + rng.randbytes(20))[:n]
        body += bytes(max(0, min(n, 5000) - len(body)))
        rest = rng.choice([b"", rec(0x0A), rec(0x42, b"\xb0\x04") + rec(0x0A), rng.randbytes(30)])
        d = struct.pack("<HH", op, n) + body + rest
        if n > len(body): bad = True
        if rng.random() < .2:                  # a code one or two bits away from a beginning-of-file record's, or any other
            near = rng.choice(BOFCODES) ^ (1 << rng.randrange(16)) ^ rng.choice([0, 0, 1 << rng.randrange(16)]) if rng.random() < .8 else rng.getrandbits(16)
            if near not in BOFCODES and near not in (0x4B50, 0xCFD0):
                op, bad, n = near, True, rng.choice([8, 16]); body = (body + bytes(16))[:n]; mon.count("near_bof_codes")
                ver, kind = rng.choice([(0x600, 5), (0x500, 5), (0x200, 0x10), (0, 0x10)]); body = struct.pack("<HH", ver, kind) + body[4:]
                rest = rng.choice([rest, minimal(rng)])
                d = struct.pack("<HH", op, n) + body + rest
        kw = options(rng)
        what = "BOF %#x version %#x stream %#x length %d build %d year %d %r" % (op, ver, kind, n, build, year, kw)
        if v == 45 or v and v <= 45 and kind == 0x100: pass
        r, e = attempt(mon, rng, what, wrap(d, 80) if rng.random() < .3 else d, **kw)
        mon.count("bofs")
        if bad:
            if r == "ok": raise Violation("not-a-workbook-accepted", what + ": opened")
            if not isinstance(e, xlrd.XLRDError): raise Violation("not-a-workbook-error", "%s: raised %s: %s, not the library's error" % (what, type(e).__name__, e))
            mon.count("refused_by_library_error")
        elif r == "ok" and rest and rest[0] == 0x0A and len(rest) == 4:
            mon.count("bofs_accepted")

def do_encrypted(rng, mon, i, spec):
    bv = H.VERS[i % len(H.VERS)]
    b = random_book(rng, bv, density=.1, small=True, names=True)
    body = {0: struct.pack("<HH", rng.getrandbits(16), rng.getrandbits(16)), 1: struct.pack("<HHH", 0, rng.getrandbits(16), rng.getrandbits(16)),
            2: struct.pack("<HHH", 1, 1, 1) + rng.randbytes(48), 3: struct.pack("<HHH", 1, 2, 1) + rng.randbytes(200)}[rng.randrange(4)]
    st = b.stream(rng); rs = H.records(st)
    fp = (0x2F, body)
    at = rng.choice([1, 1, 2, 3])
    n = next(j for j, (rc, d) in enumerate(rs) if rc == 0x0A)
    at = min(at, n)
    rs[at:at] = [fp]
    st = H.join(rs)
    if rng.random() < .7:                         # what follows is scrambled
        q = len(H.join(rs[:at + 1])); a = bytearray(st)
        p = q
        while p + 4 <= len(a):
            ln = struct.unpack("<H", a[p + 2:p + 4])[0]
            a[p + 4:p + 4 + ln] = rng.randbytes(len(a[p + 4:p + 4 + ln])); p += 4 + ln
        st = bytes(a)
    kw = {"formatting_info": rng.random() < .5, "on_demand": rng.random() < .5, "ragged_rows": rng.random() < .3}
    what = "encrypted BIFF%d, FILEPASS as record %d, %r" % (bv, at, kw)
    k, v = attempt(mon, rng, what, wrap(st, bv) if rng.random() < .7 else st, **kw)
    mon.count("encrypted")
    if k == "ok": raise Violation("encrypted-accepted", what + ": opened")
    if not isinstance(v, xlrd.XLRDError) or "encrypt" not in str(v).lower(): raise Violation("encrypted-error", "%s: raised %s: %s" % (what, type(v).__name__, v))

def do_dumps(rng, mon, i, spec):
    """the record dump and count of damaged files end as well"""
    with Scratch() as sc:
        for j in range(6):
            w, d = H.hostile(rng)
            fn = os.path.join(sc, "h%d.xls" % j); open(fn, "wb").write(d)
            for nm, f in (("dump", xlrd.dump), ("count", xlrd.count_records)):
                t0 = time.process_time()
                k, v = guarded(mon, "%s of %s" % (nm, w), lambda: f(fn, Sink()), 30)
                if time.process_time() - t0 > 4 + 1e-4 * len(d): raise Violation("slow", "%s of %s: %d bytes took %.1f s" % (nm, w, len(d), time.process_time() - t0))

# ---------------------------------------------------------------- scaling

def sc_cells(n, rng):
    b = BookB(80); b.add_xf(0); sh = b.sheet("S")
    for r in range(n // 10):
        for c in range(10): sh.number(r % 65536, c + 10 * (r // 65536), 1.5)
    return 80, b.stream(rng)
def sc_unordered(n, rng):
    b = BookB(80); b.add_xf(0); sh = b.sheet("S")
    for r in reversed(range(n // 10)):
        for c in reversed(range(10)): sh.number(r, c, 1.5)
    return 80, b.stream(rng)
def sc_sst(n, rng):
    b = BookB(80); b.add_xf(0); sh = b.sheet("S")
    for r in range(n // 8): sh.labelsst(r % 60000, r // 60000, b.add_sst("text %d" % r))
    return 80, b.stream(rng)
def sc_long(n, rng):
    b = BookB(80); b.add_xf(0); sh = b.sheet("S")
    for r in range(max(1, n // 700)): sh.labelsst(r, 0, b.add_sst("x" * 32000))
    return 80, b.stream(rng)
def sc_old(n, rng):
    b = BookB(30, codepage=1252); b.add_format(0, "General"); b.add_xf(0); sh = b.sheet("S")
    for r in range(n // 10):
        for c in range(10): sh.label(r % 16384, c + 10 * (r // 16384), "t")
    return 30, b.stream(rng)
def sc_names(n, rng):
    return 80, H._names(rng, 80, [b"\x1E\x01\x00"] * (n // 12))
def sc_chain(n, rng):
    return 80, H._names(rng, 80, [b"\x1E\x01\x00"] + [H._tname(80, i - 1) for i in range(1, n // 15)])
def sc_sheets(n, rng):
    b = BookB(80); b.add_xf(0)
    for i in range(n // 200): b.sheet("S%d" % i).number(0, 0, 1.0)
    return 80, b.stream(rng)
def sc_formats(n, rng):
    b = BookB(80); b.add_xf(0); b.sheet("S")
    b.post += [rec(0x41E, struct.pack("<HHB", 164 + j % 60000, 8, 0) + b"0.00;[h]") for j in range(n // 10)]
    return 80, b.stream(rng)
def sc_xfs(n, rng):
    b = BookB(80); b.add_xf(0); b.sheet("S")
    b.post += [rec(0xE0, bytes(20))] * (n // 30)
    return 80, b.stream(rng)
def sc_fonts(n, rng):
    b = BookB(80); b.add_xf(0); b.sheet("S")
    b.post += [rec(0x31, struct.pack("<HHHHHBBBB", 200, 0, 8, 400, 0, 0, 0, 0, 0) + b"\1\0A")] * (n // 15)
    return 80, b.stream(rng)
def sc_rows(n, rng):
    b = BookB(80); b.add_xf(0); sh = b.sheet("S")
    for j in range(n // 8): sh.raw(rec(0x208, struct.pack("<HHHHHHHH", j % 65536, 0, 1, 255, 0, 0, 0x100, 15)))
    return 80, b.stream(rng)
def sc_notes(n, rng):
    b = BookB(50, codepage=1252); b.add_xf(0); sh = b.sheet("S")
    for j in range(n // 10): sh.raw(rec(0x1C, struct.pack("<HHH", j % 16384, j // 16384, 3) + b"abc"))
    return 50, b.stream(rng)
def sc_links(n, rng):
    b = BookB(80); b.add_xf(0); sh = b.sheet("S")
    for j in range(n // 30):
        sh.raw(rec(0x1B8, struct.pack("<HHHH", j % 65536, j % 65536, 0, 0) + bytes.fromhex("D0C9EA79F9BACE118C8200AA004BA90B") + struct.pack("<iI", 2, 8) + struct.pack("<I", 2) + "a\0".encode("utf-16le")))
    return 80, b.stream(rng)
def sc_merged(n, rng):
    b = BookB(80); b.add_xf(0); sh = b.sheet("S")
    for j in range(n // 1000): sh.raw(rec(0xE5, struct.pack("<H", 1000) + b"".join(struct.pack("<HHHH", (j * 1000 + q) % 60000, (j * 1000 + q) % 60000, 0, 1) for q in range(1000))))
    return 80, b.stream(rng)
def sc_zero(n, rng):
    b = BookB(80); b.add_xf(0); sh = b.sheet("S"); sh.raw(bytes(4 * n)); 
    return 80, b.stream(rng)
def sc_text(n, rng):
    b = BookB(80); b.add_xf(0); sh = b.sheet("S")
    # one object text in pieces
    sh.raw(rec(0x5D, struct.pack("<HHHHH", 0x15, 18, 0x19, 1, 0) + bytes(12) + struct.pack("<HH", 0, 0)))
    for j in range(n // 3000):
        sh.raw(rec(0x1B6, struct.pack("<HH6sHHH", 0, 0, bytes(6), 3000, 0, 0)) + rec(0x3C, b"\0x") * 3000)
    return 80, b.stream(rng)
def sc_formula(n, rng):
    b = BookB(80); b.add_xf(0); sh = b.sheet("S")
    for r in range(n // 8): sh.raw(rec(6, struct.pack("<HHHdHI", r % 65536, r // 65536, 0, 1.0, 0, 0) + struct.pack("<H", 3) + b"\x1E\1\0"))
    return 80, b.stream(rng)
def sc_longname(n, rng):
    # few names with long formulas: quadratic in one formula's length only
    return 80, H._names(rng, 80, [b"\x1E\x01\x00" * 200 + b"\x03" * 199] * (n // 200))
def sc_externs(n, rng):
    b = BookB(80); b.add_xf(0); b.sheet("S")
    b.post += [rec(0x1AE, struct.pack("<H", 3) + b"\x08\0\0a.xls\0\0\0" + b"\1\0\0A" * 3), rec(0x17, struct.pack("<H", 1) + bytes(6))] * (n // 20)
    return 80, b.stream(rng)
SCALES = ("cells", "unordered", "sst", "long", "old", "names", "chain", "sheets", "formats", "xfs", "fonts", "rows", "notes", "links", "merged", "zero", "text", "formula", "longname", "externs")

def do_scale(rng, mon, i, spec):
    """work grows in proportion to the input: one size against four times that size"""
    ways = [(s, c) for c in ("raw", "ole", "oleshuffled") for s in SCALES]
    nm, cont = ways[(i if i < 20 else 20 + (i * 7) % 40) % len(ways)]
    fmt = rng.random() < .5
    mk = globals()["sc_" + nm]
    res = []
    def once(n):
        bv, st = mk(n, random.Random(5))
        L = None
        if cont != "raw":
            if bv < 50: data = st
            else:
                L = ole.Layout(); L.order = "shuffle" if cont == "oleshuffled" else "plain"
                data = ole.build([ole.stream("Workbook" if bv >= 80 else "Book", st)], L).data
        else: data = st
        best = None
        for _ in range(3):
            gc.collect()
            t0 = time.process_time()
            k, v = guarded(mon, "scale %s %s n=%d" % (nm, cont, n), lambda: xlrd.open_workbook(file_contents=data, formatting_info=fmt, logfile=Sink()), 120)
            t = time.process_time() - t0
            del v
            best = t if best is None else min(best, t)
            if best < .02: break
        if k == "exc": raise Violation("scale-refused", "%s %s n=%d was refused" % (nm, cont, n))
        return best, len(data)
    n = 4000
    t1, z1 = once(n)
    while t1 < .05 and n < 200000: n *= 2; t1, z1 = once(n)
    t4, z4 = once(4 * n)
    growth = (t4 / max(t1, .02)) / (float(z4) / z1)
    mon.count("scaling_points", 2); mon.seen("scale", (nm, cont))
    mon.sample("%s in %s: %d bytes %.3f s, %d bytes %.3f s" % (nm, cont, z1, t1, z4, t4))
    if growth > 2.6:
        t1b, _ = once(n); t4b, _ = once(4 * n)
        growth = min(growth, (min(t4, t4b) / max(t1, t1b, .02)) / (float(z4) / z1))
        if growth > 2.6: raise Violation("not-proportional", "%s in %s, formatting_info=%s: %d bytes took %.2f s, %d bytes %.2f s" % (nm, cont, fmt, z1, t1, z4, t4))
