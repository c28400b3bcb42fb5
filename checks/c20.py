"""C20 - record dump, record count and the command-line tool agree with the file."""
import contextlib, gc, io, re, runpy, subprocess, sys, time
from xlmon.randbook import *
from xlmon import hostile as H, samples as SM
from xlmon.runner import Violation, same, short, REPO
import xlrd

ID = "C20"; LEVEL = "exploration"
RULE = "distinct = distinct (version, container, record codes and sizes) streams whose dump was read back, and (command, options, version) runs of the tool"
ASSUMPTIONS = ["an all-zero tail is padding: it is listed as skipped bytes and not counted", "the tool's hotshot command needs Python 2 and isn't run",
               "the tool's load and command times are not judged"]
REQUIRED = {"dumps": 2500, "dump_records": 100000, "counts": 2500, "tails": 400, "gaps": 300, "too_long": 200, "misc": 200, "unknown": 500, "embedded": 800,
            "cli": 1200, "cli_cells": 20000, "cli_fail": 60, "cli_subprocess": 30, "label_cells": 200, "names_shown": 300, "sample_books": 60}
CASE_TIMEOUT = 120
VERS = (20, 21, 30, 40, 45, 50, 70, 80, 80, 80, 80)
SCRIPT = os.path.join(REPO, "scripts", "runxlrd.py")

def plan(tier, seed):
    return specs_for(tier, seed, dump=(4200, 90000), cli=(2250, 45000), process=(45, 300), full=(1, 4))

# names every reference on the format gives to these records
NAMES = {0x809: "BOF", 0x409: "BOF", 0x209: "BOF", 0x0A: "EOF", 0x85: "BOUNDSHEET", 0xFC: "SST", 0xFD: "LABELSST", 0x203: "NUMBER", 0x204: "LABEL", 0x205: "BOOLERR", 0x27E: "RK", 0xBD: "MULRK",
         0xBE: "MULBLANK", 0x201: "BLANK", 0x208: "ROW", 0x3C: "CONTINUE", 0x42: "CODEPAGE", 0x22: "DATEMODE", 0x31: "FONT", 0x41E: "FORMAT", 0xE0: "XF", 0x293: "STYLE", 0x92: "PALETTE", 0xE5: "MERGEDCELLS",
         0x1B8: "HLINK", 0x1B6: "TXO", 0x1C: "NOTE", 0x207: "STRING", 0x17: "EXTERNSHEET", 0x1AE: "SUPBOOK", 0x8C: "COUNTRY", 0x5C: "WRITEACCESS", 0x7D: "COLINFO", 0x15F: "LABELRANGES", 0x41: "PANE",
         0x23E: "WINDOW2", 0xD6: "RSTRING", 0x200: "DIMENSIONS", 0x06: "FORMULA"}

def walk(st):
    """the stream's contents: ('rec', offset, code, length, bytes) / ('zero', offset, n) / ('misc', offset, bytes)"""
    out = []; p = 0; n = len(st); tail = len(st.rstrip(b"\0"))
    while n - p >= 4:
        rc, ln = struct.unpack("<HH", st[p:p + 4])
        if rc == 0 and ln == 0:
            k = n - p if p >= tail else 4
            if out and out[-1][0] == "zero" and out[-1][1] + out[-1][2] == p: out[-1] = ("zero", out[-1][1], out[-1][2] + k)
            else: out.append(("zero", p, k))
            p += k
            continue
        out.append(("rec", p, rc, ln, st[p + 4:p + 4 + ln])); p += 4 + ln
    if p < n: out.append(("misc", p, st[p:]))
    return out

HEX = re.compile(r"     ((?:[0-9a-f]{2} )+) *")
HEAD = re.compile(r"([0-9a-f]{4}) (.+) len = ([0-9a-f]{4,}) \((\d+)\)$")
ZERO = re.compile(r"---- (\d+) zero bytes skipped ----$")

def parse_dump(text, numbered, what):
    """read a dump back: (items as walk() makes them, names by code, too-long length or None)"""
    items = []; names = {}; toolong = None
    cur = None
    def bad(line, why): raise Violation("dump-line", "%s: %s: %r" % (what, why, line))
    lines = text.split("\n")
    if lines[-1] != "": bad(lines[-1], "no end of line")
    at = 0
    for line in lines[:-1]:
        if not items and line.startswith(("WARNING", "@@@@")): continue
        m = re.match(r"Last dumped record has length \((\d+)\) that is too large$", line)
        if m: toolong = int(m.group(1)); continue
        off = None
        if numbered:
            m = re.match(r" *(\d+): ", line)
            if not m: bad(line, "no offset")
            off = int(m.group(1)); line = line[m.end():]
        m = ZERO.match(line)
        if m:
            k = int(m.group(1))
            o = off if numbered else at
            if items and items[-1][0] == "zero" and items[-1][1] + items[-1][2] == o: items[-1] = ("zero", items[-1][1], items[-1][2] + k)
            else: items.append(("zero", o, k))
            at = o + k; cur = None
            continue
        if line == "---- Misc bytes at end ----":
            cur = ["misc", off if numbered else at, bytearray()]; items.append(cur); want = off
            continue
        m = HEAD.match(line)
        if m and not line.startswith("     "):
            rc = int(m.group(1), 16); ln = int(m.group(3), 16)
            if ln != int(m.group(4)): bad(line, "two lengths")
            if names.setdefault(rc, m.group(2)) != m.group(2): bad(line, "a code with two names")
            cur = ["rec", off if numbered else at, rc, ln, bytearray()]; items.append(cur)
            at = cur[1] + 4 + ln; want = cur[1] + 4
            continue
        m = HEX.match(line[:53])
        if m and cur is not None:
            h = bytes(int(x, 16) for x in m.group(1).split())
            c = line[54:]
            if len(h) > 16 or line[53:54] != " ": bad(line, "layout")
            if c != "".join("~" if x == 0 else chr(x) if 32 <= x <= 126 else "?" for x in h): bad(line, "characters don't match the bytes")
            if numbered and off not in (want, want - 4 * (cur[0] == "rec")): bad(line, "bytes at offset %r, expected %r" % (off, want))
            if numbered and cur[0] == "rec" and off == want - 4: pass
            cur[-1] += h
            want = off + len(h) if numbered else None
            continue
        bad(line, "unexpected line")
    return [tuple(bytes(x) if isinstance(x, bytearray) else x for x in i) for i in items], names, toolong

def containers(rng, st, bv):
    """the stream stored in several ways"""
    out = [("bare", st)]
    if bv >= 50 or bv == 45:
        nm = "Workbook" if bv >= 80 else "Book"
        k = rng.random()
        if k < .4:
            # one run of sectors, with more of the file after it
            c = ole.build([ole.stream(nm, st), ole.stream("zz", rng.randbytes(5000))], ole.random_layout(rng)).data
            out = [("container", c)]
        elif k < .7: out = [("simple", ole.simple(st, nm))]
        elif k < .8: out.append(("container", ole.build([ole.stream(nm, st)], ole.random_layout(rng)).data))
    return out

def stream(rng, bv, mon):
    """a workbook stream, with all the oddities a record stream may have"""
    if rng.random() < .25:
        b = random_book(rng, bv, density=rng.choice([.05, .3]), kinds=rng.random() < .3, names=True)
    else:
        b = random_book(rng, bv, density=.05, small=True, names=True, nsheets=rng.choice([1, 2]))
    if rng.random() < .3: b.noise = lambda rng: rec(rng.randrange(0x900, 0x1000), rng.randbytes(rng.choice([0, 1, 15, 16, 17, 33])))
    st = b.stream(rng)
    rs = H.records(st)
    for _ in range(rng.choice([0, 0, 1, 3, 8])):
        i = rng.randrange(1, len(rs) + 1)
        rs.insert(i, (rng.choice([0x862, 0x1234, 0x7777, 0xFFFF, 0xAAAA, 0x0A, 0x1B8, 0, 1]), rng.randbytes(rng.choice([0, 1, 2, 15, 16, 17, 31, 32, 33, 255, 8224, 65535][:rng.choice([10, 12])]))))
    st = b"".join(rec(rc, d) for rc, d in rs)
    if rng.random() < .2:                       # a run of zeros between records
        p = 0; cut = rng.randrange(1, len(rs) + 1)
        p = sum(4 + len(d) for _, d in rs[:cut])
        st = st[:p] + bytes(4 * rng.choice([1, 1, 2, 5, 128, 300])) + st[p:]
    k = rng.random()
    if k < .25: st += bytes(rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 100, 508, 512, 1021, 4096]))
    elif k < .4: st += bytes(4 * rng.randint(0, 3)) + rng.choice([b"\1", b"\0\1", b"\0\0\1", b"ab", b"\xff\xff\xff"])
    elif k < .5: st += rec(0x203, rng.randbytes(14))[:rng.choice([4, 5, 10, 17])]
    elif k < .55: st += struct.pack("<HH", rng.choice([0x203, 0x777, 0]), rng.choice([1, 16, 17, 8000, 65535])) + bytes(rng.choice([0, 1, 16, 20]))
    elif k < .6: st += rec(0, b"") * rng.randint(1, 3) + rec(0x0A)
    return st

def judge_dump(mon, st, path, what, rng):
    exp = walk(st)
    names = {}
    for unnumbered in (False, True) if rng.random() < .5 else (rng.random() < .3,):
        out = io.StringIO()
        kw = {"unnumbered": True} if unnumbered else {} if rng.random() < .5 else {"unnumbered": False}
        xlrd.dump(path, outfile=out, **kw)
        got, nm, toolong = parse_dump(out.getvalue(), not unnumbered, what)
        if got != exp:
            for x, y in zip(got + [None] * len(exp), exp + [None] * len(got)):
                if x != y: raise Violation("dump", "%s (%s): dump has %s, the stream %s" % (what, "unnumbered" if unnumbered else "numbered", short(x, 200), short(y, 200)))
        last = exp[-1] if exp else None
        short_rec = last[3] if last and last[0] == "rec" and len(last[4]) < last[3] else None
        mon.equal(toolong, short_rec, "dump-too-long", "%s: length reported too large" % what)
        if short_rec is not None: mon.count("too_long")
        names.update(nm)
        mon.count("dumps"); mon.count("dump_records", len(exp)); mon.count("comparisons", len(exp))
        for e in exp:
            if e[0] == "rec": mon.seen("rec", (e[2], min(e[3], 40)))
    for rc, n in names.items():
        if rc in NAMES and not n.upper().startswith(NAMES[rc]): raise Violation("record-name", "%s: record %04x is called %s" % (what, rc, n))
    return exp, names

def judge_count(mon, exp, names, path, what):
    out = io.StringIO()
    xlrd.count_records(path, outfile=out)
    return compare_count(mon, exp, names, out.getvalue(), what)

def compare_count(mon, exp, names, text, what):
    want = {}; unknown = {}
    tail = exp[-1] if exp and exp[-1][0] == "zero" else None
    for e in exp:
        if e[0] == "rec":
            n = names[e[2]]
            if "UNKNOWN" in n.upper() and n.startswith("<"): n = "unknown %04x" % e[2]
            want[n] = want.get(n, 0) + 1
        elif e[0] == "zero" and e is not tail: want["zero"] = want.get("zero", 0) + e[2] // 4
    got = {}; order = []
    for line in text.splitlines():
        if not got and line.startswith(("WARNING", "@@@@")): continue
        m = re.match(r" *(\d+) (.+)$", line)
        if not m: raise Violation("count-line", "%s: %r" % (what, line))
        n = m.group(2); order.append(n)
        m2 = re.match(r"Unknown_0x([0-9A-Fa-f]{4})$", n)
        if m2: n = "unknown %04x" % int(m2.group(1), 16)
        elif n == "<Dummy (zero)>": n = "zero"
        if n in got: raise Violation("count-twice", "%s: two lines for %s" % (what, n))
        got[n] = int(m.group(1))
    if got != want:
        d = [(k, got.get(k), want.get(k)) for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)]
        raise Violation("count", "%s: counts (name, counted, in the stream): %s" % (what, short(d)))
    mon.equal(order, sorted(order), "count-order", "%s: count lines sorted by name" % what)
    mon.count("counts"); mon.count("comparisons", len(want)); mon.count("unknown", sum(v for k, v in want.items() if k.startswith("unknown")))

# ------------------------------------------------------------------ command line

def cli(args, mon):
    """run the script in this process -> (exit code, stdout, stderr)"""
    out, err = io.StringIO(), io.StringIO()
    av, gcs, path = sys.argv, gc.isenabled(), list(sys.path)
    sys.argv = [SCRIPT] + list(args)
    code = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try: runpy.run_path(SCRIPT, run_name="__main__")
            except SystemExit as e: code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except Exception as e:
                import traceback
                code = "%s: %s (%s)" % (type(e).__name__, e, traceback.format_exc().strip().splitlines()[-2].strip())
    finally:
        sys.argv = av; sys.path[:] = path
        (gc.enable if gcs else gc.disable)()
    return code, out.getvalue(), err.getvalue()

def process(args, cwd=None):
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONIOENCODING="utf-8", PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, SCRIPT] + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, timeout=100)
    return p.returncode, p.stdout.decode("utf-8"), p.stderr.decode("utf-8", "replace")

def cell_lines(bk, sh, rows):
    """what a sheet's rows are shown as, from the library's own API"""
    out = []
    for r in rows:
        row = []
        for c in range(sh.row_len(r)):
            t, v = sh.cell_type(r, c), sh.cell_value(r, c)
            if t == xlrd.XL_CELL_DATE:
                try: v = xlrd.xldate_as_tuple(v, bk.datemode)
                except xlrd.XLDateError as e:
                    v = "%s:%s" % (type(e).__name__, e); t = xlrd.XL_CELL_ERROR
            elif t == xlrd.XL_CELL_ERROR:
                v = xlrd.error_text_from_code.get(v, "<Unknown error code 0x%02x>" % v)
            row.append(("%s%d" % (xlrd.colname(c), r + 1), t, repr(v), str(sh.cell_xf_index(r, c)) if bk.formatting_info else None))
        if row: out.append(row)
    return out

CELL = re.compile(r"cell ([A-Z]+\d+): type=(-?\d+), data: (.*?)(?:, xfx: (\d+))?$")
SHEET = re.compile(r"sheet (\d+): name = (.*); nrows = (\d+); ncols = (\d+)$")

def parse_show(text):
    """-> [(sheet number, name, nrows, ncols, [rows of cells])]"""
    out = []; fresh = True
    for line in text.split("\n"):
        m = SHEET.match(line)
        if m: out.append((int(m.group(1)), m.group(2), int(m.group(3)), int(m.group(4)), [])); fresh = True; continue
        m = CELL.match(line)
        if m and out:
            if fresh: out[-1][4].append([])
            out[-1][4][-1].append((m.group(1), int(m.group(2)), m.group(3), m.group(4))); fresh = False
            continue
        fresh = True
    return out

BIFFTEXT = {20: "2.0", 21: "2.1", 30: "3", 40: "4S", 45: "4W", 50: "5", 70: "7", 80: "8"}

def check_header(mon, text, bk, what, timing):
    def want(s):
        mon.count("comparisons")
        if s not in text: raise Violation("cli-header", "%s: %r isn't in the overview %s" % (what, s, short(text, 600)))
    want("BIFF version: %s; datemode: %s" % (BIFFTEXT[bk.biff_version], bk.datemode))
    want("codepage: %r (encoding: %s); countries: %r" % (bk.codepage, bk.encoding, bk.countries))
    want("Last saved by: %r" % bk.user_name)
    want("Number of data sheets: %d\n" % bk.nsheets)
    want("Formatting: %d; On demand: %d" % (bk.formatting_info, bk.on_demand))
    want("Ragged rows: %d" % bk.ragged_rows)
    if bk.formatting_info: want("FORMATs: %d, FONTs: %d, XFs: %d" % (len(bk.format_list), len(bk.font_list), len(bk.xf_list)))
    if ("Load time" in text) == (not timing): raise Violation("cli-timing", "%s: timing shown: %r" % (what, "Load time" in text))

CMDS = ("show", "show", "hdr", "ov", "2rows", "3rows", "bench", "fonts", "names", "name_dump", "labels", "xfc")

def check_output(mon, cmd, text, err, bk, what, timing, onesheet, log=False):
    """compare one file's part of the output with the library"""
    if cmd != "labels" or any(bk.sheet_by_index(j).col_label_ranges or bk.sheet_by_index(j).row_label_ranges for j in range(bk.nsheets)):
        check_header(mon, text, bk, what, timing)
    shows = {"show": None, "ov": 0, "2rows": 2, "3rows": 3, "bench": None}
    rng = [onesheet] if onesheet is not None and cmd in shows else list(range(bk.nsheets))
    if cmd in shows:
        got = parse_show(text)
        mon.equal([g[0] for g in got], rng, "cli-sheets", "%s: sheets shown" % what)
        for j, name, nr, nc, rows in got:
            sh = bk.sheet_by_index(j); w = "%s: sheet %d" % (what, j)
            mon.equal((name, nr, nc), (ascii(sh.name), sh.nrows, sh.ncols), "cli-sheet", w)
            k = shows[cmd]
            want = [] if cmd in ("ov", "bench") else cell_lines(bk, sh, range(sh.nrows) if k is None or sh.nrows <= k else list(range(k - 1)) + [sh.nrows - 1])
            if rows != want:
                for x, y in zip(rows + [None] * len(want), want + [None] * len(rows)):
                    if x != y: raise Violation("cli-cells", "%s: row shown %s, the library says %s" % (w, short(x), short(y)))
            mon.count("cli_cells", sum(map(len, rows)))
    elif cmd == "fonts":
        t = text + err
        for n, f in enumerate(bk.font_list):
            m = re.search(r"^== Index %d ==$(.*?)(?=^== Index |\Z)" % n, t, re.M | re.S)
            mon.check(m is not None, "cli-fonts", "%s: font %d isn't listed" % (what, n))
            for a in sorted(set(("name", "height", "weight", "bold", "italic", "colour_index", "escapement", "font_index")) & set(vars(f))):
                if not {"%s: %r" % (a, getattr(f, a)), "%s: %s" % (a, ascii(getattr(f, a)))} & set([x.strip() for x in m.group(1).split("\n")]): raise Violation("cli-fonts", "%s: font %d: %s %r isn't shown in %s" % (what, n, a, getattr(f, a), short(m.group(1), 600)))
            mon.count("comparisons", 8)
    elif cmd in ("names", "name_dump"):
        if bk.biff_version < 50:
            mon.check("not extracted" in text, "cli-names", "%s: no word on names" % what)
            return
        if "Name list: %d entries" % len(bk.name_obj_list) not in text: raise Violation("cli-names", "%s: not %d entries" % (what, len(bk.name_obj_list)))
        pos = 0
        for n in bk.name_obj_list:
            s = "[%d]\tName:%r macro:%r scope:%d\n\tresult:%r\n" % (n.name_index, n.name, n.macro, n.scope, n.result) if cmd == "names" else "=== Dump of name_obj_list[%d] ===" % n.name_index
            p = text.find(s, pos)
            if p < 0: raise Violation("cli-names", "%s: %r isn't shown (in its place)" % (what, s))
            pos = p + len(s); mon.count("names_shown"); mon.count("comparisons")
            if cmd == "name_dump":
                e = text.find("=== Dump of name_obj_list[", pos)
                part = [x.strip() for x in text[pos:e if e >= 0 else None].split("\n")]
                for a in ("name", "scope", "hidden", "macro", "binary", "builtin", "vbasic", "func", "funcgroup", "complex", "evaluated"):
                    if not {"%s: %r" % (a, getattr(n, a)), "%s: %s" % (a, ascii(getattr(n, a)))} & set(part): raise Violation("cli-names", "%s: name %d: %s %r isn't shown" % (what, n.name_index, a, getattr(n, a)))
                    mon.count("comparisons")
    elif cmd == "labels":
        want = []
        for j in range(bk.nsheets):
            sh = bk.sheet_by_index(j)
            for title, labs in (("Col", sh.col_label_ranges), ("Row", sh.row_label_ranges)):
                for rlo, rhi, clo, chi in labs:
                    want.append((title, xlrd.cellname(rlo, clo), xlrd.cellname(rhi - 1, chi - 1),
                                 [(xlrd.cellname(r, c), repr(sh.cell_value(r, c))) for r in range(rlo, min(rhi, sh.nrows)) for c in range(clo, min(chi, sh.row_len(r)))]))
        got = []
        for line in text.split("\n"):
            m = re.match(r"(Col|Row) label range (\w+):(\w+) contains:$", line)
            if m: got.append(m.groups() + ([],)); continue
            m = re.match(r"    ([A-Z]+\d+): (.*)$", line)
            if m and got: got[-1][3].append(m.groups())
        mon.equal(got, want, "cli-labels", "%s: label ranges" % what)
        mon.count("label_cells", sum(len(w[3]) for w in want))
    elif cmd == "xfc":
        want = []
        for j in range(bk.nsheets):
            sh = bk.sheet_by_index(j); n = [0] * 7
            for r in range(sh.nrows):
                for t in sh.row_types(r): n[t] += 1
            want.append(n)
        got = [eval(m.group(1), {}) for m in re.finditer(r"^type stats (\[[\d, ]+\])$", text, re.M)]
        mon.equal(got, want, "cli-counts", "%s: cells of each type" % what)
        xs = [sum(eval(m.group(1), {})) for m in re.finditer(r"^XF stats (\[[\d, ]+\])$", text, re.M)]
        mon.equal(xs, [sum(n) for n in want], "cli-counts", "%s: cells with an XF" % what)
    mon.count("cli_judged")

def sections(text):
    """split at the tool's file headings -> [(file name, text)]"""
    parts = re.split(r"^=== File: (.*) ===$", text, flags=re.M)
    return list(zip(parts[1::2], parts[2::2]))

def book_file(rng, bv, d, name):
    if rng.random() < .05:
        like, data, st = SM.pick(rng)
        p = os.path.join(d, name)
        with open(p, "wb") as f: f.write(data if rng.random() < .5 else SM.repack(rng, st, like.bv))
        return like, p
    b = random_book(rng, bv, density=.2, kinds=rng.random() < .2, small=True, names=True)
    st = b.stream(rng)
    data = st if bv < 50 and bv != 45 or rng.random() < .4 else wrap(st, bv)
    p = os.path.join(d, name)
    with open(p, "wb") as f: f.write(data)
    return b, p

def options(rng, cmd, b, d, mon):
    """random options -> (arguments, keywords of open_workbook, sheet chosen, timing, ...)"""
    a = []; kw = {}; one = None; timing = True; log = None
    if rng.random() < .4:
        v = 1; a += rng.choice([["-f1"], ["-f", "1"], ["--formatting=1"]]); kw["formatting_info"] = 1
    elif rng.random() < .2: a += ["-f0"]
    if cmd == "xfc": kw["formatting_info"] = 1
    if rng.random() < .3: a.append(rng.choice(["-d", "--on-demand"])); kw["on_demand"] = True
    if rng.random() < .3: a.append(rng.choice(["-r", "--ragged-rows"])); kw["ragged_rows"] = True
    if rng.random() < .5: a.append(rng.choice(["-t", "--suppress-timing"])); timing = False
    if rng.random() < .2: a += ["-g%d" % rng.randint(0, 2)]
    if rng.random() < .3: v = rng.randint(0, 1); a += ["-m%d" % v]; kw["use_mmap"] = v
    ws = [s for s in b.sheets if s.kind == 0]
    if rng.random() < .2 and len(ws):
        one = rng.randrange(len(ws))
        nm = ws[one].name
        if rng.random() < .5 or b.bv <= 40: a += ["-s", str(one)]
        else:
            try: int(nm); a += ["-s", str(one)]
            except ValueError: a += ["--onesheet=" + nm]
    if b.bv < 80 and rng.random() < .15 and b.codepage: a += ["-e", b.enc]; kw["encoding_override"] = b.enc
    if rng.random() < .2:
        log = os.path.join(d, "log.txt"); a += ["-l", log]
        if rng.random() < .6: a += ["-v%d" % rng.randint(1, 3)]
    return a, kw, one, timing, log

def run_cli(mon, rng, bv, runner, full):
    with Scratch() as d:
        b, p = book_file(rng, bv, d, "a%d.xls" % rng.randint(0, 99))
        cmd = rng.choice(CMDS)
        a, kw, one, timing, log = options(rng, cmd, b, d, mon)
        if full and not log: log = os.path.join(d, "log.txt"); a += ["--logfilename=" + log]
        files = [p]; expect = {p: b}
        if rng.random() < .15 and one is None and not kw.get("encoding_override"):
            b2, p2 = book_file(rng, rng.choice(VERS), d, "b.xls"); files.append(p2); expect[p2] = b2
        bad = None
        if rng.random() < .15:
            bad = os.path.join(d, "bad.xls")
            with open(bad, "wb") as f: f.write(rng.choice([b"", b"PK\x03\x04 no zip", b"not a workbook at all", b"\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1" + bytes(600), open(p, "rb").read()[:rng.choice([3, 100, 600])]]))
            files.insert(0 if rng.random() < .6 else len(files), bad)
        args = [os.path.join(d, "*.xls")] if rng.random() < .2 else files + ([os.path.join(d, "none*.xls")] if rng.random() < .1 else [])
        what = "BIFF%d runxlrd %s" % (bv, " ".join(a + [cmd]))
        code, out, err = runner(a + [cmd] + args)
        mon.count("cli"); mon.seen("cli", (cmd, bv, tuple(sorted(x[:3] for x in a if x.startswith("-")))))
        if code != 0: raise Violation("cli-exit", "%s: ended with %s %s" % (what, code, short(err[-500:], 500)))
        got = sections(out)
        mon.equal(sorted(x[0] for x in got), sorted(files), "cli-files", "%s: files read" % what)
        if not args[0].endswith("*.xls"): mon.equal([x[0] for x in got], files, "cli-files", "%s: order of the files" % what)
        for f, text in got:
            if f == bad:
                k, e = outcome(xlrd.open_workbook, bad, logfile=LOG, **kw)
                if k == "ok": continue                  # the cut left a readable workbook
                if "*** Open failed: %s: %s" % (type(e).__name__, e) not in text: raise Violation("cli-failed", "%s: open_workbook raises %r, the tool says %s" % (what, e, short(text)))
                mon.count("cli_fail"); mon.count("comparisons")
                continue
            if "Open failed" in text: raise Violation("cli-open", "%s: %s" % (what, short(text, 1500)))
            bk = xlrd.open_workbook(f, logfile=LOG, **kw)
            mine = ""                                  # this file's part of what went to stderr
            if cmd == "fonts" and bk.font_list and "== Index 0 ==" in err:
                mine, sep, err = err[13:].partition("== Index 0 ==")
                mine = "== Index 0 ==" + mine; err = sep + err
            check_output(mon, cmd, text, mine, bk, what, timing, one)
            if log:
                with open(log, errors="replace") as g: said = g.read()
                o = io.StringIO(); xlrd.open_workbook(f, logfile=o, verbosity=max([0] + [int(x[2:]) for x in a if x[:2] == "-v"]), **kw)
                head = "=== File: %s ===" % f
                mon.count("cli_logs"); mon.count("comparisons", 2)
                if said.count(head) > 1: raise Violation("cli-log", "%s: %r stands in the log %d times" % (what, head, said.count(head)))
                if o.getvalue():
                    mon.count("cli_log_text")
                    if head not in said: raise Violation("cli-log", "%s: opening the file says %r, the log has no heading for it" % (what, short(o.getvalue(), 200)))
                    # what is said at a higher verbosity depends on how the tool opens the file; warnings don't
                    if not any(x[:2] == "-v" and x != "-v0" for x in a) and o.getvalue() not in said: raise Violation("cli-log", "%s: opening the file says %r, the log says %r" % (what, short(o.getvalue(), 300), short(said, 300)))
            if timing != ("Open took" in text) or timing != ("command took" in text): raise Violation("cli-timing", "%s: timing shown: %s" % (what, short(text[-200:])))

def run(spec, mon):
    rng = rng_for(spec); k = spec["kind"]; i = spec["i"]
    bv = VERS[i % len(VERS)]
    if k == "dump":
        st = stream(rng, bv, mon); todo = containers(rng, st, bv)
        if i % 40 == 11:
            like, data, st = SM.pick(rng); bv = like.bv; todo = [("sample %s" % like.name, data), ("sample %s repacked" % like.name, SM.repack(rng, st, bv))]; mon.count("sample_books")
        for cname, data in todo:
            what = "BIFF%d %s" % (bv, cname)
            with Scratch() as d:
                p = os.path.join(d, "x.xls")
                with open(p, "wb") as f: f.write(data)
                exp, names = judge_dump(mon, st, p, what, rng)
                judge_count(mon, exp, names, p, what)
            mon.seen("stream", (bv, cname, tuple(e[1:4] for e in exp if e[0] == "rec")[:50]))
            if cname != "bare": mon.count("embedded")
        if exp[-1][0] == "zero": mon.count("tails")
        if any(e[0] == "zero" for e in exp[:-1]): mon.count("gaps")
        if exp[-1][0] == "misc": mon.count("misc")
        return
    if k == "cli":
        return run_cli(mon, rng, bv, lambda a: cli(a, mon), False)
    if k == "process":
        with Scratch() as d:
            c = i % 5
            if c == 0: run_cli(mon, rng, bv, lambda a: process(a, d), True)
            elif c == 1:
                st = stream(rng, bv, mon); p = os.path.join(d, "x.xls")
                with open(p, "wb") as f: f.write(containers(rng, st, bv)[0][1])
                u = rng.random() < .5
                code, out, err = process((["-u"] if u else []) + ["biff_dump", p])
                mon.equal(code, 0, "cli-exit", "biff_dump: %s" % short(err[-300:]))
                got, names, _ = parse_dump(out, not u, "runxlrd biff_dump")
                mon.equal(got, walk(st), "dump", "runxlrd biff_dump")
                code, out, err = process(["biff_count", p])
                mon.equal(code, 0, "cli-exit", "biff_count: %s" % short(err[-300:]))
                compare_count(mon, walk(st), names, out, "runxlrd biff_count")
            elif c == 2:
                code, out, err = process(["version"])
                mon.equal(code, 0, "cli-exit", "version: %s" % short(err[-300:]))
                mon.check(xlrd.__version__ in out and xlrd.__file__.replace(".pyc", ".py") in out and sys.version.split()[0] in out, "cli-version", "version: %s" % short(out))
            elif c == 3:
                b, p = book_file(rng, bv, d, "a.xls")
                code, out, err = process([rng.choice(["nonsense", "shows", "SHOW"]), p])
                mon.check(code == 1 and "Unknown command" in out, "cli-unknown", "unknown command: exit %r, %s" % (code, short(out)))
                code, out, err = process(rng.choice([["show"], ["hdr"]]))
                mon.check(code == 2 and "Expected at least 2 args" in err, "cli-usage", "no file: exit %r, %s" % (code, short(err)))
                code, out, err = process(["profile", "-t", "show", p], cwd=d)
                mon.equal(code, 0, "cli-exit", "profile: %s" % short(err[-300:]))
                bk = xlrd.open_workbook(p, logfile=LOG)
                check_output(mon, "show", sections(out)[0][1], err, bk, "profile show", False, None)
                mon.check("function calls" in out and not [x for x in os.listdir(d) if x not in ("a.xls", "YYYY.prof")], "cli-profile", "profile: %s, files %s" % (short(out[-300:]), os.listdir(d)))
            else:
                b, p = book_file(rng, bv, d, "a.xls")
                for v in (1, 2, 3, 4):
                    code, out, err = process(["-v%d" % v, "-f%d" % (v % 2), "hdr", p])
                    mon.check(code == 0 and "Open failed" not in out, "cli-verbose", "verbosity %d: exit %r, %s %s" % (v, code, short([x for x in out.splitlines() if "Open failed" in x]), short(err[-300:])))
            mon.count("cli_subprocess")
        return
    # a sheet with every row
    b = BookB(80); sh = b.sheet("full"); x = b.add_xf(0); sh.dims = (65536, 3)
    for r in range(65536): sh.number(r, 0, r, x)
    sh.label(65534, 2, "last but one", x)
    with Scratch() as d:
        p = os.path.join(d, "x.xls")
        with open(p, "wb") as f: f.write(wrap(b.stream(rng), 80))
        code, out, err = cli(["-t", "-r", "show", p], mon)
        mon.equal(code, 0, "cli-exit", "full sheet: %s" % short(err[-300:]))
        check_output(mon, "show", sections(out)[0][1], err, xlrd.open_workbook(p, ragged_rows=True), "full sheet", False, None)
