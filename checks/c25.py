"""C25 - a workbook survives pickling and deep copying whole, and the copy stands on its own."""
import copy, io, pickle, subprocess, sys
from xlmon.randbook import *
from xlmon import samples as SM
from xlmon.runner import Violation, same
import xlrd

ID = "C25"; LEVEL = "exploration"
RULE = "distinct = distinct (version, way of copying, options, kinds of records present) books whose whole observation was made on the copy and equalled the original's"
ASSUMPTIONS = ["the book was opened with a log that can itself be pickled (the default, sys.stdout, can't), and holds no memory map: opened from bytes or without on_demand, or its resources were released",
               "pickles are read back by the same version of the library and of Python", "single cells are pickled with protocol 2 or later (Python refuses classes with slots below that)"]
REQUIRED = {"copies": 1500, "fresh_process": 40, "lazy_copies": 150, "released_copies": 60, "from_files": 100, "edits": 400, "parts": 8000, "helpers": 1000, "backrefs": 4000}
CASE_TIMEOUT = 120

def plan(tier, seed):
    return specs_for(tier, seed, whole=(1600, 30000), fresh=(64, 800), parts=(500, 8000))

WAYS = ["pickle0", "pickle1", "pickle2", "pickle3", "pickle4", "pickle5", "deepcopy"]

def dup(way, x):
    if way == "deepcopy": return copy.deepcopy(x)
    return pickle.loads(pickle.dumps(x, int(way[6:])))

def make(rng, i):
    if i % 12 == 5:
        b, data, st = SM.pick(rng)
        return b, SM.repack(rng, st, b.bv), dict(formatting_info=rng.random() < .6, ragged_rows=rng.random() < .4, on_demand=rng.random() < .4)
    bv = (20, 21, 30, 40, 45, 50, 70, 80)[i % 8] if i % 3 else 80
    b = random_book(rng, bv, density=rng.choice([.1, .5, 1]), small=True, kinds=rng.random() < .3, names=True)
    kw = dict(formatting_info=rng.random() < .6, ragged_rows=rng.random() < .4, on_demand=rng.random() < .4)
    return b, wrap(b.stream(rng), bv), kw

def helpers(bk):
    """what the evaluated names give"""
    out = []
    for n in bk.name_obj_list:
        k, v = outcome(n.cell); out.append((k, (v.ctype, v.value, v.xf_index) if k == "ok" else type(v).__name__))
        k, v = outcome(n.area2d); out.append((k, (v[0].number,) + tuple(v[1:]) if k == "ok" else type(v).__name__))
        r = getattr(n, "result", None)
        if r is not None and isinstance(r.value, list):
            out.append([(tuple(x.coords), tuple(x.relflags)) for x in r.value if hasattr(x, "coords")])
    return out

def extra(bk):
    """lookups, slices and dates through the copy"""
    out = []
    for s in bk.sheets():
        out.append(bk.sheet_by_name(s.name).number)
        for r in range(min(s.nrows, 3)):
            out.append([(c.ctype, c.value, c.xf_index) for c in s.row(r)])
            for c in s.row(r):
                if c.ctype == 3:
                    k, v = outcome(xlrd.xldate_as_tuple, c.value, bk.datemode); out.append((k, v if k == "ok" else type(v).__name__))
        if s.ncols and not s.ragged_rows: out.append(s.col_values(0)); out.append(s.col_types(s.ncols - 1, 0, 5))
    return out

def backrefs(mon, bk, what):
    """objects of a book refer to that book's objects, not to another's"""
    def same_obj(a, b, nm):
        mon.count("backrefs")
        if a is not b: raise Violation("backref:" + nm, "%s: %s of the copy belongs to another book" % (what, nm))
    for s in bk.sheets():
        if hasattr(s, "book"): same_obj(s.book, bk, "Sheet.book")
    for n in bk.name_obj_list:
        if hasattr(n, "book"): same_obj(n.book, bk, "Name.book")
    ids = set(map(id, bk.name_obj_list))
    for d in (bk.name_map.values(), [[x] for x in bk.name_and_scope_map.values()]):
        for l in d:
            for n in l: same_obj(id(n) in ids, True, "name lookup result")
    ids = set(map(id, bk.format_list))
    for f in bk.format_map.values(): pass
    for s in bk.sheets():
        ids = set(map(id, s.hyperlink_list))
        for h in s.hyperlink_map.values(): same_obj(id(h) in ids, True, "hyperlink_map entry")

def judge(mon, bk, want, what, fmt):
    got = O.observe(bk, fmt)
    mon.count("comparisons", O.size(want[0]))
    if not same(got, want[0]): raise Violation("copy-differs", "%s: %s" % (what, O.diff(got, want[0])[:4]))
    for nm, g, w in (("names", helpers(bk), want[1]), ("access", extra(bk), want[2])):
        if not same(g, w): raise Violation("copy-differs:" + nm, "%s: %s: %s" % (what, nm, O.diff(g, w)[:3]))
    mon.count("helpers", len(want[1]))
    backrefs(mon, bk, what)

def observe(bk, fmt): return O.observe(bk, fmt), helpers(bk), extra(bk)

def edit(rng, bk, fmt):
    """changes that users of copies make"""
    for s in bk.sheets():
        for d in (s.rowinfo_map, s.colinfo_map, s.cell_note_map):
            for o in d.values():
                for a in ("height", "width", "text"):
                    if hasattr(o, a): setattr(o, a, 7)
        for l in (s.merged_cells, s.hyperlink_list, s.rich_text_runlist_map, s.cell_note_map): l.clear()
        s.name = "edited"
        for r in range(s.nrows):
            for c in s.row(r): c.value = "edited"
        put = getattr(s, "put_cell", None)
        if put is not None and s.nrows:
            try: put(0, 0, 1, "edited", None)
            except Exception: pass
    if fmt:
        for f in bk.font_list: f.name = "edited"
        for x in bk.xf_list: x.alignment.hor_align = 7; x.border.top_line_style = 13; x.background.fill_pattern = 9
        bk.colour_map.clear()
    for f in bk.format_list: f.format_str = "edited"
    for n in bk.name_obj_list: n.name = "edited"
    bk.name_map.clear(); bk.datemode = 1 - bk.datemode

def run(spec, mon):
    rng = rng_for(spec); i = spec["i"]
    return {"whole": whole, "fresh": fresh, "parts": parts}[spec["kind"]](rng, i, mon)

def whole(rng, i, mon):
    b, data, kw = make(rng, i); fmt = kw["formatting_info"]
    ref = open_bytes(data, formatting_info=fmt, ragged_rows=kw["ragged_rows"])
    want = observe(ref, fmt)
    way = WAYS[i % len(WAYS)]
    what = "BIFF%d %r, %s" % (b.bv, kw, way)
    if not kw["on_demand"] and rng.random() < .3:
        with Scratch() as d:
            p = os.path.join(d, "b.xls")
            with open(p, "wb") as f: f.write(data)
            bk = xlrd.open_workbook(p, logfile=LOG, **kw); mon.count("from_files")
    else: bk = open_bytes(data, **kw)
    lazy = bool(bk.on_demand)
    state = "eager"
    if lazy:
        state = rng.choice(["lazy", "some", "released"])
        if state == "some":
            for s in range(bk.nsheets):
                if rng.random() < .5: bk.sheet_by_index(s)
            if bk.nsheets and rng.random() < .3: bk.unload_sheet(rng.randrange(bk.nsheets))
        elif state == "released": bk.sheets(); bk.release_resources()
    elif rng.random() < .5: bk.release_resources()
    try: cp = dup(way, bk)
    except Exception as e: raise Violation("not-copied", "%s (%s): %s: %s" % (what, state, type(e).__name__, e))
    mon.count("copies"); mon.count({"eager": "eager_copies", "lazy": "lazy_copies", "some": "lazy_copies", "released": "released_copies"}[state])
    if lazy and state != "released":
        a, c = [bk.sheet_loaded(x) for x in range(bk.nsheets)], [cp.sheet_loaded(x) for x in range(bk.nsheets)]
        if a != c: raise Violation("loaded-state", "%s: sheets loaded in the original %r, in the copy %r" % (what, a, c))
    judge(mon, cp, want, what + " (%s)" % state, fmt)
    if rng.random() < .3:
        cp = dup(rng.choice(WAYS), cp); judge(mon, cp, want, what + ", copied again", fmt); mon.count("copies")
    if rng.random() < .4:
        edit(rng, cp, fmt); mon.count("edits")
        judge(mon, bk, want, what + ": the original after its copy was edited", fmt)
    elif rng.random() < .4:
        judge(mon, bk, want, what + ": the original", fmt)
        edit(rng, bk, fmt); mon.count("edits")
        judge(mon, cp, want, what + ": the copy after the original was edited", fmt)
    else: judge(mon, bk, want, what + ": the original", fmt)
    kinds = tuple(sorted(k for k, v in (("names", bk.name_obj_list), ("rows", any(s.rowinfo_map for s in ref.sheets())), ("notes", any(s.cell_note_map for s in ref.sheets())),
                  ("links", any(s.hyperlink_list for s in ref.sheets())), ("rich", any(s.rich_text_runlist_map for s in ref.sheets()))) if v))
    mon.seen("copy", (b.bv, way, state, fmt, kw["ragged_rows"], kinds))
    if rng.random() < .01: mon.sample("%s %s %s" % (what, state, kinds))

CHILD = r'''
import sys, pickle
sys.path[:0] = [%r, %r]
jobs = pickle.load(sys.stdin.buffer)
import_before = "xlrd" in sys.modules
out = []
for blob, fmt in jobs:
    try:
        bk = pickle.loads(blob)
        from xlmon import observe as O
        sys.path.insert(0, %r)
        from checks import c25
        out.append(("ok", c25.observe(bk, fmt), import_before))
    except Exception as e:
        out.append(("exc", "%%s: %%s" %% (type(e).__name__, e), import_before))
sys.stdout.buffer.write(pickle.dumps(out))
'''

def fresh(rng, i, mon):
    """read back by a process that has opened nothing"""
    lib = os.path.dirname(os.path.dirname(os.path.abspath(O.__file__)))
    repo = os.path.dirname(os.path.dirname(os.path.abspath(xlrd.__file__)))
    jobs, wants = [], []
    for j in range(8):
        b, data, kw = make(rng, i * 8 + j); fmt = kw["formatting_info"]
        bk = open_bytes(data, logfile=io.StringIO(), **kw)
        w = observe(open_bytes(data, formatting_info=fmt, ragged_rows=kw["ragged_rows"]), fmt)
        way = rng.choice(WAYS[2:-1])
        if kw["on_demand"] and rng.random() < .5: bk.sheets(); bk.release_resources()
        jobs.append((pickle.dumps(bk, int(way[6:])), fmt)); wants.append((w, "BIFF%d %r, %s, in a fresh process" % (b.bv, kw, way), (b.bv, way, fmt)))
    p = subprocess.run([sys.executable, "-B", "-c", CHILD % (lib, repo, os.path.dirname(lib))], input=pickle.dumps(jobs), capture_output=True, timeout=100)
    if p.returncode: raise RuntimeError("child failed: %s" % p.stderr.decode()[-400:])
    for (k, v, before), (w, what, key) in zip(pickle.loads(p.stdout), wants):
        if k != "ok": raise Violation("not-copied", "%s: %s" % (what, v))
        mon.count("fresh_process"); mon.count("copies"); mon.count("comparisons", O.size(w[0]))
        if not same(v, w): raise Violation("copy-differs", "%s: %s" % (what, O.diff(v, w)[:4]))
        mon.seen("fresh", key)

def parts(rng, i, mon):
    """single objects: cells, rows of cells, sheets, formatting objects, names"""
    b, data, kw = make(rng, i); kw["on_demand"] = False; fmt = kw["formatting_info"]
    bk = open_bytes(data, **kw)
    what = "BIFF%d %r" % (b.bv, kw)
    def cmp(nm, x, view):
        way = rng.choice(WAYS[2:] if "ell" in nm else WAYS)
        try: y = dup(way, x)
        except Exception as e: raise Violation("part-not-copied:" + nm, "%s: %s of a %s: %s: %s" % (what, way, nm, type(e).__name__, e))
        a, c = view(x), view(y)
        mon.count("parts"); mon.count("comparisons", O.size(a)); mon.seen("part", (b.bv, nm, way))
        if type(x) is not type(y) or not same(a, c): raise Violation("part-differs:" + nm, "%s: %s of a %s: %s" % (what, way, nm, O.diff(c, a)[:3]))
        return y
    cell = lambda c: (c.ctype, c.value, c.xf_index)
    for s in bk.sheets():
        y = cmp("Sheet", s, lambda q: O.obs_sheet(q, fmt))
        for r in range(min(4, s.nrows)):
            cmp("row of cells", s.row(r), lambda q: [cell(c) for c in q])
            for c in s.row(r)[:4]: cmp("Cell", c, cell)
        for d, at in ((s.rowinfo_map, O.ROW), (s.colinfo_map, O.COL), (s.cell_note_map, O.NOTE)):
            for x in list(d.values())[:4]: cmp(type(x).__name__, x, lambda q: O.attrs(q, at))
        for x in s.hyperlink_list[:4]: cmp("Hyperlink", x, lambda q: O.attrs(q, O.LINK))
    if fmt:
        for x in bk.xf_list[-4:]: cmp("XF", x, O.obs_xf)
        for x in bk.font_list[-4:]: cmp("Font", x, lambda q: O.attrs(q, O.FONT))
        for x in bk.format_list[-4:]: cmp("Format", x, lambda q: (q.format_key, q.type, q.format_str))
    for n in bk.name_obj_list[:6]:
        cmp("Name", n, O.obs_name)
        r = getattr(n, "result", None)
        if r is not None: cmp("Operand", r, O.obs_operand)
