"""C26 - objects describe themselves completely (dump, repr) and compare by value."""
import contextlib, copy, io
from xlmon.randbook import *
from xlmon import samples as SM
from xlmon.runner import Violation, same, short
import xlrd

ID = "C26"; LEVEL = "exploration"
RULE = "distinct = distinct (version, class, kinds of attribute value seen) of objects whose dump or comparison was judged"
ASSUMPTIONS = ["attributes whose names start with an underscore may or may not be dumped"]
REQUIRED = {"dumps": 5000, "dump_lines": 50000, "nested": 300, "reprs": 5000, "pairs": 20000, "edited_pairs": 3000, "foreign": 3000, "books": 300, "sample_books": 40}
CASE_TIMEOUT = 120

def plan(tier, seed):
    return specs_for(tier, seed, book=(1600, 30000))

EQ = ("Font", "Format", "XFBorder", "XFBackground", "XFAlignment", "XFProtection")
TEXT = {0: "empty", 1: "text", 2: "number", 3: "xldate", 4: "bool", 5: "error", 6: "blank"}

def attributes(o):
    s = getattr(o, "__slots__", None)
    return [(a, getattr(o, a)) for a in s] if s is not None else list(vars(o).items())

def check_dump(mon, o, what, rng, bv, indent=None, lines=None, closing=None):
    """the dump of o has one line for each attribute, in order, nested objects indented below theirs"""
    cls = type(o).__name__
    if lines is None:
        indent = rng.choice([0, 0, 4, 7]); header = rng.choice([None, "== head ==", ""]); footer = rng.choice([None, "-- foot --"])
        f = io.StringIO()
        if rng.random() < .1:
            with contextlib.redirect_stderr(f): k, v = outcome(o.dump, None, header, footer, indent)
        else: k, v = outcome(o.dump, f, header, footer, indent)
        if k != "ok": raise Violation("dump-fails:" + cls, "%s: dump of a %s: %s: %s" % (what, cls, type(v).__name__, v))
        lines = f.getvalue().split("\n")
        if lines.pop() != "": raise Violation("dump-end:" + cls, "%s: the dump of a %s doesn't end its last line" % (what, cls))
        for t, at in ((header, 0), (footer, -1)):
            if t is not None:
                if not lines or lines.pop(at) != t: raise Violation("dump-heading:" + cls, "%s: dump of a %s without its %r" % (what, cls, t))
        mon.count("dumps")
        rest = check_dump(mon, o, what, rng, bv, indent, lines)
        if rest: raise Violation("dump-extra:" + cls, "%s: dump of a %s has the unexplained lines %s" % (what, cls, short(rest[:3], 300)))
        return
    pad = " " * indent
    kinds = set()
    for a, v in sorted(attributes(o), key=lambda x: x[0]):
        if lines and a[0] == "_" and not lines[0].startswith(pad + a): continue # private
        if getattr(v, "dump", None) and a != "book":
            w = "%s%s (%s object):" % (pad, a, type(v).__name__)
            if not lines or lines[0] != w: raise Violation("dump-line:" + cls, "%s: dump of a %s: got %s, expected %s" % (what, cls, short(lines[:1], 200), short(w, 200)))
            lines = check_dump(mon, v, what, rng, bv, indent + 4, lines[1:]); mon.count("nested"); kinds.add("object")
            continue
        if isinstance(v, (list, dict)) and not (cls == "Name" and a == "stack"): w = "%s%s: %s, len = %d" % (pad, a, type(v), len(v))
        else: w = "%s%s: %a" % (pad, a, v) # ASCII only
        got, lines = lines[:1 + w.count("\n")], lines[1 + w.count("\n"):]
        if "\n".join(got) != w: raise Violation("dump-line:" + cls, "%s: dump of a %s: got %s, expected %s" % (what, cls, short(got, 200), short(w, 200)))
        mon.count("dump_lines"); mon.count("comparisons"); kinds.add(type(v).__name__)
    mon.seen("dump", (bv, cls, tuple(sorted(kinds))))
    return lines

def check_repr(mon, o, want, what):
    mon.count("reprs"); mon.count("comparisons")
    k, v = outcome(repr, o)
    if k != "ok" or v != want: raise Violation("repr:" + type(o).__name__, "%s: repr gives %s, expected %s" % (what, short(v, 200), short(want, 200)))

def run(spec, mon):
    rng = rng_for(spec); i = spec["i"]
    bv = (20, 21, 30, 40, 45, 50, 70, 80)[i % 8] if i % 3 else 80
    b = random_book(rng, bv, density=rng.choice([.1, .5, 1]), small=True, kinds=rng.random() < .3, names=True)
    kw = dict(formatting_info=rng.random() < .7, ragged_rows=rng.random() < .4, on_demand=rng.random() < .2)
    data = wrap(b.stream(rng), bv)
    if i % 12 == 5:
        b, _, st = SM.pick(rng); bv = b.bv; data = SM.repack(rng, st, bv); mon.count("sample_books")
    what = "BIFF%d %r" % (bv, kw); fmt = kw["formatting_info"]
    bk = open_bytes(data, **kw); mon.count("books")
    lazy = kw["on_demand"] and bool(bk.on_demand)
    if lazy:
        before = [bk.sheet_loaded(s) for s in range(bk.nsheets)]
        check_dump(mon, bk, what, rng, bv)
        if [bk.sheet_loaded(s) for s in range(bk.nsheets)] != before: raise Violation("dump-loads", "%s: dumping the book loaded sheets" % what)
    want = O.observe(bk, fmt)
    objs = [bk] if rng.random() < .3 else []
    cells = []
    for n, s in enumerate(bk.sheets()):
        objs.append(s)
        check_repr(mon, s, "Sheet %2d:<%s>" % (n, s.name), what)
        for r in range(s.nrows):
            for c in s.row(r): cells.append(c)
        for d in (s.rowinfo_map, s.colinfo_map, s.cell_note_map): objs += list(d.values())[:4]
        objs += s.hyperlink_list[:4]
    for c in rng.sample(cells, min(40, len(cells))):
        check_repr(mon, c, "%s:%r" % (TEXT[c.ctype], c.value) + ("" if c.xf_index is None else " (XF:%r)" % c.xf_index), what)
    objs += rng.sample(cells, min(4, len(cells)))
    objs += bk.xf_list[-5:] + bk.font_list[-5:] + bk.format_list[-5:]
    for x in bk.xf_list[-2:]:
        if fmt: objs += [x.border, x.alignment, x.background, x.protection]
    objs += bk.name_obj_list[:8]
    for o in objs: check_dump(mon, o, what, rng, bv)
    if not same(O.observe(bk, fmt), want): raise Violation("dump-changes", "%s: dumping changed the book" % what)
    for n in bk.name_obj_list:
        r = getattr(n, "result", None)
        if r is None: continue
        check_repr(mon, r, "Operand(kind=%s, value=%r, text=%r)" % ({-2: "oREL", -1: "oREF", 0: "oUNK", 1: "oSTRG", 2: "oNUM", 3: "oBOOL", 4: "oERR", 5: "oMSNG"}[r.kind], r.value, r.text), what)
        if isinstance(r.value, list):
            for x in r.value: check_repr(mon, x, "Ref3D(coords=%r)" % (x.coords,) if not any(x.relflags) else "Ref3D(coords=%r, relflags=%r)" % (x.coords, x.relflags), what)
    if fmt: compare(mon, rng, bk, open_bytes(data, **kw), bv, what)
    if rng.random() < .02: mon.sample(what)

def groups(bk):
    out = {"Font": bk.font_list, "Format": bk.format_list}
    for a, c in (("border", "XFBorder"), ("background", "XFBackground"), ("alignment", "XFAlignment"), ("protection", "XFProtection")):
        out[c] = [getattr(x, a) for x in bk.xf_list]
    return out

def agree(mon, a, b, want, nm, what, counter="pairs"):
    mon.count(counter); mon.count("comparisons", 2)
    for op, k, v, w in (("==", *outcome(lambda: a == b), want), ("!=", *outcome(lambda: a != b), not want)):
        if k != "ok": raise Violation("compare-fails:" + nm, "%s: %s %s %s: %s: %s" % (what, nm, op, type(b).__name__, type(v).__name__, v))
        if v is not w: raise Violation("compare:" + nm, "%s: two %s objects: %s gives %r; attributes %s and %s" % (what, nm, op, v, short(vars(a), 300), short(getattr(b, "__dict__", b), 300)))

def compare(mon, rng, bk, bk2, bv, what):
    g1, g2 = groups(bk), groups(bk2)
    for nm in EQ:
        l1, l2 = g1[nm], g2[nm]
        if not l1: continue
        for _ in range(25):
            j, k = rng.randrange(len(l1)), rng.randrange(len(l2))
            if rng.random() < .3: k = j
            agree(mon, l1[j], l2[k], vars(l1[j]) == vars(l2[k]), nm, what)
        a = rng.choice(l1)
        agree(mon, a, a, True, nm, what)
        for at in list(vars(a)):
            c = copy.copy(a); agree(mon, a, c, True, nm, what, "edited_pairs")
            old = getattr(c, at)
            setattr(c, at, old + 1 if isinstance(old, (int, float)) else (old or "") + "x" if isinstance(old, (str, type(None))) else ("other",))
            agree(mon, a, c, False, nm, what, "edited_pairs"); agree(mon, c, a, False, nm, what, "edited_pairs")
        for o in (None, 0, "x", (), object()):
            agree(mon, a, o, False, nm, what, "foreign"); mon.count("foreign")
        mon.seen("compared", (bv, nm, tuple(sorted(vars(a)))))
