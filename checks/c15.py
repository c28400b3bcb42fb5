"""C15 - defined names: identity, scope, lookup and evaluated targets."""
from xlmon.randbook import *
from xlmon import formula as F
from xlmon.runner import Violation, same
import xlrd
from xlrd.formula import oBOOL, oERR, oNUM, oREF, oREL, oSTRG

ID = "C15"; LEVEL = "exploration"
RULE = "distinct = distinct (version, formula shape) names whose evaluated value was compared with the reference evaluator"
ASSUMPTIONS = ["values are judged for constants, arithmetic on numbers and plainly numeric text, concatenation of text and short numbers, comparisons of numbers and ASCII alphanumeric text, IF/CHOOSE with constant selectors, unions, intersections and same-sheet ranges, and names built from such names (acyclic, at most 8 deep); logical operands of arithmetic, external, deleted or macro-sheet references and everything else is only required not to prevent opening",
               "an erroneous value may be reported as no result, an error operand or an operand without value",
               "a reference stored with value class, a function call or arithmetic on cells has no constant value",
               "name records below BIFF5 are documented as not read"]
REQUIRED = {"names": 20000, "values_judged": 9000, "refs_judged": 3000, "cell_calls": 8000, "area_calls": 8000, "hostile_books": 60, "lookups": 10000, "helper_errors": 3000,
            "addin_functions": 300, "scope_sheet": 2000, "scope_other": 300, "through_names": 1000}
CASE_TIMEOUT = 60

def plan(tier, seed):
    return specs_for(tier, seed, values=(8000, 120000), mixed=(6000, 80000), hostile=(2400, 40000), scopes=(1000, 15000))

BASES = ["Rate", "Alpha", "beta", "GAMMA", "x_1", "Total_Amount", "_hid", "Zed.two", "Größe", "数量", "Имя", "éa", "İx", "name_with_a_rather_long_text_" + "z" * 100]

def name_text(rng, b):
    t = rng.choice(BASES)
    if b.bv < 80 and any(not F._enc(c, b.enc) for c in t): t = "Plain"
    if rng.random() < .4: t += "_%d" % rng.randint(0, 9)
    k = rng.random()
    if k < .2: t = t.upper()
    elif k < .4: t = t.lower()
    if b.bv < 80 and any(not F._enc(c, b.enc) for c in t): t = "Plain_b"
    return t

def make_book(rng, i, nsheets=None):
    bv = (50, 70, 80, 80)[i % 4]
    cp = rng.choice([1252, 1252, 1251, 437, None]) if bv < 80 else rng.choice([1200, None])
    b = BookB(bv, codepage=cp)
    b.text = lambda n=20: rand_text(rng, None if bv >= 80 else b.enc, n, astral=False)
    if rng.random() < .5:
        b.fonts.append(fmtrecs.font(bv, "Arial", rng, b.enc)); b.add_xf(0, rng=rng)
    n = nsheets or rng.choice([1, 2, 2, 3, 4, 6])
    kinds = [rng.choice([0, 0, 0, 1, 2, 6]) if rng.random() < .5 else 0 for _ in range(n)]
    if 0 not in kinds: kinds[rng.randrange(n)] = 0
    for j, kd in enumerate(kinds):
        nm = rng.choice([" lead%d", "trail%d ", " %d  ", "Sheet%d", "Data%d", "S h%d", "Bob's%d", "a-b%d", "x.y%d", "A%d", "R%dC1", "_u%d", "2nd%d", "Größe%d", "TRUE%d"]) % (j + 1)
        if bv < 80: nm = "".join(c for c in nm if F._enc(c, b.enc))
        sh = b.sheet(nm, kd, rng.choice([0, 0, 0, 1, 2]))
        sh.dims = (10, 10)
        if kd == 0:
            nr, nc = rng.choice([(0, 0), (1, 1), (4, 3), (9, 7), (20, 4)])
            x = 0
            for r in range(nr):
                for c in range(nc):
                    if rng.random() < .6 or (r, c) == (nr - 1, nc - 1):
                        if not b.xfs and bv == 80 and False: pass
                        sh.number(r, c, float(j * 10000 + r * 100 + c), x)
    if not b.xfs: b.add_xf(0)
    return b

def shape(t):
    k = t[0]
    if k in ("bin", "un"): return "%s%s(%s)" % (k[0], t[1], ",".join(shape(x) for x in t[2:]))
    if k == "func": return "f%d(%s)" % (t[1], ",".join(shape(x) for x in t[2]))
    if k in ("paren", "sum"): return "%s(%s)" % (k, shape(t[1]))
    if k == "ref": return "r%s%s" % (t[1], "a" if t[4] else "")
    return k

def judge_value(mon, bv, n, nobj, exp, flags):
    r = nobj.result
    if exp[0] == "opt":
        if flags & {"bad", "maybebad"} or r is None or r.value is None: return False
        mon.count("optional_values")
        exp = exp[1]
    where = lambda: "BIFF%d name %r formula %s" % (bv, n.text, short_tree(n.tree))
    def bad(key, msg): raise Violation(key, "%s: %s" % (where(), msg))
    k = exp[0]
    if k == "unk" or flags & {"bad", "maybebad"}: return False
    if k == "err":
        if r is None or r.value is None: return True
        if r.kind != oERR: bad("error-value", "reported %s, an error value is expected" % r)
        if exp[1] is not None and r.value != exp[1]: bad("error-code", "reported %s, expected error code %d" % (r, exp[1]))
        return True
    if r is None: bad("no-result", "no result, expected %s" % (exp,))
    if k == "var":
        if r.value is not None: bad("constant-from-cells", "reported the constant %s although it depends on cells" % r)
        return True
    if k == "refv":
        if r.kind != oREF or r.value is not None: bad("value-class", "reported %s, expected a reference without value" % r)
        return True
    want = {"num": oNUM, "str": oSTRG, "bool": oBOOL, "ref": oREF, "rel": oREL}[k]
    if r.kind != want: bad("kind", "reported %s, expected %s" % (r, exp))
    if k in ("num", "str"):
        if not same(r.value, exp[1]) and not (k == "num" and type(r.value) is int and r.value == exp[1]): bad("value:" + k, "reported %r, expected %r" % (r.value, exp[1]))
        return True
    if k == "bool":
        if r.value is None or int(r.value) != exp[1]: bad("value:bool", "reported %r, expected %r" % (r.value, exp[1]))
        return True
    got = r.value
    if not isinstance(got, list) or len(got) != len(exp[1]): bad("areas", "reported %r, expected %r" % (got, exp[1]))
    for g, e in zip(got, exp[1]):
        co, rf = (e, (0,) * 6) if k == "ref" else e
        if tuple(g.coords) != co or tuple(int(bool(x)) for x in g.relflags) != tuple(rf): bad("coords", "reported %r, expected %r" % (got, exp[1]))
        if (g.shtxlo, g.shtxhi, g.rowxlo, g.rowxhi, g.colxlo, g.colxhi) != co: bad("coord-attributes", "attributes of %r" % (g,))
    mon.count("refs_judged")
    return True

def short_tree(t):
    s = repr(t)
    return s if len(s) < 500 else s[:500] + "..."

def judge_helpers(mon, bk, bv, n, nobj, exp, flags):
    unk = exp[0] in ("unk", "opt") or flags & {"bad", "maybebad"}
    areas = exp[1] if exp[0] == "ref" else None
    one = areas[0] if areas and len(areas) == 1 and areas[0][1] - areas[0][0] == 1 else None
    cell = one if one and one[3] - one[2] == 1 and one[5] - one[4] == 1 else None
    what = "BIFF%d name %r formula %s" % (bv, n.text, short_tree(n.tree))
    k, v = outcome(nobj.cell)
    mon.count("cell_calls")
    if k == "exc" and not isinstance(v, xlrd.XLRDError) and not (isinstance(v, IndexError) and (unk or cell)):
        raise Violation("cell-exception", "%s: cell() raised %s: %s" % (what, type(v).__name__, v))
    if not unk:
        if cell:
            sh = bk.sheet_by_index(cell[0])
            inside = cell[2] < sh.nrows and cell[4] < sh.row_len(cell[2])
            if inside:
                if k != "ok": raise Violation("cell", "%s: cell() raised %r for a cell inside the sheet" % (what, v))
                c = sh.cell(cell[2], cell[4])
                if (v.ctype, v.value, v.xf_index) != (c.ctype, c.value, c.xf_index): raise Violation("cell", "%s: cell() gave %r, the cell is %r" % (what, v, c))
                mon.count("cell_ok")
            elif k == "ok": raise Violation("cell-outside", "%s: cell() gave %r for a cell outside the sheet" % (what, v))
        elif k == "ok": raise Violation("cell-not-refused", "%s: cell() gave %r although the name isn't one constant cell" % (what, v))
        elif not isinstance(v, xlrd.XLRDError): raise Violation("cell-exception", "%s: cell() raised %r" % (what, v))
        else: mon.count("helper_errors")
    for clipped in (True, False):
        k, v = outcome(nobj.area2d, clipped) if clipped is False or n.flags & 1 else outcome(nobj.area2d)
        mon.count("area_calls")
        if k == "exc" and not isinstance(v, xlrd.XLRDError): raise Violation("area-exception", "%s: area2d(%s) raised %s: %s" % (what, clipped, type(v).__name__, v))
        if unk: continue
        if one:
            if k != "ok": raise Violation("area", "%s: area2d(%s) raised %r" % (what, clipped, v))
            sh = bk.sheet_by_index(one[0])
            if v[0] is not sh: raise Violation("area-sheet", "%s: area2d gave sheet %r" % (what, v[0].name))
            if clipped:
                rlo, clo = min(one[2], sh.nrows), min(one[4], sh.ncols)
                rhi, chi = max(rlo, min(one[3], sh.nrows)), max(clo, min(one[5], sh.ncols))
                w = (rlo, rhi, clo, chi)
            else: w = one[2:]
            if tuple(v[1:]) != tuple(w): raise Violation("area-clip", "%s: area2d(clipped=%s) gave %r, expected %r (sheet is %dx%d)" % (what, clipped, v[1:], w, sh.nrows, sh.ncols))
            mon.count("area_ok")
        elif k == "ok": raise Violation("area-not-refused", "%s: area2d(%s) gave %r although the name isn't one constant area" % (what, clipped, v[1:]))
        else: mon.count("helper_errors")

def build_names(rng, b, k):
    ns = F.NameSet(b, rng)
    nn = rng.randint(1, 14) if k != "scopes" else rng.randint(5, 40)
    order = list(range(nn)); rng.shuffle(order)       # evaluation-independent dependency order
    rank = dict((x, j) for j, x in enumerate(order))
    n_all = len(b.sheets)
    for i in range(nn):
        avail = [x for x in range(nn) if rank[x] < rank[i]]
        flags = 0
        if rng.random() < .3: flags |= 1
        if rng.random() < .05: flags |= rng.choice([2, 4, 8, 0x10, 0x1000, 0x40, 0x140, 0xFC0, 0x1008])
        if rng.random() < .15: flags |= 0x20
        key = name_text(rng, b)
        if flags & 0x20: key = rng.choice([6, 6, 7, 13, rng.randint(0, 13), rng.randint(0, 30)]) if not (b.bv < 80 and False) else 6
        sc = rng.choice([None, None] + list(range(n_all)) + ["bad"] * (rng.random() < .1))
        if k == "scopes":
            t = rng.choice([("int", i), F.rand_ref(rng, ns.env, small=True)])
            if not flags & 0x20: key = rng.choice(["Rate", "RATE", "rate", "x_1", "X_1", "Only_%d" % i])
        elif k == "values":
            g = F.Gen(rng, ns.env, avail, funcs=False, rel=.05 if rng.random() < .8 else .4, two_d=0 if rng.random() < .9 else .3, odd=.02, small=rng.random() < .8, anyrange=True)
            z = rng.random()
            d = rng.choice([0, 1, 2, 3, 4])
            t = g.const(d) if z < .5 else g.refexpr(rng.choice([0, 0, 0, 1, 2, 3])) if z < .85 or not avail else ("name", rng.choice(avail))
            if t[0] == "ref" and rng.random() < .3 : t = ("ref", "R") + t[2:4] + (t[4] if False else t[4],)
        else:
            g = F.Gen(rng, ns.env, avail, small=rng.random() < .5)
            t = g.any(rng.choice([0, 1, 2, 3, 4]))
            if rng.random() < .05: t = ("empty",)
        ns.add(key, t, sc, flags)
    if k == "values" and rng.random() < .03:
        # text just at the limit of what a cell may hold
        cat = lambda xs: xs[0] if len(xs) == 1 else ("bin", "&", cat(xs[:len(xs) // 2]), cat(xs[len(xs) // 2:]))
        j = len(ns.names); c = rng.choice("xY9")
        ns.add("Long_0", ("str", c * 255)); ns.add("Long_1", cat([("name", j)] * 8)); ns.add("Long_2", cat([("name", j + 1)] * 16))
        for m in (126, 127, 128): ns.add("Long_%d" % m, rng.choice([lambda a, b: ("bin", "&", a, b), lambda a, b: ("bin", "&", b, a)])(("name", j + 2), ("str", c * m)))
    return ns

def run(spec, mon):
    rng = rng_for(spec); k = spec["kind"]
    b = make_book(rng, spec["i"])
    ns = build_names(rng, b, "mixed" if k == "hostile" else k)
    if k == "hostile":
        mon.count("hostile_books")
        for j in range(rng.randint(1, 4)):
            z = rng.random()
            g = F.Gen(rng, ns.env, range(len(ns.names)))
            toks = F.encode(F._no_extern(g.any(3)), ns.env, rng)
            if z < .25: raw = toks[:rng.randrange(len(toks) + 1)]
            elif z < .5: raw = rng.randbytes(rng.randint(1, 30))
            elif z < .75:
                a = bytearray(toks)
                for _ in range(rng.randint(1, 3)): a[rng.randrange(len(a))] = rng.randrange(256)
                raw = bytes(a)
            elif z < .85: raw = toks + toks
            else: raw = None
            if raw is None:
                cyc = rng.randrange(len(ns.names))
                n = ns.names[cyc]
                n.tree = ("bin", "+", ("name", rng.choice([cyc, rng.randrange(len(ns.names)), 60000, len(ns.names)])), ("name", rng.randrange(len(ns.names))))
            else: ns.add("Raw_%d" % j, raw=raw, scope=None)
        # a long chain
        if rng.random() < .4:
            base = len(ns.names)
            L = rng.choice([9, 12, 40, 300])
            for j in range(L): ns.add("Chain_%d" % j, ("name", base + j + 1) if j < L - 1 else ("int", 1))
    ns.install()
    data = wrap(b.stream(rng), b.bv)
    bk = open_bytes(data, on_demand=rng.random() < .5, formatting_info=rng.random() < .3, ragged_rows=rng.random() < .2)
    what = "BIFF%d" % b.bv
    if len(bk.name_obj_list) != len(ns.names): raise Violation("name-count", "%s: %d names reported, %d stored" % (what, len(bk.name_obj_list), len(ns.names)))
    if list(bk.addin_func_names) != ns.env.addins: raise Violation("addin-names", "%s: add-in functions %r, stored %r" % (what, bk.addin_func_names, ns.env.addins))
    mon.count("addin_functions", len(ns.env.addins))
    for i, n in enumerate(ns.names):
        nobj = bk.name_obj_list[i]
        e = ns.expect(i); rf = e.pop("raw_formula")
        for a, v in e.items():
            g = getattr(nobj, a)
            if not same(g, v): raise Violation("attribute:" + a, "%s name %d %r: %s is %r, stored %r" % (what, i, n.text, a, g, v))
        if nobj.raw_formula[:len(n.toks)] != n.toks: raise Violation("attribute:raw_formula", "%s name %d %r: raw formula %s, stored %s" % (what, i, n.text, nobj.raw_formula.hex(), n.toks.hex()))
        mon.count("names"); mon.count("comparisons", len(e) + 1)
        mon.count("scope_sheet" if e["scope"] >= 0 else "scope_global" if e["scope"] == -1 else "scope_other")
        exp, fl = ns.value(i)
        if judge_value(mon, b.bv, n, nobj, exp, fl):
            mon.count("values_judged"); mon.count("value_" + exp[0]); mon.seen("name", (b.bv, shape(n.tree), exp[0]))
            if F.refs_of(n.tree, []): mon.count("through_names")
            if rng.random() < .002: mon.sample("BIFF%d %s -> %s" % (b.bv, shape(n.tree), exp))
        judge_helpers(mon, bk, b.bv, n, nobj, exp, fl)
    idx = dict((id(o), i) for i, o in enumerate(bk.name_obj_list))
    got = dict((kk, [idx.get(id(o), "?") for o in v]) for kk, v in bk.name_map.items())
    if got != ns.name_map(): raise Violation("name_map", "%s: name_map %r, expected %r" % (what, got, ns.name_map()))
    got = dict((kk, idx.get(id(v), "?")) for kk, v in bk.name_and_scope_map.items())
    if got != ns.scope_map(): raise Violation("name_and_scope_map", "%s: name_and_scope_map %r, expected %r" % (what, got, ns.scope_map()))
    mon.count("lookups", len(got)); mon.count("comparisons", 2 * len(got))
