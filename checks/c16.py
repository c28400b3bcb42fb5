"""C16 - cell addresses, ranges and formula text render correctly."""
from xlmon.randbook import *
from xlmon import formula as F
from xlmon.runner import Violation, same, short
from checks import c15
import xlrd
from xlrd import formula as XF
from xlrd.formula import FMLA_TYPE_NAME, FMLA_TYPE_CELL, FMLA_TYPE_SHARED, Ref3D

ID = "C16"; LEVEL = "exploration"
RULE = "distinct = distinct (version, source, notation, formula shape) texts that were parsed back and compared with the stored tree"
ASSUMPTIONS = ["the text is read by an independent parser of Excel's grammar (precedence % ^ */ +- & comparison; reference operators : blank , bind tighter; unary minus tighter than ^); cosmetic parentheses and blanks are not compared",
               "operands the library documents it cannot render (array constants, deleted and external references, names of unusable scope, wrong sheet indexes) may be any text",
               "sheet names are judged over-quoted only when they are plain ASCII identifiers unlike any cell address, and under-quoted only when they contain other characters, start with a digit or look like an address",
               "below BIFF8 relative rows that wrap past the sheet edge are not judged in A1 style"]
REQUIRED = {"texts_judged": 12000, "texts_a1": 3000, "texts_r1c1_base": 2000, "texts_cell": 2000, "helper_calls": 100000, "quoted": 2000, "unquoted": 2000, "ranges3d": 3000, "funcs": 3000, "refs": 6000}
CASE_TIMEOUT = 60

def plan(tier, seed):
    return specs_for(tier, seed, names=(8800, 130000), ops=(2800, 40000), cells=(3600, 50000), helpers=(640, 6000), sheets=(1000, 15000))

def colname(c):
    s = ""
    c += 1
    while c:
        c, m = divmod(c - 1, 26)
        s = chr(65 + m) + s
    return s

def judge_quotes(quoted, what, text):
    for q, lo, hi in quoted:
        if not q and (F.needs_quotes(lo) or F.needs_quotes(hi)): raise Violation("quotes-missing", "%s: text %r leaves a sheet name unquoted" % (what, text))
        if q and F.plain_sheet(lo) and F.plain_sheet(hi): raise Violation("quotes-superfluous", "%s: text %r quotes a plain sheet name" % (what, text))

def judge_text(mon, what, text, want, r1c1, key, base=None):
    if not isinstance(text, str): raise Violation("text-type", "%s: text is %r" % (what(), text))
    quoted = []
    try: got = F.Parser(text, r1c1=r1c1, quoted=quoted).parse()
    except F.Bad as e:
        raise Violation("text-unreadable", "%s: text %r isn't a formula: %s" % (what(), text[:600], e))
    if not F.same_tree(got, want):
        raise Violation("text-meaning", "%s: text %r reads as %s, stored %s" % (what(), text[:600], short(got, 900), short(want, 900)))
    judge_quotes(quoted, what(), text[:600])
    mon.count("comparisons"); mon.count("texts_judged"); mon.seen("text", key)
    mon.count("quoted", sum(1 for q in quoted if q[0])); mon.count("unquoted", sum(1 for q in quoted if not q[0]))
    return got

def tally(mon, t):
    if t[0] == "cellref": mon.count("refs")
    if t[0] == "func": mon.count("funcs")
    for x in t[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str): tally(mon, x)
        elif isinstance(x, list):
            for y in x: tally(mon, y)

def notation_ok(text_tree, r1c1): return True

# every ordered pair / triple of operators, systematically
def op_trees(rng):
    ops = list(F.BINOPS); un = ["+", "-", "%"]
    def leaf(ref):
        if ref: return ("ref", "R", (0, 0), (rng.randint(0, 9), 0, rng.randint(0, 9), 0), None)
        return rng.choice([("int", rng.randint(0, 9)), ("str", "a"), ("num", -1.5), ("num", 2.5), ("bool", 1)])
    def build(d, refonly=False, noname=False):
        if d == 0: return leaf(refonly or rng.random() < .4)
        k = rng.random()
        if refonly: s = rng.choice(F.REFOPS)
        elif k < .2: return ("un", rng.choice(un), build(d - 1))
        else: s = rng.choice(ops)
        r = s in F.REFOPS
        dd = [d - 1, rng.randint(0, d - 1)]; rng.shuffle(dd)
        return ("bin", s, build(dd[0], r), build(dd[1], r))
    return build

def run(spec, mon):
    rng = rng_for(spec)
    return {"names": names, "ops": ops, "cells": cells, "helpers": helpers, "sheets": sheets}[spec["kind"]](rng, spec["i"], mon)

SHEETS = ["Sheet%d", "Data%d", "S h%d", "Bob's%d", "a-b%d", "x.y%d", "A%d", "R%dC1", "_u%d", "2nd%d", "Größe%d", "TRUE%d", "R%d", "C%d", "it''s%d", "'%d'", "AB%dx", "(x)%d", "a,b%d", "!%d", "%d", "Листы%d", "日本%d", "rc%d", "XFD%d", "é %d", "a\"%d", "{%d}", "a_b%d", "a.%d", ".%d"]

def make(rng, i):
    bv = (50, 70, 80, 80)[i % 4]
    b = BookB(bv, codepage=rng.choice([1252, 1251]) if bv < 80 else 1200)
    b.add_xf(0)
    n = rng.randint(1, 5)
    kinds = [rng.choice([0, 0, 0, 0, 1, 2]) for _ in range(n)]
    kinds[rng.randrange(n)] = 0
    for j, kd in enumerate(kinds):
        nm = rng.choice(SHEETS) % (j + 1)
        if bv < 80: nm = "".join(c for c in nm if F._enc(c, b.enc)) or "Sheet%d" % (j + 1)
        b.sheet(nm, kd).dims = (2, 2)
    return b

def fill(rng, b, trees):
    """a name per tree, and a few targets to refer to"""
    ns = F.NameSet(b, rng)
    for t in trees(ns): ns.add("Nm_%d" % len(ns.names) if rng.random() < .8 else "näm%d.x_y" % len(ns.names) if b.enc in (None, "cp1252") or b.bv >= 80 else "Nm_x%d" % len(ns.names), t, rng.choice([None, None] + list(range(len(b.sheets)))))
    ns.install()
    return ns

def open_names(rng, b):
    return open_bytes(wrap(b.stream(rng), b.bv), on_demand=rng.random() < .5)

def nowrap(t, base, bv):
    """relative rows stay on the sheet below BIFF8"""
    if bv >= 80: return True
    for x in t[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str) and not nowrap(x, base, bv): return False
        if isinstance(x, list) and not all(nowrap(y, base, bv) for y in x): return False
    if t[0] == "ref":
        for p in (t[3], t[4]):
            if p and p[1] and not 0 <= base[0] + p[0] < 16384: return False
    return True

def judge_names(rng, mon, b, ns, bk):
    names = bk.sheet_names()
    for i, n in enumerate(ns.names):
        nobj = bk.name_obj_list[i]
        exp, fl = ns.value(i)
        what = lambda: "BIFF%d name %d formula %s" % (b.bv, i, c15.short_tree(n.tree))
        if n.tree == ("empty",) or "bad" in fl or "maybebad" in fl: continue
        if nobj.result is None:
            if exp[0] != "err" and "err" not in fl and n.usable and exp[0] != "unk": raise Violation("no-result", what() + ": no result, so no text")
            mon.count("no_result")
        else:
            got = judge_text(mon, what, nobj.result.text, ns.tree(i, names), True, (b.bv, "name", c15.shape(n.tree)))
            tally(mon, got)
            if rng.random() < .001: mon.sample(nobj.result.text[:200])
        toks = bytes(nobj.raw_formula); L = nobj.basic_formula_len
        if L != len(n.toks): raise Violation("formula-length", "%s: basic_formula_len %r, stored %d" % (what(), L, len(n.toks)))
        # the same tokens through the decompiler: without a base, with one (A1 style), with one in R1C1 style
        t = XF.decompile_formula(bk, toks, L, FMLA_TYPE_NAME)
        judge_text(mon, lambda: what() + " (decompiled)", t, ns.tree(i, names), True, (b.bv, "dec", c15.shape(n.tree)))
        base = (rng.choice([0, 5, 99, 16383 if b.bv < 80 else 65535, 8192 if b.bv < 80 else 32768, 1, rng.randint(0, 16383)]), rng.choice([0, 3, 127, 128, 255, rng.randint(0, 255)]))
        t = XF.decompile_formula(bk, toks, L, FMLA_TYPE_NAME, browx=base[0], bcolx=base[1], r1c1=1)
        judge_text(mon, lambda: what() + " (decompiled, R1C1, base %r)" % (base,), t, ns.tree(i, names), True, (b.bv, "rc", c15.shape(n.tree)))
        mon.count("texts_r1c1_base")
        if not nowrap(n.tree, base, b.bv): mon.count("wrap_skipped"); continue
        t = XF.decompile_formula(bk, toks, L, FMLA_TYPE_NAME, browx=base[0], bcolx=base[1])
        judge_text(mon, lambda: what() + " (decompiled, A1, base %r)" % (base,), t, ns.tree(i, names, base), False, (b.bv, "a1", c15.shape(n.tree)))
        mon.count("texts_a1")

def names(rng, i, mon):
    b = make(rng, i)
    def trees(ns):
        nn = rng.randint(1, 8)
        order = list(range(nn)); rng.shuffle(order)
        for j in range(nn):
            g = F.Gen(rng, ns.env, [x for x in range(nn) if order[x] < order[j]], rel=.15, two_d=.1, odd=.02)
            yield g.any(rng.choice([0, 1, 2, 3, 4, 5]))
    ns = fill(rng, b, trees)
    judge_names(rng, mon, b, ns, open_names(rng, b))

def ops(rng, i, mon):
    b = make(rng, i)
    w = [j for j, s in enumerate(b.sheets) if s.kind == 0][0]
    def trees(ns):
        bld = op_trees(rng)
        def fix(t):
            if t[0] == "ref": return ("ref", t[1], (w, w)) + t[3:]
            return tuple([fix(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t])
        for j in range(12): yield fix(bld(rng.choice([2, 2, 2, 3, 3, 4])))
    ns = fill(rng, b, trees)
    judge_names(rng, mon, b, ns, open_names(rng, b))

def cells(rng, i, mon):
    """token streams of cell formulas, decompiled with the cell as base"""
    b = make(rng, i)
    ns = fill(rng, b, lambda ns: [("int", 1), ("str", "x"), F.rand_ref(rng, ns.env)])
    jobs = []
    for j in range(8):
        base = (rng.choice([0, 7, rng.randint(0, 16383)]), rng.choice([0, 7, rng.randint(0, 255)]))
        ns.env.rel_base = base
        g = F.Gen(rng, ns.env, range(3), rel=.3, two_d=.5, odd=.01)
        t = g.any(rng.choice([1, 2, 3, 4]))
        if ns.env.bv >= 80 and ns.env.ext_sup is None: t = F._no_extern(t)
        if not nowrap(t, base, b.bv): continue
        jobs.append((t, base, F.encode(t, ns.env, rng)))
    ns.env.rel_base = None
    # the sheet references used above must be part of the file's link table
    if b.bv >= 80:
        b.post[:] = []
        ns.install()
    bk = open_names(rng, b)
    nm = [(n.text, n.exp_scope) for n in ns.names]
    for t, base, toks in jobs:
        what = lambda: "BIFF%d cell %r formula %s" % (b.bv, base, c15.short_tree(t))
        # in a cell formula relative positions are stored as the absolute position: A1 text shows it
        s = XF.decompile_formula(bk, toks, len(toks), FMLA_TYPE_CELL, browx=base[0], bcolx=base[1], r1c1=0)
        s1 = XF.decompile_formula(bk, toks, len(toks), FMLA_TYPE_CELL, browx=base[0], bcolx=base[1], r1c1=1)
        want_a1 = F.text_tree(t, ns.env, bk.sheet_names(), nm, base)
        want_rc = F.text_tree(t, ns.env, bk.sheet_names(), nm)
        tally(mon, judge_text(mon, what, s, want_a1, False, (b.bv, "cell", c15.shape(t))))
        if b.bv >= 80 or "rel" not in repr(t): pass
        try: judge_text(mon, lambda: what() + " (R1C1)", s1, F_wrap(want_rc, b.bv, base), True, (b.bv, "cellrc", c15.shape(t)))
        except Violation as e:
            if e.key != "text-meaning": raise
            # an offset that crosses the sheet edge has two spellings
            g = F.Parser(s1, r1c1=True).parse()
            if not F.same_tree(F_wrap(g, b.bv, base), F_wrap(want_rc, b.bv, base)): raise
        mon.count("texts_cell")

def F_wrap(t, bv, base):
    """relative offsets modulo the sheet's size"""
    if t[0] == "cellref":
        def P(p):
            r, rr, c, cr = p
            return ((base[0] + r) % 65536 if rr else r, rr, (base[1] + c) % 256 if cr else c, cr)
        return t[:2] + (P(t[2]), P(t[3]))
    return tuple([F_wrap(x, bv, base) if isinstance(x, tuple) and x and isinstance(x[0], str) else [F_wrap(y, bv, base) for y in x] if isinstance(x, list) else x for x in t])

def helpers(rng, i, mon):
    """the public address helpers, over systematic and random coordinates"""
    def eq(f, args, want):
        k, v = outcome(f, *args) if not isinstance(args, dict) else outcome(f, **args)
        mon.count("helper_calls"); mon.count("comparisons")
        if (k, v) != ("ok", want): raise Violation("helper:" + f.__name__, "%s%r gave %r, expected %r" % (f.__name__, tuple(args), v, want))
    cols = range(0, 702) if i % 8 == 0 else [rng.randint(0, 701) for _ in range(150)]
    for c in cols:
        r = rng.choice([0, 1, 8, 9, 98, 99, 16383, 65535, rng.randint(0, 65535)])
        n = colname(c)
        eq(xlrd.colname, (c,), n)
        eq(xlrd.cellname, (r, c), "%s%d" % (n, r + 1))
        eq(xlrd.cellnameabs, (r, c), "$%s$%d" % (n, r + 1))
        eq(xlrd.cellnameabs, (r, c, 1), "R%dC%d" % (r + 1, c + 1))
        if c > 255: continue
        r2, c2 = rng.choice([r + 1, r + 1, r + 2, rng.randint(r + 1, 65536)]), rng.choice([c + 1, c + 1, c + 2, rng.randint(c + 1, 256)])
        one = (r2, c2) == (r + 1, c + 1)
        a1 = "$%s$%d" % (n, r + 1) + ("" if one else ":$%s$%d" % (colname(c2 - 1), r2))
        rc = "R%dC%d" % (r + 1, c + 1) + ("" if one else ":R%dC%d" % (r2, c2))
        eq(XF.rangename2d, (r, r2, c, c2), a1)
        eq(XF.rangename2d, (r, r2, c, c2, 1), rc)
        # relative parts, with and without a base
        rels = tuple(rng.randint(0, 1) for _ in range(4))
        base = (rng.randint(0, 65535), rng.randint(0, 255))
        def rc_(x, rel, L): return ("%s[%d]" % (L, x) if x else L) if rel else "%s%d" % (L, x + 1)
        def a1_(x, rel, b): return ("%d" % ((b + x) % 65536 + 1)) if rel else "$%d" % (x + 1)
        def ca_(x, rel, b): return colname((b + x) % 256) if rel else "$" + colname(x)
        rr = [rng.randint(-300, 300) if x else rng.randint(0, 65535) for x in rels[:2]]
        cc = [rng.randint(-200, 200) if x else rng.randint(0, 255) for x in rels[2:]]
        for a in (0, 1):
            y, x, yr, xr = rr[a], cc[a], rels[a], rels[2 + a]
            w_rc = rc_(y, yr, "R") + rc_(x, xr, "C")
            w_a1 = ca_(x, xr, base[1]) + a1_(y, yr, base[0])
            eq(XF.cellnamerel, (y, x, yr, xr, base[0], base[1]), w_a1)
            eq(XF.cellnamerel, (y, x, yr, xr, base[0], base[1], 1), w_rc)
            if yr or xr: eq(XF.cellnamerel, (y, x, yr, xr), w_rc)
            eq(XF.rownamerel, (y, yr, base[0]), a1_(y, yr, base[0])); eq(XF.colnamerel, (x, xr, base[1]), ca_(x, xr, base[1]))
            eq(XF.rownamerel, (y, yr), rc_(y, yr, "R")); eq(XF.colnamerel, (x, xr), rc_(x, xr, "C"))
        full = lambda f: ":".join(f(a) for a in (0, 1))
        co = (rr[0], rr[1] + 1, cc[0], cc[1] + 1); rf = rels
        w_a1 = full(lambda a: ca_(cc[a], rels[2 + a], base[1]) + a1_(rr[a], rels[a], base[0]))
        w_rc = full(lambda a: rc_(rr[a], rels[a], "R") + rc_(cc[a], rels[2 + a], "C"))
        eq(XF.rangename2drel, (co, rf, base[0], base[1]), w_a1)
        eq(XF.rangename2drel, (co, rf, base[0], base[1], 1), w_rc)
        if any(rf): eq(XF.rangename2drel, (co, rf), w_rc)
        mon.seen("helper", (c, one, rels))

def sheets(rng, i, mon):
    """3-D helper texts and the quoting of every kind of sheet name"""
    b = make(rng, i)
    b.sheets[:] = [s for s in b.sheets if s.kind == 0]
    alpha = "abZ09_. '!-+()[],;&%$#@~`\"{}=<>^|éЖ日"
    while len(b.sheets) < 6:
        nm = rng.choice(SHEETS) % len(b.sheets) if rng.random() < .5 else "".join(rng.choice(alpha) for _ in range(rng.randint(1, 6))) + str(len(b.sheets))
        if b.bv < 80: nm = "".join(c for c in nm if F._enc(c, b.enc))
        if nm and nm not in [s.name for s in b.sheets]: b.sheet(nm).dims = (2, 2)
    bk = open_names(rng, b)
    nm = bk.sheet_names()
    for lo in range(len(nm)):
        for hi in range(lo, len(nm)):
            r, c = rng.randint(0, 65534), rng.randint(0, 254)
            r2, c2 = rng.choice([r + 1, rng.randint(r + 1, 65536)]), rng.choice([c + 1, rng.randint(c + 1, 256)])
            def pref(text, what, rest):
                q = []
                m = F.QUOTED.match(text) or F.PLAIN.match(text)
                if not m: raise Violation("sheet-prefix", "%s: %r has no readable sheet prefix" % (what, text))
                if text[0] == "'":
                    s = m.group(1).replace("''", "'"); q = True
                    want = nm[lo] if lo == hi else nm[lo] + ":" + nm[hi]
                else:
                    s = m.group()[:-1]; q = False
                    want = nm[lo] if lo == hi else nm[lo] + ":" + nm[hi]
                if s != want: raise Violation("sheet-prefix", "%s: %r names sheets %r, expected %r" % (what, text, s, want))
                judge_quotes([(q, nm[lo], nm[hi])], what, text)
                mon.count("quoted" if q else "unquoted")
                if text[m.end():] != rest: raise Violation("ranges3d", "%s: %r, expected %r after the sheet" % (what, text, rest))
                mon.count("ranges3d")
            a1 = "$%s$%d" % (colname(c), r + 1)
            if (r2, c2) != (r + 1, c + 1): a1 += ":$%s$%d" % (colname(c2 - 1), r2)
            pref(xlrd.rangename3d(bk, Ref3D((lo, hi + 1, r, r2, c, c2))), "rangename3d %r" % ((nm[lo], nm[hi]),), a1)
            rel = Ref3D((lo, hi + 1, -3, 8, 2, 5, 0, 0, 1, 1, 1, 0))
            pref(xlrd.rangename3drel(bk, rel), "rangename3drel", "R[-3]C[2]:R[7]C5")
            pref(xlrd.rangename3drel(bk, rel, 10, 4), "rangename3drel", "G8:$E18")
            pref(xlrd.rangename3drel(bk, rel, 10, 4, 1), "rangename3drel", "R[-3]C[2]:R[7]C5")
            mon.seen("prefix", (nm[lo], nm[hi] if lo != hi else None))
    t = xlrd.rangename3drel(bk, Ref3D((0, 1, -3, 8, 2, 5, 1, 1, 1, 1, 1, 0)), 10, 4)
    if t != "G8:$E18": raise Violation("rangename3drel", "a same-sheet relative reference reads %r, expected 'G8:$E18'" % t)
