"""Formula trees: BIFF5-8 token encoder, reference evaluator, and a parser for the
text form.  Independent of xlrd (written from the published token layouts).

tree nodes:
 ("num", float) ("int", 0..65535) ("str", s) ("bool", 0|1) ("err", code) ("miss",)
 ("bin", sym, a, b)  sym one of + - * / ^ & < <= = >= > <>  ":" " " ","
 ("un", "+"|"-"|"%", a)   ("paren", a)
 ("func", id, [args])   ("sum", a)   (tAttrSum)
 ("ref", cls, sheets, p1, p2)  cls R|V|A; sheets None (2-D) or (lo, hi) in all-sheets;
       p = (row, rowrel, col, colrel) with offsets for relative parts; p2 None = cell token
 ("name", idx)   ("namex", idx)   0-based index of another name
 ("array",)  ("deleted", two_d, area)  ("extern",)
"""
import re, struct
from .ftab import FTAB
from .build import rec, ustr, bstr, u16len
pack = struct.pack

ERRS = {0: "#NULL!", 7: "#DIV/0!", 15: "#VALUE!", 23: "#REF!", 29: "#NAME?", 36: "#NUM!", 42: "#N/A"}
BINOPS = {"+": 3, "-": 4, "*": 5, "/": 6, "^": 7, "&": 8, "<": 9, "<=": 10, "=": 11, ">=": 12, ">": 13, "<>": 14,
          " ": 15, ",": 16, ":": 17}
REFOPS = " ,:"
UNOPS = {"+": 0x12, "-": 0x13, "%": 0x14}
CLS = {"R": 0x20, "V": 0x40, "A": 0x60}
PRE = [":", " ", ",", "un", "%", "^", "*", "+", "&", "<"]

# ------------------------------------------------------------------ encoder
class Env(object):
    """what formulas are encoded against: the workbook's sheets and its link tables"""
    def __init__(self, bv, kinds, enc=None):
        self.bv, self.kinds, self.enc = bv, kinds, enc
        self.refs = []           # (supbook, lo, hi) BIFF8
        self.local_sup, self.n_sup = 0, 1
        self.ext_sup = self.addin_sup = self.rng = None
        self.addins = []         # names of the add-in functions stored
        self.pad = []            # 1-based EXTERNSHEET count below BIFF8
        self.rel_base = None     # None: offsets (names); (r, c): absolute storage (cell formulas)
    def refx(self, sup, lo, hi):
        k = (sup, lo, hi)
        if k not in self.refs: self.refs.append(k)
        return self.refs.index(k)
    def map(self):
        m = []; n = 0
        for k in self.kinds:
            if k == 0: m.append(n); n += 1
            else: m.append(-1)
        return m

def cell_words(bv, p, base=None):
    r, rr, c, cr = p
    if base is not None:
        if rr: r = (base[0] + r) % 65536
        if cr: c = (base[1] + c) % 256
    if bv >= 80: return r & 0xFFFF, (c & 0xFF) | rr << 15 | cr << 14
    return (r & 0x3FFF) | rr << 15 | cr << 14, c & 0xFF

def loc(env, p1, p2):
    a = cell_words(env.bv, p1, env.rel_base)
    if p2 is None: return pack("<HH" if env.bv >= 80 else "<HB", *a)
    b = cell_words(env.bv, p2, env.rel_base)
    return pack("<HHHH" if env.bv >= 80 else "<HHBB", a[0], b[0], a[1], b[1])

def encode(t, env, rng, deco=.15):
    """tree -> token bytes (reverse Polish), with random cosmetic tokens"""
    def sp():
        return b"\x19\x40" + bytes([rng.choice([0, 1, 2, 3, 4, 5, 6]), rng.randint(1, 5)]) if deco and rng.random() < deco else b""
    def E(t):
        k = t[0]
        o = sp()
        if k == "num": o += b"\x1f" + pack("<d", t[1])
        elif k == "int": o += b"\x1e" + pack("<H", t[1])
        elif k == "str":
            o += b"\x17" + (ustr(t[1], 1, rng.random() < .2) if env.bv >= 80 else bstr(t[1], env.enc, 1))
        elif k == "bool": o += b"\x1d" + bytes([t[1]])
        elif k == "err": o += b"\x1c" + bytes([t[1]])
        elif k == "miss": o += b"\x16"
        elif k == "bin":
            body = E(t[2]) + E(t[3]) + sp() + bytes([BINOPS[t[1]]])
            if t[1] in REFOPS and deco and rng.random() < .3:
                body = bytes([rng.choice([0x29, 0x49, 0x69])]) + pack("<H", len(body)) + body
            o += body
        elif k == "un": o += E(t[2]) + sp() + bytes([UNOPS[t[1]]])
        elif k == "paren": o += E(t[1]) + b"\x15"
        elif k == "sum": o += E(t[1]) + b"\x19\x10" + pack("<H", rng.choice([0, 0, 7]))
        elif k == "func":
            name, lo, hi = FTAB[t[1]]
            args = [E(a) for a in t[2]]
            v = bytes([rng.choice([0, 0, 0x20, 0x40])])
            cls = rng.choice([0x20, 0x40, 0x40, 0x60])
            if t[1] in (63, 74, 221) and deco: o += b"\x19\x01" + pack("<H", 0)
            if lo == hi:
                o += b"".join(args) + bytes([cls | 1]) + pack("<H", t[1])
            else:
                n = len(args)
                if t[1] == 1 and deco and rng.random() < .7:       # IF with jump tokens
                    if n == 3: o += args[0] + b"\x19\x02" + pack("<H", len(args[1]) + 4) + args[1] + b"\x19\x08" + pack("<H", len(args[2]) + 7) + args[2] + b"\x19\x08" + pack("<H", 3)
                    else: o += args[0] + b"\x19\x02" + pack("<H", len(args[1]) + 4) + args[1] + b"\x19\x08" + pack("<H", 3)
                elif t[1] == 100 and deco and rng.random() < .7:   # CHOOSE with jump table
                    m = n - 1
                    offs = []; pos = 2 * (m + 1)
                    for a in args[1:]: offs.append(pos); pos += len(a) + 4
                    offs.append(pos)
                    o += args[0] + b"\x19\x04" + pack("<H", m) + b"".join(pack("<H", x) for x in offs)
                    for a in args[1:]: o += a + b"\x19\x08" + pack("<H", 3)
                else: o += b"".join(args)
                o += bytes([cls | 2]) + bytes([n | (0x80 if rng.random() < .1 else 0)]) + pack("<H", t[1])
        elif k == "ref":
            _, cls, sh, p1, p2 = t
            base = CLS[cls]
            if sh is None: o += bytes([base | (4 if p2 is None else 5)]) + loc(env, p1, p2)
            else:
                o += bytes([base | (0x1A if p2 is None else 0x1B)])
                if env.bv >= 80: o += pack("<H", env.refx(env.local_sup, *sh))
                else: o += pack("<h8shh", -rng.randint(1, 9), bytes(8), *sh)
                o += loc(env, p1, p2)
        elif k == "name":
            o += bytes([rng.choice([0x23, 0x43, 0x63])]) + pack("<H", t[1] + 1) + bytes(2 if env.bv >= 80 else 12)
        elif k == "namex":
            o += bytes([rng.choice([0x39, 0x59, 0x79])])
            o += pack("<HHH", env.refx(env.local_sup, 0xFFFE, 0xFFFE), t[1] + 1, 0) if env.bv >= 80 else \
                 pack("<h8sH12s", -env.self_ext, bytes(8), t[1] + 1, bytes(12))
        elif k == "array": o += bytes([rng.choice([0x20, 0x40, 0x60])]) + bytes(7)
        elif k == "deleted":
            two_d, area = t[1:]
            if two_d: o += bytes([0x20 | (0x0B if area else 0x0A)]) + bytes((8 if area else 4) if env.bv >= 80 else (6 if area else 3))
            else:
                o += bytes([0x20 | (0x1D if area else 0x1C)])
                o += bytes(10 if area else 6) if env.bv >= 80 else bytes(20 if area else 17)
        elif k == "extern":
            o += b"\x3a"
            o += pack("<H", env.refx(env.ext_sup, 0, 0)) if env.bv >= 80 else pack("<h8shh", 2, bytes(8), 0, 0)
            o += loc(env, (3, 0, 2, 0), None)
        else: raise ValueError(k)
        return o
    return E(t)

# ------------------------------------------------------------------ evaluator
UNK, VAR = ("unk",), ("var",)          # not judged / must have no value
NUMRE = re.compile(r"\d+(\.\d+)?\Z")

def evaluate(t, env, names=None, depth=0, flags=None):
    """reference value.  names: list of (tree, usable) for name references.
    flags: set collecting 'err' (something outside the judged grammar), 'rel'"""
    flags = flags if flags is not None else set()
    m = env.map()
    def num_of(v):
        if v[0] == "num": return v[1]
        if v[0] == "str":
            if NUMRE.match(v[1]): return float(v[1])
            s = v[1].strip().lower()
            if s and s.isascii() and s.isalpha() and s not in ("nan", "inf", "infinity", "e"): return "err"
            if s == "": return "err" if v[1] == "" else "unk"
            return "unk"
        if v[0] == "bool": return float(v[1])
        return {"err": "err", "var": "var", "ref": "var", "refv": "var", "rel": "var", "miss": "unk"}.get(v[0], "unk")
    def arith(sym, a, b):
        x, y = num_of(a), num_of(b)
        for w in ("unk", "var", "err"):
            if w in (x, y):
                if w == "var" and "err" in (x, y): return VAR
                return {"unk": UNK, "var": VAR, "err": ("err", None)}[w]
        try:
            if sym == "+": r = x + y
            elif sym == "-": r = x - y
            elif sym == "*": r = x * y
            elif sym == "/": r = x / y
            else:
                if x == 0 and y == 0: return UNK          # 0^0: #NUM! in Excel, 1 in IEEE
                r = x ** y
        except (ArithmeticError, ValueError):
            return ("err", None)
        if isinstance(r, complex) or r != r or r in (float("inf"), float("-inf")): return ("err", None)
        return ("num", r)
    def text_of(v):
        if v[0] == "str": return v[1]
        if v[0] == "bool": return ("FALSE", "TRUE")[v[1]]
        if v[0] == "num":
            x = v[1]
            if x == 0 and str(x)[0] == "-": return None
            if x == int(x) and abs(x) < 1e15: return str(int(x))
            s = repr(x)
            if "e" not in s and len(s.replace(".", "").lstrip("-0")) <= 12: return s
            return None
        return None
    CONST = ("num", "str", "bool")
    def rank(v): return (0, v[1]) if v[0] == "num" else (1, v[1].lower()) if v[0] == "str" else (2, v[1])
    def binop(s, a, b):
        if s in "+-*/^": return arith(s, a, b)
        if s == "&":
            if "err" in (a[0], b[0]): return ("err", None)
            if UNK in (a, b): return UNK
            if a[0] in CONST and b[0] in CONST:
                x, y = text_of(a), text_of(b)
                if x is None or y is None: return UNK
                if len(x) + len(y) > 32767: return ("err", None)      # longer than a cell's text may be
                return ("str", x + y)
            if "miss" in (a[0], b[0]): return UNK
            return VAR
        if s in REFOPS: return refop(s, a, b)
        # comparisons
        if "err" in (a[0], b[0]): return ("err", None)
        if UNK in (a, b) or "miss" in (a[0], b[0]): return UNK
        if a[0] in CONST and b[0] in CONST:
            x = rank(a)
            y = rank(b)
            for w, z in ((a, x), (b, y)):
                if w[0] == "str" and not re.match(r"[A-Za-z0-9]*\Z", w[1]): return UNK
            return ("bool", int({"<": x < y, "<=": x <= y, "=": x == y, ">=": x >= y, ">": x > y, "<>": x != y}[s]))
        return VAR
    # ("opt", v): may be left without value, but any value reported must be v
    def strip(v): return v[1] if v[0] == "opt" else v
    def opt(v): return ("opt", v) if v[0] in ("num", "str", "bool", "err", "rel", "ref") else UNK if v[0] == "miss" else VAR if v[0] == "refv" else v
    def E(t):
        k = t[0]
        if k == "num": return ("num", t[1])
        if k == "int": return ("num", float(t[1]))
        if k == "str": return ("str", t[1])
        if k == "bool": return ("bool", t[1])
        if k == "err": flags.add("lit_err"); return ("err", t[1])
        if k == "miss": return ("miss",)
        if k == "paren": return E(t[1])
        if k == "un":
            a0 = E(t[2]); a = strip(a0)
            x = num_of(a)
            if x == "unk": return UNK
            if x == "var": return VAR
            if x == "err": return ("err", None)
            r = ("num", {"+": x, "-": -x, "%": x / 100.0}[t[1]])
            return opt(r) if a0 is not a else r
        if k == "bin":
            a, b = E(t[2]), E(t[3])
            s = t[1]
            if "opt" in (a[0], b[0]) or not s in REFOPS and "bool" in (a[0], b[0]):
                if s in REFOPS: return UNK
                return opt(binop(s, strip(a), strip(b)))
            return binop(s, a, b)
        if k == "func":
            args = [E(a) for a in t[2]]
            if t[1] == 1:
                c = strip(args[0])
                if c[0] in ("num", "bool"):
                    if len(args) == 2 and not c[1]: r = ("bool", 0)
                    else: r = args[1 if c[1] else 2]
                    if r[0] == "miss": r = ("num", 0.0)
                    return r if c is args[0] and c[1] in (0, 1) else opt(strip(r))
                return VAR if c[0] in ("var", "ref", "refv", "rel") else UNK
            if t[1] == 100:
                c = strip(args[0])
                if c[0] in ("num", "bool"):
                    if not 1 <= c[1] < len(args): return ("err", None)
                    r = args[int(c[1])]
                    if r[0] == "miss": r = ("num", 0.0)
                    return r if c is args[0] and c[0] == "num" else opt(strip(r))
                return VAR if c[0] in ("var", "ref", "refv", "rel") else UNK
            return VAR
        if k == "sum": E(t[1]); return VAR
        if k == "ref":
            _, cls, sh, p1, p2 = t
            q = p2 or p1
            rel = (p1[1], q[1], p1[3], q[3])
            if sh is None:
                flags.add("rel")
                return ("rel", [((0, 1, p1[0], q[0] + 1, p1[2], q[2] + 1), (1, 1) + rel)]) if cls == "R" else VAR
            if sh[0] < 0 or sh[1] >= len(m) or sh[0] > sh[1] or m[sh[0]] < 0 or m[sh[1]] < 0:
                flags.add("err"); return UNK
            co = (m[sh[0]], m[sh[1]] + 1, p1[0], q[0] + 1, p1[2], q[2] + 1)
            if any(rel):
                flags.add("rel")
                return ("rel", [(co, (0, 0) + rel)]) if cls == "R" else VAR
            return ("ref", [co]) if cls == "R" else ("refv",)
        if k in ("name", "namex"):
            if names is None or depth > 7: flags.add("err"); return UNK
            if not 0 <= t[1] < len(names): flags.add("bad"); return UNK
            tree, usable = names[t[1]]
            if not usable or usable == "raw": flags.update(("err", "maybebad") if usable else ("err",)); return UNK
            f2 = set()
            v = evaluate(tree, env, names, depth + 1, f2)
            if "rel" in f2: flags.add("rel")
            if f2 & {"bad", "maybebad"}: flags.add("maybebad")     # evaluating it may fail this name, too
            if f2 & {"err", "bad"}: flags.add("err"); return UNK
            if v[0] == "miss": return UNK
            return v
        if k in ("deleted", "extern"): flags.add("err"); return UNK
        if k == "empty": return UNK
        return UNK
    def refop(s, a, b):
        if "err" in (a[0], b[0]): return ("err", None)
        if UNK in (a, b): return UNK
        if s == ",":
            if a[0] == "ref" == b[0]: return ("ref", a[1] + b[1])
            if a[0] in ("ref", "rel") and b[0] in ("ref", "rel"):
                z = lambda v: [(x, (0,) * 6) for x in v[1]] if v[0] == "ref" else v[1]
                return ("rel", z(a) + z(b))
            return VAR if "refv" in (a[0], b[0]) or "var" in (a[0], b[0]) else UNK
        if a[0] == "ref" == b[0]:
            if s == " ":
                rs = [tuple((max, min)[i & 1](x[i], y[i]) for i in range(6)) for x in a[1] for y in b[1]]
                rs = [r for r in rs if r[0] < r[1] and r[2] < r[3] and r[4] < r[5]]
                return ("ref", rs) if rs else ("err", 0)
            if len(a[1]) != 1 or len(b[1]) != 1: return UNK
            x, y = a[1][0], b[1][0]
            if x[:2] != y[:2] or x[1] - x[0] != 1: return UNK
            return ("ref", [tuple((min, max)[i & 1](x[i], y[i]) for i in range(6))])
        if a[0] == b[0] == "rel":
            if len(a[1]) != 1 or len(b[1]) != 1: return UNK
            (x, f), (y, g) = a[1][0], b[1][0]
            if f != g: return VAR                          # no one set of flags describes the result
            if x[:2] != y[:2] or x[1] - x[0] != 1: return UNK
            if any(z[lo + 1] <= z[lo] for z in (x, y) for lo in (2, 4)): return UNK        # wraps round the edge
            if s == " ":
                co = tuple((max, min)[i & 1](x[i], y[i]) for i in range(6))
                return ("opt", ("rel", [(co, f)])) if co[2] < co[3] and co[4] < co[5] else ("err", None)
            return ("opt", ("rel", [(tuple((min, max)[i & 1](x[i], y[i]) for i in range(6)), f)]))
        if a[0] == "rel" or b[0] == "rel": return UNK
        if a[0] in ("refv", "var", "ref") and b[0] in ("refv", "var", "ref"): return VAR
        return UNK
    return E(t)

# ------------------------------------------------------------------ text: expected tree
def norm(t):
    """canonical form for comparison"""
    k = t[0]
    if k == "any": return t
    if k == "int": return ("num", float(t[1]))
    if k == "num":
        if t[1] < 0 or str(t[1])[0] == "-": return norm_un("-", ("num", -t[1]))
        return ("num", float(t[1]))
    if k == "paren": return norm(t[1])
    if k == "un": return norm_un(t[1], norm(t[2]))
    if k == "bin": return ("bin", t[1], norm(t[2]), norm(t[3]))
    if k == "sum": return ("func", "SUM", [norm(t[1])])
    if k == "func":
        a = [norm(x) for x in t[2]]
        if a == [("miss",)]: a = []
        return ("func", FTAB[t[1]][0] if not isinstance(t[1], str) else t[1], a)
    return t

def norm_un(s, a):
    # postfix % and prefix signs commute; keep % innermost
    if s == "%" and a[0] == "un" and a[1] in "+-": return ("un", a[1], norm_un("%", a[2]))
    return ("un", s, a)

def text_tree(t, env, sheet_names, names, base=None):
    """the tree the text must denote: references become ("cellref", sheets|None, p1, p2)
    with p = (row, rel, col, rel); base: relative positions shown as A1 from that cell"""
    m = env.map()
    def P(p):
        r, rr, c, cr = p
        if base is not None:
            if rr: r = (base[0] + r) % 65536
            if cr: c = (base[1] + c) % 256
        return (r, rr, c, cr)
    def W(t):
        k = t[0]
        if k == "ref":
            _, cls, sh, p1, p2 = t
            if sh is None: s = None
            elif sh[0] < 0 or sh[1] >= len(m) or sh[0] > sh[1] or m[sh[0]] < 0 or m[sh[1]] < 0: return ("any",)
            else: s = (sheet_names[m[sh[0]]], sheet_names[m[sh[1]]])
            p1 = P(p1); p2 = P(p2) if p2 else p1
            return ("cellref", s, p1, p2)
        if k in ("name", "namex"):
            if not 0 <= t[1] < len(names): return ("any",)
            nm, scope = names[t[1]]
            if scope < -1: return ("any",)
            return ("nm", None if scope == -1 else sheet_names[scope], nm)
        if k in ("array", "deleted", "extern", "empty"): return ("any",)
        if k == "un": return ("un", t[1], W(t[2]))
        if k == "bin": return ("bin", t[1], W(t[2]), W(t[3]))
        if k in ("paren", "sum"): return (k, W(t[1]))
        if k == "func": return ("func", t[1], [W(a) for a in t[2]])
        return t
    return norm(W(t))

def same_tree(got, want):
    if want[0] == "any": return True
    if got[0] != want[0]: return False
    k = got[0]
    if k == "num": return got[1] == want[1]
    if k == "un": return got[1] == want[1] and same_tree(got[2], want[2])
    if k == "bin": return got[1] == want[1] and same_tree(got[2], want[2]) and same_tree(got[3], want[3])
    if k == "func": return got[1] == want[1] and len(got[2]) == len(want[2]) and all(same_tree(a, b) for a, b in zip(got[2], want[2]))
    return got == want

# ------------------------------------------------------------------ text: parser
class Bad(Exception): pass

A1 = r"(\$?)([A-Z]{1,3})(\$?)(\d+)"
RC = r"R(\d+|\[-?\d+\])?C(\d+|\[-?\d+\])?"
TOK_A1 = re.compile(A1 + r"(?::" + A1 + r")?(?![\w!.(])")
TOK_RC = re.compile(RC + r"(?::" + RC + r")?(?![\w!.(\[])")
QUOTED = re.compile(r"'((?:[^']|'')*)'!")
PLAIN = re.compile(r"([^\W\d][\w.]*)(?::([^\W\d][\w.]*))?!")
IDENT = re.compile(r"[^\W\d][\w.?\\]*")
NUM = re.compile(r"\d+(?:\.\d+)?(?:[eE][+-]?\d+)?")
STR = re.compile(r'"((?:[^"]|"")*)"')
ERR = re.compile("|".join(re.escape(x) for x in ERRS.values()))

def colnum(s):
    n = 0
    for c in s: n = n * 26 + ord(c) - 64
    return n - 1

class Parser(object):
    def __init__(self, s, r1c1=False, quoted=None):
        self.s, self.i, self.r1c1 = s, 0, r1c1
        self.quoted = quoted if quoted is not None else []    # (was quoted, lo, hi)
    def parse(self):
        t = self.binary(0)
        if self.i != len(self.s): raise Bad("trailing %r at %d" % (self.s[self.i:self.i + 20], self.i))
        return norm(t)
    LEVELS = [("<=", ">=", "<>", "<", ">", "="), ("&",), ("+", "-"), ("*", "/"), ("^",)]
    def eat(self, ops):
        for o in ops:
            if self.s.startswith(o, self.i):
                self.i += len(o); return o
        return None
    def binary(self, lv, union=True):
        if lv == len(self.LEVELS): return self.percent(union)
        a = self.binary(lv + 1, union)
        while 1:
            o = self.eat(self.LEVELS[lv])
            if o is None: return a
            a = ("bin", o, a, self.binary(lv + 1, union))
    def percent(self, union):
        a = self.prefix(union)
        while self.eat("%"): a = ("un", "%", a)
        return a
    def prefix(self, union):
        o = self.eat("+-")
        if o: return ("un", o, self.prefix(union))
        return self.refs(0 if union else 1, union)
    def refs(self, lv, union):
        if lv == 3: return self.leaf()
        a = self.refs(lv + 1, union)
        while self.eat((",", " ", ":")[lv]): a = ("bin", (",", " ", ":")[lv], a, self.refs(lv + 1, union))
        return a
    def ref(self, sheets):
        rx = (TOK_RC, TOK_A1) if self.r1c1 else (TOK_A1, TOK_RC)
        for r in rx:
            m = r.match(self.s, self.i)
            if not m: continue
            g = m.groups()
            if r is TOK_A1:
                def pt(d1, col, d2, row): return (int(row) - 1, int(not d2), colnum(col), int(not d1))
                p1 = pt(*g[:4]); p2 = pt(*g[4:]) if g[7] else p1
                if self.r1c1 and (p1[1] or p1[3] or p2[1] or p2[3]): raise Bad("relative A1 reference %r without a base" % m.group())
            else:
                def ax(x):
                    if x is None: return 0, 1
                    if x[0] == "[": return int(x[1:-1]), 1
                    return int(x) - 1, 0
                def pt(a, b): return ax(a) + ax(b)
                p1 = pt(g[0], g[1])
                p2 = pt(g[2], g[3]) if ":" in m.group() else p1
            self.i = m.end()
            return ("cellref", sheets, p1, p2)
        return None
    def leaf(self):
        s, i = self.s, self.i
        if i >= len(s): raise Bad("unexpected end")
        if s[i] == "(":
            self.i += 1
            a = self.binary(0)
            if not self.eat(")"): raise Bad("missing ) at %d" % self.i)
            return ("paren", a)
        if s[i] == "?":
            self.i += 1; return ("any",)
        m = re.compile(r"(<<external>>|\?error -?\d+\?)!").match(s, i)
        if m:                                   # placeholder prefix
            self.i = m.end()
            if self.ref(None): return ("any",)
            raise Bad("no reference after %r" % m.group())
        m = STR.match(s, i)
        if m: self.i = m.end(); return ("str", m.group(1).replace('""', '"'))
        m = ERR.match(s, i)
        if m: self.i = m.end(); return ("err", [k for k, v in ERRS.items() if v == m.group()][0])
        m = QUOTED.match(s, i)
        if m:
            sh = m.group(1).replace("''", "'").split(":")
            if len(sh) > 2: raise Bad("sheet prefix %r" % m.group())
            self.quoted.append((True, sh[0], sh[-1])); self.i = m.end()
            return self.after_sheet((sh[0], sh[-1]))
        m = PLAIN.match(s, i)
        if m:
            lo, hi = m.group(1), m.group(2) or m.group(1)
            self.quoted.append((False, lo, hi)); self.i = m.end()
            return self.after_sheet((lo, hi))
        r = self.ref(None)
        if r: return r
        m = NUM.match(s, i)
        if m: self.i = m.end(); return ("num", float(m.group()))
        m = IDENT.match(s, i)
        if m:
            self.i = m.end(); w = m.group()
            if self.eat("("):
                args = []
                if self.eat(")"): return ("func", w, [])
                while 1:
                    if self.i < len(s) and s[self.i] in ",)": args.append(("miss",))
                    else: args.append(self.binary(0, union=False))
                    if self.eat(")"): break
                    if not self.eat(","): raise Bad("argument separator expected at %d" % self.i)
                return ("func", w, args)
            if w in ("TRUE", "FALSE"): return ("bool", int(w == "TRUE"))
            return ("nm", None, w)
        raise Bad("can't read %r at %d" % (s[i:i + 20], i))
    def after_sheet(self, sh):
        r = self.ref(sh)
        if r: return r
        m = IDENT.match(self.s, self.i)
        if m and sh[0] == sh[1]:
            self.i = m.end(); return ("nm", sh[0], m.group())
        raise Bad("no reference after the sheet name at %d" % self.i)

def plain_sheet(n):
    """names that certainly need no quotes"""
    return bool(re.match(r"[A-Za-z_]\w*\Z", n, re.A)) and not cellish(n)
def cellish(n):
    return bool(re.match(r"([A-Za-z]{1,3}\d+|[rR]\d*|[cC]\d*|[rR]\d*[cC]\d*|true|false)\Z", n, re.I))
def needs_quotes(n):
    """names that certainly do"""
    return not re.match(r"[^\W\d][\w.]*\Z", n) or bool(re.match(r"([A-Za-z]{1,2}\d{1,4}|[rR]|[cC]|[rR]\d+[cC]\d+)\Z", n))

# ------------------------------------------------------------------ records
def externsheet_records(env, sheet_names_all):
    """link tables for BIFF8 (SUPBOOK + EXTERNSHEET); below: EXTERNSHEET per sheet"""
    out = []
    if env.bv >= 80:
        n = env.n_sup
        for i in range(n):
            rng = env.rng
            nx = rng.choice([0, 0, 1, 2, 5]) if rng else 0
            if i == env.local_sup: out.append(rec(0x1AE, pack("<H", len(env.kinds)) + b"\x01\x04")); nx = 0
            elif i == env.addin_sup:
                out.append(rec(0x1AE, b"\x01\x00\x01\x3a"))
                for j in range(nx):
                    f = rng.choice(["YEARFRAC", "Функция", "f%d", "Größe.%d", "x" * 200 + "%d", "A" + "\u6570" * 200])
                    f = f % j if "%" in f else f
                    env.addins.append(f)
                    out.append(rec(0x23, pack("<HI", 0, 0) + ustr(f, 1) + b"\x02\x00\x1c\x17"))
                nx = 0
            elif i % 3 == 2 and i != env.ext_sup: out.append(rec(0x1AE, pack("<H", 0) + ustr("Server\x03Topic", 2)))
            else:
                k = 1 if not rng else rng.choice([1, 1, 2, 9, 40, 900]) if rng.random() < .3 else 1
                d = pack("<H", k) + ustr("\x01other.xls", 2) + b"".join(ustr(("ExtSheet%d" if j % 3 else "Внешний é%d") % j, 2) for j in range(k))
                cut = min(len(d), 8224 - (rng.choice([0, 1, 2, 3, rng.randint(0, 60)]) if rng else 0))
                out.append(rec(0x1AE, d[:cut]))
                for j in range(cut, len(d), 8200): out[-1] += rec(0x3C, d[j:j + 8200])      # one item: nothing may come between them
            for j in range(nx):
                out.append(rec(0x23, pack("<HI", rng.choice([0, 2, 0x10, 0x7FE2]), rng.choice([0, 1])) + ustr(rng.choice(["ExtName", "Внешнее_%d" % j, "_xlfn.X"]), 1) + rng.choice([b"", b"\x00\x00", b"\x0b\x00\x3b\x00\x00" + bytes(8)])))
        d = pack("<H", len(env.refs)) + b"".join(pack("<HHH", *r) for r in env.refs)
        step = env.rng.choice([2, 7, 8, rng.randint(2, 60)]) if env.rng and env.rng.random() < .15 else 8000
        out.append(rec(0x17, d[:step]))
        for j in range(step, len(d), step): out[-1] += rec(0x3C, d[j:j + step])
    else:
        for ty, nm in env.b57:
            b = nm.encode(env.enc)
            out.append(rec(0x17, bytes([len(b), ty]) + b))
            if ty == 1 and len(env.kinds) % 2: out.append(rec(0x23, bytes(6) + b"\x07ExtName\x00\x00"))
    return out

BUILTINS = ["Consolidate_Area", "Auto_Open", "Auto_Close", "Extract", "Database", "Criteria", "Print_Area", "Print_Titles",
            "Recorder", "Data_Form", "Auto_Activate", "Auto_Deactivate", "Sheet_Title", "_FilterDatabase"]

def name_record(env, name, flags, toks, extsht=0, sheet=0, kb=0, extras=b"", lens=(0, 0, 0, 0)):
    """name: text, or an int for a built-in code"""
    if isinstance(name, int): name = chr(name)
    if env.bv >= 80:
        u = ustr(name, 1); n = u[0]; nb = u[1:]
    else:
        nb = name.encode(env.enc); n = len(nb)
    return rec(0x18, pack("<HBBHHH4B", flags, kb, n, len(toks), extsht, sheet, *lens) + nb + toks + extras)

# ------------------------------------------------------------------ generators
NUMS = [0.0, 1.0, 2.0, 3.0, 10.0, .5, 2.5, -1.0, -2.5, 100.0, 1e10, 1e-5, 1e300, 1e308, 12345678.0, 1 / 3, .1, 255.0, -7.0, 1e16, 1.5e-300, 4.0]
STRS = ["", "a", "A", "abc", "12", "12.5", "3", "0", "007", "x y", 'say "hi"', "zz", "B", "TRUE", "#N/A", "it's", "1e5", " 5", "5 ", "Text", "text", "\t", "-3", "A1", "=1+1", "%", "(", "Z9"]

def rand_num(rng):
    k = rng.random()
    if k < .45: return ("int", rng.choice([0, 1, 2, 3, 4, 5, 7, 10, 100, 255, 256, 1000, 32767, 32768, 65535, rng.randint(0, 65535)]))
    if k < .85: return ("num", rng.choice(NUMS))
    return ("num", rng.choice([1, -1]) * rng.choice([rng.randint(0, 10 ** 9) / 100.0, rng.random() * 10 ** rng.randint(-20, 20), float(rng.randint(0, 10 ** 6))]))

def rand_str(rng, env):
    k = rng.random()
    if k < .8: s = rng.choice(STRS)
    elif k < .9: s = "".join(rng.choice("abAB01\"' &") for _ in range(rng.randint(0, 30)))
    else: s = rng.choice(["Größe", "Жук", "日本", "é" * 100, "x" * 255, "\U0001f600y"])
    if env.bv < 80: s = "".join(c for c in s if ord(c) < 0x10000 and _enc(c, env.enc))
    return ("str", s)

def _enc(c, enc):
    try: return c.encode(enc).decode(enc) == c
    except UnicodeError: return False

def rand_point(rng, env, rel):
    mr = 65535 if env.bv >= 80 else 16383
    r = rng.choice([0, 1, 2, 3, 9, 10, 99, rng.randint(0, 20), rng.randint(0, mr), mr])
    c = rng.choice([0, 1, 2, 3, 25, 26, 27, 51, 52, rng.randint(0, 20), rng.randint(0, 255), 255])
    rr = cr = 0
    if rel:
        rr, cr = rng.choice([(0, 1), (1, 0), (1, 1), (1, 1)])
        if rr: r = rng.choice([0, 1, -1, 5, -5, rng.randint(-(mr + 1) // 2, mr // 2), mr // 2, mr // 2 - 1, -(mr + 1) // 2, 1 - (mr + 1) // 2])
        if cr: c = rng.choice([0, 1, -1, 3, -3, rng.randint(-128, 127), 127, 126, -128, -127])
    return (r, rr, c, cr)

def rand_ref(rng, env, cls=None, rel=0.0, two_d=0.0, badsheet=0.0, multi=.15, small=False):
    cls = cls or ("R" if rng.random() < .85 else rng.choice("VA"))
    sh = None
    n = len(env.kinds)
    if rng.random() >= two_d:
        ws = [i for i, k in enumerate(env.kinds) if k == 0]
        if rng.random() < badsheet: sh = rng.choice([(n, n), (0, n + 3)] + [(i, i) for i, k in enumerate(env.kinds) if k])
        else:
            lo = rng.choice(ws); hi = lo
            if rng.random() < multi:
                hi = rng.choice([x for x in ws if x >= lo])
            sh = (lo, hi)
    isrel = sh is None or rng.random() < rel
    area = rng.random() < .5
    if small and not isrel:
        a = (rng.randint(0, 8), 0, rng.randint(0, 6), 0)
        b = (a[0] + rng.randint(0, 5), 0, a[2] + rng.randint(0, 4), 0)
        return ("ref", cls, sh, a, b if area else None)
    p1 = rand_point(rng, env, isrel and (sh is not None or rng.random() < .7))
    p2 = None
    if area:
        p2 = rand_point(rng, env, False)
        if isrel and rng.random() < .8:
            p2 = rand_point(rng, env, True)
            if rng.random() < .3: p1 = rand_point(rng, env, False)
        # an area's corners are ordered where both are of one kind
        if p1[1] == p2[1]:
            r1, r2 = sorted((p1[0], p2[0])); p1 = (r1,) + p1[1:]; p2 = (r2,) + p2[1:]
        if p1[3] == p2[3]:
            c1, c2 = sorted((p1[2], p2[2])); p1 = p1[:2] + (c1, p1[3]); p2 = p2[:2] + (c2, p2[3])
        if not isrel and rng.random() < .15:
            mr = 65535 if env.bv >= 80 else 16383
            if rng.random() < .5: p1 = (0, 0, p1[2], 0); p2 = (mr, 0, p2[2], 0)
            else: p1 = (p1[0], 0, 0, 0); p2 = (p2[0], 0, 255, 0)
    if sh is not None and not any((p1[1], p1[3]) + ((p2[1], p2[3]) if p2 else ())): pass
    return ("ref", cls, sh, p1, p2)

class Gen(object):
    """random formula trees.  names: indexes of names that may be referenced"""
    def __init__(self, rng, env, names=(), funcs=True, rel=.05, two_d=.03, odd=.03, small=False, anyrange=False):
        self.anyrange = anyrange
        self.rng, self.env, self.names = rng, env, list(names)
        self.funcs, self.rel, self.two_d, self.odd, self.small = funcs, rel, two_d, odd, small
    def ref(self):
        if self.names and self.rng.random() < .25: return ("name", self.rng.choice(self.names))
        return rand_ref(self.rng, self.env, rel=self.rel, two_d=self.two_d, badsheet=self.odd, small=self.small)
    def absref(self):
        return rand_ref(self.rng, self.env, rel=0, small=self.small, multi=.1)
    def refexpr(self, d):
        rng = self.rng
        k = rng.random()
        if d <= 0 or k < .35: return self.ref()
        if k < .55: return ("bin", ",", self.refexpr(d - 1), self.refexpr(d - 1))
        if k < .75: return ("bin", " ", self.refexpr(d - 1), self.refexpr(d - 1))
        if k < .88: return ("bin", ":", self.range_operand(d - 1), self.range_operand(d - 1))
        if self.funcs and k < .94:
            if rng.random() < .5: return ("func", 29, [self.refexpr(d - 1)] + [rand_num(rng) for _ in range(rng.randint(1, 3))])
            return ("func", 78, [self.refexpr(d - 1)] + [rand_num(rng) for _ in range(rng.randint(2, 4))])
        return ("paren", self.refexpr(d - 1))
    def range_operand(self, d):
        rng = self.rng
        if d > 0 and rng.random() < .2: return ("bin", ":", self.range_operand(d - 1), self.range_operand(d - 1))
        if self.funcs and d > 0 and rng.random() < .2: return ("func", 148, [("str", "B2")])
        if self.anyrange:
            if self.names and rng.random() < .2: return ("name", rng.choice(self.names))
            if rng.random() < self.rel * 3: return self.ref()
        return self.absref()
    def any(self, d):
        rng = self.rng
        k = rng.random()
        if d <= 0:
            if k < .3: return rand_num(rng)
            if k < .45: return rand_str(rng, self.env)
            if k < .52: return ("bool", rng.randint(0, 1))
            if k < .57: return ("err", rng.choice(list(ERRS)))
            if k < .75 and self.names: return (rng.choice(["name", "name", "namex"]), rng.choice(self.names))
            if k < .77 and rng.random() < self.odd * 5: return rng.choice([("array",), ("deleted", rng.randint(0, 1), rng.randint(0, 1)), ("extern",)])
            if k < .9: return self.ref()
            return rand_num(rng)
        if k < .32: return ("bin", rng.choice(["+", "-", "*", "/", "^"]), self.any(d - 1), self.any(d - 1))
        if k < .42: return ("bin", "&", self.any(d - 1), self.any(d - 1))
        if k < .5: return ("bin", rng.choice(["<", "<=", "=", ">=", ">", "<>"]), self.any(d - 1), self.any(d - 1))
        if k < .62: return ("un", rng.choice(["-", "-", "+", "%", "%"]), self.any(d - 1))
        if k < .68: return ("paren", self.any(d - 1))
        if k < .78: return self.refexpr(d - 1)
        if k < .92 and self.funcs: return self.func(d)
        if k < .94 and self.funcs: return ("sum", self.any(d - 1))
        return self.any(0)
    def func(self, d):
        rng = self.rng
        fid = rng.choice([1, 1, 100]) if rng.random() < .2 else rng.choice(list(FTAB))
        nm, lo, hi = FTAB[fid]
        n = rng.randint(lo, min(hi, lo + rng.choice([0, 0, 1, 2, 5])))
        if fid == 100 and n < 2: n = 2
        args = [("miss",) if rng.random() < .06 and not (fid in (1, 100) and i == 0) else self.any(d - 1) for i in range(n)]
        if fid == 1 and args and rng.random() < .6: args[0] = rng.choice([("bool", 0), ("bool", 1), ("bin", rng.choice(["<", "=", ">"]), rand_num(rng), rand_num(rng))])
        if fid == 100 and rng.random() < .7: args[0] = ("int", rng.randint(1, n))
        return ("func", fid, args)
    def const(self, d):
        """arithmetic on constants, mostly judged"""
        rng = self.rng
        k = rng.random()
        if d <= 0:
            if k < .6: return rand_num(rng)
            if k < .85: return rand_str(rng, self.env)
            if k < .9: return ("bool", rng.randint(0, 1))
            if self.names: return ("name", rng.choice(self.names))
            return rand_num(rng)
        if k < .4: return ("bin", rng.choice(["+", "-", "*", "/", "^"]), self.const(d - 1), self.const(d - 1))
        if k < .55: return ("bin", "&", self.const(d - 1), self.const(d - 1))
        if k < .7: return ("bin", rng.choice(["<", "<=", "=", ">=", ">", "<>"]), self.const(d - 1), self.const(d - 1))
        if k < .85: return ("un", rng.choice(["-", "+", "%"]), self.const(d - 1))
        if k < .9: return ("func", 1, [("bin", rng.choice(["<", "=", ">", "<>"]), self.const(d - 1), self.const(d - 1)) if rng.random() < .8 else self.const(0)] + [self.const(d - 1) for _ in range(rng.randint(1, 2))])
        if k < .95:
            n = rng.randint(1, 4)
            ix = ("int", rng.randint(1, n)) if rng.random() < .6 else ("num", rng.choice([0., -1., .5, n + .5, n + 1., n + 2., rng.randint(1, n) + .75, 1.5, 1.999]))
            if rng.random() < .05: ix = ("bool", rng.randint(0, 1))
            return ("func", 100, [ix] + [self.const(d - 1) for _ in range(n)])
        return ("paren", self.const(d - 1))

class NameDef(object):
    """one NAME record: key = text or built-in code"""
    def __init__(self, key, tree=("empty",), scope=None, flags=0, raw=None, **kw):
        self.key, self.tree, self.scope, self.flags, self.raw, self.kw = key, tree, scope, flags, raw, kw
    @property
    def text(self):
        if not self.flags & 0x20: return self.key
        c = self.key if isinstance(self.key, int) else None
        return BUILTINS[c] if c is not None and c < len(BUILTINS) else "??Unknown??"
    @property
    def usable(self): return not self.flags & 0x1008

class NameSet(object):
    """the defined names of a workbook builder, with what must be reported"""
    def __init__(self, b, rng):
        self.b, self.rng = b, rng
        self.env = Env(b.bv, [s.kind for s in b.sheets], b.enc)
        e = self.env
        if b.bv >= 80:
            e.n_sup = rng.choice([1, 1, 2, 3, 3, 5]); e.rng = rng
            order = list(range(e.n_sup)); rng.shuffle(order)
            e.local_sup = order[0]
            e.ext_sup = order[1] if e.n_sup > 1 else None
            e.addin_sup = order[2] if e.n_sup > 2 else None
        else:
            e.b57 = []
            for i, s in enumerate(b.sheets):
                if rng.random() < .8: e.b57.append((3, s.name))
                if rng.random() < .1: e.b57.append((2, ""))
            if rng.random() < .3: e.b57.append((3, "NoSuchSheet"))
            if rng.random() < .3: e.b57.append((1, "other.xls"))
            e.b57.append((4, ""))
            rng.shuffle(e.b57)
            e.self_ext = [i + 1 for i, x in enumerate(e.b57) if x[0] == 4][0]
        self.names = []
    def add(self, *a, **kw):
        self.names.append(NameDef(*a, **kw)); return self.names[-1]
    def scope_fields(self, sc):
        """(extsht, sheet index, expected scope); sc: None, all-sheets index, 'bad'"""
        e, m = self.env, self.env.map()
        if e.bv >= 80:
            if sc is None: return self.rng.choice([0, 0, 5]), 0, -1
            if sc == "bad": return 0, len(m) + self.rng.randint(1, 9), -3
            return self.rng.choice([0, sc + 1]), sc + 1, (m[sc] if m[sc] >= 0 else -2)
        if sc is None: return 0, self.rng.choice([0, 0, 1]), -1
        if sc != "bad":
            want = self.b.sheets[sc].name
            c = [i for i, (ty, nm) in enumerate(e.b57) if ty == 3 and nm == want]
            if c: return c[0] + 1, 0, (m[sc] if m[sc] >= 0 else -2)
        c = [(i + 1, -3) for i, (ty, nm) in enumerate(e.b57) if ty != 3] + [(len(e.b57) + 1, -3)] + \
            [(i + 1, -2) for i, (ty, nm) in enumerate(e.b57) if nm == "NoSuchSheet"]
        i, s = self.rng.choice(c)
        return i, 0, s
    def install(self, deco=.15):
        """encode everything into the book"""
        env, rng = self.env, self.rng
        recs = []
        for n in self.names:
            if env.bv >= 80 and env.ext_sup is None: n.tree = _no_extern(n.tree)
            n.toks = n.raw if n.raw is not None else (b"" if n.tree == ("empty",) else encode(n.tree, env, rng, deco))
            n.extras = n.kw.get("extras", rng.choice([b"", b"", b"", b"menu text", b"\x0c\x01\x00junk"]))
            n.ext, n.shidx, n.exp_scope = self.scope_fields(n.scope)
            recs.append(name_record(env, n.key, n.flags, n.toks, n.ext, n.shidx, rng.choice([0, 65]), n.extras,
                                    (rng.choice([0, 4]), 0, 0, rng.choice([0, 2]))))
        del env.addins[:]
        links = externsheet_records(env, None)
        (self.b.post if env.bv >= 80 else self.b.pre).extend(links + recs)
        self.b.names_exp = self
    def expect(self, i):
        n = self.names[i]
        f = n.flags
        return {"name": n.text, "hidden": f & 1, "func": f >> 1 & 1, "vbasic": f >> 2 & 1, "macro": f >> 3 & 1,
                "complex": f >> 4 & 1, "builtin": f >> 5 & 1, "funcgroup": (f & 0xFC0) >> 6, "binary": f >> 12 & 1,
                "name_index": i, "scope": n.exp_scope, "raw_formula": n.toks + n.extras}
    def name_map(self):
        m = {}
        for i, n in enumerate(self.names): m.setdefault(n.text.lower(), []).append((n.exp_scope, i))
        return dict((k, [x[1] for x in sorted(v)]) for k, v in m.items())
    def scope_map(self):
        return dict(((n.text.lower(), n.exp_scope), i) for i, n in enumerate(self.names))
    def value(self, i):
        fl = set()
        n = self.names[i]
        if not n.usable or n.raw is not None: return UNK, {"bad"}
        if n.tree == ("empty",): return VAR, fl
        targets = [(x.tree, x.usable and ("raw" if x.raw is not None else True)) for x in self.names]
        if cyclic(i, targets): return UNK, {"bad"}
        if tainted(i, self.names): fl.add("maybebad")
        return evaluate(n.tree, self.env, targets, 0, fl), fl
    def tree(self, i, sheet_names, base=None):
        return text_tree(self.names[i].tree, self.env, sheet_names, [(n.text, n.exp_scope) for n in self.names], base)

def refs_of(t, out):
    if t[0] in ("name", "namex"): out.append(t[1])
    for x in t[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str): refs_of(x, out)
        elif isinstance(x, list):
            for y in x: refs_of(y, out)
    return out

def cyclic(i, targets, path=(), memo=None):
    """a cycle, or a chain deeper than 8, is reachable from name i"""
    if i in path or len(path) > 8: return True
    if not 0 <= i < len(targets): return False
    return any(cyclic(j, targets, path + (i,)) for j in set(refs_of(targets[i][0], [])))

def tainted(i, names):
    """a name with arbitrary token bytes, or one that doesn't exist, is reachable from name i"""
    seen, todo = {i}, [i]
    while todo:
        for j in refs_of(names[todo.pop()].tree, []):
            if not 0 <= j < len(names) or names[j].raw is not None: return True
            if j not in seen: seen.add(j); todo.append(j)
    return False

def _no_extern(t):
    if t == ("extern",): return ("deleted", 0, 0)
    return tuple([_no_extern(y) for y in x] if isinstance(x, list) else _no_extern(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t)

NAME_POOL = ["Rate", "Alpha", "beta", "GAMMA", "x_1", "Total_Amount", "_hid", "Zed.two"]

def random_names(b, rng, n=None, depth=2, odd=.03):
    """give a finished book (all sheets added) some defined names"""
    ns = NameSet(b, rng)
    for i in range(rng.randint(1, 8) if n is None else n):
        flags = 1 if rng.random() < .2 else 0
        if rng.random() < .15: flags |= 0x20
        key = 6 if flags & 0x20 else rng.choice(NAME_POOL) + ("_%d" % i if rng.random() < .8 else "")
        g = Gen(rng, ns.env, range(i), small=rng.random() < .7, odd=odd)
        k = rng.random()
        t = g.ref() if k < .4 else g.refexpr(depth) if k < .6 else g.const(depth) if k < .8 else g.any(depth)
        ns.add(key, t, rng.choice([None, None] + list(range(len(b.sheets)))), flags)
    ns.install()
    return ns
