"""C08 - on-demand loading is equivalent to eager loading under every call history."""
import mmap
from xlmon.randbook import *
from xlmon import samples as SM
from xlmon.runner import Violation, same
import xlrd

ID = "C08"; LEVEL = "exploration"
RULE = "distinct = distinct (source form, version class, sheet count, canonical call history prefix of 12 calls with the model state before each) histories; every call's answer and every sheet obtained was judged"
ASSUMPTIONS = ["the eager observation of the same bytes is the reference; that it is right is decided by C03-C07, C11 and C19",
               "file versions 2-4W have no on-demand support: they are judged as eager opens (everything loaded, resources released)"]
REQUIRED = {"calls": 10000, "sheets_observed": 3000, "reloads": 300, "after_release_refused": 200, "after_release_read": 500, "releases": 300, "double_release": 100, "bad_sheet_refused": 50, "old_versions": 50, "sample_books": 40}
CASE_TIMEOUT = 300

def plan(tier, seed):
    return specs_for(tier, seed, hist=(4000, 60000), exh=(80, 800), bad=(200, 4000), old=(160, 2000))

class Src(object):
    def __init__(self, data, form, tmp):
        self.data, self.form = data, form
        if form in ("path", "path-nommap", "mmap"):
            self.p = os.path.join(tmp, "b.xls")
            with open(self.p, "wb") as f: f.write(data)
    def open(self, **kw):
        if self.form == "bytes": return open_bytes(self.data, **kw)
        if self.form == "mmap":
            with open(self.p, "rb") as f: m = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ)
            return xlrd.open_workbook(file_contents=m, logfile=LOG, **kw)
        return xlrd.open_workbook(self.p, logfile=LOG, use_mmap=self.form == "path", **kw)

def run(spec, mon):
    rng = rng_for(spec); k = spec["kind"]; i = spec["i"]
    bv = (20, 21, 30, 40, 45)[i % 5] if k == "old" else (50, 70, 80, 80)[i % 4]
    b = random_book(rng, bv, density=rng.choice([.1, .3]), nsheets=2 if k == "exh" else rng.choice([1, 2, 3, 5]), names=True, kinds=rng.random() < .3, annotations=rng.random() < .5, small=rng.random() < .97)
    if bv >= 50:
        for _ in range(rng.randint(0, 2)):
            if k != "exh": b.sheets.insert(rng.randint(0, len(b.sheets)), b.sheets.pop(b.sheets.index(b.sheet(rng.choice(["Empty", "Empty2"])))))
        ws = b.worksheets()
        if len(ws) > 1 and rng.random() < .2: ws[-1].name = ws[0].name      # duplicate names: the first wins
    b.shuffle_substreams = rng.random() < .5
    bad = None; real = k == "hist" and i % 23 == 7
    if k == "bad":
        ws = b.worksheets()
        bad = rng.randrange(len(ws)); how = rng.randrange(3)
        if how == 0: ws[bad].raw(rec(0x203, b"\0\0\1\0"))                       # truncated NUMBER record
        elif how == 1: ws[bad].items.insert(0, rec(0xFD if bv >= 80 else 0x204, b"\0" * 3))
        else: ws[bad].raw(rec(0x006, pack("<HHH8sHIH", 0, 0, 0, b"\0" * 6 + b"\xff\xff", 0, 0, 3) + b"\x1e\1\0")); ws[bad].raw(rec(0x203, pack("<HHHd", 0, 0, 0, 1.0)))   # string result without its STRING
        # how 2: the record after the formula is not a STRING record
    if real:
        like, data, st = SM.pick(rng)
        while like.bv < 50: like, data, st = SM.pick(rng)
        bv = like.bv; mon.count("sample_books")
    else: data = wrap(b.stream(rng), bv)
    fmt, rag = rng.random() < .5, rng.random() < .3
    form = rng.choice(["bytes", "path", "path-nommap", "mmap"])
    with Scratch() as tmp:
        src = Src(data, form, tmp)
        if bad is None:
            e = open_bytes(data, formatting_info=fmt, ragged_rows=rag)
            ref = [O.obs_sheet(e.sheet_by_index(j), fmt) for j in range(e.nsheets)]
            names = list(e.sheet_names())
            refbook = O.obs_book(e, fmt)
        else:
            # reference for the intact sheets: the same workbook with the bad sheet emptied
            ws[bad].items = []; ws[bad].first = []
            e = open_bytes(wrap(b.stream(rng), bv), formatting_info=fmt, ragged_rows=rag)
            ref = [O.obs_sheet(e.sheet_by_index(j), fmt) for j in range(e.nsheets)]
            names = list(e.sheet_names()); refbook = O.obs_book(e, fmt)
            r, v = outcome(src.open, formatting_info=fmt, ragged_rows=rag)
            mon.check(r == "exc", "bad-eager", "a damaged sheet opened eagerly without error")
        if k == "exh":
            # all histories of length 4 over a small alphabet, sharded by case
            import itertools
            A = ["load0", "load1", "unload0", "unload1", "iter", "release"]
            H = list(itertools.product(A, repeat=4))
            rng2 = random.Random(spec["i"])
            for h in rng2.sample(H, 60) + [("load0", "release", "load0", "load1"), ("iter", "release", "iter", "load1"), ("load0", "unload0", "load0", "iter"), ("load1", "load0", "unload1", "release")]:
                History(mon, rng, src, ref, names, refbook, fmt, rag, bv, None, form).go(list(h))
        else:
            for _ in range(3):
                History(mon, rng, src, ref, names, refbook, fmt, rag, bv, bad, form).go(None)

OPS = "index index name getname getindex neg sheets iter partial unload-i unload-n loaded loaded-n missing oob counts nameslist release double with-exc".split()

class History(object):
    def __init__(self, mon, rng, src, ref, names, refbook, fmt, rag, bv, bad, form):
        self.__dict__.update(locals()); del self.__dict__["self"]
        self.n = len(ref)
        self.log = []
    def fail(self, key, msg):
        raise Violation(key, "BIFF%d %s, history %s: %s" % (self.bv, self.form, " ; ".join(self.log), msg))
    def observe(self, s, j):
        self.mon.count("sheets_observed")
        o = O.obs_sheet(s, self.fmt)
        if not same(o, self.ref[j]):
            self.fail("content", "sheet %d differs from the eager one: %s" % (j, O.diff(o, self.ref[j])[:3]))
        self.mon.count("comparisons")
    def got(self, r, v, j, what):
        """a load call for sheet j returned (r, v)"""
        mon = self.mon
        if self.obj[j] is not None:
            if r != "ok" or v is not self.obj[j]: self.fail("identity", "%s did not return the loaded sheet %d (%r)" % (what, j, v))
            if self.released: mon.count("after_release_read")
        elif self.released:
            if r != "exc" or not isinstance(v, xlrd.XLRDError): self.fail("after-release", "%s of unloaded sheet %d after release gave %r, not the library's error" % (what, j, v))
            mon.count("after_release_refused"); return
        elif j == self.bad:
            if r != "exc": self.fail("bad-sheet", "%s returned the damaged sheet" % what)
            mon.count("bad_sheet_refused"); return
        else:
            if r != "ok": self.fail("load", "%s raised %s: %s" % (what, type(v).__name__, v))
            if any(v is o for o in self.old): self.fail("identity", "%s after unloading returned the old sheet object" % what)
            self.obj[j] = v
            if j in self.unloaded: mon.count("reloads")
        self.observe(v, j)
    def prefix_load(self, upto):
        """sheets loaded in order until one is refused; returns index of refusal or None"""
        for j in range(upto):
            if self.obj[j] is None and (self.released or j == self.bad): return j
        return None
    def answers(self):
        bk = self.bk
        if bk.nsheets != self.n: self.fail("nsheets", "nsheets is %r, eager says %d" % (bk.nsheets, self.n))
        if list(bk.sheet_names()) != self.names: self.fail("names", "sheet_names() is %r" % (bk.sheet_names(),))
        for j in range(self.n):
            if bk.sheet_loaded(j) is not (self.obj[j] is not None): self.fail("loaded", "sheet_loaded(%d) is %r" % (j, bk.sheet_loaded(j)))
            k = self.names.index(self.names[j])
            if bk.sheet_loaded(self.names[j]) is not (self.obj[k] is not None): self.fail("loaded", "sheet_loaded(%r) is %r" % (self.names[j], bk.sheet_loaded(self.names[j])))
        self.mon.count("assertions", 2 + 2 * self.n)
    def go(self, script):
        rng, mon = self.rng, self.mon
        old_v = self.bv < 50
        self.bk = bk = self.src.open(formatting_info=self.fmt, ragged_rows=self.rag, on_demand=True)
        if old_v: mon.count("old_versions")
        self.released = old_v
        self.obj = [None] * self.n; self.old = []; self.unloaded = set()
        if old_v: self.obj = [bk.sheet_by_index(j) for j in range(self.n)]
        self.answers()
        if script is None: script = [rng.choice(OPS) for _ in range(rng.randint(3, 16))]
        hist = []
        for op in script:
            hist.append((op, tuple(o is not None for o in self.obj), self.released))
            self.step(op)
            self.answers()
            mon.count("calls")
        mon.seen("history", (self.form, self.bv, self.n, tuple(hist[:12])))
        # end: book-level observation equals eager; release; loaded sheets remain readable
        if not old_v or True:
            ob = O.obs_book(bk, self.fmt)
            if not same(ob, self.refbook): self.fail("book", "book-level data differ from eager: %s" % O.diff(ob, self.refbook)[:3])
        self.step("release")
        for j, s in enumerate(self.obj):
            if s is not None: self.observe(s, j); mon.count("after_release_read")
        for s in self.old[-3:]:
            j = s.number
            if 0 <= j < self.n: self.observe(s, j)
        if script: mon.sample("%s BIFF%d: %s" % (self.form, self.bv, " ; ".join(self.log[:8])))
    def step(self, op):
        rng, bk, n, mon = self.rng, self.bk, self.n, self.mon
        if op[-1] in "01" and op[:-1] in ("load", "unload"):
            j = min(int(op[-1]), n - 1); op = {"load": "index", "unload": "unload-i"}[op[:-1]]
        else: j = rng.randrange(n)
        self.log.append("%s(%d)" % (op, j))
        first = self.names.index(self.names[j])
        if op == "index": self.got(*outcome(bk.sheet_by_index, j), j, "sheet_by_index(%d)" % j)
        elif op == "neg": self.got(*outcome(bk.sheet_by_index, j - n), j, "sheet_by_index(%d)" % (j - n))
        elif op == "name": self.got(*outcome(bk.sheet_by_name, self.names[j]), first, "sheet_by_name(%r)" % self.names[j])
        elif op == "getname": self.got(*outcome(bk.__getitem__, self.names[j]), first, "book[%r]" % self.names[j])
        elif op == "getindex": self.got(*outcome(bk.__getitem__, j), j, "book[%d]" % j)
        elif op == "sheets" or op == "iter":
            stop = self.prefix_load(n)
            r, v = outcome(bk.sheets) if op == "sheets" else outcome(lambda: list(bk))
            if stop is not None:
                if r != "exc": self.fail("load-all", "%s succeeded although sheet %d cannot be loaded" % (op, stop))
                if self.released and not isinstance(v, xlrd.XLRDError): self.fail("after-release", "%s raised %r" % (op, v))
                # sheets before the refusal may have been loaded
                for q in range(n):
                    if self.obj[q] is None and bk.sheet_loaded(q):
                        if self.released: self.fail("after-release", "sheet %d became loaded" % q)
                        self.obj[q] = bk.sheet_by_index(q); self.observe(self.obj[q], q)
            else:
                if r != "ok": self.fail("load-all", "%s raised %r" % (op, v))
                if len(v) != n: self.fail("load-all", "%s gave %d sheets of %d" % (op, len(v), n))
                for q in range(n): self.got("ok", v[q], q, op)
                if op == "sheets": v[:] = []      # the caller's copy
        elif op == "partial":
            it = iter(bk); m = rng.randint(1, n)
            for q in range(m):
                r, v = outcome(next, it)
                self.got(r, v, q, "iteration step %d" % q)
                if r == "exc": break
                if rng.random() < .3:
                    z = rng.randrange(n); self.got(*outcome(bk.sheet_by_index, z), z, "sheet_by_index(%d) during iteration" % z)
        elif op == "unload-i" or op == "unload-n":
            t = j if op == "unload-i" else first
            r, v = outcome(bk.unload_sheet, j if op == "unload-i" else self.names[j])
            if r != "ok": self.fail("unload", "unload raised %r" % (v,))
            if self.obj[t] is not None: self.old.append(self.obj[t])
            self.obj[t] = None; self.unloaded.add(t)
        elif op == "loaded" or op == "loaded-n": pass
        elif op == "missing":
            nm = "no such sheet"
            for f in (bk.sheet_by_name, bk.sheet_loaded, bk.unload_sheet, bk.__getitem__):
                r, v = outcome(f, nm)
                if r != "exc" or not isinstance(v, xlrd.XLRDError): self.fail("missing", "%s(%r) gave %r" % (f.__name__, nm, v))
        elif op == "oob":
            for q in (n, n + 5, -n - 1):
                for f in (bk.sheet_by_index, bk.__getitem__, bk.sheet_loaded, bk.unload_sheet):
                    r, v = outcome(f, q)
                    if r != "exc" or not isinstance(v, (IndexError, xlrd.XLRDError)): self.fail("out-of-range", "%s(%d) of %d sheets gave %r" % (f.__name__, q, n, v))
        elif op == "nameslist":
            l = bk.sheet_names(); l.append("x"); l[0] = "y"
        elif op in ("release", "double", "with-exc"):
            if op != "release" and rng.random() < .6: return     # keep histories alive longer
            if op == "with-exc":
                try:
                    with bk as q:
                        if q is not bk: self.fail("context", "the context manager is not the workbook")
                        raise KeyError("inside")
                except KeyError: pass
                else: self.fail("context", "exception inside the context was swallowed")
            else:
                r, v = outcome(bk.release_resources)
                if r != "ok": self.fail("release", "release raised %r" % (v,))
            mon.count("releases"); self.released = True
            if op == "double" or rng.random() < .3:
                for _ in range(2):
                    r, v = outcome(bk.release_resources)
                    if r != "ok": self.fail("release", "second release raised %r" % (v,))
                mon.count("double_release")
