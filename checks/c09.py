"""C09 - file handles and memory maps are always released."""
import gc, mmap, struct, zipfile
from xlmon.randbook import *
from xlmon.runner import Violation
import xlrd

ID = "C09"; LEVEL = "fault_enumeration"
RULE = ("distinct = distinct (file form, options, fault site = calling function and primitive, fault type) or (file form, options, truncation class) situations after which "
        "/proc/self/fd and /proc/self/maps were inspected while the workbook or the exception was still referenced and the garbage collector was off")
ASSUMPTIONS = ["injected faults are exceptions from the primitives through which the file's data, the log and memory are reached (unpack, decode, read, seek, mmap, write, append...) when called from library code; "
               "a fault inside the release code itself is not injected"]
REQUIRED = {"opens_ok": 300, "injected_faults": 1500, "natural_failures": 500, "held_while_open": 50, "context_exits": 100, "releases": 100, "log_faults": 100, "not_swallowed": 50}
CASE_TIMEOUT = 120
REACH = False

def plan(tier, seed):
    return specs_for(tier, seed, ok=(1200, 10000), inject=(960, 20000), trunc=(720, 9000), log=(480, 6000), demand=(1440, 16000), other=(24, 300))

def held(prefix):
    """descriptors and mappings of files below `prefix`, plus the descriptor set"""
    fds, maps = {}, []
    for fd in os.listdir("/proc/self/fd"):
        try: t = os.readlink("/proc/self/fd/" + fd)
        except OSError: continue
        fds[int(fd)] = t
    with open("/proc/self/maps") as f:
        for l in f:
            if prefix in l: maps.append(l.split(None, 5)[-1].strip())
    return [t for t in fds.values() if t.startswith(prefix)], maps, fds

class Watch(object):
    def __init__(self, mon, d): self.mon, self.d = mon, d
    def base(self): self.b = set(held(self.d)[2].values())
    def clean(self, what, key):
        f, m, fds = held(self.d)
        self.mon.count("assertions"); self.mon.count("inspections")
        if f or m: raise Violation(key, "%s: still held: descriptors %r, mappings %r" % (what, f, m))
        extra = [t for t in fds.values() if t not in self.b and not t.startswith("/proc/")]
        if extra: raise Violation(key, "%s: descriptors opened and still held: %r" % (what, extra))
    def any(self):
        f, m, _ = held(self.d); return bool(f or m)

PRIMS = frozenset("unpack unpack_from decode mmap read seek tell write append extend unicode array fromstring frombytes join index find encode".split())

class Inject(object):
    """raise `exc` at the k-th primitive call made from library code"""
    def __init__(self, k, exc, repo):
        self.k, self.exc, self.n, self.where, self.pre = k, exc, 0, None, repo + "/xlrd/"
    def __call__(self, frame, event, arg):
        if event != "c_call": return
        if not frame.f_code.co_filename.startswith(self.pre): return
        if frame.f_code.co_name == "release_resources" or frame.f_code.co_name == "__exit__": return
        nm = getattr(arg, "__name__", "")
        if nm not in PRIMS: return
        self.n += 1
        if self.n == self.k:
            self.where = (frame.f_code.co_name, nm)
            raise self.exc
    def run(self, f):
        import sys
        sys.setprofile(self)
        try:
            return f()
        finally:
            sys.setprofile(None)

class Injected(Exception): pass
def faults(rng):
    return rng.choice([Injected("injected"), MemoryError("injected"), KeyboardInterrupt("injected"), OSError(5, "injected"), struct.error("injected"), SystemExit(3), xlrd.XLRDError("injected"), RuntimeError("injected")])

def make(rng, i, small=True):
    bv = (80, 80, 70, 50, 45, 40, 30, 21, 20)[i % 9]
    b = random_book(rng, bv, density=rng.choice([.1, .3]), small=True, names=True, kinds=rng.random() < .3)
    st = b.stream(rng)
    form = "raw"
    if bv >= 50 and rng.random() < .7:
        L = ole.random_layout(rng); L.free = min(L.free, 3)
        form = "ole-frag"
        if rng.random() < .4: form = "ole"; L = None
        data = wrap(st, bv, layout=L)
    else: data = st
    return bv, form, data

def run(spec, mon):
    rng = rng_for(spec); k = spec["kind"]; i = spec["i"]
    gc.collect(); gc.disable()
    try:
        with Scratch() as d:
            w = Watch(mon, d); w.base()
            globals()["run_" + k](spec, rng, mon, d, w)
    finally:
        gc.enable(); gc.collect()

def put(d, data, name="in.xls"):
    p = os.path.join(d, name)
    with open(p, "wb") as f: f.write(data)
    return p

def opts(rng):
    return dict(use_mmap=rng.random() < .75, formatting_info=rng.random() < .4, ragged_rows=rng.random() < .3)

def run_ok(spec, rng, mon, d, w):
    bv, form, data = make(rng, spec["i"])
    p = put(d, data)
    keep = []
    for _ in range(3):
        o = opts(rng)
        bk = xlrd.open_workbook(p, logfile=LOG, verbosity=rng.choice([0, 0, 3]), **o)
        keep.append(bk)
        w.clean("BIFF%d %s %r, after open returned" % (bv, form, o), "after-open")
        mon.count("opens_ok"); mon.seen("situation", ("ok", bv, form, tuple(sorted(o.items()))))
    bk = open_bytes(data); keep.append(bk)
    w.clean("BIFF%d %s from bytes" % (bv, form), "after-open")
    for bk in keep:
        for j in range(bk.nsheets): bk.sheet_by_index(j).row_len(0) if bk.sheet_by_index(j).nrows else 0
    xlrd.inspect_format(p); w.clean("inspect_format", "inspect")
    mon.sample("BIFF%d %s" % (bv, form))

def failing(mon, w, what, f, key, cls):
    """run f, which may raise anything; inspect while the exception is still referenced"""
    try:
        r = f()
    except BaseException as e:
        h = e
        w.clean("%s: raised %s(%s)" % (what, type(e).__name__, str(e)[:60]), key)
        return h
    return r

def run_inject(spec, rng, mon, d, w):
    bv, form, data = make(rng, spec["i"])
    p = put(d, data)
    o = opts(rng); o["on_demand"] = rng.random() < .5; o["verbosity"] = rng.choice([0, 0, 2])
    f = lambda: xlrd.open_workbook(p, logfile=LOG, **o)
    cnt = Inject(-1, None, os.environ.get("XLMON_REPO", "/repo"))
    bk = cnt.run(f); bk.release_resources(); del bk
    N = cnt.n
    ks = range(1, N + 1) if N <= 60 else sorted(set(list(range(1, 20)) + rng.sample(range(20, N + 1), 40)))
    for k in ks:
        inj = Inject(k, faults(rng), cnt.pre[:-6])
        r = failing(mon, w, "BIFF%d %s %r, fault at call %d of %d" % (bv, form, o, k, N), lambda: inj.run(f), "injected-fault", "inject")
        if isinstance(r, BaseException):
            mon.count("injected_faults")
            mon.seen("situation", (form, o["use_mmap"], o["on_demand"], o["formatting_info"], inj.where, type(inj.exc).__name__))
        else:
            # the library tolerated it (or it was never reached): must then be releasable
            r.release_resources(); mon.count("fault_absorbed")
        del r
        w.clean("after fault %d" % k, "injected-fault")

def run_trunc(spec, rng, mon, d, w):
    bv, form, data = make(rng, spec["i"])
    cuts = sorted(set([1, 2, 7, 8, 9, 20, 511, 512, 513, len(data) - 1, len(data) - 4, len(data) // 2] + [rng.randrange(1, len(data)) for _ in range(12)]))
    for c in cuts:
        if not 0 < c < len(data): continue
        x = data[:c] if rng.random() < .6 else data[:c] + bytes([data[c] ^ rng.choice([1, 0x80, 0xFF])]) + data[c + 1:]
        p = put(d, x)
        o = opts(rng); o["on_demand"] = rng.random() < .3
        r = failing(mon, w, "BIFF%d %s damaged at %d, %r" % (bv, form, c, o), lambda: xlrd.open_workbook(p, logfile=LOG, **o), "failed-open", "trunc")
        if isinstance(r, BaseException): mon.count("natural_failures"); mon.seen("situation", (form, o["use_mmap"], o["on_demand"], type(r).__name__, str(r)[:15]))
        else: r.release_resources()
        del r
        w.clean("damaged at %d" % c, "failed-open")

class BadLog(object):
    def __init__(self, k): self.k, self.n = k, 0
    def write(self, s):
        self.n += 1
        if self.n == self.k: raise OSError(28, "No space left on device")
        return len(s)
    def flush(self): pass

def run_log(spec, rng, mon, d, w):
    bv, form, data = make(rng, spec["i"])
    p = put(d, data); o = opts(rng); v = rng.choice([1, 2, 3, 4]); o["on_demand"] = rng.random() < .4
    c = BadLog(-1)
    bk = xlrd.open_workbook(p, logfile=c, verbosity=v, **o); bk.release_resources(); del bk
    w.clean("verbose open", "after-open")
    for k in sorted(set(rng.randint(1, max(1, c.n)) for _ in range(12))):
        if k > c.n: continue
        r = failing(mon, w, "BIFF%d %s %r, write %d of %d to the log fails" % (bv, form, o, k, c.n), lambda: xlrd.open_workbook(p, logfile=BadLog(k), verbosity=v, **o), "log-fault", "log")
        if isinstance(r, BaseException): mon.count("log_faults"); mon.seen("situation", (form, "log", v, o["use_mmap"], o["on_demand"]))
        else: r.release_resources()
        del r
        w.clean("log fault", "log-fault")

def run_demand(spec, rng, mon, d, w):
    bv, form, data = make(rng, spec["i"])
    bad = bv >= 50 and rng.random() < .3
    p = put(d, data); o = opts(rng)
    what = "BIFF%d %s %r on demand" % (bv, form, o)
    for how in rng.sample(["release", "context", "context-exc", "context-exc-load", "double", "context-nested"], 3):
        bk = xlrd.open_workbook(p, logfile=LOG, on_demand=True, **o)
        if w.any(): mon.count("held_while_open")
        obj = []
        for _ in range(rng.randint(0, 3)): obj.append(bk.sheet_by_index(rng.randrange(bk.nsheets)))
        if how in ("release", "double"):
            bk.release_resources()
            w.clean(what + ", after release_resources", "after-release"); mon.count("releases")
            if how == "double": bk.release_resources(); w.clean(what + ", after the second release", "after-release")
        elif how.startswith("context-exc"):
            exc = rng.choice([ValueError("mine"), KeyboardInterrupt("mine"), xlrd.XLRDError("mine"), StopIteration("mine"), GeneratorExit("mine")])
            got = None
            try:
                with bk as q:
                    if how.endswith("load"):
                        q.sheets(); q.sheet_by_name("no such sheet")
                    raise exc
            except BaseException as e: got = e
            if got is None: raise Violation("swallowed", what + ": %r raised inside the context was swallowed" % exc)
            if not how.endswith("load") and got is not exc: raise Violation("swallowed", what + ": %r raised inside the context became %r" % (exc, got))
            mon.count("not_swallowed"); mon.count("context_exits")
            w.clean(what + ", after leaving the context by an exception", "after-context")
        else:
            with bk as q:
                obj += q.sheets()
                if how == "context-nested":
                    q.release_resources(); w.clean(what + ", released inside the context", "after-release")
            mon.count("context_exits"); w.clean(what + ", after the context", "after-context")
        for s in obj:
            for r in range(min(s.nrows, 3)): s.row(r)
        try: bk.sheet_by_index(bk.nsheets - 1)
        except xlrd.XLRDError: pass
        w.clean(what + ", after a refused load", "after-release")
        mon.seen("situation", (how, bv, form, tuple(sorted(o.items()))))
        # failing load on demand, then release
    # a sheet that cannot be read
    if bv >= 50 and form == "raw":
        x = data[:len(data) - rng.randint(1, 40)]
        p = put(d, x)
        r, bk = outcome(xlrd.open_workbook, p, logfile=LOG, on_demand=True, **o)
        if r == "ok":
            e = failing(mon, w.__class__(mon, "\0none") if False else Quiet(), "", lambda: bk.sheets(), "", "")
            bk.release_resources()
            w.clean(what + ", after a failed load and release", "after-release"); mon.count("releases")

class Quiet(object):
    def clean(self, *a): pass

def run_other(spec, rng, mon, d, w):
    import io
    z = io.BytesIO()
    with zipfile.ZipFile(z, "w") as f: f.writestr(rng.choice(["xl/workbook.xml", "xl/workbook.bin", "content.xml", "other"]), "x")
    cases = {"empty": b"", "zip": z.getvalue(), "broken zip": z.getvalue()[:30], "text": b"hello, world" * 40, "sig only": b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1",
             "bof only": bof(80, 5), "old bof": bof(21, 0x10), "encrypted": bof(80, 5) + rec(0x2F, b"\0" * 54) + rec(0x0A), "chart": bof(80, 0x20) + rec(0x0A)}
    for nm, x in cases.items():
        p = put(d, x, "x-%s.xls" % nm.replace(" ", ""))
        for mm in (True, False):
            for od in (False, True):
                r = failing(mon, w, "%s file" % nm, lambda: xlrd.open_workbook(p, logfile=LOG, use_mmap=mm, on_demand=od), "failed-open", "other")
                if isinstance(r, BaseException): mon.count("natural_failures"); mon.seen("situation", (nm, mm, od, type(r).__name__))
                else: raise Violation("opened", "%s file opened" % nm)
                del r
        outcome(xlrd.inspect_format, p); w.clean("inspect_format of %s" % nm, "inspect")
    r = failing(mon, w, "missing file", lambda: xlrd.open_workbook(os.path.join(d, "missing.xls"), logfile=LOG), "failed-open", "other")
    r = failing(mon, w, "directory", lambda: xlrd.open_workbook(d, logfile=LOG), "failed-open", "other")
    # no growth over many opens
    bv, form, data = make(rng, spec["i"]); p = put(d, data)
    keep = []
    for _ in range(40):
        keep.append(xlrd.open_workbook(p, logfile=LOG)); mon.count("opens_ok")
    w.clean("40 workbooks open at once", "after-open")
