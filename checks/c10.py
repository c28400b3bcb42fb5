"""C10 - results depend only on the file's bytes and the semantic options."""
import io, mmap, pathlib, pickle, struct, sys, threading, time, hashlib
from xlmon.randbook import *
from xlmon.runner import Violation, same
import xlrd

ID = "C10"; LEVEL = "exploration"
RULE = ("distinct = distinct thread interleavings (hash of the sequence in which the threads' function entries into the library followed each other) plus distinct "
        "(source, mmap, verbosity, log kind, version) combinations whose whole observation equalled the one made in a fresh process")
ASSUMPTIONS = ["verbosity is varied from 0 to 7; the log accepts any text",
               "a memory map supplied by the caller is the library's to close after an open (existing behaviour), so each open gets its own map"]
REQUIRED = {"sources": 800, "fresh_compared": 100, "thread_rounds": 40, "thread_books": 200, "switches": 2000, "isolation": 100, "verbose": 200, "stdout_checked": 500, "unmodified": 300}
CASE_TIMEOUT = 180

def plan(tier, seed):
    return specs_for(tier, seed, source=(960, 16000), threads=(240, 5000), history=(320, 6000), isolation=(240, 5000), sample=(11, 11))

SAMPLES = "Formate biff4_no_format_no_window2 formula_test_names formula_test_sjmachin issue20 namesdemo picture_in_cell profiles ragged xf_class invalid_formula".split()

# ---- an observer forked before this worker opened any workbook
class Zygote(object):
    def __init__(self):
        r1, w1 = os.pipe(); r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1); os.close(r2)
                while 1:
                    h = self.readn(r1, 4)
                    if h is None: break
                    req = self.readn(r1, struct.unpack("<I", h)[0])
                    p2 = os.fork()
                    if p2 == 0:
                        data, kw = pickle.loads(req)
                        try: out = pickle.dumps(("ok", full(open_bytes(data, **kw))))
                        except Exception as e: out = pickle.dumps(("exc", type(e).__name__, str(e)))
                        blob = struct.pack("<I", len(out)) + out
                        while blob: blob = blob[os.write(w2, blob):]
                        os._exit(0)
                    os.waitpid(p2, 0)
            finally:
                os._exit(0)
        os.close(r1); os.close(w2)
        self.w, self.r = w1, r2
    @staticmethod
    def readn(fd, n):
        b = b""
        while len(b) < n:
            x = os.read(fd, n - len(b))
            if not x: return None
            b += x
        return b
    def ask(self, data, kw):
        req = pickle.dumps((data, kw)); blob = struct.pack("<I", len(req)) + req
        while blob: blob = blob[os.write(self.w, blob):]
        return pickle.loads(self.readn(self.r, struct.unpack("<I", self.readn(self.r, 4))[0]))
Z = None
def worker_init():
    global Z
    Z = Zygote()

def full(bk): return O.observe(bk)

def make(rng, i):
    bv = ALL_BV[i % 8] if i % 3 else 80
    b = random_book(rng, bv, density=rng.choice([.1, .5]), small=True, kinds=rng.random() < .3, names=True)
    L = None
    if bv >= 50 and rng.random() < .5: L = ole.random_layout(rng); L.free = min(L.free, 2)
    st = b.stream(rng)
    return st if bv >= 50 and rng.random() < .25 else wrap(st, bv, layout=L)

class TextLog(object):
    """collects what is written; only text may be written"""
    def __init__(self): self.n, self.bad = 0, None
    def write(self, s):
        self.n += 1
        if not isinstance(s, str): self.bad = s
        return len(s)
    def flush(self): pass

class StdWatch(object):
    """fd-level and sys-level capture of standard output and error"""
    def __init__(self, d): self.p = os.path.join(d, "std")
    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        self.so, self.se = sys.stdout, sys.stderr
        self.s1, self.s2 = os.dup(1), os.dup(2)
        fd = os.open(self.p, os.O_CREAT | os.O_TRUNC | os.O_WRONLY)
        os.dup2(fd, 1); os.dup2(fd, 2); os.close(fd)
        return self
    def __exit__(self, *a):
        os.dup2(self.s1, 1); os.dup2(self.s2, 2); os.close(self.s1); os.close(self.s2)
        sys.stdout, sys.stderr = self.o, self.e
    def text(self):
        with open(self.p, "rb") as f: return (self.so.getvalue() + self.se.getvalue()).encode() + f.read()

def cmp(mon, got, want, what, key):
    mon.count("comparisons")
    if not same(got, want):
        raise Violation(key, "%s: %s" % (what, O.diff(got, want)[:4]))

def run(spec, mon):
    rng = rng_for(spec)
    with Scratch() as d:
        globals()["run_" + spec["kind"]](spec, rng, mon, d)

def semantic(rng): return dict(formatting_info=rng.random() < .5, ragged_rows=rng.random() < .3)

def sources(mon, rng, d, data, kw, want, n, what):
    p = os.path.join(d, "book.xls"); 
    with open(p, "wb") as f: f.write(data)
    os.utime(p, (1e9, 1e9))
    st0 = os.stat(p)
    for j in range(n):
        src = rng.choice(["path", "path", "pathlib", "bytes", "mmap", "mmap-copy", "relative", "home", "bytes+name"])
        mm = rng.random() < .5
        v = rng.choice([0, 0, 0, 1, 2, 3, 4, 7])
        logk = rng.choice(["text", "stringio", "file", "null"])
        od = rng.random() < .3
        log = {"text": TextLog, "stringio": io.StringIO, "null": Null, "file": lambda: open(os.path.join(d, "log"), "w", encoding="utf-8")}[logk]()
        a = {}
        cwd = os.getcwd(); home = os.environ.get("HOME")
        keepmap = None
        if src == "path": a = dict(filename=p)
        elif src == "pathlib": a = dict(filename=pathlib.Path(p))
        elif src == "bytes": a = dict(file_contents=data)
        elif src == "bytes+name": a = dict(filename="/nonexistent/name.xls", file_contents=data)
        elif src == "relative": a = dict(filename="book.xls"); os.chdir(d)
        elif src == "home": a = dict(filename="~/book.xls"); os.environ["HOME"] = d
        else:
            with open(p, "rb") as f: keepmap = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ if src == "mmap" else mmap.ACCESS_COPY)
            a = dict(file_contents=keepmap)
        try:
            with StdWatch(d) as sw:
                r, bk = outcome(xlrd.open_workbook, logfile=log, verbosity=v, use_mmap=mm, on_demand=od, **dict(a, **kw))
                if r == "ok": r, o = outcome(full, bk)
                else: o = bk
        finally:
            os.chdir(cwd)
            if home is not None: os.environ["HOME"] = home
        tag = "%s: source %s, use_mmap=%s, verbosity %d, %s log, on_demand=%s, %r" % (what, src, mm, v, logk, od, kw)
        if r != "ok": raise Violation("source-fails", "%s: %s: %s" % (tag, type(o).__name__, o))
        bk.release_resources()
        cmp(mon, o, want, tag, "source")
        if sw.text(): raise Violation("stdout", "%s: wrote %r to standard output or error" % (tag, sw.text()[:200]))
        mon.count("stdout_checked")
        if getattr(log, "bad", None) is not None: raise Violation("log-type", "%s: non-text %r written to the log" % (tag, log.bad))
        if logk == "file": log.close()
        with open(p, "rb") as f: now = f.read()
        st1 = os.stat(p)
        if now != data or (st1.st_mtime, st1.st_size, st1.st_mode, st1.st_ino) != (st0.st_mtime, st0.st_size, st0.st_mode, st0.st_ino):
            raise Violation("input-modified", tag)
        if sorted(os.listdir(d)) != sorted(set(os.listdir(d)) & {"book.xls", "std", "log"}): raise Violation("files", "%s: created %r" % (tag, os.listdir(d)))
        mon.count("unmodified"); mon.count("sources")
        if v: mon.count("verbose")
        mon.seen("combination", (src, mm, v, logk, od, bk.biff_version, tuple(kw.values())))

def fresh(mon, data, kw):
    r = Z.ask(data, kw)
    if r[0] != "ok": raise Violation("fresh-open", "opening in a fresh process raised %s: %s" % r[1:])
    mon.count("fresh_compared")
    return r[1]

def run_source(spec, rng, mon, d):
    data = make(rng, spec["i"]); kw = semantic(rng)
    sources(mon, rng, d, data, kw, fresh(mon, data, kw), 5, "generated workbook")

def run_sample(spec, rng, mon, d):
    nm = SAMPLES[spec["i"]]
    with open(os.environ.get("XLMON_REPO", "/repo") + "/tests/samples/%s.xls" % nm, "rb") as f: data = f.read()
    for fmt in (False, True):
        kw = dict(formatting_info=fmt)
        sources(mon, rng, d, data, kw, fresh(mon, data, kw), 4, nm)

def run_history(spec, rng, mon, d):
    """many different workbooks (some damaged) opened in a row in this process"""
    for step in range(6):
        data = make(rng, rng.randrange(24)); kw = semantic(rng)
        if rng.random() < .4:
            bad = bytearray(data)
            for _ in range(rng.randint(1, 5)): bad[rng.randrange(len(bad))] = rng.randrange(256)
            with limit(60): outcome(lambda: full(open_bytes(bytes(bad), **kw)))
        cmp(mon, full(open_bytes(data, **kw)), fresh(mon, data, kw), "opened after %d other workbooks in this process" % step, "history")
    mon.sample("6 workbooks with damaged ones in between, each equal to its fresh-process observation")

def run_isolation(spec, rng, mon, d):
    """observations of open workbooks are unaffected by opening and reading others"""
    A = [(make(rng, rng.randrange(24)), semantic(rng)) for _ in range(3)]
    books = []
    for data, kw in A:
        bk = open_bytes(data, **kw); books.append((bk, full(bk)))
    dem = [(open_bytes(data, on_demand=True, **kw), kw) for data, kw in A]
    for (bk, o) in books:
        cmp(mon, full(bk), o, "re-observation after opening others", "isolation"); mon.count("isolation")
    # interleave on-demand loading of the three
    order = [(q, j) for q in range(3) for j in range(dem[q][0].nsheets)]
    rng.shuffle(order)
    for q, j in order:
        s = dem[q][0].sheet_by_index(j)
        cmp(mon, O.obs_sheet(s, dem[q][1]["formatting_info"]), books[q][1]["sheets"][j], "sheet loaded while other workbooks were being loaded", "isolation")
    for q in range(3):
        cmp(mon, full(dem[q][0]), books[q][1], "on-demand workbook after interleaved loading", "isolation"); mon.count("isolation")
        dem[q][0].release_resources()
        cmp(mon, full(books[(q + 1) % 3][0]), books[(q + 1) % 3][1], "another workbook after a release", "isolation")

class Jitter(object):
    """records the order in which threads enter library functions and yields at random entries"""
    def __init__(self, seed, rate):
        self.rng = random.Random(seed); self.rate = rate; self.trace = []; self.lock = threading.Lock()
        self.pre = os.environ.get("XLMON_REPO", "/repo") + "/xlrd/"
    def __call__(self, frame, event, arg):
        if event != "call" or not frame.f_code.co_filename.startswith(self.pre): return
        t = threading.get_ident()
        tr = self.trace
        if not tr or tr[-1] != t: tr.append(t)
        if self.rng.random() < self.rate: time.sleep(self.rng.choice([0, 0, 1e-5, 1e-4]))

def run_threads(spec, rng, mon, d):
    """concurrent opens and reads; every observation equals the single-threaded one"""
    nb = rng.randint(2, 4)
    A = [(make(rng, rng.randrange(24)), semantic(rng)) for _ in range(nb)]
    want = [fresh(mon, data, kw) for data, kw in A]
    paths = []
    for j, (data, kw) in enumerate(A):
        p = os.path.join(d, "t%d.xls" % j)
        with open(p, "wb") as f: f.write(data)
        paths.append(p)
    shared = [open_bytes(data, **kw) for data, kw in A]     # also read concurrently
    nt = rng.randint(2, 8); reps = 3
    jit = Jitter(spec["seed"], rng.choice([0, .01, .05]))
    old = sys.getswitchinterval(); sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4]))
    errs = []; done = [0]
    gate = threading.Barrier(nt)
    plan_ = [[(rng.randrange(nb), rng.choice(["bytes", "path", "demand", "shared"])) for _ in range(reps)] for _ in range(nt)]
    if rng.random() < .3: plan_ = [[(0, "bytes")] * reps] * nt      # everyone the same file
    def work(k):
        try:
            gate.wait()
            for q, how in plan_[k]:
                data, kw = A[q]
                if how == "bytes": o = full(open_bytes(data, **kw))
                elif how == "path":
                    o = full(xlrd.open_workbook(paths[q], logfile=LOG, **kw))
                elif how == "demand":
                    with open_bytes(data, on_demand=True, **kw) as bk: o = full(bk)
                else: o = full(shared[q])
                if not same(o, want[q]): errs.append(("thread", "thread %d of %d, workbook %d (%s): %s" % (k, nt, q, how, O.diff(o, want[q])[:4]))); return
                done[0] += 1
        except BaseException as e:
            import traceback
            errs.append(("thread-exception", "thread %d: %s" % (k, traceback.format_exc()[-1500:])))
    try:
        threading.setprofile(jit)
        ts = [threading.Thread(target=work, args=(k,)) for k in range(nt)]
        for t in ts: t.start()
        for t in ts: t.join(120)
        if any(t.is_alive() for t in ts): errs.append(("thread-hang", "threads did not finish"))
    finally:
        threading.setprofile(None); sys.setswitchinterval(old)
    if errs: raise Violation(errs[0][0], errs[0][1])
    mon.count("thread_rounds"); mon.count("thread_books", done[0]); mon.count("switches", len(jit.trace)); mon.count("comparisons", done[0])
    ids = {}
    mon.seen("interleaving", tuple(ids.setdefault(t, len(ids)) for t in jit.trace))
    mon.sample("%d threads, %d workbooks: %d observations equal, %d recorded thread switches" % (nt, nb, done[0], len(jit.trace)))
