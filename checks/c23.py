"""C23 - opening an untrusted workbook has no side effects."""
import atexit, builtins, re, decimal, encodings, gc, hashlib, io, json, locale, logging, resource, shutil, signal, socket, subprocess, sys, sysconfig, threading, time, warnings
from xlmon.randbook import *
from xlmon import hostile as H
from xlmon.runner import Violation, same, short, REPO
import xlrd

ID = "C23"; LEVEL = "exploration"
RULE = "distinct = distinct (class of workbook, source, options) combinations opened and read under the audit monitor, and process-state items compared"
ASSUMPTIONS = ["the interpreter loading its own codecs (modules of the encodings package) on first use is not an effect of the workbook",
               "CPython's audit events cover every file, process and network operation Python code can start; a sample of the runs is watched at system-call level as well, where strace may run"]
REQUIRED = {"watched": 9000, "openings_seen": 3500, "maps_seen": 1000, "opened": 4000, "refused": 1500, "links": 3000, "links_opened": 2000, "externals": 500, "payload_names": 1100, "state_items": 300000, "directory_snapshots": 9000, "from_bytes": 1500}
CASE_TIMEOUT = 120

STD = tuple(sorted(set(os.path.realpath(p) + os.sep for p in (sysconfig.get_paths()["stdlib"], sysconfig.get_paths()["platstdlib"]))))
ENC = os.path.realpath(os.path.dirname(encodings.__file__))

ARMED = False
EVENTS = []
def hook(name, args):
    if ARMED and len(EVENTS) < 500:
        try: EVENTS.append((name, tuple(a if isinstance(a, (str, bytes, int, type(None))) else getattr(a, "co_filename", None) or repr(a)[:100] for a in args)))
        except Exception as e: EVENTS.append((name, (repr(e),)))

def spy(name, f):
    def g(*a, **kw):
        if ARMED and a and isinstance(a[0], (str, bytes, os.PathLike)): EVENTS.append((name, (os.fsdecode(a[0]),)))
        return f(*a, **kw)
    return g

OUT = None
def worker_init():
    global OUT
    # codecs load lazily: have them all before watching
    for n in sorted(os.listdir(ENC)):
        if n.endswith(".py"):
            try: "".encode(n[:-3])
            except Exception: pass
    # standard output and error of this process go to a file that must stay empty
    # looking at a path raises no audit event: these calls are watched by wrapping them
    for n in ("stat", "lstat", "access", "readlink", "statvfs", "getxattr"):
        setattr(os, n, spy("os." + n, getattr(os, n)))
    OUT = os.memfd_create("xlmon-out")
    sys.stdout.flush(); sys.stderr.flush()
    os.dup2(OUT, 1); os.dup2(OUT, 2)
    sys.addaudithook(hook)

def plan(tier, seed):
    return specs_for(tier, seed, links=(1500, 60000), payload=(1300, 50000), hostile=(3500, 160000), plain=(2500, 90000), bombs=(200, 4000), api=(500, 12000), trace=(4, 60))

SIGNALS = [signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGPIPE, signal.SIGUSR1, signal.SIGCHLD, signal.SIGSEGV, signal.SIGFPE]
def state():
    """what the process looks like from outside the library"""
    s = {"environment": dict(os.environ), "cwd": os.getcwd(), "locale": locale.setlocale(locale.LC_ALL), "tz": time.tzname, "path": list(sys.path), "hooks": [repr(x) for x in sys.meta_path + sys.path_hooks],
         "recursion": sys.getrecursionlimit(), "gc": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), gc.get_freeze_count()), "signals": [repr(signal.getsignal(x)) for x in SIGNALS], "warnings": list(map(repr, warnings.filters)),
         "showwarning": repr(warnings.showwarning), "random": hashlib.md5(repr(random.getstate()).encode()).hexdigest(), "decimal": repr(decimal.getcontext()), "threads": sorted(t.name for t in threading.enumerate()),
         "std": [id(x) for x in (sys.stdout, sys.stderr, sys.stdin)], "excepthooks": [repr(x) for x in (sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook)], "trace": (repr(sys.gettrace()), repr(sys.getprofile())),
         "socket": socket.getdefaulttimeout(), "builtins": sorted((k, id(v)) for k, v in vars(builtins).items() if k != "_"), "switch": sys.getswitchinterval(), "nice": os.getpriority(os.PRIO_PROCESS, 0),
         "limits": [resource.getrlimit(x) for x in (resource.RLIMIT_AS, resource.RLIMIT_NOFILE, resource.RLIMIT_CORE, resource.RLIMIT_STACK)], "logging": (logging.getLogger().level, len(logging.getLogger().handlers), logging.root.manager.disable),
         "atexit": atexit._ncallbacks(), "intmax": sys.get_int_max_str_digits(), "alarm": signal.getitimer(signal.ITIMER_REAL)[0] > 0, "modules": set(sys.modules)}
    u = os.umask(0); os.umask(u); s["umask"] = u
    try: s["children"] = open("/proc/self/task/%d/children" % os.getpid()).read()
    except OSError: pass
    s["fds"] = sorted(x for x in os.listdir("/proc/self/fd"))[:200]
    s["affinity"] = sorted(os.sched_getaffinity(0))
    # the library's own public tables
    for m, mod in list(sys.modules.items()):
        if m == "xlrd" or m.startswith("xlrd."):
            for k, v in vars(mod).items():
                if k.startswith("_") or k == "DEBUG": continue
                if isinstance(v, dict): s[m, k] = dict((a, repr(b)[:200]) for a, b in v.items())
                elif isinstance(v, (int, float, str, bytes, tuple, list, set, frozenset)): s[m, k] = repr(v)[:5000]
    return s

def compare_state(mon, a, b, what):
    for k, v in a.items():
        w = b.get(k)
        if k == "modules":
            new = [m for m in w - v if not m.startswith(("encodings.", "_codecs", "_multibytecodec"))]
            if new or v - w: raise Violation("state", "%s: modules loaded %s, removed %s" % (what, new, sorted(v - w)))
        elif isinstance(k, tuple) and isinstance(v, dict):
            d = [x for x in v if w.get(x) != v[x]]
            if d: raise Violation("state-tables", "%s: %s.%s: entry %r changed from %r to %r" % (what, k[0], k[1], d[0], v[d[0]], w.get(d[0])))
        elif k == "fds":
            if set(w) - set(v):
                gc.collect()                 # what only garbage holds is C09's matter
                w = sorted(os.listdir("/proc/self/fd"))
                if set(w) - set(v): raise Violation("state", "%s: file descriptors left open: %s" % (what, sorted(set(w) - set(v))))
        elif v != w: raise Violation("state", "%s: %s changed from %s to %s" % (what, k, short(v), short(w)))
        mon.count("state_items")

def tree(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for n in dirs + files:
            p = os.path.join(base, n); st = os.lstat(p)
            out[os.path.relpath(p, d)] = (st.st_mode, st.st_size, st.st_mtime_ns, st.st_ino, st.st_uid, hashlib.md5(open(p, "rb").read()).hexdigest() if n in files else None)
    return out

def judge_events(mon, path, what):
    """only the input may be opened, for reading"""
    loading = False
    for name, args in EVENTS:
        mon.seen("event", name)
        if name == "open":
            p, mode, flags = (args + (None, None, 0))[:3]
            p = os.fsdecode(p) if isinstance(p, (str, bytes)) else p
            rd = not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND) and (mode is None or not set(mode) & set("wax+"))
            if path is not None and isinstance(p, str) and os.path.realpath(p) == os.path.realpath(path) and rd: mon.count("openings_seen"); continue
            if loading and rd and isinstance(p, str) and os.path.realpath(p).startswith(STD): continue
            raise Violation("opens", "%s: opened %r (mode %r, flags %o)" % (what, p, mode, flags or 0))
        if name in ("os.stat", "os.lstat", "os.access", "os.readlink"):
            p = os.path.realpath(args[0])
            if path is not None and (p == os.path.realpath(path) or os.path.realpath(path).startswith(p + os.sep)) or (p + os.sep).startswith(STD): continue
            raise Violation("looks-at", "%s: %s(%r)" % (what, name, args[0]))
        if name == "mmap.__new__": mon.count("maps_seen"); continue
        if name == "import" and isinstance(args[0], str) and args[0].startswith(("encodings", "_codecs", "_multibytecodec")): loading = True; continue
        if loading and name in ("marshal.loads", "marshal.load", "compile"): continue
        if loading and name == "exec" and args and isinstance(args[0], str) and (args[0].startswith(STD) or args[0].startswith("<frozen")): continue
        if loading and name in ("os.listdir", "os.scandir") and isinstance(args[0], str) and (os.path.realpath(args[0]) + os.sep).startswith(STD): continue
        if name in ("object.__getattr__", "sys._getframe", "sys._current_frames", "array.__new__", "id", "builtins.id", "cpython.run_command"): continue
        if name.startswith("gc."): continue
        raise Violation("effect:" + name, "%s: audit event %s%s" % (what, name, short(args, 300)))

class Log(object):
    def __init__(self): self.n = 0
    def write(self, s): self.n += 1; return len(s)
    def flush(self): pass

def watch(mon, rng, data, d, what, src=None, kw=None, action=None):
    """open (and fully read) under all the monitors"""
    global ARMED
    src = src or rng.choice(["path", "path", "bytes", "bytes and a file name"])
    if kw is None:
        kw = {"formatting_info": rng.random() < .5, "on_demand": rng.random() < .3, "ragged_rows": rng.random() < .2, "use_mmap": rng.random() < .6, "ignore_workbook_corruption": rng.random() < .15}
        if rng.random() < .25: kw["verbosity"] = rng.randint(1, 5)
        if rng.random() < .1: kw["encoding_override"] = rng.choice(["cp1252", "utf-8", "cp932", "latin-1", "no_such_codec", "utf_16_le"])
    path = None; args = ()
    if src == "path":
        path = os.path.join(d, "input", "w.xls")
        with open(path, "wb") as f: f.write(data)
        args = (path,)
    elif src == "bytes": kw = dict(kw, file_contents=data)
    else:
        args = (os.path.join(d, rng.choice(["linked.xls", "no such.xls", "out.txt"])),); kw = dict(kw, file_contents=data)
    tr = tree(d); log = Log()
    copy = bytes(bytearray(data))
    st = state()
    del EVENTS[:]
    so, se = sys.stdout, sys.stderr
    size = os.fstat(OUT).st_size
    def go():
        global ARMED
        bk = None
        ARMED = True
        try:
            bk = xlrd.open_workbook(*args, logfile=log, **kw)
            if action is not None: action(bk)
            try: O.observe(bk, bool(kw.get("formatting_info")))
            finally:
                bk.release_resources()
        finally:
            ARMED = False
        return True
    try:
        k, r = guarded(mon, what, go, 40)
    except Violation:
        # an input that is refused too slowly, or takes too much, is C18's matter
        mon.count("other_property"); k, r = "exc", None
    finally:
        ARMED = False
    what = "%s from %s, %r" % (what, src, dict((a, b) for a, b in kw.items() if a != "file_contents" and b))
    r = None
    judge_events(mon, path, what)
    compare_state(mon, st, state(), what)
    sys.stdout.flush(); sys.stderr.flush()
    n = os.fstat(OUT).st_size
    if n != size: raise Violation("prints", "%s: wrote to standard output or error: %s" % (what, short(os.pread(OUT, 500, size))))
    now = tree(d)
    if now != tr:
        raise Violation("files", "%s: files changed: %s" % (what, short([(x, tr.get(x), now.get(x)) for x in sorted(set(tr) | set(now)) if tr.get(x) != now.get(x)], 600)))
    if data != copy: raise Violation("input-changed", "%s: the given bytes were changed" % what)
    mon.count("watched"); mon.count("directory_snapshots"); mon.count("opened" if k == "ok" else "refused"); mon.count("from_bytes", src != "path"); mon.count("comparisons", len(now) + 3)
    mon.count("log_writes", log.n)
    return k

def decoys(d):
    """things a workbook might reach for"""
    os.mkdir(os.path.join(d, "input"))
    b = BookB(80); b.add_xf(0); sh = b.sheet("S"); sh.dims = (1, 1); sh.number(0, 0, 42.0, 0)
    with open(os.path.join(d, "linked.xls"), "wb") as f: f.write(wrap(b.stream(random.Random(1)), 80))
    with open(os.path.join(d, "input", "linked.xls"), "wb") as f: f.write(wrap(b.stream(random.Random(1)), 80))
    with open(os.path.join(d, "out.txt"), "w") as f: f.write("kept")
    with open(os.path.join(d, "prog.sh"), "w") as f: f.write("#!/bin/sh\necho ran > %s/canary\n" % d)
    os.chmod(os.path.join(d, "prog.sh"), 0o755)

BOMBS = {}
def payloads(d):
    return ["__import__('os').system('echo x > %s/canary')" % d, "%s/canary" % d, "%s/linked.xls" % d, "../linked.xls", "..\\linked.xls", "linked.xls", "file://%s/linked.xls" % d, "http://127.0.0.1:9/x", "\\\\127.0.0.1\\share\\x.xls",
            "=cmd|' /C %s/prog.sh'!A0" % d, "%s/prog.sh" % d, "${HOME}", "%(asctime)s", "{0.__class__}", "%s%s%n", "$(touch %s/canary)" % d, "`touch %s/canary`" % d, "; rm -rf %s/x" % d, "<!ENTITY x SYSTEM 'file://%s/out.txt'>" % d,
            "~/linked.xls", "os.environ['X']='1'", "cos\nsystem\n(S'true'\ntR.", "\x80\x04\x95", "exec", "eval", "canary", "/etc/hostname", "|touch canary", "con", "/dev/null"]

def external(rng, d):
    """references to other documents, and programs"""
    out = []
    for t in rng.sample(payloads(d), rng.randint(1, 5)):
        if len(t) > 200: continue
        u = rng.choice(["\x01" + t, "\x01\x01C\x03" + t, "\x01\x05" + t, t, "Excel\x03" + t, "cmd\x03" + t, "\x01[" + t + "]S"])
        n = rng.randint(0, 2)
        out.append(rec(0x1AE, pack("<H", n) + ustr(u, 2) + b"".join(ustr(t[:20], 2) for _ in range(n))))
        out.append(rec(0x23, pack("<HI", rng.choice([0, 0x10, 2, 0x7FE2, 0x16]), 0) + ustr(t[:40], 1)))
        if rng.random() < .4: out.append(rec(0x59, pack("<hH", 1, 0)) + rec(0x5A, pack("<BBH", 0, 0, 0) + b"\2" + ustr(t[:60], 2)))
    return out

def link_book(rng, d, mon):
    b = random_book(rng, 80, density=.1, small=True, names=rng.random() < .7, kinds=rng.random() < .3)
    P = payloads(d)
    for sh in b.worksheets():
        a = getattr(sh, "annot", None) or Annot_(sh)
        for _ in range(rng.randint(1, 5)):
            t = rng.choice(P); kind = rng.choice(["url", "url", "local file", "unc", "workbook"])
            r, c = rng.randint(0, 30), rng.randint(0, 30)
            a.hlink((r, r, c, c), kind, t if kind != "workbook" else None, desc=rng.choice([None, t]), target=rng.choice([None, "_blank"]), textmark=rng.choice([None, t]) if kind != "workbook" else t, quicktip=rng.choice([None, t[:250]]),
                    shortpath=t.encode("latin-1", "replace").replace(b"\0", b"") if kind == "local file" else b"", uplevels=rng.choice([0, 0, 2]) if kind == "local file" else 0)
            mon.count("links")
    if rng.random() < .6:
        x = external(rng, d); b.post += x; mon.count("externals", len(x))
    # macro formulas: EXEC, CALL, REGISTER, SEND.KEYS, FOPEN, RUN, ... in a name
    for fid in rng.sample([110, 150, 149, 133, 137, 132, 17, 255, 267, 91, 140, 142, 109, 122], 3):
        t = rng.choice(P)[:200]
        toks = b"\x17" + ustr(t, 1) + b"\x42" + bytes([1]) + pack("<H", fid)
        b.post.append(rec(0x18, pack("<HBBHHHBBBB", rng.choice([0, 2, 6, 8, 0xE, 1]), 0, 7, len(toks), 0, 0, 0, 0, 0, 0) + b"\0" + (b"Auto_Op" if rng.random() < .5 else b"exec_me") + toks))
    return b

def Annot_(sh):
    from xlmon.annot import Annot
    return Annot(sh)

def run(spec, mon):
    rng = rng_for(spec); k = spec["kind"]; i = spec["i"]
    if k == "trace": return trace(rng, mon, i)
    with Scratch() as d:
        d = os.path.realpath(d)
        decoys(d)
        if k == "links":
            b = link_book(rng, d, mon); b.user = rng.choice(payloads(d))[:50]
            data = wrap(b.stream(rng), 80)
            for src in rng.sample(["path", "bytes", "bytes and a file name"], 2):
                kk = watch(mon, rng, data, d, "a workbook with links", src)
                mon.count("links_opened", kk == "ok")
            mon.seen("links", (kk, len(data) // 512))
        elif k == "payload":
            bv = (20, 21, 30, 40, 45, 50, 70, 80, 80, 80)[i % 10]
            P = payloads(d)
            enc = None if bv >= 80 else "latin-1"
            b = random_book(rng, bv, density=.2, small=True, names=True, kinds=rng.random() < .2, text=lambda n=40: "".join(c for c in rng.choice(P)[:n * 4] if bv >= 80 or ord(c) < 128) or "x")
            data = b.stream(rng)
            if rng.random() < .7: data = wrap(data, bv)
            kk = watch(mon, rng, data, d, "BIFF%d with payload text" % bv)
            mon.count("payload_names"); mon.seen("payload", (bv, kk))
            if rng.random() < .3:
                w, x = H.bytes_mutant(rng, data)
                watch(mon, rng, x, d, "BIFF%d with payload text, damaged (%s)" % (bv, w))
        elif k == "hostile":
            w, data = H.hostile(rng)
            kk = watch(mon, rng, data, d, "hostile input (%s)" % w)
            mon.seen("hostile", (w, kk))
        elif k == "bombs":
            if rng.random() < .6:
                if "b" not in BOMBS: BOMBS["b"] = H.bombs(random.Random(spec["seed"].split(".")[0]))
                w, bv, st, _ = rng.choice(BOMBS["b"]); data = wrap(st, bv)
            else: w, data = rng.choice(H.ole_bombs(rng))
            kk = watch(mon, rng, data, d, "hostile input (%s)" % (w,), kw={"verbosity": 0, "formatting_info": rng.random() < .5})
            mon.seen("bombs", (w, kk))
        elif k == "plain":
            bv = (20, 21, 30, 40, 45, 50, 70, 80, 80, 80)[i % 10]
            if i % 20 == 7: nm, data = rng.choice(H.samples())
            else:
                b = random_book(rng, bv, density=.3, small=True, names=True, kinds=rng.random() < .3)
                if rng.random() < .4: b.noise = lambda r: rec(r.choice(H.codes()), r.randbytes(r.choice([0, 4, 20]))) if r.random() < .05 else b""
                data = b.stream(rng)
                if bv >= 50 and rng.random() < .8: data = wrap(data, bv, layout=ole.random_layout(rng) if rng.random() < .4 else None)
            watch(mon, rng, data, d, "BIFF%d workbook" % bv)
        else:
            # every query a user may make, also after release, and the other entry points
            bv = (50, 70, 80, 80)[i % 4]
            b = random_book(rng, bv, density=.2, small=True, names=True)
            data = wrap(b.stream(rng), bv)
            def action(bk):
                for n in bk.name_obj_list:
                    for f in (lambda: n.cell(), lambda: n.area2d()):
                        try: f()
                        except xlrd.XLRDError: pass
                for s in bk.sheets():
                    s.cell_note_map; s.hyperlink_list
                    for r in range(min(3, s.nrows)): s.row(r); s.row_slice(r, 0, 2)
                    s.computed_column_width(0) if bk.formatting_info else None
                for n in bk.sheet_names(): bk.sheet_by_name(n)
                if bk.on_demand: bk.unload_sheet(0); bk.sheet_by_index(0)
            watch(mon, rng, data, d, "every query on BIFF%d" % bv, kw={"formatting_info": rng.random() < .5, "on_demand": rng.random() < .4, "use_mmap": rng.random() < .5}, action=action)
            mon.count("api")

# -------------------------------------------------------- system-call level
CHILD = r'''
import os, sys, json, encodings
sys.path.insert(0, sys.argv[2])
for n in sorted(os.listdir(os.path.dirname(encodings.__file__))):
    if n.endswith(".py"):
        try: "".encode(n[:-3])
        except Exception: pass
import xlrd
class L:
    def write(self, s): return len(s)
    def flush(self): pass
log = L()
def stat(p):
    try: os.stat(p)
    except OSError: pass
files = json.load(open(sys.argv[1]))
try: xlrd.open_workbook(files[0], logfile=log)
except Exception: pass
for j, f in enumerate(files):
    stat("/xlmon-begin-%d" % j)
    try:
        bk = xlrd.open_workbook(f, logfile=log, formatting_info=j % 2, on_demand=j % 3 == 0, use_mmap=j % 5 != 0, verbosity=j % 4)
        for s in bk.sheets():
            for r in range(s.nrows): s.row(r)
            s.hyperlink_list, s.cell_note_map
        bk.release_resources()
    except Exception: pass
    stat("/xlmon-end-%d" % j)
'''
def trace(rng, mon, i):
    """the same question put to the kernel: what did the process ask for while reading these files?"""
    strace = shutil.which("strace")
    if not strace: mon.count("trace_unavailable"); return
    with Scratch() as d:
        d = os.path.realpath(d); decoys(d); files = []
        for j in range(40):
            p = os.path.join(d, "input", "w%d.xls" % j)
            if j % 3 == 0: data = wrap(link_book(rng, d, Mon_()).stream(rng), 80)
            elif j % 3 == 1: data = H.hostile(rng)[1]
            else: bv, st = H.base(rng); data = wrap(st, bv)
            with open(p, "wb") as f: f.write(data)
            files.append(p)
        with open(os.path.join(d, "list"), "w") as f: json.dump(files, f)
        with open(os.path.join(d, "child.py"), "w") as f: f.write(CHILD)
        out = os.path.join(d, "trace.out")
        pr = subprocess.run([strace, "-f", "-qq", "-e", "trace=%file,%network,%process,%desc", "-o", out, sys.executable, "-B", os.path.join(d, "child.py"), os.path.join(d, "list"), REPO], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=110,
                            env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        try: lines = open(out, errors="replace").read().splitlines()
        except OSError: lines = []
        cur = None; n = 0
        for l in lines:
            m = re.search(r'"/xlmon-(begin|end)-(\d+)"', l)
            if m: cur = files[int(m.group(2))] if m.group(1) == "begin" else None; mon.count("traced_books", m.group(1) == "end"); continue
            if cur is None: continue
            m = re.match(r"(?:\d+ +)?(\w+)\((.*)", l)
            if not m: continue
            call, args = m.groups(); n += 1
            mon.seen("syscall", call)
            if call in ("openat", "open", "creat"):
                q = re.search(r'"([^"]*)"', args); p = q.group(1) if q else ""
                if "O_RDONLY" in args and "O_CREAT" not in args and (os.path.realpath(p) == cur or os.path.realpath(p).startswith(STD)): continue
                raise Violation("syscall-open", "reading %s: %s" % (os.path.basename(cur), short(l)))
            if call in ("newfstatat", "stat", "lstat", "statx", "access", "faccessat", "faccessat2", "readlink"):
                q = re.search(r'"([^"]+)"', args)
                p = os.path.realpath(q.group(1)) if q else cur
                if p == cur or cur.startswith(p + os.sep) or (p + os.sep).startswith(STD): continue
                raise Violation("syscall-looks-at", "reading %s: %s" % (os.path.basename(cur), short(l)))
            if call in ("close", "read", "pread64", "lseek", "fstat", "newfstatat", "stat", "lstat", "statx", "mmap", "munmap", "mremap", "access", "faccessat", "readlink", "ioctl", "fcntl", "dup", "getcwd", "getdents64", "readlink", "brk", "mprotect", "madvise", "_llseek", "fadvise64"): continue
            raise Violation("syscall", "reading %s: %s" % (os.path.basename(cur), short(l)))
        mon.count("syscalls", n)
        mon.check(not os.path.exists(os.path.join(d, "canary")), "canary", "a program taken from a workbook ran")
        if not lines: mon.count("trace_unavailable")

class Mon_(object):
    def count(self, *a): pass
