"""Check runner: deterministic case fan-out over worker processes, per-case
watchdogs, monitors' counters, evidence and verdicts.

A check module (checks/cNN.py) provides

    ID, LEVEL, RULE, ASSUMPTIONS
    def plan(tier, seed): -> list of JSON-able case specs (deterministic)
    def run(spec, mon):   run one case; raise Violation (or call mon.violate)
    REQUIRED = {counter: minimum}     # reach; missing => inconclusive (exit 3)
    CASE_TIMEOUT (s), CASE_RSS (MB)

The parent never imports xlrd.  Each case runs in a worker process that the
parent kills when it exceeds its time budget; a killed or crashed worker is a
violation (the property that the library neither hangs nor crashes is implied
by every property).
"""
import hashlib, importlib, json, os, pickle, select, signal, struct, sys, time, traceback, resource

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("XLMON_REPO", "/repo")
EVID = os.path.join(VERIF, "evidence")

class Violation(Exception):
    def __init__(self, key, msg, data=None):
        Exception.__init__(self, "%s: %s" % (key, msg))
        self.key, self.msg, self.data = key, msg, data or {}

class Mon(object):
    """Per-case monitor state; merged by the parent."""
    def __init__(self):
        self.counts = {}
        self.distinct = {}
        self.samples = []
        self.violations = []
    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n
    def seen(self, cat, key):
        s = self.distinct.setdefault(cat, set())
        if len(s) < 20000:
            s.add(hash_key(key))
    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(str(text)[:400])
    def violate(self, key, msg, data=None):
        self.violations.append((key, str(msg)[:4000], data or {}))
    def check(self, cond, key, msg, data=None):
        self.count("assertions")
        if not cond:
            raise Violation(key, msg() if callable(msg) else msg, data)
    def equal(self, got, want, key, ctx=""):
        self.count("assertions")
        if not same(got, want):
            raise Violation(key, "%s: got %s, expected %s" % (ctx, short(got), short(want)))

def short(x, n=300):
    r = repr(x)
    return r if len(r) <= n else r[:n] + "...(%d chars)" % len(r)

def same(a, b):
    """Equality that also distinguishes 1 / 1.0 / True and 0.0 / -0.0 and accepts NaN==NaN."""
    if isinstance(a, float) and isinstance(b, float):
        return struct.pack("<d", a) == struct.pack("<d", b) or (a != a and b != b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return type(a) == type(b) and a == b

def hash_key(key):
    return hashlib.md5(repr(key).encode("utf-8", "surrogatepass")).hexdigest()[:16]

# ---------------------------------------------------------------- workers

class Reach(object):
    """Which lines of the library did the workload execute (evidence only)."""
    def __init__(self):
        self.lines = set()
        self.on = False
    def start(self):
        mon = getattr(sys, "monitoring", None)
        if mon is None: return
        try:
            mon.use_tool_id(3, "xlmon")
        except ValueError:
            return
        pre = os.path.join(REPO, "xlrd") + os.sep
        pre2 = os.path.join(REPO, "scripts") + os.sep
        lines = self.lines
        def on_line(code, line):
            fn = code.co_filename
            if fn.startswith(pre) or fn.startswith(pre2):
                lines.add((os.path.basename(fn), line))
            return mon.DISABLE
        mon.register_callback(3, mon.events.LINE, on_line)
        mon.set_events(3, mon.events.LINE)
        self.on = True

def _worker(modname, rfd, wfd, rss_mb):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    if rss_mb:
        try:
            resource.setrlimit(resource.RLIMIT_AS, (rss_mb << 20, rss_mb << 20))
        except (ValueError, OSError):
            pass
    devnull = os.open(os.devnull, os.O_WRONLY)
    reach = Reach()
    mod = importlib.import_module(modname)
    if getattr(mod, "REACH", True):
        reach.start()
    if hasattr(mod, "worker_init"):
        mod.worker_init()
    inp = os.fdopen(rfd, "rb"); out = os.fdopen(wfd, "wb")
    while 1:
        hdr = inp.read(4)
        if len(hdr) < 4: break
        spec = pickle.loads(inp.read(struct.unpack("<I", hdr)[0]))
        mon = Mon()
        before = len(reach.lines)
        try:
            mod.run(spec, mon)
        except Violation as v:
            mon.violations.append((v.key, v.msg[:4000], v.data))
        except MemoryError:
            mon.violations.append(("memory", "MemoryError under the %s MB cap" % rss_mb, {}))
        except Exception as e:
            tb = traceback.format_exc()
            mon.violations.append(("unexpected-exception:" + type(e).__name__, tb[-3000:], {}))
        new = None
        if len(reach.lines) != before:
            new = set(reach.lines)
        blob = pickle.dumps((mon.counts, mon.distinct, mon.samples, mon.violations, new))
        out.write(struct.pack("<I", len(blob))); out.write(blob); out.flush()

class _Proc(object):
    def __init__(self, modname, rss):
        r1, w1 = os.pipe(); r2, w2 = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 70
            try:
                os.close(w1); os.close(r2)
                for p in _Proc.live:
                    for fd in (p.w, p.r):
                        try: os.close(fd)
                        except OSError: pass
                _worker(modname, r1, w2, rss)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(code)
        os.close(r1); os.close(w2)
        self.pid, self.w, self.r = pid, w1, r2
        self.spec = None; self.t0 = 0; self.buf = b""
        _Proc.live.append(self)
    live = []
    def send(self, spec):
        blob = pickle.dumps(spec)
        self.spec, self.t0, self.buf = spec, time.time(), b""
        os.write(self.w, struct.pack("<I", len(blob)))
        mv = memoryview(blob)
        while len(mv):
            n = os.write(self.w, mv); mv = mv[n:]
    def close(self, kill=False):
        if kill:
            try: os.kill(self.pid, signal.SIGKILL)
            except OSError: pass
        for fd in (self.w, self.r):
            try: os.close(fd)
            except OSError: pass
        _Proc.live.remove(self)
        _, st = os.waitpid(self.pid, 0)
        return st

class Result(object):
    def __init__(self):
        self.counts, self.distinct, self.samples = {}, {}, []
        self.violations = []   # (key, msg, data, spec)
        self.lines = set()
        self.cases = 0
        self.truncated = False

def run_cases(mod, modname, specs, nproc, deadline, stop_after=8, known_keys=()):
    res = Result()
    rss = getattr(mod, "CASE_RSS", 3000)
    tmo = getattr(mod, "CASE_TIMEOUT", 60)
    todo = list(enumerate(specs)); todo.reverse()
    procs = []
    def spawn():
        p = _Proc(modname, rss); procs.append(p); return p
    def give(p):
        if todo and sum(1 for v in res.violations if v[0] not in known_keys) < stop_after:
            if time.time() > deadline:
                res.truncated = True
                todo.clear()
                p.spec = None
                return
            i, s = todo.pop()
            p.send(s)
        else:
            p.spec = None
    for _ in range(min(nproc, max(1, len(specs)))):
        give(spawn())
    while any(p.spec is not None for p in procs):
        fds = {p.r: p for p in procs if p.spec is not None}
        rl, _, _ = select.select(list(fds), [], [], 0.5)
        for fd in rl:
            p = fds[fd]
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                spec = p.spec
                procs.remove(p)
                st = p.close()
                what = ("killed by signal %d" % os.WTERMSIG(st)) if os.WIFSIGNALED(st) else "exited with status %d" % os.WEXITSTATUS(st)
                res.violations.append(("worker-died", "the process running this case " + what, {}, spec))
                res.cases += 1
                give(spawn())
                continue
            p.buf += chunk
            if len(p.buf) >= 4:
                n = struct.unpack("<I", p.buf[:4])[0]
                if len(p.buf) >= 4 + n:
                    counts, distinct, samples, viols, lines = pickle.loads(p.buf[4:4 + n])
                    res.cases += 1
                    for k, v in counts.items(): res.counts[k] = res.counts.get(k, 0) + v
                    for k, v in distinct.items():
                        d = res.distinct.setdefault(k, set())
                        if len(d) < 1500000: d.update(v)
                    if len(res.samples) < 12:
                        res.samples.extend(samples[:1])
                    if lines: res.lines |= lines
                    for key, msg, data in viols:
                        res.violations.append((key, msg, data, p.spec))
                    give(p)
        now = time.time()
        for p in list(procs):
            if p.spec is not None and now - p.t0 > tmo:
                spec = p.spec
                procs.remove(p)
                p.close(kill=True)
                res.violations.append(("hang", "case exceeded %.0f s and was killed" % tmo, {}, spec))
                res.cases += 1
                give(spawn())
    for p in list(procs):
        p.close()
    return res

# ---------------------------------------------------------------- main

def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []

def executable_lines():
    import dis
    tot = {}
    d = os.path.join(REPO, "xlrd")
    for fn in sorted(os.listdir(d)):
        if not fn.endswith(".py"): continue
        try:
            code = compile(open(os.path.join(d, fn), encoding="utf-8").read(), fn, "exec")
        except SyntaxError:
            continue
        lines = set(); stack = [code]
        while stack:
            c = stack.pop()
            lines.update(l for _, l in dis.findlinestarts(c) if l)
            stack.extend(k for k in c.co_consts if hasattr(k, "co_code"))
        tot[fn] = lines
    return tot

def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("XLMON_JOBS", "8")))
    ap.add_argument("--limit", type=int, default=0)
    ap.add_argument("--all-violations", action="store_true")
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    modname = "checks." + a.prop.lower()
    mod = importlib.import_module(modname)
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        specs = [rp["spec"]]
    else:
        specs = mod.plan(tier, a.seed)
        if a.limit: specs = specs[:a.limit]
    deadline = t0 + (getattr(mod, "QUICK_DEADLINE", 700) if tier == "quick" else getattr(mod, "THOROUGH_DEADLINE", 780))
    if hasattr(mod, "prepare"):
        mod.prepare(tier, a.seed)
    known = [k for k in load_known() if k["property"] == mod.ID and k.get("status") == "known"]
    res = run_cases(mod, modname, specs, a.jobs, deadline, 10 ** 9 if a.all_violations else 8, {k["key"] for k in known})
    lines = []
    real = []
    hit_known = {}
    for key, msg, data, spec in res.violations:
        k = next((k for k in known if k["key"] == key), None)
        if k is not None:
            hit_known.setdefault(key, (k, msg))
        else:
            real.append((key, msg, data, spec))
    rdir = os.path.join(EVID, "replay")
    seen_keys = set()
    for key, msg, data, spec in real:
        if key in seen_keys and not a.all_violations: continue
        seen_keys.add(key)
        os.makedirs(rdir, exist_ok=True)
        h = hash_key((key, json.dumps(spec, sort_keys=True, default=str)))
        path = os.path.join(rdir, "%s-%s.json" % (mod.ID, h))
        with open(path, "w") as f:
            json.dump({"property": mod.ID, "key": key, "msg": msg, "data": data, "spec": spec,
                       "tier": tier, "seed": a.seed,
                       "how": "python3 /verif/run.py %s --replay %s" % (mod.ID, path)}, f, indent=1, default=str)
        lines.append("VIOLATION property=%s replay=%s" % (mod.ID, path))
        print("  [%s] %s" % (key, msg if len(msg) < 1500 else "..." + msg[-1500:]))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (mod.ID, k["what"]))
    req = getattr(mod, "REQUIRED", {})
    missing = {k: (res.counts.get(k, 0), n) for k, n in req.items() if res.counts.get(k, 0) < n}
    tot = executable_lines()
    cov = {}
    for fn, ls in tot.items():
        hit = {l for f, l in res.lines if f == fn}
        if hit: cov[fn] = "%d/%d" % (len(hit & ls), len(ls))
    ev = {
        "property": mod.ID, "tier": tier, "seed": a.seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": res.counts.get("assertions", 0) + res.counts.get("comparisons", 0),
            "distinct_nontrivial": sum(len(v) for v in res.distinct.values()),
            "rule": mod.RULE,
            "samples": res.samples[:8] or ["(none)"],
            "cases": res.cases,
            "cases_planned": len(specs),
            "events": dict(sorted(res.counts.items())),
            "distinct": {k: len(v) for k, v in sorted(res.distinct.items())},
            "library_lines_executed": cov,
            "truncated_by_deadline": res.truncated,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(real),
        "known_findings": sorted(hit_known),
    }
    if not a.replay:
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, ".%s.tmp" % mod.ID)
        with open(tmp, "w") as f: json.dump(ev, f, indent=1, sort_keys=True)
        os.replace(tmp, os.path.join(EVID, "%s.json" % mod.ID))
    print("%s %s seed=%d cases=%d/%d evaluations=%d distinct=%d violations=%d wall=%.1fs%s" % (
        mod.ID, tier, a.seed, res.cases, len(specs), ev["coverage"]["evaluations"],
        ev["coverage"]["distinct_nontrivial"], len(real), ev["wall_s"], " TRUNCATED" if res.truncated else ""))
    if real:
        for l in lines: print(l)
        return 1
    if a.replay:
        print("replay: no violation")
        return 0
    if missing:
        print("INCONCLUSIVE: monitors did not reach: %r" % missing)
        return 3
    return 0
