"""C02 - OLE2 corruption is detected: never a hang, never silently wrong bytes."""
import struct
from xlmon.util import *
from xlmon.runner import Violation

ID = "C02"; LEVEL = "fault_enumeration"
RULE = ("distinct = distinct (fault class, structure hit, injected value class, outcome) tuples; every single fault of the listed classes is "
        "enumerated at every table entry / header field / directory field of each generated file")
ASSUMPTIONS = ["Cross-links that leave the workbook's chain well formed (right length, terminated, disjoint from every other container structure the reader "
               "touches) are indistinguishable from an intact file without reading unrelated streams; they are counted as undetectable and judged only for liveness",
               "Faults are injected singly"]
REQUIRED = {"faults": 2000, "refused": 800, "refused_double": 300, "tolerated_true_content": 5, "undamaged_equal": 10}
CASE_TIMEOUT = 240

def plan(tier, seed):
    return specs_for(tier, seed, enum=(80, 1500), tol=(60, 600), dirs=(24, 300), trunc=(16, 200), multi=(24, 500))

def small_book(rng, target, bv=80):
    """a workbook whose every sector carries distinguishable content"""
    b = BookB(bv)
    for i in range(rng.randint(1, 2)):
        sh = b.sheet("S%d" % i)
        r = 0
        b_sz = 0
        while b_sz < target:
            sh.label(r, rng.randrange(4), "%x-%d" % (rng.getrandbits(64), r)); sh.number(r, 5, rng.random())
            b_sz += 60; r += 1
    return b

def obs(data, **kw):
    b = open_bytes(data, **kw)
    out = []
    for i in range(b.nsheets):
        s = b.sheet_by_index(i)
        out.append((s.name, [(s.row_types(r).tolist() if hasattr(s.row_types(r), "tolist") else list(s.row_types(r)), s.row_values(r)) for r in range(s.nrows)]))
    return out

def make(rng, short=None, **kw):
    L = ole.random_layout(rng)
    L.ssz = rng.choice([9, 9, 7, 8, 10]); L.sssz = min(6, L.ssz); L.rev = (0x3E, 3)
    L.free = rng.choice([0, 2]); L.trailing = rng.choice([0, 1]); L.dir_free = min(L.dir_free, 3)
    L.trim = False
    L.min_std = 4096
    L.__dict__.update(kw)
    target = rng.choice([900, 1800]) if short else rng.choice([4200, 6000, 9000])
    b = small_book(rng, target)
    st = b.stream(rng)
    if not short and len(st) < L.min_std:
        b.sheets[0].raw(rec(0x4D, rng.randbytes(4200))); st = b.stream(rng)
    if short and len(st) >= L.min_std: L.min_std = len(st) + 1
    kids = [ole.stream("Workbook", st), ole.stream("\x05SummaryInformation", rng.randbytes(rng.choice([300, 3000, 4096, 7000]))),
            ole.stream("other", rng.randbytes(rng.choice([100, 5000]))),
            ole.storage("sub", [ole.stream("x", rng.randbytes(200)), ole.stream("y", rng.randbytes(6000))])]
    rng.shuffle(kids)
    o = ole.build(kids, L)
    o.wb = next(n for n in o.nodes if n.name == "Workbook")
    return o, obs(st)

def put4(data, off, v):
    return data[:off] + struct.pack("<i", v) + data[off + 4:]

def consistent(o, SAT, SSAT, first=None):
    """does the workbook's chain still look well formed to any reader that does not inspect unrelated streams?"""
    n = o.wb
    s = n.first if first is None else first
    if n.short:
        k = (len(n.data) + o.SS - 1) // o.SS; tab = SSAT; used = set(); lim = len(o.sscs) // o.SS
    else:
        k = (len(n.data) + o.S - 1) // o.S; tab = SAT; lim = o.total
        used = set(o.alloc["sat"]) | set(o.alloc["satx"]) | set(o.alloc["dir"]) | set(o.alloc.get("sscs", [])) | set(o.alloc.get("ssat", []))
    seen = set()
    for i in range(k):
        if not (0 <= s < lim) or s in seen or s in used: return False
        seen.add(s)
        s = tab[s]
    return s == ole.EOC

def double_claim(data):
    """Read the file's own tables: is a sector claimed twice by the structures any reader of the workbook has to walk (the
    allocation table's list and its extension, the directory, the short-stream container and its table, the workbook)?
    True: yes, with everything in range; False: no; None: something else is wrong first."""
    def i4(off): return struct.unpack_from("<i", data, off)[0]
    try:
        ssz, sssz = struct.unpack_from("<HH", data, 30)
        if ssz != 9 or sssz != 6 or (len(data) - 512) % 512: return None
        total = (len(data) - 512) // 512
        msat = [i4(76 + 4 * j) for j in range(109)]
        claims = []; twice = False
        def claim(s):
            nonlocal twice
            if not 0 <= s < total: raise IndexError
            if s in claims: twice = True
            else: claims.append(s)
            if twice: raise EOFError
        x, nx = i4(68), i4(72)
        if nx or x not in (-2, -1, 0):          # a zero stands for "none" when the count is zero
            while x not in (-2, -1):
                claim(x)
                msat += [i4(512 + 512 * x + 4 * j) for j in range(127)]
                x = i4(512 + 512 * x + 508)
        fat = []
        for m in msat:
            if m in (-1, -2): continue
            claim(m)
            fat += [i4(512 + 512 * m + 4 * j) for j in range(128)]
        s = i4(48); dirs = b""
        while s >= 0:
            claim(s); dirs += data[512 + 512 * s:1024 + 512 * s]; s = fat[s]
        if s != -2: return None
        first, size = struct.unpack_from("<ii", dirs, 116)
        if size > 0 and first >= 0:
            s = first
            for _ in range((size + 511) // 512): claim(s); s = fat[s]
            if s != -2: return None
            s = i4(60)
            for _ in range(i4(64)): claim(s); s = fat[s]
            if s != -2: return None
        wbs = [d for d in range(0, len(dirs), 128) if dirs[d + 66] == 2 and dirs[d:d + dirs[d + 64] - 2].decode("utf-16-le", "replace").lower() in ("workbook", "book")]
        if len(wbs) != 1: return None
        s, size = struct.unpack_from("<ii", dirs, wbs[0] + 116)
        if size >= i4(56):
            for _ in range((size + 511) // 512): claim(s); s = fat[s]
            if s != -2: return None
        return False
    except EOFError: return True
    except (IndexError, struct.error): return None

def judge(mon, o, truth, data, what, cls, detectable=True, tol=False):
    mon.count("faults")
    r, v = guarded(mon, what, lambda: obs(data))
    if r == "exc":
        mon.count("refused"); mon.count("refused:" + cls)
        if cls in ("msat", "header", "dirfirst", "sat") and double_claim(data): mon.count("refused_double")
        out = type(v).__name__
    else:
        if double_claim(data): raise Violation("crosslink-accepted", "%s: two chains claim the same sector, and the file opens without error" % what, {"fault": what})
        same_ = v == truth
        out = "true" if same_ else "WRONG"
        if not same_:
            if detectable:
                raise Violation("wrong-content", "%s: opened without error but with other content" % what, {"fault": what})
            mon.count("undetectable_crosslink")
        else:
            mon.count("harmless")
    if tol:
        guarded(mon, what + " (tolerant)", lambda: obs(data, ignore_workbook_corruption=True))
    mon.seen("fault", (cls, what.split("=")[0].split("[")[0], out))

def run(spec, mon):
    rng = rng_for(spec)
    k = spec["kind"]
    if k == "enum": return run_enum(spec, rng, mon)
    if k == "tol": return run_tol(spec, rng, mon)
    if k == "dirs": return run_dirs(spec, rng, mon)
    if k == "multi": return run_multi(spec, rng, mon)
    o, truth = make(rng, short=bool(spec["i"] % 3 == 0))
    S = o.S
    cuts = set(range(0, len(o.data), S)) | {rng.randrange(len(o.data)) for _ in range(150)} | {0, 1, 7, 8, 27, 28, 29, 30, 75, 76, 511, 512, 513, len(o.data) - 1}
    for c in sorted(cuts):
        if c < len(o.data): judge(mon, o, truth, o.data[:c], "truncated to %d of %d bytes" % (c, len(o.data)), "truncate")

def run_enum(spec, rng, mon):
    short = spec["i"] % 4 == 0
    o, truth = make(rng, short=short)
    data = o.data
    r, v = guarded(mon, "undamaged", lambda: obs(data))
    mon.check(r == "ok" and v == truth, "undamaged-refused", lambda: "the undamaged file: %r" % (v,))
    r, v = guarded(mon, "undamaged, tolerant", lambda: obs(data, ignore_workbook_corruption=True))
    mon.check(r == "ok" and v == truth, "tolerance-changes-undamaged", lambda: "%r" % (v,))
    mon.count("undamaged_equal", 2)
    owner = {}
    for kk, ids in o.alloc.items():
        for s in ids: owner[s] = kk if isinstance(kk, str) else kk.name
    firsts = {(kk if isinstance(kk, str) else kk.name): ids[0] for kk, ids in o.alloc.items() if ids}
    # -- allocation table
    for s in range(o.total):
        vals = {("self", s), ("end", -2), ("free", -1), ("satid", -3), ("msatid", -4), ("neg", -7), ("out", o.total), ("far", o.total + 5000), ("max", 0x7FFFFFFF),
                ("zero", 0), ("next", s + 1)}
        for nm, f in firsts.items(): vals.add(("first:" + nm, f))
        ch = o.wb.sids if not o.wb.short else []
        if s in ch:
            j = ch.index(s)
            if j: vals.add(("prev", ch[j - 1])); vals.add(("start", ch[0]))
            if j + 2 < len(ch): vals.add(("skip", ch[j + 2]))
        for nm, val in sorted(vals):
            if o.SAT[s] == val: continue
            SAT = list(o.SAT); SAT[s] = val
            det = not consistent(o, SAT, o.SSAT)
            det = det or consistent(o, o.SAT, o.SSAT) and all(a == b for a, b in zip(walk(SAT, o.wb, o), walk(o.SAT, o.wb, o)))
            judge(mon, o, truth, put4(data, ole.sat_entry_offset(o, s), val), "SAT[%s sector %d]=%s(%d)" % (owner.get(s, "free"), s, nm, val), "sat", det, tol=rng.random() < .1)
    # -- short allocation table
    if o.sscs:
        for s in range(min(len(o.SSAT), len(o.sscs) // o.SS + 2)):
            mine = o.wb.short and s in o.wb.sids
            vals = {("self", s), ("end", -2), ("free", -1), ("neg", -9), ("out", len(o.SSAT)), ("lastpad", len(o.SSAT) - 1), ("max", 0x7FFFFFFF), ("zero", 0), ("next", s + 1)}
            if mine:
                j = o.wb.sids.index(s)
                if j: vals.add(("prev", o.wb.sids[j - 1]))
                if j + 2 < len(o.wb.sids): vals.add(("skip", o.wb.sids[j + 2]))
            for nn in o.nodes:
                if nn.kind == 2 and nn.short and nn.sids: vals.add(("first:" + nn.name, nn.sids[0]))
            if not mine: vals = set(rng.sample(sorted(vals), 3))
            for nm, val in sorted(vals):
                if o.SSAT[s] == val: continue
                SSAT = list(o.SSAT); SSAT[s] = val
                det = not consistent(o, o.SAT, SSAT) or not mine
                judge(mon, o, truth, put4(data, ole.ssat_entry_offset(o, s), val), "SSAT[%s %d]=%s(%d)" % ("workbook" if mine else "other", s, nm, val), "ssat", det, tol=rng.random() < .1)
    # -- header
    for off in list(range(8)) + [28, 29]:
        d = bytearray(data); d[off] ^= rng.choice([1, 0x80, 0xFF]); d = bytes(d)
        r, v = guarded(mon, "header byte %d" % off, lambda: obs(d))
        mon.count("faults")
        mon.check(r == "exc", "bad-signature-accepted", "file with damaged header byte %d opens" % off)
        mon.count("refused"); mon.seen("fault", ("header", off))
    for off, nm in ((44, "nsat"), (48, "dirfirst"), (56, "minstd"), (60, "ssatfirst"), (64, "ssatn"), (68, "msatxfirst"), (72, "msatxn")):
        old = struct.unpack_from("<i", data, off)[0]
        vals = {0, 1, -1, -2, -3, -4, -9, 0x7FFFFFFF, -0x80000000, old + 1, old - 1, o.total, o.total + 9, old * 2 + 7} | set(firsts.values())
        for val in sorted(vals):
            if val == old or not -2 ** 31 <= val < 2 ** 31: continue
            judge(mon, o, truth, put4(data, off, val), "header.%s=%d" % (nm, val), "header", tol=rng.random() < .1)
    for off, nm in ((30, "ssz"), (32, "sssz")):
        for val in list(range(0, 24)) + [31, 32, 255, 0x7FFF, 0xFFFF]:
            d = data[:off] + struct.pack("<H", val) + data[off + 2:]
            if d != data: judge(mon, o, truth, d, "header.%s=%d" % (nm, val), "header")
    used = len(o.alloc["sat"])
    for j in list(range(min(109, used + 2))) + [108]:
        old = struct.unpack_from("<i", data, 76 + 4 * j)[0]
        for val in sorted({-1, -2, -3, -4, -9, 0, o.total, o.total + 100, 0x7FFFFFFF, o.alloc["sat"][0]} | set(firsts.values())):
            if val != old: judge(mon, o, truth, put4(data, 76 + 4 * j, val), "MSAT[%s %d]=%d" % ("used" if j < used else "pad", j, val), "msat", tol=rng.random() < .1)
    # -- directory
    nd = len(o.slots)
    for i, n in enumerate(o.slots):
        base = ole.dirent_offset(o, i)
        who = "free" if n is None else "root" if n.kind == 5 else "wb" if n is o.wb else "storage" if n.kind == 1 else "stream"
        par = {}
        for off, nm in ((68, "left"), (72, "right"), (76, "child")):
            old = struct.unpack_from("<i", data, base + off)[0]
            vals = {-1, 0, i, nd, nd + 50, 0x7FFFFFFF, -5, o.wb.did} | {x.did for x in o.slots if x is not None and x.kind == 1}
            for val in sorted(vals):
                if val != old: judge(mon, o, truth, put4(data, base + off, val), "dir[%s %d].%s=%d" % (who, i, nm, val), "dirlink", tol=rng.random() < .05)
        old = struct.unpack_from("<i", data, base + 116)[0]
        for val in sorted({-1, -2, -3, -9, 0, o.total, o.total + 77, 0x7FFFFFFF, old + 1, old - 1} | set(firsts.values())):
            if val == old or not -2 ** 31 <= val < 2 ** 31: continue
            det = True
            if n is o.wb: det = not consistent(o, o.SAT, o.SSAT, val)
            judge(mon, o, truth, put4(data, base + 116, val), "dir[%s %d].first=%d" % (who, i, val), "dirfirst", det)
        old = struct.unpack_from("<i", data, base + 120)[0]
        for val in sorted({0, 1, -1, old + 1, old - 1, old + o.S, old - o.S, old + 3 * o.S, old // 2, old * 2, o.total * o.S, 0x7FFFFFFF, len(data), len(data) - 512, len(data) - 511, 4095, 4096}):
            if val != old and -2 ** 31 <= val < 2 ** 31: judge(mon, o, truth, put4(data, base + 120, val), "dir[%s %d].size=%d" % (who, i, val), "dirsize")
        for val in (0, 1, 2, 3, 4, 5, 255):
            d = data[:base + 66] + bytes([val]) + data[base + 67:]
            if d != data: judge(mon, o, truth, d, "dir[%s %d].type=%d" % (who, i, val), "dirtype")
        for val in (0, 1, 2, 3, 63, 64, 65, 66, 0xFFFF):
            d = data[:base + 64] + struct.pack("<H", val) + data[base + 66:]
            if d != data: judge(mon, o, truth, d, "dir[%s %d].namelen=%d" % (who, i, val), "dirname")
    mon.sample("%d sectors of %d bytes, workbook %s, chain %r" % (o.total, o.S, "short" if o.wb.short else "standard", o.wb.sids[:8]))

def walk(SAT, n, o):
    if n.short: return [0]
    s = n.first; out = []
    k = (len(n.data) + o.S - 1) // o.S
    while len(out) < k and 0 <= s < len(SAT): out.append(s); s = SAT[s]
    return out

def run_tol(spec, rng, mon):
    """exactly one fault: another chain also claims (a suffix of) the workbook's sectors"""
    o, truth = make(rng)
    data = bytearray(o.data)
    ch = o.wb.sids
    j = rng.randrange(len(ch))
    how = rng.choice(["sscs", "sscs-size", "ssat", "sscs-first"])
    if not o.sscs: how = "sscs-first"
    if how in ("sscs", "sscs-size"):
        data = put4(bytes(data), ole.sat_entry_offset(o, o.alloc["sscs"][-1]), ch[j])
        if how == "sscs-size":
            data = put4(data, ole.dirent_offset(o, 0) + 120, len(o.sscs) + (len(ch) - j) * o.S)
    elif how == "ssat":
        data = put4(bytes(data), ole.sat_entry_offset(o, o.alloc["ssat"][-1]), ch[j])
        data = put4(data, 64, len(o.alloc["ssat"]) + len(ch) - j)
    else:
        base = ole.dirent_offset(o, 0)
        data = put4(bytes(data), base + 116, ch[j])
        data = put4(data, base + 120, (len(ch) - j) * o.S)
    data = bytes(data)
    what = "workbook sectors %d.. of %d also claimed by %s" % (j, len(ch), how)
    r, v = guarded(mon, what, lambda: obs(data))
    mon.check(r == "exc", "crosslink-accepted", what + ": opened without error by default")
    mon.check(type(v).__name__ == "CompDocError" or isinstance(v, xlrd.XLRDError), "crosslink-error-type", "%s: %r" % (what, v))
    mon.count("faults"); mon.count("refused")
    for kw in ({}, {"on_demand": True}, {"formatting_info": True}):
        r, v = guarded(mon, what + ", tolerant", lambda: obs(data, ignore_workbook_corruption=True, **kw))
        mon.check(r == "ok", "tolerance-refused", lambda: "%s, with ignore_workbook_corruption=True: %r" % (what, v))
        mon.check(v == truth, "tolerance-wrong-content", lambda: "%s: tolerant open yields other content" % what)
        mon.count("tolerated_true_content")
    with Scratch() as d:
        import os
        p = os.path.join(d, "t.xls")
        with open(p, "wb") as f: f.write(data)
        r, v = guarded(mon, what, lambda: xlrd.open_workbook(p, logfile=LOG, ignore_workbook_corruption=True).sheet_by_index(0).nrows)
        mon.check(r == "ok", "tolerance-refused", lambda: "%s (path): %r" % (what, v))
    mon.seen("fault", ("tolerance", how, j == 0, len(ch) - j))

def run_dirs(spec, rng, mon):
    """directory trees that loop or share subtrees, of every size"""
    n = rng.choice([3, 10, 30, 45, 60, 200, 1500])
    L = ole.Layout(seed=rng.getrandbits(30), tree=rng.choice(["balanced", "left", "right"]), min_std=4096)
    b = small_book(rng, 4500); st = b.stream(rng)
    truth = obs(st)
    kids = [ole.stream("e%04d" % i, b"") for i in range(n)] + [ole.stream("Workbook", st)]
    some = [ole.storage("st%d" % i, [ole.stream("q%d" % i, b"12")]) for i in range(rng.choice([0, 3, 40]))]
    o = ole.build(kids + some, L)
    o.wb = next(x for x in o.nodes if x.name == "Workbook")
    def setl(d, did, off, v):
        p = ole.dirent_offset(o, did) + off
        d[p:p + 4] = struct.pack("<i", v)
    nd = len(o.slots)
    pats = ["dag", "selfloop", "ring", "storage-ring", "random", "all-to-root", "both-next"]
    for pat in pats:
        d = bytearray(o.data)
        if pat == "dag":          # entry i: left = right = i+1 -> 2**n paths
            for i in range(1, nd - 1): setl(d, i, 68, i + 1); setl(d, i, 72, i + 1)
            setl(d, 0, 76, 1)
        elif pat == "both-next":
            for i in range(1, nd - 1): setl(d, i, 68, i + 1); setl(d, i, 72, min(i + 2, nd - 1))
        elif pat == "selfloop":
            x = rng.randrange(1, nd); setl(d, x, rng.choice([68, 72, 76]), x)
        elif pat == "ring":
            for i in range(1, nd): setl(d, i, 72, i + 1 if i + 1 < nd else 1)
        elif pat == "storage-ring":
            for i in range(1, nd): d[ole.dirent_offset(o, i) + 66] = 1; setl(d, i, 76, i + 1 if i + 1 < nd else 1)
        elif pat == "random":
            for i in range(0, nd):
                for off in (68, 72, 76): setl(d, i, off, rng.randrange(-1, nd))
        else:
            for i in range(1, nd): setl(d, i, 68, 0); setl(d, i, 72, 0)
        d = bytes(d)
        judge(mon, o, truth, d, "directory %s of %d entries" % (pat, nd), "dirtree:" + pat, tol=True)

def run_multi(spec, rng, mon):
    """several random faults at once: liveness and no wrong content except where undetectable"""
    o, truth = make(rng, short=rng.random() < .3)
    for _ in range(120):
        d = o.data
        for _ in range(rng.randint(2, 6)):
            w = rng.random()
            if w < .5: off = ole.sat_entry_offset(o, rng.randrange(o.total))
            elif w < .6 and o.sscs: off = ole.ssat_entry_offset(o, rng.randrange(len(o.sscs) // o.SS))
            elif w < .8: off = ole.dirent_offset(o, rng.randrange(len(o.slots))) + rng.choice([68, 72, 76, 116, 120])
            else: off = rng.choice([44, 48, 56, 60, 64, 68, 72, 76, 80])
            d = put4(d, off, rng.choice([0, -1, -2, -3, o.total, rng.randrange(o.total), rng.randrange(o.total), 0x7FFFFFFF, rng.randrange(-2 ** 31, 2 ** 31)]))
        judge(mon, o, truth, d, "several table entries", "multi", detectable=False, tol=rng.random() < .3)
