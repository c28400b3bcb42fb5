"""C01 - OLE2 container: byte-exact streams for every physical layout."""
import mmap, os
from xlmon.util import *
from xlmon.randbook import random_book
from xlmon import samples as SM
from xlmon.runner import Violation
from xlrd import compdoc

ID = "C01"; LEVEL = "exploration"
RULE = ("distinct = distinct (layout parameters, stream size class, contiguity) tuples whose streams were compared byte for byte, "
        "plus distinct workbook streams observed under several layouts")
ASSUMPTIONS = ["The compound-file writer in lib/xlmon/ole.py (written from MS-CFB, self-checked by re-reading its own tables) produces well-formed files"]
REQUIRED = {"streams_exact": 50, "books_equal": 10, "absent_names": 20, "sample_layouts": 60}
CASE_TIMEOUT = 90

def plan(tier, seed):
    return specs_for(tier, seed, streams=(440, 4000), book=(140, 1200), big=(6, 60), deep=(6, 20), mmap=(10, 100), sample=(40, 400))

NAMES = ["Workbook", "Book", "\x05SummaryInformation", "\x05DocumentSummaryInformation", "\x01CompObj", "A", "b", "Ünï", "x" * 31, "VBA", "dir", "Ctls"]

def rand_size(rng, L):
    S = 1 << L.ssz; SS = 1 << L.sssz
    return max(0, rng.choice([0, 1, 2, SS - 1, SS, SS + 1, 3 * SS, S - 1, S, S + 1, 2 * S, 5 * S, L.min_std - 1, L.min_std, L.min_std + 1,
                              rng.randint(0, 300), rng.randint(0, 5000), rng.randint(0, 60000)]) if L.min_std < 90000 or rng.random() < .8 else rng.randint(0, 3000))

def tree(rng, L, depth=0, prefix="", out=None):
    names = rng.sample(NAMES, rng.randint(1, 6))
    if rng.random() < .3: names += ["s%d" % i for i in range(rng.choice([3, 10, 40]))]
    kids = []
    for n in names:
        if depth < 3 and rng.random() < .2:
            kids.append(ole.storage(n, tree(rng, L, depth + 1, prefix + n + "/", out)))
            out["storages"].append(prefix + n)
        else:
            size = rand_size(rng, L)
            if rng.random() < .1: size = min(size, 64)
            data = rng.randbytes(size)
            kids.append(ole.stream(n, data))
            out["streams"][prefix + n] = (data, kids[-1])
    return kids

def check_streams(mon, o, streams, storages, rng, mem=None):
    L = o.layout
    mem = o.data if mem is None else mem
    todo = list(streams.items())
    if len(todo) > 12: todo = rng.sample(todo, 12)
    for path, (data, node) in todo:
        q = path if rng.random() < .8 else "".join(c.swapcase() if c.isascii() else c for c in path)
        for how in ("get", "locate"):
            cd = compdoc.CompDoc(mem, LOG)
            if how == "get":
                got = cd.get_named_stream(q)
            else:
                if len(data) == 0 and not node.short: continue
                m, off, n = cd.locate_named_stream(q)
                if m is None: raise Violation("stream-missing", "%s not found (layout %r)" % (path, L.__dict__))
                mon.check(n == len(data), "stream-length", lambda: "%s: length %d, stored %d" % (path, n, len(data)))
                got = m[off:off + n]
                mon.count("located_in_place" if m is mem else "located_by_copy")
            mon.check(got is not None, "stream-missing", lambda: "%s not found (layout %r)" % (path, L.__dict__))
            if bytes(got) != data:
                k = next((i for i, (a, b) in enumerate(zip(got, data)) if a != b), min(len(got), len(data)))
                raise Violation("stream-bytes", "%s via %s: %d bytes returned, %d stored, first difference at %d (layout %r)"
                                % (path, how, len(got), len(data), k, L.__dict__))
            mon.count("assertions"); mon.count("streams_exact"); mon.count("bytes_compared", len(data))
            if o.alloc["satx"]: mon.count("streams_exact_with_msatx")
            if node.short: mon.count("short_streams_exact")
            if node.did >= 250: mon.count("high_directory_id")
            mon.seen("layout", (L.ssz, L.sssz, L.order, L.sorder, L.tree, bool(o.alloc["satx"]), node.short, how, len(data) % o.S == 0, min(len(data) // o.S, 9), L.trim))
    cd = compdoc.CompDoc(mem, LOG)
    for q in ["Workbok", "Workbook2", "nope", "Root Entry", "A/nope", "x" * 30] + [p + "x" for p in list(streams)[:3]]:
        low = q.lower()
        if any(low == p.lower() for p in list(streams) + storages): continue
        pre = low.rsplit("/", 1)[0]
        if "/" in q and any(pre == p.lower() for p in streams): continue
        mon.equal(cd.get_named_stream(q), None, "absent-name", "get_named_stream(%r)" % q)
        mon.equal(cd.locate_named_stream(q), (None, 0, 0), "absent-name", "locate_named_stream(%r)" % q)
        mon.count("absent_names")

def run(spec, mon):
    rng = rng_for(spec)
    k = spec["kind"]
    if k in ("streams", "mmap"):
        for j in range(6 if k == "streams" else 2):
            L = ole.random_layout(rng)
            out = {"streams": {}, "storages": []}
            kids = tree(rng, L, 0, "", out)
            o = ole.build(kids, L)
            if k == "mmap":
                with Scratch() as d:
                    p = os.path.join(d, "f")
                    with open(p, "wb") as f: f.write(o.data)
                    with open(p, "rb") as f:
                        mm = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ)
                        check_streams(mon, o, out["streams"], out["storages"], rng, mm)
                        mm.close()
            else:
                check_streams(mon, o, out["streams"], out["storages"], rng)
        mon.sample("layout %r with %d streams" % (L.__dict__, len(out["streams"])))
    elif k == "big":
        # allocation-table extension sectors: > 109 table sectors
        L = ole.random_layout(rng)
        L.ssz = rng.choice([7, 7, 8, 9]); L.sssz = min(L.sssz, L.ssz)
        if L.ssz < 9: L.rev = (0x3E, 3)
        L.min_std = 4096
        nent = (1 << L.ssz) // 4
        need = 109 * nent * (1 << L.ssz)
        f = rng.choice([1.0, 1.0, 1.02, 1.3, 2.0]) if L.ssz < 9 else rng.choice([1.0, 1.05])
        delta = rng.choice([0, 0, 1, 2, 200, 3000]) << L.ssz
        size = int(need * f) + delta - ((rng.randint(0, 240) << L.ssz) if f == 1.0 else 0)
        data = rng.randbytes(size)
        small = rng.randbytes(rng.randint(1, 4000))
        o = ole.build([ole.stream("Workbook", data), ole.stream("small", small)], L)
        mon.count("big_files")
        nodes = {n.name: n for n in o.nodes}
        check_streams(mon, o, {"Workbook": (data, nodes["Workbook"]), "small": (small, nodes["small"])}, [], rng)
        mon.seen("satx", (len(o.alloc["satx"]), len(o.alloc["sat"]), L.ssz))
    elif k == "sample":
        like, data, st = SM.pick(rng)
        fmt = bool(rng.getrandbits(1)); w = "sample %s" % like.name
        if data is not st:
            for q in ("Workbook", "Book"):
                got = compdoc.CompDoc(data, LOG).get_named_stream(q)
                if got is not None: break
            if got != st: raise Violation("stream-bytes", "%s: stream of %s bytes, stored %d" % (w, got and len(got), len(st)))
            mon.count("streams_exact"); mon.count("bytes_compared", len(st))
        ref = O.observe(open_bytes(data, formatting_info=fmt))
        O.compare(mon, O.observe(open_bytes(st, formatting_info=fmt)), ref, "layout-changes-workbook", "%s without a container" % w)
        for j in range(3):
            L = ole.random_layout(rng)
            o = ole.build([ole.stream(rng.choice(["Workbook", "Book"]), st)], L)
            O.compare(mon, O.observe(open_bytes(o.data, formatting_info=fmt, on_demand=bool(rng.getrandbits(1)))), ref, "layout-changes-workbook", "%s, layout %r" % (w, L.__dict__))
            mon.count("sample_layouts")
        mon.seen("sample", (like.name, L.ssz, L.order, fmt))
    elif k == "deep":
        n = rng.choice([260, 300, 1200, 3000])
        L = ole.random_layout(rng); L.tree = rng.choice(["left", "right", "right", "balanced"]); L.dir_shuffle = rng.random() < .5
        L.min_std = 4096
        streams = {}
        kids = []
        for i in range(n):
            nm = "s%05d" % i
            data = b"" if rng.random() < .9 else rng.randbytes(rng.randint(1, 6000))
            kids.append(ole.stream(nm, data)); streams[nm] = (data, kids[-1])
        big = rng.randbytes(9000)
        kids.append(ole.stream("Workbook", big))
        o = ole.build(kids, L)
        pick = {"Workbook": (big, kids[-1])}
        for nm in rng.sample(sorted(streams), 5): pick[nm] = streams[nm]
        check_streams(mon, o, pick, [], rng)
        mon.count("deep_trees")
    else:
        bv = rng.choice([80, 80, 80, 50, 70]) if rng.random() < .85 else rng.choice([20, 21, 30, 40, 45])
        b = random_book(rng, bv, density=rng.choice([.2, 1, 1, 3]), names=True)
        st = b.stream(rng)
        if rng.random() < .4:      # push it over the mini-stream cutoff and make it many sectors long
            b.trailer = rng.randbytes(rng.choice([100, 5000, 40000])); st += b.trailer
        fmt = bool(rng.getrandbits(1))
        ref = None
        if len(st) % 2 == 0 or 1:
            ref = O.observe(open_bytes(st, formatting_info=fmt))      # no container
        mon.sample("biff%d stream of %d bytes, %d sheets" % (bv, len(st), len(b.sheets)))
        for j in range(4):
            L = ole.random_layout(rng)
            name = rng.choice(["Workbook", "Book"])
            kids = [ole.stream(name, st)]
            if name == "Workbook" and rng.random() < .3:
                kids.append(ole.stream("Book", rng.randbytes(rng.randint(0, 9000))))   # Workbook has precedence
            if rng.random() < .6: kids.append(ole.stream("\x05SummaryInformation", rng.randbytes(rng.randint(1, 6000))))
            if rng.random() < .4: kids.append(ole.storage("_VBA_PROJECT_CUR", [ole.stream("PROJECT", rng.randbytes(500)), ole.storage("VBA", [ole.stream("Workbook", rng.randbytes(5000))])]))
            rng.shuffle(kids)
            o = ole.build(kids, L)
            got = O.observe(open_bytes(o.data, formatting_info=fmt, on_demand=bool(rng.getrandbits(1))))
            O.compare(mon, got, ref, "layout-changes-workbook", "layout %r" % L.__dict__)
            mon.count("books_equal")
            mon.seen("book", (spec["seed"], j))
