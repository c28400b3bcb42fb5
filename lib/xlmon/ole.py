"""Independent OLE2 compound-file writer with arbitrary physical layouts.

build(tree, layout) -> Ole   (Ole.data is the file image; the other attributes
say where everything went, so that faults can be injected at exact places).
"""
import struct, random

SIG = b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1"
EOC, FREE, SATS, MSATS = -2, -1, -3, -4

class Layout(object):
    def __init__(self, **kw):
        self.ssz = 9
        self.sssz = 6
        self.min_std = 4096
        self.order = "seq"          # seq | shuffle | reverse | interleave | swap
        self.free = 0               # free sectors sprinkled
        self.msat_header = 109      # MSAT entries kept in the header
        self.msatx_end = EOC
        self.nomsatx_first = EOC
        self.tree = "balanced"      # balanced | left | right | random
        self.dir_free = 0           # unused directory entries sprinkled
        self.dir_shuffle = False
        self.trim = False           # drop the padding of the file's last sector
        self.trailing = 0           # extra garbage whole sectors at the end (free)
        self.clsid = False
        self.sscs_slack = 0         # spare short sectors
        self.sorder = "seq"
        self.sizehi = 0
        self.root_empty_sid = EOC
        self.seed = 0
        self.garbage = 0            # fill byte for slack
        self.rev = (0x3E, 3)
        self.wb_first = False
        self.__dict__.update(kw)

def random_layout(rng, big=False):
    L = Layout(seed=rng.getrandbits(32))
    L.ssz = rng.choice([9, 9, 9, 12, 7, 8, 10, 11, 13])
    L.sssz = rng.choice([6, 6, 6, 5, 7, 4, L.ssz])
    if L.sssz > L.ssz: L.sssz = 6
    L.min_std = rng.choice([4096, 4096, 4096, 64, 1000, 1, 100000])
    L.order = rng.choice(["seq", "shuffle", "shuffle", "reverse", "interleave", "swap", "swap"])
    L.free = rng.choice([0, 0, 1, 5, 20])
    L.msatx_end = rng.choice([EOC, EOC, FREE])
    L.nomsatx_first = rng.choice([EOC, EOC, FREE, 0])
    L.tree = rng.choice(["balanced", "left", "right", "random"])
    L.dir_free = rng.choice([0, 0, 1, 3, 300 if big else 5])
    L.dir_shuffle = rng.random() < .5
    L.trim = rng.random() < .4
    L.trailing = rng.choice([0, 0, 1, 4])
    L.clsid = rng.random() < .3
    L.sscs_slack = rng.choice([0, 0, 2, 9])
    L.sorder = rng.choice(["seq", "shuffle", "reverse", "swap"])
    L.root_empty_sid = rng.choice([EOC, FREE])
    L.garbage = rng.choice([0, 0xFF, 0x5A])
    L.rev = rng.choice([(0x3E, 3), (0x21, 3), (0, 0)])
    if L.ssz == 12 and rng.random() < .5: L.rev = (0x3E, 4)
    return L

class Node(object):
    """A directory entry to be written. kind: 1 storage, 2 stream, 5 root"""
    def __init__(self, name, kind, data=None, children=None):
        self.name, self.kind, self.data = name, kind, data
        self.children = children or []
        self.left = self.right = self.child = None
        self.did = None
        self.first = EOC
        self.short = False

def stream(name, data): return Node(name, 2, data)
def storage(name, children): return Node(name, 1, None, children)

def _order(ids, mode, rng):
    ids = list(ids)
    if mode == "shuffle": rng.shuffle(ids)
    elif mode == "reverse": ids.reverse()
    elif mode == "swap" and len(ids) > 1:
        for _ in range(rng.randint(1, 3)):
            i = rng.randrange(len(ids) - 1)
            ids[i], ids[i + 1] = ids[i + 1], ids[i]
    elif mode == "interleave":
        k = rng.choice([2, 3, 7])
        ids = [x for j in range(k) for x in ids[j::k]]
    return ids

class Ole(object):
    pass

def build(children, L):
    rng = random.Random(L.seed)
    S = 1 << L.ssz
    SS = 1 << L.sssz
    fill = bytes([L.garbage])
    root = Node("Root Entry", 5, None, children)
    allnodes = []
    def walk(n):
        allnodes.append(n)
        for c in n.children: walk(c)
    walk(root)
    nodes = allnodes[1:]
    if L.dir_shuffle: rng.shuffle(nodes)
    slots = [root] + list(nodes)
    for _ in range(L.dir_free):
        slots.insert(rng.randint(1, len(slots)), None)
    if not L.wb_first: pass
    per = S // 128
    if per == 0: raise ValueError
    while len(slots) % per: slots.append(None)
    for i, n in enumerate(slots):
        if n is not None: n.did = i

    def pick(lo, hi):
        if L.tree == "left": return hi - 1
        if L.tree == "right": return lo
        if L.tree == "random": return rng.randrange(lo, hi)
        return (lo + hi) // 2
    def link(parent, cs):
        """binary search tree over cs (iterative: shapes may be very deep)"""
        todo = [(parent, "child", 0, len(cs))]
        while todo:
            p, attr, lo, hi = todo.pop()
            if lo >= hi: continue
            i = pick(lo, hi)
            setattr(p, attr, cs[i])
            todo.append((cs[i], "left", lo, i)); todo.append((cs[i], "right", i + 1, hi))
    for n in allnodes:
        link(n, sorted(n.children, key=lambda c: (len(c.name), c.name.upper())))

    # ---- short stream container
    shorts = [n for n in nodes if n.kind == 2 and len(n.data) < L.min_std]
    stds = [n for n in nodes if n.kind == 2 and len(n.data) >= L.min_std]
    nshort = sum((len(n.data) + SS - 1) // SS for n in shorts)
    SSAT = []
    sscs = b""
    if nshort:
        tot = nshort + L.sscs_slack
        ids = list(range(tot))
        pool = _order(ids, L.sorder, rng)
        if L.sscs_slack and L.sorder == "seq":
            # leave gaps
            drop = set(rng.sample(ids, L.sscs_slack))
            pool = [i for i in ids if i not in drop] + sorted(drop)
        SSAT = [FREE] * tot
        buf = [fill * SS for _ in range(tot)]
        rng.shuffle(shorts)
        p = 0
        for n in shorts:
            n.short = True
            k = (len(n.data) + SS - 1) // SS
            mine = pool[p:p + k]; p += k
            n.sids = mine
            if not k:
                n.first = EOC
                continue
            n.first = mine[0]
            for j, sid in enumerate(mine):
                SSAT[sid] = mine[j + 1] if j + 1 < k else EOC
                buf[sid] = (n.data[j * SS:(j + 1) * SS]).ljust(SS, fill)
        sscs = b"".join(buf)
    else:
        for n in shorts: n.short = True; n.first = EOC; n.sids = []
    # ---- sector counts
    nent = S // 4
    while len(SSAT) % nent: SSAT.append(FREE)
    chains = {}     # key -> number of sectors
    chains["dir"] = len(slots) // per
    if sscs:
        chains["sscs"] = (len(sscs) + S - 1) // S
        chains["ssat"] = len(SSAT) // nent
    for n in stds:
        chains[n] = (len(n.data) + S - 1) // S
    base = sum(chains.values()) + L.free + L.trailing
    nsat = 1
    while 1:
        nmx = 0
        hdr = min(L.msat_header, 109)
        if nsat > hdr:
            nmx = -(-(nsat - hdr) // (nent - 1))
        tot = base + nsat + nmx
        need = -(-tot // nent)
        if need <= nsat: break
        nsat = need
    total = base + nsat + nmx
    # ---- allocate sector ids
    ids = list(range(total - L.trailing))
    if L.order in ("shuffle",):
        rng.shuffle(ids)
    want = [("satx", None)] * nmx + [("sat", None)] * nsat
    alloc = {"sat": [], "satx": []}
    keys = list(chains)
    rng.shuffle(keys)
    if L.order == "interleave":
        remain = {k: chains[k] for k in keys}
        remain["sat"] = nsat; remain["satx"] = nmx; remain["free"] = L.free
        out = {k: [] for k in remain}
        live = [k for k in remain if remain[k]]
        for i in ids:
            k = rng.choice(live)
            out[k].append(i); remain[k] -= 1
            if not remain[k]: live.remove(k)
        alloc = out
    else:
        parts = [("sat", nsat), ("satx", nmx)] + [(k, chains[k]) for k in keys]
        rng.shuffle(parts)
        frees = L.free
        p = 0
        for k, cnt in parts:
            if frees and rng.random() < .5:
                f = rng.randint(1, frees); frees -= f; p += f
            alloc[k] = ids[p:p + cnt]; p += cnt
            if L.order in ("reverse", "swap"):
                alloc[k] = _order(alloc[k], L.order, rng)
    SAT = [FREE] * (nsat * nent)
    sect = [fill * S for _ in range(total)]
    def put(chain, blob):
        for j, sid in enumerate(chain):
            sect[sid] = blob[j * S:(j + 1) * S].ljust(S, fill)
            SAT[sid] = chain[j + 1] if j + 1 < len(chain) else EOC
    for n in stds:
        ch = alloc[n]
        n.first = ch[0] if ch else EOC
        n.sids = ch
        put(ch, n.data)
    if sscs:
        put(alloc["sscs"], sscs)
        put(alloc["ssat"], struct.pack("<%di" % len(SSAT), *SSAT))
    for s in alloc["sat"]: SAT[s] = SATS
    for s in alloc["satx"]: SAT[s] = MSATS
    # ---- directory
    root.first = alloc["sscs"][0] if sscs else L.root_empty_sid
    rootsize = len(sscs)
    def did(n): return -1 if n is None else n.did
    ents = []
    for n in slots:
        if n is None:
            ents.append(struct.pack("<64sHBBiii16sI8s8siiI", b"", 0, 0, 0, -1, -1, -1, b"", 0, b"", b"", 0, 0, 0)[:128].ljust(128, b"\0"))
            continue
        nm = (n.name + "\0").encode("utf-16le")
        size = rootsize if n.kind == 5 else (len(n.data) if n.kind == 2 else 0)
        first = n.first if n.kind != 1 else 0
        ents.append(struct.pack("<64sHBBiii16sI8s8siiI", nm, len(nm), n.kind, rng.randint(0, 1),
                    did(n.left), did(n.right), did(n.child),
                    (rng.randbytes(16) if L.clsid else b""), 0,
                    rng.randbytes(8) if L.clsid else b"", b"", first, size, L.sizehi))
        assert len(ents[-1]) == 128
    put(alloc["dir"], b"".join(ents))
    # ---- SAT, MSAT
    satblob = struct.pack("<%di" % len(SAT), *SAT)
    for j, s in enumerate(alloc["sat"]):
        sect[s] = satblob[j * S:(j + 1) * S]
    hdrn = min(L.msat_header, 109)
    msat = alloc["sat"][:hdrn] if nmx else list(alloc["sat"])
    rest = alloc["sat"][hdrn:] if nmx else []
    msat += [FREE] * (109 - len(msat))
    mx = alloc["satx"]
    for j, s in enumerate(mx):
        part = rest[j * (nent - 1):(j + 1) * (nent - 1)]
        part += [FREE] * (nent - 1 - len(part))
        part.append(mx[j + 1] if j + 1 < len(mx) else L.msatx_end)
        sect[s] = struct.pack("<%di" % nent, *part)
    ssat_first = alloc["ssat"][0] if sscs else EOC
    head = SIG + (rng.randbytes(16) if L.clsid else b"\0" * 16) + struct.pack("<HH", *L.rev) + b"\xFE\xFF"
    head += struct.pack("<HH", L.ssz, L.sssz) + b"\0" * 10
    head += struct.pack("<iiiiiiii", nsat, alloc["dir"][0], 0, L.min_std, ssat_first,
                        len(alloc["ssat"]) if sscs else 0, mx[0] if mx else L.nomsatx_first, len(mx))
    head += struct.pack("<109i", *msat)
    assert len(head) == 512
    v4pad = S - 512 if L.rev[1] == 4 and S > 512 else 0
    data = head + b"\0" * v4pad + b"".join(sect)
    if L.trim and not L.trailing and total:
        # the last sector is a user stream's tail (or free): drop its padding
        last = total - 1
        keep = None
        for n in stds:
            if n.sids and n.sids[-1] == last:
                r = len(n.data) % S
                if r: keep = r
        if keep: data = data[:len(data) - S + keep]
    o = Ole()
    o.data, o.S, o.SS, o.SAT, o.SSAT = data, S, SS, SAT, SSAT
    o.alloc, o.nodes, o.root, o.slots, o.layout = alloc, nodes, root, slots, L
    o.base = 512 + v4pad
    o.total = total; o.nent = nent; o.sscs = sscs
    return o

def sat_entry_offset(o, sid):
    """file offset of SAT[sid]"""
    return o.base + o.alloc["sat"][sid // o.nent] * o.S + 4 * (sid % o.nent)

def ssat_entry_offset(o, ssid):
    return o.base + o.alloc["ssat"][ssid // o.nent] * o.S + 4 * (ssid % o.nent)

def dirent_offset(o, did):
    per = o.S // 128
    return o.base + o.alloc["dir"][did // per] * o.S + 128 * (did % per)

def simple(wb, name="Workbook", **kw):
    L = Layout(**kw)
    return build([stream(name, wb)], L).data
