"""C04 - numeric cells are bit-exact for every storage form."""
import struct
from xlmon.util import *
from xlmon.runner import Violation

ID = "C04"; LEVEL = "exploration"
RULE = "distinct = distinct stored numeric bit patterns (per record form and file version), hashed"
ASSUMPTIONS = ["IEEE-754 doubles; division by 100 is one correctly rounded double division (as in the format's definition)"]
REQUIRED = {"rk": 20000, "mulrk": 20000, "number": 20000, "formula": 5000, "integer": 65536, "multi_spans": 200}
CASE_TIMEOUT = 120

def plan(tier, seed):
    s = specs_for(tier, seed, rk=(2500, 9000), mul=(2000, 8000), num=(2000, 8000), formula=(1500, 6000), spans=(320, 640))
    return s + [{"kind": "int", "seed": "%d.int.%d" % (seed, i), "i": i} for i in range(32)]

def rk_pattern(rng, i, j):
    """30-bit payload + 2 flag bits, stratified"""
    k = rng.random()
    if k < .25: p = rng.getrandbits(30)
    elif k < .4: p = rng.choice([0, 1, 2, 3, 0x1FFFFFFF, 0x20000000, 0x20000001, 0x3FFFFFFF, 0x3FFFFFFE, 100, 99, 101, 0x1FFFFFFE])
    elif k < .55: p = 1 << rng.randrange(30)
    elif k < .7: p = (1 << rng.randrange(30)) - 1 + rng.randint(-1, 1) & 0x3FFFFFFF
    elif k < .85: p = rng.randint(0, 100000)
    else: p = (-rng.randint(1, 100000)) & 0x3FFFFFFF
    return p << 2 | (j & 3)

def bits(v): return struct.pack("<d", v)

def rand_bits(rng, nan=False):
    while 1:
        k = rng.random()
        if k < .5: u = rng.getrandbits(64)
        elif k < .6: u = rng.choice([0, 1 << 63, 0x7FEFFFFFFFFFFFFF, 1, 0x000FFFFFFFFFFFFF, 0x0010000000000000, 0x3FF0000000000000, 0x7FF0000000000000, 0xFFF0000000000000, 0x41DFFFFFFFC00000])
        elif k < .7: u = 1 << rng.randrange(64)
        elif k < .8: u = rng.getrandbits(52)          # denormals
        elif k < .9: u = struct.unpack("<Q", bits(float(rng.randint(-10 ** 15, 10 ** 15)) / rng.choice([1, 10, 100, 1000])))[0]
        else: u = struct.unpack("<Q", bits(rng.uniform(-1e6, 1e6)))[0]
        if (u >> 52 & 0x7FF) == 0x7FF and u & ((1 << 52) - 1): continue   # NaN: no defined value
        return u

def check(mon, b, exp, rng, form, fmt=None, ragged=None):
    data = wrap(b.stream(rng), b.bv)
    kw = dict(formatting_info=bool(rng.getrandbits(1)) if fmt is None else fmt, ragged_rows=bool(rng.getrandbits(1)))
    s = open_bytes(data, **kw).sheet_by_index(0)
    for (r, c), (u, what) in exp.items():
        v = s.cell_value(r, c); t = s.cell_type(r, c)
        if t != 2 or type(v) is not float or bits(v) != struct.pack("<Q", u):
            raise Violation("value:" + form, "BIFF%d %s at %r, %s: got type %d value %r (bits %s), stored %r (bits %016x)" % (
                b.bv, what, (r, c), kw, t, v, bits(v)[::-1].hex() if isinstance(v, float) else "-", struct.unpack("<d", struct.pack("<Q", u))[0], u))
        mon.seen(form, (b.bv, u))
    mon.count("assertions", len(exp)); mon.count(form, len(exp)); mon.count("form:%s:biff%d" % (form, b.bv), len(exp))

def mkbook(bv):
    b = BookB(bv)
    if bv == 20: b.add_format(0, "General")
    elif bv < 50: b.add_format(0, "General"); b.add_xf(0); b.add_xf(0)
    else: b.add_xf(0); b.add_xf(2)
    sh = b.sheet("S"); sh.dims = (1, 1)
    return b, sh, (bytes(3) if bv == 20 else 0)

def u64(v): return struct.unpack("<Q", bits(v))[0]

def run(spec, mon):
    rng = rng_for(spec); k = spec["kind"]; i = spec["i"]
    exp = {}
    if k == "int":
        b, sh, x = mkbook(21 if i & 16 else 20)
        for v in range((i & 15) << 12, ((i & 15) + 1) << 12):
            r, c = divmod(v & 0xFFF, 64)
            sh.integer(r, c, v, x); exp[r, c] = (u64(float(v)), "INTEGER %d" % v)
        check(mon, b, exp, rng, "integer")
        # the same range in the other version
        return
    if k == "rk":
        b, sh, x = mkbook(rng.choice([30, 40, 45, 50, 70, 80]))
        for n in range(1500):
            u = rk_pattern(rng, i, n)
            if not u & 2 and (u >> 20 & 0x7FF) == 0x7FF and u >> 2 & 0x3FFFF: continue
            r, c = divmod(n, 50)
            sh.rk(r, c, u, x); exp[r, c] = (u64(rk_value(u)), "RK %08x" % u)
        check(mon, b, exp, rng, "rk")
        mon.sample("RK %08x -> %r" % (u, rk_value(u)))
    elif k == "mul":
        b, sh, x = mkbook(rng.choice([50, 70, 80]))
        for r in range(60):
            c0 = rng.choice([0, 0, rng.randint(0, 255)]); n = min(256 - c0, rng.choice([1, 2, 30, 256]))
            us = []
            for j in range(n):
                u = rk_pattern(rng, i, rng.randrange(4))
                if not u & 2 and (u >> 20 & 0x7FF) == 0x7FF and u >> 2 & 0x3FFFF: u = 2
                us.append(u); exp[r, c0 + j] = (u64(rk_value(u)), "MULRK[%d of %d] %08x" % (j, n, u))
            sh.mulrk(r, c0, [(rng.randrange(2), u) for u in us])
        check(mon, b, exp, rng, "mulrk")
    elif k == "spans":
        # every start column of this residue, several lengths
        b, sh, x = mkbook(rng.choice([50, 70, 80])); r = 0
        for c0 in range(i % 16, 256, 16):
            for n in {1, 2, 3, 256 - c0, max(1, (256 - c0) // 2)}:
                if c0 + n > 256: continue
                us = [((rng.getrandbits(28)) << 2) | 2 | rng.getrandbits(1) for _ in range(n)]
                sh.mulrk(r, c0, [(rng.randrange(2), u) for u in us])
                for j, u in enumerate(us): exp[r, c0 + j] = (u64(rk_value(u)), "MULRK span %d+%d" % (c0, n))
                r += 1; mon.count("multi_spans")
        check(mon, b, exp, rng, "mulrk")
    elif k == "num":
        b, sh, x = mkbook(rng.choice(ALL_BV))
        for n in range(1200):
            u = rand_bits(rng); r, c = divmod(n, 40)
            sh.number(r, c, struct.unpack("<d", struct.pack("<Q", u))[0], x); exp[r, c] = (u, "NUMBER %016x" % u)
        check(mon, b, exp, rng, "number")
        mon.sample("NUMBER %016x" % u)
    else:
        b, sh, x = mkbook(rng.choice(ALL_BV))
        for n in range(600):
            u = rand_bits(rng)
            if u >> 48 == 0xFFFF: continue
            r, c = divmod(n, 20)
            sh.formula_num(r, c, struct.unpack("<d", struct.pack("<Q", u))[0], x); exp[r, c] = (u, "FORMULA result %016x" % u)
        check(mon, b, exp, rng, "formula")
