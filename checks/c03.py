"""C03 - shared strings decode exactly for every record-continuation layout."""
from xlmon.util import *
from xlmon.runner import Violation, short
from xlmon import sst as SST

ID = "C03"; LEVEL = "exploration"
RULE = ("distinct = distinct (break kinds, width switches, table shape) signatures of generated string tables; the 'enum' cases place one forced record "
        "boundary at every legal byte position of a table, the 'pair' cases two")
ASSUMPTIONS = ["The continuation rules are those of the BIFF8 format: a new width flag after a break inside characters, none inside runs or phonetic bytes, "
               "string headers and 4-byte runs never broken; lib/xlmon/sst.py carries its own reference decoder used to self-check the writer",
               "Run lists are judged for cells stored once"]
REQUIRED = {"strings_exact": 5000, "runs_exact": 300, "break:in-chars": 300, "width:0->1": 50, "width:1->0": 50, "break:before-run": 20,
            "break:before-first-run": 10, "break:in-phonetic": 10, "break:before-phonetic": 5, "break:before-string": 50, "surrogate_pairs_split": 1, "rstring_cells": 1000, "extended_labels": 300}
CASE_TIMEOUT = 90

def plan(tier, seed):
    return specs_for(tier, seed, rand=(4000, 30000), enum=(1000, 6000), pair=(480, 3000), big=(24, 300), huge=(6, 40), cells=(900, 12000))

ALPH = ["abcdef", "é ñ ü", "ЖЯ日本", "a日", "\x00\x01\xff", "\u0100\u00ff\u0101", "😀𝄞", "ab😀", "\U00020000\U000f0000\U0010fffd\U0010ffff\U00010000", "\ud7ff\ue000\uffff\ufffe\ufeff"]

def rand_strings(rng, n, maxlen):
    out = []
    for _ in range(n):
        p = rng.choice(ALPH)
        t = "".join(rng.choice(p) for _ in range(rng.choice([0, 1, 2, 3, rng.randint(0, maxlen), rng.randint(0, maxlen)])))
        L = u16len(t)
        runs = None
        if rng.random() < .35:
            runs = sorted((rng.randint(0, L), rng.randint(0, 300) if rng.random() < .9 else rng.choice([255, 256, 32767, 32768, 65535])) for _ in range(rng.choice([0, 1, 2, 5, 40])))
        pho = rng.randbytes(rng.choice([0, 1, 4, 20, 60, 300])) if rng.random() < .25 else None
        out.append((t, runs, pho, rng.random() < .3))
    return out

def check_table(mon, strings, recs, rng, how, fmts=(False, True), extra=()):
    # self-check of the writer against its reference decoder
    ref = SST.reference_decode(recs)
    assert [r[0] for r in ref] == [s[0] for s in strings], "writer self-check failed"
    b = BookB(80)
    b.sst = strings
    b.sst_recs = recs
    if rng.random() < .3: b.post.append(rec(0xFF, rng.randbytes(10)))   # EXTSST comes after the table in practice; position is free
    sh = b.sheet("S")
    n = len(strings)
    used = {}
    order = list(range(n))
    if rng.random() < .5: rng.shuffle(order)
    w = rng.choice([1, 3, 7, 256])
    for i, ix in enumerate(order):
        sh.labelsst(i // w, i % w, ix); used[i // w, i % w] = ix
    for _ in range(min(n, 5)):
        p = (n // w + 1 + rng.randint(0, 3), rng.randrange(w))
        if p not in used:
            used[p] = rng.randrange(n); sh.labelsst(p[0], p[1], used[p])
    sh.number(n // w + 6, 0, 3.5)
    data = b.stream(rng)
    for fmt in fmts:
        bk = open_bytes(data, formatting_info=fmt, on_demand=bool(rng.getrandbits(1)), ragged_rows=bool(rng.getrandbits(1)))
        s = bk.sheet_by_index(0)
        for (r, c), ix in used.items():
            v = s.cell_value(r, c)
            if s.cell_type(r, c) != 1 or v != strings[ix][0] or type(v) is not str:
                raise Violation("text", "%s: string %d of %d (%d units, rich %r, phonetic %r) reads %s, stored %s; record sizes %r" % (
                    how, ix, n, u16len(strings[ix][0]), strings[ix][1] and len(strings[ix][1]), strings[ix][2] and len(strings[ix][2]),
                    ascii(v)[:200], ascii(strings[ix][0])[:200], [len(x) for x in recs][:30]))
            mon.count("strings_exact")
        mon.count("assertions", len(used))
        mon.equal(s.cell_value(n // w + 6, 0), 3.5, "after-strings", how)
        want = {p: strings[ix][1] for p, ix in used.items() if strings[ix][1]} if fmt else {}
        got = {k: [tuple(x) for x in v] for k, v in s.rich_text_runlist_map.items()}
        if got != want:
            bad = [k for k in set(got) | set(want) if got.get(k) != want.get(k)][0]
            raise Violation("runs", "%s: formatting_info=%s cell %r reports runs %r, stored %r; record sizes %r" % (
                how, fmt, bad, got.get(bad), want.get(bad), [len(x) for x in recs][:30]))
        mon.count("runs_exact", len(want)); mon.count("assertions")

class Forced(SST.Writer):
    """breaks where told: successive record capacities"""
    def __init__(self, rng, caps, stats):
        self.caps = list(caps)
        SST.Writer.__init__(self, rng, 8224, 0, True, stats)
    def newcap(self):
        return self.caps.pop(0) if self.caps else 8224

class ForcedMix(Forced):
    """as Forced, with a random width after each break"""
    def want(self, scale=1.0): return False

def write(strings, w, rng):
    w.cur += pack("<ii", len(strings), len(strings))
    for s in strings: w.string(*s)
    w.recs.append(bytes(w.cur))
    return w.recs

def note(mon, stats, strings, recs):
    for k, v in stats.items(): mon.count(k, v)
    # surrogate pairs split over a boundary?
    mon.count("tables")
    mon.seen("table", (tuple(sorted(stats)), min(len(recs), 6), sum(1 for s in strings if s[1]) > 0, sum(1 for s in strings if s[2]) > 0))

def run_cells(mon, rng, i):
    """text stored in the cell records themselves, rich or plain, next to shared strings"""
    bv = (50, 70, 80, 80)[i % 4]
    b = BookB(bv, codepage=None if bv == 80 else 1252)
    sh = b.sheet("S"); st = [s for s in rand_strings(rng, 6, 30)]
    if bv == 80:
        b.sst = st; b.sst_recs = sst_records(st, rng, p=rng.choice([0, .3]))
    texts, runs = {}, {}
    lim = 8000 if bv == 80 else 2000
    for _ in range(rng.randint(1, 40)):
        p = (rng.randint(0, 30), rng.randint(0, 30))
        if p in texts: continue
        q = rng.random()
        if q < .3 and bv == 80:
            ix = rng.randrange(len(st)); sh.labelsst(p[0], p[1], ix); texts[p] = st[ix][0]
            if st[ix][1]: runs[p] = st[ix][1]
            continue
        n = rng.choice([0, 1, 2, 7, rng.randint(0, 60), rng.randint(0, 60), lim if rng.random() < .2 else 255, 256])
        t = "".join(rng.choice(rng.choice(ALPH) if bv == 80 else "abc é\x00\xff") for _ in range(n))
        while u16len(t) > (4000 if any(ord(c) > 255 for c in t) else lim): t = t[:len(t) // 2]
        texts[p] = t
        ext = {}                       # strings of these records may carry runs and phonetic data as well
        if bv >= 80 and rng.random() < .3:
            if rng.random() < .6: ext["rich"] = [(rng.randint(0, 9), rng.randint(0, 300)) for _ in range(rng.choice([0, 1, 2, 5, 40]))]
            if rng.random() < .6: ext["pho"] = rng.randbytes(rng.choice([0, 1, 2, 6, 10, 33, 300]))
            if ext: mon.count("extended_labels")
        if q < .5: sh.label(p[0], p[1], t, force16=rng.random() < .2, **ext)
        else:
            top = 255 if bv < 80 else 65535
            rr = [(rng.randint(0, min(top, u16len(t))), rng.choice([0, 1, 5, 200, 255] + [256, 300, 65535] * (bv == 80))) for _ in range(rng.choice([0, 1, 1, 2, 5, (rng.choice([255, 256, 300, 700]) if bv == 80 else 255) if u16len(t) < 1000 else 20]))]
            if rng.random() < .8: rr.sort()
            runs[p] = rr; sh.rstring(p[0], p[1], t, rr, force16=rng.random() < .2, **ext); mon.count("rstring_cells")
    data = wrap(b.stream(rng), bv)
    for fmt in (False, True):
        s = open_bytes(data, formatting_info=fmt, ragged_rows=rng.random() < .5, on_demand=rng.random() < .3).sheet_by_index(0)
        for p, t in texts.items():
            v = s.cell_value(*p)
            if s.cell_type(*p) != 1 or v != t or type(v) is not str: raise Violation("cell-text", "BIFF%d cell %r reads %s, stored %s" % (bv, p, ascii(v)[:200], ascii(t)[:200]))
            mon.count("strings_exact")
        if fmt:
            got = {k: [tuple(x) for x in v] for k, v in s.rich_text_runlist_map.items() if v}; want = {k: v for k, v in runs.items() if v}
            for p in set(got) | set(want):
                if got.get(p) != want.get(p): raise Violation("runs", "BIFF%d: cell %r (%s) reports runs %s, stored %s" % (bv, p, ascii(texts.get(p))[:60], short(got.get(p), 200), short(want.get(p), 200)))
                mon.count("assertions")
            mon.count("runs_exact", len(want))
    mon.seen("cells", (bv, len(texts) > 10, len(runs) > 3))

def run(spec, mon):
    rng = rng_for(spec)
    k = spec["kind"]
    if k == "cells": return run_cells(mon, rng, spec["i"])
    if k == "rand":
        for _ in range(6):
            st = rand_strings(rng, rng.choice([1, 2, 5, 20]), rng.choice([5, 30, 200]))
            stats = {}
            recs = sst_records(st, rng, total=rng.choice([None, 0, 999]), maxlen=rng.choice([16, 30, 100, 1000, 8224]), p=rng.choice([0, .05, .3, .8]), stats=stats, always=True)
            check_table(mon, st, recs, rng, "random layout"); note(mon, stats, st, recs)
        mon.sample("%d strings over %d records %r" % (len(st), len(recs), stats))
    elif k in ("enum", "pair"):
        st = rand_strings(rng, rng.choice([2, 3, 4]), 12)
        fixed = [("ab😀c日", [(0, 1), (2, 3)], b"phonetic", False), ("xyz", [(1, 2)], None, True), ("日本語", None, b"12345678", False), ("tail", None, None, False)]
        if rng.random() < .5: st = fixed
        whole = sum(len(x) for x in write(st, Forced(rng, [], {}), rng))
        caps = range(8, whole + 2)
        if k == "pair":
            allp = [(a, c) for a in caps for c in (1, 2, 3, 4, 5, 6, 7, 9, 12)]
            caps = rng.sample(allp, min(40, len(allp)))
        for c in caps:
            stats = {}
            cc = (c,) if isinstance(c, int) else c
            recs = write(st, Forced(rng, cc, stats), rng)
            if any(len(x) == 0 for x in recs): continue
            check_table(mon, st, recs, rng, "break after %r bytes" % (cc,), fmts=(True,) if k == "pair" else (False, True)); note(mon, stats, st, recs)
            mon.count("forced_boundaries")
            for a, b2 in zip(recs, recs[1:]):
                if len(a) >= 2 and 0xD8 <= a[-1] <= 0xDB and b2[:1] == b"\1" and len(b2) >= 3 and 0xDC <= b2[2] <= 0xDF: mon.count("surrogate_pairs_split")
    elif k == "big":
        st = rand_strings(rng, rng.choice([300, 1500]), 80)
        stats = {}
        recs = sst_records(st, rng, p=rng.choice([0, 0, .01]), stats=stats)
        check_table(mon, st, recs, rng, "large table"); note(mon, stats, st, recs)
    else:
        st = rand_strings(rng, 6, 30) + [("".join(rng.choice("ab日é") for _ in range(rng.choice([8224, 32767, 30000, 65535]))), None, None, False) for _ in range(4)]
        st += [("r" * 5000, [(i, 1) for i in range(4000)], rng.randbytes(30000), False), ("z", None, None, False)]
        stats = {}
        recs = sst_records(st, rng, p=rng.choice([0, .002]), stats=stats)
        check_table(mon, st, recs, rng, "very long strings"); note(mon, stats, st, recs)
