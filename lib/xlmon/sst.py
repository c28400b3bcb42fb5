"""Shared-string-table writer: lays strings out over SST + CONTINUE payloads.

strings: (text, runs|None, phonetic|None, force16).  Every continuation rule
of the format is exercised: a break may fall between strings, between any two
characters (the continuation then starts with a fresh width flag), between
rich-text runs, and anywhere in the phonetic bytes.
"""
import struct
pack = struct.pack


def is_surrogate_split(units, i):
    return 0 < i < len(units) // 2 and 0xD8 <= units[2 * i - 1] <= 0xDB and 0xDC <= units[2 * i + 1] <= 0xDF


class Writer(object):
    def __init__(self, rng, maxlen, p, allow_surrogate_split=True, stats=None, count=None):
        self.rng, self.maxlen, self.p = rng, maxlen, p
        self.recs = []
        self.cur = bytearray()
        self.cap = self.newcap()
        self.sur = allow_surrogate_split
        self.stats = stats if stats is not None else {}

    def newcap(self):
        if self.p and self.rng.random() < .5: return min(self.maxlen, self.rng.choice([12, 20, 64, 200, 1000]))
        return self.maxlen

    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def brk(self, why):
        self.stat("break:" + why)
        self.recs.append(bytes(self.cur))
        self.cur = bytearray()
        self.cap = self.newcap()

    def room(self):
        return self.cap - len(self.cur)

    def want(self, scale=1.0):
        return self.p and self.rng.random() < self.p * scale

    def string(self, text, runs, pho, force16):
        rng = self.rng
        units = text.encode("utf-16le", "surrogatepass")
        n = len(units) // 2
        hdr = 3 + (2 if runs is not None else 0) + (4 if pho is not None else 0)
        # (a table whose first record holds only the counts is never written)
        if self.cur and (self.recs or len(self.cur) > 8) and (self.room() < hdr or self.want()):
            self.brk("before-string")
        def lead(i):            # compressible characters from i on
            k = i
            while k < n and units[2 * k + 1] == 0: k += 1
            return k - i
        def segment(i, wide, room):
            """number of characters to put here"""
            t = min(room // 2 if wide else room, n - i)
            if not wide: t = min(t, lead(i))
            t = max(t, 0)
            if t < n - i or (t > 0 and self.want()):
                if t > 0 and self.want(): t = rng.randint(0 if i == 0 else 1, t)
            if not self.sur and is_surrogate_split(units, i + t): t -= 1
            return max(t, 0)
        all8 = lead(0) == n
        def width(i, first):
            if i < n and units[2 * i + 1]: 
                return 1
            if all8:
                if force16: return 1
                return 1 if self.want(.4) else 0
            if lead(i) == n - i or self.p:
                return rng.randint(0, 1)
            return 1 if not self.p else rng.randint(0, 1)
        w = width(0, True) if n else int(bool(force16))
        if not all8 and not self.p: w = 1
        t = segment(0, w, self.room() - hdr)
        self.cur += pack("<HB", n, w | (8 if runs is not None else 0) | (4 if pho is not None else 0))
        if runs is not None: self.cur += pack("<H", len(runs))
        if pho is not None: self.cur += pack("<i", len(pho))
        blob = units[:2 * t]
        self.cur += blob if w else blob[::2]
        i = t
        if i < n and i == 0: self.stat("split:at-first-char")
        guard = 0
        while i < n:
            pw = w
            self.brk("in-chars")
            w = width(i, False)
            if not all8 and not self.p: w = 1
            if w != pw: self.stat("width:%d->%d" % (pw, w))
            t = segment(i, w, self.room() - 1)
            self.cur.append(w)
            if t == 0:
                guard += 1
                t = 1
                if not self.sur and is_surrogate_split(units, i + 1): t = 2
                if not w and units[2 * i + 1]: raise AssertionError
            blob = units[2 * i:2 * (i + t)]
            self.cur += blob if w else blob[::2]
            i += t
        if runs is not None:
            for k, r in enumerate(runs):
                if self.room() < 4 or (self.cur and self.want()):
                    self.brk("before-run" if k else "before-first-run")
                self.cur += pack("<HH", *r)
        if pho is not None:
            j = 0
            pieces = 0
            while j < len(pho):
                if self.room() <= 0 or (self.cur and self.want()):
                    self.brk("in-phonetic" if j else "before-phonetic"); pieces += 1
                k = min(self.room(), len(pho) - j)
                if k > 1 and self.want(): k = rng.randint(1, k)
                self.cur += pho[j:j + k]
                j += k
            if pieces > 1: self.stat("phonetic-over-%s-records" % min(pieces + 1, 4))


def sst_records(strings, rng, total=None, maxlen=8224, p=0.0, surrogate_split=True, stats=None, always=False):
    if not strings and not always: return []
    w = Writer(rng, maxlen, p, surrogate_split, stats)
    w.cur += pack("<ii", len(strings) if total is None else total, len(strings))
    for s in strings: w.string(*s)
    w.recs.append(bytes(w.cur))
    return w.recs


def reference_decode(recs):
    """Independent decoder used to self-test the writer."""
    total, n = struct.unpack("<ii", recs[0][:8])
    ri, pos = 0, 8
    out = []
    def norm():
        nonlocal ri, pos
        while pos >= len(recs[ri]) and ri + 1 < len(recs):
            pos -= len(recs[ri]); ri += 1
    for _ in range(n):
        norm()
        nch, fl = struct.unpack("<HB", recs[ri][pos:pos + 3]); pos += 3
        nr = np = 0
        if fl & 8: nr, = struct.unpack("<H", recs[ri][pos:pos + 2]); pos += 2
        if fl & 4: np, = struct.unpack("<i", recs[ri][pos:pos + 4]); pos += 4
        units = b""
        w = fl & 1
        while len(units) // 2 < nch:
            if pos >= len(recs[ri]):
                ri += 1; w = recs[ri][0]; pos = 1
            if w: units += recs[ri][pos:pos + 2]; pos += 2
            else: units += bytes([recs[ri][pos], 0]); pos += 1
        runs = []
        for _ in range(nr):
            norm()
            runs.append(struct.unpack("<HH", recs[ri][pos:pos + 4])); pos += 4
        k = np
        while k:
            norm()
            t = min(k, len(recs[ri]) - pos); pos += t; k -= t
        out.append((units.decode("utf-16le", "surrogatepass"), runs if fl & 8 else None))
    return out
