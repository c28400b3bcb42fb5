"""C13 - date serials convert exactly, invert, and fail only as documented."""
import datetime
from fractions import Fraction
from xlmon.util import *
from xlmon.runner import Violation
from xlrd import xldate as X
import xlrd

ID = "C13"; LEVEL = "exploration"
RULE = "distinct = distinct (date system, serial day) pairs judged exhaustively in blocks, plus distinct (function, outcome class, date system, boundary class) situations; the day blocks cover every serial day of both systems in every run"
ASSUMPTIONS = ["the result is rounded to the nearest second (tuple) or millisecond (datetime) before it is classified, ties may go either way",
               "serials in [60, 61) of the 1900 system denote a day that never existed: not judged for the datetime conversion, which documents no exceptions; nor is a bad date mode there",
               "xldate_as_datetime above the year 9999 may raise any error"]
REQUIRED = {"days": 5900000, "times": 86400, "random_serials": 100000, "bad_tuples": 20000, "errors": 20000, "datetimes": 100000}
CASE_TIMEOUT = 300
REACH = False
TOP = (2958466, 2958466 - 1462)
BLOCK = 60000
E0, E1 = datetime.date(1899, 12, 30).toordinal(), datetime.date(1904, 1, 1).toordinal()
D0 = datetime.datetime(1899, 12, 31); D0B = datetime.datetime(1899, 12, 30); D1 = datetime.datetime(1904, 1, 1)

def plan(tier, seed):
    out = []
    for mode in (0, 1):
        for lo in range(0, TOP[mode] + 40, BLOCK): out.append({"kind": "days", "mode": mode, "lo": lo, "hi": min(lo + BLOCK, TOP[mode] + 40), "seed": "x", "i": 0})
    out += specs_for(tier, seed, times=(8, 8), rnd=(120, 6000), bad=(48, 1200), dts=(120, 6000), book=(16, 200))
    return out

CLS = ["XLDateNegative", "XLDateAmbiguous", "XLDateTooLarge", "XLDateBadDatemode", "XLDateBadTuple"]

def call(f, *a):
    try: return f(*a)
    except X.XLDateError as e: return type(e).__name__
    except Exception as e: return "!" + type(e).__name__

def tup_oracle(x, mode):
    """set of acceptable outcomes of xldate_as_tuple"""
    if x == 0: return [(0, 0, 0, 0, 0, 0)]
    if x != x: return ["XLDateError"]              # not a number: out of range in no direction
    if x == float("inf"): return ["XLDateTooLarge"]
    if x < 0: return ["XLDateNegative"]
    fx = Fraction(x); n = int(fx); s = (fx - n) * 86400
    lo = int(s); out = []
    d = s - lo
    if d < Fraction(1, 2) + Fraction(1, 10 ** 5): out.append(lo)
    if d > Fraction(1, 2) - Fraction(1, 10 ** 5): out.append(lo + 1)
    return [classify(n + t // 86400, t % 86400, mode) for t in out]

def classify(day, sec, mode):
    if day >= TOP[mode]: return "XLDateTooLarge"
    h, m, s = sec // 3600, sec // 60 % 60, sec % 60
    if day == 0: return (0, 0, 0, h, m, s)
    if day < 61 and mode == 0: return "XLDateAmbiguous"
    dt = datetime.date.fromordinal((E0 if mode == 0 else E1) + day)
    return (dt.year, dt.month, dt.day, h, m, s)

def judge_tuple(mon, x, mode):
    got = call(X.xldate_as_tuple, x, mode)
    want = tup_oracle(x, int(mode))
    if got not in want or (isinstance(got, tuple) and not all(type(v) is int for v in got)):
        raise Violation("as-tuple", "xldate_as_tuple(%r, %d) gave %r, expected %r" % (x, mode, got, want[0]))
    return got

def run(spec, mon):
    globals()["run_" + spec["kind"]](spec, mon)

def run_days(spec, mon):
    mode, lo, hi = spec["mode"], spec["lo"], spec["hi"]
    at, fd, ad = X.xldate_as_tuple, X.xldate_from_date_tuple, X.xldate_as_datetime
    base = E0 if mode == 0 else E1
    fo = datetime.date.fromordinal
    n = 0
    for day in range(lo, hi):
        if day == 0 or day >= TOP[mode] or (mode == 0 and day < 61):
            judge_tuple(mon, day, mode); judge_tuple(mon, float(day), mode)
            if mode == 0 and 1 <= day < 61 and day not in (60,):
                d = fo(base + day + 1)
                if ad(day, 0) != datetime.datetime(d.year, d.month, d.day): raise Violation("as-datetime", "xldate_as_datetime(%d, 0) gave %r" % (day, ad(day, 0)))
                got = call(fd, (d.year, d.month, d.day), 0) if d.year >= 1900 and (d.month, d.day) <= (2, 28) else "XLDateAmbiguous"
                if got != "XLDateAmbiguous": raise Violation("from-date", "xldate_from_date_tuple(%r, 0) gave %r" % (d, got))
            n += 1; continue
        d = fo(base + day)
        t = (d.year, d.month, d.day)
        g = at(float(day), mode)
        if g != t + (0, 0, 0): raise Violation("as-tuple", "xldate_as_tuple(%d, %d) gave %r, expected %r" % (day, mode, g, t))
        b = fd(t, mode)
        if b != day or type(b) is not float: raise Violation("from-date", "xldate_from_date_tuple(%r, %d) gave %r, expected %d" % (t, mode, b, day))
        if not day % 7 or d.day in (1, 28, 29):
            q = ad(float(day), mode)
            if q != datetime.datetime(*t): raise Violation("as-datetime", "xldate_as_datetime(%d, %d) gave %r, expected %r" % (day, mode, q, t))
        n += 1
    mon.count("days", n); mon.count("comparisons", 2 * n)
    mon.seen("block", (mode, lo))
    mon.sample("every day %d..%d of date system %d" % (lo, hi - 1, mode))

def run_times(spec, mon):
    i = spec["i"]; rng = rng_for(spec)
    for sec in range(i * 10800, (i + 1) * 10800):
        t = (sec // 3600, sec // 60 % 60, sec % 60)
        x = call(X.xldate_from_time_tuple, t)
        if not isinstance(x, float) or abs(Fraction(x) - Fraction(sec, 86400)) > Fraction(1, 2 ** 52): raise Violation("from-time", "xldate_from_time_tuple(%r) gave %r" % (t, x))
        for mode in (0, 1):
            g = X.xldate_as_tuple(x, mode)
            if g != (0, 0, 0) + t: raise Violation("time-inverse", "xldate_as_tuple(xldate_from_time_tuple(%r)) gave %r" % (t, g))
            day = rng.randint(61, TOP[mode] - 1)
            d = datetime.date.fromordinal((E0 if mode == 0 else E1) + day)
            full = (d.year, d.month, d.day) + t
            y = X.xldate_from_datetime_tuple(full, mode)
            if abs(Fraction(y) - day - Fraction(sec, 86400)) > Fraction(1, 10 ** 8): raise Violation("from-datetime", "xldate_from_datetime_tuple(%r, %d) gave %r" % (full, mode, y))
            if X.xldate_as_tuple(y, mode) != full: raise Violation("datetime-inverse", "xldate_as_tuple(xldate_from_datetime_tuple(%r, %d)) gave %r" % (full, mode, X.xldate_as_tuple(y, mode)))
            if X.xldate_as_datetime(y, mode) != datetime.datetime(*full): raise Violation("datetime-inverse", "xldate_as_datetime(xldate_from_datetime_tuple(%r, %d)) gave %r" % (full, mode, X.xldate_as_datetime(y, mode)))
            z = X.xldate_from_datetime_tuple((0, 0, 0) + t, mode)
            if z != x: raise Violation("from-datetime", "xldate_from_datetime_tuple((0,0,0)+%r) gave %r" % (t, z))
        mon.count("times"); mon.count("comparisons", 9)
    mon.seen("timeblock", i)

def serial(rng, mode):
    k = rng.random()
    if k < .3: return rng.uniform(0, TOP[mode])
    if k < .5: return rng.uniform(0, 70)
    if k < .65: return rng.randint(0, TOP[mode] + 1) + rng.choice([0, 1e-9, -1e-9, .5, 1 / 86400., .5 / 86400, .49999 / 86400, .50001 / 86400, 1 - .4999 / 86400, 1 - .5001 / 86400, 1 - 1e-9])
    if k < .75: return rng.choice([0, 1, 59, 60, 61, TOP[mode], TOP[mode] - 1, TOP[mode] - 1462]) + rng.uniform(-1.5, 1.5) * rng.choice([1, 1e-3, 1e-6, 1e-9])
    if k < .85: return rng.randint(0, TOP[mode]) + rng.randint(0, 86399) / 86400. + rng.uniform(-1, 1) / 86400
    if k < .9: return rng.choice([-1, -.5, -1e-300, -5e-324, -0.0, 0.0, 5e-324, 1e-300, 1e300, float("inf"), float("-inf"), float("nan"), 1e10, 2.0 ** 31, 2.0 ** 63, 1e17, -1e300, 0, 1, 60, 61, -1, 2958465, 2958466])
    return rand_double(rng)

def run_rnd(spec, mon):
    rng = rng_for(spec)
    for _ in range(2500):
        mode = rng.randint(0, 1)
        x = serial(rng, mode)
        if rng.random() < .05 and abs(x) < 1e308: x = int(x)
        g = judge_tuple(mon, x, mode)
        mon.seen("situation", ("as_tuple", g if isinstance(g, str) else "date" if g[0] else "time", mode, type(x).__name__))
        if isinstance(g, str): mon.count("errors")
        elif g[0]:
            y = X.xldate_from_datetime_tuple(g, mode)
            if abs(y - x) > .5001 / 86400: raise Violation("datetime-inverse", "xldate_from_datetime_tuple(xldate_as_tuple(%r, %d)) gave %r" % (x, mode, y))
        mon.count("random_serials"); mon.count("comparisons", 2)
        bad = rng.choice([2, -1, None, "0", 0.5, 3, 1904, 1900, (), "1"])
        for f, a in ((X.xldate_as_tuple, (x, bad)), (X.xldate_from_date_tuple, ((2000, 1, 1), bad)), (X.xldate_from_datetime_tuple, ((2000, 1, 1, 0, 0, 0), bad))):
            if rng.random() < .1:
                g = call(f, *a)
                if g != "XLDateBadDatemode": raise Violation("bad-datemode", "%s%r gave %r" % (f.__name__, a, g))
                mon.count("errors"); mon.seen("situation", (f.__name__, "datemode", str(bad)))

def run_dts(spec, mon):
    rng = rng_for(spec)
    for _ in range(2500):
        mode = rng.randint(0, 1)
        x = abs(serial(rng, mode))
        if mode == 0 and 60 <= x < 61: continue
        if not x < TOP[mode] - 1e-4:
            g = call(X.xldate_as_datetime, x, mode)
            if isinstance(g, datetime.datetime) and x > TOP[mode]: raise Violation("as-datetime", "xldate_as_datetime(%r, %d) gave %r" % (x, mode, g))
            mon.count("errors"); continue
        fx = Fraction(x); ms = fx * 86400000; n = int(ms); d = ms - n
        out = []
        if d < Fraction(1, 2) + Fraction(1, 1000): out.append(n)
        if d > Fraction(1, 2) - Fraction(1, 1000): out.append(n + 1)
        ep = D1 if mode else D0 if x < 60 else D0B
        want = [ep + datetime.timedelta(milliseconds=t) for t in out]
        g = call(X.xldate_as_datetime, x, mode)
        if g not in want: raise Violation("as-datetime", "xldate_as_datetime(%r, %d) gave %r, expected %r" % (x, mode, g, want[0]))
        if (mode or x >= 61) and x >= 1:
            t = X.xldate_as_tuple(x, mode)
            if t[0] and abs(datetime.datetime(*t) - g) > datetime.timedelta(milliseconds=502): raise Violation("disagree", "xldate_as_tuple(%r, %d) gave %r but xldate_as_datetime %r" % (x, mode, t, g))
        mon.count("datetimes"); mon.count("comparisons", 2); mon.seen("situation", ("as_datetime", mode, x < 1, x < 60, x < 61))

def run_bad(spec, mon):
    rng = rng_for(spec)
    for _ in range(2500):
        mode = rng.randint(0, 1)
        y = rng.choice([0, -1, 1, 1899, 1900, 1903, 1904, 1905, 2000, 1996, 2100, 9999, 10000, 99999, rng.randint(1895, 2105), rng.randint(1900, 9999)])
        m = rng.choice([0, -1, 1, 2, 2, 3, 4, 11, 12, 13, rng.randint(1, 12)]); d = rng.choice([0, -1, 1, 2, 28, 29, 30, 31, 32, rng.randint(1, 31)])
        try: o = datetime.date(y, m, d).toordinal() if 1900 <= y else None
        except ValueError: o = None
        if (y, m, d) == (0, 0, 0): want = 0.0
        elif o is None: want = "XLDateBadTuple"
        else:
            n = o - (E0 if mode == 0 else E1)
            want = "XLDateBadTuple" if n <= 0 else "XLDateAmbiguous" if mode == 0 and n < 61 else float(n)
        g = call(X.xldate_from_date_tuple, (y, m, d), mode)
        if g != want: raise Violation("from-date", "xldate_from_date_tuple(%r, %d) gave %r, expected %r" % ((y, m, d), mode, g, want))
        t = tuple(rng.choice([0, -1, 1, hi - 1, hi, hi + 1, rng.randint(0, hi)]) for hi in (24, 60, 60))
        ok = all(0 <= v < hi for v, hi in zip(t, (24, 60, 60)))
        g = call(X.xldate_from_time_tuple, t)
        if (g == "XLDateBadTuple") is ok or (ok and not isinstance(g, float)): raise Violation("from-time", "xldate_from_time_tuple(%r) gave %r" % (t, g))
        g = call(X.xldate_from_datetime_tuple, (y, m, d) + t, mode)
        w = want if isinstance(want, str) else "XLDateBadTuple" if not ok else want + X.xldate_from_time_tuple(t)
        if g != w: raise Violation("from-datetime", "xldate_from_datetime_tuple(%r, %d) gave %r, expected %r" % ((y, m, d) + t, mode, g, w))
        mon.count("bad_tuples"); mon.count("comparisons", 3)
        mon.seen("situation", ("from_date", want if isinstance(want, str) else "ok", mode, y == 1900, m, d > 28)); mon.seen("situation", ("from_time", t, ok))
    for nm in CLS:
        c = getattr(X, nm)
        mon.check(issubclass(c, X.XLDateError) and issubclass(c, ValueError), "hierarchy", "%s is not an XLDateError" % nm)
    mon.check(xlrd.xldate_as_tuple is X.xldate_as_tuple and xlrd.xldate_as_datetime is X.xldate_as_datetime and xlrd.XLDateError is X.XLDateError, "exports", "package-level names differ from xlrd.xldate")

def run_book(spec, mon):
    """the serials and date mode of a workbook's date cells convert to the written dates"""
    rng = rng_for(spec)
    bv = (80, 70, 50, 40, 30, 21)[spec["i"] % 6]
    b = BookB(bv); mode = rng.randint(0, 1); b.datemode = mode
    if bv < 50: b.add_format(0, "General"); b.add_format(1, "yyyy-mm-dd")
    b.add_xf(0); b.add_xf(1 if bv < 50 else 14)
    sh = b.sheet("D"); sh.dims = (300, 1); D = []
    for r in range(200):
        day = rng.randint(61, TOP[mode] - 1); sec = rng.randint(0, 86399)
        sh.number(r, 0, day + sec / 86400., 1)
        D.append(datetime.datetime.fromordinal((E0 if mode == 0 else E1) + day) + datetime.timedelta(seconds=sec))
    bk = open_bytes(wrap(b.stream(rng), bv)); s = bk.sheet_by_index(0)
    mon.equal(bk.datemode, mode, "datemode", "datemode")
    for r, d in enumerate(D):
        c = s.cell(r, 0)
        if c.ctype != DATE or X.xldate_as_datetime(c.value, bk.datemode) != d or X.xldate_as_tuple(c.value, bk.datemode) != (d.year, d.month, d.day, d.hour, d.minute, d.second):
            raise Violation("book-date", "date cell %r converts to %r, written %r" % (c, X.xldate_as_tuple(c.value, bk.datemode), d))
        mon.count("comparisons", 2)
