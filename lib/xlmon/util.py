"""Shared helpers for the checks (imports the library under test)."""
import io, os, random, sys, tempfile, shutil
import xlrd
from .build import *
from . import fmtrecs, ole, observe as O

NULL = io.StringIO()

class Null(object):
    def write(self, s): return len(s)
    def flush(self): pass
LOG = Null()

def open_bytes(data, **kw):
    kw.setdefault("logfile", LOG)
    return xlrd.open_workbook(file_contents=data, **kw)

def wrap(stream, bv, rng=None, layout=None):
    """put a BIFF5+ stream into a compound file (older streams are bare files)"""
    if bv < 50 and bv != 45: return stream
    nm = "Workbook" if bv >= 80 else "Book"
    return ole.simple(stream, nm) if layout is None else ole.build([ole.stream(nm, stream)], layout).data

def expected_rows(g, nr, nc, fmt, ragged):
    """grid expectation {(r,c): (type, value, xf)} -> rows of (types, values)"""
    byrow = {}
    for (r, c), v in g.items(): byrow.setdefault(r, {})[c] = v
    rows = []
    for r in range(nr):
        d = byrow.get(r, {})
        n = (max(d) + 1 if d else 0) if ragged else nc
        rows.append(([d[c][0] if c in d else 0 for c in range(n)], [d[c][1] if c in d else "" for c in range(n)]))
    return rows

class Scratch(object):
    """private temporary directory, removed on exit"""
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="xlmon-")
        return self.d
    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

TEXTS = ["", "a", "Hello", "x" * 300, "Grüße", "naïve café", "日本語テキスト", "mixed Ж and é", "line\nbreak\ttab", "\u20ac1.50",
         "A😀B", "\U0010fffd\U000f0000Z", "\ufeffbom", "nul\0inside", "'quoted'", "\x7f\x80\xff", "ÀÁ", "\u0100", "0", "TRUE", "#N/A", " lead trail "]

def rand_text(rng, enc=None, maxlen=60, astral=True):
    k = rng.random()
    if k < .25: t = rng.choice(TEXTS)
    elif k < .6: t = "".join(rng.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJ 0123456789_-.,") for _ in range(rng.randint(1, maxlen)))
    else:
        pools = ["abcXYZ", "éüñßÿ", "ЖЯдф", "中文日本", "€‰™", "אבג", "ไทย"]
        p = "".join(rng.sample(pools, rng.randint(1, 3)))
        t = "".join(rng.choice(p) for _ in range(rng.randint(1, maxlen)))
    if not astral: t = "".join(c for c in t if ord(c) < 0x10000)
    if enc is not None:
        t = "".join(c for c in t if can(c, enc))
    return t

_can = {}
def can(c, enc):
    k = (c, enc)
    r = _can.get(k)
    if r is None:
        try: r = c.encode(enc).decode(enc) == c
        except (UnicodeError, LookupError): r = False
        _can[k] = r
    return r

def rand_double(rng):
    import struct, math
    k = rng.random()
    if k < .2: return float(rng.randint(-1000, 1000))
    if k < .35: return rng.uniform(-1e6, 1e6)
    if k < .5: return round(rng.uniform(-1e5, 1e5), 2)
    if k < .6: return rng.choice([0.0, -0.0, float("inf"), float("nan"), 1.0, -1.0, .1, 1e308, -1e308, 5e-324, 2.2250738585072014e-308, 1e-300, 536870911.0, 536870912.0, -536870912.0, -536870913.0, 5368709.11, 2.0 ** 53, 1 / 3])
    v = struct.unpack("<d", struct.pack("<Q", rng.getrandbits(64)))[0]
    if v != v or math.isinf(v): return rng.choice([float("inf"), float("-inf"), float("nan")])   # Excel writes none, other programs do
    return v

def rng_for(spec, *salt):
    return random.Random("/".join(str(x) for x in (spec.get("kind"), spec["seed"]) + salt))

def specs_for(tier, seed, **kinds):
    """kinds: name=(quick count, thorough count); interleaved, deterministic.  A
    spec's own seed depends only on (seed, kind, index)."""
    out = []
    t = 0 if tier == "quick" else 1
    for k, n in kinds.items():
        n = n[t]
        for i in range(n): out.append(((i + .5) / n, k, {"kind": k, "seed": "%d.%s.%d" % (seed, k, i), "i": i}))
    out.sort(key=lambda x: (x[0], x[1]))
    return [x[2] for x in out]

def outcome(f, *a, **kw):
    """('ok', result) or ('exc', exception); KeyboardInterrupt etc. propagate"""
    try:
        return "ok", f(*a, **kw)
    except MemoryError:
        raise
    except Exception as e:
        return "exc", e

import signal
class TooLong(BaseException):
    """not an Exception: nothing in the library may swallow it"""
class limit(object):
    """context manager: at most `seconds` of wall time (main thread of a worker)"""
    def __init__(self, seconds): self.s = seconds
    def __enter__(self):
        def ring(*a): raise TooLong()
        self.old = signal.signal(signal.SIGALRM, ring)
        signal.setitimer(signal.ITIMER_REAL, self.s)
    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)

def guarded(mon, what, f, seconds=20):
    """run f() under the liveness monitor: returns ('ok', r) / ('exc', e); a hang,
    memory exhaustion, recursion overflow or non-Exception exit is a violation"""
    from .runner import Violation
    mon.count("liveness_checked")
    try:
        with limit(seconds):
            try:
                return "ok", f()
            except RecursionError as e:
                raise Violation("recursion", "%s: RecursionError" % what)
            except MemoryError:
                raise Violation("memory", "%s: MemoryError (memory cap of the worker reached)" % what)
            except Violation:
                raise
            except Exception as e:
                return "exc", e
            except TooLong:
                raise
            except BaseException as e:
                raise Violation("non-error-exit", "%s: %s raised" % (what, type(e).__name__))
    except TooLong:
        raise Violation("hang", "%s: still running after %d s" % (what, seconds))
