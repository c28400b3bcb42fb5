"""C21 - file type detection is exact and refuses other formats by name."""
import io, mmap, pathlib, zipfile
from xlmon.randbook import *
from xlmon.runner import Violation, same, short, REPO
import xlrd

ID = "C21"; LEVEL = "exploration"
RULE = "distinct = distinct (leading bytes) or (set of member names, zip features) inspected as a path and as bytes"
ASSUMPTIONS = ["a zip is a file that starts with the local-file signature and has a directory that Python's zip reader can read; anything else is unknown content",
               "member names differ from the expected ones by ASCII case and slashes only", "a zip with the marks of several formats answers one of them"]
REQUIRED = {"inspected": 60000, "xls": 150, "xlsx": 300, "xlsb": 300, "ods": 300, "zip": 800, "unknown": 60000, "refused": 1200, "opened": 400, "raw_opened": 150, "unreadable": 400, "near_names": 600, "broken": 100, "no_zip": 100, "still_zip": 10}
CASE_TIMEOUT = 120
SIG = b"\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1"; PK = b"PK\x03\x04"
MARK = {"xlsx": "xl/workbook.xml", "xlsb": "xl/workbook.bin", "ods": "content.xml"}
WORD = {"xlsx": "xlsx", "xlsb": "xlsb", "ods": "ods", "zip": "zip"}

def plan(tier, seed):
    lead = [{"kind": "lead", "seed": "%d.lead.%d" % (seed, i), "i": i} for i in range(16)] + [{"kind": "bits", "seed": "%d.bits.%d" % (seed, i), "i": i} for i in range(12)]
    return lead + specs_for(tier, seed, members=(21000, 250000), books=(2700, 25000), junk=(3600, 40000))

def spell(rng, name):
    """the name with random case and slashes"""
    k = rng.random()
    if k < .2: return name
    f = rng.choice([str.upper, str.title, lambda s: "".join(rng.choice([c.upper(), c]) for c in s), str])
    return f(name).replace("/", rng.choice(["/", "\\"]))

NEAR = ["xl/workbook.xml.rels", "xl/_rels/workbook.xml.rels", "xl/workbook", "xl/workbook.xm", "xl/workbook.xmlx", "axl/workbook.xml", "x/xl/workbook.xml", "xl/x/workbook.xml", "xl//workbook.xml", "/xl/workbook.xml", "./xl/workbook.xml",
        "xl/workbook.xml/", "xl/workbook.xml ", " xl/workbook.xml", "workbook.xml", "xl/workbooks.xml", "xlworkbook.xml", "xl_workbook.xml", "xl|workbook.xml", "xl/workbook.bin.x", "xl/workbook.binx", "xl/workbook.bi", "a/xl/workbook.bin",
        "workbook.bin", "xl/content.xml", "content.xm", "content.xmls", "acontent.xml", "a/content.xml", "contents.xml", "content_xml", "content.xml/", "content.xml/a", "/content.xml", "xl/worksheets/sheet1.xml", "xl/styles.xml", "meta.xml",
        "mimetype", "[Content_Types].xml", "_rels/.rels", "xl/vbaProject.bin", "word/document.xml", "content.xml.bak", "Content.xhtml", "xl/workbook.xml\\x", "xl", "xl/", "", "ünï/cödé.xml", "xl/workbook.xml:x", "xl\\_rels\\workbook.bin"]

def norm(n): return n.replace("\\", "/").lower()

def damage(rng, data):
    """a zip archive that may be none any more"""
    k = rng.random()
    if k < .35: return data[:rng.randrange(4, len(data))]
    if k < .5: return data[:30] + rng.randbytes(40)
    x = bytearray(data); cd = x.rfind(b"PK\5\6") if k < .9 else 0
    for _ in range(rng.choice([1, 1, 2, 4])):
        j = rng.choice([rng.randrange(4, len(x)), rng.randrange(max(4, cd), len(x)), rng.randrange(max(4, cd - 60), len(x))])
        x[j] = rng.choice([0, 1, 0x80, 0xFF, rng.randrange(256)])
    return bytes(x)

class Zi(zipfile.ZipInfo):
    pass

def make_zip(rng, names):
    """zip bytes with exactly these member names, in this order (starting with a local header)"""
    f = io.BytesIO()
    with zipfile.ZipFile(f, "w", rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as z:
        if rng.random() < .2: z.comment = rng.randbytes(rng.choice([1, 22, 300]))
        for n in names:
            i = zipfile.ZipInfo(n or "x", (1980 + rng.randint(0, 100), 1, 1, 0, 0, 0))
            i.filename = n                       # as given: backslashes stay
            i.create_system = rng.choice([0, 3, 11])
            if rng.random() < .1: i.extra = b"\x99\x99\4\0abcd"
            i.compress_type = rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])
            z.writestr(i, rng.randbytes(rng.choice([0, 1, 50, 3000])))
    return f.getvalue()

def forms(rng, path, d):
    """one way to spell a path"""
    k = rng.randrange(4)
    if k == 0: return pathlib.Path(path)
    if k == 1: return os.path.join(d, ".", os.path.basename(path))
    if k == 2:
        os.environ["HOME"] = d
        return os.path.join("~", os.path.basename(path))
    return path

def inspect(mon, rng, data, d, what):
    """the answer for a path, checked against that for bytes: ('ok', format) / ('exc', type)"""
    p = os.path.join(d, rng.choice(["a.xls", "b.xlsx", "c.zip", "d", "e.ods", "f.XLSB", "g.txt", "h i.xls"]))
    with open(p, "wb") as f: f.write(data)
    home = os.environ.get("HOME")
    try:
        res = []
        for args, kw in [((forms(rng, p, d),), {}), ((), {"path": p}), ((), {"content": data}), ((None, data), {}), ((), {"content": bytearray(data)}), ((os.path.join(d, "absent"),), {"content": data})]:
            k, v = outcome(xlrd.inspect_format, *args, **kw)
            res.append((k, v if k == "ok" else type(v).__name__))
        if data and rng.random() < .3:
            m = mmap.mmap(-1, len(data)); m[:] = data
            k, v = outcome(xlrd.inspect_format, content=m); res.append((k, v if k == "ok" else type(v).__name__)); m.close()
    finally:
        if home is None: os.environ.pop("HOME", None)
        else: os.environ["HOME"] = home
    for r in res[1:]:
        if r != res[0]: raise Violation("path-vs-bytes", "%s: path, keyword path, content...: %s" % (what, res))
    mon.count("inspected", len(res)); mon.count("comparisons", len(res))
    return res[0], p

def expect(mon, rng, data, d, want, what):
    got, p = inspect(mon, rng, data, d, what)
    accept = want if isinstance(want, (set, frozenset)) else {want}
    if got[0] != "ok" or got[1] not in accept: raise Violation("format", "%s: inspect_format answers %s, expected %s" % (what, got, want))
    mon.count(got[1] or "unknown")
    if got[1] not in xlrd.FILE_FORMAT_DESCRIPTIONS: raise Violation("no-description", "%s: no description of %r" % (what, got[1]))
    return got[1], p

def refuse(mon, rng, fmt, data, p, what):
    """a recognised file of another format is refused by name"""
    msgs = []
    for a, kw in [((p,), {}), ((), {"file_contents": data}), ((p,), {"on_demand": True, "formatting_info": True}), ((), {"filename": "no such file.xls", "file_contents": data, "ragged_rows": True, "ignore_workbook_corruption": True})]:
        k, e = outcome(xlrd.open_workbook, *a, logfile=LOG, **kw)
        if k == "ok": raise Violation("not-refused", "%s: a %s file was opened" % (what, fmt))
        if not isinstance(e, xlrd.XLRDError): raise Violation("refusal-error", "%s: %s raised for a %s file: %s" % (what, type(e).__name__, fmt, e))
        t = str(e)
        if WORD[fmt] not in t.lower() or xlrd.FILE_FORMAT_DESCRIPTIONS[fmt] not in t: raise Violation("refusal-name", "%s: the error for a %s file is %r" % (what, fmt, t))
        others = [w for w in ("xlsx", "xlsb", "ods") if w != fmt and w in t.lower()]
        if others: raise Violation("refusal-name", "%s: the error for a %s file names %s: %r" % (what, fmt, others, t))
        msgs.append(t); mon.count("refused"); mon.count("comparisons")
    mon.equal(msgs, msgs[:1] * len(msgs), "refusal-same", what)

def run(spec, mon):
    rng = rng_for(spec); k = spec["kind"]; i = spec["i"]
    if k == "lead":
        # every pair of leading bytes
        for a in range(i * 16, i * 16 + 16):
            for c in range(256):
                x = bytes((a, c)) + rng.choice([b"", SIG[2:], PK[2:] + bytes(8), rng.randbytes(7)])
                want = "xls" if x.startswith(SIG) else None
                if x.startswith(PK): continue
                r = xlrd.inspect_format(content=x)
                if r != want: raise Violation("format", "content %r: %r" % (x, r))
                mon.count("inspected"); mon.count("unknown" if want is None else "xls"); mon.count("comparisons")
        mon.seen("lead", i)
        return
    if k == "bits":
        # every other value at each byte of the two signatures, the signature cut short, and shifted
        sig, at = (SIG, i) if i < 8 else (PK, i - 8)
        body = make_zip(rng, ["xl/workbook.xml"])[4:] if i >= 8 else bytes(600)
        for v in range(256):
            if v == sig[at]: continue
            x = sig[:at] + bytes([v]) + sig[at + 1:] + body
            r = xlrd.inspect_format(content=x)
            if r is not None: raise Violation("format", "content %r: %r" % (x[:12], r))
            mon.count("inspected"); mon.count("unknown"); mon.count("comparisons")
        with Scratch() as d:
            expect(mon, rng, sig[:at], d, None, "signature cut to %d bytes" % at)
            expect(mon, rng, bytes(1) + sig + body, d, None, "signature shifted")
            if i < 8: expect(mon, rng, SIG + rng.randbytes(at), d, "xls", "signature and %d bytes" % at)
        return
    with Scratch() as d:
        if k == "members":
            marks = [m for m in MARK if rng.random() < .25] if rng.random() < .9 else list(MARK)
            names = [spell(rng, MARK[m]) for m in marks]
            near = rng.sample(NEAR, rng.choice([0, 1, 2, 5, 12]))
            near = [spell(rng, n) for n in near]
            near = [n for n in near if norm(n) not in MARK.values()]
            names += near
            if not names: names = ["a.txt"]
            rng.shuffle(names)
            if rng.random() < .05: names += ["f%d/%d.txt" % (j, j) for j in range(rng.choice([10, 1000]))]
            if rng.random() < .1: names = names + [rng.choice(names)]
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                data = make_zip(rng, names)
            what = "zip of %s" % short(names, 250)
            mon.count("near_names", len(near)); mon.seen("members", tuple(sorted(names))[:20])
            fmt, p = expect(mon, rng, data, d, set(marks) if marks else "zip", what)
            refuse(mon, rng, fmt, data, p, what)
            if rng.random() < .2:            # damaged: path and bytes must still agree
                x = damage(rng, data)
                r, left = outcome(lambda: [norm(n) for n in zipfile.ZipFile(io.BytesIO(x)).namelist()])
                what = "broken " + what
                got, p = inspect(mon, rng, x, d, what)
                may = {m for m in MARK if MARK[m] in left} or {"zip"} if r == "ok" else {None}
                if got[0] != "ok" or got[1] not in may: raise Violation("format", "%s: %r, expected %r" % (what, got, sorted(may, key=str)))
                for a in (outcome(xlrd.open_workbook, p, logfile=LOG), outcome(xlrd.open_workbook, file_contents=x, logfile=LOG)):
                    if a[0] == "ok": raise Violation("not-refused", "%s was opened" % what)
                    if not isinstance(a[1], xlrd.XLRDError): raise Violation("refused-as", "%s: opening raises %r, not the library's error" % (what, a[1]))
                mon.count("broken"); mon.count("no_zip" if r != "ok" else "still_zip"); mon.seen("broken", (r, type(left).__name__, got[1]))
            return
        if k == "books":
            bv = (20, 21, 30, 40, 45, 50, 70, 80)[i % 8]
            b = random_book(rng, bv, density=.1, small=True)
            st = b.stream(rng)
            raw = bv in (20, 21, 30, 40) or rng.random() < .5
            data = st if raw else wrap(st, bv)
            what = "BIFF%d %s" % (bv, "bare stream" if raw else "compound file")
            fmt, p = expect(mon, rng, data, d, None if raw else "xls", what)
            obs = []
            for a, kw in [((p,), {}), ((), {"file_contents": data}), ((pathlib.Path(p),), {})]:
                r, bk = outcome(xlrd.open_workbook, *a, logfile=LOG, formatting_info=True, **kw)
                if r != "ok": raise Violation("not-offered", "%s: open_workbook raises %r" % (what, bk))
                obs.append(O.observe(bk, True)); mon.count("opened"); mon.count("raw_opened", raw)
            for o in obs[1:]: O.compare(mon, o, obs[0], "path-vs-bytes", what)
            mon.seen("books", (bv, raw, len(data)))
            return
        # junk: unrecognised content is offered to the reader, which refuses it in its own words
        c = i % 6
        data = [lambda: rng.randbytes(rng.randint(1, 40)), lambda: b"<?xml version='1.0'?><Workbook/>" + rng.randbytes(9), lambda: bytes(rng.randint(1, 600)), lambda: SIG[:rng.randint(1, 7)] + rng.choice([b"", bytes(600)]),
                lambda: rng.choice([b"PK\x05\x06" + bytes(18), b"PK", b"PK\x03", b"PK\x01\x02" + bytes(60), b"MZ" + make_zip(rng, ["content.xml"])]), lambda: ("a;b;c\n" * rng.randint(1, 50)).encode(rng.choice(["ascii", "utf-16", "utf-8-sig"]))][c]()
        if data.startswith((SIG, PK)): return
        what = "content %s" % short(data, 40)
        got, p = inspect(mon, rng, data, d, what)
        ok = (None, "zip") if data.startswith(b"PK\x05\x06") else (None,)
        if got[0] != "ok" or got[1] not in ok: raise Violation("format", "%s: %r" % (what, got))
        mon.count("unknown")
        mon.seen("junk", data[:8])
        r = [outcome(xlrd.open_workbook, p, logfile=LOG), outcome(xlrd.open_workbook, file_contents=data, logfile=LOG)]
        for kk, e in r:
            if kk == "ok": raise Violation("junk-opened", what)
            if got[1] is None:
                # in the reader's own words: not the refusal of a recognised format
                if isinstance(e, xlrd.XLRDError) and any(dn in str(e) and "not supported" in str(e) for dn in xlrd.FILE_FORMAT_DESCRIPTIONS.values()): raise Violation("not-offered", "%s: %s" % (what, e))
                if len(data) >= 4 and not isinstance(e, xlrd.XLRDError) and struct.unpack("<H", data[:2])[0] not in (0x809, 0x409, 0x209, 9): raise Violation("junk-error", "%s: %s: %s" % (what, type(e).__name__, e))
        mon.equal(type(r[0][1]), type(r[1][1]), "path-vs-bytes", what)
        mon.count("unreadable")
