"""Write DESIGN.md from the texts below, the check modules' own statements of
rule and assumptions, known_findings.json and the planted bugs (seeded/*/meta.json).
Documentation only; no check reads what this reads."""
import ast, glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

INTRO = """# Runtime monitors for xlrd

xlrd is a pure-Python, single-threaded decoder: bytes in, an object tree out.
Compiler sanitizers and race detectors have nothing to bite on, so the family
is used as *monitors written for this library* that watch real executions of
the code in `/repo`:

* **Workloads.**  `lib/xlmon` contains independent *writers* of the formats
  xlrd reads: OLE2 compound files (`ole.py`), BIFF record streams of versions
  2.0, 2.1, 3, 4, 4W, 5, 7 and 8 (`build.py`, `fmtrecs.py`, `annot.py`),
  shared string tables with explicit control over every record boundary
  (`sst.py`), formula token streams with a reference evaluator and a parser of
  formula text (`formula.py`, `ftab.py`), whole random workbooks
  (`randbook.py`), real files of several applications with
  records inserted, repacked or read through an independent OLE reader
  (`samples.py`), and damage of every kind (`hostile.py`).  Nothing is
  decoded by xlrd code to obtain an expectation; the writers keep a model of
  what they stored.
* **Oracles.**  (1) the model kept by the writer (exact, bit for bit, for
  values, attributes, annotations); (2) metamorphic equality of the canonical
  dump of *all* public attributes (`observe.py`) between two executions that
  must agree (layouts, sources, histories, verbosity, with/without unsupported
  content); (3) independent reference implementations (calendar, date-format
  classifier, formula evaluator, formula-text parser, Python slicing);
  (4) process monitors: CPU clock, RSS cap, tracemalloc peak, `/proc/self/fd`,
  `/proc/self/maps`, `sys.addaudithook`, `sys.setprofile` (fault injection and
  schedule perturbation), `strace`, snapshots of process state and directories.
* **Runner.**  `run.py C05 [--tier T --seed N --replay F --limit N]`;
  `lib/xlmon/runner.py` spreads the cases of `plan(tier, seed)` over 8 worker
  processes, each case under a watchdog and a memory cap, and writes
  `evidence/<id>.json`: counters of what the monitors evaluated, numbers of
  distinct situations observed (per the rule stated there), samples, and which
  functions of xlrd the executions reached.  Every check states minimum
  counts (`REQUIRED`) below which a run is INCONCLUSIVE (exit 3), so a
  workload that silently stopped reaching its subject is not a pass.  A
  violation writes a self-contained replay file and prints
  `VIOLATION property=<id> replay=<path>`.
* **Judging behaviour only.**  The checks use the public API (documented
  attributes, `/proc`, stdout); attributes without documentation that are
  compared (`_xf_..._flag`) are skipped when absent.  Refactorings are
  invisible to them.
* **No hooks** were added to `/repo`; `sys.setprofile`, audit hooks and
  `/proc` give the needed observation points from outside.

Costs: a quick check takes 4-60 s on 8 cores (all 23: about 5 minutes), a
thorough one up to 13 minutes (deadline 780 s; the plan is cut there and the
evidence says how many cases ran).  Every check is deterministic for a given
`VERIF_SEED` except the thread schedules of C10.

Bounds common to all: workbooks of at most a few sheets and usually a few
hundred cells (single cases go to the last row and column, to 65,536-row
sheets, and to several megabytes); BIFF2-BIFF8; CPython 3.12.  Coverage is
sampling unless "every" is said: absence of violations is evidence, not proof.
"""

D = {}
D["C01"] = """The writer stores a set of streams in a compound file whose layout is random in every respect the format leaves open: sector size 512/4096 (and other powers of two), short-sector size, cutoff, sector permutation and fragmentation, allocation-table sectors anywhere, extension (MSAT) chains, directory tree shape (balanced, degenerate, random), unused directory entries, padding, gaps, trailing rubbish.  Monitored: `CompDoc.get_named_stream`/`locate_named_stream` for every stored name and for absent names, byte for byte, from bytes, path and mmap; and whole workbooks whose canonical dump must equal the one from the bare record stream.
Reach beyond the tests: fixtures have three layouts; here each case is another, including workbooks in the short-stream container, extension tables and files whose workbook starts at sector 0."""
D["C02"] = """Fault enumeration.  For generated files every entry of every table (header fields, MSAT, SAT, SSAT, directory links, start sectors and sizes) is overwritten by each value of a class list (self, 0, another chain's sector, first/last of the same chain, beyond the file, each special value...).  A reference reader of the damaged file decides what is *detectable*: bytes that differ from what was stored must not be returned; a chain that is cross-linked, looping, short, long or outside the file must be refused.  A watchdog, a CPU clock and a memory cap judge promptness.  With `ignore_workbook_corruption=True` the workbook must have its true content or be refused, and undamaged files must be unaffected.  A second reader of the damaged tables says when two structures that any reader has to walk claim the same sector; such a file must be refused even if its content would have come out right."""
D["C03"] = """String tables are written with explicit break points.  `enum` puts one record boundary at every legal byte position of a table in turn, `pair` two, `rand`/`big`/`huge` place them at random or at the 8,224-byte limit; at each break inside characters the width flag may switch either way; runs and phonetic blocks of all sizes are added.  Oracle: the stored strings and runs."""
D["C04"] = """All storage forms: RK over sweeps of the 30-bit payload (both flags), MULRK of every span, NUMBER, INTEGER (all 65,536 values), FORMULA results; edge doubles (subnormal, infinities' neighbours, NaN excluded), in every version.  Oracle: Python float arithmetic on the stored bits, compared through `struct.pack`."""
D["C05"] = """Histories of cell records (every record kind of the version, any row/column order, overwrites, blank cells, merged ranges, wrong or absent DIMENSIONS) drive the sheet storage; a dict model gives last-writer-wins content and extents; the whole grid is compared through `cell_type`, `cell_value`, `row_len`, `nrows`, `ncols` under all four option combinations.  `tiny` enumerates short histories on 4x4 grids; `edge`/`corner` use the last row and column."""
D["C06"] = """Each workbook is opened under the four combinations of `ragged_rows` and `formatting_info`; the four observations are compared with each other and with the model (which cells/columns/rows may differ is computed from the stored records only).  All formatting queries are called on workbooks opened without formatting information and must raise XLRDError.  Excluded: `gridline_colour_index` below BIFF8 (documented as depending on the colour map)."""
D["C07"] = """Every public accessor is called on grids of all small shapes (and up to 256 columns) with all combinations of omitted/negative/oversized bounds and compared with Python slicing of the model grid; returned lists are mutated to see that they are fresh; out-of-range positions must raise."""
D["C08"] = """Random and exhaustive (short) histories over load, load by name, negative index, `sheets()`, iteration, unload, reload, `sheet_loaded`, `release_resources`, context exit - from bytes, path with/without mmap, and caller's mmap - with a state model that predicts every answer; every sheet object obtained is compared with the eager observation."""
D["C09"] = """(1) Normal opens, context exits and releases; (2) *fault injection*: a `sys.setprofile` hook counts the primitives reached from library code (unpack, decode, read, seek, mmap, write, append, ...) and raises OSError, MemoryError, KeyboardInterrupt, SystemExit, ValueError, ... at the n-th call, n swept over the whole open; (3) truncations and failing logs.  After each, with the collector off and the exception still referenced, `/proc/self/fd` and `/proc/self/maps` must not show the input."""
D["C10"] = """One workbook is opened as path, path without mmap, bytes, mmap; at verbosity 0-7; to various logs; after random histories of other workbooks (also failing ones); while other books are open; and by 2-6 threads at once whose switching is perturbed by `sys.setswitchinterval` and a profile-hook jitter.  Every observation must equal the one made by a *fresh process* (a zygote forked before the worker opened anything).  Also monitored: file bytes and mtime unchanged, nothing on stdout/stderr."""
D["C11"] = """`sweep` walks every attribute of every formatting record through its whole range in every version; `rand` uses random workbooks; `prec` generates row/column/cell formats, default widths, GCW bitmaps and standard widths in any order, mostly as near-duplicates that differ in one bit, and compares effective formats of every cell and computed widths of all 256 columns with the documented precedence; `v20` does BIFF2 without XF records."""
D["C12"] = """Format texts are sampled from a grammar of literals, escapes, padding, brackets, date, digit and separator parts, plus a list of real formats; built-in keys are swept.  An independent classifier (written from the property's statement) decides date/number; every numeric record form, with and without formatting_info; values must be untouched."""
D["C13"] = """Exhaustive: every serial day of both systems (about 2.96 million each) and every second of a day.  Random: fractional serials near all rounding boundaries.  Inverse functions on all valid tuples sampled; all invalid inputs by class; compared with `datetime` ordinals and exact `fractions.Fraction` rounding."""
D["C14"] = """Text of every kind (cells, rich strings, formula strings, notes, sheet names, names, formats, fonts, styles, user name) in every codepage Python can decode is stored in versions 2-7 with the codepage declared, missing, wrong or overridden; undecodable bytes must raise; unknown codepages must raise or be overridden; BIFF8 must ignore both."""
D["C15"] = """Books with up to dozens of names, scopes over worksheets, chart, macro and VBA sheets in any order, formulas from a grammar with a reference evaluator that knows which results are determined; `cell()` and `area2d()` against the evaluated reference and the sheet's extent; hostile token streams (random, cut, unknown tokens, wrong indexes) must not prevent opening."""
D["C16"] = """Address helpers over all columns, many rows, all flags, against an independent renderer.  Formula texts are parsed back by an independent parser of Excel's grammar and must give the stored tree."""
D["C17"] = """Formula cells of every result kind, with each legal record between formula and string, strings of every length split anywhere with compression switches (and mid-character), neighbours checked too; malformed sequences must be refused."""
D["C18"] = """Mutated, truncated and random files; bombs (records that declare huge counts, ranges, chains, nested names); encrypted files; BOF variants.  Each run is under a CPU-time bound proportional to size and declared cells, a tracemalloc bound, an RSS cap and a hang watchdog; `scale` measures growth of time over doubled inputs.  Every cut of a bare record stream must be refused.  Whatever opens is fully read through the public API."""
D["C19"] = """Each annotation and view record is stored with random contents in any order among the cell records (within the format's grouping rules), split over CONTINUE records where allowed, on several sheets; the model is compared field by field; defaults are compared when absent."""
D["C20"] = """Record streams with padding, gaps, unknown codes, trailing bytes and embedded in compound files are dumped; the text is parsed back to (offset, code, length, bytes) and compared with the records written; counts likewise.  The command-line tool's commands are run in process (and a sample as real processes), their stdout compared with what the library reports and, with a log file, its headings and warnings with those of reading the files directly.  Some books are the repository's own sample files, whole or repacked."""
D["C21"] = """Every two-byte and many longer leading sequences, every one-bit change of the signatures, zips with every combination of expected, near-miss and oddly spelled members, broken zips; as path and as bytes; then `open_workbook` must refuse by name or offer to the reader."""
D["C22"] = """Metamorphic: a workbook is observed, then again with unsupported records inserted - all 65,536 codes minus the supported ones are swept in 8 versions - or with well-formed drawings, embedded (also nested) charts, conditional formats, custom views, pivot data, extra chart/macro/module sheets; the two canonical dumps must be equal.  The same insertions are made into the repository's sample files, which real applications wrote."""
D["C23"] = """An audit hook (plus wrapped `os.stat` family, `memfd` stdout/stderr, directory snapshots, process-state snapshots: cwd, umask, signal handlers, locale, warnings filters, recursion limit, environment, modules, threads, decimal context, random state...) watches opens and full reads of valid, hostile, link-carrying and payload-carrying workbooks; a sample runs under `strace`."""
D["C24"] = """Workbooks of every version with any form of beginning-of-file record (record code, version field, length 4-20, build and year classes), global records in any order, 0-260 sheets of all kinds whose substreams lie in any physical order with gaps and foreign-version BOFs, near-identical names and BIFF4 multi-sheet workbooks.  Each sheet carries cells that identify it.  Judged: every workbook-level setting, the worksheet list, and every lookup form for every sheet (index, negative, name, brackets, iteration, `sheets()`) plus missing names/indexes; wrong stream types, versions and first records must be refused with XLRDError."""
D["C25"] = """Generated workbooks of all versions, in every loading state (eager, lazy, partly loaded, released; from bytes or a file), are pickled with protocols 0-5 or deep-copied, some copied twice, some read back by a fresh interpreter.  The whole canonical observation plus name helpers, lookups and dates on the copy must equal those of an independent open; sheets and names must refer to the copy; then one of the two is edited all over and the other must not change.  Single cells, rows, sheets, fonts, XFs, formats, notes, links, row/column records, names and operands are copied on their own."""
D["C26"] = """Every object reached from generated workbooks of all versions (also lazily opened ones) is dumped with random header, footer and indentation, to a file object or standard error; the text is consumed line by line against the object's own attributes, recursively.  Reprs of cells, sheets, operands and references are compared with the values they show.  Formatting objects of two independent opens are compared pairwise, then copies with one attribute changed, then unrelated objects; both operators are judged.  The whole observation must be the same after all dumps."""

def meta(c):
    t = ast.parse(open(os.path.join(ROOT, "checks", c.lower() + ".py")).read()); out = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("RULE", "ASSUMPTIONS"):
            try: out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError: pass
    return out

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
out = [INTRO, "\n## Properties and how each is decided\n"]
for p in props:
    m = meta(p["id"])
    out.append("### %s - %s\n" % (p["id"], p["title"]))
    out.append(D[p["id"]] + "\n")
    if m.get("RULE"): out.append("*Evidence counts*: " + m["RULE"] + ".\n")
    if m.get("ASSUMPTIONS"): out.append("*Assumptions / not judged*: " + "; ".join(m["ASSUMPTIONS"]) + ".\n")
out.append(open(os.path.join(ROOT, "tools", "design_tail.md")).read())
out.append("\n## Genuine defects found and repaired\n\nEach is a `fix:` commit in /repo and an entry in known_findings.json (which suppresses nothing).\n")
for f in json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]:
    out.append("* " + f["what"])
out.append("\n## Planted bugs\n\nEach was written from a property's text and the code, confirmed against the existing tests and a demonstration. 'first run' says what the quick check of that property said when the bug was first tried; misses led to the strengthening noted. All are caught now unless said otherwise.\n")
notes = json.load(open(os.path.join(ROOT, "tools", "seed_notes.json")))
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
    m = json.load(open(d + "/meta.json")); i = os.path.basename(d)
    out.append("* **%s** (%s): %s. Needs %s. First run: %s." % (i, m["property"], m["what_it_breaks"].rstrip("."), m["needs"].rstrip("."), notes.get(i, "caught")))
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
