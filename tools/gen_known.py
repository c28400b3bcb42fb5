"""Write known_findings.json: the repairs made to xlrd (they suppress nothing)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# commit subject -> (property, what failed before the repair)
FIXES = [
 ("xldate_as_tuple of infinity or NaN", "C13", "xldate_as_tuple of infinity or of a NaN (both can stand in a cell) raised OverflowError or ValueError instead of XLDateTooLarge or XLDateError; runxlrd show then ended with a traceback"),
 ("answers None for a damaged zip", "C21", "inspect_format of content that starts like a zip archive but is none raised BadZipFile, NotImplementedError or UnicodeDecodeError instead of answering None as documented, and open_workbook raised that instead of XLRDError (also C18)"),
 ("decode BIFF2 WINDOW2 option bytes", "C19", "the five option bytes of a BIFF2 WINDOW2 record were compared as bytes with str, so every option read as set"),
 ("count stored units, not decoded characters", "C17", "a BIFF8 formula string result with an astral character, or a multi-byte code page string, was reported short/raised XLRDError"),
 ("give each BIFF4W sheet its own palette", "C11", "the second sheet of a BIFF4 workbook kept the colours of the first sheet's PALETTE"),
 ("size hyperlink URLs in UTF-16 code units", "C19", "a hyperlink URL with an astral character raised an assertion or shifted the following fields"),
 ("build the OLE2 directory tree without recursion", "C02", "a deep directory tree raised RecursionError; a looping one never ended"),
 ("allow a stream's directory ID to exceed 249", "C01", "a workbook stream with a directory ID above 249 was reported as corrupt"),
 ("refuse a looping short-stream chain", "C02", "a short-sector chain that loops was read for ever"),
 ("locate the sectors of version 4 compound files", "C01", "files with 4096-byte sectors were read 3584 bytes off"),
 ("refuse a short-stream chain that ends before", "C02", "a short stream whose chain ends early was silently returned short"),
 ("refuse a stream whose sectors before the last are truncated", "C02", "a stream with sectors beyond the end of the file was returned with bytes missing"),
 ("skip phonetic data that spans several CONTINUE", "C03", "phonetic data over several CONTINUE records, or with a negative size, shifted all later strings"),
 ("join surrogate pairs split between SST and CONTINUE", "C03", "a surrogate pair split at a record boundary raised UnicodeDecodeError"),
 ("number a sheet loaded on demand by a negative index", "C08", "get_sheet / book[-1] on demand gave Sheet.number -1"),
 ("expand ~ in the path given to open_workbook", "C10", "open_workbook('~/x.xls') inspected the expanded path but opened the literal one"),
 ("type a number as a number when its format code is unknown", "C12", "a cell whose XF has an undefined format code was typed as a date/raised KeyError"),
 ("a function call without arguments takes nothing", "C15", "a tFuncVar without arguments consumed the whole operand stack"),
 ("parenthesise right operands and unions in formula text", "C16", "a-(b-c) was rendered as a-b-c"),
 ("evaluate failing and mixed-type arithmetic", "C15", "0/0, text arithmetic and overflow in a name gave wrong values or raised"),
 ("empty intersections and nested unions in names", "C15", "an empty intersection raised or gave an inverted range"),
 ("quote sheet names in reference text exactly when needed", "C16", "sheet names such as A1, 2x or with an apostrophe were rendered unquoted"),
 ("let rangename2d render absolute ranges in R1C1", "C16", "rangename2d(..., r1c1=1) raised TypeError"),
 ("render 2-D references and error constants", "C16", "2-D references and error constants had no formula text"),
 ("open workbooks with defined names that can't be evaluated", "C15", "a name with an unevaluable formula made open_workbook raise"),
 ("Name.cell and area2d raise XLRDError", "C15", "Name.cell()/area2d() raised TypeError for a reference without a value"),
 ("bound the values that names built from names can take", "C18", "names that concatenate/power earlier names took exponential time and memory"),
 ("an array token in a formula is 8 bytes long", "C15", "a formula with an array constant was decoded from the wrong byte on"),
 ("parenthesise a union wherever it is an operand", "C16", "a union operand's text meant another formula"),
 ("a CHOOSE whose selector isn't constant", "C15", "CHOOSE(A1,...) evaluated to an error"),
 ("intersect references of several areas", "C15", "intersecting a union raised an assertion"),
 ("accept array records of BIFF3 and 4", "C17", "a BIFF3/4 ARRAY record raised struct.error"),
 ("join surrogate pairs split between the records of an object's text", "C19", "a note's text with a surrogate pair split between CONTINUE records raised UnicodeDecodeError"),
 ("accept an object's text without an object record", "C19", "a TXO without an OBJ raised UnboundLocalError"),
 ("don't go back when the length in a SHEETHDR", "C18", "a wrong SHEETHDR length made parse_globals loop for ever"),
 ("don't map a hyperlink's columns beyond the last", "C18", "a 12-byte hyperlink range could fill memory (65536 x 65536 map entries)"),
 ("don't extend a sheet to merged cells beyond", "C18", "a merged range could extend a sheet to 65536 columns per row"),
 ("refuse empty file_contents", "C18", "open_workbook(file_contents=b'') tried to open the file None"),
 ("runxlrd.py needs no xlrd.USE_MMAP", "C20", "scripts/runxlrd.py raised AttributeError whatever the command"),
 ("dump and count the records of an embedded stream", "C20", "dump and count_records read on after the end of the workbook stream"),
 ("show the last row but one of a full sheet", "C20", "runxlrd show skipped a row of a 65536-row sheet"),
 ("list label ranges that lie partly outside", "C20", "runxlrd labels raised IndexError for a label range outside the cells"),
 ("read conditional formats with number format", "C22", "a CF record with number-format, alignment or protection block raised AssertionError with formatting_info"),
 ("skip substreams embedded in an embedded substream", "C22", "a chart within a chart object ended the sheet early"),
 ("leave the page breaks of custom views out", "C22", "page breaks of custom views were reported as the sheet's"),
 ("don't stop reading a sheet because a formula can't be dumped", "C22", "verbosity >= 2 with a conditional format raised TypeError/AssertionError"),
 ("compute the width of a BIFF2 column", "C11", "computed_column_width ignored the COLWIDTH records of BIFF2 sheets"),
    ("cell_xf_index() takes a negative row or column", "C07", "sheet[-1], row(-1), cell(r, -1): cells without a format of their own got the workbook default instead of the row's or column's format"),
    ("a DIMENSIONS record after the first cell", "C05", "a repeated or late DIMENSIONS record reset the row and column counts: the cells before it were lost or duplicated"),
    ("a SUPBOOK record continued in CONTINUE", "C15", "a link to an external workbook with so many sheets that its SUPBOOK record is continued: opening raised UnicodeDecodeError or IndexError"),
    ("can be compared with any other object", "C26", "comparing a Font, Format or part of an XF with None or any other object without attributes raised AttributeError"),
    ("style with an empty name", "C11", "a BIFF3-7 STYLE record of a user-defined style with an empty name (3 bytes): opening raised struct.error"),
    ("unsupported moniker is no longer misread", "C19", "a hyperlink with a moniker of an unknown class, or one saved as a string but not absolute: the bookmark was read from the moniker's bytes, the type was None or the path missing"),
    ("relative references with nothing in common", "C15", "an intersection of two relative references that share no row or column evaluated to an area whose end lies before its start, not to no value"),
    ("BIFF2-4 worksheet stored contiguously in an OLE2", "C01", "a BIFF2-4 worksheet stored in an OLE2 container opened when its sectors were fragmented and raised XLRDError when they were contiguous"),
    ("log file is no longer left empty", "C20", "the text written to runxlrd's log file (-l) was lost in about a quarter of the runs: nothing flushed or closed the file"),
]
EXTRA = os.path.join(ROOT, "tools", "open_findings.json")
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h\t%s"], capture_output=True, text=True).stdout.splitlines()
log = [l.split("\t", 1) for l in log if "\tfix:" in l]
out = []; used = set()
for sub, prop, what in FIXES:
    m = [(h, s) for h, s in log if sub in s]
    assert len(m) == 1, (sub, m)
    used.add(m[0][0])
    out.append({"property": prop, "key": "fixed:" + m[0][0], "what": "fixed: property=%s %s %s" % (prop, m[0][0], what), "status": "fixed"})
missing = [x for x in log if x[0] not in used]
assert not missing, missing
if os.path.exists(EXTRA): out += json.load(open(EXTRA))
json.dump({"findings": out}, open(os.path.join(ROOT, "known_findings.json"), "w"), indent=1)
print(len(out), "entries")
