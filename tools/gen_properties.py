"""Regenerates /verif/properties.jsonl (kept as code so the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "OLE2 container: streams come out byte-exact for every physical layout",
  "For every well-formed OLE2 compound file, whatever its sector sizes, sector order and fragmentation, allocation-table and extension layout, short-stream usage, directory tree shape and padding, the named stream obtained from the container is byte-for-byte the stream that was stored, and a name that is not stored is reported as absent. A workbook therefore reads identically however its bytes are laid out in the container, and identically to the same record stream without a container.",
  ["inputs", "configurations"], "every physical layout of a compound file holding a given set of streams",
  "Fixtures are a dozen files saved by a few writers; they contain only near-contiguous 512/64 layouts, no extension tables, no short-stream workbooks and trivial directory trees.",
  ["xlrd/compdoc.py", "xlrd/book.py"],
  [("MSAT/MSATX/SAT/SSAT construction", "xlrd/compdoc.py:CompDoc.__init__"), ("contiguous versus fragmented extraction", "xlrd/compdoc.py:CompDoc._locate_stream"), ("chain walk with size limits", "xlrd/compdoc.py:CompDoc._get_stream"), ("directory search", "xlrd/compdoc.py:CompDoc._dir_search"), ("Workbook/Book stream selection", "xlrd/book.py:Book.biff2_8_load")],
  ["xlrd.compdoc.CompDoc.get_named_stream / locate_named_stream", "xlrd.open_workbook"])

p("C02", "OLE2 corruption is detected: never a hang, never silently wrong bytes",
  "When a compound file's structure is damaged (bad signature or byte-order mark, sector chains that cross-link, loop, leave the file or end too early or too late, a stream longer than the file, a looping or out-of-range directory tree), opening it fails promptly with an exception instead of hanging, exhausting memory or returning bytes that belong to another stream. With corruption tolerance requested, a workbook whose only fault is that its stream's sectors are also claimed by another chain opens and yields its true content, while the same file is refused by default; and tolerance never changes the result for an undamaged file.",
  ["inputs", "fault_sequences"], "every single structural fault injected at every table entry / header field of a generated compound file",
  "One fixture has one corruption; the tests cannot enumerate fault positions nor observe non-termination.",
  ["xlrd/compdoc.py", "xlrd/book.py", "xlrd/__init__.py"],
  [("seen[] cross-link bookkeeping", "xlrd/compdoc.py:CompDoc"), ("found_limit / EOCSID assertions", "xlrd/compdoc.py:CompDoc._locate_stream"), ("directory tree construction", "xlrd/compdoc.py:_build_family_tree"), ("ignore_workbook_corruption", "xlrd/compdoc.py:CompDoc._locate_stream")],
  ["xlrd.open_workbook", "xlrd.compdoc.CompDoc"])

p("C03", "Shared strings decode exactly for every record-continuation layout",
  "For every shared-string table, however its characters, rich-text runs and phonetic data are split over continuation records and whichever parts are stored compressed or uncompressed, each text cell shows exactly the stored string. With formatting information requested, each rich-text cell reports exactly the stored (offset, font) runs and plain cells report none; rich text stored in the cell's own record reports its runs always. (Run lists are stated for cells stored once.)",
  ["inputs"], "every string table and every legal placement of record boundaries and compression switches",
  "Fixture string tables are small; the boundary arithmetic depends on where 8K record boundaries fall, which tests do not vary.",
  ["xlrd/book.py", "xlrd/sheet.py"],
  [("SST/CONTINUE decoding", "xlrd/book.py:unpack_SST_table"), ("SST record gathering", "xlrd/book.py:Book.handle_sst"), ("rich text run map", "xlrd/sheet.py:Sheet.read LABELSST")],
  ["Sheet.cell_value", "Sheet.rich_text_runlist_map"])

p("C04", "Numeric cells are bit-exact for every storage form",
  "Whatever record form a number is stored in (8-byte float, compressed 30-bit integer or float with or without division by 100, multiple-cell record, 16-bit integer, formula result) and in every supported file version, the cell's value is a Python float bit-identical to the number that form denotes.",
  ["inputs"], "every 32-bit compressed value, every 64-bit double, every 16-bit integer, every column span of multi-cell records",
  "Tests check a handful of values; sign extension, the /100 flag and low bits only go wrong for particular values.",
  ["xlrd/sheet.py"],
  [("RK decoding", "xlrd/sheet.py:unpack_RK"), ("NUMBER/RK/MULRK/INTEGER/FORMULA branches", "xlrd/sheet.py:Sheet.read")],
  ["Sheet.cell_value", "Sheet.cell_type"])

p("C05", "The cell grid is exactly what the sheet's cell records say",
  "For every sequence of cell records in any file version and in any row/column order, each cell's type and value are those of the last record written for it and every other position inside the sheet's reported size is an empty cell; the reported row and column counts are exactly one past the last used row and column (enlarged, when formatting is read, by blank cells and merged ranges), regardless of the recorded dimensions. Without ragged rows every row has exactly as many cells as the column count.",
  ["inputs", "histories"], "every multiset and ordering of cell records, including out-of-order rows, overwrites and the last row/column",
  "Real files store cells in ascending order; the storage growth and padding logic has many order-dependent paths no fixture drives.",
  ["xlrd/sheet.py"],
  [("cell storage growth", "xlrd/sheet.py:Sheet.put_cell_unragged, put_cell_ragged"), ("padding and merged extension", "xlrd/sheet.py:Sheet.tidy_dimensions"), ("record dispatch", "xlrd/sheet.py:Sheet.read")],
  ["Sheet.nrows", "Sheet.ncols", "Sheet.cell_type", "Sheet.cell_value", "Sheet.row_len"])

p("C06", "ragged_rows and formatting_info only change what they document",
  "Opening the same file with ragged rows yields the same non-empty cells and counts, with each row ending at its last stored cell; opening it with formatting information yields the same values and types for all data cells, adding only blank cells, merged-range margins and formatting attributes. A formatting query on a workbook opened without formatting information raises the library's error rather than returning anything.",
  ["inputs", "configurations"], "every workbook under the four combinations of the two options",
  "Tests compare one fixture in one combination; each combination uses separate storage code.",
  ["xlrd/sheet.py", "xlrd/book.py"],
  [("two put_cell implementations", "xlrd/sheet.py"), ("formatting guard", "xlrd/sheet.py:Sheet.req_fmt_info")],
  ["Sheet.row_len", "Sheet.cell_xf_index", "Sheet.computed_column_width"])

p("C07", "All cell accessors agree with one grid and with Python slicing",
  "For every loaded sheet, single-cell access, row and column access, row/column slices for any combination of omitted, negative and oversized bounds, iteration, indexing syntax and row lengths all return exactly what Python slicing of one grid of (type, value, format) cells would return. Positions outside the grid raise an error and never return another cell's data.",
  ["inputs", "programs"], "every sheet shape, ragged or not, and every argument combination of every accessor",
  "A few slices on one sheet are tested; the index normalisation is repeated in five accessors.",
  ["xlrd/sheet.py", "xlrd/book.py"],
  [("slice normalisation", "xlrd/sheet.py:Sheet.row_slice, col_slice, col_values, col_types, row_values, row_types"), ("indexing", "xlrd/sheet.py:Sheet.__getitem__, get_rows")],
  ["Sheet public accessors", "Book.__getitem__", "Book.__iter__"])

p("C08", "On-demand loading is equivalent to eager loading under every call history",
  "Under any sequence of load, query, unload, reload, iterate and release calls on a workbook opened on demand, every sheet obtained has exactly the content eager loading gives, the loaded/unloaded answers match the history, and sheet count and names are available before any load. After release already-loaded sheets remain fully readable, loading any unloaded sheet raises the library's error, and releasing again is harmless; file versions without on-demand support behave as an eager open.",
  ["histories"], "every finite sequence of book-level operations on multi-sheet workbooks",
  "Tests exercise two or three fixed call orders.",
  ["xlrd/book.py", "docs/on_demand.rst"],
  [("lazy sheet list", "xlrd/book.py:Book.get_sheet, sheets, sheet_by_index, unload_sheet, sheet_loaded"), ("release", "xlrd/book.py:Book.release_resources")],
  ["Book.sheet_by_index/name", "Book.sheet_loaded", "Book.release_resources"])

p("C09", "File handles and memory maps are always released",
  "After a non-on-demand open returns, after any open raises for any reason at any point, and after release or context exit of an on-demand workbook, no file descriptor or memory mapping of the input remains held on account of the library. An exception inside the context block is not swallowed.",
  ["fault_sequences", "histories"], "every failure point (damaged byte, truncation, failing log writes or reads) and every release history",
  "Tests never look at descriptors or mappings nor fail the open at varied points.",
  ["xlrd/book.py", "xlrd/__init__.py"],
  [("cleanup on exception", "xlrd/book.py:open_workbook_xls"), ("release", "xlrd/book.py:Book.release_resources"), ("early close when stream is copied", "xlrd/book.py:Book.biff2_8_load")],
  ["/proc/self/fd", "/proc/self/maps"])

p("C10", "Results depend only on the file's bytes and the semantic options",
  "The same workbook bytes give the same observable workbook whether passed as a path, a bytes object or a memory map, with memory mapping on or off, at any verbosity and to any log file, in any process history, and when many workbooks are opened and read concurrently by several threads. Opening never modifies the input, never alters another open workbook, and writes text only to the given log file.",
  ["schedules", "configurations", "histories"], "every input source, verbosity, prior history and thread interleaving",
  "Tests open one file at a time, quietly, from a path.",
  ["xlrd/__init__.py", "xlrd/book.py", "xlrd/sheet.py", "xlrd/formatting.py", "xlrd/formula.py"],
  [("input selection", "xlrd/book.py:Book.biff2_8_load"), ("class-level defaults versus instance state", "xlrd/book.py, xlrd/sheet.py, xlrd/formatting.py")],
  ["xlrd.open_workbook", "canonical dump of all public attributes"])

p("C11", "Formatting records decode to exactly the stored attributes",
  "With formatting information requested, every font, number format, cell-format (alignment, border, background, protection, parent style and used-attribute handling), palette and style record is reported with exactly the stored attribute values for its file version, and unchanged palette slots keep the version's default colours. A cell's effective format is its own, else its row's, else its column's, else the workbook default; row, column and default-size attributes and the computed column width follow the stored records and the version's precedence rules.",
  ["inputs"], "every bit pattern of the formatting records in every file version",
  "Two fixtures cover a handful of attribute combinations in two versions.",
  ["xlrd/formatting.py", "xlrd/sheet.py"],
  [("XF decoding per version", "xlrd/formatting.py:handle_xf"), ("FONT/EFONT decoding", "xlrd/formatting.py:handle_font, handle_efont"), ("palette", "xlrd/formatting.py:handle_palette, initialise_colour_map"), ("styles", "xlrd/formatting.py:handle_style"), ("format inheritance", "xlrd/sheet.py:Sheet.cell_xf_index"), ("column width", "xlrd/sheet.py:Sheet.computed_column_width"), ("row/column info", "xlrd/sheet.py:Sheet.read")],
  ["Book.xf_list, font_list, format_map, colour_map, palette_record, style_name_map", "Sheet.rowinfo_map, colinfo_map"])

p("C12", "Numbers are typed as dates exactly when their format is a date format",
  "A numeric cell is reported as a date if and only if the number format attached to it is a date/time format, decided from the standard built-in format numbers or from the format text after discarding literals, escapes, padding, bracketed conditions, colours and elapsed-time codes; otherwise it is a number, and its value is never altered. The decision is the same for every numeric record form, with or without formatting information requested.",
  ["inputs"], "every built-in format number, every format string built from the format grammar, every numeric record type and version",
  "One test checks one file's formats.",
  ["xlrd/formatting.py", "xlrd/sheet.py"],
  [("format text scan", "xlrd/formatting.py:is_date_format_string"), ("built-in ranges", "xlrd/formatting.py:std_format_code_types"), ("format to cell type map", "xlrd/formatting.py:handle_xf, xf_epilogue")],
  ["Sheet.cell_type", "Book.format_map[].type"])

p("C13", "Date serials convert exactly, invert, and fail only as documented",
  "For every serial number in range and both date systems, conversion to a date tuple or datetime gives the proleptic-calendar date and time of day that serial denotes (rounded as documented), and converting a date or time back gives the original serial. Negative, ambiguous, too-large, bad-date and bad-mode inputs raise exactly the corresponding documented exception class and no other input does.",
  ["inputs"], "every day number of both date systems, every second of the day, all fractional serials near rounding boundaries, all invalid inputs",
  "Tests sample a few dozen serials; rounding carry and range ends are sparse.",
  ["xlrd/xldate.py", "docs/dates.rst"],
  [("tuple conversion", "xlrd/xldate.py:xldate_as_tuple"), ("datetime conversion", "xlrd/xldate.py:xldate_as_datetime"), ("inverse", "xlrd/xldate.py:xldate_from_date_tuple, xldate_from_time_tuple, xldate_from_datetime_tuple")],
  ["xlrd.xldate"])

p("C14", "Pre-Unicode text decodes by codepage, and the override always wins",
  "In file versions without Unicode, every piece of text (cell strings, rich strings, formula strings, notes, sheet names, defined names, formats, fonts, styles, user name) is decoded with the encoding given by the caller's override if any, else by the file's codepage, else as Latin-1; the override beats a missing or wrong codepage. Text in Unicode versions is independent of both, and text that cannot be decoded raises instead of being altered.",
  ["inputs", "configurations"], "every codepage, every text, with/without override and with codepage present, missing or wrong",
  "Fixtures are almost all Unicode-version files.",
  ["xlrd/book.py", "xlrd/biffh.py", "xlrd/sheet.py", "xlrd/formatting.py"],
  [("codepage to encoding", "xlrd/book.py:Book.derive_encoding"), ("byte-string unpacking", "xlrd/biffh.py:unpack_string"), ("deferred user name", "xlrd/book.py:Book.handle_writeaccess")],
  ["Book.encoding, codepage, user_name, sheet_names()", "cell values"])

p("C15", "Defined names: identity, scope, lookup and evaluated targets are correct",
  "Every defined name is reported with its stored flags and text (built-in names by their standard spelling) and the scope of the worksheet, workbook or unusable sheet it belongs to, and is found under its case-insensitive name and (name, scope), in scope order. A name whose formula is a constant, arithmetic, concatenation, comparison, or a combination of absolute local references evaluates to exactly that value or set of 3-D areas, also through other names; the single-cell and area helpers return exactly that cell or clipped area, or raise the library's error; and a name whose formula cannot be evaluated never prevents the workbook from opening.",
  ["inputs"], "every set of names, scopes, sheet kinds/orders and formula token sequences of the supported grammar",
  "One names fixture with a fixed set of names is tested.",
  ["xlrd/book.py", "xlrd/formula.py"],
  [("scope patching and maps", "xlrd/book.py:Book.names_epilogue"), ("formula evaluation", "xlrd/formula.py:evaluate_name_formula"), ("3-D reference resolution", "xlrd/formula.py:get_externsheet_local_range"), ("helpers", "xlrd/book.py:Name.cell, Name.area2d")],
  ["Book.name_obj_list, name_map, name_and_scope_map", "Name.result, Name.cell(), Name.area2d()"])

p("C16", "Cell addresses, ranges and formula text render correctly",
  "Column and cell names, absolute names, 2-D ranges and 3-D references (absolute and relative, A1 and R1C1) are rendered as the unique spelling Excel uses for those coordinates, with sheet names quoted exactly when needed. The text given for a defined name's formula, and by the formula decompiler for a name's or cell's formula, denotes the same operator tree, operands, functions and references as the stored formula, with parentheses wherever precedence requires them.",
  ["inputs"], "every coordinate, every sheet name, every formula tree over the supported operators, functions and operands",
  "Tests check a few fixed formulas and coordinates.",
  ["xlrd/formula.py"],
  [("address rendering", "xlrd/formula.py:colname, cellname, cellnameabs, rowname, rangename2d, rangename3d, rangename3drel, quotedsheetname"), ("text building with precedence", "xlrd/formula.py:evaluate_name_formula")],
  ["xlrd.cellname, cellnameabs, colname, rangename3d, rangename3drel", "Name.result.text"])

p("C17", "Formula cells report their stored result whatever records surround them",
  "A formula cell's type and value are its stored cached result (number or date by format, string, boolean, error code, or empty text) in every file version, whether or not shared-formula, array or table records sit between the formula and its string, and however the string is split over continuation records. The cells after the formula are unaffected.",
  ["inputs"], "every result kind, intermediate record, string length, split and compression switch, in every version",
  "A couple of formula fixtures, all with short one-record strings.",
  ["xlrd/sheet.py"],
  [("FORMULA branch", "xlrd/sheet.py:Sheet.read"), ("STRING/CONTINUE joining", "xlrd/sheet.py:Sheet.string_record_contents")],
  ["Sheet.cell"])

p("C18", "Hostile input: opening always ends promptly with a Book or an exception",
  "For every byte sequence offered as a workbook - random, truncated at any point, or a valid workbook with any corrupted bytes - opening and fully reading it finishes within time and memory proportional to what the input declares and yields a usable workbook or an ordinary exception, never a hang, crash of the interpreter, runaway memory, runaway recursion or non-error exit. Empty input, input that does not begin with a workbook's signature or beginning-of-file record, and encrypted workbooks are refused with the library's own error, and a record stream cut short at any point is refused, never opened as if it were complete.",
  ["inputs", "fault_sequences"], "every byte string; systematically every truncation point and mutated byte of generated workbooks",
  "Tests open a few valid files and one corrupt one.",
  ["xlrd/book.py", "xlrd/sheet.py", "xlrd/compdoc.py", "xlrd/formula.py", "xlrd/formatting.py", "xlrd/biffh.py"],
  [("record loop", "xlrd/sheet.py:Sheet.read, xlrd/book.py:Book.parse_globals"), ("BOF validation", "xlrd/book.py:Book.getbof"), ("encryption refusal", "xlrd/book.py:Book.handle_filepass")],
  ["process watchdog (time, RSS, exit status)", "exception type"])

p("C19", "Sheet annotations and view settings are reported exactly",
  "Cell notes (author, text, runs, visibility), hyperlinks (every kind, description, target, bookmark, quick tip and the cells they cover, last one winning), merged ranges, row/column label ranges, page breaks, panes, zoom factors, view flags, first visible cell, gridline colour and sheet visibility are reported exactly as stored, for every version that has them, and stay at their documented defaults when absent. Each sheet reports only its own.",
  ["inputs"], "every combination and content of the annotation and view records, in any order among cell records",
  "Two or three fixtures with one instance of a few of these records.",
  ["xlrd/sheet.py", "xlrd/book.py"],
  [("notes", "xlrd/sheet.py:Sheet.handle_note, handle_txo, handle_obj"), ("hyperlinks", "xlrd/sheet.py:Sheet.handle_hlink, handle_quicktip"), ("view records", "xlrd/sheet.py:Sheet.read WINDOW2/PANE/SCL"), ("zoom derivation", "xlrd/sheet.py:Sheet.update_cooked_mag_factors")],
  ["Sheet.cell_note_map, hyperlink_list, hyperlink_map, merged_cells, ..."])

p("C20", "Record dump, record count and command-line tool agree with the file",
  "For every workbook, the record dump lists every record of the workbook stream once, in order, with its true offset, code, length and bytes, and the record count totals the same records by name. The command-line tool's file commands run on any readable workbook and print the cell values, names, counts and versions the library reports; given a log file, the warnings of reading each workbook are in it, under one heading per file.",
  ["inputs"], "every record stream (with zero padding, unknown codes, trailing bytes) and every documented command",
  "Neither the dumpers nor the script is exercised on varied input by the tests.",
  ["xlrd/biffh.py", "xlrd/__init__.py", "scripts/runxlrd.py"],
  [("dump", "xlrd/biffh.py:biff_dump, hex_char_dump"), ("count", "xlrd/biffh.py:biff_count_records"), ("commands", "scripts/runxlrd.py:main")],
  ["xlrd.dump, xlrd.count_records, runxlrd.py stdout and log file"])

p("C21", "File type detection is exact and refuses other formats by name",
  "Format inspection answers by content alone, identically for a path and for bytes: the xls signature, or a zip whose members (any case, either slash) identify xlsx, xlsb or ods, another zip, or unknown. Opening a recognised non-xls file raises the library's error naming that format, while unrecognised content is still offered to the workbook reader, so signature-less old workbooks open.",
  ["inputs"], "every leading byte sequence and every set of zip member names",
  "Each format is tested with one fixture.",
  ["xlrd/__init__.py"],
  [("signature and member inspection", "xlrd/__init__.py:inspect_format"), ("refusal", "xlrd/__init__.py:open_workbook")],
  ["xlrd.inspect_format", "xlrd.open_workbook"])

p("C22", "Content xlrd does not support is ignored without disturbing the rest",
  "Inserting unknown or unsupported records (drawings, charts and other embedded substreams, conditional formats, pivot and macro data, unused settings) anywhere between the supported records, or adding chart, macro and module sheets to a workbook, leaves every supported observation - worksheet list and order, cells, formats, names, annotations - unchanged. Non-worksheet sheets never appear in the worksheet list.",
  ["inputs", "programs"], "every insertion position and every unsupported record code, nesting and sheet-kind interleaving",
  "Fixtures happen to contain a fixed few unsupported records.",
  ["xlrd/sheet.py", "xlrd/book.py"],
  [("default branch of the record loops", "xlrd/sheet.py:Sheet.read, xlrd/book.py:Book.parse_globals"), ("embedded substreams", "xlrd/sheet.py:Sheet.read EMBEDDED BOF"), ("sheet-kind filtering", "xlrd/book.py:Book.handle_boundsheet")],
  ["canonical dump before/after insertion"])

p("C23", "Opening an untrusted workbook has no side effects",
  "Opening and fully reading any workbook, valid or hostile, only reads the one named input and writes to the given log: it does not open, create or modify any other file, run programs or code taken from the file, use the network, follow the workbook's links, or change process-wide state.",
  ["inputs"], "every workbook including ones carrying links, external references, macros and hostile names",
  "Tests assert values, never effects.",
  ["xlrd/__init__.py", "xlrd/book.py", "xlrd/formula.py", "xlrd/sheet.py"],
  [("input selection", "xlrd/book.py:Book.biff2_8_load"), ("links and external references", "xlrd/book.py:Book.handle_supbook, xlrd/sheet.py:Sheet.handle_hlink")],
  ["Python audit events", "process state snapshot"])

p("C24", "The workbook inventory is exact: version, settings and the worksheet list",
  "For every workbook in any supported version, whatever form its beginning-of-file record takes and in whatever order its global records, sheet directory and sheet substreams are laid out, the reported file version, date system, countries, code page and user name are those stored (or the documented defaults), and the worksheets reported are exactly those in the sheet directory, in directory order, with their stored names, numbers, visibility and content, chart, macro and module sheets left out. A sheet obtained by index, negative index, name, indexing or iteration is always the one at that position or with exactly that name; a missing name raises the library's error and a missing index IndexError; lists handed out are the caller's own. A stream whose beginning says it is not a workbook or worksheet of a supported version is refused with the library's error.",
  ["inputs", "programs"], "every version, beginning-of-file form, sheet-kind sequence, directory order, substream order and lookup",
  "Fixtures are a handful of Excel-written files whose sheets lie in directory order with the usual records first.",
  ["xlrd/book.py"],
  [("version and stream-type decision", "xlrd/book.py:Book.getbof"), ("sheet directory", "xlrd/book.py:Book.handle_boundsheet, handle_sheethdr, handle_sheetsoffset"), ("sheet lookup", "xlrd/book.py:Book.sheet_by_index, sheet_by_name, __getitem__, __iter__, sheets, sheet_names"), ("workbook settings", "xlrd/book.py:Book.handle_datemode, handle_country, handle_writeaccess, handle_codepage")],
  ["Book.biff_version", "Book.nsheets", "Book.sheet_names", "Book.sheet_by_index/name", "Book.__getitem__"])

p("C25", "A workbook survives pickling and deep copying whole",
  "A Book opened with a picklable log and holding no memory map (opened from bytes, fully loaded, or with its resources released), and every sheet, row of cells, cell, formatting object, row or column record, note, hyperlink and defined name in it, can be pickled with every protocol Python supports for it and deep-copied. The copy - in the same process or a fresh one - reports every value the original reports, knows which sheets are loaded and loads the others from the same bytes, its sheets and names refer to the copy and not to the original, and neither is affected by changes made to the other.",
  ["inputs", "programs"], "every workbook, option set, loading state, pickle protocol and object kind",
  "No test pickles or copies anything, though the change log promises that books and sheets can be pickled.",
  ["xlrd/book.py", "xlrd/sheet.py", "xlrd/formatting.py", "xlrd/formula.py", "xlrd/biffh.py"],
  [("hand-written state", "xlrd/sheet.py:Rowinfo.__getstate__, __setstate__"), ("slots", "xlrd/sheet.py:Cell"), ("back references", "xlrd/book.py:Name, Book; xlrd/sheet.py:Sheet")],
  ["pickle.dumps/loads, copy.deepcopy", "Book, Sheet, Cell, XF, Name, ..."])

p("C26", "Objects describe themselves completely and compare by value",
  "Every object a Book gives access to (Book, Sheet, Cell, Name, Font, Format, XF and its parts, row and column records, notes, hyperlinks) can be dumped: dump(f, header, footer, indent) never fails, writes only to f (standard error if none is given) - the header, then every public attribute set on the object in name order as its ASCII repr, lists and dicts as their type and length, nested objects under a heading and indented by 4, then the footer - changes nothing and loads no sheet. repr() of a cell shows its type, value and XF index if any, that of a sheet its number and name, that of an operand or 3D reference its parts. Two Font, Format, XFBorder, XFBackground, XFAlignment or XFProtection objects of one class are equal exactly when all their attributes are, != is the opposite of ==, and comparing one with any other object gives False rather than an error.",
  ["inputs"], "every object of every workbook, with every attribute value",
  "Tests print one cell and compare no formatting objects; dumps are only checked for a few fixed files, if at all.",
  ["xlrd/biffh.py", "xlrd/formatting.py", "xlrd/sheet.py", "xlrd/formula.py"],
  [("dump", "xlrd/biffh.py:BaseObject.dump"), ("comparison", "xlrd/formatting.py:EqNeAttrs"), ("repr", "xlrd/sheet.py:Cell.__repr__, Sheet.__repr__; xlrd/formula.py:Operand.__repr__, Ref3D.__repr__")],
  ["x.dump()", "repr(x)", "a == b, a != b"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
