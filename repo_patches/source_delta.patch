From 9786fe578fc11fbffec5c05c7fbbd1ee39d9c401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:12 +0000
Subject: [PATCH 01/56] fix: decode BIFF2 WINDOW2 option bytes correctly on
 Python 3

Iterating bytes yields ints on Python 3, so comparing each option with
b'\0' was always unequal and every BIFF2 view flag read as 1.
---
 xlrd/sheet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index a831398..70537e7 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1488,7 +1488,7 @@ class Sheet(BaseObject):
                     attr_names = ("show_formulas", "show_grid_lines", "show_sheet_headers",
                         "panes_are_frozen", "show_zero_values")
                     for attr, char in zip(attr_names, data[0:5]):
-                        setattr(self, attr, int(char != b'\0'))
+                        setattr(self, attr, int(BYTES_ORD(char) != 0))
                     (
                         self.first_visible_rowx, self.first_visible_colx,
                         self.automatic_grid_line_colour,
-- 
2.43.0


From 42f57e3f8eb4935dfe1225597955c52f3ba4e294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:36 +0000
Subject: [PATCH 02/56] fix: count stored units, not decoded characters, in
 formula STRING records

---
 xlrd/sheet.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 70537e7..1671550 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1515,18 +1515,26 @@ class Sheet(BaseObject):
         offset = lenlen
         if bv < 80:
             enc = bk.encoding or bk.derive_encoding()
+        else:
+            enc = "utf_16_le"
+        # The count is in bytes before BIFF8 and in UTF-16 code units from
+        # BIFF8 on, and a multi-byte character may straddle a CONTINUE: so
+        # count the stored units and decode only when all have been collected.
         nchars_found = 0
-        result = UNICODE_LITERAL("")
+        raw = b""
         while 1:
             if bv >= 80:
                 flag = BYTES_ORD(data[offset]) & 1
-                enc = ("latin_1", "utf_16_le")[flag]
-                offset += 1
-            chunk = unicode(data[offset:], enc)
-            result += chunk
-            nchars_found += len(chunk)
+                chunk = data[offset+1:]
+                if not flag: # compressed
+                    chunk = unicode(chunk, "latin_1").encode(enc)
+                nchars_found += len(chunk) // 2
+            else:
+                chunk = data[offset:]
+                nchars_found += len(chunk)
+            raw += chunk
             if nchars_found == nchars_expected:
-                return result
+                return unicode(raw, enc)
             if nchars_found > nchars_expected:
                 msg = ("STRING/CONTINUE: expected %d chars, found %d"
                     % (nchars_expected, nchars_found))
-- 
2.43.0


From 805ae6636057b625cfd4b8d5abc033a6a7032dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:19 +0000
Subject: [PATCH 03/56] fix: give each BIFF4W sheet its own palette

---
 xlrd/book.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xlrd/book.py b/xlrd/book.py
index 6876a3e..e91da30 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -1145,6 +1145,9 @@ class Book(BaseObject):
         posn = BOF_posn - 4 - len(data)
         if DEBUG: fprintf(self.logfile, 'SHEETHDR %d at posn %d: len=%d name=%r\n', sheetno, posn, sheet_len, sheet_name)
         self.initialise_format_info()
+        # like the other format info, any PALETTE belongs to this sheet only
+        self.palette_record = []
+        formatting.initialise_colour_map(self)
         if DEBUG: print('SHEETHDR: xf epilogue flag is %d' % self._xf_epilogue_done, file=self.logfile)
         self._sheet_list.append(None) # get_sheet updates _sheet_list but needs a None beforehand
         self.get_sheet(sheetno, update_pos=False)
-- 
2.43.0


From fdd5343964f5ceebc9b709ca0a10bf7ca5ed7c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:49 +0000
Subject: [PATCH 04/56] fix: size hyperlink URLs in UTF-16 code units

---
 xlrd/sheet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 1671550..7dcdf16 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1791,7 +1791,8 @@ class Sheet(BaseObject):
                 endpos = h.url_or_path.find('\x00')
                 if DEBUG: print("endpos=%d" % endpos, file=self.logfile)
                 h.url_or_path = h.url_or_path[:endpos]
-                true_nbytes = 2 * (endpos + 1)
+                # not 2 * (endpos + 1): a character may take two UTF-16 code units
+                true_nbytes = len(h.url_or_path.encode('UTF-16le')) + 2
                 offset += true_nbytes
                 extra_nbytes = nbytes - true_nbytes
                 extra_data = data[offset:offset + extra_nbytes]
-- 
2.43.0


From 4e6915fd556699c1123f239800fd6f1be6a3a15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:53 +0000
Subject: [PATCH 05/56] fix: build the OLE2 directory tree without recursion
 and refuse loops

---
 xlrd/compdoc.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 412a89e..2fc183c 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -62,13 +62,27 @@ class DirNode(object):
             print("timestamp info", self.tsinfo, file=self.logfile)
 
 def _build_family_tree(dirlist, parent_DID, child_DID):
-    if child_DID < 0: return
-    _build_family_tree(dirlist, parent_DID, dirlist[child_DID].left_DID)
-    dirlist[parent_DID].children.append(child_DID)
-    dirlist[child_DID].parent = parent_DID
-    _build_family_tree(dirlist, parent_DID, dirlist[child_DID].right_DID)
-    if dirlist[child_DID].etype == 1: # storage
-        _build_family_tree(dirlist, child_DID, dirlist[child_DID].root_DID)
+    # Not recursive: a legal tree may be deeper than the recursion limit, and
+    # a corrupt one may contain loops. DID 0 is the root, never a child.
+    seen = set()
+    todo = [(parent_DID, child_DID)]
+    while todo:
+        parent_DID, child_DID = todo.pop()
+        path = []
+        while path or child_DID > 0:
+            if child_DID > 0:
+                if child_DID in seen:
+                    raise CompDocError("directory corruption: entry %d met twice" % child_DID)
+                seen.add(child_DID)
+                path.append(child_DID)
+                child_DID = dirlist[child_DID].left_DID
+            else:
+                child_DID = path.pop()
+                dirlist[parent_DID].children.append(child_DID)
+                dirlist[child_DID].parent = parent_DID
+                if dirlist[child_DID].etype == 1: # storage
+                    todo.append((child_DID, dirlist[child_DID].root_DID))
+                child_DID = dirlist[child_DID].right_DID
 
 
 class CompDoc(object):
-- 
2.43.0


From ddbca4f5c1376f3a0328ca448c0f258a013be78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:53 +0000
Subject: [PATCH 06/56] fix: allow a stream's directory ID to exceed 249

---
 xlrd/compdoc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 2fc183c..2374238 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -134,7 +134,7 @@ class CompDoc(object):
                 % (len(mem), sec_size), file=logfile)
         self.mem_data_secs = mem_data_secs # use for checking later
         self.mem_data_len = mem_data_len
-        seen = self.seen = array.array('B', [0]) * mem_data_secs
+        seen = self.seen = array.array('i', [0]) * mem_data_secs # holds up to DID + 6
 
         if DEBUG:
             print('sec sizes', ssz, sssz, sec_size, self.short_sec_size, file=logfile)
-- 
2.43.0


From c59ad9b4e662f3b5066b6efcf1777c1a878322d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:55 +0000
Subject: [PATCH 07/56] fix: refuse a looping short-stream chain instead of
 reading it for ever

---
 xlrd/compdoc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 2374238..1fa78e7 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -324,6 +324,9 @@ class CompDoc(object):
                     if self.seen[s]:
                         raise CompDocError("%s corruption: seen[%d] == %d" % (name, s, self.seen[s]))
                     self.seen[s] = seen_id
+                elif sectors and not todo:
+                    # short sectors are not recorded in self.seen
+                    raise CompDocError("%s: size exceeds expected %d bytes; corrupt?" % (name, size))
                 start_pos = base + s * sec_size
                 grab = sec_size
                 if grab > todo:
-- 
2.43.0


From bb155b5ba0baf37749f94edd778f13d2044e9a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:50 +0000
Subject: [PATCH 08/56] fix: locate the sectors of version 4 compound files

---
 xlrd/compdoc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 1fa78e7..119c46a 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -116,6 +116,10 @@ class CompDoc(object):
             print("WARNING: short stream sector size (2**%d) is preposterous; assuming 64 and continuing ..."
                 % sssz, file=logfile)
             sssz = 6
+        if version == 4 and ssz > 9:
+            # In a version 4 file the header takes up a whole sector, not just
+            # 512 bytes; drop its padding so that the rest is as in version 3.
+            self.mem = mem = mem[:512] + mem[1 << ssz:]
         self.sec_size = sec_size = 1 << ssz
         self.short_sec_size = 1 << sssz
         if self.sec_size != 512 or self.short_sec_size != 64:
-- 
2.43.0


From d56447887dfbf97e6cfa2457c94733cbe5e206b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:56 +0000
Subject: [PATCH 09/56] fix: refuse a short-stream chain that ends before the
 stream does

---
 xlrd/compdoc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 119c46a..8335b5f 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -346,6 +346,8 @@ class CompDoc(object):
                     )
             assert s == EOCSID
             if todo != 0:
+                if seen_id is None:
+                    raise CompDocError("%s: expected size %d bytes, actual size %d; corrupt?" % (name, size, size - todo))
                 fprintf(self.logfile,
                     "WARNING *** OLE2 stream %r: expected size %d, actual size %d\n",
                     name, size, size - todo)
-- 
2.43.0


From 0f1120f30c46b2ae09611e09bffa17aa00e5cc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:43 +0000
Subject: [PATCH 10/56] fix: refuse a stream whose sectors before the last are
 truncated

---
 xlrd/compdoc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 8335b5f..d6d1118 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -307,6 +307,8 @@ class CompDoc(object):
         if size is None:
             # nothing to check against
             while s >= 0:
+                if sectors and len(sectors[-1]) < sec_size:
+                    raise CompDocError("%s: file is truncated within the stream" % name)
                 if seen_id is not None:
                     if self.seen[s]:
                         raise CompDocError("%s corruption: seen[%d] == %d" % (name, s, self.seen[s]))
@@ -324,6 +326,8 @@ class CompDoc(object):
         else:
             todo = size
             while s >= 0:
+                if sectors and todo and len(sectors[-1]) < sec_size:
+                    raise CompDocError("%s: file is truncated within the stream" % name)
                 if seen_id is not None:
                     if self.seen[s]:
                         raise CompDocError("%s corruption: seen[%d] == %d" % (name, s, self.seen[s]))
@@ -476,6 +480,8 @@ class CompDoc(object):
         if not slices:
             # The stream is contiguous ... just what we like!
             return (mem, start_pos, expected_stream_size)
+        if max(slices)[1] > len(mem):
+            raise CompDocError("%s: file is truncated within the stream" % qname)
         slices.append((start_pos, end_pos))
         # print >> self.logfile, "+++>>> %d fragments" % len(slices)
         return (b''.join(mem[start_pos:end_pos] for start_pos, end_pos in slices), 0, expected_stream_size)
-- 
2.43.0


From f3848d5cd0bb462a51ed617fe3bb878792ed318c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:25 +0000
Subject: [PATCH 11/56] fix: skip phonetic data that spans several CONTINUE
 records, or claims a negative size

---
 xlrd/book.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index e91da30..66aaaa5 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -1414,7 +1414,7 @@ def unpack_SST_table(datatab, nstrings):
             rtcount = local_unpack('<H', data[pos:pos+2])[0]
             pos += 2
         if options & 0x04: # phonetic
-            phosz = local_unpack('<i', data[pos:pos+4])[0]
+            phosz = local_unpack('<I', data[pos:pos+4])[0]
             pos += 4
         accstrg = UNICODE_LITERAL('')
         charsgot = 0
@@ -1464,7 +1464,7 @@ def unpack_SST_table(datatab, nstrings):
             richtext_runs[len(strings)] = runs
 
         pos += phosz # size of the phonetic stuff to skip
-        if pos >= datalen:
+        while pos >= datalen:
             # adjust to correct position in next record
             pos = pos - datalen
             datainx += 1
@@ -1473,5 +1473,6 @@ def unpack_SST_table(datatab, nstrings):
                 datalen = len(data)
             else:
                 assert _unused_i == nstrings - 1
+                break
         strappend(accstrg)
     return strings, richtext_runs
-- 
2.43.0


From 724946b15aaf281416699513b3e4fb2b2e4142c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:26 +0000
Subject: [PATCH 12/56] fix: join surrogate pairs split between SST and
 CONTINUE records

---
 xlrd/book.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index 66aaaa5..d510aad 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -1418,12 +1418,18 @@ def unpack_SST_table(datatab, nstrings):
             pos += 4
         accstrg = UNICODE_LITERAL('')
         charsgot = 0
+        pending = b''
         while 1:
             charsneed = nchars - charsgot
             if options & 0x01:
                 # Uncompressed UTF-16
                 charsavail = local_min((datalen - pos) >> 1, charsneed)
-                rawstrg = data[pos:pos+2*charsavail]
+                rawstrg = pending + data[pos:pos+2*charsavail]
+                pending = b''
+                if charsavail < charsneed and b'\xD8' <= rawstrg[-1:] <= b'\xDB':
+                    # The other half of this surrogate pair is in the next record
+                    pending = rawstrg[-2:]
+                    rawstrg = rawstrg[:-2]
                 # if DEBUG: print "SST U16: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
                 try:
                     accstrg += unicode(rawstrg, "utf_16_le")
@@ -1440,7 +1446,7 @@ def unpack_SST_table(datatab, nstrings):
                 charsavail = local_min(datalen - pos, charsneed)
                 rawstrg = data[pos:pos+charsavail]
                 # if DEBUG: print "SST CMPRSD: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                accstrg += unicode(rawstrg, latin_1)
+                accstrg += unicode(pending, "utf_16_le") + unicode(rawstrg, latin_1)
                 pos += charsavail
             charsgot += charsavail
             if charsgot == nchars:
-- 
2.43.0


From e1ee6eb492f6b99bfc28c5f7ef6c98569eb87aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:50 +0000
Subject: [PATCH 13/56] fix: number a sheet loaded on demand by a negative
 index correctly

---
 xlrd/book.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xlrd/book.py b/xlrd/book.py
index d510aad..37062b4 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -696,6 +696,9 @@ class Book(BaseObject):
     def get_sheet(self, sh_number, update_pos=True):
         if self._resources_released:
             raise XLRDError("Can't load sheets after releasing resources.")
+        if sh_number < 0:
+            # counted from the end, as sheet_by_index() allows for a loaded sheet
+            sh_number += len(self._sheet_names)
         if update_pos:
             self._position = self._sh_abs_posn[sh_number]
         self.getbof(XL_WORKSHEET)
-- 
2.43.0


From ac39523cf7a01373da5d6cc71dd24de548410e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:44 +0000
Subject: [PATCH 14/56] fix: expand ~ in the path given to open_workbook, not
 only when inspecting it

---
 xlrd/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xlrd/__init__.py b/xlrd/__init__.py
index 84d5f26..798ebe3 100644
--- a/xlrd/__init__.py
+++ b/xlrd/__init__.py
@@ -163,6 +163,9 @@ def open_workbook(filename=None,
     :returns: An instance of the :class:`~xlrd.book.Book` class.
     """
 
+    if filename:
+        # as inspect_format() does
+        filename = os.path.expanduser(filename)
     file_format = inspect_format(filename, file_contents)
     # We have to let unknown file formats pass through here, as some ancient
     # files that xlrd can parse don't start with the expected signature.
-- 
2.43.0


From f323e09bf57ad3dd60ffabc4bb0110be88f7e871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:15 +0000
Subject: [PATCH 15/56] fix: type a number as a number when its format code is
 unknown

---
 xlrd/formatting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/formatting.py b/xlrd/formatting.py
index ca637b8..74fad72 100644
--- a/xlrd/formatting.py
+++ b/xlrd/formatting.py
@@ -1036,7 +1036,7 @@ def xf_epilogue(self):
             fmt = self.format_map[xf.format_key]
             cellty = _cellty_from_fmtty[fmt.type]
         except KeyError:
-            cellty = XL_CELL_TEXT
+            cellty = XL_CELL_NUMBER
         self._xf_index_to_xl_type_map[xf.xf_index] = cellty
         # Now for some assertions etc
         if not self.formatting_info:
-- 
2.43.0


From 79b98ff5b066a6efa353c24d9880a60074e2bdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:09 +0000
Subject: [PATCH 16/56] fix: a function call without arguments takes nothing
 from the operand stack

ROW(), COLUMN() and the like are stored as tFuncVar with zero arguments;
stack[-0:] is the whole stack, so =5+ROW() lost its first operand and the
following operator's assertion stopped the workbook from opening.
---
 xlrd/formula.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 00e4464..cc1a70f 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1085,7 +1085,8 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 assert minargs <= nargs <= maxargs
                 assert len(stack) >= nargs
                 assert len(stack) >= nargs
-                argtext = listsep.join(arg.text for arg in stack[-nargs:])
+                args = stack[len(stack)-nargs:]
+                argtext = listsep.join(arg.text for arg in args)
                 otext = "%s(%s)" % (func_name, argtext)
                 res = Operand(oUNK, None, FUNC_RANK, otext)
                 if funcx == 1: # IF
@@ -1118,7 +1119,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                                 res.kind, res.value = oNUM, 0
                             else:
                                 res.kind, res.value = chosen.kind, chosen.value
-                del stack[-nargs:]
+                del stack[len(stack)-nargs:]
                 spush(res)
         elif opcode == 0x03: #tName
             tgtnamex = unpack("<H", data[pos+1:pos+3])[0] - 1
@@ -1656,10 +1657,11 @@ def decompile_formula(bk, fmla, fmlalen,
                 assert minargs <= nargs <= maxargs
                 assert len(stack) >= nargs
                 assert len(stack) >= nargs
-                argtext = listsep.join(arg.text for arg in stack[-nargs:])
+                args = stack[len(stack)-nargs:]
+                argtext = listsep.join(arg.text for arg in args)
                 otext = "%s(%s)" % (func_name, argtext)
                 res = Operand(oUNK, None, FUNC_RANK, otext)
-                del stack[-nargs:]
+                del stack[len(stack)-nargs:]
                 spush(res)
         elif opcode == 0x03: #tName
             tgtnamex = unpack("<H", data[pos+1:pos+3])[0] - 1
-- 
2.43.0


From 13f64d0416101a71481d62d92049a030db2ab95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:12 +0000
Subject: [PATCH 17/56] fix: parenthesise right operands and unions in formula
 text

=1-(2-3) was rendered as 1.0-2.0-3.0, =SUM((A1,B1)) like a call with two
arguments, and a union inside a range or intersection lost its
parentheses, because the text did not distinguish operators of equal rank.
---
 xlrd/formula.py | 66 ++++++++++++++++++++++++++++---------------------
 1 file changed, 38 insertions(+), 28 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index cc1a70f..4993ea0 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -745,6 +745,16 @@ unop_rules = {
 
 LEAF_RANK = 90
 FUNC_RANK = 90
+# the reference operators, tightest first
+RANGE_RANK = 80
+ISECT_RANK = 78
+LIST_RANK = 76
+
+def arg_text(arg):
+    # the comma of a union must not read as an argument separator
+    if arg.rank == LIST_RANK:
+        return "(%s)" % arg.text
+    return arg.text
 
 STACK_ALARM_LEVEL = 5
 STACK_PANIC_LEVEL = 10
@@ -782,9 +792,9 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
             aop.text,
             ')'[:aop.rank < rank],
             sym,
-            '('[:bop.rank < rank],
+            '('[:bop.rank <= rank],
             bop.text,
-            ')'[:bop.rank < rank],
+            ')'[:bop.rank <= rank],
         ])
         resop = Operand(result_kind, None, rank, otext)
         try:
@@ -860,15 +870,15 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 bop = stack.pop()
                 aop = stack.pop()
                 sym = ' '
-                rank = 80 ########## check #######
+                rank = ISECT_RANK
                 otext = ''.join([
                     '('[:aop.rank < rank],
                     aop.text,
                     ')'[:aop.rank < rank],
                     sym,
-                    '('[:bop.rank < rank],
+                    '('[:bop.rank <= rank],
                     bop.text,
-                    ')'[:bop.rank < rank],
+                    ')'[:bop.rank <= rank],
                 ])
                 res = Operand(oREF)
                 res.text = otext
@@ -910,15 +920,15 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 bop = stack.pop()
                 aop = stack.pop()
                 sym = ','
-                rank = 80 ########## check #######
+                rank = LIST_RANK
                 otext = ''.join([
                     '('[:aop.rank < rank],
                     aop.text,
                     ')'[:aop.rank < rank],
                     sym,
-                    '('[:bop.rank < rank],
+                    '('[:bop.rank <= rank],
                     bop.text,
-                    ')'[:bop.rank < rank],
+                    ')'[:bop.rank <= rank],
                 ])
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
@@ -941,15 +951,15 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 bop = stack.pop()
                 aop = stack.pop()
                 sym = ':'
-                rank = 80 ########## check #######
+                rank = RANGE_RANK
                 otext = ''.join([
                     '('[:aop.rank < rank],
                     aop.text,
                     ')'[:aop.rank < rank],
                     sym,
-                    '('[:bop.rank < rank],
+                    '('[:bop.rank <= rank],
                     bop.text,
-                    ')'[:bop.rank < rank],
+                    ')'[:bop.rank <= rank],
                 ])
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
@@ -1009,7 +1019,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     if blah: print("tAttrSum", stack, file=bk.logfile)
                     assert len(stack) >= 1
                     aop = stack[-1]
-                    otext = 'SUM(%s)' % aop.text
+                    otext = 'SUM(%s)' % arg_text(aop)
                     stack[-1] = Operand(oNUM, None, FUNC_RANK, otext)
                 else:
                     sz = 4
@@ -1057,7 +1067,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                           % (funcx, func_name, nargs), file=bk.logfile)
                 assert len(stack) >= nargs
                 if nargs:
-                    argtext = listsep.join(arg.text for arg in stack[-nargs:])
+                    argtext = listsep.join(arg_text(arg) for arg in stack[-nargs:])
                     otext = "%s(%s)" % (func_name, argtext)
                     del stack[-nargs:]
                 else:
@@ -1086,7 +1096,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 assert len(stack) >= nargs
                 assert len(stack) >= nargs
                 args = stack[len(stack)-nargs:]
-                argtext = listsep.join(arg.text for arg in args)
+                argtext = listsep.join(arg_text(arg) for arg in args)
                 otext = "%s(%s)" % (func_name, argtext)
                 res = Operand(oUNK, None, FUNC_RANK, otext)
                 if funcx == 1: # IF
@@ -1391,9 +1401,9 @@ def decompile_formula(bk, fmla, fmlalen,
             aop.text,
             ')'[:aop.rank < rank],
             sym,
-            '('[:bop.rank < rank],
+            '('[:bop.rank <= rank],
             bop.text,
-            ')'[:bop.rank < rank],
+            ')'[:bop.rank <= rank],
         ])
         resop = Operand(result_kind, None, rank, otext)
         stk.append(resop)
@@ -1463,15 +1473,15 @@ def decompile_formula(bk, fmla, fmlalen,
                 bop = stack.pop()
                 aop = stack.pop()
                 sym = ' '
-                rank = 80 ########## check #######
+                rank = ISECT_RANK
                 otext = ''.join([
                     '('[:aop.rank < rank],
                     aop.text,
                     ')'[:aop.rank < rank],
                     sym,
-                    '('[:bop.rank < rank],
+                    '('[:bop.rank <= rank],
                     bop.text,
-                    ')'[:bop.rank < rank],
+                    ')'[:bop.rank <= rank],
                 ])
                 res = Operand(oREF)
                 res.text = otext
@@ -1499,15 +1509,15 @@ def decompile_formula(bk, fmla, fmlalen,
                 bop = stack.pop()
                 aop = stack.pop()
                 sym = ','
-                rank = 80 ########## check #######
+                rank = LIST_RANK
                 otext = ''.join([
                     '('[:aop.rank < rank],
                     aop.text,
                     ')'[:aop.rank < rank],
                     sym,
-                    '('[:bop.rank < rank],
+                    '('[:bop.rank <= rank],
                     bop.text,
-                    ')'[:bop.rank < rank],
+                    ')'[:bop.rank <= rank],
                 ])
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
@@ -1526,15 +1536,15 @@ def decompile_formula(bk, fmla, fmlalen,
                 bop = stack.pop()
                 aop = stack.pop()
                 sym = ':'
-                rank = 80 ########## check #######
+                rank = RANGE_RANK
                 otext = ''.join([
                     '('[:aop.rank < rank],
                     aop.text,
                     ')'[:aop.rank < rank],
                     sym,
-                    '('[:bop.rank < rank],
+                    '('[:bop.rank <= rank],
                     bop.text,
-                    ')'[:bop.rank < rank],
+                    ')'[:bop.rank <= rank],
                 ])
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
@@ -1578,7 +1588,7 @@ def decompile_formula(bk, fmla, fmlalen,
                     if blah: print("tAttrSum", stack, file=bk.logfile)
                     assert len(stack) >= 1
                     aop = stack[-1]
-                    otext = 'SUM(%s)' % aop.text
+                    otext = 'SUM(%s)' % arg_text(aop)
                     stack[-1] = Operand(oNUM, None, FUNC_RANK, otext)
                 else:
                     sz = 4
@@ -1625,7 +1635,7 @@ def decompile_formula(bk, fmla, fmlalen,
                           % (funcx, func_name, nargs), file=bk.logfile)
                 assert len(stack) >= nargs
                 if nargs:
-                    argtext = listsep.join(arg.text for arg in stack[-nargs:])
+                    argtext = listsep.join(arg_text(arg) for arg in stack[-nargs:])
                     otext = "%s(%s)" % (func_name, argtext)
                     del stack[-nargs:]
                 else:
@@ -1658,7 +1668,7 @@ def decompile_formula(bk, fmla, fmlalen,
                 assert len(stack) >= nargs
                 assert len(stack) >= nargs
                 args = stack[len(stack)-nargs:]
-                argtext = listsep.join(arg.text for arg in args)
+                argtext = listsep.join(arg_text(arg) for arg in args)
                 otext = "%s(%s)" % (func_name, argtext)
                 res = Operand(oUNK, None, FUNC_RANK, otext)
                 del stack[len(stack)-nargs:]
-- 
2.43.0


From da3eb8b06057a259164d07422eb33ab9d96fc8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:25 +0000
Subject: [PATCH 18/56] fix: evaluate failing and mixed-type arithmetic in
 names as Excel does

A name such as =1/0, ="a"+1, =-"x" or =2^10000 raised out of
open_workbook, =(-8)^0.5 gave a complex number, and ="a"<1 raised on
Python 3.  The first kind is now an error operand; text compares greater
than numbers, without regard to case.
---
 xlrd/formula.py | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 4993ea0..b317e4a 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -718,9 +718,21 @@ def num2strg(num):
         s = s[:-2]
     return s
 
+def check_result(kind, value):
+    # What Excel would report as an error is a ValueError here.
+    if kind == oBOOL:
+        return 1 if value else 0
+    if kind == oNUM and (isinstance(value, complex) or not abs(value) < float('inf')):
+        raise ValueError("not a finite number: %r" % (value, ))
+    return value
+
+def _cmp_num(num): return 0, num
+def _cmp_strg(strg): return 1, strg.lower()
+
 _arith_argdict = {oNUM: nop,     oSTRG: float}
-_cmp_argdict =   {oNUM: nop,     oSTRG: nop}
-# Seems no conversions done on relops; in Excel, "1" > 9 produces TRUE.
+_cmp_argdict =   {oNUM: _cmp_num, oSTRG: _cmp_strg}
+# Seems no conversions done on relops; in Excel, "1" > 9 produces TRUE:
+# any text is greater than any number. Text comparison ignores case.
 _strg_argdict =  {oNUM:num2strg, oSTRG:nop}
 binop_rules = {
     tAdd:   (_arith_argdict, oNUM, opr.add,  30, '+'),
@@ -806,11 +818,15 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
         if bop.value is None or aop.value is None:
             stk.append(resop)
             return
-        bval = bconv(bop.value)
-        aval = aconv(aop.value)
-        result = func(aval, bval)
-        if result_kind == oBOOL:
-            result = 1 if result else 0
+        try:
+            bval = bconv(bop.value)
+            aval = aconv(aop.value)
+            result = check_result(result_kind, func(aval, bval))
+        except (ArithmeticError, ValueError):
+            # Excel would show #DIV/0!, #NUM! or #VALUE!
+            resop.kind = oERR
+            stk.append(resop)
+            return
         resop.value = result
         stk.append(resop)
 
@@ -826,9 +842,16 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
             ')'[:aop.rank < rank],
             sym2,
         ])
+        kind = result_kind
+        if aop.kind not in (oNUM, oBOOL, oSTRG):
+            # the value, if any, is not a constant
+            val = None
         if val is not None:
-            val = func(val)
-        stk.append(Operand(result_kind, val, rank, otext))
+            try:
+                val = check_result(kind, func(float(val)))
+            except (ArithmeticError, ValueError):
+                kind, val = oERR, None
+        stk.append(Operand(kind, val, rank, otext))
 
     def not_in_name_formula(op_arg, oname_arg):
         msg = "ERROR *** Token 0x%02x (%s) found in NAME formula" \
-- 
2.43.0


From cd2d1eae0653017a49e3d08f86eef1b0b2ec07f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:26 +0000
Subject: [PATCH 19/56] fix: empty intersections and nested unions in names

A1:B2 D4:E5 evaluated to an area whose end precedes its start instead of
the error #NULL!, and a union whose right operand is a union failed an
assertion.
---
 xlrd/formula.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index b317e4a..bc92c4f 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -921,7 +921,12 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                         assert len(bop.value) == 1
                         coords = do_box_funcs(
                             tIsectFuncs, aop.value[0], bop.value[0])
-                        res.value = [Ref3D(coords)]
+                        if (coords[0] < coords[1] and coords[2] < coords[3]
+                                and coords[4] < coords[5]):
+                            res.value = [Ref3D(coords)]
+                        else: # nothing in common
+                            res.kind = oERR
+                            res.value = 0x00 # #NULL!
                 elif bop.kind == oREL == aop.kind:
                     res.kind = oREL
                     if aop.value is not None and bop.value is not None:
@@ -962,7 +967,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                         res.kind = oREL
                     if aop.value is not None and bop.value is not None:
                         assert len(aop.value) >= 1
-                        assert len(bop.value) == 1
+                        assert len(bop.value) >= 1
                         res.value = aop.value + bop.value
                 else:
                     pass
-- 
2.43.0


From 81495ee9b84ae21e6a4a94423d8fb26f9c82790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:10 +0000
Subject: [PATCH 20/56] fix: quote sheet names in reference text exactly when
 needed

Only names with a space or an apostrophe were quoted, so Sheet-1!$A$1 or
2012!$A$1 did not denote the reference; a sheet range was quoted name by
name instead of as a whole; and the scope of a name was never quoted, nor
looked up safely when it is not a worksheet.
---
 xlrd/formula.py | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index bc92c4f..3f59c35 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -12,6 +12,7 @@ from __future__ import print_function
 
 import copy
 import operator as opr
+import re
 from struct import unpack
 
 from .biffh import (
@@ -1185,7 +1186,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 res.text = tgtobj.name
             else:
                 res.text = "%s!%s" \
-                           % (bk._sheet_names[tgtobj.scope], tgtobj.name)
+                           % (quotedsheetname(bk.sheet_names(), tgtobj.scope), tgtobj.name)
             if blah:
                 print("    tName: setting text to", repr(res.text), file=bk.logfile)
             spush(res)
@@ -1364,7 +1365,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     res.text = tgtobj.name
                 else:
                     res.text = "%s!%s" \
-                               % (bk._sheet_names[tgtobj.scope], tgtobj.name)
+                               % (quotedsheetname(bk.sheet_names(), tgtobj.scope), tgtobj.name)
                 if blah:
                     print("    tNameX: setting text to", repr(res.text), file=bk.logfile)
             spush(res)
@@ -1709,7 +1710,7 @@ def decompile_formula(bk, fmla, fmlalen,
             if tgtobj.scope == -1:
                 otext = tgtobj.name
             else:
-                otext = "%s!%s" % (bk._sheet_names[tgtobj.scope], tgtobj.name)
+                otext = "%s!%s" % (quotedsheetname(bk.sheet_names(), tgtobj.scope), tgtobj.name)
             if blah:
                 print("    tName: setting text to", repr(otext), file=bk.logfile)
             res = Operand(oUNK, None, LEAF_RANK, otext)
@@ -1893,7 +1894,7 @@ def decompile_formula(bk, fmla, fmlalen,
                     otext = tgtobj.name
                 else:
                     otext = "%s!%s" \
-                            % (bk._sheet_names[tgtobj.scope], tgtobj.name)
+                            % (quotedsheetname(bk.sheet_names(), tgtobj.scope), tgtobj.name)
                 if blah:
                     print("    tNameX: setting text to", repr(res.text), file=bk.logfile)
             res = Operand(okind, ovalue, LEAF_RANK, otext)
@@ -2199,24 +2200,39 @@ def rangename3drel(book, ref3d, browx=None, bcolx=None, r1c1=0):
 def quotedsheetname(shnames, shx):
     if shx >= 0:
         shname = shnames[shx]
-    else:
-        shname = {
-            -1: "?internal; any sheet?",
-            -2: "internal; deleted sheet",
-            -3: "internal; macro sheet",
-            -4: "<<external>>",
-        }.get(shx, "?error %d?" % shx)
-    if "'" in shname:
-        return "'" + shname.replace("'", "''") + "'"
+        if sheetname_needs_quotes(shname):
+            return "'" + shname.replace("'", "''") + "'"
+        return shname
+    shname = {
+        -1: "?internal; any sheet?",
+        -2: "internal; deleted sheet",
+        -3: "internal; macro sheet",
+        -4: "<<external>>",
+    }.get(shx, "?error %d?" % shx)
     if " " in shname:
         return "'" + shname + "'"
     return shname
 
+# a plain identifier ...
+_plain_name_match = re.compile(r"[^\W\d][\w.]*\Z", re.UNICODE).match
+# ... which can't be mistaken for a cell, row or column
+_cell_like_match = re.compile(r"(?:[A-Z]{1,3}\d+|R\d*|C\d*|R\d*C\d*)\Z", re.IGNORECASE).match
+
+def sheetname_needs_quotes(shname):
+    return not _plain_name_match(shname) or bool(_cell_like_match(shname))
+
 def sheetrange(book, slo, shi):
     shnames = book.sheet_names()
     shdesc = quotedsheetname(shnames, slo)
     if slo != shi-1:
-        shdesc += ":" + quotedsheetname(shnames, shi-1)
+        shdesc2 = quotedsheetname(shnames, shi-1)
+        if "'" in shdesc + shdesc2: # one pair of quotes around both
+            shdesc, shdesc2 = [
+                desc[1:-1] if desc[:1] == "'" else desc
+                for desc in (shdesc, shdesc2)
+            ]
+            return "'" + shdesc + ":" + shdesc2 + "'"
+        shdesc += ":" + shdesc2
     return shdesc
 
 def sheetrangerel(book, srange, srangerel):
-- 
2.43.0


From 05398f010c02ff4859b5dd5e617a698fb0cd5e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:40 +0000
Subject: [PATCH 21/56] fix: let rangename2d render absolute ranges in R1C1
 style

It returned None.
---
 xlrd/formula.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 3f59c35..54e84af 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -2149,8 +2149,6 @@ def colname(colx):
 
 def rangename2d(rlo, rhi, clo, chi, r1c1=0):
     """ ``(5, 20, 7, 10)`` => ``'$H$6:$J$20'`` """
-    if r1c1:
-        return
     if rhi == rlo+1 and chi == clo+1:
         return cellnameabs(rlo, clo, r1c1)
     return "%s:%s" % (cellnameabs(rlo, clo, r1c1), cellnameabs(rhi-1, chi-1, r1c1))
-- 
2.43.0


From 86f1105c888f5a94367749703ebe322a9ff2d6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:42 +0000
Subject: [PATCH 22/56] fix: render 2-D references and error constants in
 formula text

In a name's formula text 2-D references came out as '?' and error values
as quoted strings.  decompile_formula crashed on a range with an error
operand, on tMemArea, on a 3-D area relative to a base cell, and when
tracing tNameX.
---
 xlrd/formula.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 54e84af..ac19d5d 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1071,7 +1071,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 elif inx == 1: # tBool
                     text = ('FALSE', 'TRUE')[value]
                 else:
-                    text = '"' +error_text_from_code[value] + '"'
+                    text = error_text_from_code[value]
                 spush(Operand(kind, value, LEAF_RANK, text))
             else:
                 raise FormulaError("Unhandled opcode: 0x%02x" % opcode)
@@ -1203,6 +1203,8 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
             if optype == 1:
                 relflags = (1, 1, row_rel, row_rel, col_rel, col_rel)
                 res = Operand(oREL, [Ref3D(coords + relflags)])
+            res.text = cellnamerel(rowx, colx, row_rel, col_rel, r1c1=1)
+            res.rank = LEAF_RANK
             spush(res)
         elif opcode == 0x05: # tArea
             # not_in_name_formula(op, oname)
@@ -1218,6 +1220,9 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
             if optype == 1:
                 relflags = (1, 1, row_rel1, row_rel2, col_rel1, col_rel2)
                 res = Operand(oREL, [Ref3D(coords + relflags)])
+            res.text = rangename2drel(
+                coords[2:], (row_rel1, row_rel2, col_rel1, col_rel2), r1c1=1)
+            res.rank = LEAF_RANK
             spush(res)
         elif opcode == 0x06: # tMemArea
             not_in_name_formula(op, oname)
@@ -1577,7 +1582,7 @@ def decompile_formula(bk, fmla, fmlalen,
                 ])
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
-                    res = oERR
+                    res.kind = oERR
                 elif bop.kind == oREF == aop.kind:
                     pass
                 else:
@@ -1640,7 +1645,7 @@ def decompile_formula(bk, fmla, fmlalen,
                 elif inx == 1: # tBool
                     text = ('FALSE', 'TRUE')[value]
                 else:
-                    text = '"' +error_text_from_code[value] + '"'
+                    text = error_text_from_code[value]
                 spush(Operand(kind, None, LEAF_RANK, text))
             else:
                 raise FormulaError("Unhandled opcode: 0x%02x" % opcode)
@@ -1744,7 +1749,7 @@ def decompile_formula(bk, fmla, fmlalen,
             res = Operand(okind, None, LEAF_RANK, otext)
             spush(res)
         elif opcode == 0x06: # tMemArea
-            not_in_name_formula(op, oname)
+            pass # no effect on stack
         elif opcode == 0x09: # tMemFunc
             nb = unpack("<H", data[pos+1:pos+3])[0]
             if blah: print("  %d bytes of cell ref formula" % nb, file=bk.logfile)
@@ -1816,11 +1821,11 @@ def decompile_formula(bk, fmla, fmlalen,
             spush(res)
         elif opcode == 0x1B: # tArea3d
             if bv >= 80:
-                res1, res2 = get_cell_range_addr(data, pos+3, bv, reldelta)
+                res1, res2 = get_cell_range_addr(data, pos+3, bv, reldelta, browx, bcolx)
                 refx = unpack("<H", data[pos+1:pos+3])[0]
                 shx1, shx2 = get_externsheet_local_range(bk, refx, blah)
             else:
-                res1, res2 = get_cell_range_addr(data, pos+15, bv, reldelta)
+                res1, res2 = get_cell_range_addr(data, pos+15, bv, reldelta, browx, bcolx)
                 raw_extshtx, raw_shx1, raw_shx2 = unpack("<hxxxxxxxxhh", data[pos+1:pos+15])
                 if blah:
                     print("tArea3d", raw_extshtx, raw_shx1, raw_shx2, file=bk.logfile)
@@ -1896,7 +1901,7 @@ def decompile_formula(bk, fmla, fmlalen,
                     otext = "%s!%s" \
                             % (quotedsheetname(bk.sheet_names(), tgtobj.scope), tgtobj.name)
                 if blah:
-                    print("    tNameX: setting text to", repr(res.text), file=bk.logfile)
+                    print("    tNameX: setting text to", repr(otext), file=bk.logfile)
             res = Operand(okind, ovalue, LEAF_RANK, otext)
             spush(res)
         elif opcode in error_opcodes:
-- 
2.43.0


From 79eb9411c33c762b77d528a1727e96b41e659641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:16 +0000
Subject: [PATCH 23/56] fix: open workbooks with defined names that can't be
 evaluated

Name.result is documented to be None when evaluating the formula
encounters problems, but an unsupported or corrupt formula, a circular
definition or a BIFF5 name with a dud sheet index stopped the whole
workbook from opening.
---
 xlrd/book.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index 37062b4..cc06853 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -1036,8 +1036,11 @@ class Book(BaseObject):
                 if sheet_index == 0:
                     intl_sheet_index = -1 # global
                 else:
-                    sheet_name = self._extnsht_name_from_num[sheet_index]
-                    intl_sheet_index = self._sheet_num_from_name.get(sheet_name, -2)
+                    sheet_name = self._extnsht_name_from_num.get(sheet_index)
+                    if sheet_name is None:
+                        intl_sheet_index = -3 # invalid
+                    else:
+                        intl_sheet_index = self._sheet_num_from_name.get(sheet_name, -2)
             nobj.scope = intl_sheet_index
 
         for namex in range(num_names):
@@ -1045,7 +1048,19 @@ class Book(BaseObject):
             # Parse the formula ...
             if nobj.macro or nobj.binary: continue
             if nobj.evaluated: continue
-            evaluate_name_formula(self, nobj, namex, blah=blah)
+            try:
+                evaluate_name_formula(self, nobj, namex, blah=blah)
+            except Exception as e:
+                # "evaluation of the formula encountered problems"
+                if self.verbosity:
+                    fprintf(f, "*** Can't evaluate name %r: %s: %s\n",
+                        nobj.name, e.__class__.__name__, str(e))
+                nobj.stack = []
+                nobj.result = None
+                nobj.any_rel = 0
+                nobj.any_err = 1
+                nobj.any_external = 0
+                nobj.evaluated = 1
 
         if self.verbosity >= 2:
             print("---------- name object dump ----------", file=f)
-- 
2.43.0


From 5ea096e77d1fef6fec1e9caab6e61322e5d23048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:16 +0000
Subject: [PATCH 24/56] fix: Name.cell and area2d raise XLRDError for a
 reference without a value

They raised TypeError when the name's reference is not a constant.
---
 xlrd/book.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index cc06853..24a144f 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -209,7 +209,7 @@ class Name(BaseObject):
             # result should be an instance of the Operand class
             kind = res.kind
             value = res.value
-            if kind == oREF and len(value) == 1:
+            if kind == oREF and value and len(value) == 1:
                 ref3d = value[0]
                 if (0 <= ref3d.shtxlo == ref3d.shtxhi - 1 and
                         ref3d.rowxlo == ref3d.rowxhi - 1 and
@@ -246,7 +246,7 @@ class Name(BaseObject):
             # result should be an instance of the Operand class
             kind = res.kind
             value = res.value
-            if kind == oREF and len(value) == 1: # only 1 reference
+            if kind == oREF and value and len(value) == 1: # only 1 reference
                 ref3d = value[0]
                 if 0 <= ref3d.shtxlo == ref3d.shtxhi - 1: # only 1 usable sheet
                     sh = self.book.sheet_by_index(ref3d.shtxlo)
-- 
2.43.0


From da2cf315fb41949d504df692132b4f1bd908ea88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:39 +0000
Subject: [PATCH 25/56] fix: bound the values that names built from names can
 take

Forty names of the form =previous&previous made opening a small file
exhaust memory, as did unions of unions; copying a name's value no longer
copies its areas.
---
 xlrd/formula.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index ac19d5d..59fe831 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -719,10 +719,17 @@ def num2strg(num):
         s = s[:-2]
     return s
 
+# Without limits, a name that refers twice to a name that refers twice ...
+# takes memory exponential in the size of the file.
+MAX_TEXT_LENGTH = 32767 # as in Excel
+MAX_AREAS = 4096
+
 def check_result(kind, value):
     # What Excel would report as an error is a ValueError here.
     if kind == oBOOL:
         return 1 if value else 0
+    if kind == oSTRG and len(value) > MAX_TEXT_LENGTH:
+        raise ValueError("text is too long")
     if kind == oNUM and (isinstance(value, complex) or not abs(value) < float('inf')):
         raise ValueError("not a finite number: %r" % (value, ))
     return value
@@ -969,6 +976,8 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     if aop.value is not None and bop.value is not None:
                         assert len(aop.value) >= 1
                         assert len(bop.value) >= 1
+                        if len(aop.value) + len(bop.value) > MAX_AREAS:
+                            raise FormulaError("too many areas in a union")
                         res.value = aop.value + bop.value
                 else:
                     pass
@@ -1180,7 +1189,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 any_rel = any_rel or tgtobj.any_rel
             else:
                 assert len(tgtobj.stack) == 1
-                res = copy.deepcopy(tgtobj.stack[0])
+                res = copy.copy(tgtobj.stack[0])
             res.rank = LEAF_RANK
             if tgtobj.scope == -1:
                 res.text = tgtobj.name
@@ -1364,7 +1373,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     any_rel = any_rel or tgtobj.any_rel
                 else:
                     assert len(tgtobj.stack) == 1
-                    res = copy.deepcopy(tgtobj.stack[0])
+                    res = copy.copy(tgtobj.stack[0])
                 res.rank = LEAF_RANK
                 if tgtobj.scope == -1:
                     res.text = tgtobj.name
-- 
2.43.0


From efee8a5a2e54a761d82132294a695d73ec61618b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:58 +0000
Subject: [PATCH 26/56] fix: an array token in a formula is 8 bytes long, not 9
 (BIFF2: 7)

---
 xlrd/formula.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 59fe831..40158a1 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -98,11 +98,11 @@ listsep = ',' #### probably should depend on locale
 # -1 means variable
 # -2 means this opcode not implemented in this version.
 # Which N to use? Depends on biff_version; see szdict.
-sztab0 = [-2, 4, 4, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 8, 4, 2, 2, 3, 9, 8, 2, 3, 8, 4, 7, 5, 5, 5, 2, 4, 7, 4, 7, 2, 2, -2, -2, -2, -2, -2, -2, -2, -2, 3, -2, -2, -2, -2, -2, -2, -2]
-sztab1 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 11, 5, 2, 2, 3, 9, 9, 2, 3, 11, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, 3, -2, -2, -2, -2, -2, -2, -2]
-sztab2 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 11, 5, 2, 2, 3, 9, 9, 3, 4, 11, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2]
-sztab3 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, -2, -2, 2, 2, 3, 9, 9, 3, 4, 15, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, 25, 18, 21, 18, 21, -2, -2]
-sztab4 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -1, -1, -2, -2, 2, 2, 3, 9, 9, 3, 4, 5, 5, 9, 7, 7, 7, 3, 5, 9, 5, 9, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, 7, 7, 11, 7, 11, -2, -2]
+sztab0 = [-2, 4, 4, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 8, 4, 2, 2, 3, 9, 7, 2, 3, 8, 4, 7, 5, 5, 5, 2, 4, 7, 4, 7, 2, 2, -2, -2, -2, -2, -2, -2, -2, -2, 3, -2, -2, -2, -2, -2, -2, -2]
+sztab1 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 11, 5, 2, 2, 3, 9, 8, 2, 3, 11, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, 3, -2, -2, -2, -2, -2, -2, -2]
+sztab2 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 11, 5, 2, 2, 3, 9, 8, 3, 4, 11, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2]
+sztab3 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, -2, -2, 2, 2, 3, 9, 8, 3, 4, 15, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, 25, 18, 21, 18, 21, -2, -2]
+sztab4 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -1, -1, -2, -2, 2, 2, 3, 9, 8, 3, 4, 5, 5, 9, 7, 7, 7, 3, 5, 9, 5, 9, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, 7, 7, 11, 7, 11, -2, -2]
 
 szdict = {
     20 : sztab0,
-- 
2.43.0


From 514a3e26a1e75dd1944b3fc7b253ab2ab3334f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:13 +0000
Subject: [PATCH 27/56] fix: parenthesise a union wherever it is an operand

---
 xlrd/formula.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 40158a1..6baf90d 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -768,7 +768,9 @@ FUNC_RANK = 90
 # the reference operators, tightest first
 RANGE_RANK = 80
 ISECT_RANK = 78
-LIST_RANK = 76
+# A union binds less tightly than those, but its comma would read as an
+# argument separator, so as an operand it is always parenthesised.
+LIST_RANK = 5
 
 def arg_text(arg):
     # the comma of a union must not read as an argument separator
@@ -911,8 +913,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     bop.text,
                     ')'[:bop.rank <= rank],
                 ])
-                res = Operand(oREF)
-                res.text = otext
+                res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
                     res.kind = oERR
                 elif bop.kind == oUNK or aop.kind == oUNK:
@@ -957,14 +958,16 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 aop = stack.pop()
                 sym = ','
                 rank = LIST_RANK
+                # the list operator binds tighter than any arithmetic
+                aparen = aop.rank < ISECT_RANK and aop.rank != LIST_RANK
                 otext = ''.join([
-                    '('[:aop.rank < rank],
+                    '('[:aparen],
                     aop.text,
-                    ')'[:aop.rank < rank],
+                    ')'[:aparen],
                     sym,
-                    '('[:bop.rank <= rank],
+                    '('[:bop.rank < ISECT_RANK],
                     bop.text,
-                    ')'[:bop.rank <= rank],
+                    ')'[:bop.rank < ISECT_RANK],
                 ])
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
@@ -1526,8 +1529,7 @@ def decompile_formula(bk, fmla, fmlalen,
                     bop.text,
                     ')'[:bop.rank <= rank],
                 ])
-                res = Operand(oREF)
-                res.text = otext
+                res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
                     res.kind = oERR
                 elif bop.kind == oUNK or aop.kind == oUNK:
@@ -1553,14 +1555,16 @@ def decompile_formula(bk, fmla, fmlalen,
                 aop = stack.pop()
                 sym = ','
                 rank = LIST_RANK
+                # the list operator binds tighter than any arithmetic
+                aparen = aop.rank < ISECT_RANK and aop.rank != LIST_RANK
                 otext = ''.join([
-                    '('[:aop.rank < rank],
+                    '('[:aparen],
                     aop.text,
-                    ')'[:aop.rank < rank],
+                    ')'[:aparen],
                     sym,
-                    '('[:bop.rank <= rank],
+                    '('[:bop.rank < ISECT_RANK],
                     bop.text,
-                    ')'[:bop.rank <= rank],
+                    ')'[:bop.rank < ISECT_RANK],
                 ])
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
-- 
2.43.0


From cb28eda928405dc00710eb072916a4bd419ea2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:32 +0000
Subject: [PATCH 28/56] fix: a CHOOSE whose selector isn't constant is no error

---
 xlrd/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 6baf90d..5cfa54f 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1163,7 +1163,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                             print("$$$$$$ IF => constant", file=bk.logfile)
                 elif funcx == 100: # CHOOSE
                     testarg = stack[-nargs]
-                    if testarg.kind == oNUM:
+                    if testarg.kind == oNUM and testarg.value is not None:
                         if 1 <= testarg.value < nargs:
                             chosen = stack[-nargs + int(testarg.value)]
                             if chosen.kind == oMSNG:
-- 
2.43.0


From 246a6973b707acc04103ea084847ce22a03785ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:01 +0000
Subject: [PATCH 29/56] fix: intersect references of several areas

---
 xlrd/formula.py | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 5cfa54f..3ed2de5 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -926,21 +926,26 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     pass
                 elif bop.kind == oREF == aop.kind:
                     if aop.value is not None and bop.value is not None:
-                        assert len(aop.value) == 1
-                        assert len(bop.value) == 1
-                        coords = do_box_funcs(
-                            tIsectFuncs, aop.value[0], bop.value[0])
-                        if (coords[0] < coords[1] and coords[2] < coords[3]
-                                and coords[4] < coords[5]):
-                            res.value = [Ref3D(coords)]
+                        # the areas that each pair of areas has in common
+                        if len(aop.value) * len(bop.value) > MAX_AREAS:
+                            raise FormulaError("too many areas in an intersection")
+                        areas = []
+                        for aref in aop.value:
+                            for bref in bop.value:
+                                coords = do_box_funcs(tIsectFuncs, aref, bref)
+                                if (coords[0] < coords[1] and coords[2] < coords[3]
+                                        and coords[4] < coords[5]):
+                                    areas.append(Ref3D(coords))
+                        if areas:
+                            res.value = areas
                         else: # nothing in common
                             res.kind = oERR
                             res.value = 0x00 # #NULL!
                 elif bop.kind == oREL == aop.kind:
                     res.kind = oREL
-                    if aop.value is not None and bop.value is not None:
-                        assert len(aop.value) == 1
-                        assert len(bop.value) == 1
+                    # the value for multiple areas is left unknown
+                    if (aop.value is not None and bop.value is not None
+                            and len(aop.value) == len(bop.value) == 1):
                         coords = do_box_funcs(
                             tIsectFuncs, aop.value[0], bop.value[0])
                         relfa = aop.value[0].relflags
@@ -1006,17 +1011,17 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 if bop.kind == oERR or aop.kind == oERR:
                     res.kind = oERR
                 elif bop.kind == oREF == aop.kind:
-                    if aop.value is not None and bop.value is not None:
-                        assert len(aop.value) == 1
-                        assert len(bop.value) == 1
+                    # the value for multiple areas is left unknown
+                    if (aop.value is not None and bop.value is not None
+                            and len(aop.value) == len(bop.value) == 1):
                         coords = do_box_funcs(
                             tRangeFuncs, aop.value[0], bop.value[0])
                         res.value = [Ref3D(coords)]
                 elif bop.kind == oREL == aop.kind:
                     res.kind = oREL
-                    if aop.value is not None and bop.value is not None:
-                        assert len(aop.value) == 1
-                        assert len(bop.value) == 1
+                    # the value for multiple areas is left unknown
+                    if (aop.value is not None and bop.value is not None
+                            and len(aop.value) == len(bop.value) == 1):
                         coords = do_box_funcs(
                             tRangeFuncs, aop.value[0], bop.value[0])
                         relfa = aop.value[0].relflags
-- 
2.43.0


From 5a61b7c3ce4a344ce1e0a83c47264b50995472df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:48 +0000
Subject: [PATCH 30/56] fix: accept array records of BIFF3 and 4, which have a
 shorter header

Their header is 10 bytes long, 4 less than from BIFF5 on, so a short
array formula made the whole file unreadable.
---
 xlrd/sheet.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 7dcdf16..48f420f 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -954,9 +954,10 @@ class Sheet(BaseObject):
                             if rc2 == XL_STRING or rc2 == XL_STRING_B2:
                                 gotstring = 1
                             elif rc2 == XL_ARRAY:
-                                row1x, rownx, col1x, colnx, array_flags, tokslen = \
-                                    local_unpack("<HHBBBxxxxxH", data2[:14])
                                 if blah_formulas:
+                                    # layout from BIFF5 on; older records can be shorter
+                                    row1x, rownx, col1x, colnx, array_flags, tokslen = \
+                                        local_unpack("<HHBBBxxxxxH", data2[:14])
                                     fprintf(self.logfile, "ARRAY: %d %d %d %d %d\n",
                                         row1x, rownx, col1x, colnx, array_flags)
                                     # dump_formula(bk, data2[14:], tokslen, bv, reldelta=0, blah=1)
@@ -1149,9 +1150,10 @@ class Sheet(BaseObject):
                 )
                 assert pos == data_len
             elif rc == XL_ARRAY:
-                row1x, rownx, col1x, colnx, array_flags, tokslen = \
-                    local_unpack("<HHBBBxxxxxH", data[:14])
                 if blah_formulas:
+                    # layout from BIFF5 on; older records can be shorter
+                    row1x, rownx, col1x, colnx, array_flags, tokslen = \
+                        local_unpack("<HHBBBxxxxxH", data[:14])
                     print("ARRAY:", row1x, rownx, col1x, colnx, array_flags, file=self.logfile)
                     # dump_formula(bk, data[14:], tokslen, bv, reldelta=0, blah=1)
             elif rc == XL_SHRFMLA:
-- 
2.43.0


From 8f41344b4ade943fd4ec659b7df5e1e06e47e957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:33 +0000
Subject: [PATCH 31/56] fix: join surrogate pairs split between the records of
 an object's text

---
 xlrd/sheet.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 48f420f..62fa548 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -2038,7 +2038,7 @@ class Sheet(BaseObject):
             (15, 0x8000, 'secret_edit'),
         ))
         totchars = 0
-        o.text = UNICODE_LITERAL('')
+        pieces = []
         while totchars < cchText:
             rc2, data2_len, data2 = self.book.get_record_parts()
             assert rc2 == XL_CONTINUE
@@ -2046,13 +2046,15 @@ class Sheet(BaseObject):
                 hex_char_dump(data2, 0, data2_len, base=0, fout=self.logfile)
             nb = BYTES_ORD(data2[0]) # 0 means latin1, 1 means utf_16_le
             nchars = data2_len - 1
-            if nb:
+            if nb & 1:
                 assert nchars % 2 == 0
                 nchars //= 2
-            utext, endpos = unpack_unicode_update_pos(data2, 0, known_len=nchars)
-            assert endpos == data2_len
-            o.text += utext
+                pieces.append(data2[1:])
+            else:
+                pieces.append(unicode(data2[1:], 'latin_1').encode('utf_16_le'))
             totchars += nchars
+        # Decode only now: a surrogate pair may be split between two records.
+        o.text = unicode(b''.join(pieces), 'utf_16_le')
         o.rich_text_runlist = []
         totruns = 0
         while totruns < cbRuns: # counts of BYTES, not runs
-- 
2.43.0


From 36d82b3ea9e16daa6e782c4751dab4170442cbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:35 +0000
Subject: [PATCH 32/56] fix: accept an object's text without an object record
 before it

---
 xlrd/sheet.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 62fa548..c1dbd7a 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -807,6 +807,7 @@ class Sheet(BaseObject):
         do_sst_rich_text = fmt_info and bk._rich_text_runlist_map
         rowinfo_sharing_dict = {}
         txos = {}
+        saved_obj_id = None
         eof_found = 0
         while 1:
             # if DEBUG: print "SHEET.READ: about to read from position %d" % bk._position
-- 
2.43.0


From c9c9c7d12bd4aa0937cc11c767e1717276a69f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:30 +0000
Subject: [PATCH 33/56] fix: don't go back when the length in a SHEETHDR record
 is wrong

---
 xlrd/book.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index 24a144f..f0474ac 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -1170,7 +1170,8 @@ class Book(BaseObject):
         self._sheet_list.append(None) # get_sheet updates _sheet_list but needs a None beforehand
         self.get_sheet(sheetno, update_pos=False)
         if DEBUG: print('SHEETHDR: posn after get_sheet() =', self._position, file=self.logfile)
-        self._position = BOF_posn + sheet_len
+        # Never go backwards, whatever the record says: that could go on for ever.
+        self._position = max(self._position, BOF_posn + sheet_len)
 
     def handle_sheetsoffset(self, data):
         # DEBUG = 0
-- 
2.43.0


From 2136bab529961c67abb037fcfbf60b51563c25d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:30 +0000
Subject: [PATCH 34/56] fix: don't map a hyperlink's columns beyond the last
 one

---
 xlrd/sheet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index c1dbd7a..36a21c6 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1863,8 +1863,10 @@ class Sheet(BaseObject):
             raise XLRDError("Bug or corrupt file, send copy of input file for debugging")
 
         self.hyperlink_list.append(h)
+        # Columns beyond the last one can't have any cells.
+        ubound = min(h.lcolx + 1, self.utter_max_cols)
         for rowx in xrange(h.frowx, h.lrowx+1):
-            for colx in xrange(h.fcolx, h.lcolx+1):
+            for colx in xrange(h.fcolx, ubound):
                 self.hyperlink_map[rowx, colx] = h
 
     def handle_quicktip(self, data):
-- 
2.43.0


From a773cda380cbd8e46a0ab3451ab4e1f6acb04085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:30 +0000
Subject: [PATCH 35/56] fix: don't extend a sheet to merged cells beyond the
 last row or column

---
 xlrd/sheet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 36a21c6..337e35e 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -608,6 +608,8 @@ class Sheet(BaseObject):
                     fprintf(self.logfile,
                         "*** WARNING: sheet #%d (%r), MERGEDCELLS bad range %r\n",
                         self.number, self.name, crange)
+                    # the sheet can't extend to cells that can't exist
+                    continue
                 if rhi > nr: nr = rhi
                 if chi > nc: nc = chi
             if nc > self.ncols:
-- 
2.43.0


From 5ba9fc1d81e6c2aaa5bedc08831be70f0ec641b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:55 +0000
Subject: [PATCH 36/56] fix: refuse empty file_contents as an empty file is

---
 xlrd/__init__.py | 4 ++--
 xlrd/book.py     | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/xlrd/__init__.py b/xlrd/__init__.py
index 798ebe3..bf0a8fe 100644
--- a/xlrd/__init__.py
+++ b/xlrd/__init__.py
@@ -53,7 +53,7 @@ def inspect_format(path=None, content=None):
        The return value can always be looked up in :data:`FILE_FORMAT_DESCRIPTIONS`
        to return a human-readable description of the format found.
     """
-    if content:
+    if content is not None:
         peek = content[:PEEK_SIZE]
     else:
         path = os.path.expanduser(path)
@@ -64,7 +64,7 @@ def inspect_format(path=None, content=None):
         return 'xls'
 
     if peek.startswith(ZIP_SIGNATURE):
-        zf = zipfile.ZipFile(timemachine.BYTES_IO(content) if content else path)
+        zf = zipfile.ZipFile(timemachine.BYTES_IO(content) if content is not None else path)
 
         # Workaround for some third party files that use forward slashes and
         # lower case names. We map the expected name in lowercase to the
diff --git a/xlrd/book.py b/xlrd/book.py
index f0474ac..2d28a52 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -612,7 +612,7 @@ class Book(BaseObject):
         self.on_demand = on_demand
         self.ragged_rows = ragged_rows
 
-        if not file_contents:
+        if file_contents is None:
             with open(filename, "rb") as f:
                 f.seek(0, 2) # EOF
                 size = f.tell()
@@ -628,6 +628,8 @@ class Book(BaseObject):
         else:
             self.filestr = file_contents
             self.stream_len = len(file_contents)
+            if self.stream_len == 0:
+                raise XLRDError("File size is 0 bytes")
 
         self.base = 0
         if self.filestr[:8] != compdoc.SIGNATURE:
-- 
2.43.0


From 5553da149b9d62f2369f7c32e50b33e159d5f34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:30 +0000
Subject: [PATCH 37/56] fix: runxlrd.py needs no xlrd.USE_MMAP, which is long
 gone

---
 scripts/runxlrd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/runxlrd.py b/scripts/runxlrd.py
index b284a59..cf5fb0b 100644
--- a/scripts/runxlrd.py
+++ b/scripts/runxlrd.py
@@ -300,7 +300,7 @@ if __name__ == "__main__":
         else:
             logfile = sys.stdout
         mmap_opt = options.mmap
-        mmap_arg = xlrd.USE_MMAP
+        mmap_arg = True # the default of open_workbook()
         if mmap_opt in (1, 0):
             mmap_arg = mmap_opt
         elif mmap_opt != -1:
-- 
2.43.0


From 66ea45635bada8de5a2404fee0b7b0f84c7c0ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:43 +0000
Subject: [PATCH 38/56] fix: dump and count the records of an embedded stream
 up to its own end

The zero padding at the end was looked for up to the end of the file, and
the last record's excessive length ran on into the bytes after the stream.
---
 xlrd/biffh.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xlrd/biffh.py b/xlrd/biffh.py
index 07ac629..b3b9748 100644
--- a/xlrd/biffh.py
+++ b/xlrd/biffh.py
@@ -552,6 +552,7 @@ def hex_char_dump(strg, ofs, dlen, base=0, fout=sys.stdout, unnumbered=False):
 def biff_dump(mem, stream_offset, stream_len, base=0, fout=sys.stdout, unnumbered=False):
     pos = stream_offset
     stream_end = stream_offset + stream_len
+    zeros_start = stream_offset + len(mem[pos:stream_end].rstrip(b'\0'))
     adj = base - stream_offset
     dummies = 0
     numbered = not unnumbered
@@ -559,7 +560,7 @@ def biff_dump(mem, stream_offset, stream_len, base=0, fout=sys.stdout, unnumbere
     while stream_end - pos >= 4:
         rc, length = unpack('<HH', mem[pos:pos+4])
         if rc == 0 and length == 0:
-            if mem[pos:] == b'\0' * (stream_end - pos):
+            if pos >= zeros_start:
                 dummies = stream_end - pos
                 savpos = pos
                 pos = stream_end
@@ -581,7 +582,7 @@ def biff_dump(mem, stream_offset, stream_len, base=0, fout=sys.stdout, unnumbere
                 num_prefix = "%5d: " % (adj + pos)
             fprintf(fout, "%s%04x %s len = %04x (%d)\n", num_prefix, rc, recname, length, length)
             pos += 4
-            hex_char_dump(mem, pos, length, adj+pos, fout, unnumbered)
+            hex_char_dump(mem, pos, min(length, stream_end-pos), adj+pos, fout, unnumbered)
             pos += length
     if dummies:
         if numbered:
@@ -598,11 +599,12 @@ def biff_dump(mem, stream_offset, stream_len, base=0, fout=sys.stdout, unnumbere
 def biff_count_records(mem, stream_offset, stream_len, fout=sys.stdout):
     pos = stream_offset
     stream_end = stream_offset + stream_len
+    zeros_start = stream_offset + len(mem[pos:stream_end].rstrip(b'\0'))
     tally = {}
     while stream_end - pos >= 4:
         rc, length = unpack('<HH', mem[pos:pos+4])
         if rc == 0 and length == 0:
-            if mem[pos:] == b'\0' * (stream_end - pos):
+            if pos >= zeros_start:
                 break
             recname = "<Dummy (zero)>"
         else:
-- 
2.43.0


From ece62e5f064b2747e9656a9a6585d3869a6e58d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:43 +0000
Subject: [PATCH 39/56] fix: show the last row but one of a full sheet

---
 scripts/runxlrd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/runxlrd.py b/scripts/runxlrd.py
index cf5fb0b..d37f80f 100644
--- a/scripts/runxlrd.py
+++ b/scripts/runxlrd.py
@@ -166,7 +166,7 @@ if __name__ == "__main__":
                 print_labels(sh, rlabs, 'Row')
             if bk.on_demand: bk.unload_sheet(shx)
 
-    def show(bk, nshow=65535, printit=1):
+    def show(bk, nshow=65536, printit=1):
         bk_header(bk)
         if 0:
             rclist = xlrd.sheet.rc_stats.items()
-- 
2.43.0


From d3591a8ccddeb82fea21fc356744d98ae9a315c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:43 +0000
Subject: [PATCH 40/56] fix: list label ranges that lie partly outside the
 sheet's cells

---
 scripts/runxlrd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/runxlrd.py b/scripts/runxlrd.py
index d37f80f..374db0b 100644
--- a/scripts/runxlrd.py
+++ b/scripts/runxlrd.py
@@ -145,8 +145,8 @@ if __name__ == "__main__":
         for rlo, rhi, clo, chi in labs:
             print("%s label range %s:%s contains:"
                 % (title, xlrd.cellname(rlo, clo), xlrd.cellname(rhi-1, chi-1)))
-            for rx in xrange(rlo, rhi):
-                for cx in xrange(clo, chi):
+            for rx in xrange(rlo, min(rhi, sh.nrows)):
+                for cx in xrange(clo, min(chi, sh.row_len(rx))):
                     print("    %s: %r" % (xlrd.cellname(rx, cx), sh.cell_value(rx, cx)))
 
     def show_labels(bk):
-- 
2.43.0


From f60d048066bb0edfb1b15d0e46b4b6dddb1acf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:58 +0000
Subject: [PATCH 41/56] fix: read conditional formats with number format,
 alignment or protection blocks

The formulas of a CF record follow all of its formatting blocks; only three
of the six kinds were skipped, and an assertion failed for the others.
---
 xlrd/sheet.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 337e35e..7b8c5a7 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1228,18 +1228,14 @@ class Sheet(BaseObject):
                             font_style, posture, font_canc, cancellation,
                         )
                     pos += 118
-                if bord_block:
-                    pos += 8
-                if patt_block:
-                    pos += 4
+                # The formulas come last, whatever formatting blocks precede them.
+                pos = data_len - sz1 - sz2
                 fmla1 = data[pos:pos+sz1]
                 pos += sz1
                 if blah and sz1:
                     fprintf(self.logfile, "*** formula 1:\n")
                     dump_formula(bk, fmla1, sz1, bv, reldelta=0, blah=1)
                 fmla2 = data[pos:pos+sz2]
-                pos += sz2
-                assert pos == data_len
                 if blah and sz2:
                     fprintf(self.logfile, "*** formula 2:\n")
                     dump_formula(bk, fmla2, sz2, bv, reldelta=0, blah=1)
-- 
2.43.0


From 47a0ffde89bfced4c1d9f22e1b09ba392a558c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:58 +0000
Subject: [PATCH 42/56] fix: skip substreams embedded in an embedded substream

A chart placed in an embedded chart has its own BOF and EOF; its EOF was
taken for the end of the outer chart, whose own EOF then ended the sheet.
---
 xlrd/sheet.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 7b8c5a7..0135787 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1136,10 +1136,13 @@ class Sheet(BaseObject):
                 if boftype != 0x20: # embedded chart
                     print("*** Unexpected embedded BOF (0x%04x) at offset %d: version=0x%04x type=0x%04x"
                         % (rc, bk._position - data_len - 4, version, boftype), file=self.logfile)
-                while 1:
+                depth = 1 # an embedded substream can embed others
+                while depth:
                     code, data_len, data = bk.get_record_parts()
                     if code == XL_EOF:
-                        break
+                        depth -= 1
+                    elif code in bofcodes:
+                        depth += 1
                 if DEBUG: print("---> found EOF", file=self.logfile)
             elif rc == XL_COUNTRY:
                 bk.handle_country(data)
-- 
2.43.0


From 48e680bae633457cd27693bdd8428a0ee825fd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:13 +0000
Subject: [PATCH 43/56] fix: leave the page breaks of custom views out of the
 sheet's

A sheet's custom views carry their own page break records, which were
added to those of the sheet itself.
---
 xlrd/biffh.py |  2 ++
 xlrd/sheet.py | 11 +++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/xlrd/biffh.py b/xlrd/biffh.py
index b3b9748..eeef1af 100644
--- a/xlrd/biffh.py
+++ b/xlrd/biffh.py
@@ -202,6 +202,8 @@ XL_TABLEOP_B2 = 0x36
 XL_TXO = 0x1b6
 XL_UNCALCED = 0x5e
 XL_UNKNOWN = 0xffff
+XL_USERSVIEWBEGIN = 0x1AA
+XL_USERSVIEWEND = 0x1AB
 XL_VERTICALPAGEBREAKS = 0x1a
 XL_WINDOW2    = 0x023E
 XL_WINDOW2_B2 = 0x003E
diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 0135787..54a76c1 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -810,6 +810,7 @@ class Sheet(BaseObject):
         rowinfo_sharing_dict = {}
         txos = {}
         saved_obj_id = None
+        in_custom_view = False
         eof_found = 0
         while 1:
             # if DEBUG: print "SHEET.READ: about to read from position %d" % bk._position
@@ -1329,7 +1330,7 @@ class Sheet(BaseObject):
                 ) = unpack("<HHHHB", data[:9])
                 self.has_pane_record = 1
             elif rc == XL_HORIZONTALPAGEBREAKS:
-                if not fmt_info: continue
+                if not fmt_info or in_custom_view: continue
                 num_breaks, = local_unpack("<H", data[:2])
                 assert num_breaks * (2 + 4 * (bv >= 80)) + 2 == data_len
                 pos = 2
@@ -1342,7 +1343,7 @@ class Sheet(BaseObject):
                         self.horizontal_page_breaks.append(local_unpack("<HHH", data[pos:pos+6]))
                         pos += 6
             elif rc == XL_VERTICALPAGEBREAKS:
-                if not fmt_info: continue
+                if not fmt_info or in_custom_view: continue
                 num_breaks, = local_unpack("<H", data[:2])
                 assert num_breaks * (2 + 4 * (bv >= 80)) + 2 == data_len
                 pos = 2
@@ -1354,6 +1355,12 @@ class Sheet(BaseObject):
                     while pos < data_len:
                         self.vertical_page_breaks.append(local_unpack("<HHH", data[pos:pos+6]))
                         pos += 6
+            elif rc == XL_USERSVIEWBEGIN:
+                # The settings up to USERSVIEWEND are those of a custom view,
+                # not of the sheet.
+                in_custom_view = True
+            elif rc == XL_USERSVIEWEND:
+                in_custom_view = False
             #### all of the following are for BIFF <= 4W
             elif bv <= 45:
                 if rc == XL_FORMAT or rc == XL_FORMAT2:
-- 
2.43.0


From e1fa1ddf28a8d72e955d29c858116cd71a11bea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:24 +0000
Subject: [PATCH 44/56] fix: don't stop reading a sheet because a formula can't
 be dumped

With verbosity 2 or more the formulas of conditional formats are dumped in
the log; those with relative references or with range, union or
intersection operators made open_workbook raise TypeError, AttributeError
or AssertionError.
---
 xlrd/sheet.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 54a76c1..7012440 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -6,7 +6,7 @@
 from __future__ import print_function
 
 from array import array
-from struct import calcsize, unpack
+from struct import calcsize, error as struct_error, unpack
 
 from .biffh import *
 from .formatting import Format, nearest_colour_index
@@ -1238,11 +1238,11 @@ class Sheet(BaseObject):
                 pos += sz1
                 if blah and sz1:
                     fprintf(self.logfile, "*** formula 1:\n")
-                    dump_formula(bk, fmla1, sz1, bv, reldelta=0, blah=1)
+                    self.dump_cf_formula(fmla1, sz1)
                 fmla2 = data[pos:pos+sz2]
                 if blah and sz2:
                     fprintf(self.logfile, "*** formula 2:\n")
-                    dump_formula(bk, fmla2, sz2, bv, reldelta=0, blah=1)
+                    self.dump_cf_formula(fmla2, sz2)
             elif rc == XL_DEFAULTROWHEIGHT:
                 if data_len == 4:
                     bits, self.default_row_height = unpack("<HH", data[:4])
@@ -1982,6 +1982,13 @@ class Sheet(BaseObject):
             o.dump(self.logfile, header="=== MSOBj ===", footer= " ")
         return o
 
+    def dump_cf_formula(self, fmla, size):
+        # This is for information only; it mustn't stop the sheet being read.
+        try:
+            dump_formula(self.book, fmla, size, self.biff_version, reldelta=0, blah=1)
+        except (AssertionError, AttributeError, LookupError, TypeError, ValueError, struct_error):
+            fprintf(self.logfile, "*** unable to dump the rest of this formula\n")
+
     def handle_note(self, data, txos):
         if OBJ_MSO_DEBUG:
             fprintf(self.logfile, '... NOTE record ...\n')
-- 
2.43.0


From 9d4fa73f1ac9a5308494d601c86eaf33a53584ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:31 +0000
Subject: [PATCH 45/56] fix: compute the width of a BIFF2 column from its
 COLWIDTH record

---
 xlrd/sheet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 7012440..4aa5062 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1753,9 +1753,11 @@ class Sheet(BaseObject):
                 colinfo = self.colinfo_map.get(colx, None)
                 if colinfo is not None:
                     return colinfo.width
-        elif self.biff_version == 30:
+        else:
+            # In BIFF2 the width is in a COLWIDTH record, which a column whose
+            # default format is recorded needn't have.
             colinfo = self.colinfo_map.get(colx, None)
-            if colinfo is not None:
+            if colinfo is not None and 'width' in vars(colinfo):
                 return colinfo.width
         # All roads lead to Rome and the DEFCOLWIDTH ...
         if self.defcolwidth is not None:
-- 
2.43.0


From 7d21c4fd604ea3c8ef9a39d92aec960de884741c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:04 +0000
Subject: [PATCH 46/56] fix: cell_xf_index() takes a negative row or column for
 the one it counts back to

The row and column default formats are looked up by index, so sheet[-1] or
sheet.cell(r, -1) gave the workbook default format for cells without their own.
---
 xlrd/sheet.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 4aa5062..41dcb95 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -439,6 +439,11 @@ class Sheet(BaseObject):
         if xfx > -1:
             self._xf_index_stats[0] += 1
             return xfx
+        # rowinfo_map and colinfo_map know nothing of indexes counted from the end
+        if colx < 0:
+            colx += len(self._cell_xf_indexes[rowx])
+        if rowx < 0:
+            rowx += self.nrows
         # Check for a row xf_index
         try:
             xfx = self.rowinfo_map[rowx].xf_index
-- 
2.43.0


From 64f032c9491c58c904a295f83639eca9016ec0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:44 +0000
Subject: [PATCH 47/56] fix: a DIMENSIONS record after the first cell no longer
 makes the sheet lose its cells

---
 xlrd/sheet.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 41dcb95..b3ea445 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1102,7 +1102,6 @@ class Sheet(BaseObject):
                     dim_tuple = local_unpack('<HxxH', data[2:8])
                 else:
                     dim_tuple = local_unpack('<ixxH', data[4:12])
-                self.nrows, self.ncols = 0, 0
                 self._dimnrows, self._dimncols = dim_tuple
                 if bv in (21, 30, 40) and self.book.xf_list and not self.book._xf_epilogue_done:
                     self.book.xf_epilogue()
-- 
2.43.0


From 3185d639af7c068e46b3a179fb6b426a63493ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:52 +0000
Subject: [PATCH 48/56] fix: a SUPBOOK record continued in CONTINUE records no
 longer prevents opening

---
 xlrd/book.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index 2d28a52..84d38ac 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -1137,7 +1137,7 @@ class Book(BaseObject):
         for x in range(num_sheets):
             try:
                 shname, pos = unpack_unicode_update_pos(data, pos, lenlen=2)
-            except struct.error:
+            except (struct.error, IndexError, UnicodeDecodeError):
                 # #### FIX ME ####
                 # Should implement handling of CONTINUE record(s) ...
                 if self.verbosity:
-- 
2.43.0


From 2ed7596fc19fe6def682f4d0ea32028389da0a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:27 +0000
Subject: [PATCH 49/56] fix: a Font, Format or XF part can be compared with any
 other object

---
 xlrd/formatting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/formatting.py b/xlrd/formatting.py
index 74fad72..e448cab 100644
--- a/xlrd/formatting.py
+++ b/xlrd/formatting.py
@@ -158,10 +158,10 @@ class EqNeAttrs(object):
     """
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return self.__dict__ == getattr(other, '__dict__', None)
 
     def __ne__(self, other):
-        return self.__dict__ != other.__dict__
+        return self.__dict__ != getattr(other, '__dict__', None)
 
 class Font(BaseObject, EqNeAttrs):
     """
-- 
2.43.0


From 9d9949b6a74712e5afe82013c231ba8ecfad1af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:27 +0000
Subject: [PATCH 50/56] fix: a user-defined style with an empty name no longer
 prevents opening a BIFF3-7 file

---
 xlrd/formatting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xlrd/formatting.py b/xlrd/formatting.py
index e448cab..51b7768 100644
--- a/xlrd/formatting.py
+++ b/xlrd/formatting.py
@@ -635,7 +635,7 @@ def handle_style(book, data):
         return
     blah = DEBUG or book.verbosity >= 2
     bv = book.biff_version
-    flag_and_xfx, built_in_id, level = unpack('<HBB', data[:4])
+    flag_and_xfx, = unpack('<H', data[:2])
     xf_index = flag_and_xfx & 0x0fff
     if data == b"\0\0\0\0" and "Normal" not in book.style_name_map:
         # Erroneous record (doesn't have built-in bit set).
@@ -648,6 +648,7 @@ def handle_style(book, data):
     elif flag_and_xfx & 0x8000:
         # built-in style
         built_in = 1
+        built_in_id, level = unpack('<BB', data[2:4])
         name = built_in_style_names[built_in_id]
         if 1 <= built_in_id <= 2:
             name += str(level + 1)
-- 
2.43.0


From ddb4377c1f20897c2e6c0b48b8bc72448dac4bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:27 +0000
Subject: [PATCH 51/56] fix: what follows a hyperlink's unsupported moniker is
 no longer misread

---
 xlrd/sheet.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index b3ea445..504ac11 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1847,6 +1847,10 @@ class Sheet(BaseObject):
                     # The "shortpath" is bytes encoded in the **UNKNOWN** creator's "ANSI" encoding.
             else:
                 fprintf(self.logfile, "*** unknown clsid %r\n", clsid)
+                h.type = UNICODE_LITERAL('unknown')
+                # The size of its data isn't known, so whatever follows can't be found.
+                options &= ~0x8
+                offset = record_size
         elif options & 0x163 == 0x103: # UNC
             h.type = UNICODE_LITERAL('unc')
             h.url_or_path, offset = get_nul_terminated_unicode(data, offset)
@@ -1854,6 +1858,8 @@ class Sheet(BaseObject):
             h.type = UNICODE_LITERAL('workbook')
         else:
             h.type = UNICODE_LITERAL('unknown')
+            if options & 0x101 == 0x101: # some other moniker saved as a string
+                h.url_or_path, offset = get_nul_terminated_unicode(data, offset)
 
         if options & 0x8: # has textmark
             h.textmark, offset = get_nul_terminated_unicode(data, offset)
-- 
2.43.0


From e87905a374050e17b8bbdc47e424388daeb19a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:59 +0000
Subject: [PATCH 52/56] fix: relative references with nothing in common no
 longer evaluate to an inverted area

---
 xlrd/formula.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 3ed2de5..4870329 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -950,7 +950,10 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                             tIsectFuncs, aop.value[0], bop.value[0])
                         relfa = aop.value[0].relflags
                         relfb = bop.value[0].relflags
-                        if relfa == relfb:
+                        # if they have nothing in common, there is no area to report
+                        if (relfa == relfb
+                                and coords[0] < coords[1] and coords[2] < coords[3]
+                                and coords[4] < coords[5]):
                             res.value = [Ref3D(coords + relfa)]
                 else:
                     pass
-- 
2.43.0


From 39d06cbcaf1d46d45e437a1750033e4cfd535a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:59 +0000
Subject: [PATCH 53/56] fix: a BIFF2-4 worksheet stored contiguously in an OLE2
 container can be read

---
 xlrd/book.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index 84d38ac..abccd74 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -730,7 +730,7 @@ class Book(BaseObject):
         formatting.initialise_book(self)
         fake_sheet_name = UNICODE_LITERAL('Sheet 1')
         self._sheet_names = [fake_sheet_name]
-        self._sh_abs_posn = [0]
+        self._sh_abs_posn = [self.base]
         self._sheet_visibility = [0] # one sheet, visible
         self._sheet_list.append(None) # get_sheet updates _sheet_list but needs a None beforehand
         self.get_sheets()
-- 
2.43.0


From 276aa6142a0ab38d92574b41f5cbed15e4714b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:14 +0000
Subject: [PATCH 54/56] fix: runxlrd's log file is no longer left empty

---
 scripts/runxlrd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/runxlrd.py b/scripts/runxlrd.py
index 374db0b..d3fdb2b 100644
--- a/scripts/runxlrd.py
+++ b/scripts/runxlrd.py
@@ -57,6 +57,8 @@ if __name__ == "__main__":
                 self.logfileobj.write(self.fileheading)
                 self.shown = 1
             self.logfileobj.write(text)
+            # nothing closes the file
+            self.logfileobj.flush()
 
     null_cell = xlrd.empty_cell
 
-- 
2.43.0


From 4cb806f76be212d8b4931e512d8d04db6e091a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:00 +0000
Subject: [PATCH 55/56] fix: xldate_as_tuple of infinity or NaN raises the
 documented errors

---
 xlrd/xldate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xlrd/xldate.py b/xlrd/xldate.py
index d84c650..1b30fa3 100644
--- a/xlrd/xldate.py
+++ b/xlrd/xldate.py
@@ -94,6 +94,10 @@ def xldate_as_tuple(xldate, datemode):
         return (0, 0, 0, 0, 0, 0)
     if xldate < 0.00:
         raise XLDateNegative(xldate)
+    if xldate != xldate:
+        raise XLDateError(xldate) # not a number
+    if xldate >= _XLDAYS_TOO_LARGE[datemode]:
+        raise XLDateTooLarge(xldate) # includes infinity
     xldays = int(xldate)
     frac = xldate - xldays
     seconds = int(round(frac * 86400.0))
-- 
2.43.0


From 5a9313daad8cf9ed1e42bbc502220edd4f082d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:00 +0000
Subject: [PATCH 56/56] fix: inspect_format answers None for a damaged zip
 archive instead of raising

---
 xlrd/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xlrd/__init__.py b/xlrd/__init__.py
index bf0a8fe..968a357 100644
--- a/xlrd/__init__.py
+++ b/xlrd/__init__.py
@@ -64,7 +64,10 @@ def inspect_format(path=None, content=None):
         return 'xls'
 
     if peek.startswith(ZIP_SIGNATURE):
-        zf = zipfile.ZipFile(timemachine.BYTES_IO(content) if content is not None else path)
+        try:
+            zf = zipfile.ZipFile(timemachine.BYTES_IO(content) if content is not None else path)
+        except (zipfile.BadZipfile, NotImplementedError, ValueError):
+            return None # it only looked like a zip archive
 
         # Workaround for some third party files that use forward slashes and
         # lower case names. We map the expected name in lowercase to the
-- 
2.43.0

