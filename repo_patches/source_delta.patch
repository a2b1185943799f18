From 9bff63178e0a55316b18526e30ba3d798eb25a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:28 +0000
Subject: [PATCH 01/25] fix: bit-field accepted negative values and 2**width,
 spilling into neighbouring bits

---
 h800/bitfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index a4af429..4704914 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -110,7 +110,7 @@ class BitField:
             raise ValueError("Width is greater than maximum allowed!")
         self._maxval = 2 ** width - 1
         self._value = value
-        if self._value > self._maxval:
+        if self._value < 0 or self._value > self._maxval:
             raise ValueError("Value is greater than maximum allowed by "
                              "bit-field width!")
         self._numbering = numbering
@@ -315,7 +315,7 @@ class BitField:
             width = self.width
         if width < 0 or width > self.maxval:
             raise ValueError("Illegal bit-field width %d!" % self.width)
-        if value > 2 ** width:
+        if value < 0 or value > 2 ** width - 1:
             raise ValueError("Value is greater than allowed for %d-bit field!"
                              % width)
 
-- 
2.43.0


From 5375849754c07514cefd34a064bd57dabc3d98b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:30 +0000
Subject: [PATCH 02/25] fix: bit-field ranges of LSB-left fields used the mask
 of the wrong bits

---
 h800/bitfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index 4704914..735472c 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -326,7 +326,7 @@ class BitField:
         if width == self._width:
             shift = 0
         else:
-            shift = self._shift(rend)
+            shift = self._shift(self._lsbIndex(rstart, rend))
         bitmask = (2 ** width - 1) << shift
         # print("BM: %d:%d | %d:%d | S=%d | B=0x%x" %
         #       (start, end, rstart, rend, shift, bitmask))
-- 
2.43.0


From 8f2af8067fd5341583b0140b6128065a108b8490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:32 +0000
Subject: [PATCH 03/25] fix: bit-field set(0)/clear(0) changed every bit
 instead of bit 0

---
 h800/bitfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index 735472c..f1688db 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -410,7 +410,7 @@ class BitField:
 
     def set(self, index=None):
         "Set the specified bit (or all bits if not specified) to 1."
-        if index:
+        if index is not None:
             self._checkIndex(index)
             self.__setitem__(index, 1)
         else:
@@ -418,7 +418,7 @@ class BitField:
 
     def clear(self, index=None):
         "Set the specified bit (or all bits if not specified) to 0."
-        if index:
+        if index is not None:
             self._checkIndex(index)
             self.__setitem__(index, 0)
         else:
-- 
2.43.0


From d3f9f298bcc93474bca75ba7c57cc61731ee804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:34 +0000
Subject: [PATCH 04/25] fix: bit-field isRange compared a shifted range with an
 unshifted mask; isRangeClr was not-all-set

---
 h800/bitfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index f1688db..edb8a43 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -442,8 +442,8 @@ class BitField:
         self._checkRange(start, end)
         if value not in (0, 1):
             raise ValueError("Bit-field Value must be 0 or 1!")
-        subfield = self.__getitem__(slice(start, end))
         bitmask = self._bitmask(start, end)
+        subfield = self._value & bitmask
         if value == 0:
             return True if subfield == 0 else False
         else:
@@ -456,4 +456,4 @@ class BitField:
 
     def isRangeClr(self, start, end):
         "Return True if the specified range of bits are all 0."
-        return not self.isRangeSet(start, end)
+        return self.isRange(start, end, 0)
-- 
2.43.0


From 7d1ddcd9b4629b02f8529395bb1df938ee874620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:13 +0000
Subject: [PATCH 05/25] fix: a peripheral address was accepted for instructions
 that have none, corrupting the command code

---
 h800/instruction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/h800/instruction.py b/h800/instruction.py
index fe76153..be8249f 100755
--- a/h800/instruction.py
+++ b/h800/instruction.py
@@ -154,6 +154,9 @@ class Instruction:
             if self._c not in (0, 1, True, False):
                 raise ValueError("C must be boolean!")
         if self._paddr is not None:
+            if self._type != "peripheral":
+                raise ValueError("Peripheral address supplied to an "
+                                 "instruction that is not peripheral!")
             if self._sequence is not None or self._mask is not None or \
                     self._a is not None or self._b is not None or \
                     self._c is not None:
-- 
2.43.0


From b243bf606ef6febe31d3c8f510af3c1fc2b52a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:15 +0000
Subject: [PATCH 06/25] fix: opcode table named a class that does not exist for
 TS

---
 h800/instructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/instructions.py b/h800/instructions.py
index 06c3f07..361eaab 100755
--- a/h800/instructions.py
+++ b/h800/instructions.py
@@ -173,7 +173,7 @@ OPCODES = {
     "TX":   Opcode("TX", "Transfer",
                    0b10, 0b1, 0o20, "maskable"),
 
-    "TS":   Opcode("TS", "TransferAndChangeSequence",
+    "TS":   Opcode("TS", "TransferChangeSequence",
                    0b10, 0b1, 0o04, "maskable"),
 
     "HA":   Opcode("HA", "HalfAdd",
-- 
2.43.0


From be8f1695b7c16de3fa8151e8c373ad3027a32cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:58 +0000
Subject: [PATCH 07/25] fix: a memory bank could be iterated over only once

---
 h800/memory.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/h800/memory.py b/h800/memory.py
index ee4fe3e..efbe3f5 100755
--- a/h800/memory.py
+++ b/h800/memory.py
@@ -64,14 +64,7 @@ class MemoryBank:
         return len(self._data)
 
     def __iter__(self):
-        return self
-
-    def __next__(self):
-        if self._current >= len(self._data):
-            raise StopIteration
-        else:
-            self._current += 1
-            return self._data[self._current - 1]
+        return iter([self._data[addr] for addr in range(len(self._data))])
 
     def __repr__(self):
         text = ""
-- 
2.43.0


From 5086bacb76d5e3ab8230ae18bd749cd4809bd4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:32 +0000
Subject: [PATCH 08/25] fix: assigning a register in a group stored it under a
 name nobody reads, or failed; group numbers were unchecked

---
 h800/registers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/h800/registers.py b/h800/registers.py
index cf8aa3e..19165d7 100755
--- a/h800/registers.py
+++ b/h800/registers.py
@@ -167,9 +167,13 @@ class RegisterGroup:
         if isinstance(key, slice):
             raise ValueError("Slices not supported!")
         if isinstance(key, str):
-            self._registers[key] = value
-        else:
+            if key not in REGISTERS:
+                raise ValueError("Invalid register name %s!" % key)
             self._registers[REGISTERS[key]] = value
+        else:
+            if key < 0 or key >= len(REGISTERS):
+                raise ValueError("Invalid register number %d!" % key)
+            self._registers[key] = value
 
     def __len__(self):
         return len(self._registers)
@@ -227,6 +231,8 @@ class Registers:
         if not isinstance(key, int):
             raise ValueError("Invalid register group number %s!" % key)
         else:
+            if key < 0 or key >= self._NUM_GROUPS:
+                raise ValueError("Invalid register group number %d!" % key)
             self._registers[key] = value
 
     def __len__(self):
-- 
2.43.0


From 41816e321a010c827ead707591fbea951470dec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:33 +0000
Subject: [PATCH 09/25] fix: clearing the registers did nothing once they had
 been iterated over; a register group could be iterated only once

---
 h800/registers.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/h800/registers.py b/h800/registers.py
index 19165d7..187d9b9 100755
--- a/h800/registers.py
+++ b/h800/registers.py
@@ -179,14 +179,7 @@ class RegisterGroup:
         return len(self._registers)
 
     def __iter__(self):
-        return self
-
-    def __next__(self):
-        if self._current >= len(REGISTERS):
-            raise StopIteration
-        else:
-            self._current += 1
-            return self._registers[self._current - 1]
+        return iter([self._registers[r] for r in range(len(REGISTERS))])
 
     def __repr__(self):
         text = ""
@@ -255,5 +248,5 @@ class Registers:
         return text
 
     def clear(self):
-        for group in self:
+        for group in self._registers.values():
             group.clear()
-- 
2.43.0


From b3006dfc4d04ba2540d0a7d656669eedf89324e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:10 +0000
Subject: [PATCH 10/25] fix: a card read from a file had its line end in a
 field, and fields cut from other text than the card's line

---
 h800/punchcard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/punchcard.py b/h800/punchcard.py
index 06cf50e..4336429 100755
--- a/h800/punchcard.py
+++ b/h800/punchcard.py
@@ -65,7 +65,7 @@ class PunchCard:
                 self._layout.append((fstart, fwidth))
             self._fields = []
             for s, w in self._layout:
-                self._fields.append(line[s-1:s-1+w])
+                self._fields.append(self._line[s-1:s-1+w])
             self._strippedFields = []
             self._record = {}
             if linenum != 0:
-- 
2.43.0


From 188eb7eddbf14d58253c05ff25795533c76827b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:11 +0000
Subject: [PATCH 11/25] fix: the text of P, R and L cards lost the character in
 column 9

---
 h800/arguscard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/arguscard.py b/h800/arguscard.py
index a1e19c0..33e61e9 100755
--- a/h800/arguscard.py
+++ b/h800/arguscard.py
@@ -41,9 +41,9 @@ class Card(punchcard.PunchCard):
             self._record["operand2"] = None
             self._record["operand3"] = None
             self._record["misc"] = None
-            self._record["remarks"] = self._line[9:].strip()
+            self._record["remarks"] = self._line[8:].strip()
         if self.column1 == 'L':
-            self._record["remarks"] = self._line[9:].strip()
+            self._record["remarks"] = self._line[8:].strip()
         self._record["instruction"] = self._record["operation"]
         if self._record["operation"] and ',' in self._record["operation"]:
             self._record["instruction"] = \
-- 
2.43.0


From 95546bcbff1c6942836c193b4640aa7fae910d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:13 +0000
Subject: [PATCH 12/25] fix: multiply-defined symbols were never detected, and
 the later definition replaced the first

---
 h800/symbol_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index 631e9bc..44b28ef 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -277,7 +277,7 @@ def buildSymbolTable(filename, symtab, verbose=False):
                 symtab[tagName][seg][subseg] = {}
                 symtab[tagName][seg][subseg][symtype] = symtabEntry
             else:
-                prevdef = symtab[tagName]
+                prevdef = symtab[tagName][seg][subseg]
                 if symtype not in prevdef.keys():
                     symtab[tagName][seg][subseg][symtype] = symtabEntry
                 else:
-- 
2.43.0


From 18e22ca5aa0aa749646892ca9c52d4d7a2383b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:14 +0000
Subject: [PATCH 13/25] fix: getAbsoluteSymbols repeated or dropped symbols
 after the first one found

---
 h800/symbol_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index 44b28ef..baff2d9 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -323,8 +323,8 @@ def checkSymbolTable(symtab, verbose=False, complexOnlyError=False):
 def getAbsoluteSymbols(symtab):
     """Return a list of the symbols that have absolute definitions."""
     syms = []
-    found = False
     for symbol in sorted(symtab.keys()):
+        found = False
         for seg in sorted(symtab[symbol].keys()):
             for subseg in sorted(symtab[symbol][seg].keys()):
                 if "simple" in symtab[symbol][seg][subseg].keys():
-- 
2.43.0


From 3162896c07a7cc67a4b325dfa937f53299bc38cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:53 +0000
Subject: [PATCH 14/25] fix: a symbol's value could be neither read nor updated

---
 h800/symbol_table.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index baff2d9..7f3eaf5 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -14,12 +14,7 @@ class SymbolTableEntry:
     def __init__(self, name, value=None, symtype=None, file=None, line=0,
                  segment=None, subsegment=None):
         self._name = name                    # Symbol name
-        self._absoluteValue = self._complexValue = None
-        self._symtype = symtype                    # Type of record
-        if symtype == "absolute":
-            self._absoluteValue = value      # Absolute value
-        else:
-            self._complexValue = value       # Complex value
+        self.setValue(value, symtype)
         self._file = file
         self._line = line
         self._segment = segment
@@ -30,9 +25,19 @@ class SymbolTableEntry:
     def name(self):
         return self._name
 
+    def setValue(self, value, symtype=None):
+        self._absoluteValue = self._complexValue = None
+        self._symtype = symtype              # Type of record
+        if symtype == "absolute":
+            self._absoluteValue = value      # Absolute value
+        else:
+            self._complexValue = value       # Complex value
+
     @property
     def value(self):
-        return self._value
+        if self.isAbsolute():
+            return self._absoluteValue
+        return self._complexValue
 
     @property
     def references(self):
@@ -100,12 +105,9 @@ class SymbolTable:
     def update(self, name, value=None, symtype=None):
         if name:
             if name not in list(self._symbols.keys()):
-                self.context.error("symbol \"%s\" not defined!" % (name))
+                print("ERROR: symbol \"%s\" not defined!" % (name))
             else:
-                entry = self._symbols[name]
-                entry.value = value
-                entry.type = symtype
-                self._symbols[name] = entry
+                self._symbols[name].setValue(value, symtype)
 
     def resolve(self, maxPasses=10):
         nPrevUndefs = nUndefs = len(self._undefs)
-- 
2.43.0


From 9dc428c9c7d085164db9dc935da31bea6bb6e2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:55 +0000
Subject: [PATCH 15/25] fix: pruning the undefined symbols skipped the one
 after each removed

---
 h800/symbol_table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index 7f3eaf5..7fedb70 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -131,11 +131,11 @@ class SymbolTable:
         # Prune the undefs list.
         numUndefs = len(self._undefs)
         print("Pruning undefined symbols list (%d undefs)" % numUndefs)
-        for i, symbol in enumerate(self._undefs):
+        for symbol in list(self._undefs):
             entry = self._symbols[symbol]
             if entry.isValid():
                 print("Removing %s from undefined symbols list" % (symbol))
-                del self._undefs[i]
+                self._undefs.remove(symbol)
         print("Removed %d symbols from undef list" %
               (numUndefs - len(self._undefs)))
 
-- 
2.43.0


From f95af2ef0e935c577f2e74d4172c636de5541dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:56 +0000
Subject: [PATCH 16/25] fix: source files whose paths have a dot before the
 extension shared one (empty) segment

---
 h800/symbol_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index 7fedb70..6b8ba6d 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -1,4 +1,5 @@
 from __future__ import print_function
+import os.path
 import sys
 from fuzzywuzzy import fuzz
 from fuzzywuzzy import process
@@ -179,7 +180,7 @@ class SymbolTable:
 
 def buildSymbolTable(filename, symtab, verbose=False):
     """Build the symbol table."""
-    seg = filename.split('.')[0]  # Default: name of the first file.
+    seg = os.path.splitext(filename)[0]  # Default: name of the first file.
     subsegs = []        # List of subsegments.
     subseg = "1"        # Current subsegment, default is 1 (no starting SETLOC)
     d = Deck(file=filename, verbose=verbose)
-- 
2.43.0


From 2ffa8d12716f664d990126764818f91b132db836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:58 +0000
Subject: [PATCH 17/25] fix: symbol listing lost the file name when its path
 had a dot before the extension

---
 tools/list-symbols.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/list-symbols.py b/tools/list-symbols.py
index 0317b3b..3199a0f 100755
--- a/tools/list-symbols.py
+++ b/tools/list-symbols.py
@@ -9,6 +9,7 @@
 # This is intended for debugging assembler development.
 
 from __future__ import print_function
+import os.path
 import sys
 from optparse import OptionParser
 
@@ -46,7 +47,7 @@ def main():
                     print("        %-9s %1s %-38s      %s" %
                           ("<%s>" % symtype,
                            symdata["tagtype"],
-                           "%s:%s" % (symdata["file"].split('.')[0],
+                           "%s:%s" % (os.path.splitext(symdata["file"])[0],
                                       symdata["line"]),
                            symdata["card"]))
 
-- 
2.43.0


From 18edac89a841be331cd1058e4012b5b6ed9385b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:59 +0000
Subject: [PATCH 18/25] fix: parse forgot the symbol errors of all files but
 the last

---
 tools/parse.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/parse.py b/tools/parse.py
index 8a59c7b..746a0da 100755
--- a/tools/parse.py
+++ b/tools/parse.py
@@ -44,10 +44,11 @@ def main():
 
     symtab = {}
     for filename in args:
-        symtab, errcount = buildSymbolTable(filename, symtab,
-                                            verbose=opts.verbose)
+        symtab, file_errors = buildSymbolTable(filename, symtab,
+                                               verbose=opts.verbose)
+        errcount += file_errors
         print("%s: %d errors encountered building symbol table." %
-              (filename, errcount), file=sys.stderr)
+              (filename, file_errors), file=sys.stderr)
 
     for filename in args:
         d = h800.arguscard.Deck(file=filename, verbose=opts.verbose)
-- 
2.43.0


From 4d738cdbe1908f8d48c73b6a3d81702ae990987b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:01 +0000
Subject: [PATCH 19/25] fix: genlines generated a number beyond the end when
 the step does not divide the range

---
 tools/genlines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/genlines.py b/tools/genlines.py
index c530463..fcaf3f8 100755
--- a/tools/genlines.py
+++ b/tools/genlines.py
@@ -69,7 +69,7 @@ def main():
     if len(args) >= 5:
         endcol = int(args[4])
 
-    for i in range(start, end+step, step):
+    for i in range(start, end + (1 if step > 0 else -1), step):
         print("%s%s%s" % ((startcol - 1) * ' ',
                           "{num:{fill}{width}}".format(num=i, fill='0',
                                                        width=width),
-- 
2.43.0


From 268f47a1209c36394c3e6c5da4264c62d3ddb495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:03 +0000
Subject: [PATCH 20/25] fix: genpages wrote "None" into the log card when its
 column 8 is blank

---
 tools/genpages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/genpages.py b/tools/genpages.py
index b063d50..e9cc593 100755
--- a/tools/genpages.py
+++ b/tools/genpages.py
@@ -36,7 +36,7 @@ def main():
     d = h800.arguscard.Deck(inlines)
 
     logsection = d.log_section
-    logsectioncol8 = d.log_section_col8
+    logsectioncol8 = d.log_section_col8 or ' '
 
     for line in inlines:
         if logsection is None:
-- 
2.43.0


From 06fc7b7140e01a575d4a25667284abb73c649797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:04 +0000
Subject: [PATCH 21/25] fix: genpages crashed on a file without page numbers

---
 tools/genpages.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/genpages.py b/tools/genpages.py
index e9cc593..c9f0e81 100755
--- a/tools/genpages.py
+++ b/tools/genpages.py
@@ -38,6 +38,7 @@ def main():
     logsection = d.log_section
     logsectioncol8 = d.log_section_col8 or ' '
 
+    start = end = None
     for line in inlines:
         if logsection is None:
             if line.startswith("# Filename: "):
@@ -58,6 +59,10 @@ def main():
         parser.error("Cannot determine log section!")
         sys.exit(1)
 
+    if start is None:
+        parser.error("Cannot determine page numbers!")
+        sys.exit(1)
+
     if start > end:
         parser.error("Invalid page numbers!")
         sys.exit(1)
-- 
2.43.0


From 5040acbb21144c4519fe7fb4f802df880c7c2735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:05 +0000
Subject: [PATCH 22/25] fix: listings of sources without extension all went to
 the same wrongly named file

---
 tools/listing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/listing.py b/tools/listing.py
index 0957557..95285cc 100755
--- a/tools/listing.py
+++ b/tools/listing.py
@@ -9,6 +9,7 @@
 # This is intended for debugging assembler development.
 
 
+import os.path
 import sys
 from optparse import OptionParser
 
@@ -28,7 +29,7 @@ def main():
         sys.exit(1)
 
     for filename in args:
-        listfile = '.'.join(filename.split('.')[:-1]) + ".lst"
+        listfile = os.path.splitext(filename)[0] + ".lst"
 
         d = h800.arguscard.Deck(file=filename, verbose=opts.verbose)
 
-- 
2.43.0


From 247fec63c380db6dbab86f2061294c249026a6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:06 +0000
Subject: [PATCH 23/25] fix: check-instructions --count crashed on a source
 without instructions

---
 tools/check-instructions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/check-instructions.py b/tools/check-instructions.py
index 850422a..b854270 100755
--- a/tools/check-instructions.py
+++ b/tools/check-instructions.py
@@ -110,13 +110,13 @@ def main():
                 if opts.unused and freqtab[inst] != 0 or not opts.unused:
                     print("%-8s %6d  %6.2f%%" %
                           (inst, freqtab[inst],
-                           100 * float(freqtab[inst])/float(instrcount)))
+                           100 * float(freqtab[inst])/float(instrcount or 1)))
         else:
             for inst in sorted(instrtab.keys()):
                 if opts.unused and instrtab[inst] != 0 or not opts.unused:
                     print("%-8s %6d  %6.2f%%" %
                           (inst, instrtab[inst],
-                           100 * float(freqtab[inst])/float(instrcount)))
+                           100 * float(freqtab[inst])/float(instrcount or 1)))
 
     if opts.unused:
         print("\nUnused Instructions:")
-- 
2.43.0


From 4eaaf870ea1ce1db21f9504038f048543523078f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:08 +0000
Subject: [PATCH 24/25] fix: an assembly context could not be constructed or
 saved

---
 h800/context.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/h800/context.py b/h800/context.py
index 10cb224..fbffe63 100755
--- a/h800/context.py
+++ b/h800/context.py
@@ -19,9 +19,10 @@
 #from memory import MemoryMap, MemoryType
 #from opcode import OpcodeType
 #from opcodes import OPCODES
-#from symbol_table import SymbolTable
 #from record_type import RecordType
 
+from h800.symbol_table import SymbolTable
+
 
 class Context:
     def __init__(self, listfile, binfile, options, logLevel=0, logfile=None):
@@ -34,7 +35,7 @@ class Context:
         self.binfile = binfile
         self.srcfile = None
         # self.opcodes = OPCODES[self.arch]
-        self.symtab = SymbolTable(self)
+        self.symtab = SymbolTable()
         self.linenum = 0
         self.global_linenum = 0
         self.code = []
@@ -60,6 +61,7 @@ class Context:
         self.logLevel = logLevel
 
         self.loc = 0        # Assembler PC..
+        self.coloc = 0      # Cosequence PC.
         self.bank = 0       # Current bank.
 
         self.bankloc = {}   # Saved current location for each bank.
-- 
2.43.0


From e2945474b6d06375ffc6923a80dcca886e783aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:49 +0000
Subject: [PATCH 25/25] fix: a fuzzy symbol search crashed when there are no
 absolute symbols

---
 h800/symbol_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index 6b8ba6d..473b24c 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -366,7 +366,8 @@ def findSymbolDef(symtab, name, symtype=None, begin=False, end=False,
         if fuzzy:
             # Try fuzzy finder.
             absSyms = getAbsoluteSymbols(symtab)
-            matches = process.extract(name, absSyms, limit=10)
+            if absSyms:
+                matches = process.extract(name, absSyms, limit=10)
             if len(matches) > 0:
                 matchList = []
                 for match in matches:
-- 
2.43.0

