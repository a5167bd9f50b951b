From 40a1bc6994202f9254202160f99ad50ef84cad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:04:07 +0000
Subject: [PATCH 01/22] fix: bit-fields reject values that do not fit the width

A value of 2**width (and any negative value) was accepted and then leaked
into the neighbouring bits or made the field wider than it is.
---
 h800/bitfield.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index a4af429..0b49601 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -110,8 +110,8 @@ class BitField:
             raise ValueError("Width is greater than maximum allowed!")
         self._maxval = 2 ** width - 1
         self._value = value
-        if self._value > self._maxval:
-            raise ValueError("Value is greater than maximum allowed by "
+        if self._value < 0 or self._value > self._maxval:
+            raise ValueError("Value is outside the range allowed by "
                              "bit-field width!")
         self._numbering = numbering
         if numbering not in (self.BIT_SCHEME_LSB_0, self.BIT_SCHEME_LSB_1,
@@ -315,9 +315,9 @@ class BitField:
             width = self.width
         if width < 0 or width > self.maxval:
             raise ValueError("Illegal bit-field width %d!" % self.width)
-        if value > 2 ** width:
-            raise ValueError("Value is greater than allowed for %d-bit field!"
-                             % width)
+        if value < 0 or value >= 2 ** width:
+            raise ValueError("Value is outside the range allowed for %d-bit "
+                             "field!" % width)
 
     def _bitmask(self, start, end):
         self._checkRange(start, end)
-- 
2.43.0


From 78e93be21e2f9193920cf9859b1ca4d2c988bbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:04:08 +0000
Subject: [PATCH 02/22] fix: bit-field range masks are placed right for
 LSB-left fields

The mask of a range of an LSB-left field was shifted by the position of its
most significant bit, so range reads returned zero and range writes destroyed
bits outside the range.
---
 h800/bitfield.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index 0b49601..555324e 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -323,10 +323,7 @@ class BitField:
         self._checkRange(start, end)
         rstart, rend = self._getRange(start, end)
         width = rend - rstart + 1
-        if width == self._width:
-            shift = 0
-        else:
-            shift = self._shift(rend)
+        shift = self._shift(self._lsbIndex(rstart, rend))
         bitmask = (2 ** width - 1) << shift
         # print("BM: %d:%d | %d:%d | S=%d | B=0x%x" %
         #       (start, end, rstart, rend, shift, bitmask))
-- 
2.43.0


From 3bd87d656daf26807b028dc790bb7377a6a908ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:04:09 +0000
Subject: [PATCH 03/22] fix: BitField.set(0) and clear(0) affect bit 0 only

Index 0 was taken for "no index", so the whole field was changed.
---
 h800/bitfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index 555324e..2c0d3d0 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -407,7 +407,7 @@ class BitField:
 
     def set(self, index=None):
         "Set the specified bit (or all bits if not specified) to 1."
-        if index:
+        if index is not None:
             self._checkIndex(index)
             self.__setitem__(index, 1)
         else:
@@ -415,7 +415,7 @@ class BitField:
 
     def clear(self, index=None):
         "Set the specified bit (or all bits if not specified) to 0."
-        if index:
+        if index is not None:
             self._checkIndex(index)
             self.__setitem__(index, 0)
         else:
-- 
2.43.0


From bd1cc962bccf99967a7f402718137bde64355018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:04:10 +0000
Subject: [PATCH 04/22] fix: BitField range predicates test exactly the range

isRange(..., 1) compared the extracted range with the unshifted mask, and
isRangeClr() was true of any range that was not all ones.
---
 h800/bitfield.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index 2c0d3d0..d286315 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -440,11 +440,11 @@ class BitField:
         if value not in (0, 1):
             raise ValueError("Bit-field Value must be 0 or 1!")
         subfield = self.__getitem__(slice(start, end))
-        bitmask = self._bitmask(start, end)
         if value == 0:
             return True if subfield == 0 else False
         else:
-            setval = int(bitmask)
+            rstart, rend = self._getRange(start, end)
+            setval = 2 ** (rend - rstart + 1) - 1
             return True if subfield == setval else False
 
     def isRangeSet(self, start, end):
@@ -453,4 +453,4 @@ class BitField:
 
     def isRangeClr(self, start, end):
         "Return True if the specified range of bits are all 0."
-        return not self.isRangeSet(start, end)
+        return self.isRange(start, end, 0)
-- 
2.43.0


From ba4c3770cf4bd2de031d0a39cdcad9cdaefbea31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:04:47 +0000
Subject: [PATCH 05/22] fix: memory banks reject bad addresses before changing
 anything

A slice that ran past the end of the bank was partly written before the
KeyError; addresses are now checked first, with the bank's own ValueError.
---
 h800/memory.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/h800/memory.py b/h800/memory.py
index ee4fe3e..703ec59 100755
--- a/h800/memory.py
+++ b/h800/memory.py
@@ -48,16 +48,21 @@ class MemoryBank:
         if isinstance(key, slice):
             values = []
             for i in range(key.start, key.stop):
+                self._checkAddress(i)
                 values.append(self._data[i].value)
             return values
         else:
+            self._checkAddress(key)
             return self._data[key].value
 
     def __setitem__(self, key, value):
         if isinstance(key, slice):
+            for i in range(key.start, key.stop):
+                self._checkAddress(i)
             for i in range(key.start, key.stop):
                 self._data[i].value = value
         else:
+            self._checkAddress(key)
             self._data[key].value = value
 
     def __len__(self):
-- 
2.43.0


From 3721c35c362c1cafa5a8e092e80db211083c9ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:04:48 +0000
Subject: [PATCH 06/22] fix: every iteration over a memory bank visits all its
 words

The bank was its own iterator and never rewound, so only the first loop over
it saw anything.
---
 h800/memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/memory.py b/h800/memory.py
index 703ec59..6d0f8b5 100755
--- a/h800/memory.py
+++ b/h800/memory.py
@@ -69,7 +69,7 @@ class MemoryBank:
         return len(self._data)
 
     def __iter__(self):
-        return self
+        return iter(self._data.values())
 
     def __next__(self):
         if self._current >= len(self._data):
-- 
2.43.0


From ca401c8d43cccd760335d62654168c5be2a4faa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:04:49 +0000
Subject: [PATCH 07/22] fix: register groups clear and iterate completely every
 time

The groups were their own iterators and never rewound, so a second clear() or
a clear() after a loop left the registers as they were.
---
 h800/registers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/registers.py b/h800/registers.py
index cf8aa3e..6d3c32d 100755
--- a/h800/registers.py
+++ b/h800/registers.py
@@ -175,7 +175,7 @@ class RegisterGroup:
         return len(self._registers)
 
     def __iter__(self):
-        return self
+        return iter(self._registers.values())
 
     def __next__(self):
         if self._current >= len(REGISTERS):
@@ -249,5 +249,5 @@ class Registers:
         return text
 
     def clear(self):
-        for group in self:
+        for group in self._registers.values():
             group.clear()
-- 
2.43.0


From ccc1fa14edb13d8dabb13a59b97a02e6abbaeba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:04:50 +0000
Subject: [PATCH 08/22] fix: assigning a register or group uses the key like
 reading does

Names and numbers were swapped in RegisterGroup, and Registers accepted any
number, so assignments added entries or failed with KeyError.
---
 h800/registers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/h800/registers.py b/h800/registers.py
index 6d3c32d..c95af50 100755
--- a/h800/registers.py
+++ b/h800/registers.py
@@ -167,9 +167,13 @@ class RegisterGroup:
         if isinstance(key, slice):
             raise ValueError("Slices not supported!")
         if isinstance(key, str):
-            self._registers[key] = value
-        else:
+            if key not in REGISTERS:
+                raise ValueError("Invalid register name %s!" % key)
             self._registers[REGISTERS[key]] = value
+        else:
+            if key < 0 or key >= len(REGISTERS):
+                raise ValueError("Invalid register number %d!" % key)
+            self._registers[key] = value
 
     def __len__(self):
         return len(self._registers)
@@ -227,6 +231,8 @@ class Registers:
         if not isinstance(key, int):
             raise ValueError("Invalid register group number %s!" % key)
         else:
+            if key < 0 or key >= self._NUM_GROUPS:
+                raise ValueError("Invalid register group number %d!" % key)
             self._registers[key] = value
 
     def __len__(self):
-- 
2.43.0


From 59a6f654f55ff88e65e8c0b546ce93bb7eda72b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:05:46 +0000
Subject: [PATCH 09/22] fix: remarks of P, R and L cards start in column 9

The text was cut from column 10, losing its first character.
---
 h800/arguscard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/arguscard.py b/h800/arguscard.py
index a1e19c0..33e61e9 100755
--- a/h800/arguscard.py
+++ b/h800/arguscard.py
@@ -41,9 +41,9 @@ class Card(punchcard.PunchCard):
             self._record["operand2"] = None
             self._record["operand3"] = None
             self._record["misc"] = None
-            self._record["remarks"] = self._line[9:].strip()
+            self._record["remarks"] = self._line[8:].strip()
         if self.column1 == 'L':
-            self._record["remarks"] = self._line[9:].strip()
+            self._record["remarks"] = self._line[8:].strip()
         self._record["instruction"] = self._record["operation"]
         if self._record["operation"] and ',' in self._record["operation"]:
             self._record["instruction"] = \
-- 
2.43.0


From cff96a9462e3d01bff90e831e8cfb6576bd66089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:05:47 +0000
Subject: [PATCH 10/22] fix: card fields do not contain the line terminator

Fields were cut from the raw line, so the last field of a card read from a
file ended in a newline that the card's own text does not have.
---
 h800/punchcard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/punchcard.py b/h800/punchcard.py
index 06cf50e..4336429 100755
--- a/h800/punchcard.py
+++ b/h800/punchcard.py
@@ -65,7 +65,7 @@ class PunchCard:
                 self._layout.append((fstart, fwidth))
             self._fields = []
             for s, w in self._layout:
-                self._fields.append(line[s-1:s-1+w])
+                self._fields.append(self._line[s-1:s-1+w])
             self._strippedFields = []
             self._record = {}
             if linenum != 0:
-- 
2.43.0


From 44b2126df39cbfd28276f67db93ccf619dac9df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:05:47 +0000
Subject: [PATCH 11/22] fix: multiply-defined symbols are reported

The previous definition was looked up at the wrong level of the table, so a
second definition silently replaced the first one.
---
 h800/symbol_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index 631e9bc..44b28ef 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -277,7 +277,7 @@ def buildSymbolTable(filename, symtab, verbose=False):
                 symtab[tagName][seg][subseg] = {}
                 symtab[tagName][seg][subseg][symtype] = symtabEntry
             else:
-                prevdef = symtab[tagName]
+                prevdef = symtab[tagName][seg][subseg]
                 if symtype not in prevdef.keys():
                     symtab[tagName][seg][subseg][symtype] = symtabEntry
                 else:
-- 
2.43.0


From 8c8247ae844ad9a6b14ea63dc553932d2a70250e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:05:48 +0000
Subject: [PATCH 12/22] fix: getAbsoluteSymbols lists each absolute symbol once

The found flag was never reset, so from the second symbol on only the first
segment was searched.
---
 h800/symbol_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index 44b28ef..baff2d9 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -323,8 +323,8 @@ def checkSymbolTable(symtab, verbose=False, complexOnlyError=False):
 def getAbsoluteSymbols(symtab):
     """Return a list of the symbols that have absolute definitions."""
     syms = []
-    found = False
     for symbol in sorted(symtab.keys()):
+        found = False
         for seg in sorted(symtab[symbol].keys()):
             for subseg in sorted(symtab[symbol][seg].keys()):
                 if "simple" in symtab[symbol][seg][subseg].keys():
-- 
2.43.0


From 71e4e0ac72f19f65bd7166a90cab613642f49de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:05:49 +0000
Subject: [PATCH 13/22] fix: symbol table entries can be read and updated

Reading an entry's value and every call of SymbolTable.update() failed with
AttributeError.
---
 h800/symbol_table.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index baff2d9..c025601 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -14,12 +14,7 @@ class SymbolTableEntry:
     def __init__(self, name, value=None, symtype=None, file=None, line=0,
                  segment=None, subsegment=None):
         self._name = name                    # Symbol name
-        self._absoluteValue = self._complexValue = None
-        self._symtype = symtype                    # Type of record
-        if symtype == "absolute":
-            self._absoluteValue = value      # Absolute value
-        else:
-            self._complexValue = value       # Complex value
+        self.update(value, symtype)
         self._file = file
         self._line = line
         self._segment = segment
@@ -30,9 +25,19 @@ class SymbolTableEntry:
     def name(self):
         return self._name
 
+    def update(self, value, symtype):
+        self._absoluteValue = self._complexValue = None
+        self._symtype = symtype              # Type of record
+        if symtype == "absolute":
+            self._absoluteValue = value      # Absolute value
+        else:
+            self._complexValue = value       # Complex value
+
     @property
     def value(self):
-        return self._value
+        if self.isAbsolute():
+            return self._absoluteValue
+        return self._complexValue
 
     @property
     def references(self):
@@ -100,12 +105,9 @@ class SymbolTable:
     def update(self, name, value=None, symtype=None):
         if name:
             if name not in list(self._symbols.keys()):
-                self.context.error("symbol \"%s\" not defined!" % (name))
+                print("ERROR: Symbol \"%s\" not defined!" % (name))
             else:
-                entry = self._symbols[name]
-                entry.value = value
-                entry.type = symtype
-                self._symbols[name] = entry
+                self._symbols[name].update(value, symtype)
 
     def resolve(self, maxPasses=10):
         nPrevUndefs = nUndefs = len(self._undefs)
-- 
2.43.0


From 371f53f82438a878c368522c95ea6789aa39b07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:05:50 +0000
Subject: [PATCH 14/22] fix: pruning removes every resolved symbol from the
 undefined list

The list was shortened while it was being walked, so the symbol after each
removed one was skipped.
---
 h800/symbol_table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index c025601..2de64c8 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -131,11 +131,11 @@ class SymbolTable:
         # Prune the undefs list.
         numUndefs = len(self._undefs)
         print("Pruning undefined symbols list (%d undefs)" % numUndefs)
-        for i, symbol in enumerate(self._undefs):
+        for symbol in list(self._undefs):
             entry = self._symbols[symbol]
             if entry.isValid():
                 print("Removing %s from undefined symbols list" % (symbol))
-                del self._undefs[i]
+                self._undefs.remove(symbol)
         print("Removed %d symbols from undef list" %
               (numUndefs - len(self._undefs)))
 
-- 
2.43.0


From 1dc8120fdbcebe26c02ca865b2347a3e892bd731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:05:51 +0000
Subject: [PATCH 15/22] fix: parse.py counts the symbol errors of every file

The total was overwritten by each file's count.
---
 tools/parse.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/parse.py b/tools/parse.py
index 8a59c7b..746a0da 100755
--- a/tools/parse.py
+++ b/tools/parse.py
@@ -44,10 +44,11 @@ def main():
 
     symtab = {}
     for filename in args:
-        symtab, errcount = buildSymbolTable(filename, symtab,
-                                            verbose=opts.verbose)
+        symtab, file_errors = buildSymbolTable(filename, symtab,
+                                               verbose=opts.verbose)
+        errcount += file_errors
         print("%s: %d errors encountered building symbol table." %
-              (filename, errcount), file=sys.stderr)
+              (filename, file_errors), file=sys.stderr)
 
     for filename in args:
         d = h800.arguscard.Deck(file=filename, verbose=opts.verbose)
-- 
2.43.0


From 79f25a112a67df5a266f47ae2dcafaf3ccef2ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:05:52 +0000
Subject: [PATCH 16/22] fix: genlines.py stops at the end number

With a step that does not divide the range it printed a number past the end.
---
 tools/genlines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/genlines.py b/tools/genlines.py
index c530463..fcaf3f8 100755
--- a/tools/genlines.py
+++ b/tools/genlines.py
@@ -69,7 +69,7 @@ def main():
     if len(args) >= 5:
         endcol = int(args[4])
 
-    for i in range(start, end+step, step):
+    for i in range(start, end + (1 if step > 0 else -1), step):
         print("%s%s%s" % ((startcol - 1) * ' ',
                           "{num:{fill}{width}}".format(num=i, fill='0',
                                                        width=width),
-- 
2.43.0


From e607e1f14aab01777708bbd1c9c4ecda50b47ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:05:53 +0000
Subject: [PATCH 17/22] fix: genpages.py reports a missing page range

Without a "# Pages:" line it failed with UnboundLocalError.
---
 tools/genpages.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/genpages.py b/tools/genpages.py
index b063d50..6997683 100755
--- a/tools/genpages.py
+++ b/tools/genpages.py
@@ -38,6 +38,7 @@ def main():
     logsection = d.log_section
     logsectioncol8 = d.log_section_col8
 
+    start = end = None
     for line in inlines:
         if logsection is None:
             if line.startswith("# Filename: "):
@@ -58,6 +59,10 @@ def main():
         parser.error("Cannot determine log section!")
         sys.exit(1)
 
+    if start is None:
+        parser.error("Cannot determine page numbers!")
+        sys.exit(1)
+
     if start > end:
         parser.error("Invalid page numbers!")
         sys.exit(1)
-- 
2.43.0


From 286a50462127f413ee3fe8e94ffeec83d5e63d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:05:54 +0000
Subject: [PATCH 18/22] fix: listing.py does not overwrite its source

A source file named *.lst was replaced by its own listing.
---
 tools/listing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/listing.py b/tools/listing.py
index 0957557..f5b8eb8 100755
--- a/tools/listing.py
+++ b/tools/listing.py
@@ -29,6 +29,9 @@ def main():
 
     for filename in args:
         listfile = '.'.join(filename.split('.')[:-1]) + ".lst"
+        if listfile == filename:
+            parser.error("Listing would overwrite source %s!" % filename)
+            sys.exit(1)
 
         d = h800.arguscard.Deck(file=filename, verbose=opts.verbose)
 
-- 
2.43.0


From b6874fe75ec67729fd962d7939e62f9a4c475185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:05:55 +0000
Subject: [PATCH 19/22] fix: opcode table names the class that implements TS

---
 h800/instructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/instructions.py b/h800/instructions.py
index 06c3f07..361eaab 100755
--- a/h800/instructions.py
+++ b/h800/instructions.py
@@ -173,7 +173,7 @@ OPCODES = {
     "TX":   Opcode("TX", "Transfer",
                    0b10, 0b1, 0o20, "maskable"),
 
-    "TS":   Opcode("TS", "TransferAndChangeSequence",
+    "TS":   Opcode("TS", "TransferChangeSequence",
                    0b10, 0b1, 0o04, "maskable"),
 
     "HA":   Opcode("HA", "HalfAdd",
-- 
2.43.0


From 04780fced58b7ff76ee3678ce87cc7296f2985bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:06:26 +0000
Subject: [PATCH 20/22] fix: circular includes are reported

A file that includes itself, directly or through other files, was read until
the recursion limit or the open-file limit was hit.
---
 h800/punchcard.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/h800/punchcard.py b/h800/punchcard.py
index 4336429..e7dd351 100755
--- a/h800/punchcard.py
+++ b/h800/punchcard.py
@@ -180,12 +180,15 @@ class Deck:
             lines.append(str(card))
         return '\n'.join(lines)
 
-    def _readSource(self, filename, recurse=True):
+    def _readSource(self, filename, recurse=True, including=()):
         """Read an ARGUS source file. If the file includes $ directives,
            include those files recursively into the deck."""
         cards = []
         if not os.path.isfile(filename):
             sys.exit("ERROR: File \"%s\" does not exist!" % filename)
+        if os.path.realpath(filename) in including:
+            sys.exit("ERROR: File \"%s\" includes itself!" % filename)
+        including += (os.path.realpath(filename),)
         lines = []
         with open(filename, 'r') as f:
             if self._verbose:
@@ -202,7 +205,7 @@ class Deck:
                 if not os.path.isfile(incname):
                     sys.exit("File \"%s\" does not exist" % incname)
                 if recurse:
-                    icards = self._readSource(incname)
+                    icards = self._readSource(incname, including=including)
                     cards.extend(icards)
                 else:
                     cards.append(self._cardclass(line, width=self._width,
-- 
2.43.0


From 987b5c9a94ff7652929d359aeee170c783032928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:11 +0000
Subject: [PATCH 21/22] fix: check-instructions --count failed on sources
 without instructions

---
 tools/check-instructions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/check-instructions.py b/tools/check-instructions.py
index 850422a..b854270 100755
--- a/tools/check-instructions.py
+++ b/tools/check-instructions.py
@@ -110,13 +110,13 @@ def main():
                 if opts.unused and freqtab[inst] != 0 or not opts.unused:
                     print("%-8s %6d  %6.2f%%" %
                           (inst, freqtab[inst],
-                           100 * float(freqtab[inst])/float(instrcount)))
+                           100 * float(freqtab[inst])/float(instrcount or 1)))
         else:
             for inst in sorted(instrtab.keys()):
                 if opts.unused and instrtab[inst] != 0 or not opts.unused:
                     print("%-8s %6d  %6.2f%%" %
                           (inst, instrtab[inst],
-                           100 * float(freqtab[inst])/float(instrcount)))
+                           100 * float(freqtab[inst])/float(instrcount or 1)))
 
     if opts.unused:
         print("\nUnused Instructions:")
-- 
2.43.0


From a7cb977f333a70f3a9e1cc22ee67545cdb728c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:11 +0000
Subject: [PATCH 22/22] fix: genpages wrote 'None' for a blank column 8 of the
 log section

---
 tools/genpages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/genpages.py b/tools/genpages.py
index 6997683..c9f0e81 100755
--- a/tools/genpages.py
+++ b/tools/genpages.py
@@ -36,7 +36,7 @@ def main():
     d = h800.arguscard.Deck(inlines)
 
     logsection = d.log_section
-    logsectioncol8 = d.log_section_col8
+    logsectioncol8 = d.log_section_col8 or ' '
 
     start = end = None
     for line in inlines:
-- 
2.43.0

