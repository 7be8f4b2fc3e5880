From 10d48ca7b09c54d3bfb1a186348e8832a7c94f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:01 +0000
Subject: [PATCH 01/44] fix: encode before opening the destination, write all
 of it and always close it

dump() truncated an existing file before the image was known to be encodable,
ignored the number of bytes a raw stream accepted, and leaked the file on errors.
---
 objutils/binfile.py        |  8 ++------
 objutils/hexfile.py        |  8 ++------
 objutils/shf.py            |  8 ++------
 objutils/utils/__init__.py | 25 +++++++++++++++++++++++++
 4 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/objutils/binfile.py b/objutils/binfile.py
index cdbf28d..db4be60 100644
--- a/objutils/binfile.py
+++ b/objutils/binfile.py
@@ -32,7 +32,7 @@ from contextlib import closing
 
 from objutils.image import Image
 from objutils.section import Section
-from objutils.utils import PYTHON_VERSION, create_string_buffer
+from objutils.utils import PYTHON_VERSION, create_string_buffer, store
 
 
 ##
@@ -67,11 +67,7 @@ class Reader:
 
 class Writer:
     def dump(self, fp, image, filler=b"\xff", **kws):
-        if isinstance(fp, str):
-            fp = open(fp, "wb")
-        fp.write(self.dumps(image, filler))
-        if hasattr(fp, "close"):
-            fp.close()
+        store(fp, self.dumps(image, filler))
 
     def dumps(self, image, filler=b"\xff", **kws):
         if not isinstance(filler, (bytes, int)):
diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index cabd088..280f29c 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -34,7 +34,7 @@ from operator import itemgetter
 from objutils.image import Image
 from objutils.logger import Logger
 from objutils.section import Section, join_sections
-from objutils.utils import PYTHON_VERSION, create_string_buffer, slicer
+from objutils.utils import PYTHON_VERSION, create_string_buffer, slicer, store
 
 
 """
@@ -330,11 +330,7 @@ class Writer(BaseType):
         self.logger = Logger("Writer")
 
     def dump(self, fp, image, row_length=16, **kws):  # TODO: rename to bytesPerRow!
-        if isinstance(fp, str):
-            fp = open(fp, "wb")
-        fp.write(self.dumps(image, row_length))
-        if hasattr(fp, "close"):
-            fp.close()
+        store(fp, self.dumps(image, row_length))
 
     def dumps(self, image, row_length=16, **kws):
         result = []
diff --git a/objutils/shf.py b/objutils/shf.py
index faa4f26..29870c1 100644
--- a/objutils/shf.py
+++ b/objutils/shf.py
@@ -33,7 +33,7 @@ from hashlib import sha1
 from objutils.image import Image
 from objutils.logger import Logger
 from objutils.section import Section
-from objutils.utils import PYTHON_VERSION, create_string_buffer
+from objutils.utils import PYTHON_VERSION, create_string_buffer, store
 
 
 SHF_DTD = """<!--
@@ -150,11 +150,7 @@ class Writer:
     logger = Logger(__name__)
 
     def dump(self, fp, image, **kws):
-        if isinstance(fp, str):
-            fp = open(fp, "wb")
-        fp.write(self.dumps(image))
-        if hasattr(fp, "close"):
-            fp.close()
+        store(fp, self.dumps(image))
 
     def dumps(self, image, **kws):
         BLOCK_SIZE = 16
diff --git a/objutils/utils/__init__.py b/objutils/utils/__init__.py
index b086681..30402da 100644
--- a/objutils/utils/__init__.py
+++ b/objutils/utils/__init__.py
@@ -25,6 +25,7 @@ __copyright__ = """
 """
 
 import ctypes
+import io
 import mmap
 import os
 import sys
@@ -109,6 +110,30 @@ def create_string_buffer(*args):
     return buf
 
 
+def write_all(fp, data):
+    """Write `data` to the stream `fp` completely, or raise an exception."""
+    while data:
+        count = fp.write(data)
+        if count is None:
+            if isinstance(fp, io.RawIOBase):
+                raise BlockingIOError("write could not complete without blocking.")
+            break  # Not a standard stream, assume everything is written.
+        if not count:
+            raise OSError("could not write data.")
+        data = data[count:]
+
+
+def store(fp, data):
+    """Store already encoded `data` to file name or stream `fp`."""
+    if isinstance(fp, str):
+        with open(fp, "wb") as outf:
+            write_all(outf, data)
+    else:
+        write_all(fp, data)
+        if hasattr(fp, "close"):
+            fp.close()
+
+
 def bin_extractor(fname, offset, length):
     """Extract a junk of data from a file."""
     fp = open(fname)
-- 
2.43.0


From 1619d2ef3e0d6f2cc299782da579f4ef2575ef2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:01 +0000
Subject: [PATCH 02/44] fix: plain binary reader passed an unknown argument to
 Image

---
 objutils/binfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/binfile.py b/objutils/binfile.py
index db4be60..3dc69d9 100644
--- a/objutils/binfile.py
+++ b/objutils/binfile.py
@@ -50,7 +50,7 @@ class Reader:
             fp = open(fp, "rb")
         data = fp.read()
         sec = Section(address, data)
-        img = Image([sec], valid=True)
+        img = Image([sec])
         if hasattr(fp, "close"):
             fp.close()
         return img
-- 
2.43.0


From bcb04fc62e3cb1819c460cd366a73ec5636e2148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:01 +0000
Subject: [PATCH 03/44] fix: Intel hex writer omitted the extended address
 record

when a section starts at the same 16-bit offset at which the preceding section
of another segment ended.
---
 objutils/ihex.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/objutils/ihex.py b/objutils/ihex.py
index 7337044..630a5fa 100644
--- a/objutils/ihex.py
+++ b/objutils/ihex.py
@@ -117,13 +117,14 @@ class Writer(hexfile.Writer):
 
     def pre_processing(self, image):
         self.previosAddress = None
+        self.previousSegment = None
         self.start_address = 0
 
     def compose_row(self, address, length, row):
         result = ""
         seg, offs = divmod(address, 0x10000)
         hi, lo = self.word_to_bytes(address)
-        if offs != self.previosAddress:
+        if offs != self.previosAddress or int(seg) != self.previousSegment:
             # print("NEQ: {0:04x} [{1:04x}:{2:04x}]".format(address, seg, offs))
             if address > 0xFFFF:
                 if address > 0xFFFFF:
@@ -133,6 +134,7 @@ class Writer(hexfile.Writer):
                     seg = int(seg) << 12
                     segHi, segLo = self.word_to_bytes(seg)
                     result = f":02000002{int(seg):04X}{self.checksum(list((2, 2, segHi, segLo))):02X}\n"
+            self.previousSegment = address // 0x10000
         address = offs
         checksum = self.checksum(list((length, hi, lo)) + list(row))
         self.previosAddress = offs + length
-- 
2.43.0


From 3a4895e6528639be1d03d86b05bb40fdc98fd653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:27 +0000
Subject: [PATCH 04/44] fix: codec objects used more than once carried
 addresses over to the next file

---
 objutils/cosmac.py  |  4 ++++
 objutils/hexfile.py |  3 +++
 objutils/ihex.py    |  7 ++++---
 objutils/srec.py    | 21 +++++++++++----------
 4 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/objutils/cosmac.py b/objutils/cosmac.py
index e20ae6d..2c4e1f7 100644
--- a/objutils/cosmac.py
+++ b/objutils/cosmac.py
@@ -43,6 +43,10 @@ class Reader(hexfile.Reader):
     previous_address = 0
     previous_length = 0
 
+    def read(self, fp):
+        self.previous_address = self.previous_length = 0
+        return super().read(fp)
+
     def check_line(self, line, format_type):
         return True
 
diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 280f29c..af32656 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -474,6 +474,9 @@ class ASCIIHexWriter(Writer):
         self.address_designator = address_designator
         super().__init__()
 
+    def pre_processing(self, image):
+        self.previous_address = None
+
     def compose_row(self, address, length, row):
         prepend_address = True if address != self.previous_address else False
         self.previous_address = address + length
diff --git a/objutils/ihex.py b/objutils/ihex.py
index 630a5fa..4c99f81 100644
--- a/objutils/ihex.py
+++ b/objutils/ihex.py
@@ -49,6 +49,10 @@ class Reader(hexfile.Reader):
         super().__init__()
         self.segmentAddress = 0
 
+    def read(self, fp):
+        self._address_calculator = partial(operator.add, 0)
+        return super().read(fp)
+
     def check_line(self, line, format_type):
         if line.length != len(line.chunk):
             raise hexfile.InvalidRecordLengthError("Byte count doesn't match length of actual data.")
@@ -103,9 +107,6 @@ class Reader(hexfile.Reader):
         else:
             self.warn(f"Invalid record type [{line.type:u}] at line {line.line_number:u}")
 
-    def _address_calculator(self, x):
-        return x
-
 
 def divmod(a, b):
     return a / b, a % b
diff --git a/objutils/srec.py b/objutils/srec.py
index 229758e..0aa526c 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -148,20 +148,21 @@ class Writer(hexfile.Writer):
     checksum = partial(lrc, width=8, comp=COMPLEMENT_ONES)
 
     def pre_processing(self, image):
-        if self.record_type is None:
+        self.effective_type = self.record_type
+        if self.effective_type is None:
             if hasattr(image, "sections"):
                 last_segment = sorted(image.sections, key=lambda s: s.start_address)[-1]
             else:
                 last_segment = image
             highest_address = last_segment.start_address + last_segment.length
             if highest_address <= 0x000000FFFF:
-                self.record_type = 1
+                self.effective_type = 1
             elif highest_address <= 0x00FFFFFF:
-                self.record_type = 2
+                self.effective_type = 2
             elif highest_address <= 0xFFFFFFFF:
-                self.record_type = 3
-        self.address_mask = f"%0{(self.record_type + 1) * 2:d}X"
-        self.offset = self.record_type + 2
+                self.effective_type = 3
+        self.address_mask = f"%0{(self.effective_type + 1) * 2:d}X"
+        self.offset = self.effective_type + 2
 
     def srecord(self, record_type, length, address, data=None):
         if data is None:
@@ -174,7 +175,7 @@ class Writer(hexfile.Writer):
 
     def compose_row(self, address, length, row):
         self.record_count += 1
-        return self.srecord(self.record_type, length, address, row)
+        return self.srecord(self.effective_type, length, address, row)
 
     def compose_header(self, meta):
         self.record_count = 0
@@ -189,19 +190,19 @@ class Writer(hexfile.Writer):
         if self.s5record:
             result.append(self.srecord(5, 0, self.record_count))
         if self.start_address is not None:
-            if self.record_type == 1:  # 16bit.
+            if self.effective_type == 1:  # 16bit.
                 if S9 in meta:
                     s9 = meta[S9][0]
                     result.append(self.srecord(9, 0, s9.address))
                 else:
                     result.append(self.srecord(9, 0, self.start_address))
-            elif self.record_type == 2:  # 24bit.
+            elif self.effective_type == 2:  # 24bit.
                 if S8 in meta:
                     s8 = meta[S8][0]
                     result.append(self.srecord(8, 0, s8.address))
                 else:
                     result.append(self.srecord(8, 0, self.start_address))
-            elif self.record_type == 3:  # 32bit.
+            elif self.effective_type == 3:  # 32bit.
                 if S7 in meta:
                     s7 = meta[S7][0]
                     result.append(self.srecord(7, 0, s7.address))
-- 
2.43.0


From 8bf4496beb66288f845a359add03709635c196ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:44 +0000
Subject: [PATCH 05/44] fix: four packed code writer wrote a wrong length field

The length was correct for full rows of 16 bytes only, and rows whose length is
not a multiple of four were dropped.
---
 objutils/fpc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/objutils/fpc.py b/objutils/fpc.py
index 89affb8..d596e3d 100644
--- a/objutils/fpc.py
+++ b/objutils/fpc.py
@@ -142,11 +142,12 @@ class Writer(hexfile.Writer):
             8,
             checksums.COMPLEMENT_TWOS,
         )
-        if length < self.row_length:
-            lengthToPad = self.row_length - length
+        padded_length = (self.row_length + 3) // 4 * 4  # Lines consist of 32-bit words.
+        if length < padded_length:
+            lengthToPad = padded_length - length
             padding = [0] * (lengthToPad)
             row.extend(padding)
-        line = f"{checksum:02X}{length - 2}0000{address:08X}{Writer.hex_bytes(row)}"
+        line = f"{checksum:02X}{length + 4:02X}0000{address:08X}{Writer.hex_bytes(row)}"
         return line
 
     def compose_footer(self, meta):
-- 
2.43.0


From f60f96f406ad65e8ceafb658ab4bc2d0eac8254d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:46 +0000
Subject: [PATCH 06/44] fix: four packed code reader accepted cut off lines

---
 objutils/fpc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/objutils/fpc.py b/objutils/fpc.py
index d596e3d..a1fdce9 100644
--- a/objutils/fpc.py
+++ b/objutils/fpc.py
@@ -67,7 +67,7 @@ class Reader(hexfile.Reader):
                 pass  # todo: FormatError!!!
 
             if (len(line) % 5) != 0:
-                pass  # todo: FormatError!!!
+                raise hexfile.InvalidRecordLengthError("Line is not made of complete quintuples.")
 
             values = []
             for quintuple in self.split_quintuples(line):
@@ -98,6 +98,8 @@ class Reader(hexfile.Reader):
         line.length -= 4
         if line.length != len(line.chunk):
             line.chunk = line.chunk[: line.length]  # Cut padding.
+        if line.length != len(line.chunk):
+            raise hexfile.InvalidRecordLengthError("Byte count doesn't match length of actual data.")
         if format_type == DATA_ABS:
             tmp = 0
             self.last_address = line.address + line.length
-- 
2.43.0


From e5fa57076f85a84c5295ce4a0763358d4dece5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:48 +0000
Subject: [PATCH 07/44] fix: ASCII hex space writer did not terminate address
 fields

Address fields without comma or period are not recognized, so every section was
loaded at address zero.
---
 objutils/ash.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/objutils/ash.py b/objutils/ash.py
index e6d6996..2ebc5db 100644
--- a/objutils/ash.py
+++ b/objutils/ash.py
@@ -75,6 +75,12 @@ class Writer(hexfile.ASCIIHexWriter):
         line = f"{STX} "
         return line
 
+    def compose_row(self, address, length, row):
+        line = super().compose_row(address, length, row)
+        if "\n" in line:
+            line = line.replace("\n", ",\n", 1)  # Address field is terminated by comma.
+        return line
+
     def compose_footer(self, meta):
         line = f"{ETX}$${self.checksum % 65536:04X},"
         return line
-- 
2.43.0


From 3032f1955cba77141f6938f0132f0c3879173321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:04 +0000
Subject: [PATCH 08/44] fix: extended Tektronix files could neither be written
 nor read back

The length of a record was computed as a float, and the digit telling the size
of the address field was not written and taken as part of the address.
---
 objutils/etek.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/objutils/etek.py b/objutils/etek.py
index ed55daa..1906fac 100644
--- a/objutils/etek.py
+++ b/objutils/etek.py
@@ -47,7 +47,7 @@ class Reader(hexfile.Reader):
 
     def check_line(self, line, format_type):
         if format_type == DATA:
-            line.length = (line.length / 2) - 5
+            line.length = (line.length // 2) - 5
             checksum = checksums.nibble_sum(
                 utils.make_list(
                     utils.int_to_array(line.address),
@@ -60,6 +60,9 @@ class Reader(hexfile.Reader):
                 raise hexfile.InvalidRecordLengthError("Byte count doesn't match length of actual data.")
             if line.checksum != checksum:
                 raise hexfile.InvalidRecordChecksumError()
+            if line.address >> 16 != 4:
+                raise hexfile.InvalidRecordLengthError("Only addresses of four digits are supported.")
+            line.address &= 0xFFFF  # Remove address length digit.
         elif format_type == SYMBOL:
             checksum = checksums.nibble_sum(utils.make_list(3, ((line.length + 5) * 2), [ord(b) for b in line.chunk]))
             chunk = line.chunk.strip()
@@ -76,10 +79,11 @@ class Reader(hexfile.Reader):
 
 
 class Writer(hexfile.Writer):
-    MAX_ADDRESS_BITS = 24
+    MAX_ADDRESS_BITS = 16
 
     def compose_row(self, address, length, row):
+        address |= 0x40000  # The address field starts with its number of digits.
         checksum = checksums.nibble_sum(utils.make_list(utils.int_to_array(address), 6, ((length + 5) * 2), row))
 
-        line = f"%{(length + 5) * 2:02X}6{checksum:02X}{address:04X}{Writer.hex_bytes(row)!s}"
+        line = f"%{(length + 5) * 2:02X}6{checksum:02X}{address:05X}{Writer.hex_bytes(row)!s}"
         return line
-- 
2.43.0


From 8924121462c51b6a134d936d18efe3b8f625fcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:43 +0000
Subject: [PATCH 09/44] fix: writers produced unreadable files for row lengths
 not representable

A negative row_length gave a file without any data, a too large one records
with a length field of three digits.
---
 objutils/emon52.py  | 1 +
 objutils/etek.py    | 1 +
 objutils/fpc.py     | 1 +
 objutils/hexfile.py | 6 ++++++
 objutils/ihex.py    | 1 +
 objutils/mostec.py  | 1 +
 objutils/sig.py     | 1 +
 objutils/srec.py    | 2 ++
 objutils/tek.py     | 1 +
 9 files changed, 15 insertions(+)

diff --git a/objutils/emon52.py b/objutils/emon52.py
index 87da811..83ea32b 100644
--- a/objutils/emon52.py
+++ b/objutils/emon52.py
@@ -71,6 +71,7 @@ class Writer(hexfile.Writer):
     """ """
 
     MAX_ADDRESS_BITS = 16
+    MAX_ROW_LENGTH = 255
 
     def compose_row(self, address, length, row):
         checksum = sum(row) % 65536
diff --git a/objutils/etek.py b/objutils/etek.py
index 1906fac..544591c 100644
--- a/objutils/etek.py
+++ b/objutils/etek.py
@@ -80,6 +80,7 @@ class Reader(hexfile.Reader):
 
 class Writer(hexfile.Writer):
     MAX_ADDRESS_BITS = 16
+    MAX_ROW_LENGTH = 122
 
     def compose_row(self, address, length, row):
         address |= 0x40000  # The address field starts with its number of digits.
diff --git a/objutils/fpc.py b/objutils/fpc.py
index a1fdce9..3e2f040 100644
--- a/objutils/fpc.py
+++ b/objutils/fpc.py
@@ -136,6 +136,7 @@ class Reader(hexfile.Reader):
 
 class Writer(hexfile.Writer):
     MAX_ADDRESS_BITS = 16
+    MAX_ROW_LENGTH = 251
 
     def compose_row(self, address, length, row):
         tmp = 0  # TODO: format type!?
diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index af32656..ae591e1 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -326,6 +326,8 @@ class Reader(BaseType):
 
 
 class Writer(BaseType):
+    MAX_ROW_LENGTH = None  # Largest number of bytes a single row could represent, if limited.
+
     def __init__(self):
         self.logger = Logger("Writer")
 
@@ -334,6 +336,8 @@ class Writer(BaseType):
 
     def dumps(self, image, row_length=16, **kws):
         result = []
+        if row_length < 1:
+            raise ValueError("row_length must be positive.")
         self.row_length = row_length
         if hasattr(image, "sections") and not image.sections:
             return b""
@@ -349,6 +353,8 @@ class Writer(BaseType):
             rows = slicer(section.data, row_length, lambda x: [int(y) for y in x])
             for row in rows:
                 length = len(row)
+                if self.MAX_ROW_LENGTH is not None and length > self.MAX_ROW_LENGTH:
+                    raise ValueError(f"row_length exceeds {self.MAX_ROW_LENGTH} bytes.")
                 result.append(self.compose_row(address, length, row))
                 address += row_length
         footer = self.compose_footer(image.meta if hasattr(image, "meta") else {})
diff --git a/objutils/ihex.py b/objutils/ihex.py
index 4c99f81..e9457d7 100644
--- a/objutils/ihex.py
+++ b/objutils/ihex.py
@@ -114,6 +114,7 @@ def divmod(a, b):
 
 class Writer(hexfile.Writer):
     MAX_ADDRESS_BITS = 32
+    MAX_ROW_LENGTH = 255
     checksum = partial(lrc, width=8, comp=COMPLEMENT_TWOS)
 
     def pre_processing(self, image):
diff --git a/objutils/mostec.py b/objutils/mostec.py
index c11f867..2cd8b4b 100644
--- a/objutils/mostec.py
+++ b/objutils/mostec.py
@@ -56,6 +56,7 @@ class Reader(hexfile.Reader):
 
 class Writer(hexfile.Writer):
     MAX_ADDRESS_BITS = 16
+    MAX_ROW_LENGTH = 255
 
     def compose_row(self, address, length, row):
         checksum = checksums.lrc(
diff --git a/objutils/sig.py b/objutils/sig.py
index 23c7120..6761cab 100644
--- a/objutils/sig.py
+++ b/objutils/sig.py
@@ -56,6 +56,7 @@ class Reader(hexfile.Reader):
 
 class Writer(hexfile.Writer):
     MAX_ADDRESS_BITS = 16
+    MAX_ROW_LENGTH = 255
 
     def compose_row(self, address, length, row):
         address_checksum = checksums.rotatedXOR(
diff --git a/objutils/srec.py b/objutils/srec.py
index 0aa526c..74088df 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -168,6 +168,8 @@ class Writer(hexfile.Writer):
         if data is None:
             data = []
         length += self.offset
+        if length > 0xFF:
+            raise ValueError("row_length is too large for S-records.")
         address_bytes = utils.int_to_array(address)
         checksum = self.checksum(make_list(address_bytes, length, data))
         mask = f"S%u%02X{self.address_mask!s}%s%02X"
diff --git a/objutils/tek.py b/objutils/tek.py
index 02dd6d0..2a79bf2 100644
--- a/objutils/tek.py
+++ b/objutils/tek.py
@@ -56,6 +56,7 @@ class Reader(hexfile.Reader):
 
 class Writer(hexfile.Writer):
     MAX_ADDRESS_BITS = 16
+    MAX_ROW_LENGTH = 255
 
     def compose_footer(self, meta):
         return "/{:04X}00{:02X}".format(
-- 
2.43.0


From 12e77e536cb927d6934783d560f83e4b50487bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:44 +0000
Subject: [PATCH 10/44] fix: readers left files opened by name open on errors,
 S-record reader always

---
 objutils/binfile.py | 3 ++-
 objutils/hexfile.py | 3 ++-
 objutils/shf.py     | 3 ++-
 objutils/srec.py    | 4 +---
 4 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/objutils/binfile.py b/objutils/binfile.py
index 3dc69d9..1ed8b7d 100644
--- a/objutils/binfile.py
+++ b/objutils/binfile.py
@@ -47,7 +47,8 @@ class NoContiniousError(Exception):
 class Reader:
     def load(self, fp, address=0x0000):
         if isinstance(fp, str):
-            fp = open(fp, "rb")
+            with open(fp, "rb") as inf:
+                return self.load(inf, address)
         data = fp.read()
         sec = Section(address, data)
         img = Image([sec])
diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index ae591e1..e5403f4 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -193,7 +193,8 @@ class Reader(BaseType):
 
     def load(self, fp, **kws):
         if isinstance(fp, str):
-            fp = open(fp, "rb")
+            with open(fp, "rb") as inf:
+                return self.read(inf)
         if PYTHON_VERSION.major == 3:
             data = self.read(fp)  # .decode()
             if hasattr(fp, "close"):
diff --git a/objutils/shf.py b/objutils/shf.py
index 29870c1..3b498bf 100644
--- a/objutils/shf.py
+++ b/objutils/shf.py
@@ -81,7 +81,8 @@ class Reader:
 
     def load(self, fp):
         if isinstance(fp, str):
-            fp = open(fp, "rb")
+            with open(fp, "rb") as inf:
+                return self.load(inf)
         data = fp.read()
         root = ET.fromstring(data)  # nosec B314
         sections = []
diff --git a/objutils/srec.py b/objutils/srec.py
index 74088df..f58d2fe 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -62,9 +62,7 @@ class Reader(hexfile.Reader):
     )
 
     def load(self, fp, **kws):
-        if isinstance(fp, str):
-            fp = open(fp, "rb")
-        data = self.read(fp)
+        data = super().load(fp, **kws)
 
         ## todo: extract Symbols and wipe them out.
         """
-- 
2.43.0


From 26a1f3f332d2ea19c47d28c5c9548663a20e4027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:47 +0000
Subject: [PATCH 11/44] fix: every reader and writer object added another log
 handler

---
 objutils/logger.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/objutils/logger.py b/objutils/logger.py
index e443e81..07af1ef 100644
--- a/objutils/logger.py
+++ b/objutils/logger.py
@@ -35,11 +35,12 @@ class Logger:
     def __init__(self, name, level=logging.WARN):
         self.logger = logging.getLogger(f"{self.LOGGER_BASE_NAME}.{name}")
         self.logger.setLevel(level)
-        handler = logging.StreamHandler()
-        handler.setLevel(level)
-        formatter = logging.Formatter(self.FORMAT)
-        handler.setFormatter(formatter)
-        self.logger.addHandler(handler)
+        if not self.logger.handlers:
+            handler = logging.StreamHandler()
+            handler.setLevel(level)
+            formatter = logging.Formatter(self.FORMAT)
+            handler.setFormatter(formatter)
+            self.logger.addHandler(handler)
         self.lastMessage = None
         self.lastSeverity = None
 
-- 
2.43.0


From fdc51346acb0d0b4e0a5c5f24d4658cd9ce1424b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:49 +0000
Subject: [PATCH 12/44] fix: S-record reader accepted data in records whose
 length says there is none

---
 objutils/srec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/srec.py b/objutils/srec.py
index f58d2fe..0e03b63 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -96,7 +96,7 @@ class Reader(hexfile.Reader):
         if line.checksum != checksum:
             raise hexfile.InvalidRecordChecksumError()
         line.length -= BIAS[format_type]  # calculate actual data length.
-        if hasattr(line, "chunk") and line.length and (line.length != len(line.chunk)):
+        if hasattr(line, "chunk") and (line.length != len(line.chunk)):
             raise hexfile.InvalidRecordLengthError("Byte count doesn't match length of actual data.")
 
     def is_data_line(self, line, format_type):
-- 
2.43.0


From 0221ce927ebafcadac83ecf4b5265539f6eb7625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:16 +0000
Subject: [PATCH 13/44] fix: sections shared their storage with the caller and
 with each other

All default constructed sections had one and the same bytearray.
---
 objutils/section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/section.py b/objutils/section.py
index a1e8ea6..1e112c2 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -154,7 +154,7 @@ def filler(ch, n):
 
 def _data_converter(data):
     if isinstance(data, bytearray):
-        pass  # no conversion needed.
+        data = copy(data)  # don't share storage, neither with caller nor default value.
     elif isinstance(data, int):
         raise ValueError("single int not permitted")
     elif isinstance(data, str):
-- 
2.43.0


From c4ff5ba454ff00f98503e24364b1cb07537c6071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:18 +0000
Subject: [PATCH 14/44] fix: join_sections() emptied the list it was given

---
 objutils/section.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/objutils/section.py b/objutils/section.py
index 1e112c2..5ec0fea 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -433,8 +433,7 @@ def join_sections(sections):
     else:
         result_sections = []
     prev_section = Section()
-    while sections:
-        section = sections.pop(0)
+    for section in sections:
         if not isinstance(section, Section):
             raise TypeError("'{}' is not a 'Section' instance", section)
         if section.start_address == prev_section.start_address + prev_section.length and result_sections:
-- 
2.43.0


From a37cd19bf35ff6da99ce14bc7621c1eee6fd4fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:20 +0000
Subject: [PATCH 15/44] fix: images created with join=False shared section
 objects

---
 objutils/image.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/objutils/image.py b/objutils/image.py
index abf2f87..7784f11 100644
--- a/objutils/image.py
+++ b/objutils/image.py
@@ -30,6 +30,7 @@ __copyright__ = """
 import enum
 import sys
 from collections import namedtuple
+from copy import deepcopy
 from operator import attrgetter, eq
 
 from sortedcontainers import SortedList
@@ -79,9 +80,11 @@ class Image:
             raise TypeError(f"Argument section is of wrong type '{sections}'")
         self._sections = SortedList(sections, key=attrgetter("start_address"))
         self._join = join
+        _validate_sections(self._sections)
         if join:
             self.join_sections()
-        _validate_sections(self._sections)
+        else:
+            self._sections = SortedList(map(deepcopy, self._sections), key=attrgetter("start_address"))
         self.address = 0
         # if meta and not isinstance(meta, MetaRecord):
         #    raise TypeError("meta-data must be of instance 'MetaRecord'")
-- 
2.43.0


From 025b552b72154f7ae0644d1c4f7ca7851b2d75c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 16/44] fix: Section.write() resized the section if items are
 larger than one byte

---
 objutils/section.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/objutils/section.py b/objutils/section.py
index 5ec0fea..a643d36 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -257,6 +257,7 @@ class Section:
 
         data: array-like
         """
+        data = _data_converter(data)
         length = len(data)
         offset = addr - self.start_address
         if offset < 0:
-- 
2.43.0


From 121538ad4f9cc6e7615642ee94a869094c856e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:24 +0000
Subject: [PATCH 17/44] fix: strings were written and read beyond the end of a
 section

write_string() enlarged the section, or wrote some bytes before raising.
---
 objutils/section.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/objutils/section.py b/objutils/section.py
index a643d36..80956b7 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -335,6 +335,8 @@ class Section:
             pos = self.data[offset:].find(b"\x00")
         else:
             pos = length
+            if offset + length > self.length:
+                raise InvalidAddressError(f"read_string(0x{addr:08x}) access out of bounds.")
         if pos == -1:
             raise TypeError("Unterminated String!!!")  # TODO: Testcase.
         return self.data[offset : offset + pos].decode(encoding=encoding)
@@ -344,10 +346,12 @@ class Section:
         if offset < 0:
             raise InvalidAddressError(f"write_string(0x{addr:08x}) access out of bounds.")
         if PYTHON_VERSION.major == 3:
-            self.data[offset : offset + len(value)] = bytes(value, encoding=encoding)
+            data = bytes(value, encoding=encoding) + b"\x00"
         else:
-            self.data[offset : offset + len(value)] = bytes(value)
-        self.data[offset + len(value)] = 0
+            data = bytes(value) + b"\x00"
+        if offset + len(data) > self.length:
+            raise InvalidAddressError(f"write_string(0x{addr:08x}) access out of bounds.")
+        self.data[offset : offset + len(data)] = data
 
     def write_ndarray(self, addr, array, order=None, **kws):
         """ """
-- 
2.43.0


From a6e204b0858aa74e0557581586dea45b501b9d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:26 +0000
Subject: [PATCH 18/44] fix: insert_section() did not notice sections lying
 within the inserted one

---
 objutils/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/image.py b/objutils/image.py
index 7784f11..e3afa21 100644
--- a/objutils/image.py
+++ b/objutils/image.py
@@ -220,7 +220,7 @@ class Image:
         -------
         bool
         """
-        return address in self or (address + length - 1) in self
+        return any(sec.start_address < address + length and address < sec.start_address + sec.length for sec in self.sections)
 
     def insert_section(self, data, start_address=None, join=True):
         """Insert/add a new section to image.
-- 
2.43.0


From 96cbb79cd6f589075cac138d3e5dcfbb857b8cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:28 +0000
Subject: [PATCH 19/44] fix: reading an array of no elements returned one
 element

---
 objutils/section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/section.py b/objutils/section.py
index 80956b7..eeff26a 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -226,7 +226,7 @@ class Section:
         """ """
         fmt, bo = self._verify_dtype(dtype)
 
-        if length > 1:
+        if length != 1:
             return f"{BYTEORDER.get(bo)}{length}{FORMATS.get(fmt)}"
         else:
             return f"{BYTEORDER.get(bo)}{FORMATS.get(fmt)}"
-- 
2.43.0


From 97ec3ae0abfb3b3ef991c1cef60d817d93aeb463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:50 +0000
Subject: [PATCH 20/44] fix: insert_section() counted items instead of bytes

---
 objutils/image.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/objutils/image.py b/objutils/image.py
index e3afa21..c2114a3 100644
--- a/objutils/image.py
+++ b/objutils/image.py
@@ -245,14 +245,15 @@ class Image:
         start_address = (
             start_address if start_address is not None else self.address
         )  # If Address omitted, create continuous address space.
-        if self._address_contained(start_address, len(data)):
-            raise InvalidAddressError("Overlapping address-space")
         if isinstance(data, str):
             data = [ord(x) for x in data]  # array.array('B',data)
-        self._sections.add(Section(start_address, data))
+        section = Section(start_address, data)
+        if self._address_contained(start_address, section.length):
+            raise InvalidAddressError("Overlapping address-space")
+        self._sections.add(section)
         if join:
             self.join_sections()
-        self.address = start_address + len(data)
+        self.address = start_address + section.length
 
     @property
     def sections(self):
-- 
2.43.0


From 4d16fca47da4107c08aa6a54ca1c8bf6a16c6926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:52 +0000
Subject: [PATCH 21/44] fix: requesting the codec registry again dropped all
 registrations

---
 objutils/registry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/objutils/registry.py b/objutils/registry.py
index 6e9d1bb..3b93479 100644
--- a/objutils/registry.py
+++ b/objutils/registry.py
@@ -42,7 +42,8 @@ Codec = namedtuple("Codec", "Reader Writer description")
 
 class Registry(SingletonBase):
     def __init__(self):
-        self._codecs = OrderedDict()
+        if not hasattr(self, "_codecs"):  # Called each time the singleton is requested.
+            self._codecs = OrderedDict()
 
     def __iter__(self):
         return iter(self._codecs.items())
-- 
2.43.0


From f88dcc11d9a17e1a050e8f7c80a7fa9276a73982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:33 +0000
Subject: [PATCH 22/44] fix: codec registration was neither atomic nor
 case-insensitive

Names registered with upper case letters could not be found, and concurrent
registrations of one name silently replaced each other.
---
 objutils/registry.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/objutils/registry.py b/objutils/registry.py
index 3b93479..97c50f0 100644
--- a/objutils/registry.py
+++ b/objutils/registry.py
@@ -46,7 +46,7 @@ class Registry(SingletonBase):
             self._codecs = OrderedDict()
 
     def __iter__(self):
-        return iter(self._codecs.items())
+        return iter(list(self._codecs.items()))  # Codecs could be registered meanwhile.
 
     def _get_codecs(self):
         return self._codecs
@@ -61,11 +61,13 @@ class Registry(SingletonBase):
         return codec
 
     def register(self, name, readerClass, writerClass, description=""):
-        if name in self.codecs:
+        if name.lower() in self.codecs:
             raise CodecAlreadyExistError(name)
-        self._codecs[name] = Codec(readerClass, writerClass, description)
+        codec = Codec(readerClass, writerClass, description)
         readerClass.codecName = name
         writerClass.codecName = name
+        if self._codecs.setdefault(name.lower(), codec) is not codec:  # Atomic.
+            raise CodecAlreadyExistError(name)
 
     codecs = property(_get_codecs)
     formats = property(_get_formats)
-- 
2.43.0


From b013857f03cd207a1e20f075f87e670299b446ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:35 +0000
Subject: [PATCH 23/44] fix: 32-bit values could not be read in native byte
 order on 64-bit systems

---
 objutils/readers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/readers.py b/objutils/readers.py
index bfdbd51..61d1aea 100644
--- a/objutils/readers.py
+++ b/objutils/readers.py
@@ -75,7 +75,7 @@ class PlainBinaryReader:
         return self.value("H", 2)
 
     def u32(self):
-        return self.value("L", 4)
+        return self.value("I", 4)
 
     def u64(self):
         return self.value("Q", 8)
@@ -87,7 +87,7 @@ class PlainBinaryReader:
         return self.value("h", 2)
 
     def s32(self):
-        return self.value("l", 4)
+        return self.value("i", 4)
 
     def s64(self):
         return self.value("q", 8)
-- 
2.43.0


From 6678c73d729193fae817dd3fd7595b5e894126b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:37 +0000
Subject: [PATCH 24/44] fix: short positive SLEB128 values were decoded as
 negative

---
 objutils/dwarf/encoding.py | 2 +-
 objutils/readers.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/dwarf/encoding.py b/objutils/dwarf/encoding.py
index 0d78ef1..14b2be4 100644
--- a/objutils/dwarf/encoding.py
+++ b/objutils/dwarf/encoding.py
@@ -105,7 +105,7 @@ class SLEB(Construct):
             idx += 1
             if bval & 0x80 == 0:
                 break
-        if (shift < 32) or (bval & 0x40) == 0x40:
+        if (bval & 0x40) == 0x40:
             mask = -(1 << (idx * 7))
             result |= mask
         return result
diff --git a/objutils/readers.py b/objutils/readers.py
index 61d1aea..30a8022 100644
--- a/objutils/readers.py
+++ b/objutils/readers.py
@@ -114,7 +114,7 @@ class PlainBinaryReader:
             idx += 1
             if bval & 0x80 == 0:
                 break
-        if (shift < 32) or (bval & 0x40) == 0x40:
+        if (bval & 0x40) == 0x40:
             mask = -(1 << (idx * 7))
             result |= mask
         return result
-- 
2.43.0


From 746f02306c8a9ca7c4fe0170774b13e7c17af4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:44 +0000
Subject: [PATCH 25/44] fix: memory mapped files leaked a descriptor, and could
 be mapped partially

The size was taken from a file which may be replaced before it is opened.
---
 objutils/utils/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/objutils/utils/__init__.py b/objutils/utils/__init__.py
index 30402da..8ab4357 100644
--- a/objutils/utils/__init__.py
+++ b/objutils/utils/__init__.py
@@ -202,6 +202,8 @@ class SingletonBase:
 
 
 def create_memorymapped_fileview(filename, writeable=False):
-    size = os.path.getsize(filename)
     fd = os.open(filename, os.O_RDWR if writeable else os.O_RDONLY)
-    return memoryview(mmap.mmap(fd, size, access=mmap.ACCESS_WRITE if writeable else mmap.ACCESS_READ))
+    try:
+        return memoryview(mmap.mmap(fd, 0, access=mmap.ACCESS_WRITE if writeable else mmap.ACCESS_READ))
+    finally:
+        os.close(fd)
-- 
2.43.0


From 55120f8284b27b63464628890bb2444c4f5b177b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:46 +0000
Subject: [PATCH 26/44] fix: filtering symbols by more than one type returned
 the first type only

---
 objutils/elf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 7e5ceb9..e123668 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -303,7 +303,7 @@ class SymbolAPI(DBAPI):
                     flt.append(defs.SymbolType.STT_COMMON)
                 elif item == "tls":
                     flt.append(defs.SymbolType.STT_TLS)
-                query = query.filter(model.Elf_Symbol.st_type.in_(flt))
+            query = query.filter(model.Elf_Symbol.st_type.in_(flt))
         if name_pattern:
             query = query.filter(func.regexp(model.Elf_Symbol.symbol_name, name_pattern))
         query = query.order_by(model.Elf_Symbol.section_name)
-- 
2.43.0


From 28379bed14ca2b751bd243fef18056acc07d0e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:48 +0000
Subject: [PATCH 27/44] fix: SectionAPI.fetch() ignored its sections argument

---
 objutils/elf/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index e123668..372e2b5 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -201,6 +201,9 @@ class SectionAPI(DBAPI):
         """
 
         query = self.query(model.Elf_Section)
+        if sections:
+            sections = [s for s in re.split(r"[ ,]", sections) if s]
+            query = query.filter(model.Elf_Section.section_name.in_(sections))
         if name_pattern:
             query = query.filter(func.regexp(model.Elf_Section.section_name, name_pattern))
         if order_by_address:
-- 
2.43.0


From 61aa061f90b54c6d19b1f957529b6e276ff7c639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 28/44] fix: some properties of ELF sections and symbols could
 not be evaluated

---
 objutils/elf/model.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index f1817e2..521237d 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -190,11 +190,11 @@ class Elf_Section(Base, RidMixIn):
 
     @hybrid_property
     def is_debug(self):
-        return self.section_name.starts_with(".debug")
+        return self.section_name.startswith(".debug")
 
     @hybrid_property
     def is_dwo(self):
-        return self.section_name.starts_with(".dwo")
+        return self.section_name.startswith(".dwo")
 
     @hybrid_property
     def has_content(self):
@@ -320,7 +320,7 @@ class Elf_Symbol(Base, RidMixIn):
 
     @hybrid_property
     def weak(self):
-        return self.symbol_bind() == defs.SymbolBinding.STB_WEAK
+        return self.st_bind == defs.SymbolBinding.STB_WEAK
 
     @hybrid_property
     def absolute(self):
@@ -332,11 +332,11 @@ class Elf_Symbol(Base, RidMixIn):
 
     @hybrid_property
     def local(self):
-        return self.symbol_bind() == defs.SymbolBinding.STB_LOCAL
+        return self.st_bind == defs.SymbolBinding.STB_LOCAL
 
     @hybrid_property
     def global_(self):
-        return self.symbol_bind() == defs.SymbolBinding.STB_GLOBAL
+        return self.st_bind == defs.SymbolBinding.STB_GLOBAL
 
     @hybrid_method
     def get_access(self):
-- 
2.43.0


From 09e2d867178f230a1148c7c6341d7dd6c25a3131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:30 +0000
Subject: [PATCH 29/44] fix: only the first note of an ELF section was reported

Furthermore the padding between name and description was taken as description,
and files with two note sections of the same name could not be opened.
---
 objutils/elf/__init__.py | 21 ++++++++++++---------
 objutils/elf/model.py    |  2 +-
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 372e2b5..46abb18 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -535,8 +535,7 @@ class ElfParser:
                 self._sections_by_name[name] = section
                 image = self._images[idx]
                 if section.sh_type == defs.SectionType.SHT_NOTE:
-                    note_obj = self._parse_note(image)
-                    if note_obj:
+                    for note_obj in self._parse_notes(image, 8 if section.sh_addralign == 8 else 4):
                         note = model.Elf_Note(
                             section_name=name,
                             type=note_obj.type,
@@ -710,19 +709,23 @@ class ElfParser:
             i += line.pos
         return "\n".join(result)
 
-    def _parse_note(self, data):
+    def _parse_notes(self, data, alignment):
         Note = Struct(
             "namesz" / self.Word,
             "descsz" / self.Word,
             "type" / self.Word,
             "name" / Bytes(this.namesz),
+            Padding(lambda ctx: -(12 + ctx.namesz) % alignment),
             "desc" / Bytes(this.descsz),
         )
-        if not data:
-            return None
-        result = Note.parse(data)
-        result.desc = binascii.b2a_hex(result.desc).decode()
-        result.name = self.asciiCString.parse(result.name)
+        result = []
+        offset = 0
+        while data and offset < len(data):
+            note = Note.parse(data[offset:])
+            offset += -(-(12 + note.namesz) // alignment) * alignment + -(-note.descsz // alignment) * alignment
+            note.desc = binascii.b2a_hex(note.desc).decode()
+            note.name = self.asciiCString.parse(note.name) if note.name else ""
+            result.append(note)
         return result
 
     def debug_sections(self):
@@ -925,7 +928,7 @@ class ElfParser:
 
     @property
     def notes(self):
-        notes = self.query(model.Elf_Note).order_by(model.Elf_Note.section_name).all()
+        notes = self.query(model.Elf_Note).order_by(model.Elf_Note.section_name, model.Elf_Note.rid).all()
         if notes:
             return notes
         else:
diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index 521237d..ab5cc67 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -380,7 +380,7 @@ class Elf_Comment(Base, RidMixIn):
 class Elf_Note(Base, RidMixIn):
     """ """
 
-    section_name = Column(types.VARCHAR, unique=True)
+    section_name = Column(types.VARCHAR, index=True)
     type = StdInteger()
     name = Column(types.VARCHAR)
     desc = Column(types.VARCHAR)
-- 
2.43.0


From 5bf59dbf17cfdb7403a1bc543bca811fe49e85bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 30/44] fix: ELF index is built aside and put in place only if
 complete

An index contains the hash of its ELF file from the beginning, but was committed
once per symbol table. Killed while indexing (or failed, errors were printed
only), it has been taken for complete ever after. Moreover, files being neither
a database nor an index could not be replaced, an index in use locked out other
processes, and hash and content may came from different versions of a file.
---
 objutils/elf/__init__.py | 89 +++++++++++++++++++++++++---------------
 objutils/elf/model.py    |  9 +++-
 2 files changed, 63 insertions(+), 35 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 46abb18..2da2ae6 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -30,6 +30,7 @@ import os
 import re
 import time
 import typing
+import uuid
 from collections import OrderedDict, namedtuple
 from itertools import groupby
 from pathlib import Path
@@ -67,6 +68,7 @@ from construct import (
     this,
 )
 from sqlalchemy import func, not_
+from sqlalchemy.exc import DatabaseError, OperationalError
 
 from objutils import Image, Section
 from objutils.elf import defs, model
@@ -76,6 +78,8 @@ from objutils.utils import create_memorymapped_fileview
 
 MAGIC = b"\x7fELF"
 
+MAX_INDEX_ATTEMPTS = 5
+
 
 @singleton
 class Pass2(Construct):
@@ -384,34 +388,58 @@ class ElfParser:
     )
 
     def create_db_on_demand(self) -> None:
-        db_exists = self.db_name.exists()
-        new_db = False
-        hash_value = calculate_crypto_hash(self.fp.tobytes())
-        if db_exists:
-            db = model.Model(self.db_name)
-            session = db.session
-            meta = session.query(model.Meta).first()
-            if meta:
-                print(f"Calculated hash: {hash_value} DB-hash: {meta.hash_value} EQ: {hash_value == meta.hash_value}")
-            if (meta is None) or (hash_value != meta.hash_value):
-                db.close()
-                new_db = True
-                try:
-                    os.unlink(self.db_name)
-                except Exception as e:
-                    print("Upps!", e)
-        else:
-            new_db = True
-        self.db = model.Model(self.db_name)
+        data = self.fp.tobytes()
+        self.fp = memoryview(data)  # File could be modified while it is being processed.
+        hash_value = calculate_crypto_hash(data)
+        for _ in range(MAX_INDEX_ATTEMPTS):
+            if self.open_db(hash_value):
+                self.set_data_types(self)
+                return
+            self.create_db(hash_value)
+        if not self.open_db(hash_value):
+            raise OSError(f"Index '{self.db_name}' is permanently replaced by other processes.")
+        self.set_data_types(self)
+
+    def open_db(self, hash_value: str) -> bool:
+        """Open existing index, if there is one for exactly this file content."""
+        if not self.db_name.exists():
+            return False
+        self.db = model.Model(self.db_name, create_tables=False)
         self.session = self.db.session
-        if new_db:
-            meta = model.Meta(hash_value=hash_value)
-            self.session.add(meta)
-            self.load_data()
-        else:
-            self._header = self.session.query(model.Elf_Header).first()
-            self._program_headers = self.session.query(model.Elf_ProgramHeaders).all()
-            self.set_data_types(self)
+        valid = False
+        try:
+            if self.session.query(model.Meta.hash_value).first() == (hash_value,):
+                self._header = self.session.query(model.Elf_Header).first()
+                self._program_headers = self.session.query(model.Elf_ProgramHeaders).all()
+                valid = self._header is not None
+        except DatabaseError as e:
+            # Either not a database at all, or not one of ours?
+            if isinstance(e, OperationalError) and not re.search("no such|unsupported file format", str(e.orig)):
+                raise
+        finally:
+            if not valid:
+                self.db.close()
+        return valid
+
+    def create_db(self, hash_value: str) -> None:
+        """Create index aside and put it in place as soon as it is complete."""
+        if self.db_name == self.filename:
+            raise ValueError(f"'{self.filename}' would be overwritten by its own index.")
+        temp_name = f"{self.db_name}.{uuid.uuid4().hex}.tmp"
+        try:
+            self.db = model.Model(temp_name)
+            self.session = self.db.session
+            try:
+                self.session.add(model.Meta(hash_value=hash_value))
+                self.load_data()
+            finally:
+                self.db.close()
+            for name in (self.db_name, f"{self.db_name}-journal"):  # A journal must not survive its database.
+                Path(name).unlink(missing_ok=True)
+            os.replace(temp_name, self.db_name)
+        finally:
+            for name in (temp_name, f"{temp_name}-journal"):
+                Path(name).unlink(missing_ok=True)
 
     def load_data(self):
         basic_header = ElfParser.BasicHeader.parse(self.fp)
@@ -685,12 +713,7 @@ class ElfParser:
                 access=section_header.sh_flags if section_header else 0,
             )
             symbols.append(db_sym)
-        try:
-            self.session.bulk_save_objects(symbols)
-            self.session.commit()
-        except Exception as e:
-            self.session.rollback()
-            print(f"{e}")
+        self.session.bulk_save_objects(symbols)
 
     def _parse_comment(self, data):
         Line = Struct("line" / CString("ascii"), "pos" / Tell)
diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index ab5cc67..c16c846 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -497,7 +497,7 @@ class A2LDatabase(object):
 
 
 class Model:
-    def __init__(self, filename: str = ":memory:", debug: bool = False):
+    def __init__(self, filename: str = ":memory:", debug: bool = False, create_tables: bool = True):
         if filename == ":memory:" or not filename:
             self.dbname = ":memory:"
         else:
@@ -516,7 +516,12 @@ class Model:
         self._session = orm.Session(self._engine, autoflush=True, autocommit=False)
 
         self._metadata = Base.metadata
-        Base.metadata.create_all(self.engine)
+        if create_tables:
+            try:
+                Base.metadata.create_all(self.engine)
+            except BaseException:
+                self.close()
+                raise
         self.session.flush()
         self.session.commit()
 
-- 
2.43.0


From 7266eabee9db3cb83416361c203ade9425971f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 31/44] fix: nesting of debug information entries was lost, and
 the last entry of a unit could be

---
 objutils/dwarf/__init__.py | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 4f51d3d..54e6552 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -704,7 +704,7 @@ class DwarfProcessor:
         die_map = {}
         while True:
             section_pos = image.tell()
-            if section_pos >= section_length - 1:
+            if section_pos >= section_length:
                 break
             root_element = DebugInformationEntry("root")
             die_stack = [root_element]
@@ -737,32 +737,27 @@ class DwarfProcessor:
                 start = image.tell()
                 if start >= dbgInfo.start + cu_length + 4:
                     break
-                if start >= section_length - 1:
+                if start >= section_length:
                     break
                 attr = Attribute.parse_stream(image)
                 abbr = self.abbrevations.get(debug_abbrev_offset, attr.attr)
-                if not abbr:
+                if attr.attr == 0:
                     print(f"<{start:2x}>: Abbrev Number: 0 ---")
                     level -= 1
+                    if len(die_stack) > 1:
+                        die_stack.pop()
+                elif not abbr:
+                    raise ValueError(f"Entry at 0x{start:x} uses undefined abbreviation #{attr.attr}.")
                 else:
                     die = DebugInformationEntry(abbr.tag)
                     db_die = model.DebugInformationEntry(tag=abbr.tag)
                     self.db_session.add(db_die)
-                    if attr.attr != 0:
-                        die_stack[-1].children.append(die)
+                    die_stack[-1].children.append(die)
                     print(f"{'   ' * (level + 1)}<{level}><{start:02x}>: Abbrev Number: {attr.attr} ({abbr.tag})")
-                    die_start = start
+                    die_map[start] = die
                     if abbr.children:
                         die_stack.append(die)
                         level += 1
-                    else:
-                        pass
-                    if attr.attr == 0:
-                        level -= 1
-                        if len(die_stack):
-                            die_stack.pop()
-                        else:
-                            print("DIE_STACK empty!!!")
                     for enc, form, special_value in abbr.attrs:
                         reader = form_readers.get(form)
                         start = image.tell()
@@ -781,10 +776,6 @@ class DwarfProcessor:
                                 db_die.attributes.append(
                                     model.DIEAttribute(name=enc.name, raw_value=value, display_value=display_value)
                                 )
-                                offset += attr.stop - attr.start
-                                pos = image.tell()
-                                if pos >= dbgInfo.start + cu_length + 4:
-                                    break
                                 continue
                             else:
                                 print("*EF", enc, form, start, attr, abbr)
@@ -847,10 +838,9 @@ class DwarfProcessor:
                         break
                 # print(db_die, db_die.attributes)
                 # self.db_session.bulk_save_objects([db_die])
-                die_map[die_start] = die
             result.append(root_element)
         self.db_session.commit()
-        return DebugInformation(die_map, [d.children[0] for d in result])
+        return DebugInformation(die_map, [child for d in result for child in d.children])
 
     def pubnames(self):
         if ".debug_pubnames" not in self.debug_sections:
-- 
2.43.0


From c1b0e47ef5c2ff872188ec5578bbdd5a319a3315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 32/44] fix: abbreviations of another table were used for
 undefined codes, negative implicit constants

---
 objutils/dwarf/__init__.py | 45 +++++++++++---------------------------
 1 file changed, 13 insertions(+), 32 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 54e6552..8ccf6f5 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -183,12 +183,11 @@ class Abbrevations:
         "attrValue" / ULEB,
         "formValue" / ULEB,
         "stop" / Tell,
-        "next" / Computed((this.attrValue != 0) and (this.formValue != 0)),
     )
 
     SpecialValueStruct = Struct(
         "start" / Tell,
-        "value" / ULEB,
+        "value" / SLEB,
         "stop" / Tell,
     )
 
@@ -218,7 +217,7 @@ class Abbrevations:
             code = abbrv_header.code
             offset += abbrv_header.stop - abbrv_header.start
             if code == 0:
-                continue
+                return None  # End of this table.
             key = (
                 abbr_offset,
                 code,
@@ -245,38 +244,20 @@ class Abbrevations:
 
             while True:
                 attr = self.AttributeStruct.parse(self.image[offset:])
-                if not attr.next:
-                    # key_offset = offset
+                offset += attr.stop - attr.start
+                if attr.attrValue == 0 and attr.formValue == 0:
                     break
-                if attr.formValue == constants.AttributeForm.DW_FORM_implicit_const:
-                    offset += attr.stop - attr.start
+                try:
+                    encoding = constants.AttributeEncoding(attr.attrValue)
+                except TypeError:
+                    encoding = constants.FakeEncoding(attr.attrValue)
+                form = constants.AttributeForm(attr.formValue)
+                value = None
+                if form == constants.AttributeForm.DW_FORM_implicit_const:
                     special_value = self.SpecialValueStruct.parse(self.image[offset:])
                     offset += special_value.stop - special_value.start
-                    self.abbrevations[key].attrs.append(
-                        Attribute(
-                            constants.AttributeEncoding(attr.attrValue),
-                            constants.AttributeForm(attr.formValue),
-                            special_value.value,
-                        )
-                    )
-                    continue
-                if attr.attrValue != 0 and attr.formValue != 0:
-                    #
-                    try:
-                        self.abbrevations[key].attrs.append(
-                            Attribute(
-                                constants.AttributeEncoding(attr.attrValue),
-                                constants.AttributeForm(attr.formValue),
-                            )
-                        )
-                    except TypeError:
-                        self.abbrevations[key].attrs.append(
-                            Attribute(
-                                constants.FakeEncoding(attr.attrValue),
-                                constants.AttributeForm(attr.formValue),
-                            )
-                        )
-                offset += attr.stop - attr.start
+                    value = special_value.value
+                self.abbrevations[key].attrs.append(Attribute(encoding, form, value))
             if code == item:
                 return self.abbrevations[key]
 
-- 
2.43.0


From 2adff421c7e1d87b37109ca6cfb54b4d6ae1be12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:10 +0000
Subject: [PATCH 33/44] fix: debug information entries were recorded again by
 every decode, and partially by failed ones

---
 objutils/dwarf/__init__.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 8ccf6f5..02284ba 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -623,6 +623,17 @@ class DwarfProcessor:
                 level += 1
 
     def do_dbg_info(self):
+        try:
+            self.db_session.query(model.DIEAttribute).delete()
+            self.db_session.query(model.DebugInformationEntry).delete()
+            result = self._process_dbg_info()
+            self.db_session.commit()
+        except BaseException:
+            self.db_session.rollback()
+            raise
+        return result
+
+    def _process_dbg_info(self):
         if ".debug_info" in self.debug_sections:
             key = ".debug_info"
         elif ".debug_global_info" in self.debug_sections:
@@ -820,7 +831,6 @@ class DwarfProcessor:
                 # print(db_die, db_die.attributes)
                 # self.db_session.bulk_save_objects([db_die])
             result.append(root_element)
-        self.db_session.commit()
         return DebugInformation(die_map, [child for d in result for child in d.children])
 
     def pubnames(self):
-- 
2.43.0


From 557d12a976f5b83a74c13a25680eae85f866e640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 34/44] fix: debug information with attribute values above
 2**63 - 1 could not be decoded

---
 objutils/dwarf/__init__.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 02284ba..7aeac58 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -111,6 +111,12 @@ def encoding_repr(encoding, value):
         return f"Unknown encoding value ({value})"
 
 
+def db_attribute(name, raw_value, display_value):
+    # Integers may exceed the range of SQLite's, the columns are textual anyhow.
+    raw_value, display_value = (str(v) if isinstance(v, int) else v for v in (raw_value, display_value))
+    return model.DIEAttribute(name=name, raw_value=raw_value, display_value=display_value)
+
+
 @dataclass(frozen=True)
 class Attribute:
     encoding: constants.AttributeEncoding
@@ -765,9 +771,7 @@ class DwarfProcessor:
                                         DIEAttribute(value, display_value),
                                     )
                                 )
-                                db_die.attributes.append(
-                                    model.DIEAttribute(name=enc.name, raw_value=value, display_value=display_value)
-                                )
+                                db_die.attributes.append(db_attribute(enc.name, value, display_value))
                                 continue
                             else:
                                 print("*EF", enc, form, start, attr, abbr)
@@ -823,7 +827,7 @@ class DwarfProcessor:
                                 DIEAttribute(value, display_value),
                             )
                         )
-                        db_die.attributes.append(model.DIEAttribute(name=enc.name, raw_value=value, display_value=display_value))
+                        db_die.attributes.append(db_attribute(enc.name, value, display_value))
                     offset += attr.stop - attr.start
                     pos = image.tell()
                     if pos >= dbgInfo.start + cu_length + 4:
-- 
2.43.0


From 4dad22ea09c30a5c2b596296956b84689abb0044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:14 +0000
Subject: [PATCH 35/44] fix: headers of DWARF 5 type and skeleton units were
 read as entries, DWARF 2 ref_addr size

---
 objutils/dwarf/__init__.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 7aeac58..78e812f 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -558,7 +558,8 @@ class DwarfProcessor:
 
             MacroInformationHeader.parse_stream(image)
 
-    def get_form_readers(self, addressSize):
+    def get_form_readers(self, addressSize, version):
+        address = Address(addressSize, self.endianess)
         return {
             constants.AttributeForm.DW_FORM_string: self.readers.cstring_utf8,
             constants.AttributeForm.DW_FORM_udata: self.readers.uleb,
@@ -567,13 +568,13 @@ class DwarfProcessor:
             constants.AttributeForm.DW_FORM_data2: self.readers.u16,
             constants.AttributeForm.DW_FORM_data4: self.readers.u32,
             constants.AttributeForm.DW_FORM_data8: self.readers.u64,
-            constants.AttributeForm.DW_FORM_addr: Address(addressSize, self.endianess),
+            constants.AttributeForm.DW_FORM_addr: address,
             constants.AttributeForm.DW_FORM_block: self.readers.block_uleb,
             constants.AttributeForm.DW_FORM_block1: self.readers.block1,
             constants.AttributeForm.DW_FORM_block2: self.readers.block2,
             constants.AttributeForm.DW_FORM_block4: self.readers.block4,
             constants.AttributeForm.DW_FORM_flag: self.readers.u8,
-            constants.AttributeForm.DW_FORM_ref_addr: self.readers.u32,
+            constants.AttributeForm.DW_FORM_ref_addr: address if version == 2 else self.readers.u32,
             constants.AttributeForm.DW_FORM_ref1: self.readers.u8,
             constants.AttributeForm.DW_FORM_ref2: self.readers.u16,
             constants.AttributeForm.DW_FORM_ref4: self.readers.u32,
@@ -673,6 +674,9 @@ class DwarfProcessor:
             "unit_type" / self.readers.u8,
             "address_size" / self.readers.u8,
             "debug_abbrev_offset" / self.readers.u32,
+            "dwo_id" / If(lambda ctx: ctx.unit_type in (0x04, 0x05), self.readers.u64),  # DW_UT_[skeleton | split_compile]
+            "type_signature" / If(lambda ctx: ctx.unit_type in (0x02, 0x06), self.readers.u64),  # DW_UT_[type | split_type]
+            "type_offset" / If(lambda ctx: ctx.unit_type in (0x02, 0x06), self.readers.u32),
             "stop" / Tell,
         )
 
@@ -711,6 +715,8 @@ class DwarfProcessor:
             # print(dbgInfo)
             cu_length = dbgInfo.header.unit_length
             version = dbgInfo.header.version
+            if cu_length >= 0xFFFFFFF0 or version not in (2, 3, 4, 5):
+                raise ValueError(f"Unit at 0x{section_pos:x}: only 32-bit DWARF, versions 2 to 5 supported.")
             if version < 5:
                 debug_abbrev_offset = dbgInfo.body.debug_abbrev_offset
                 address_size = dbgInfo.body.address_size
@@ -727,7 +733,7 @@ class DwarfProcessor:
             level = 0
             pos = 0
             offset += dbgInfo.stop - dbgInfo.start
-            form_readers = self.get_form_readers(address_size)
+            form_readers = self.get_form_readers(address_size, version)
             print("Pos, Length", pos, cu_length)
             if pos >= cu_length:
                 break
-- 
2.43.0


From ceafa6463a44877993d1ed5354a460c3229b2bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:09 +0000
Subject: [PATCH 36/44] fix: oj-elf-extract reported success without writing
 anything

---
 objutils/scripts/oj_elf_extract.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/objutils/scripts/oj_elf_extract.py b/objutils/scripts/oj_elf_extract.py
index 240a88a..d0117fc 100644
--- a/objutils/scripts/oj_elf_extract.py
+++ b/objutils/scripts/oj_elf_extract.py
@@ -94,9 +94,11 @@ def main():
         exclude_pattern=args.exclude,
         include_pattern=args.include,
     )
-    if img:
-        dump(args.file_type, args.output_file_name, img)
-        print(f"HEX image written to: '{args.output_file_name}' [{len(img)} total bytes]")
+    if not img:
+        print(f"\n'{args.elf_file}' contains nothing to extract, '{args.output_file_name}' not written.")
+        exit(1)
+    dump(args.file_type, args.output_file_name, img)
+    print(f"HEX image written to: '{args.output_file_name}' [{len(img)} total bytes]")
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 310db43dcea50db461f1e036dbf4336ced076aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 37/44] fix: location expressions were decoded with the byte
 order of the file processed last

---
 objutils/dwarf/sm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/objutils/dwarf/sm.py b/objutils/dwarf/sm.py
index 53208be..73fd58d 100644
--- a/objutils/dwarf/sm.py
+++ b/objutils/dwarf/sm.py
@@ -1328,10 +1328,11 @@ OP_MAP = {
 class StackMachine:
 
     def __init__(self, readers):
-        self.stack = Stack()
-        OperationBase.set_readers(readers)
+        self.readers = readers
 
     def evaluate(self, expr: bytes):
+        self.stack = Stack()
+        OperationBase.set_readers(self.readers)  # May have been changed by another instance.
         OPs = constants.Operation
 
         image = io.BytesIO(expr)
-- 
2.43.0


From 67ea654c1803c7d459cea6225800784cbf80a631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:30 +0000
Subject: [PATCH 38/44] fix: an interrupted insert_section() left an
 inconsistent section list

---
 objutils/image.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/objutils/image.py b/objutils/image.py
index c2114a3..352641f 100644
--- a/objutils/image.py
+++ b/objutils/image.py
@@ -250,9 +250,9 @@ class Image:
         section = Section(start_address, data)
         if self._address_contained(start_address, section.length):
             raise InvalidAddressError("Overlapping address-space")
-        self._sections.add(section)
-        if join:
-            self.join_sections()
+        sections = SortedList(self._sections, key=attrgetter("start_address"))  # An interrupted add() must not be visible.
+        sections.add(section)
+        self._sections = join_sections(sections) if join else sections
         self.address = start_address + section.length
 
     @property
-- 
2.43.0


From 1e751d310d9f8b65692714907759f6e0c95bbb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:13 +0000
Subject: [PATCH 39/44] fix: name patterns were matched the wrong way round

SQLAlchemy replaces the REGEXP function registered for the index by its own, which
expects the pattern first: section and symbol names were used as patterns.
---
 objutils/elf/__init__.py | 10 +++++-----
 objutils/elf/model.py    |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 2da2ae6..840d11d 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -209,7 +209,7 @@ class SectionAPI(DBAPI):
             sections = [s for s in re.split(r"[ ,]", sections) if s]
             query = query.filter(model.Elf_Section.section_name.in_(sections))
         if name_pattern:
-            query = query.filter(func.regexp(model.Elf_Section.section_name, name_pattern))
+            query = query.filter(func.regex_match(model.Elf_Section.section_name, name_pattern))
         if order_by_address:
             query = query.order_by(model.Elf_Section.sh_addr)
         else:
@@ -312,7 +312,7 @@ class SymbolAPI(DBAPI):
                     flt.append(defs.SymbolType.STT_TLS)
             query = query.filter(model.Elf_Symbol.st_type.in_(flt))
         if name_pattern:
-            query = query.filter(func.regexp(model.Elf_Symbol.symbol_name, name_pattern))
+            query = query.filter(func.regex_match(model.Elf_Symbol.symbol_name, name_pattern))
         query = query.order_by(model.Elf_Symbol.section_name)
         if order_by_value:
             query = query.order_by(model.Elf_Symbol.st_value)
@@ -334,7 +334,7 @@ class SymbolAPI(DBAPI):
         """
         syms = self.query(model.Elf_Symbol).filter(model.Elf_Symbol.st_shndx == defs.SectionName.SHN_ABS)
         syms = syms.filter(model.Elf_Symbol.symbol_name != "")
-        syms = syms.filter(func.regexp(model.Elf_Symbol.symbol_name, "_.*"))
+        syms = syms.filter(func.regex_match(model.Elf_Symbol.symbol_name, "_.*"))
         syms = syms.filter(model.Elf_Symbol.st_type == defs.SymbolType.STT_NOTYPE)
         return syms.order_by(model.Elf_Symbol.st_value).all()
 
@@ -1017,10 +1017,10 @@ class ElfParser:
         # print("SECTIONS", sections)
 
         if include_pattern:
-            query = query.filter(func.regexp(model.Elf_Section.section_name, include_pattern))
+            query = query.filter(func.regex_match(model.Elf_Section.section_name, include_pattern))
 
         if exclude_pattern:
-            query = query.filter(not_(func.regexp(model.Elf_Section.section_name, exclude_pattern)))
+            query = query.filter(not_(func.regex_match(model.Elf_Section.section_name, exclude_pattern)))
 
         query = query.order_by(model.Elf_Section.sh_addr)
         result = []
diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index c16c846..f1b3567 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -455,7 +455,7 @@ def regexer(value, expr):
 
 @event.listens_for(Engine, "connect")
 def set_sqlite3_pragmas(dbapi_connection, connection_record):
-    dbapi_connection.create_function("REGEXP", 2, regexer)
+    dbapi_connection.create_function("REGEX_MATCH", 2, regexer)  # SQLAlchemy registers a REGEXP function on its own.
     cursor = dbapi_connection.cursor()
     # cursor.execute("PRAGMA jornal_mode=WAL")
     cursor.execute("PRAGMA FOREIGN_KEYS=ON")
-- 
2.43.0


From 468e35817eab8f7054771ab58eeddae140b913fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:24 +0000
Subject: [PATCH 40/44] fix: oj-elf-info could not be started

It imported names from objutils.elf which are in objutils.elf.defs.
---
 objutils/scripts/oj_elf_info.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/objutils/scripts/oj_elf_info.py b/objutils/scripts/oj_elf_info.py
index baa301b..fee846c 100644
--- a/objutils/scripts/oj_elf_info.py
+++ b/objutils/scripts/oj_elf_info.py
@@ -29,18 +29,15 @@ __copyright__ = """
 import argparse
 
 # from objutils.dwarf import DwarfProcessor
-from objutils.elf import (
-    ElfParser,
-    model,
-    program_header_flags_name,
-    program_header_name,
-)
+from objutils.elf import ElfParser, model
 from objutils.elf.defs import (
     ELF_BYTE_ORDER_NAMES,
     ELF_CLASS_NAMES,
     ELF_TYPE_NAMES,
     ELFAbiType,
     ELFType,
+    program_header_flags_name,
+    program_header_name,
 )
 
 
-- 
2.43.0


From 1c274f001d0c325dbd943ee3b425c635a0b651b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:58 +0000
Subject: [PATCH 41/44] fix: plain binary writer could not use integers as
 filler, and dropped gaps for empty fillers

---
 objutils/binfile.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/objutils/binfile.py b/objutils/binfile.py
index 1ed8b7d..bf020ac 100644
--- a/objutils/binfile.py
+++ b/objutils/binfile.py
@@ -73,10 +73,12 @@ class Writer:
     def dumps(self, image, filler=b"\xff", **kws):
         if not isinstance(filler, (bytes, int)):
             raise TypeError("filler must be of type 'bytes' or 'int'")
-        if isinstance(filler, bytes) and len(filler) > 1:
+        if isinstance(filler, bytes) and len(filler) != 1:
             raise TypeError("filler must be a single byte")
-        elif isinstance(filler, int) and filler > 255:
-            raise ValueError("filler must be in range 0..255")
+        elif isinstance(filler, int):
+            if not (0 <= filler <= 255):
+                raise ValueError("filler must be in range 0..255")
+            filler = bytes([filler])
         result = bytearray()
         previous_address = None
         previous_length = None
-- 
2.43.0


From 1eb3c05186d1658b0cbbf8e07a4365f93f6aadd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:15 +0000
Subject: [PATCH 42/44] fix: extended Tektronix reader accepted records of odd
 length

---
 objutils/etek.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/objutils/etek.py b/objutils/etek.py
index 544591c..65292d7 100644
--- a/objutils/etek.py
+++ b/objutils/etek.py
@@ -47,16 +47,15 @@ class Reader(hexfile.Reader):
 
     def check_line(self, line, format_type):
         if format_type == DATA:
-            line.length = (line.length // 2) - 5
             checksum = checksums.nibble_sum(
                 utils.make_list(
                     utils.int_to_array(line.address),
                     6,
-                    ((line.length + 5) * 2),
+                    line.length,
                     line.chunk,
                 )
             )
-            if line.length != len(line.chunk):
+            if line.length != (len(line.chunk) + 5) * 2:
                 raise hexfile.InvalidRecordLengthError("Byte count doesn't match length of actual data.")
             if line.checksum != checksum:
                 raise hexfile.InvalidRecordChecksumError()
-- 
2.43.0


From a907c5662347ffb636b1fb5b243d58a217b6ba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:54 +0000
Subject: [PATCH 43/44] fix: S0 and S5 records always have a 16-bit address
 field

---
 objutils/srec.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/objutils/srec.py b/objutils/srec.py
index 0e03b63..a95a1f5 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -165,12 +165,15 @@ class Writer(hexfile.Writer):
     def srecord(self, record_type, length, address, data=None):
         if data is None:
             data = []
-        length += self.offset
+        offset, address_mask = self.offset, self.address_mask
+        if record_type in (0, 5):  # Always use a 16-bit address field.
+            offset, address_mask = 3, "%04X"
+        length += offset
         if length > 0xFF:
             raise ValueError("row_length is too large for S-records.")
         address_bytes = utils.int_to_array(address)
         checksum = self.checksum(make_list(address_bytes, length, data))
-        mask = f"S%u%02X{self.address_mask!s}%s%02X"
+        mask = f"S%u%02X{address_mask!s}%s%02X"
         return mask % (record_type, length, address, Writer.hex_bytes(data), checksum)
 
     def compose_row(self, address, length, row):
@@ -187,7 +190,7 @@ class Writer(hexfile.Writer):
 
     def compose_footer(self, meta):
         result = []
-        if self.s5record:
+        if self.s5record and self.record_count <= 0xFFFF:  # S5 is limited to a 16-bit count.
             result.append(self.srecord(5, 0, self.record_count))
         if self.start_address is not None:
             if self.effective_type == 1:  # 16bit.
-- 
2.43.0


From 923c4d5415b988a8afd2ddbfdd983812d461d20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:03 +0000
Subject: [PATCH 44/44] fix: an ELF file with an empty symbol table can be
 opened

---
 objutils/elf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 840d11d..608a2e4 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -684,7 +684,7 @@ class ElfParser:
             )
         symbol_cache = {}
         # num_symbols = len(section.image) // Symbol.sizeof()
-        for offset in range(0, len(section.image), Symbol.sizeof()):
+        for offset in range(0, len(section.image or b""), Symbol.sizeof()):
             try:
                 sym = Symbol.parse(section.image[offset : offset + Symbol.sizeof()])
             except StreamError as e:
-- 
2.43.0

