From edf723d307f60ffb51902c6b5744aa77414be64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 01/91] fix: compute the entry header from the current data on
 every write

---
 src/vfbLib/vfb/entry.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index 661c515..744eeca 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -1,5 +1,4 @@
 import logging
-from functools import cached_property
 from io import BytesIO
 from struct import pack
 from typing import TYPE_CHECKING
@@ -59,7 +58,7 @@ class VfbEntry(StreamReader):
             f"compiler: {self.compiler}>"
         )
 
-    @cached_property
+    @property
     def header(self) -> bytes:
         """The entry header.
 
-- 
2.43.0


From 5a2f0e1bd94810e7154668d254e1d60c245512f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 02/91] fix: keep existing glyph data when accessing glyphs
 through the Vfb

---
 src/vfbLib/vfb/glyph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index bf32f84..c643dc7 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -33,7 +33,8 @@ class VfbGlyph:
         self._parent = parent
         self._glyph: UfoMasterGlyph | None = None
         self.master_index = 0
-        self.empty()
+        if self.entry.data is None:
+            self.empty()
 
     # UFO/cu2qu compatibility
 
-- 
2.43.0


From 6e356d77d171250af627d7e348693873f3397999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 03/91] fix: stop reading entries at the end of the stream

---
 src/vfbLib/vfb/entry.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index 744eeca..23fa862 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -6,7 +6,7 @@ from typing import TYPE_CHECKING
 from vfbLib.compilers.base import BaseCompiler
 from vfbLib.constants import parser_classes
 from vfbLib.enum import F
-from vfbLib.helpers import hexStr, int32_size
+from vfbLib.helpers import hexStr, int16_size, int32_size
 from vfbLib.parsers.base import BaseParser, StreamReader
 from vfbLib.typing import EntryDict
 
@@ -151,7 +151,11 @@ class VfbEntry(StreamReader):
         """
         Read an entry from the stream and return its data size.
         """
-        raw_id = self.read_uint16()
+        id_bytes = self.stream.read(int16_size)
+        if len(id_bytes) < int16_size:
+            raise EOFError
+
+        raw_id = int.from_bytes(id_bytes, byteorder="little", signed=False)
         self.id = raw_id & ~0x8000
 
         if raw_id & 0x8000:
-- 
2.43.0


From 1b227c68846d57119ef180a2a4583d779dc3fd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 04/91] fix: compile MMKernPair from the structure the parser
 returns

---
 src/vfbLib/compilers/fl3.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/fl3.py b/src/vfbLib/compilers/fl3.py
index 5a42ba4..72e651d 100644
--- a/src/vfbLib/compilers/fl3.py
+++ b/src/vfbLib/compilers/fl3.py
@@ -1,4 +1,5 @@
 import logging
+from typing import Any
 
 from vfbLib.compilers.base import BaseCompiler
 
@@ -6,6 +7,8 @@ logger = logging.getLogger(__name__)
 
 
 class MMKernPairCompiler(BaseCompiler):
-    def _compile(self, data: list[int]) -> None:
-        for value in data:
+    def _compile(self, data: dict[str, Any]) -> None:
+        self.write_uint32(data["l"])
+        self.write_uint32(data["r"])
+        for value in data["values"]:
             self.write_int16(value)
-- 
2.43.0


From 12730d6e8e5f65ae1ddf4d5ae0e60023a3c253b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 05/91] fix: round primary instance coordinates instead of
 truncating

---
 src/vfbLib/compilers/mm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/compilers/mm.py b/src/vfbLib/compilers/mm.py
index cfa3611..fae8102 100644
--- a/src/vfbLib/compilers/mm.py
+++ b/src/vfbLib/compilers/mm.py
@@ -42,4 +42,4 @@ class PrimaryInstancesCompiler(BaseCompiler):
             name = instance["name"]
             self.write_str_with_len(name)
             for value in instance["values"]:
-                self.write_value(int(10000 * value))
+                self.write_value(round(10000 * value))
-- 
2.43.0


From ef595fb87f7ab874e79f633832d18bd763c62126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 06/91] fix: round guide slopes instead of truncating

---
 src/vfbLib/compilers/guides.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/compilers/guides.py b/src/vfbLib/compilers/guides.py
index 4265373..ae85736 100644
--- a/src/vfbLib/compilers/guides.py
+++ b/src/vfbLib/compilers/guides.py
@@ -17,7 +17,9 @@ class GuidesCompiler(BaseCompiler):
             for guide in dir_guides:
                 for master_index in range(self.vfb.num_masters):
                     self.write_value(guide[master_index]["pos"])
-                    angle = int(tan(radians(guide[master_index]["angle"])) * 10000)
+                    angle = round(
+                        tan(radians(guide[master_index]["angle"])) * 10000
+                    )
                     self.write_value(angle)
 
 
-- 
2.43.0


From b3e46ac9b32f0edea413da9d02e87f8f276e0bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 07/91] fix: invert bitmaps into the byte range when compiling
 for Windows

---
 src/vfbLib/compilers/bitmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/compilers/bitmap.py b/src/vfbLib/compilers/bitmap.py
index a7b4fd0..a20f1f1 100644
--- a/src/vfbLib/compilers/bitmap.py
+++ b/src/vfbLib/compilers/bitmap.py
@@ -69,7 +69,7 @@ class BaseBitmapCompiler(BaseCompiler):
         # For the "windows" platform, the bitmap must be inverted.
         data = bitmap["data"]
         if self.vfb is not None and self.vfb.writer_platform == "windows":
-            data = [[~b - 0x100 for b in row] for row in data]
+            data = [[~b + 0x100 for b in row] for row in data]
 
         encoded = self._encode_bitmap(data)
         num_values = len(list(chain.from_iterable(encoded)))
-- 
2.43.0


From d8777d382b1d8b41511cdd73095118716bc2e8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 08/91] fix: parse feature code that consists of empty lines
 only

---
 src/vfbLib/parsers/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/parsers/text.py b/src/vfbLib/parsers/text.py
index f5c809b..018367a 100644
--- a/src/vfbLib/parsers/text.py
+++ b/src/vfbLib/parsers/text.py
@@ -101,7 +101,7 @@ class OpenTypeStringParser(BaseParser):
 
         if len(lines) > 1:
             # Remove empty lines at the end, except one
-            while not lines[-1]:
+            while lines and not lines[-1]:
                 lines.pop()
         lines.append("")
         return lines
-- 
2.43.0


From 718c6b9df21cc50c0eb18cbb2d6c881a2c1db628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 09/91] fix: replace Mac name record codes outside of the byte
 range

---
 src/vfbLib/parsers/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/parsers/text.py b/src/vfbLib/parsers/text.py
index 018367a..a283ace 100644
--- a/src/vfbLib/parsers/text.py
+++ b/src/vfbLib/parsers/text.py
@@ -23,7 +23,7 @@ class NameRecordsParser(BaseParser):
                     if platID == 1 and encID == 0:
                         # TODO: Remove default arguments when Python < 3.11 is dropped
                         char = c.to_bytes(length=1, byteorder="big").decode("macroman")
-                except ValueError:
+                except (OverflowError, ValueError):
                     char = "\ufeff"
                 name += char
             result.append((nameID, platID, encID, langID, name))
-- 
2.43.0


From 1f738491b24b75a3b02c1355ced1cc7efdd0f203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 10/91] fix: write signed PCLT stroke weight and width type

---
 src/vfbLib/compilers/pclt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/pclt.py b/src/vfbLib/compilers/pclt.py
index bd037eb..a0e964f 100644
--- a/src/vfbLib/compilers/pclt.py
+++ b/src/vfbLib/compilers/pclt.py
@@ -22,6 +22,6 @@ class PcltCompiler(BaseCompiler):
         for value in data["character_complement"]:
             self.write_uint8(value)
         self.write_str(data["file_name"], 6)
-        self.write_uint8(data["stroke_weight"])
-        self.write_uint8(data["width_type"])
+        self.write_int8(data["stroke_weight"])
+        self.write_int8(data["width_type"])
         self.write_uint8(data["serif_style"])
-- 
2.43.0


From f94493494c9369678c968ee8d2d1c11d3aae9414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 11/91] fix: compile negative OpenType class flags

---
 src/vfbLib/compilers/base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vfbLib/compilers/base.py b/src/vfbLib/compilers/base.py
index 72c0fa9..a7b0c50 100644
--- a/src/vfbLib/compilers/base.py
+++ b/src/vfbLib/compilers/base.py
@@ -287,8 +287,8 @@ class OpenTypeKerningClassFlagsCompiler(BaseCompiler):
         for name, flags in data.items():
             self.write_str_with_len(name)
             flag1, flag2 = flags
-            self.write_value(flag1, signed=False)
-            self.write_value(flag2, signed=False)
+            self.write_value(flag1, signed=flag1 < 0)
+            self.write_value(flag2, signed=flag2 < 0)
 
 
 class OpenTypeMetricsClassFlagsCompiler(BaseCompiler):
@@ -297,6 +297,6 @@ class OpenTypeMetricsClassFlagsCompiler(BaseCompiler):
         for name, flags in data.items():
             self.write_str_with_len(name)
             flag1, flag2, flag3 = flags
-            self.write_value(flag1, signed=False)
-            self.write_value(flag2, signed=False)
-            self.write_value(flag3, signed=False)
+            self.write_value(flag1, signed=flag1 < 0)
+            self.write_value(flag2, signed=flag2 < 0)
+            self.write_value(flag3, signed=flag3 < 0)
-- 
2.43.0


From 6ce3aed0f7b1e8eefbad094375f3517b33bc9f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 12/91] fix: compile negative anchor properties

---
 src/vfbLib/compilers/glyph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/glyph.py b/src/vfbLib/compilers/glyph.py
index 3ce4376..aebe4e3 100644
--- a/src/vfbLib/compilers/glyph.py
+++ b/src/vfbLib/compilers/glyph.py
@@ -40,8 +40,9 @@ class GlyphAnchorsSuppCompiler(BaseCompiler):
     def _compile(self, data: "list[AnchorPropertiesDict]") -> None:
         self.write_value(len(data), signed=False)
         for anchor in data:
-            self.write_value(anchor.get("hue", 0), signed=False)
-            self.write_value(anchor.get("data", 0), signed=False)
+            for key in ("hue", "data"):
+                value = anchor.get(key, 0)
+                self.write_value(value, signed=value < 0)
 
 
 class GlyphGDEFCompiler(BaseCompiler):
-- 
2.43.0


From 3dec357ed285947961596bd1d1ac22757710b6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 13/91] fix: compile export option bits without a name

---
 src/vfbLib/compilers/options.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/options.py b/src/vfbLib/compilers/options.py
index 0f6c7cf..cfb3fea 100644
--- a/src/vfbLib/compilers/options.py
+++ b/src/vfbLib/compilers/options.py
@@ -9,9 +9,9 @@ if TYPE_CHECKING:
 
 
 class ExportOptionsCompiler(BaseCompiler):
-    def _compile(self, data: list[str]) -> None:
+    def _compile(self, data: list[str | int]) -> None:
         rev = {v: k for k, v in export_options.items()}
-        options = [rev[k] for k in data]
+        options = [k if isinstance(k, int) else rev[k] for k in data]
         self.write_uint16(intListToBinary(options))
 
 
-- 
2.43.0


From da3a15e7b6e2be31afcd583c5d0e8b9983c9d718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 14/91] fix: compile font options without a name

---
 src/vfbLib/compilers/options.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/options.py b/src/vfbLib/compilers/options.py
index cfb3fea..3f8f334 100644
--- a/src/vfbLib/compilers/options.py
+++ b/src/vfbLib/compilers/options.py
@@ -19,8 +19,8 @@ class FontOptionsCompiler(BaseCompiler):
     def _compile(self, data: "FontOptionsDict") -> None:
         rev = {v: k for k, v in font_options.items()}
         for k, v in data.items():
-            raw_key = rev.get(k)
-            assert raw_key is not None
+            # Keys without a name are represented by their number
+            raw_key = rev[k] if k in rev else int(k)
             match k:
                 case "auto_hinting_h_ratio" | "auto_hinting_v_ratio":
                     assert isinstance(v, float)
-- 
2.43.0


From 88fdeda35afec90cf1586d4cb0c13e76522c076c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 15/91] fix: compile mapping modes without a name

---
 src/vfbLib/compilers/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/compilers/base.py b/src/vfbLib/compilers/base.py
index a7b0c50..001a30b 100644
--- a/src/vfbLib/compilers/base.py
+++ b/src/vfbLib/compilers/base.py
@@ -271,7 +271,11 @@ class MappingModeCompiler(BaseCompiler):
     def _compile(self, data: "MappingModeDict") -> None:
         rev_map = {v: k for k, v in mapping_modes.items()}
         self.write_uint8(1)
-        self.write_value(rev_map[data["mapping_mode"]])
+        mapping_mode = data["mapping_mode"]
+        # Modes without a name are represented by their number
+        self.write_value(
+            rev_map[mapping_mode] if mapping_mode in rev_map else int(mapping_mode)
+        )
         self.write_uint8(2)
         self.write_value(data["m2"])
         self.write_uint8(3)
-- 
2.43.0


From e0e824420b7fed0ea53f882f57a52c57677ab824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:03 +0000
Subject: [PATCH 16/91] fix: keep unnamed TrueType option bits when compiling

---
 src/vfbLib/compilers/truetype.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vfbLib/compilers/truetype.py b/src/vfbLib/compilers/truetype.py
index d05b29c..bfd180e 100644
--- a/src/vfbLib/compilers/truetype.py
+++ b/src/vfbLib/compilers/truetype.py
@@ -26,6 +26,8 @@ def convert_flags_options_to_int(data: "TrueTypeInfoDict") -> int:
         for k, v in tt_settings.items():
             if v in options:
                 option_bits.append(k)
+        # Options without a name are represented by their bit number
+        option_bits.extend(int(o) for o in options if o.isdecimal())
 
         value += intListToBinary(option_bits) << 16
     return value
-- 
2.43.0


From d6dc27434df62cb646557c9e83a24fe7fb417f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:03 +0000
Subject: [PATCH 17/91] fix: handle TrueType option bit 15

---
 src/vfbLib/compilers/truetype.py | 2 +-
 src/vfbLib/parsers/truetype.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/truetype.py b/src/vfbLib/compilers/truetype.py
index bfd180e..5611fb2 100644
--- a/src/vfbLib/compilers/truetype.py
+++ b/src/vfbLib/compilers/truetype.py
@@ -57,7 +57,7 @@ class TrueTypeInfoCompiler(BaseCompiler):
         # Convert combined flags and options dict back to a single int
         head_flags_options = convert_flags_options_to_int(data)
         self.write_uint8(0x39)
-        self.write_value(head_flags_options)
+        self.write_value(head_flags_options, signed=False)
 
         for k in (
             0x3A,
diff --git a/src/vfbLib/parsers/truetype.py b/src/vfbLib/parsers/truetype.py
index 4d86367..e910688 100644
--- a/src/vfbLib/parsers/truetype.py
+++ b/src/vfbLib/parsers/truetype.py
@@ -22,7 +22,7 @@ logger = logging.getLogger(__name__)
 
 def convert_int_to_flags_options(value: int) -> "FlagsOptionsDict":
     flags = binaryToIntList(value & 0xFFFF)
-    options = binaryToIntList(value >> 16)
+    options = binaryToIntList(value >> 16 & 0xFFFF)
     return {
         "flags": flags,
         "options": [tt_settings.get(i, str(i)) for i in options],
-- 
2.43.0


From 6f049fded80cd28bf5640123618af8ec3bd15fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:57 +0000
Subject: [PATCH 18/91] fix: honour the --long option of yuri

---
 src/vfbLib/value.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/value.py b/src/vfbLib/value.py
index cfcb271..d70ec25 100644
--- a/src/vfbLib/value.py
+++ b/src/vfbLib/value.py
@@ -1,7 +1,7 @@
 from argparse import ArgumentParser
 from io import BytesIO
 
-from vfbLib.compilers.value import write_value
+from vfbLib.compilers.value import write_value, write_value_long
 from vfbLib.helpers import deHexStr, hexStr
 from vfbLib.parsers.value import read_value
 
@@ -45,8 +45,9 @@ def yuri():
     if args:
         if args.encode:
             stream = BytesIO()
+            write = write_value_long if args.long else write_value
             for value in args.hexstring:
-                write_value(int(value), stream, args.signed)
+                write(int(value), stream, args.signed)
             print(hexStr(stream.getvalue()))
         else:
             data = deHexStr("".join(args.hexstring))
-- 
2.43.0


From bfaaae0b67c772f42af8ec0e7dd67226c327b940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 19/91] fix: stop reading TrueType info at the end of the data

---
 src/vfbLib/parsers/truetype.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/parsers/truetype.py b/src/vfbLib/parsers/truetype.py
index e910688..bdec16f 100644
--- a/src/vfbLib/parsers/truetype.py
+++ b/src/vfbLib/parsers/truetype.py
@@ -3,7 +3,7 @@ from struct import unpack
 from typing import TYPE_CHECKING
 
 from vfbLib import tt_settings, ttinfo_names
-from vfbLib.helpers import binaryToIntList
+from vfbLib.helpers import binaryToIntList, int8_size
 from vfbLib.parsers.base import BaseParser
 from vfbLib.typing import (
     TrueTypeInfoDict,
@@ -61,7 +61,11 @@ class TrueTypeInfoParser(BaseParser):
         info: TrueTypeInfoDict = TrueTypeInfoDict()
 
         while True:
-            k = self.read_uint8()
+            if not (key := self.stream.read(int8_size)):
+                # The end marker is missing
+                raise EOFError
+
+            k = key[0]
             bk = ttinfo_names.get(k, f"bit{k}")  # dict key, as a bit number
             dk = ttinfo_names.get(k, str(k))  # dict key, human-readable
             hk = ttinfo_names.get(k, hex(k))  # dict key, hex
-- 
2.43.0


From f9687c6b2de7692810a563142f3190b43cf53cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 20/91] fix: check the number of hdmx values against the
 available data

---
 src/vfbLib/parsers/base.py     | 19 +++++++++++++++++++
 src/vfbLib/parsers/glyph.py    |  2 +-
 src/vfbLib/parsers/truetype.py |  4 ++--
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/parsers/base.py b/src/vfbLib/parsers/base.py
index 7586723..37c0233 100644
--- a/src/vfbLib/parsers/base.py
+++ b/src/vfbLib/parsers/base.py
@@ -138,6 +138,25 @@ class StreamReader:
             self.stream.read(int8_size), byteorder="little", signed=False
         )
 
+    def read_uint8_list(self, num: int) -> list[int]:
+        """
+        Return a list of `num` unsigned 8-bit integers from the stream.
+
+        Args:
+            num (int): The number of integers to read from the stream.
+
+        Raises:
+            EOFError: When there are not enough bytes left in the stream.
+
+        Returns:
+            list[int]: The list of integers
+        """
+        values = list(self.stream.read(max(0, num)))
+        if len(values) < num:
+            raise EOFError
+
+        return values
+
     def read_uint16(self) -> int:
         """
         Return an unsigned 16-bit integer from the stream.
diff --git a/src/vfbLib/parsers/glyph.py b/src/vfbLib/parsers/glyph.py
index 89d9c3d..ae431f6 100644
--- a/src/vfbLib/parsers/glyph.py
+++ b/src/vfbLib/parsers/glyph.py
@@ -289,7 +289,7 @@ class GlyphParser(BaseParser):
                 case 0x2C:
                     # HDMX data
                     num = self.read_value()
-                    imported["hdmx"] = [self.read_uint8() for _ in range(num)]
+                    imported["hdmx"] = self.read_uint8_list(num)
 
                 case _:
                     logger.error(imported)
diff --git a/src/vfbLib/parsers/truetype.py b/src/vfbLib/parsers/truetype.py
index bdec16f..3a77777 100644
--- a/src/vfbLib/parsers/truetype.py
+++ b/src/vfbLib/parsers/truetype.py
@@ -123,7 +123,7 @@ class TrueTypeInfoParser(BaseParser):
                     # HDMX ppms 1
                     self.assert_unique(info, dk)
                     num_values = self.read_value()
-                    info[dk] = [self.read_uint8() for _ in range(num_values)]
+                    info[dk] = self.read_uint8_list(num_values)
 
                 case 0x54:
                     # Codepages
@@ -153,7 +153,7 @@ class TrueTypeInfoParser(BaseParser):
                     # HDMX ppms 2
                     self.assert_unique(info, hk)
                     num_values = self.read_value()
-                    info[hk] = [self.read_uint8() for _ in range(num_values)]
+                    info[hk] = self.read_uint8_list(num_values)
 
                 case _:
                     logger.warning(f"Unknown key in TrueType info: {hex(k)}")
-- 
2.43.0


From 0c44c88eb1056ddd73280c07bf070ab209fb6ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 21/91] fix: check the bitmap data length against the available
 data

---
 src/vfbLib/parsers/bitmap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vfbLib/parsers/bitmap.py b/src/vfbLib/parsers/bitmap.py
index fa97f89..b12b251 100644
--- a/src/vfbLib/parsers/bitmap.py
+++ b/src/vfbLib/parsers/bitmap.py
@@ -11,6 +11,9 @@ class BaseBitmapParser(BaseParser):
         # Read the bitmap data from the stream.
         # The returned value is in the run-length encoded representation.
         chunks: list[list[int]] = []
+        if datalen > self.stream.getbuffer().nbytes - self.stream.tell():
+            raise EOFError
+
         bytes_remaining = datalen
         while bytes_remaining > 0:
             bytes_remaining -= 1
-- 
2.43.0


From 04326eb1d43649308cd97fdc7ba6de79a5c8fd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 22/91] fix: decompile bitmaps without any columns

---
 src/vfbLib/parsers/bitmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/parsers/bitmap.py b/src/vfbLib/parsers/bitmap.py
index b12b251..cd72a53 100644
--- a/src/vfbLib/parsers/bitmap.py
+++ b/src/vfbLib/parsers/bitmap.py
@@ -69,7 +69,7 @@ class BaseBitmapParser(BaseParser):
             data = [~b + 0x100 for b in data]
 
         # Split list into rows
-        bytes_per_row = ((w + 15) // 16) * 2
+        bytes_per_row = ((w + 15) // 16) * 2 or 1
         # fmt:off
         nice = [
             data[j : j + bytes_per_row]  # noqa: E203
-- 
2.43.0


From 4f9ac454d0c2a7fe1b4a739260a79e988e82543a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 23/91] fix: do not allocate guides before reading them

---
 src/vfbLib/parsers/guides.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/parsers/guides.py b/src/vfbLib/parsers/guides.py
index dadfb68..3c2f5d0 100644
--- a/src/vfbLib/parsers/guides.py
+++ b/src/vfbLib/parsers/guides.py
@@ -39,8 +39,8 @@ def parse_guides(stream: "BytesIO", num_masters: int, name: str) -> "MMGuidesDic
         if num_guides == 0:
             continue
 
-        guides[direction] = [[] for _ in range(num_guides)]
         for i in range(num_guides):
+            guides[direction].append([])
             for _ in range(num_masters):
                 try:
                     pos = read_value(stream)
-- 
2.43.0


From ee6c1833be4edd90184094958398559601730b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 24/91] fix: reject glyph outlines with an invalid number of
 masters

---
 src/vfbLib/parsers/glyph.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vfbLib/parsers/glyph.py b/src/vfbLib/parsers/glyph.py
index ae431f6..7ce2ea0 100644
--- a/src/vfbLib/parsers/glyph.py
+++ b/src/vfbLib/parsers/glyph.py
@@ -33,6 +33,9 @@ if TYPE_CHECKING:
 
 logger = logging.getLogger(__name__)
 
+# A VFB has up to 4 axes with 2 masters each
+MAX_MASTERS = 16
+
 
 class PathCommand(Enum):
     move = 0
@@ -378,6 +381,9 @@ class GlyphParser(BaseParser):
     def parse_outlines(self, target: GlyphData | MaskData) -> int:
         # Nodes
         num_masters = self.read_value(signed=False)
+        if not 0 <= num_masters <= MAX_MASTERS:
+            raise ValueError(f"Invalid number of masters: {num_masters}")
+
         target["num_masters"] = num_masters
 
         # 2 x the number of values to be read after num_nodes, the reason is unclear.
-- 
2.43.0


From bf38f987a56ced43e1dfbd4efcce6cacf63e9907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:16 +0000
Subject: [PATCH 25/91] fix: forget the previous file when reading into the
 same Vfb again

---
 src/vfbLib/vfb/vfb.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index 7166493..4142988 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -138,6 +138,15 @@ class Vfb:
         """
         self.header = VfbHeader()
         self.entries = []
+        self._glyphs = {}
+        self.glyph_order = []
+        self.info = VfbInfo(vfb=self)
+        self.num_masters = 0
+        self.ttStemsV_count = 0
+        self.ttStemsH_count = 0
+        self.writer_platform = "macos"
+        self.ps_hinting_options = None
+        self.any_errors = False
 
     def compile(self) -> None:
         """
-- 
2.43.0


From 29a789ce7b815750464c530cef7247fcf11e5675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 26/91] fix: compile entries of unknown type after decompiling

---
 src/vfbLib/vfb/entry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index 23fa862..757648e 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -3,7 +3,7 @@ from io import BytesIO
 from struct import pack
 from typing import TYPE_CHECKING
 
-from vfbLib.compilers.base import BaseCompiler
+from vfbLib.compilers.base import BaseCompiler, HexStringCompiler
 from vfbLib.constants import parser_classes
 from vfbLib.enum import F
 from vfbLib.helpers import hexStr, int16_size, int32_size
@@ -21,6 +21,7 @@ logger = logging.getLogger(__name__)
 
 
 FALLBACK_PARSER = BaseParser
+FALLBACK_COMPILER = HexStringCompiler
 
 
 class VfbEntry(StreamReader):
@@ -142,6 +143,7 @@ class VfbEntry(StreamReader):
                     f"Falling back to parser {FALLBACK_PARSER} for ID {self._id}"
                 )
                 self.parser = FALLBACK_PARSER
+                self.compiler = FALLBACK_COMPILER
             else:
                 self.key, self.parser, self.compiler = entry_info
                 if self.parser is not None:
-- 
2.43.0


From aa6b1f02f6c61769f4d4e934d1d2905639cb3099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:12 +0000
Subject: [PATCH 27/91] fix: keep an existing file if compiling fails while
 writing

---
 src/vfbLib/vfb/vfb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index 4142988..78c7d87 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -325,6 +325,8 @@ class Vfb:
         """
         Compile any entries with changes, and write the VFB to out_path.
         """
+        # Compile first, so that an existing file is kept if that fails
+        self.compile()
         with open(out_path, "wb") as vfb:
             self.write_bytes(vfb)
 
-- 
2.43.0


From eb1976eeb4a291cc3159f4c8a1d40859443761fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 28/91] fix: report truncated integers, strings and values

---
 src/vfbLib/parsers/base.py     | 33 ++++++++++++++++++++++++++-------
 src/vfbLib/parsers/glyph.py    |  2 +-
 src/vfbLib/parsers/truetype.py |  2 +-
 src/vfbLib/parsers/value.py    | 18 +++++++++++++++---
 4 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/src/vfbLib/parsers/base.py b/src/vfbLib/parsers/base.py
index 37c0233..31539d3 100644
--- a/src/vfbLib/parsers/base.py
+++ b/src/vfbLib/parsers/base.py
@@ -37,6 +37,25 @@ class StreamReader:
         self.encoding = "cp1252"
         self.stream: "BufferedIOBase" = BytesIO()
 
+    def read_bytes(self, size: int) -> bytes:
+        """
+        Return exactly `size` bytes from the stream.
+
+        Args:
+            size (int): The number of bytes to read from the stream.
+
+        Raises:
+            EOFError: When there are not enough bytes left in the stream.
+
+        Returns:
+            bytes: The bytes
+        """
+        data = self.stream.read(size)
+        if len(data) < size:
+            raise EOFError
+
+        return data
+
     def read_double(self) -> float:
         """
         Return a double-precision float from the stream.
@@ -66,7 +85,7 @@ class StreamReader:
             int: The integer
         """
         return int.from_bytes(
-            self.stream.read(int8_size), byteorder="little", signed=True
+            self.read_bytes(int8_size), byteorder="little", signed=True
         )
 
     def read_int16(self) -> int:
@@ -77,7 +96,7 @@ class StreamReader:
             int: The integer
         """
         return int.from_bytes(
-            self.stream.read(int16_size), byteorder="little", signed=True
+            self.read_bytes(int16_size), byteorder="little", signed=True
         )
 
     def read_int32(self) -> int:
@@ -88,7 +107,7 @@ class StreamReader:
             int: The integer
         """
         return int.from_bytes(
-            self.stream.read(int32_size), byteorder="little", signed=True
+            self.read_bytes(int32_size), byteorder="little", signed=True
         )
 
     def read_str(self, size: int) -> str:
@@ -104,7 +123,7 @@ class StreamReader:
         """
         if size == 0:
             return ""
-        return self.stream.read(size).decode(self.encoding)
+        return self.read_bytes(size).decode(self.encoding)
 
     def read_str_with_len(self) -> str:
         """
@@ -135,7 +154,7 @@ class StreamReader:
             int: The integer
         """
         return int.from_bytes(
-            self.stream.read(int8_size), byteorder="little", signed=False
+            self.read_bytes(int8_size), byteorder="little", signed=False
         )
 
     def read_uint8_list(self, num: int) -> list[int]:
@@ -165,7 +184,7 @@ class StreamReader:
             int: The integer
         """
         return int.from_bytes(
-            self.stream.read(int16_size), byteorder="little", signed=False
+            self.read_bytes(int16_size), byteorder="little", signed=False
         )
 
     def read_uint32(self) -> int:
@@ -176,7 +195,7 @@ class StreamReader:
             int: The integer
         """
         return int.from_bytes(
-            self.stream.read(int32_size), byteorder="little", signed=False
+            self.read_bytes(int32_size), byteorder="little", signed=False
         )
 
     def read_value(self, signed: bool = True) -> int:
diff --git a/src/vfbLib/parsers/glyph.py b/src/vfbLib/parsers/glyph.py
index 7ce2ea0..6c60a78 100644
--- a/src/vfbLib/parsers/glyph.py
+++ b/src/vfbLib/parsers/glyph.py
@@ -284,7 +284,7 @@ class GlyphParser(BaseParser):
                 case 0x2B:
                     # Instructions
                     num_bytes = self.read_value(signed=False)
-                    instructions = self.stream.read(num_bytes)
+                    instructions = self.read_bytes(num_bytes)
                     p = Program()
                     p.fromBytecode(instructions)
                     imported["instructions"] = p.getAssembly()
diff --git a/src/vfbLib/parsers/truetype.py b/src/vfbLib/parsers/truetype.py
index 3a77777..42fbdb1 100644
--- a/src/vfbLib/parsers/truetype.py
+++ b/src/vfbLib/parsers/truetype.py
@@ -169,7 +169,7 @@ class TrueTypeStemsParser(BaseParser):
             for _ in range(num_stems):
                 width = self.read_value()
                 stem_name_length = self.read_uint8()
-                stem_name = self.stream.read(stem_name_length).decode(self.encoding)
+                stem_name = self.read_str(stem_name_length)
                 ppm6 = self.read_value()
 
                 direction.append(
diff --git a/src/vfbLib/parsers/value.py b/src/vfbLib/parsers/value.py
index babc68e..bf85665 100644
--- a/src/vfbLib/parsers/value.py
+++ b/src/vfbLib/parsers/value.py
@@ -6,6 +6,17 @@ if TYPE_CHECKING:
     from io import BufferedIOBase
 
 
+def _read_bytes(stream: "BufferedIOBase", size: int) -> bytes:
+    """
+    Return the remaining bytes of a value, or raise an error if it is truncated.
+    """
+    data = stream.read(size)
+    if len(data) < size:
+        raise ValueError("Truncated value")
+
+    return data
+
+
 def read_value(stream: "BufferedIOBase", signed=True) -> int:
     """
     Read an encoded value from the stream, decode it to integer and return it.
@@ -22,6 +33,7 @@ def read_value(stream: "BufferedIOBase", signed=True) -> int:
     Raises:
         EOFError: When a 0 byte is encountered while reading the stream.
         ValueError: When the byte that was read from the stream is < 0x20.
+        ValueError: When the stream ends before the value is complete.
         ValueError: When the byte that was read from the stream has any other undefined
             value.
 
@@ -41,13 +53,13 @@ def read_value(stream: "BufferedIOBase", signed=True) -> int:
 
     elif val <= 0xFA:
         # 108 to 1131, represented by 2 bytes
-        val2 = int.from_bytes(stream.read(int8_size), byteorder="little")
+        val2 = int.from_bytes(_read_bytes(stream, int8_size), byteorder="little")
         # val - 0x8B + (val - 0xF7) * 0xFF + val2
         return 0x100 * val - 0xF694 + val2
 
     elif val <= 0xFE:
         # -108 to -1131, represented by 2 bytes
-        val2 = int.from_bytes(stream.read(int8_size), byteorder="little")
+        val2 = int.from_bytes(_read_bytes(stream, int8_size), byteorder="little")
         # 0x8F - val - (val - 0xFB) * 0xFF - val2
         return -0x100 * val + 0xFA94 - val2
 
@@ -55,7 +67,7 @@ def read_value(stream: "BufferedIOBase", signed=True) -> int:
         # 32 bit integer follows
         # FIXME: The Type1 spec says that it is always a signed int.
         decoded = int.from_bytes(
-            stream.read(int32_size), byteorder="big", signed=signed
+            _read_bytes(stream, int32_size), byteorder="big", signed=signed
         )
         return decoded
 
-- 
2.43.0


From 45c1e7fa0ee1969635aaacee5007e88c25859cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:26 +0000
Subject: [PATCH 29/91] fix: reject anchors, hints and guides without masters

---
 src/vfbLib/parsers/glyph.py  | 6 ++++++
 src/vfbLib/parsers/guides.py | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/vfbLib/parsers/glyph.py b/src/vfbLib/parsers/glyph.py
index 6c60a78..77d0893 100644
--- a/src/vfbLib/parsers/glyph.py
+++ b/src/vfbLib/parsers/glyph.py
@@ -68,6 +68,9 @@ class GlyphAnchorsParser(BaseParser):
         anchors = []
         num_anchors = self.read_value()
         num_masters = self.read_value()
+        if num_anchors > 0 and num_masters < 1:
+            raise ValueError("Anchors without masters")
+
         for _ in range(num_anchors):
             anchor = MMAnchorDict(x=[], y=[])
             for _ in range(num_masters):
@@ -324,6 +327,9 @@ class GlyphParser(BaseParser):
         hints = MMHintsDict(v=[], h=[])
         for direction in DIRECTIONS:
             num_hints = self.read_value()
+            if num_hints > 0 and self.num_masters < 1:
+                raise ValueError("Hints without masters")
+
             for _ in range(num_hints):
                 master_hints = []
                 for _ in range(self.num_masters):
diff --git a/src/vfbLib/parsers/guides.py b/src/vfbLib/parsers/guides.py
index 3c2f5d0..1aafc05 100644
--- a/src/vfbLib/parsers/guides.py
+++ b/src/vfbLib/parsers/guides.py
@@ -39,6 +39,9 @@ def parse_guides(stream: "BytesIO", num_masters: int, name: str) -> "MMGuidesDic
         if num_guides == 0:
             continue
 
+        if num_guides > 0 and num_masters < 1:
+            raise ValueError(f"Guidelines without masters ({name})")
+
         for i in range(num_guides):
             guides[direction].append([])
             for _ in range(num_masters):
-- 
2.43.0


From 9d687f335ee2bbe2896928293a2fbee99770bb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 30/91] fix: report the name of a glyph before it was drawn

---
 src/vfbLib/vfb/glyph.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index c643dc7..3537f72 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -1,5 +1,4 @@
 import logging
-from functools import cached_property
 from typing import TYPE_CHECKING
 
 from fontTools.pens.pointPen import AbstractPointPen, SegmentToPointPen
@@ -51,12 +50,12 @@ class VfbGlyph:
         node_types = [node["type"] for node in self.entry.data["nodes"]]
         return node_types.count("move")
 
-    @cached_property
+    @property
     def name(self) -> str | None:
-        if self._glyph is None:
+        if not isinstance(self.entry.data, dict):
             return None
 
-        return self._glyph.name
+        return self.entry.data.get("name")
 
     def clearContours(self):
         try:
@@ -379,12 +378,12 @@ class VfbGlyphMaster:
         node_types = [node["type"] for node in self.entry.data["nodes"]]
         return node_types.count("move")
 
-    @cached_property
+    @property
     def name(self) -> str | None:
-        if self._glyph is None:
+        if not isinstance(self.entry.data, dict):
             return None
 
-        return self._glyph.name
+        return self.entry.data.get("name")
 
     def _copy_to_ufo_glyph(self, master_index):
         """
-- 
2.43.0


From 37f6421d5b13d41b689e2fe54242802ae7f11669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:19 +0000
Subject: [PATCH 31/91] fix: make the glyph order available before the first
 glyph access

---
 src/vfbLib/vfb/vfb.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index 78c7d87..82778f9 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -89,7 +89,7 @@ class Vfb:
 
         # We need some minimal API to make pen access work ...
         self._glyphs: dict[str, VfbGlyph] = {}
-        self.glyph_order: list[str] = []
+        self._glyph_order: list[str] = []
 
         # cu2qu accesses the info and lib ...
         self.info = VfbInfo(vfb=self)
@@ -139,7 +139,7 @@ class Vfb:
         self.header = VfbHeader()
         self.entries = []
         self._glyphs = {}
-        self.glyph_order = []
+        self._glyph_order = []
         self.info = VfbInfo(vfb=self)
         self.num_masters = 0
         self.ttStemsV_count = 0
@@ -156,6 +156,16 @@ class Vfb:
         for e in self.entries:
             e.compile()
 
+    @property
+    def glyph_order(self) -> list[str]:
+        if not self._glyphs and not self._glyph_order:
+            self._decompile_glyphs()
+        return self._glyph_order
+
+    @glyph_order.setter
+    def glyph_order(self, value: list[str]) -> None:
+        self._glyph_order = value
+
     def _decompile_glyphs(self) -> None:
         name = None
         for entry in self.entries:
@@ -171,7 +181,7 @@ class Vfb:
                             i += 1
                         name = f"{name}#{i}"
                     self._glyphs[name] = glyph
-                    self.glyph_order.append(name)
+                    self._glyph_order.append(name)
                 case G.Links:
                     # We need to store the links of the glyph for converting links to
                     # PS hints before writing charstrings
-- 
2.43.0


From 9318358c009715c77c9678957aa3b08cdee1344c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:44 +0000
Subject: [PATCH 32/91] fix: don't present an incomplete set of glyphs if one
 is damaged

---
 src/vfbLib/vfb/vfb.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index 82778f9..2a8ab93 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -168,6 +168,8 @@ class Vfb:
 
     def _decompile_glyphs(self) -> None:
         name = None
+        # Don't keep an incomplete collection if a glyph can't be decompiled
+        glyphs: dict[str, VfbGlyph] = {}
         for entry in self.entries:
             match entry.id:
                 case G.Glyph:
@@ -175,13 +177,12 @@ class Vfb:
                     name = glyph.decompile()
                     i = 1
                     # Disambiguate duplicate names
-                    if name in self._glyphs:
+                    if name in glyphs:
                         logger.error(f"VFB contains duplicate glyph name: {name}")
-                        while f"{name}#{i}" in self._glyphs:
+                        while f"{name}#{i}" in glyphs:
                             i += 1
                         name = f"{name}#{i}"
-                    self._glyphs[name] = glyph
-                    self._glyph_order.append(name)
+                    glyphs[name] = glyph
                 case G.Links:
                     # We need to store the links of the glyph for converting links to
                     # PS hints before writing charstrings
@@ -189,7 +190,7 @@ class Vfb:
                     if name is None:
                         logger.error("Links entry without preceding glyph entry")
                     else:
-                        self._glyphs[name].links_entry = entry
+                        glyphs[name].links_entry = entry
                 case G.HintingOptions:
                     # We need this to decide if we should generate hstem3/vstem3 hints
                     entry.decompile()
@@ -198,12 +199,15 @@ class Vfb:
                             "Glyph Hinting Options entry without preceding glyph entry"
                         )
                     else:
-                        self._glyphs[name].ps_hinting_options = entry
+                        glyphs[name].ps_hinting_options = entry
                 case F.PostScriptHintingOptions:
                     # We need this to decide if we should generate flex hints
                     entry.decompile()
                     self.ps_hinting_options = entry
 
+        self._glyphs = glyphs
+        self._glyph_order = list(glyphs)
+
     def __contains__(self, key: str) -> bool:
         if not self._glyphs:
             self._decompile_glyphs()
-- 
2.43.0


From d8e342d41b995ff3991bb6893982c83e9782e428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:50 +0000
Subject: [PATCH 33/91] fix: close paths that end with quadratic off-curve
 points when drawing

---
 src/vfbLib/vfb/glyph.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index 3537f72..e27caea 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -209,6 +209,7 @@ class VfbGlyph:
         in_path = False
         in_qcurve = False
         qcurve = []
+        start_pt = (0, 0)
 
         for n in glyph.get("nodes", []):
             node_type = n.get("type")
@@ -216,7 +217,8 @@ class VfbGlyph:
             pt = n["points"][self.master_index][0]
             if node_type == "move":
                 if in_qcurve:
-                    qcurve.append(pt)
+                    # The curve ends at the first point of the path
+                    qcurve.append(start_pt)
                     pen.qCurveTo(*qcurve)
                 if in_path:
                     if path_is_open:
@@ -227,6 +229,7 @@ class VfbGlyph:
                 in_qcurve = False
                 qcurve = []
                 pen.moveTo(pt)
+                start_pt = pt
                 in_path = True
                 path_is_open = bool(flags & 8)
 
@@ -248,6 +251,9 @@ class VfbGlyph:
                 qcurve.append(pt)
             else:
                 raise ValueError(f"Unknown node type: '{node_type}'")
+        if in_qcurve:
+            qcurve.append(start_pt)
+            pen.qCurveTo(*qcurve)
         if in_path:
             if path_is_open:
                 pen.endPath()
-- 
2.43.0


From effbc830e225087bf061f78f39a3dd88f9dd0f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:10 +0000
Subject: [PATCH 34/91] fix: draw closed paths as closed onto point pens
 directly

---
 src/vfbLib/vfb/glyph.py | 53 ++---------------------------------------
 1 file changed, 2 insertions(+), 51 deletions(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index e27caea..d0ae467 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -289,59 +289,10 @@ class VfbGlyph:
 
     def drawPointsDirect(self, pen: AbstractPointPen) -> None:
         """
-        Draw the VFB glyph onto a segment pen. Uses the object's `master_index` property
+        Draw the VFB glyph onto a point pen. Uses the object's `master_index` property
         to determine which master is drawn.
         """
-        if self.entry.data is None:
-            raise ValueError
-
-        glyph = self.entry.data
-
-        in_path = False
-        in_qcurve = False
-
-        for n in glyph.get("nodes", []):
-            node_type = n.get("type")
-            if node_type == "move":
-                if in_qcurve:
-                    pen.addPoint(n["points"][self.master_index][0], "qcurve")
-                    in_qcurve = False
-                if in_path:
-                    pen.endPath()
-                pen.beginPath()
-                in_path = True
-                pen.addPoint(n["points"][self.master_index][0], "move")
-            elif node_type == "line":
-                if in_qcurve:
-                    pen.addPoint(n["points"][self.master_index][0], "qcurve")
-                    in_qcurve = False
-                else:
-                    pen.addPoint(n["points"][self.master_index][0], "line")
-            elif node_type == "curve":
-                pt3, pt1, pt2 = n["points"][self.master_index]
-                pen.addPoint(pt1, None)
-                pen.addPoint(pt2, None)
-                pen.addPoint(pt3, "curve")
-            elif node_type == "qcurve":
-                if not in_qcurve:
-                    in_qcurve = True
-                pen.addPoint(n["points"][self.master_index][0], None)
-            else:
-                raise ValueError(f"Unknown node type: '{node_type}'")
-        if in_path:
-            pen.endPath()
-
-        for c in glyph.get("components", []):
-            baseGlyphName = self._parent.glyph_order[c["gid"]]
-            transformation = (
-                c["scaleX"][self.master_index],
-                0,
-                0,
-                c["scaleY"][self.master_index],
-                c["offsetX"][self.master_index],
-                c["offsetY"][self.master_index],
-            )
-            pen.addComponent(baseGlyphName, transformation)
+        self.draw(SegmentToPointPen(pen, guessSmooth=False))
 
     def getPen(self) -> "AbstractPen":
         """
-- 
2.43.0


From ff57f1f8914880b45f5701a1275ae8af4e500d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:15 +0000
Subject: [PATCH 35/91] fix: draw the current outlines instead of those drawn
 first

---
 src/vfbLib/vfb/glyph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index d0ae467..ceda10e 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -279,8 +279,8 @@ class VfbGlyph:
         if self.entry.data is None:
             raise ValueError
 
-        if self._glyph is None:
-            self._copy_to_ufo_glyph()
+        # The outlines may have changed since they were drawn last
+        self._copy_to_ufo_glyph()
 
         if self._glyph is None:
             raise ValueError
@@ -395,8 +395,8 @@ class VfbGlyphMaster:
         if self.entry.data is None:
             raise ValueError
 
-        if self._glyph is None:
-            self._copy_to_ufo_glyph(self.master_index)
+        # The outlines may have changed since they were drawn last
+        self._copy_to_ufo_glyph(self.master_index)
 
         if self._glyph is None:
             raise ValueError
-- 
2.43.0


From c31b8d3af405a65de6fcc9daddf5ac10de9e5d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:20 +0000
Subject: [PATCH 36/91] fix: draw the selected master of the glyph onto point
 pens

---
 src/vfbLib/vfb/glyph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index ceda10e..1d58c8f 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -106,7 +106,7 @@ class VfbGlyph:
         self._glyph = UfoMasterGlyph(
             mm_glyph=_mm_glyph,
             glyph_order=self._parent.glyph_order,
-            master_index=self._parent.master_index,
+            master_index=self.master_index,
         )
         self._glyph.build()
 
-- 
2.43.0


From 080d74e6f930988af67515807ef1e9e037ffb6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:26 +0000
Subject: [PATCH 37/91] fix: allow drawing into other masters without clearing
 the contours

---
 src/vfbLib/vfb/pens.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/pens.py b/src/vfbLib/vfb/pens.py
index b49f17a..dd17bb7 100644
--- a/src/vfbLib/vfb/pens.py
+++ b/src/vfbLib/vfb/pens.py
@@ -27,7 +27,9 @@ class VfbGlyphPointPen(AbstractPointPen):
             self.target = self.glyph.entry.data
         else:
             if self.glyph.entry.temp_masters is None:
-                self.glyph.entry.temp_masters = [[] * self.glyphSet.num_masters]
+                self.glyph.entry.temp_masters = [
+                    {} for _ in range(self.glyphSet.num_masters)
+                ]
             self.target = self.glyph.entry.temp_masters[self.glyph.master_index]
 
     def beginPath(
-- 
2.43.0


From a0cd82863f3b9a6f1f462c82526441d6d647e1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 38/91] fix: merge the data drawn into other masters only once

---
 src/vfbLib/vfb/entry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index 757648e..737ba92 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -251,6 +251,8 @@ class VfbEntry(StreamReader):
             return
 
         self.compiler.merge(self.temp_masters, self.data)
+        # Don't merge the same data again after later changes
+        self.temp_masters = None
 
     def read(self, stream: "BufferedIOBase") -> None:
         """
-- 
2.43.0


From 30a39ae77aeec5a9d139d73e8f889ec284959a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:52 +0000
Subject: [PATCH 39/91] fix: merge contours and components drawn into a glyph
 that has some already

---
 src/vfbLib/compilers/glyph.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/vfbLib/compilers/glyph.py b/src/vfbLib/compilers/glyph.py
index aebe4e3..f31052b 100644
--- a/src/vfbLib/compilers/glyph.py
+++ b/src/vfbLib/compilers/glyph.py
@@ -87,16 +87,21 @@ class GlyphCompiler(BaseCompiler):
             # See if there is any data to merge
             if "nodes" in master_data:
                 assert "nodes" in data
-                for i, tgt in enumerate(data["nodes"]):
-                    src = master_data["nodes"][i]
+                # What was drawn into a glyph is appended to its existing contours
+                start = len(data["nodes"]) - len(master_data["nodes"])
+                assert start >= 0
+                for tgt, src in zip(data["nodes"][start:], master_data["nodes"]):
                     for key in ("type", "flags"):
                         assert src[key] == tgt[key]
                     tgt["points"][m] = src["points"][m]
 
             if "components" in master_data:
                 assert "components" in data
-                for i, tgt in enumerate(data["components"]):
-                    src = master_data["components"][i]
+                start = len(data["components"]) - len(master_data["components"])
+                assert start >= 0
+                for tgt, src in zip(
+                    data["components"][start:], master_data["components"]
+                ):
                     for key in ("gid",):
                         assert src[key] == tgt[key]
                     tgt["offsetX"][m] = src["offsetX"][m]
-- 
2.43.0


From 3bc83e6e6ea04b628f22be1ac01425882ebdc9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:57 +0000
Subject: [PATCH 40/91] fix: round the offsets of components drawn into a glyph

---
 src/vfbLib/vfb/pens.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/vfb/pens.py b/src/vfbLib/vfb/pens.py
index dd17bb7..0b8f0a4 100644
--- a/src/vfbLib/vfb/pens.py
+++ b/src/vfbLib/vfb/pens.py
@@ -122,8 +122,8 @@ class VfbGlyphPointPen(AbstractPointPen):
         self.target["components"].append(
             {
                 "gid": base_index,
-                "offsetX": [dx] * self.glyphSet.num_masters,
-                "offsetY": [dy] * self.glyphSet.num_masters,
+                "offsetX": [round(dx)] * self.glyphSet.num_masters,
+                "offsetY": [round(dy)] * self.glyphSet.num_masters,
                 "scaleX": [xx] * self.glyphSet.num_masters,
                 "scaleY": [yy] * self.glyphSet.num_masters,
             }
-- 
2.43.0


From 73bf822b611e438ab95d55539c654cad09e9e5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:15 +0000
Subject: [PATCH 41/91] fix: start paths drawn into a glyph with an on-curve
 point

---
 src/vfbLib/vfb/pens.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/vfbLib/vfb/pens.py b/src/vfbLib/vfb/pens.py
index 0b8f0a4..4536595 100644
--- a/src/vfbLib/vfb/pens.py
+++ b/src/vfbLib/vfb/pens.py
@@ -22,6 +22,8 @@ class VfbGlyphPointPen(AbstractPointPen):
         self.glyph = glyph
         self.glyphSet = glyphSet
         self.currentPath = None
+        # Off-curve points before the first on-curve point
+        self.leadingOffCurves: list[tuple[float, float]] = []
         self.in_qcurve = False
         if self.glyph.master_index == 0:
             self.target = self.glyph.entry.data
@@ -36,6 +38,7 @@ class VfbGlyphPointPen(AbstractPointPen):
         self, identifier: str | None = None, **kwargs: dict[str, Any]
     ) -> None:
         self.currentPath = []
+        self.leadingOffCurves = []
 
     def endPath(self) -> None:
         if not isinstance(self.target, dict):
@@ -47,6 +50,17 @@ class VfbGlyphPointPen(AbstractPointPen):
         if self.currentPath is None:
             raise TypeError
 
+        if self.leadingOffCurves:
+            # VFB paths start with an on-curve point
+            off_curves = self.leadingOffCurves
+            self.leadingOffCurves = []
+            if not self.currentPath:
+                # There are only off-curve points, start at an implied on-curve point
+                (x0, y0), (x1, y1) = off_curves[-1], off_curves[0]
+                self.addPoint(((x0 + x1) / 2, (y0 + y1) / 2), "qcurve")
+            for pt in off_curves:
+                self.addPoint(pt, None)
+
         self.target["nodes"].extend(self.currentPath)
         self.currentPath = None
 
@@ -61,6 +75,10 @@ class VfbGlyphPointPen(AbstractPointPen):
     ) -> None:
         assert self.currentPath is not None
 
+        if segmentType is None and not self.currentPath:
+            self.leadingOffCurves.append(pt)
+            return
+
         flags = 0
         x, y = pt
         node = {
-- 
2.43.0


From 649dea8ac94547b23ae4a5c819a27e59b10ad122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:30 +0000
Subject: [PATCH 42/91] fix: reject cubic curves that end at the first point of
 a path

---
 src/vfbLib/vfb/pens.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vfbLib/vfb/pens.py b/src/vfbLib/vfb/pens.py
index 4536595..c533099 100644
--- a/src/vfbLib/vfb/pens.py
+++ b/src/vfbLib/vfb/pens.py
@@ -95,6 +95,11 @@ class VfbGlyphPointPen(AbstractPointPen):
         if not self.currentPath:
             # Begin a new path
 
+            if segmentType == "curve":
+                # The last segment would become a quadratic curve
+                print(f"Unsupported segment type: {segmentType}")
+                raise ValueError
+
             if segmentType == "move":  # Open path
                 flags += 8
 
-- 
2.43.0


From b1c85913bf4a504e4c2c0c98185107052dffbc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:57 +0000
Subject: [PATCH 43/91] fix: find glyphs by name after the file was written or
 an entry was added

---
 src/vfbLib/vfb/vfb.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index 2a8ab93..0524fd0 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -119,6 +119,7 @@ class Vfb:
         """
         entry.vfb = self
         self.entries.append(entry)
+        self._forget_glyphs()
 
     def as_dict(self) -> "VfbDict":
         """
@@ -152,10 +153,18 @@ class Vfb:
         """
         Compile the header and all entries in the VFB.
         """
+        self._forget_glyphs()
         self.header.compile()
         for e in self.entries:
             e.compile()
 
+    def _forget_glyphs(self) -> None:
+        """
+        Collect (and decompile) the glyphs again on the next access.
+        """
+        self._glyphs = {}
+        self._glyph_order = []
+
     @property
     def glyph_order(self) -> list[str]:
         if not self._glyphs and not self._glyph_order:
-- 
2.43.0


From 27a94ba3ed0a62a376b7bf186e88925d3b33790d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:16 +0000
Subject: [PATCH 44/91] fix: export glyph notes

---
 src/vfbLib/ufo/builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index ed8bd27..0c638c9 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -782,6 +782,7 @@ class VfbToUfoBuilder:
             ufo_glyph.guidelines = master_glyph.guidelines
             ufo_glyph.height = master_glyph.height
             ufo_glyph.lib = master_glyph.lib
+            ufo_glyph.note = mm_glyph.note
             ufo_glyph.width = master_glyph.width
             ufo_glyph.unicodes = master_glyph.unicodes
 
-- 
2.43.0


From 32df41e2a375f0b3ca04da00f12a02f395cab5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:16 +0000
Subject: [PATCH 45/91] fix: compute the number of masters from the number of
 axes

---
 src/vfbLib/ufo/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 0c638c9..eff0387 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -684,7 +684,7 @@ class VfbToUfoBuilder:
         if self.axis_count == 0:
             masters_count = 1
         else:
-            masters_count = self.axis_count**2
+            masters_count = 2**self.axis_count
         if len(self.masters) < masters_count:
             additional = [f"m{n}" for n in range(len(self.masters), masters_count)]
             self.masters.extend(additional)
-- 
2.43.0


From 1bb7053358e577c9b96fdc5f53677d7f26c98f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:16 +0000
Subject: [PATCH 46/91] fix: write a designspace for axes without mappings

---
 src/vfbLib/ufo/builder.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index eff0387..97e17cc 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -582,7 +582,14 @@ class VfbToUfoBuilder:
                         "Serif": "SERF",
                     }
                     self.axes.append(
-                        AxisDescriptor(tag=tags.get(data, data.upper()[:4]), name=data)
+                        AxisDescriptor(
+                            tag=tags.get(data, data.upper()[:4]),
+                            name=data,
+                            # Used as is if there are no mappings for the axis
+                            minimum=0,
+                            default=0,
+                            maximum=1000,
+                        )
                     )
                 case F.AxisMappingsCount:
                     self.axis_mappings_count: list[int] = data
-- 
2.43.0


From 2274a4631d1cbe856d54266c18364963684c707c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:41 +0000
Subject: [PATCH 47/91] fix: keep all glyphs with the same name and rename them
 consistently

---
 src/vfbLib/ufo/builder.py | 39 ++++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 97e17cc..156632f 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -178,7 +178,9 @@ class VfbToUfoBuilder:
     def build_mm_glyph(self, data: dict[str, Any]) -> None:
         g = self.current_glyph = VfbToUfoGlyph(self)
         g.lib = {}
-        g.name = data["name"]
+        g.name = self.get_unique_glyph_name(data["name"])
+        self.glyph_masters[g.name] = g
+        self.glyphOrder.append(g.name)
         g.unicodes = []
 
         # MM Stuff, need to extract later
@@ -211,6 +213,19 @@ class VfbToUfoBuilder:
             if "instructions" in imported:
                 g.set_instructions(imported["instructions"])
 
+    def get_unique_glyph_name(self, name: str) -> str:
+        """
+        Return the name, or the name with a number appended if it is already taken.
+        """
+        if name not in self.glyph_masters:
+            return name
+
+        i = 0
+        while (n := f"{name}#{i}") in self.glyph_masters:
+            i += 1
+        logger.warning(f"Duplicate glyph, renamed from {name} to {n}.")
+        return n
+
     def set_feature_code(self, data: list[str]) -> None:
         # Make the kern feature compilable
         self.features_code = "\n".join(rename_kern_classes_in_feature_code(data))
@@ -449,24 +464,6 @@ class VfbToUfoBuilder:
 
             match key:
                 case G.Glyph:
-                    if self.current_glyph is not None:
-                        name = self.current_glyph.name
-                        if name in self.glyph_masters:
-                            for i in range(255):
-                                n = f"{name}#{i}"
-                                if n not in self.glyph_masters:
-                                    self.glyph_masters[n] = self.current_glyph
-                                    self.glyphOrder.append(n)
-                                    logger.warning(
-                                        f"Duplicate glyph, renamed from {name} to {n}."
-                                    )
-                                    break
-                        else:
-                            if name is None:
-                                logger.error("Glyph without name.")
-                            else:
-                                self.glyph_masters[name] = self.current_glyph
-                                self.glyphOrder.append(name)
                     self.build_mm_glyph(data)
                 case G.VSB:
                     assert self.current_glyph is not None
@@ -666,10 +663,6 @@ class VfbToUfoBuilder:
                             pass
                     logger.info(f"Unhandled entry: {k}")
 
-        if self.current_glyph is not None:
-            assert self.current_glyph.name is not None
-            self.glyph_masters[self.current_glyph.name] = self.current_glyph
-            self.glyphOrder.append(self.current_glyph.name)
         self.lib["public.glyphOrder"] = self.glyphOrder
         self.build_tt_glyph_lib()
         self.assure_tt_lib()
-- 
2.43.0


From 6c48b1199f39aaea7a688bbe5e7ad95e72c2e054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:55 +0000
Subject: [PATCH 48/91] fix: keep the kerning groups when they are added to the
 features

---
 src/vfbLib/ufo/builder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 156632f..2e24e5a 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -859,7 +859,9 @@ class VfbToUfoBuilder:
                 continue
 
             self.ufo_features.text += f"@{name} = [{' '.join(glyphs)}];\n"
-            move_groups.add(name)
+            if not name.startswith("public.kern"):
+                # The kerning refers to the kerning groups, so they must be kept
+                move_groups.add(name)
 
         if self.move_groups_to_fea:
             # Remove groups that were added to the feature code from the groups dict
-- 
2.43.0


From df88e4df2f097031f0d5abe6187f8d4e8c486276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:55 +0000
Subject: [PATCH 49/91] fix: omit groups that become empty because all glyphs
 are missing

---
 src/vfbLib/ufo/groups.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/groups.py b/src/vfbLib/ufo/groups.py
index 0edee62..58ff812 100644
--- a/src/vfbLib/ufo/groups.py
+++ b/src/vfbLib/ufo/groups.py
@@ -33,7 +33,7 @@ def check_for_missing_glyphs(
             remaining_glyphs = list(set(glyphs) - set(missing))
             if not remaining_glyphs:
                 logger.warning(f"Not adding empty group '{group_name}' to the UFO.")
-                return glyphs, missing
+                return [], missing
             glyphs = [g for g in glyphs if g not in missing]
     return glyphs, missing
 
@@ -100,6 +100,9 @@ def transform_groups(
             name, glyphs, glyphOrder, skip_missing_group_glyphs
         )
         num_missing = len(missing)
+        if num_glyphs and not glyphs:
+            # All glyphs are missing and were removed
+            continue
 
         key_glyph = None
         for key_glyph_candidate in group_key_glyphs:
-- 
2.43.0


From cd504a222563bf4f643f79efc9886b532736a65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:55 +0000
Subject: [PATCH 50/91] fix: don't fail on class definitions with more than one
 colon

---
 src/vfbLib/ufo/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 2e24e5a..602b335 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -153,7 +153,7 @@ class VfbToUfoBuilder:
             logger.warning(f"Malformed OT class definition, skipping: {data}")
             return
 
-        name, contents = data.split(":")
+        name, contents = data.split(":", 1)
 
         glyphs: list[str] = []
         for glyph in contents.split(" "):
-- 
2.43.0


From 12666a36525163d3ec145637c9a5b7a7a400ba85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:42 +0000
Subject: [PATCH 51/91] fix: don't loop endlessly on negative values in
 binaryToIntList

---
 src/vfbLib/helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vfbLib/helpers.py b/src/vfbLib/helpers.py
index cc4f364..51ef096 100644
--- a/src/vfbLib/helpers.py
+++ b/src/vfbLib/helpers.py
@@ -13,6 +13,9 @@ double_size = 8
 def binaryToIntList(value: int, start: int = 0) -> list[int]:
     intList = []
     counter = start
+    if value < 0:
+        # Shifting a negative number would never reach 0, use its 32 bit representation
+        value &= 0xFFFFFFFF
     while value:
         if value & 1:
             intList.append(counter)
-- 
2.43.0


From 8fe1c5560103597caa1406ace37716c184178925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:42 +0000
Subject: [PATCH 52/91] fix: don't export incomplete alignment zones to the
 font info

---
 src/vfbLib/ufo/builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 602b335..6db3bbc 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -730,6 +730,9 @@ class VfbToUfoBuilder:
             ):
                 # Get the number of values from the corresponding attribute
                 num_values = getattr(self, f"num_{key}")
+                if "blue" in key:
+                    # Alignment zones must be complete, i.e. pairs of values
+                    num_values -= num_values % 2
                 if num_values == 0:
                     continue
 
-- 
2.43.0


From e8b3d048757de44ca9e059730bd1cd7dfd2a314b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:42 +0000
Subject: [PATCH 53/91] fix: export PANOSE values above 127

---
 src/vfbLib/ufo/builder.py | 2 ++
 src/vfbLib/ufo/info.py    | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 6db3bbc..0ce8dc2 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -528,6 +528,8 @@ class VfbToUfoBuilder:
                     self.info.postscriptWeightName = data
                 case F.pref_style_name:
                     self.info.set_style_name(data)
+                case F.panose:
+                    self.info.set_panose(data)
                 case F.fontnames:
                     self.info.set_name_records(data)
                 case F.PrimaryInstances:
diff --git a/src/vfbLib/ufo/info.py b/src/vfbLib/ufo/info.py
index 1dbfd99..9f8fa2c 100644
--- a/src/vfbLib/ufo/info.py
+++ b/src/vfbLib/ufo/info.py
@@ -164,7 +164,7 @@ class VfbToUfoInfo(Info):
             F.LicenseURL: "openTypeNameLicenseURL",
             F.fond_id: "macintoshFONDFamilyID",
             F.apple_name: "macintoshFONDName",
-            F.panose: "openTypeOS2Panose",
+            # F.panose: "openTypeOS2Panose",  # below
             F.SampleText: "openTypeNameSampleText",
             F.vendor: "openTypeOS2VendorID",
             F.tt_u_id: "openTypeNameUniqueID",
@@ -253,6 +253,10 @@ class VfbToUfoInfo(Info):
             )
         self.openTypeNameRecords = name_records
 
+    def set_panose(self, data: list[int]) -> None:
+        # The values are stored as signed bytes
+        self.openTypeOS2Panose = [v & 0xFF for v in data]
+
     def set_selection(self, data: int) -> None:
         # Bit 0 = Italic
         # Bit 5 = Bold
-- 
2.43.0


From 9c9a69de40a26564092240c9b697bae889ca2e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:42 +0000
Subject: [PATCH 54/91] fix: only export font style bits that are valid in a
 UFO

---
 src/vfbLib/ufo/info.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/ufo/info.py b/src/vfbLib/ufo/info.py
index 9f8fa2c..52c316b 100644
--- a/src/vfbLib/ufo/info.py
+++ b/src/vfbLib/ufo/info.py
@@ -265,12 +265,12 @@ class VfbToUfoInfo(Info):
         # Those should not be included in the list.
         # Any others could remain, but FL doesn't set them.
         intlist = binaryToIntList(data)
-        self.openTypeOS2Selection = [b for b in intlist if b not in (0, 5, 6)]
+        self.openTypeOS2Selection = [b for b in intlist if b in (1, 2, 3, 4, 7, 8, 9)]
 
         # Construct the style map style name
 
         name_parts = []
-        if 6 in intlist:
+        if 6 in intlist and 0 not in intlist:
             name_parts.append("regular")
         elif 5 in intlist:
             name_parts.append("bold")
-- 
2.43.0


From 441f3d1f4ba75d4d25b8b4ec29275eb6dc0bbe2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:42 +0000
Subject: [PATCH 55/91] fix: keep TrueType info that is invalid in a UFO out of
 the font info

---
 src/vfbLib/ufo/info.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/vfbLib/ufo/info.py b/src/vfbLib/ufo/info.py
index 52c316b..90eada4 100644
--- a/src/vfbLib/ufo/info.py
+++ b/src/vfbLib/ufo/info.py
@@ -210,6 +210,12 @@ class VfbToUfoInfo(Info):
             "os2_us_win_descent": "openTypeOS2WinDescent",
             # "Average Width": "postscriptNominalWidthX",
         }
+        # Values that can't be negative in the UFO
+        self.positive_int = (
+            "head_lowest_rec_ppem",
+            "os2_us_win_ascent",
+            "os2_us_win_descent",
+        )
 
     def fix_underline_position(self):
         # VFB stores middle of line and thickness, but spec says it must be
@@ -286,11 +292,12 @@ class VfbToUfoInfo(Info):
     def set_tt_gasp(self, data: "GaspList") -> None:
         # FIXME: Different results when hinting is compiled with flufocompile
         gasp: list[TUfoGaspRecDict] = []
-        for rec in data:
+        # The records must be sorted by ppem, and there are only 4 behaviors
+        for rec in sorted(data, key=lambda r: r["maxPpem"]):
             gasp.append(
                 TUfoGaspRecDict(
                     rangeMaxPPEM=rec["maxPpem"],
-                    rangeGaspBehavior=binaryToIntList(rec["flags"]),
+                    rangeGaspBehavior=binaryToIntList(rec["flags"] & 0b1111),
                 )
             )
         self.openTypeGaspRangeRecords = gasp
@@ -298,7 +305,11 @@ class VfbToUfoInfo(Info):
     def set_tt_info(self, data: dict[str, int | list[int] | list[str]]) -> None:  # noqa: C901, E501
         for k, v in data.items():
             if isinstance(v, int):
-                if k in self.mapping_int:
+                if k == "os2_us_width_class" and not 1 <= v <= 9:
+                    logger.warning(f"Ignoring invalid width class: {v}")
+                elif k in self.positive_int and v < 0:
+                    logger.warning(f"Ignoring negative value for {k}: {v}")
+                elif k in self.mapping_int:
                     setattr(self, self.mapping_int[k], v)
                 elif k == "head_creation":
                     self.set_created_timestamp(v)
@@ -306,11 +317,16 @@ class VfbToUfoInfo(Info):
                     # self.info.openTypeOS2Type = binaryToIntList(v)
                     pass
                 elif k == "os2_fs_type":
-                    self.openTypeOS2Type = binaryToIntList(v)
+                    self.openTypeOS2Type = [
+                        b for b in binaryToIntList(v) if b in (0, 1, 2, 3, 8, 9)
+                    ]
                 elif k == "os2_s_family_class":
                     c = v >> 8
                     s = v & ~(c << 8)
-                    self.openTypeOS2FamilyClass = [c, s]
+                    if 0 <= c <= 14 and s <= 15:
+                        self.openTypeOS2FamilyClass = [c, s]
+                    else:
+                        logger.warning(f"Ignoring invalid family class: {v}")
                 elif k == "os2_us_weight_class":
                     # Duplicate, we set it from a separate entry (weight_code)
                     # self.openTypeOS2WeightClass = v
@@ -338,7 +354,8 @@ class VfbToUfoInfo(Info):
                     logger.info(f"Unhandled list value in UFO info: {k, v}")
             elif isinstance(v, dict):
                 if k == "head_flags":
-                    self.openTypeHeadFlags = v.get("flags", [])
+                    # Bit 15 is reserved
+                    self.openTypeHeadFlags = [b for b in v.get("flags", []) if b < 15]
                 elif k == "Codepages":
                     ranges = binaryToIntList(v.get("os2_ul_code_page_range1", 0))
                     for cp in binaryToIntList(v.get("os2_ul_code_page_range2", 0)):
-- 
2.43.0


From 274d7e9fbd536a71b701a97d0cf463aab03cbe5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 56/91] fix: remove control characters from the font info

---
 src/vfbLib/ufo/builder.py |  1 +
 src/vfbLib/ufo/info.py    | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 0ce8dc2..3ce70eb 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -679,6 +679,7 @@ class VfbToUfoBuilder:
             del self.info.lib[TT_UFO_LIB_KEY]
         self.fix_masters_count()
         self.info.fix_underline_position()
+        self.info.fix_strings()
 
     def fix_masters_count(self) -> None:
         # Sometimes no master name seems to be stored in the VFB. We need to add
diff --git a/src/vfbLib/ufo/info.py b/src/vfbLib/ufo/info.py
index 90eada4..e3304d5 100644
--- a/src/vfbLib/ufo/info.py
+++ b/src/vfbLib/ufo/info.py
@@ -1,7 +1,9 @@
 import logging
+import re
 from functools import cached_property
 from typing import TYPE_CHECKING, Any
 
+from attrs import fields
 from ufoLib2.objects.info import Info, WidthClass
 
 from vfbLib.enum import F, T
@@ -18,6 +20,9 @@ if TYPE_CHECKING:
 logger = logging.getLogger(__name__)
 
 
+# Characters that can't be stored in XML
+invalid_xml_chars = re.compile("[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]")
+
 maxp_keys = {
     "max_zones": "maxZones",
     "max_twilight_points": "maxTwilightPoints",
@@ -233,6 +238,15 @@ class VfbToUfoInfo(Info):
             round(0.5 * self.postscriptUnderlineThickness)
         )
 
+    def fix_strings(self):
+        # Control characters can't be stored in a UFO
+        for field in fields(Info):
+            value = getattr(self, field.name)
+            if isinstance(value, str):
+                setattr(self, field.name, invalid_xml_chars.sub("", value))
+        for rec in self.openTypeNameRecords or []:
+            rec.string = invalid_xml_chars.sub("", rec.string)
+
     def set_attr(self, attr: str, data):
         setattr(self, attr, data)
 
-- 
2.43.0


From 4553d63f67183e9897ab91dcfa56b3b21b19c811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:13 +0000
Subject: [PATCH 57/91] fix: make PS hints from links to a node below or left
 of the source valid

---
 src/vfbLib/ufo/pshints.py | 5 +++--
 src/vfbLib/vfb/glyph.py   | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/ufo/pshints.py b/src/vfbLib/ufo/pshints.py
index 5edb782..3fbb351 100644
--- a/src/vfbLib/ufo/pshints.py
+++ b/src/vfbLib/ufo/pshints.py
@@ -266,8 +266,9 @@ def get_master_hints(
             else:
                 tgt = mmglyph.mm_nodes[itgt]
                 tgt_pos = tgt["points"][master_index][0][i]
-                width = tgt_pos - src_pos
-                # pos = min(src_pos, tgt_pos)
+                # The target may be below/left of the source
+                pos = min(src_pos, tgt_pos)
+                width = abs(tgt_pos - src_pos)
 
             d = "v" if axis == "x" else "h"
             # Don't normalize those values, the above code already did that
diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index 1d58c8f..e1a37e4 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -187,7 +187,9 @@ class VfbGlyph:
                 else:
                     tgt = mm_nodes[itgt]
                     tgt_pos = tgt["points"][self.master_index][0][i]
-                    width = tgt_pos - src_pos
+                    # The target may be below/left of the source
+                    pos = min(src_pos, tgt_pos)
+                    width = abs(tgt_pos - src_pos)
 
                 d = "v" if axis == "x" else "h"
                 # Don't normalize those values, the above code already did that
-- 
2.43.0


From 5788cda15b22f42526666521c0addd897c79a1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:35 +0000
Subject: [PATCH 58/91] fix: ignore links to missing nodes when exporting PS
 hints

---
 src/vfbLib/ufo/pshints.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/vfbLib/ufo/pshints.py b/src/vfbLib/ufo/pshints.py
index 3fbb351..7342db4 100644
--- a/src/vfbLib/ufo/pshints.py
+++ b/src/vfbLib/ufo/pshints.py
@@ -31,7 +31,7 @@ def normalize_hint_dict(hint: "HintDict", name: str = "dummy"):
 def build_ps_glyph_hints(
     mmglyph: "VfbToUfoGlyph",
     glyph: "UfoMasterGlyph",
-    master_hints: "dict[str, list[HintTuple]]",
+    master_hints: "dict[str, list[HintTuple | None]]",
 ) -> None:
     """
     Set the master-specific hints from data to the glyph lib
@@ -158,8 +158,9 @@ def build_ps_glyph_hints(
                 if direction == dd:
                     master_direction_hints = master_hints[direction]
                     if hint_index < len(master_direction_hints):
-                        hint: "HintTuple" = master_direction_hints[hint_index]
-                        hint_set["stems"].append(hint)
+                        hint = master_direction_hints[hint_index]
+                        if hint is not None:
+                            hint_set["stems"].append(hint)
                     else:
                         logger.debug(
                             f"Hint mask '{direction}' with index {hint_index} found in "
@@ -191,7 +192,8 @@ def build_ps_glyph_hints(
         # Only one hint set, always make a hint set with first point
         for direction in DIRECTIONS:
             for hint in master_hints[direction]:
-                hint_set["stems"].append(hint)
+                if hint is not None:
+                    hint_set["stems"].append(hint)
         if hint_set["stems"]:
             hint_set["pointTag"] = mmglyph.get_point_label(
                 index=int(hint_set["pointTag"]),
@@ -235,8 +237,8 @@ def build_ps_glyph_hints(
 
 def get_master_hints(
     mmglyph: "VfbToUfoGlyph", master_index=0
-) -> "dict[str, list[HintTuple]]":
-    hints: "dict[str, list[HintTuple]]" = {"h": [], "v": []}
+) -> "dict[str, list[HintTuple | None]]":
+    hints: "dict[str, list[HintTuple | None]]" = {"h": [], "v": []}
 
     # Hints
     for direction in DIRECTIONS:
@@ -255,6 +257,16 @@ def get_master_hints(
         direction_links = mmglyph.links[axis]
         for link in direction_links:
             isrc, itgt = link  # indices of source and target node
+            d = "v" if axis == "x" else "h"
+            num_nodes = len(mmglyph.mm_nodes)
+            if not (0 <= isrc < num_nodes and -2 <= itgt < num_nodes):
+                logger.warning(
+                    f"Ignoring link to missing node in glyph '{mmglyph.name}': {link}"
+                )
+                # The hint masks refer to the links by index, so keep the position
+                hints[d].append(None)
+                continue
+
             src = mmglyph.mm_nodes[isrc]
             src_pos = src["points"][master_index][0][i]
             pos = src_pos
@@ -270,7 +282,6 @@ def get_master_hints(
                 pos = min(src_pos, tgt_pos)
                 width = abs(tgt_pos - src_pos)
 
-            d = "v" if axis == "x" else "h"
             # Don't normalize those values, the above code already did that
             hint = (f"{d}stem", pos, width)
             hints[d].append(hint)
-- 
2.43.0


From 3ff6f9daa6d1d26cfd895595ef5b4c75cc60f88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 59/91] fix: do not export PS hint sets for points which don't
 exist

---
 src/vfbLib/ufo/glyph.py   |  2 +-
 src/vfbLib/ufo/pshints.py | 27 +++++++++++----------------
 2 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/vfbLib/ufo/glyph.py b/src/vfbLib/ufo/glyph.py
index 377b2be..b151ea6 100644
--- a/src/vfbLib/ufo/glyph.py
+++ b/src/vfbLib/ufo/glyph.py
@@ -47,7 +47,7 @@ class VfbToUfoGlyph:
         self.unicodes: list[int] = []
 
     def get_point_label(self, index: int, code: str, start_count: int = 1) -> str:
-        if self.mm_components:
+        if self.mm_components and code != "PSHintReplacement":
             # Composite: We must add the label to the referenced glyph
             if self.builder is None:
                 logger.error(
diff --git a/src/vfbLib/ufo/pshints.py b/src/vfbLib/ufo/pshints.py
index 7342db4..0cb473e 100644
--- a/src/vfbLib/ufo/pshints.py
+++ b/src/vfbLib/ufo/pshints.py
@@ -167,11 +167,6 @@ def build_ps_glyph_hints(
                             f"glyph {glyph.name}, but hint list is empty."
                         )
             if mask[0] == "r":
-                hint_set["pointTag"] = mmglyph.get_point_label(
-                    index=int(hint_set["pointTag"]),
-                    code="PSHintReplacement",
-                    start_count=0,
-                )
                 hint_sets.append(hint_set)
                 node_index = mask[1]
                 # FIXME: What do negative values mean?
@@ -182,11 +177,6 @@ def build_ps_glyph_hints(
 
         if hint_set["stems"]:
             # Append the last hint set
-            hint_set["pointTag"] = mmglyph.get_point_label(
-                index=int(hint_set["pointTag"]),
-                code="PSHintReplacement",
-                start_count=0,
-            )
             hint_sets.append(hint_set)
     else:
         # Only one hint set, always make a hint set with first point
@@ -195,17 +185,22 @@ def build_ps_glyph_hints(
                 if hint is not None:
                     hint_set["stems"].append(hint)
         if hint_set["stems"]:
-            hint_set["pointTag"] = mmglyph.get_point_label(
-                index=int(hint_set["pointTag"]),
-                code="PSHintReplacement",
-                start_count=0,
-            )
             hint_sets = [hint_set]
 
     # Reformat stems from sortable tuples to str required by UFO spec
     ufo_hint_sets = {}
     for hint_set in hint_sets:
-        point_tag = hint_set["pointTag"]
+        index = int(hint_set["pointTag"])
+        if index >= len(mmglyph.mm_nodes):
+            # E.g. in composites, which have no nodes of their own
+            logger.warning(
+                f"Ignoring hint set for missing node {index} in glyph '{glyph.name}'"
+            )
+            continue
+
+        point_tag = mmglyph.get_point_label(
+            index=index, code="PSHintReplacement", start_count=0
+        )
         ufo_hint_set = UfoHintSet(
             pointTag=point_tag,
             stems=[f"{h[0]} {h[1]} {h[2]}" for h in sorted(set(hint_set["stems"]))],
-- 
2.43.0


From b83ae01bad007af44969815ef9c904bd48561425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:20 +0000
Subject: [PATCH 60/91] fix: keep the PS hint sets of start points which are
 merged with the end point

---
 src/vfbLib/ufo/paths.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/ufo/paths.py b/src/vfbLib/ufo/paths.py
index 90f40a6..e5b7431 100644
--- a/src/vfbLib/ufo/paths.py
+++ b/src/vfbLib/ufo/paths.py
@@ -6,7 +6,7 @@ from typing import TYPE_CHECKING, Any
 from vfbLib.ufo.guides import apply_guide_properties, get_master_guides
 from vfbLib.ufo.pshints import build_ps_glyph_hints, get_master_hints
 from vfbLib.ufo.tth import set_tth_lib
-from vfbLib.ufo.vfb2ufo import TT_GLYPH_LIB_KEY, TT_UFO_LIB_KEY
+from vfbLib.ufo.vfb2ufo import PS_GLYPH_LIB_KEY, TT_GLYPH_LIB_KEY, TT_UFO_LIB_KEY
 
 if TYPE_CHECKING:
     from fontTools.pens.pointPen import AbstractPointPen
@@ -269,10 +269,24 @@ class UfoMasterGlyph:
         """
         Rename the ps-hinted point labels according to the supplied rename_dict.
         """
-        if not self.rename_points:
+        if not self.rename_points or PS_GLYPH_LIB_KEY not in self.lib:
             return
 
-        # FIXME
+        # A renamed point was the start point of its contour. If the point it has been
+        # merged with has its own hint set, only the one for the start point is kept.
+        hinting = self.lib[PS_GLYPH_LIB_KEY]
+        hint_sets = hinting["hintSetList"]
+        renamed = {
+            self.rename_points[hint_set["pointTag"]]
+            for hint_set in hint_sets
+            if hint_set["pointTag"] in self.rename_points
+        }
+        hinting["hintSetList"] = [
+            hint_set for hint_set in hint_sets if hint_set["pointTag"] not in renamed
+        ]
+        for hint_set in hinting["hintSetList"]:
+            tag = hint_set["pointTag"]
+            hint_set["pointTag"] = self.rename_points.get(tag, tag)
 
     def _finalize_tt_point_labels(self) -> None:
         """
-- 
2.43.0


From 27c026a93c46a5d0e54fe857da095c440f2c6905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:24 +0000
Subject: [PATCH 61/91] fix: export TrueType stems without stem PPEM entries to
 UFO

---
 src/vfbLib/ufo/builder.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 3ce70eb..366b6f4 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -277,6 +277,19 @@ class VfbToUfoBuilder:
         asm = format_assembly(deHexStr(data))
         self.info.set_tt_instructions(key, asm)
 
+    def get_tt_stem_rounds(self, direction: str, index: int) -> dict[str, int]:
+        """
+        Return the stem PPMs for a stem. The entry with the PPMs may be missing or it may
+        not contain all stems.
+        """
+        for stem in self.stem_ppms[direction]:
+            if stem["stem"] == index:
+                return stem["round"]
+
+        stem: TUfoStemPPMDict = {"stem": index, "round": {}}
+        self.stem_ppms[direction].append(stem)
+        return stem["round"]
+
     def set_tt_stem_ppms(self, data: TUfoStemPPMsDict) -> None:
         """Set the TT stem PPMs for stem widths of 2 to 5 pixels.
 
@@ -302,7 +315,7 @@ class VfbToUfoBuilder:
         for d in ("ttStemsH", "ttStemsV"):
             direction_stems = data[d]
             for ds in direction_stems:
-                round_dict = self.stem_ppms[d][ds["stem"]]["round"]
+                round_dict = self.get_tt_stem_rounds(d, ds["stem"])
                 ppm = 1
                 ppm1 = str(ds["round"][ppm])
                 if ppm1 in round_dict:
@@ -325,15 +338,14 @@ class VfbToUfoBuilder:
                 rv = str(r[rk])
 
                 # Take the other rounding ppm values (2-5) from self.stem_ppms
-                stem_ppms = self.stem_ppms[d][i]
-                assert i == stem_ppms["stem"]
+                rounds = self.get_tt_stem_rounds(d, i)
 
                 # Build the final stem dict
                 stem: TUfoStemDict = {
                     "horizontal": d == "ttStemsV",
                     "width": ds["value"],
                     "name": ds["name"],
-                    "round": stem_ppms["round"],
+                    "round": rounds,
                 }
 
                 # Re-add the rounding ppm value for 6 pixels
-- 
2.43.0


From aeba25b6cafe9e504c69019cd431c6137b6b1b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:50 +0000
Subject: [PATCH 62/91] fix: refer to unnamed and duplicate TrueType stems by
 their name in the UFO lib

---
 src/vfbLib/ufo/builder.py | 46 ++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 366b6f4..5f29add 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -327,6 +327,30 @@ class VfbToUfoBuilder:
                 else:
                     round_dict[ppm1] = 1
 
+    def get_unique_tt_stem_name(self, name: str, direction: str) -> str:
+        """
+        Return a name for the stem which is not taken by another stem. The glyph hints
+        refer to the stems by name.
+        """
+        taken = {stem["name"] for stems in self.stems.values() for stem in stems}
+        if name == "":
+            fmt = "v%02i" if direction == "ttStemsH" else "h%02i"
+        elif name in taken:
+            fmt = name.replace("%", "%%") + "#%02i"
+        else:
+            return name
+
+        i = 0
+        while fmt % i in taken:
+            i += 1
+        unique_name = fmt % i
+        if name:
+            logger.warning(
+                f"Duplicate TrueType stem name '{name}', renamed to '{unique_name}'"
+                ". Preferably make stem names unique in VFB."
+            )
+        return unique_name
+
     def set_tt_stems(self, data: TUfoRawStemsDict) -> None:
         for d in ("ttStemsH", "ttStemsV"):
             direction_stems = data[d]
@@ -344,7 +368,7 @@ class VfbToUfoBuilder:
                 stem: TUfoStemDict = {
                     "horizontal": d == "ttStemsV",
                     "width": ds["value"],
-                    "name": ds["name"],
+                    "name": self.get_unique_tt_stem_name(ds["name"], d),
                     "round": rounds,
                 }
 
@@ -408,23 +432,9 @@ class VfbToUfoBuilder:
     def build_tt_stems_lib(self) -> None:
         lib = {}
         for d in ("ttStemsH", "ttStemsV"):
-            i = 0
-            direction_stems = self.stems[d]
-            for stem in direction_stems:
-                name = stem["name"]
-                del stem["name"]
-                if name == "":
-                    dname = "v" if d == "ttStemsH" else "h"
-                    name = "%s%02i" % (dname, i)
-                    i += 1
-                if name in lib:
-                    oldname = name
-                    name = "%s#%02i" % (oldname, i)
-                    logger.warning(
-                        f"Duplicate TrueType stem name '{oldname}', renamed to '{name}'"
-                        ". Preferably make stem names unique in VFB."
-                    )
-                lib[name] = stem
+            for stem in self.stems[d]:
+                # The names are unique already, see get_unique_tt_stem_name
+                lib[stem["name"]] = {k: v for k, v in stem.items() if k != "name"}
         if lib:
             self.lib[TT_LIB_KEY]["stems"] = lib
 
-- 
2.43.0


From 50e1f3f75e8c6a62ec3aec6f848668b1e1c5b329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:56 +0000
Subject: [PATCH 63/91] fix: keep TrueType zones with duplicate names in the
 UFO lib

---
 src/vfbLib/ufo/builder.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 5f29add..b7410ec 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -397,7 +397,13 @@ class VfbToUfoBuilder:
                 )
                 name = dz["name"]
                 if name in self.tt_zones:
-                    logger.warning(f"Duplicate zone name: {name}, overwriting.")
+                    i = 0
+                    while (unique_name := f"{name}#{i:02d}") in self.tt_zones:
+                        i += 1
+                    logger.warning(
+                        f"Duplicate zone name: {name}, renamed to {unique_name}."
+                    )
+                    name = unique_name
                 self.tt_zones[name] = zone
                 self.tt_zone_names.append(name)  # for deltas
                 self.zone_names[d].append(name)  # for AlignTop/AlignBottom
-- 
2.43.0


From 983d404eea50b9ff0b145ca2ec95b33db29a2617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 64/91] fix: export TrueType hints which refer to missing zones
 or stems

---
 src/vfbLib/ufo/builder.py |  4 ++++
 src/vfbLib/ufo/tth.py     | 11 +++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index b7410ec..b528b09 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -432,6 +432,10 @@ class VfbToUfoBuilder:
 
     def set_tt_zone_deltas(self, data) -> None:
         for zone_index, deltas in data.items():
+            if not 0 <= int(zone_index) < len(self.tt_zone_names):
+                logger.warning(f"Ignoring deltas for missing zone: {zone_index}")
+                continue
+
             zone_name = self.tt_zone_names[int(zone_index)]
             self.tt_zones[zone_name]["delta"] = {str(k): v for k, v in deltas.items()}
 
diff --git a/src/vfbLib/ufo/tth.py b/src/vfbLib/ufo/tth.py
index 575eec2..13c2f8f 100644
--- a/src/vfbLib/ufo/tth.py
+++ b/src/vfbLib/ufo/tth.py
@@ -121,7 +121,13 @@ class TTGlyphHints:
                 else:
                     zd = "ttZonesT"
                 # Zones are indexed separately for top and bottom sides
-                d["zone"] = self.zone_names[zd][params["zone"]]
+                zone = params["zone"]
+                if 0 <= zone < len(self.zone_names.get(zd, [])):
+                    d["zone"] = self.zone_names[zd][zone]
+                else:
+                    logger.warning(
+                        f"Zone index in {zd} out of range in {self.glyph.name}: {zone}"
+                    )
             elif code in ("AlignH", "AlignV"):
                 d["point"] = self.glyph.get_point_label(params["pt"], code)
                 if "align" in params:
@@ -155,7 +161,8 @@ class TTGlyphHints:
                             logger.warning(f"{code}: {params}")
                             logger.warning(self.stems[stem_dir])
                             stem = 0
-                        d["stem"] = self.stems[stem_dir][stem]["name"]
+                        if self.stems[stem_dir]:
+                            d["stem"] = self.stems[stem_dir][stem]["name"]
                 if "align" in params:
                     align = params["align"]
                     if align > -1:
-- 
2.43.0


From 1dc5892e2334e071f6ac9246849fb2f0daa27528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:24 +0000
Subject: [PATCH 65/91] fix: use the final point names in the TrueType hints of
 UFO glyphs

---
 src/vfbLib/ufo/paths.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/paths.py b/src/vfbLib/ufo/paths.py
index e5b7431..47dd4d9 100644
--- a/src/vfbLib/ufo/paths.py
+++ b/src/vfbLib/ufo/paths.py
@@ -76,12 +76,13 @@ class UfoMasterGlyph:
         self.tth_commands = deepcopy(self.mm_glyph.tth_commands)
         if include_ps_hints:
             self._extract_master_ps_hints()
-        self._extract_master_tt_hints()
         if not minimal:
             self._extract_master_contours(to_mask=True)
             self._extract_master_mask_metrics()
         self._extract_master_contours()
         self._finalize_point_labels(include_ps_hints)
+        # The point labels in the TT commands are final only now
+        self._extract_master_tt_hints()
         self._extract_master_anchors()
         if not minimal:
             self._extract_master_guides()
-- 
2.43.0


From ac845edf9012e71ca7b0dcced6a7941fcef8ead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:29 +0000
Subject: [PATCH 66/91] fix: resolve the hinted points of nested TrueType
 composites

---
 src/vfbLib/ufo/glyph.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/glyph.py b/src/vfbLib/ufo/glyph.py
index b151ea6..6a75e38 100644
--- a/src/vfbLib/ufo/glyph.py
+++ b/src/vfbLib/ufo/glyph.py
@@ -62,7 +62,7 @@ class VfbToUfoGlyph:
             for i, mm_component in enumerate(self.mm_components):
                 component_name = self.builder.glyphOrder[mm_component["gid"]]
                 component = self.builder.glyph_masters[component_name]
-                num_nodes = len(component.mm_nodes)
+                num_nodes = component.get_total_num_nodes()
                 if index < num_nodes:
                     # Add the component index to the label to make it unique enough.
                     return f"{component.get_point_label(index, code)}-{i}"
@@ -103,6 +103,19 @@ class VfbToUfoGlyph:
         self.point_labels[index] = label
         return label
 
+    def get_total_num_nodes(self) -> int:
+        """
+        Return the number of nodes, including those of any (nested) components.
+        """
+        num_nodes = len(self.mm_nodes)
+        if self.builder is not None:
+            for mm_component in self.mm_components:
+                component_name = self.builder.glyphOrder[mm_component["gid"]]
+                num_nodes += self.builder.glyph_masters[
+                    component_name
+                ].get_total_num_nodes()
+        return num_nodes
+
     def set_instructions(self, instructions: list[str]) -> None:
         if not instructions:
             return
-- 
2.43.0


From a911ef26b5d76885835daf490468bef3df9c545f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 67/91] fix: allow non-ASCII stem and zone names in
 base64-encoded TrueType hints

---
 src/vfbLib/ufo/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/paths.py b/src/vfbLib/ufo/paths.py
index 47dd4d9..169f9db 100644
--- a/src/vfbLib/ufo/paths.py
+++ b/src/vfbLib/ufo/paths.py
@@ -257,7 +257,7 @@ class UfoMasterGlyph:
         if encode_data_base64 and TT_GLYPH_LIB_KEY in self.lib:
             data = self.lib[TT_GLYPH_LIB_KEY]
             if not isinstance(data, bytes):
-                self.lib[TT_GLYPH_LIB_KEY] = b64encode(data.encode("ascii"))
+                self.lib[TT_GLYPH_LIB_KEY] = b64encode(data.encode("utf-8"))
         if TT_UFO_LIB_KEY in self.lib:
             self.lib[TT_UFO_LIB_KEY] = deepcopy(self.lib[TT_UFO_LIB_KEY])
 
-- 
2.43.0


From bcc1b52f852c7b5d27e7262f46f32970ca0932b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:00 +0000
Subject: [PATCH 68/91] fix: prefer the bigger stem width if two are set for
 the same ppm in TrueType hinting

---
 src/vfbLib/ufo/tth.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/ufo/tth.py b/src/vfbLib/ufo/tth.py
index 13c2f8f..1536d49 100644
--- a/src/vfbLib/ufo/tth.py
+++ b/src/vfbLib/ufo/tth.py
@@ -75,10 +75,10 @@ def transform_stem_rounds(data: dict[int, int], name: str) -> dict[str, int]:
     """
     d: dict[str, int] = {}
     for k, v in data.items():
-        key = v
+        key = str(v)
         val = k
         if key in d:
-            if val > v:
+            if val > d[key]:
                 logger.warning(
                     f"Duplicate rounding ppm {key} in TT stem '{name}', "
                     f"choosing bigger value {val}px over {d[key]}px. {data}"
@@ -90,7 +90,7 @@ def transform_stem_rounds(data: dict[int, int], name: str) -> dict[str, int]:
                     f"keeping value {d[key]}px, ignoring {val}px. {data}"
                 )
         else:
-            d[str(key)] = val
+            d[key] = val
     return d
 
 
-- 
2.43.0


From cab6babe04b6ceed74713f329faf3c8ddb5b0abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:19 +0000
Subject: [PATCH 69/91] fix: let vfb2tth read the stem PPEMs for 1 px and skip
 missing hinting entries

---
 src/vfbLib/tth.py | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/vfbLib/tth.py b/src/vfbLib/tth.py
index 27ec4fd..990b6fe 100644
--- a/src/vfbLib/tth.py
+++ b/src/vfbLib/tth.py
@@ -187,7 +187,7 @@ def extract_glyph_hints(
             IndexVfbToUfoGlyph(),
             data=tth,
             zone_names=zone_names,
-            stems=font_hints["stems"],
+            stems=font_hints.get("stems", {"ttStemsV": [], "ttStemsH": []}),
         )
         tr = ttg.get_tt_glyph_hints()
         target[data["name"]] = tr
@@ -207,7 +207,8 @@ def extract_tt_stem_ppem_1(data: dict, target: dict) -> None:
             direction_data = data[direction]
             for stem_data in direction_data:
                 stem_index = stem_data["stem"]
-                target[direction][stem_index]["1"] = stem_data["round"]["1"]
+                rounding = target[direction].setdefault(stem_index, {})
+                rounding[1] = stem_data["round"][1]
 
 
 def extract_tt_stem_ppems(data: dict, target: dict) -> None:
@@ -313,22 +314,21 @@ def merge_stem_information(data: dict, font: dict) -> None:
     """
     stems_dict = {}
     for direction in ("ttStemsV", "ttStemsH"):
-        if direction in data:
-            direction_data = data[direction]
-            for stem_index, rounding in direction_data.items():
-                stem = font["stems"][direction][stem_index]
-                stem["round"].update(rounding)
-                # Sort the rounding dict by value (px)
-                rd = transform_stem_rounds(stem["round"], stem["name"])
-                srtl = sorted(rd.items(), key=lambda item: item[1])
-                srd = {k: v for k, v in srtl}
-                stem["round"] = srd
-                stems_dict[stem["name"]] = deepcopy(stem)
-                del stems_dict[stem["name"]]["name"]
+        # There may be no additional rounding information for the stem
+        direction_data = data.get(direction, {})
+        for stem_index, stem in enumerate(font.get("stems", {}).get(direction, [])):
+            stem["round"].update(direction_data.get(stem_index, {}))
+            # Sort the rounding dict by value (px)
+            rd = transform_stem_rounds(stem["round"], stem["name"])
+            srtl = sorted(rd.items(), key=lambda item: item[1])
+            srd = {k: v for k, v in srtl}
+            stem["round"] = srd
+            stems_dict[stem["name"]] = deepcopy(stem)
+            del stems_dict[stem["name"]]["name"]
     if stems_dict:
         font["stems"] = stems_dict
     else:
-        del font["stems"]
+        font.pop("stems", None)
 
 
 def merge_zone_information(font: dict) -> None:
@@ -341,9 +341,13 @@ def merge_zone_information(font: dict) -> None:
     """
     all_zones = []
     for side in ("ttZonesB", "ttZonesT"):
-        for zone in font["zones"].get(side, []):
+        for zone in font.get("zones", {}).get(side, []):
             all_zones.append(zone)
     for zone_index, zone_delta in font.get("zone_deltas", {}).items():
+        if not 0 <= zone_index < len(all_zones):
+            print(f"Ignoring deltas for missing zone: {zone_index}")
+            continue
+
         zone = all_zones[zone_index]
         # Sort and convert delta ppm to str
         zone["deltas"] = {str(k): v for k, v in sorted(zone_delta.items())}
@@ -355,5 +359,5 @@ def merge_zone_information(font: dict) -> None:
     if zones_dict:
         font["zones"] = zones_dict
     else:
-        del font["zones"]
-    del font["zone_deltas"]
+        font.pop("zones", None)
+    font.pop("zone_deltas", None)
-- 
2.43.0


From 75314e4d75d153efda0deb171fee3e39757d8d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 70/91] fix: don't repeat the axis labels when the designspace
 is built again

---
 src/vfbLib/ufo/builder.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index b528b09..817cfdc 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -983,10 +983,10 @@ class VfbToUfoBuilder:
         # Add labels
         if self.axis_count == 1:
             # Only support the simple case here
-            for p in self.primary_instances:
-                self.axes[0].axisLabels.append(
-                    AxisLabelDescriptor(name=p["name"], userValue=p["values"][0])
-                )
+            self.axes[0].axisLabels = [
+                AxisLabelDescriptor(name=p["name"], userValue=p["values"][0])
+                for p in self.primary_instances
+            ]
         else:
             logger.warning(
                 "WARNING: Designspace output of AxisLabelDescriptors is only supported "
-- 
2.43.0


From 09c0e075b2ec1d829f3ff3ea3a843fbb03eb9a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 71/91] fix: make source file names relative to the designspace

---
 src/vfbLib/ufo/builder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 817cfdc..49c48fa 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -995,10 +995,13 @@ class VfbToUfoBuilder:
 
         # Add sources
         for i in range(self.num_masters):
+            # The source files are always written to the same folder as the designspace
+            master_path = self.get_master_path(out_path, i)
             ds.addSourceDescriptor(
                 # designLocation=,
                 familyName=self.info.ds_family_name,
-                filename=f"{self.get_master_path(out_path, i)}",
+                filename=master_path.name,
+                path=str(master_path.absolute()),
                 location=get_ds_location(self.axes, self.master_locations[i + 1]),
                 name=self.masters[i].strip(),
                 styleName=f"Master {i}",
-- 
2.43.0


From 1643e485ad6f12e2171b0dcd7d9579fc7691ae6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 72/91] fix: close contours in the same way in all masters

---
 src/vfbLib/ufo/paths.py | 45 ++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/vfbLib/ufo/paths.py b/src/vfbLib/ufo/paths.py
index 169f9db..2d09f7f 100644
--- a/src/vfbLib/ufo/paths.py
+++ b/src/vfbLib/ufo/paths.py
@@ -11,7 +11,7 @@ from vfbLib.ufo.vfb2ufo import PS_GLYPH_LIB_KEY, TT_GLYPH_LIB_KEY, TT_UFO_LIB_KE
 if TYPE_CHECKING:
     from fontTools.pens.pointPen import AbstractPointPen
 
-    from vfbLib.typing import AnchorDict
+    from vfbLib.typing import AnchorDict, MMNode
     from vfbLib.ufo.glyph import VfbToUfoGlyph
     from vfbLib.ufo.typing import UfoComponent, UfoContour
 
@@ -139,6 +139,8 @@ class UfoMasterGlyph:
         in_qcurve = False
         if True:
             contour: "UfoContour" = []
+            start_node: "MMNode | None" = None
+            last_node: "MMNode | None" = None
             for i, n in enumerate(mm_nodes):
                 if to_mask:
                     name: str | None = None
@@ -151,8 +153,11 @@ class UfoMasterGlyph:
                 smooth = bool(flags & 1)
 
                 if segment_type == "move":
-                    self._append_contour(contour, path_is_open, to_mask)
+                    self._append_contour(
+                        contour, path_is_open, start_node, last_node, to_mask
+                    )
                     contour = [("move", smooth, name, pt)]
+                    start_node = n
                     path_is_open = bool(flags & 8)
                     in_qcurve = False
 
@@ -178,7 +183,9 @@ class UfoMasterGlyph:
                     logger.error(f"Unknown segment type: {segment_type}")
                     raise ValueError
 
-            self._append_contour(contour, path_is_open, to_mask)
+                last_node = n
+
+            self._append_contour(contour, path_is_open, start_node, last_node, to_mask)
 
         if to_mask:
             # Mask has no components
@@ -329,24 +336,40 @@ class UfoMasterGlyph:
             cmd[key] = self.rename_points[pt_name]
 
     def _append_contour(
-        self, contour: "UfoContour", path_is_open: bool, to_mask: bool = False
+        self,
+        contour: "UfoContour",
+        path_is_open: bool,
+        start_node: "MMNode | None",
+        last_node: "MMNode | None",
+        to_mask: bool = False,
     ) -> None:
         """
         Append the contour to the glyph's contours, applying closepath optimizations.
         """
         if contour:
-            ct = self._flush_contour(contour, path_is_open)
+            # The structure of the contour must be the same in all masters
+            ends_at_start = (
+                start_node is not None
+                and last_node is not None
+                and all(
+                    start[0] == end[0]
+                    for start, end in zip(start_node["points"], last_node["points"])
+                )
+            )
+            ct = self._flush_contour(contour, path_is_open, ends_at_start)
             if to_mask:
                 self.mask_contours.append(ct)
             else:
                 self.contours.append(ct)
 
-    def _apply_closepath(self, contour: "UfoContour", to_mask: bool = False) -> None:
+    def _apply_closepath(
+        self, contour: "UfoContour", ends_at_start: bool, to_mask: bool = False
+    ) -> None:
         """
         Apply closepath optimizations to the contour.
         """
         last_type = contour[-1][0]
-        if contour[-1][3] == contour[0][3] and last_type not in ("line", "qcurve"):
+        if ends_at_start and last_type not in ("line", "qcurve"):
             # Equal coords, use closepath to draw the last line, but not for explicit
             # lines
             name = contour[0][2]
@@ -371,7 +394,11 @@ class UfoMasterGlyph:
             contour[0] = ("line", smooth, name, pt)
 
     def _flush_contour(
-        self, contour: "UfoContour", path_is_open: bool, to_mask: bool = False
+        self,
+        contour: "UfoContour",
+        path_is_open: bool,
+        ends_at_start: bool,
+        to_mask: bool = False,
     ) -> "UfoContour":
         """
         Post-process a contour before it is appended to the glyph's contours.
@@ -379,7 +406,7 @@ class UfoMasterGlyph:
         if not path_is_open:
             last_type = contour[-1][0]
             if last_type in ("line", "curve", "qcurve"):
-                self._apply_closepath(contour, to_mask=to_mask)
+                self._apply_closepath(contour, ends_at_start, to_mask=to_mask)
 
             elif last_type is None:
                 _, smooth, name, pt = contour[0]
-- 
2.43.0


From f9f6c94718cf59abd45694b5714afc4e0a3d2376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 73/91] fix: keep empty comments in the feature code

---
 src/vfbLib/ufo/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/features.py b/src/vfbLib/ufo/features.py
index 738fbf5..4bf16d3 100644
--- a/src/vfbLib/ufo/features.py
+++ b/src/vfbLib/ufo/features.py
@@ -23,7 +23,7 @@ def rename_kern_classes_in_feature_code(data: list[str]) -> list[str]:
             if enum is None:
                 enum = ""
             code = f"{indent}{enum}{pos} {L} {R} {value}"
-            if comment:
+            if comment is not None:
                 code += f"#{comment}"
             features.append(code)
         else:
-- 
2.43.0


From 8771da25aa9944ca3c020ffd08e09fba300b7211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 74/91] fix: rename kerning classes in all spellings of pair
 positioning

---
 src/vfbLib/ufo/features.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/features.py b/src/vfbLib/ufo/features.py
index 4bf16d3..73b3b25 100644
--- a/src/vfbLib/ufo/features.py
+++ b/src/vfbLib/ufo/features.py
@@ -14,7 +14,10 @@ def rename_kern_classes_in_feature_code(data: list[str]) -> list[str]:
             code = line
             comment = None
 
-        if m := search(r"^([\t\s]*)(enum )?(pos) +([\S]+) ([\S]+) +([\S]+.*)$", code):
+        if m := search(
+            r"^(\s*)(enum(?:erate)?\s+)?(pos(?:ition)?)\s+(\S+)\s+(\S+)\s+(\S.*)$",
+            code,
+        ):
             indent, enum, pos, L, R, value = m.groups()
             if L.startswith("@_"):
                 L = f"@public.kern1.{L[1:]}"
-- 
2.43.0


From b96c29adfe668f5619ba7c84247ccc04367100a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 75/91] fix: keep the prefix code if there are no features

---
 src/vfbLib/parsers/text.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/parsers/text.py b/src/vfbLib/parsers/text.py
index a283ace..c3c870b 100644
--- a/src/vfbLib/parsers/text.py
+++ b/src/vfbLib/parsers/text.py
@@ -80,8 +80,12 @@ class OpenTypeStringParser(BaseParser):
             else:
                 feature.append(line)
 
-        # Flush the last feature
-        fea["features"].append({"tag": tag, "code": feature})
+        if in_prefix:
+            # There are no features, only prefix code
+            fea["prefix"] = prefix
+        else:
+            # Flush the last feature
+            fea["features"].append({"tag": tag, "code": feature})
 
         return fea
 
-- 
2.43.0


From 5e398d5b7d74c7d206b2c772fc1502c558566cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:34 +0000
Subject: [PATCH 76/91] fix: compare lines instead of characters in the HTML
 diff

---
 src/vfbLib/diff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/diff.py b/src/vfbLib/diff.py
index 0af044d..a412c9e 100644
--- a/src/vfbLib/diff.py
+++ b/src/vfbLib/diff.py
@@ -60,8 +60,8 @@ def diffvfb():
     if args.html:
         html_diff = HtmlDiff()
         html = html_diff.make_file(
-            str(vfb1_str),
-            str(vfb2_str),
+            vfb1_str,
+            vfb2_str,
             str(vfb1_path),
             str(vfb2_path),
             context=True,
-- 
2.43.0


From d77c89c59fa0997f1794da50ff0eab3d72c98b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 77/91] fix: show differences in Unicode line separators in the
 diff

---
 src/vfbLib/diff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/diff.py b/src/vfbLib/diff.py
index a412c9e..0952d73 100644
--- a/src/vfbLib/diff.py
+++ b/src/vfbLib/diff.py
@@ -47,7 +47,7 @@ def diffvfb():
             option=orjson.OPT_INDENT_2 | orjson.OPT_NON_STR_KEYS | orjson.OPT_SORT_KEYS,
         )
         .decode()
-        .splitlines()
+        .split("\n")
     )
     vfb2_str = (
         orjson.dumps(
@@ -55,7 +55,7 @@ def diffvfb():
             option=orjson.OPT_INDENT_2 | orjson.OPT_NON_STR_KEYS | orjson.OPT_SORT_KEYS,
         )
         .decode()
-        .splitlines()
+        .split("\n")
     )
     if args.html:
         html_diff = HtmlDiff()
-- 
2.43.0


From d883a1231d0a3560186b84b116c6ea9c7ea06f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 78/91] fix: export strings with surrogates to JSON

---
 src/vfbLib/diff.py | 21 +++------------------
 src/vfbLib/json.py | 19 ++++++++++++++-----
 2 files changed, 17 insertions(+), 23 deletions(-)

diff --git a/src/vfbLib/diff.py b/src/vfbLib/diff.py
index 0952d73..34e06c0 100644
--- a/src/vfbLib/diff.py
+++ b/src/vfbLib/diff.py
@@ -3,8 +3,7 @@ from argparse import ArgumentParser
 from difflib import HtmlDiff, unified_diff
 from pathlib import Path
 
-import orjson
-
+from vfbLib.json import get_vfb_json
 from vfbLib.vfb.vfb import Vfb
 
 
@@ -41,22 +40,8 @@ def diffvfb():
     vfb2.read()
     vfb1.decompile()
     vfb2.decompile()
-    vfb1_str = (
-        orjson.dumps(
-            vfb1.as_dict(),
-            option=orjson.OPT_INDENT_2 | orjson.OPT_NON_STR_KEYS | orjson.OPT_SORT_KEYS,
-        )
-        .decode()
-        .split("\n")
-    )
-    vfb2_str = (
-        orjson.dumps(
-            vfb2.as_dict(),
-            option=orjson.OPT_INDENT_2 | orjson.OPT_NON_STR_KEYS | orjson.OPT_SORT_KEYS,
-        )
-        .decode()
-        .split("\n")
-    )
+    vfb1_str = get_vfb_json(vfb1, sort_keys=True).decode().split("\n")
+    vfb2_str = get_vfb_json(vfb2, sort_keys=True).decode().split("\n")
     if args.html:
         html_diff = HtmlDiff()
         html = html_diff.make_file(
diff --git a/src/vfbLib/json.py b/src/vfbLib/json.py
index 69c0fca..ec85fb6 100644
--- a/src/vfbLib/json.py
+++ b/src/vfbLib/json.py
@@ -1,3 +1,4 @@
+import json
 from pathlib import Path
 
 import orjson
@@ -35,10 +36,18 @@ def save_vfb_json(
     write_vfb_json(vfb, out_path)
 
 
+def get_vfb_json(vfb: Vfb, sort_keys: bool = False) -> bytes:
+    option = orjson.OPT_INDENT_2 | orjson.OPT_NON_STR_KEYS
+    if sort_keys:
+        option |= orjson.OPT_SORT_KEYS
+    try:
+        return orjson.dumps(vfb.as_dict(), option=option)
+    except orjson.JSONEncodeError:
+        # Strings with surrogates are not supported by orjson
+        return json.dumps(vfb.as_dict(), indent=2, sort_keys=sort_keys).encode("ascii")
+
+
 def write_vfb_json(vfb: Vfb, out_path: Path) -> None:
+    json_data = get_vfb_json(vfb)
     with open(str(out_path), "wb") as f:
-        f.write(
-            orjson.dumps(
-                vfb.as_dict(), option=orjson.OPT_INDENT_2 | orjson.OPT_NON_STR_KEYS
-            )
-        )
+        f.write(json_data)
-- 
2.43.0


From 2760329d054077c3fc283fe999734399451550ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 79/91] fix: don't print timings in silent mode

---
 src/vfbLib/cmdline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vfbLib/cmdline.py b/src/vfbLib/cmdline.py
index 641a853..9865200 100644
--- a/src/vfbLib/cmdline.py
+++ b/src/vfbLib/cmdline.py
@@ -217,6 +217,7 @@ def vfb2ufo():
             print(f"Reading file {vfb_path} ...")
         vfb = Vfb(
             vfb_path,
+            timing=not args.silent,
             minimal=args.minimal,
             drop_keys={F.Encoding, F.EncodingDefault},
             unicode_strings=args.unicode_strings,
-- 
2.43.0


From 4d1c93d82c302a6584b192a09fd266a8d41a15e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 80/91] fix: use the output path given on the command line

---
 src/vfbLib/cmdline.py | 13 ++++++++++---
 src/vfbLib/cu2qu.py   |  6 +++++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/vfbLib/cmdline.py b/src/vfbLib/cmdline.py
index 9865200..a84cae4 100644
--- a/src/vfbLib/cmdline.py
+++ b/src/vfbLib/cmdline.py
@@ -222,10 +222,17 @@ def vfb2ufo():
             drop_keys={F.Encoding, F.EncodingDefault},
             unicode_strings=args.unicode_strings,
         )
+        ufoz = args.zip
+        if args.outputpath and Path(args.outputpath).suffix == ".ufoz":
+            ufoz = ufoz or not args.json
         suffix = ".ufo"
-        if args.zip and not args.json:
+        if ufoz and not args.json:
             suffix += "z"
-        if args.path:
+        if args.outputpath:
+            out_path = Path(args.outputpath).with_suffix(suffix)
+            if args.path:
+                out_path = Path(args.path[0]) / out_path
+        elif args.path:
             out_path = (Path(args.path[0]) / vfb_path.name).with_suffix(suffix)
         else:
             out_path = vfb_path.with_suffix(suffix)
@@ -243,7 +250,7 @@ def vfb2ufo():
             out_path,
             overwrite=args.force_overwrite,
             silent=args.silent,
-            ufoz=args.zip,
+            ufoz=ufoz,
             json=args.json,
         )
     else:
diff --git a/src/vfbLib/cu2qu.py b/src/vfbLib/cu2qu.py
index bcb8d82..c991cd7 100644
--- a/src/vfbLib/cu2qu.py
+++ b/src/vfbLib/cu2qu.py
@@ -79,7 +79,11 @@ def vfbcu2qu():
             return
 
         suffix = ".qu.vfb"
-        if args.path:
+        if args.outputpath:
+            out_path = Path(args.outputpath)
+            if args.path:
+                out_path = Path(args.path[0]) / out_path
+        elif args.path:
             suffix = ".vfb"
             out_path = (Path(args.path[0]) / vfb_path.name).with_suffix(suffix)
         else:
-- 
2.43.0


From ef1b6d4e208a0f65bbb02bf3a0da6e57046cdc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 81/91] fix: don't overwrite existing JSON files or write an
 incomplete set of files

---
 src/vfbLib/ufo/builder.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 49c48fa..48af9ec 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -948,6 +948,16 @@ class VfbToUfoBuilder:
         # Build UFOs and DesignSpace
         ufos, ds = self.get_ufos_designspace(out_path, silent)
 
+        ds_path = out_path.with_suffix(".designspace")
+        if not overwrite:
+            # Check before anything is written
+            out_paths = [self.get_master_path(out_path, i) for i in range(len(ufos))]
+            if ds:
+                out_paths.append(ds_path)
+            for path in out_paths:
+                if path.exists():
+                    raise FileExistsError(str(path))
+
         # Write the master UFOs
         strct = UFOFileStructure.ZIP if ufoz else None
         indent = None if ufoz else 2
@@ -964,10 +974,6 @@ class VfbToUfoBuilder:
 
         # Write the Designspace
         if ds:
-            ds_path = out_path.with_suffix(".designspace")
-            if ds_path.exists():
-                if not overwrite:
-                    raise FileExistsError(str(ds_path))
             if not silent:
                 print(f"Writing designspace: {ds_path}")
             ds.write(str(ds_path))
-- 
2.43.0


From b70dddd9c0f7feb76529026e7be6803307b38077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 82/91] fix: reject unknown output formats in vfb2tth

---
 src/vfbLib/tth.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vfbLib/tth.py b/src/vfbLib/tth.py
index 990b6fe..671e194 100644
--- a/src/vfbLib/tth.py
+++ b/src/vfbLib/tth.py
@@ -24,6 +24,7 @@ def vfb2tth():
         "-f",
         "--format",
         type=str,
+        choices=("json", "toml", "yaml"),
         default="json",
         help="The output format: json (default), toml, or yaml",
     )
-- 
2.43.0


From 9429a73e204615e2694b8febc4649fbf1574cbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 83/91] fix: don't remove the background preview from the VFB
 when exporting UFOs

---
 src/vfbLib/ufo/builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 48af9ec..b980240 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -232,6 +232,8 @@ class VfbToUfoBuilder:
 
     def set_glyph_background(self, data: dict[str, Any]) -> None:
         assert self.current_glyph is not None
+        # Don't modify the data of the VFB
+        data = deepcopy(data)
         if "preview" in data["bitmap"]:
             del data["bitmap"]["preview"]
         self.current_glyph.lib["com.fontlab.v5.background"] = data
-- 
2.43.0


From 39e79e1b7b18a64b08a8ab0f4055da8913c61aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 84/91] fix: don't remove the hint masks from the VFB when
 exporting UFOs

---
 src/vfbLib/ufo/builder.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index b980240..fd6d66b 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -188,10 +188,10 @@ class VfbToUfoBuilder:
             g.mm_guides = data["guides"]
 
         if self.include_ps_hints and "hints" in data:
-            g.mm_hints = data["hints"]
-            if "hintmasks" in data["hints"]:
-                g.hintmasks = data["hints"]["hintmasks"]
-                del data["hints"]["hintmasks"]
+            # Don't modify the data of the VFB
+            g.mm_hints = data["hints"].copy()
+            if "hintmasks" in g.mm_hints:
+                g.hintmasks = g.mm_hints.pop("hintmasks")
 
         if "kerning" in data:
             kerning: dict[int, list[int]] = data["kerning"]
-- 
2.43.0


From a3d87b668f200e6621848f988c917f93753b99aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:42 +0000
Subject: [PATCH 85/91] fix: Text in fixed-size fields must not shift the
 fields after it

---
 src/vfbLib/compilers/base.py   | 12 ++++++++++++
 src/vfbLib/compilers/binary.py |  2 +-
 src/vfbLib/compilers/pclt.py   |  4 ++--
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/compilers/base.py b/src/vfbLib/compilers/base.py
index 001a30b..1877c56 100644
--- a/src/vfbLib/compilers/base.py
+++ b/src/vfbLib/compilers/base.py
@@ -103,6 +103,18 @@ class StreamWriter:
             enc += b"\00" * (pad - len(enc))
         self.stream.write(enc)
 
+    def write_str_fixed(self, value: str | None, size: int) -> None:
+        """
+        Write a string to a field of fixed size, padded with null bytes.
+
+        Args:
+            value (str | None): The string to write.
+            size (int): The size of the field in bytes.
+        """
+        if len((value or "").encode(self.encoding)) > size:
+            raise ValueError(f"String does not fit into {size} bytes: {value!r}")
+        self.write_str(value, size)
+
     def write_str_with_len(self, value: str | None) -> None:
         """
         Write the length of a string to the stream, then the string itself. The string
diff --git a/src/vfbLib/compilers/binary.py b/src/vfbLib/compilers/binary.py
index 22e5c3d..a8f6f1f 100644
--- a/src/vfbLib/compilers/binary.py
+++ b/src/vfbLib/compilers/binary.py
@@ -10,5 +10,5 @@ class BinaryTableCompiler(BaseCompiler):
     """
 
     def _compile(self, data: Any) -> None:
-        self.write_str(data["tag"])  # FIXME: Add padding here?
+        self.write_str_fixed(data["tag"].ljust(4), 4)
         self.stream.write(deHexStr(data["data"]))
diff --git a/src/vfbLib/compilers/pclt.py b/src/vfbLib/compilers/pclt.py
index a0e964f..4d32eb6 100644
--- a/src/vfbLib/compilers/pclt.py
+++ b/src/vfbLib/compilers/pclt.py
@@ -18,10 +18,10 @@ class PcltCompiler(BaseCompiler):
             "symbol_set",
         ):
             self.write_value(data[k])
-        self.write_str(data["typeface"], 16)
+        self.write_str_fixed(data["typeface"], 16)
         for value in data["character_complement"]:
             self.write_uint8(value)
-        self.write_str(data["file_name"], 6)
+        self.write_str_fixed(data["file_name"], 6)
         self.write_int8(data["stroke_weight"])
         self.write_int8(data["width_type"])
         self.write_uint8(data["serif_style"])
-- 
2.43.0


From 951713f129b1ea409eca8b74fbc7152f1afbd9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:37 +0000
Subject: [PATCH 86/91] fix: don't share lib values between the master UFOs

---
 src/vfbLib/ufo/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index fd6d66b..1c12f2f 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -801,7 +801,7 @@ class VfbToUfoBuilder:
             groups=deepcopy(self.ufo_groups),
             info=master_info,
             kerning=master_kerning,
-            lib=self.lib,
+            lib=deepcopy(self.lib),
         )
 
         mask_glyphs: list[Glyph] = []
-- 
2.43.0


From 5cbb1f2f30c25c5399f4ac592fb428a7ad2a74fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:38 +0000
Subject: [PATCH 87/91] fix: keep the TrueType hints of glyphs with duplicate
 names

---
 src/vfbLib/tth.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/tth.py b/src/vfbLib/tth.py
index 671e194..67df9a8 100644
--- a/src/vfbLib/tth.py
+++ b/src/vfbLib/tth.py
@@ -100,6 +100,7 @@ def extract_truetype_hinting(vfb: Vfb) -> dict[str, Any]:
     """
     font: dict[str, Any] = {}
     glyphs: dict[str, list[dict]] = {}
+    glyph_names: set[str] = set()
     zone_names: dict[str, dict] = {"ttZonesT": {}, "ttZonesB": {}}
     d: dict[str, Any] = {"font": font, "glyphs": glyphs}
     stem_round: dict[str, dict] = {"ttStemsV": {}, "ttStemsH": {}}
@@ -163,7 +164,14 @@ def extract_truetype_hinting(vfb: Vfb) -> dict[str, Any]:
         elif key == "Glyph":
             entry.decompile()
             assert isinstance(entry.data, dict)
-            extract_glyph_hints(entry.data, glyphs, font, zone_names)
+            # Disambiguate duplicate names as in the Vfb
+            name = glyph_name = entry.data.get("name", "")
+            i = 1
+            while name in glyph_names:
+                name = f"{glyph_name}#{i}"
+                i += 1
+            glyph_names.add(name)
+            extract_glyph_hints(entry.data, glyphs, font, zone_names, name)
 
     merge_stem_information(stem_round, font)
     merge_zone_information(font)
@@ -172,7 +180,11 @@ def extract_truetype_hinting(vfb: Vfb) -> dict[str, Any]:
 
 
 def extract_glyph_hints(
-    data: dict, target: dict, font_hints: dict, zone_names: dict
+    data: dict,
+    target: dict,
+    font_hints: dict,
+    zone_names: dict,
+    name: str | None = None,
 ) -> None:
     """
     Extract the glyph hints from the supplied decompiled glyph entry `data`.
@@ -182,6 +194,8 @@ def extract_glyph_hints(
         target (dict): The dict to which to add the extracted glyph hints.
         font_hints (dict): Font-level hinting data. Used to map stem indices to names.
         zone_names (dict): Zone hinting data. Used to map zone indices to names.
+        name (str, optional): The name under which the hints are added to `target`.
+            Defaults to the name of the glyph.
     """
     if tth := data.get("tth"):
         ttg = TTGlyphHints(
@@ -191,7 +205,7 @@ def extract_glyph_hints(
             stems=font_hints.get("stems", {"ttStemsV": [], "ttStemsH": []}),
         )
         tr = ttg.get_tt_glyph_hints()
-        target[data["name"]] = tr
+        target[data["name"] if name is None else name] = tr
 
 
 def extract_tt_stem_ppem_1(data: dict, target: dict) -> None:
-- 
2.43.0


From 9e9250bd8c4dedd10782147de6626b564e290c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:23 +0000
Subject: [PATCH 88/91] fix: set the error flag for entries whose data are cut
 off at the end of the file

---
 src/vfbLib/vfb/entry.py | 10 +++++++++-
 src/vfbLib/vfb/vfb.py   |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index 737ba92..d09ef7e 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -36,6 +36,8 @@ class VfbEntry(StreamReader):
         self.vfb = parent
         # The original or decompiled data
         self._data: "bytes | EntryDecompiled | None" = None
+        # Whether the stream ended before all of the data was read
+        self.incomplete = False
         # Temporary data for additional master, must be merged when compiling
         self.temp_masters: list[list] | None = None
         self.parser = None
@@ -123,6 +125,7 @@ class VfbEntry(StreamReader):
     @data.setter
     def data(self, value: "bytes | EntryDecompiled | None") -> None:
         self._data = value
+        self.incomplete = False
 
     @property
     def id(self) -> int | None:
@@ -226,7 +229,8 @@ class VfbEntry(StreamReader):
         byte_data = self.data
 
         try:
-            self.data = self.parser().parse(BytesIO(byte_data), self.size, self.vfb)
+            # Don't use the setter, the result is as incomplete as the data
+            self._data = self.parser().parse(BytesIO(byte_data), self.size, self.vfb)
         except:  # noqa: E722
             logger.error(f"Parse error for data: {self.key}; {hexStr(byte_data)}")
             logger.error(f"Parser class: {self.parser.__name__}")
@@ -268,3 +272,7 @@ class VfbEntry(StreamReader):
             size = 2 * int32_size + self.vfb.num_masters * 2
 
         self.data = self.stream.read(size)
+        if self.size < size:
+            logger.error(f"Incomplete data: {self.key}; {self.size} of {size} bytes")
+            self.incomplete = True
+            self.vfb.any_errors = True
diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index 0524fd0..c654fc0 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -237,7 +237,7 @@ class Vfb:
         """
         Decompile all entries, except for the ones listed in `drop_keys`.
         """
-        self.any_errors = False
+        self.any_errors = any(entry.incomplete for entry in self.entries)
         start = time()
         self.header.decompile()
         for entry in self.entries:
-- 
2.43.0


From e0d589334f4d647012894fbc0beb80a7c0ff9f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:46 +0000
Subject: [PATCH 89/91] fix: don't remember the units per em when the entry is
 changed

---
 src/vfbLib/vfb/info.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vfbLib/vfb/info.py b/src/vfbLib/vfb/info.py
index f7fa52a..8e65aee 100644
--- a/src/vfbLib/vfb/info.py
+++ b/src/vfbLib/vfb/info.py
@@ -1,4 +1,3 @@
-from functools import cached_property
 from typing import TYPE_CHECKING
 
 if TYPE_CHECKING:
@@ -9,7 +8,7 @@ class VfbInfo:
     def __init__(self, vfb: "Vfb") -> None:
         self.parent = vfb
 
-    @cached_property
+    @property
     def unitsPerEm(self) -> int:
         for entry in self.parent.entries:
             if entry.key == "upm":
-- 
2.43.0


From 3c906ad856ad7d04f5f720726ed21954bc646da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:09 +0000
Subject: [PATCH 90/91] fix: return the glyphs of the master from
 VfbMaster.items()

---
 src/vfbLib/vfb/vfb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index c654fc0..58b1416 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -45,8 +45,8 @@ class VfbMaster:
     def info(self) -> VfbInfo:
         return self.vfb.info
 
-    def items(self) -> Iterable[tuple[str, VfbGlyph]]:
-        return self.vfb.items()
+    def items(self) -> Iterable[tuple[str, VfbGlyphMaster]]:
+        return [(name, self[name]) for name in self.vfb.keys()]
 
     def keys(self) -> Iterable[str]:
         return self.vfb.keys()
-- 
2.43.0


From 6304fb6e2145211c5ed8fad85429228c27012380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:30 +0000
Subject: [PATCH 91/91] fix: export fonts without PostScript info for every
 master

---
 src/vfbLib/ufo/builder.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 1c12f2f..eb0e447 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -728,6 +728,10 @@ class VfbToUfoBuilder:
 
     def get_master_info(self, master_index: int = 0) -> VfbToUfoInfo:
         master_info = deepcopy(self.info)
+        # There may be no PostScript info for the master
+        ps_info: dict[str, Any] = {}
+        if master_index < len(self.masters_ps_info):
+            ps_info = self.masters_ps_info[master_index]
         # Update the info with master-specific values
         properties = [
             ("ascender", "ascender"),
@@ -746,13 +750,13 @@ class VfbToUfoBuilder:
             )
 
         for key, attr in properties:
-            value = self.masters_ps_info[master_index].get(key, None)
+            value = ps_info.get(key, None)
             if value is not None:
                 setattr(master_info, attr, value)
 
         if self.include_ps_hints:
             # Set "force bold"
-            value = self.masters_ps_info[master_index].get("force_bold", None)
+            value = ps_info.get("force_bold", None)
             if value is not None:
                 master_info.postscriptForceBold = bool(value)
 
@@ -773,7 +777,7 @@ class VfbToUfoBuilder:
                 if num_values == 0:
                     continue
 
-                value = self.masters_ps_info[master_index].get(key, None)
+                value = ps_info.get(key, None)
                 if value is not None:
                     setattr(master_info, attr, value[:num_values])
 
-- 
2.43.0

