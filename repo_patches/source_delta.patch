From 2c0bb19b59470d39c081e3e9ecab51f6c8b25096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:10 +0000
Subject: [PATCH 01/36] fix: do not lose marker details and separators at the
 end of the last line without a newline

---
 kolombos/byteio/segment/buffer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kolombos/byteio/segment/buffer.py b/kolombos/byteio/segment/buffer.py
index b417ea0..94469f1 100644
--- a/kolombos/byteio/segment/buffer.py
+++ b/kolombos/byteio/segment/buffer.py
@@ -4,6 +4,7 @@
 # -----------------------------------------------------------------------------
 from __future__ import annotations
 
+import sys
 from typing import Deque, List, Tuple
 
 from pytermor import Span, Spans, SequenceSGR
@@ -75,7 +76,8 @@ class SegmentBuffer:
             raise EOFError
 
         if has_newline or force:
-            detached = self._detach(avail_bytes)
+            # last line without a newline has to be drained completely, including zero-length elements at the end
+            detached = self._detach(avail_bytes if has_newline else sys.maxsize)
             return self._format_multiple(detached, printers)
 
         self._debug_buffer.write(1, 'Responsing with WaitRequest')
-- 
2.43.0


From bfce0e17693d3cb355abb252374f99785a6fc17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:10 +0000
Subject: [PATCH 02/36] fix: do not crash on m-terminated CSI sequences with
 private or malformed parameters

---
 kolombos/byteio/parser/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kolombos/byteio/parser/parser.py b/kolombos/byteio/parser/parser.py
index 098859f..bbda420 100644
--- a/kolombos/byteio/parser/parser.py
+++ b/kolombos/byteio/parser/parser.py
@@ -131,7 +131,10 @@ class Parser:
             if sgr_params == b'' or sgr_params == b'0':         # allow passing in marker details format
                 return self._template_registry.ESCAPE_SEQ_SGR_0
             tpl = self._template_registry.ESCAPE_SEQ_SGR
-            tpl.set_details_fmt_str(sgr_params)  # @FIXME ugly state, eaugh
+            try:
+                tpl.set_details_fmt_str(sgr_params)  # @FIXME ugly state, eaugh
+            except ValueError:  # private or malformed params, e.g. "ESC[>4;2m"; valid CSI, but not an SGR
+                return self._template_registry.ESCAPE_SEQ_CSI
             return tpl
         return self._template_registry.ESCAPE_SEQ_CSI
 
-- 
2.43.0


From 1ed8667d1c36998650f9e92724503aad53b37dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:10 +0000
Subject: [PATCH 03/36] fix: do not truncate long offsets and line numbers in
 the prefix column

---
 kolombos/byteio/formatter/binary.py | 1 +
 kolombos/console.py                 | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/kolombos/byteio/formatter/binary.py b/kolombos/byteio/formatter/binary.py
index a10486c..51b9149 100644
--- a/kolombos/byteio/formatter/binary.py
+++ b/kolombos/byteio/formatter/binary.py
@@ -36,6 +36,7 @@ class BinaryFormatter(AbstractFormatter):
         if cur_cols is None:
             prefix_example = Console.format_prefix_with_offset(self._offset, NOOP_SPAN)
             cur_cols = self._compute_cols_num(len(prefix_example))
+            self._cols = cur_cols  # should not change in the middle of the table
 
         req_bytes = cur_cols
         if self._parser_buffer.closed:
diff --git a/kolombos/console.py b/kolombos/console.py
index 244237d..15a0b0b 100644
--- a/kolombos/console.py
+++ b/kolombos/console.py
@@ -252,7 +252,7 @@ class Console:
 
     @staticmethod
     def format_prefix(label: str, f: Span) -> str:
-        prefix = f(f'{label!s:>{Console.MAIN_PREFIX_LEN}.{Console.MAIN_PREFIX_LEN}s}') + Console.get_separator()
+        prefix = f(f'{label!s:>{Console.MAIN_PREFIX_LEN}s}') + Console.get_separator()
         prefix = re.sub('0x', lambda m: Spans.DIM(m.group()), prefix)
         return prefix
 
-- 
2.43.0


From d9cdc7878e184eca0ce51b14707d2aaf4128546e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:10 +0000
Subject: [PATCH 04/36] fix: allow reading from non-seekable files

---
 kolombos/byteio/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/byteio/reader.py b/kolombos/byteio/reader.py
index d6367cf..1d2ad6c 100644
--- a/kolombos/byteio/reader.py
+++ b/kolombos/byteio/reader.py
@@ -42,7 +42,7 @@ class Reader(metaclass=abc.ABCMeta):
         try:
             while raw_input := self._io.read(self._chunk_size):
                 self._debug_buffer.write(1, f'Read chunk #{chunks}: {Console.printd(raw_input, 5)}', offset=self._offset)
-                self._debug_buffer.write(3, f'Current position: {Spans.BOLD(self._io.tell() if not self.reading_stdin else "n/a")}', offset=self._offset)
+                self._debug_buffer.write(3, f'Current position: {Spans.BOLD(self._io.tell() if not self.reading_stdin and self._io.seekable() else "n/a")}', offset=self._offset)
                 chunks += 1
                 if max_lines:
                     for line_break in re.finditer(b'\x0a', raw_input):
-- 
2.43.0


From bbd8570ab5ee622d24eeb0e7b021313922c8a98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:10 +0000
Subject: [PATCH 05/36] fix: recognize UTF-8 sequences right after invalid
 bytes

---
 kolombos/byteio/parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/byteio/parser/parser.py b/kolombos/byteio/parser/parser.py
index bbda420..4166510 100644
--- a/kolombos/byteio/parser/parser.py
+++ b/kolombos/byteio/parser/parser.py
@@ -37,7 +37,7 @@ class Parser:
                 b'\xf4[\x80-\x8f][\x80-\xbf]{2}'       # - plane 16           # double slash in grp 4 is essential or #
                 b')|'                                                         # regex goes batshit crazy: \x5b is '[' #
                 +                                                             # # # # # # # # # # # # # # # # # # # # #
-                b'([\x80-\xff]+)|'                     # [1] BINARY DATA                                              |
+                b'([\x80-\xc1\xf5-\xff]+|[\xc2-\xf4])|'  # [1] BINARY DATA                                              |
                 +                                                             # ESCAPE SEQUENCES                      |
                 b'((\x1b)(\\x5b)([\x30-\x3f]*)([\x20-\x2f]*)([\x40-\x7e]))|'  # [ 2|  3-7] CSI/SGR sequences   <- - - +
                 b'((\x1b)([\x20-\x2f])([\x20-\x2f]*)([\x30-\x7e]))|'          # [ 8| 9-12] nF escape sequences
-- 
2.43.0


From bb349131024b8626581974e9e285f0d6a57b5dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:10 +0000
Subject: [PATCH 06/36] fix: keep at least one chunk per row in binary mode on
 narrow terminals, treat non-positive --columns as auto

---
 kolombos/byteio/formatter/binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kolombos/byteio/formatter/binary.py b/kolombos/byteio/formatter/binary.py
index 51b9149..028d97e 100644
--- a/kolombos/byteio/formatter/binary.py
+++ b/kolombos/byteio/formatter/binary.py
@@ -33,7 +33,7 @@ class BinaryFormatter(AbstractFormatter):
 
     def format(self):
         cur_cols = self._cols
-        if cur_cols is None:
+        if cur_cols is None or cur_cols <= 0:
             prefix_example = Console.format_prefix_with_offset(self._offset, NOOP_SPAN)
             cur_cols = self._compute_cols_num(len(prefix_example))
             self._cols = cur_cols  # should not change in the middle of the table
@@ -105,7 +105,7 @@ class BinaryFormatter(AbstractFormatter):
         chunk_len = (3 * self.BYTE_CHUNK_LEN) + \
                     (self.BYTE_CHUNK_LEN - 1) + \
                     len(self.PADDING_HEX_CHUNK)
-        chunk_fit = floor(available_total / chunk_len)
+        chunk_fit = max(1, floor(available_total / chunk_len))
 
         result = chunk_fit * self.BYTE_CHUNK_LEN
         self._debug_buffer.write(2, f'Columns amount set to: {Spans.BOLD(result)}')
-- 
2.43.0


From 2b909b57695063a9404a5762e772ad0d2e65c92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:10 +0000
Subject: [PATCH 07/36] fix: keep origin bytes of control chars when marker
 details are enabled

---
 kolombos/byteio/template/template_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/byteio/template/template_control.py b/kolombos/byteio/template/template_control.py
index 93727ca..785b4b0 100644
--- a/kolombos/byteio/template/template_control.py
+++ b/kolombos/byteio/template/template_control.py
@@ -40,7 +40,7 @@ class ControlCharGenericTemplate(Template):
             label_processed = self._process_byte(label_raw)
             self._substituted.append(self._create_primary_segment(
                 self._opening_seq_stack.get(self._display_mode, self._read_mode),
-                bytes(label_raw),
+                bytes([label_raw]),
                 label_processed,
             ))
             self._fill_additional_segments(label_raw)
-- 
2.43.0


From 16b5e2ff6035ef0204e354c34e71d0ccfe1d44d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:10 +0000
Subject: [PATCH 08/36] fix: do not pass UTF-8 encoded C1 control characters
 through to the terminal

---
 kolombos/byteio/template/template_utf8.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kolombos/byteio/template/template_utf8.py b/kolombos/byteio/template/template_utf8.py
index d5ba2fc..b130538 100644
--- a/kolombos/byteio/template/template_utf8.py
+++ b/kolombos/byteio/template/template_utf8.py
@@ -4,6 +4,8 @@
 # -----------------------------------------------------------------------------
 from __future__ import annotations
 
+import re
+
 from pytermor import SequenceSGR
 
 from . import Template
@@ -12,6 +14,8 @@ from .. import CharClass, OpeningSeqPOV, LabelPOV
 
 class Utf8SequenceTemplate(Template):
     DECODED_LEFT_FILL_CHAR = '_'
+    C1_CONTROL_REGEX = re.compile('[\x80-\x9f]')
+    C1_CONTROL_CHAR = '▯'
 
     def __init__(self, opening_seq: SequenceSGR | OpeningSeqPOV, label: str | LabelPOV = ''):
         super().__init__(CharClass.UTF_8_SEQ, opening_seq, label)
@@ -24,6 +28,7 @@ class Utf8SequenceTemplate(Template):
 
         if self._read_mode.is_text or self._decode:
             decoded = raw.decode('utf8', errors='replace')
+            decoded = self.C1_CONTROL_REGEX.sub(self.C1_CONTROL_CHAR, decoded)  # terminals interpret C1 controls
             if self._read_mode.is_binary:
                 if len(decoded) < len(raw):
                     decoded = decoded.rjust(len(raw), self.DECODED_LEFT_FILL_CHAR)
-- 
2.43.0


From c95948f0285dbce84948846f5e93cb1d3e3d8231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:52 +0000
Subject: [PATCH 09/36] fix: do not break UTF-8 and escape sequences at read
 chunk boundaries

---
 kolombos/byteio/parser/buffer.py |  2 +-
 kolombos/byteio/parser/parser.py | 15 +++++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/kolombos/byteio/parser/buffer.py b/kolombos/byteio/parser/buffer.py
index bc89d04..4f5b0ab 100644
--- a/kolombos/byteio/parser/buffer.py
+++ b/kolombos/byteio/parser/buffer.py
@@ -35,7 +35,7 @@ class ParserBuffer:
             self._debug_buffer.write(2, f'Buffer state: {Console.printd(self._raw_buffer)}')
             return
 
-        offset_delta = self._raw_buffer.find(new_buffer)
+        offset_delta = self._raw_buffer.rfind(new_buffer)
         if offset_delta == -1:
             raise RuntimeError(f'New buffer is not a part of the current one: {Console.printd(new_buffer, 32)}')
 
diff --git a/kolombos/byteio/parser/parser.py b/kolombos/byteio/parser/parser.py
index 4166510..052d162 100644
--- a/kolombos/byteio/parser/parser.py
+++ b/kolombos/byteio/parser/parser.py
@@ -59,6 +59,12 @@ class Parser:
                 b'([\x21-\x7e]+)',                     # [33] printable chars (letters, digits, punctuation)
             self._substitute)
 
+        self.INCOMPLETE_TAIL_REGEX = re.compile(   # sequences that can be continued by the next chunk
+                b'(?:'
+                b'[\xc2-\xdf]|[\xe0-\xef][\x80-\xbf]?|[\xf0-\xf4][\x80-\xbf]{0,2}|'
+                b'\x1b(?:\\x5b[\x30-\x3f]*[\x20-\x2f]*|[\x20-\x2f]+)?'
+                b')\\Z')
+
         self.MGROUP_TO_TPL_MAP: Dict[int, Template|MatchResolver] = {  # @FIXME map templates to regexps
             0: self._template_registry.UTF_8_SEQ,                      #        and build F_SEPARATOR automatically?
             1: self._template_registry.BINARY_DATA,
@@ -82,11 +88,16 @@ class Parser:
         }
 
         self._offset = 0
+        self._carried_len = 0
         self._debug_buffer = ConsoleDebugBuffer('parser', Seqs.CYAN)
 
     def parse(self, offset: int):
         raw = self._parser_buffer.get_raw()
-        self._offset = offset
+        self._offset = offset - self._carried_len
+        carried = b''
+        if not self._parser_buffer.closed and (tail := self.INCOMPLETE_TAIL_REGEX.search(raw)):
+            raw, carried = raw[:tail.start()], tail.group()
+        self._carried_len = len(carried)
         self._debug_buffer.write(1, f'Parsing segment: {Console.printd(raw)}')
 
         unmatched = apply_filters(raw, self.F_SEPARATOR)
@@ -95,7 +106,7 @@ class Parser:
         except AssertionError as e:
             raise RuntimeError(f'Parsing inconsistency at 0x{self._offset:x}/{self._offset:d}') from e
 
-        self._parser_buffer.crop_raw(unmatched)
+        self._parser_buffer.crop_raw(carried)
 
     def _substitute(self, m: Match) -> bytes:
         mgroups = {idx: grp for idx, grp in enumerate(m.groups()) if grp}
-- 
2.43.0


From 61a79cc2f997145f6df3e4ab74a7a451edb79e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:52 +0000
Subject: [PATCH 10/36] fix: auto float result is longer than required if
 rounding adds a digit to the integer part

---
 pytermor/util/auto_float.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pytermor/util/auto_float.py b/pytermor/util/auto_float.py
index 11c994f..3da5ad5 100644
--- a/pytermor/util/auto_float.py
+++ b/pytermor/util/auto_float.py
@@ -155,4 +155,10 @@ def format_auto_float(value: float, req_len: int, allow_exponent_notation: bool
     # this by itself: f'{12.3:.0f}' => '12'
     dot_str = f'.{decimals_len!s}'
 
-    return f'{sign}{abs_value:{req_len}{dot_str}f}'
+    result = f'{abs_value:{req_len}{dot_str}f}'
+    if len(result) > req_len and decimals_len > 0:
+        # same as above, rounding can increase the length
+        # of integer part, e.g. 9.999 => 10.00
+        result = f'{abs_value:{req_len}.{decimals_len - 1}f}'
+
+    return f'{sign}{result}'
-- 
2.43.0


From 4320c3f42d400248fbe32503a25548441e58f4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:52 +0000
Subject: [PATCH 11/36] fix: NOOP_COLOR_INDEXED is rendered into an empty
 sequence as documented

---
 pytermor/color.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytermor/color.py b/pytermor/color.py
index 1f919b8..bf87219 100644
--- a/pytermor/color.py
+++ b/pytermor/color.py
@@ -147,6 +147,8 @@ class ColorIndexed16(_ColorIndexed):
         super().__init__(hex_value)
         
     def to_sgr(self, bg: bool = False) -> SequenceSGR:
+        if self._hex_value is None:
+            return NOOP_SEQ
         if bg:
             return SequenceSGR(self._code_bg)
         return SequenceSGR(self._code_fg)
-- 
2.43.0


From 5c17ae0c58eed726912dcf78f5e64923032a9be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:52 +0000
Subject: [PATCH 12/36] fix: do not drop falsy values (e.g. 0) passed to Text

---
 pytermor/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytermor/render.py b/pytermor/render.py
index d514dd0..d674b67 100644
--- a/pytermor/render.py
+++ b/pytermor/render.py
@@ -162,7 +162,7 @@ class Text(Renderable):
 
     class _TextRun(Renderable):
         def __init__(self, string: Any = None, style: Style|str = None):
-            self._string: str = str(string) if string else ''
+            self._string: str = str(string) if string is not None else ''
             if isinstance(style, str):
                 style = Style(fg=style)
             self._style: Style|None = style
-- 
2.43.0


From 70083a95c30c5eafcbb8bf294e227cccf370bee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:49 +0000
Subject: [PATCH 13/36] fix: do not build debug previews of the whole buffer
 for every row when debug mode is off

---
 kolombos/console.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kolombos/console.py b/kolombos/console.py
index 15a0b0b..9d41ca4 100644
--- a/kolombos/console.py
+++ b/kolombos/console.py
@@ -278,6 +278,8 @@ class Console:
             max_input_len = sys.maxsize
 
         if hasattr(v, 'preview'):
+            if SettingsManager.app_settings.debug <= 0:
+                return ''  # will not be printed anyway, and building it requires to iterate over the whole buffer
             v = v.preview(max_input_len)
 
         if isinstance(v, (bytes, List)):
-- 
2.43.0


From 32e505d8628d78c7474698a90bf7e4733e09e3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:24 +0000
Subject: [PATCH 14/36] fix: do not discard sequences passed to
 Span.init_explicit()

---
 pytermor/ansi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytermor/ansi.py b/pytermor/ansi.py
index 416e543..f281f05 100644
--- a/pytermor/ansi.py
+++ b/pytermor/ansi.py
@@ -348,7 +348,7 @@ class Span:
 
     @classmethod
     def _opt_arg(self, arg: SequenceSGR | None) -> SequenceSGR:
-        if not arg:
+        if arg is None:  # sequences have zero length and are always falsy
             return NOOP_SEQ
         return arg
 
-- 
2.43.0


From 8d60b9f5f22a43ef894a0ecce00c8926e90b4a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:16 +0000
Subject: [PATCH 15/36] fix: choose SI prefix for fractional values so that
 significant digits are not lost

---
 pytermor/util/prefixed_unit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytermor/util/prefixed_unit.py b/pytermor/util/prefixed_unit.py
index 553e688..a1c1b0c 100644
--- a/pytermor/util/prefixed_unit.py
+++ b/pytermor/util/prefixed_unit.py
@@ -112,13 +112,14 @@ class PrefixedUnitFormatter:
         :return:       Formatted value
         """
         unit_idx = self._prefix_zero_idx
+        # there is no point in prefixes less than base one if fraction is not displayed
+        min_value = 1 / self._mcoef if self._truncate_frac else 1.0
 
         while 0 <= unit_idx < len(self._prefixes):
-            if 0.0 < abs(value) <= 1 / self._mcoef:
+            if 0.0 < abs(value) < min_value:
                 value *= self._mcoef
                 unit_idx -= 1
-                if abs(value) <= 1:
-                    continue
+                continue
             elif abs(value) >= self._mcoef:
                 value /= self._mcoef
                 unit_idx += 1
-- 
2.43.0


From a9303c2acd0902c78ccbabb9fe415cd8b1613cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:19 +0000
Subject: [PATCH 16/36] fix: keep the minus sign of right-justified numbers
 next to the digits

---
 pytermor/util/auto_float.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytermor/util/auto_float.py b/pytermor/util/auto_float.py
index 3da5ad5..1660e1f 100644
--- a/pytermor/util/auto_float.py
+++ b/pytermor/util/auto_float.py
@@ -132,7 +132,7 @@ def format_auto_float(value: float, req_len: int, allow_exponent_notation: bool
         except ValueError:
             return f'{sign}e{exponent}'.rjust(req_len)
 
-        return f'{sign}{significand_str}e{exponent}'
+        return f'{sign}{significand_str.lstrip()}e{exponent}'.rjust(req_len + len(sign))
 
     integer_len = max(1, exponent + 1)
     if integer_len == req_len:
@@ -161,4 +161,5 @@ def format_auto_float(value: float, req_len: int, allow_exponent_notation: bool
         # of integer part, e.g. 9.999 => 10.00
         result = f'{abs_value:{req_len}.{decimals_len - 1}f}'
 
-    return f'{sign}{result}'
+    # sign should stay right before the number, i.e. after the padding (if any)
+    return f'{sign}{result.lstrip()}'.rjust(req_len + len(sign))
-- 
2.43.0


From dd9ad250135b2b24442bdc6927a68587800a2e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:24 +0000
Subject: [PATCH 17/36] fix: do not divide by zero when formatting the smallest
 floats in exponent form

---
 pytermor/util/auto_float.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytermor/util/auto_float.py b/pytermor/util/auto_float.py
index 1660e1f..2235c51 100644
--- a/pytermor/util/auto_float.py
+++ b/pytermor/util/auto_float.py
@@ -8,6 +8,7 @@
     from pytermor.util.auto_float import format_auto_float
 
 """
+from decimal import Decimal
 from math import trunc, log10, floor
 
 
@@ -121,7 +122,8 @@ def format_auto_float(value: float, req_len: int, allow_exponent_notation: bool
             # there is no place even for exponent
             return _OVERFLOW_CHAR * (len(sign) + req_len)
 
-        significand = abs_value/pow(10, exponent)
+        # pow(10, exponent) is equal to zero for the smallest (subnormal) values
+        significand = float(Decimal(abs_value).scaleb(-exponent))
         max_significand_len = req_len - exponent_len
         try:
             # max_significand_len can be 0, in that case significand_str will be empty; that
-- 
2.43.0


From 44da5770ffb52249bc1f18392e32192221e872ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:41 +0000
Subject: [PATCH 18/36] fix: do not select text mode for the demo when settings
 are printed in debug mode

---
 kolombos/settings.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/kolombos/settings.py b/kolombos/settings.py
index 811f107..48ff624 100644
--- a/kolombos/settings.py
+++ b/kolombos/settings.py
@@ -58,8 +58,6 @@ class Settings(Namespace):
             return ReadMode.TEXT
         # auto
 
-        self.text = self._default_read_mode.is_text
-        self.binary = self._default_read_mode.is_binary
         return self._default_read_mode
 
     def set_default_read_mode(self, val: ReadMode):
@@ -81,7 +79,7 @@ class Settings(Namespace):
 
     @property
     def effective_marker_details(self) -> MarkerDetailsEnum:
-        if self.binary:
+        if self.read_mode.is_binary:
             return MarkerDetailsEnum.BINARY_STRICT
 
         if self.marker <= 0:
-- 
2.43.0


From ec95078e31604bbbac65a06bd410980b0be73c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:12 +0000
Subject: [PATCH 19/36] fix: escape control characters and invalid UTF-8 of
 file names in debug messages

---
 kolombos/byteio/reader.py | 2 +-
 kolombos/console.py       | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/kolombos/byteio/reader.py b/kolombos/byteio/reader.py
index 1d2ad6c..d0b9fc8 100644
--- a/kolombos/byteio/reader.py
+++ b/kolombos/byteio/reader.py
@@ -81,7 +81,7 @@ class Reader(metaclass=abc.ABCMeta):
             self._debug_buffer.write(1, f'Reading from stdin')
         else:
             self._io = open(self._filename, 'rb')
-            self._debug_buffer.write(1, f'Opened file: {Spans.BOLD(self._filename)}')
+            self._debug_buffer.write(1, f'Opened file: {Spans.BOLD(Console.printable(self._filename))}')
 
     def _get_chunk_size(self) -> int:
         if SettingsManager.app_settings.buffer:
diff --git a/kolombos/console.py b/kolombos/console.py
index 9d41ca4..b02897a 100644
--- a/kolombos/console.py
+++ b/kolombos/console.py
@@ -207,7 +207,7 @@ class Console:
         def debug_print(attr, app_value, default_value):
             if app_value != default_value:
                 fmt_attr_seq = fmt_header.opening_seq
-                values = Spans.GREEN(f'{app_value!s}') + ' ' + Spans.GRAY(f'[{default_value!s}]')
+                values = Spans.GREEN(Console.printable(app_value)) + ' ' + Spans.GRAY(f'[{default_value!s}]')
             else:
                 fmt_attr_seq = Seqs.BG_BLACK
                 values = Spans.YELLOW(f'{default_value!s}')
@@ -268,6 +268,11 @@ class Console:
     def format_total_size(offset: int) -> str:
         return Console.format_prefix_with_offset(offset, Spans.CYAN)
 
+    @staticmethod
+    def printable(v: Any) -> str:
+        # e.g. file names can contain control characters or not be valid UTF-8
+        return ''.join(c if c.isprintable() else ascii(c)[1:-1] for c in f'{v!s}')
+
     @staticmethod
     def print(s: str, end='\n', **kwargs):
         print(s, end=end, **kwargs)
-- 
2.43.0


From 7a73e699adecec61983b441c92cf79f217d26649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:15 +0000
Subject: [PATCH 20/36] fix: do not carry from one color channel to another in
 brief marker details

---
 kolombos/byteio/template/template_escape_sgr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/byteio/template/template_escape_sgr.py b/kolombos/byteio/template/template_escape_sgr.py
index dfcf912..f5874a2 100644
--- a/kolombos/byteio/template/template_escape_sgr.py
+++ b/kolombos/byteio/template/template_escape_sgr.py
@@ -52,7 +52,7 @@ class EscapeSequenceSGRTemplate(EscapeSequenceTemplate):
                     pcodes_allowed.extend([pcode, *[pcodes.pop(0) for _ in range(4)]])
                     brief_names.append(
                         f'{brief_type}'
-                        f'{pcodes_allowed[-3] * 256 * 256 + pcodes_allowed[-2] * 256 + pcodes_allowed[-1]:06X}'
+                        f'{pcodes_allowed[-3]:02X}{pcodes_allowed[-2]:02X}{pcodes_allowed[-1]:02X}'
                     )
                     continue
             elif pcode in self.ALLOWED_SGRS_FOR_MARKER_FORMAT:
-- 
2.43.0


From 9f9333dcc4f460f0031ff58d5e729d75fab7295b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:10 +0000
Subject: [PATCH 21/36] fix: keep the unit override of values out of the range
 of prefixes

---
 pytermor/util/prefixed_unit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytermor/util/prefixed_unit.py b/pytermor/util/prefixed_unit.py
index a1c1b0c..a4ddcfc 100644
--- a/pytermor/util/prefixed_unit.py
+++ b/pytermor/util/prefixed_unit.py
@@ -141,7 +141,7 @@ class PrefixedUnitFormatter:
         num_str = format_auto_float(value,
                                     self._max_value_len,
                                     allow_exponent_notation=False)
-        unit_full = ('?' * max([len(p) for p in self._prefixes if p])) + self._unit
+        unit_full = ('?' * max([len(p) for p in self._prefixes if p])) + (unit or self._unit)
         return f'{num_str.strip()}{self._unit_separator}{unit_full.strip()}'
 
 
-- 
2.43.0


From 43dd6a5ba59f3f39553569eace1be722c8ca5860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:59 +0000
Subject: [PATCH 22/36] fix: end without a traceback when the output cannot be
 written

---
 kolombos/app.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/kolombos/app.py b/kolombos/app.py
index 8b40860..fccb81b 100644
--- a/kolombos/app.py
+++ b/kolombos/app.py
@@ -4,6 +4,9 @@
 # -----------------------------------------------------------------------------
 from __future__ import annotations
 
+import os
+import sys
+
 from . import AppArgumentParser
 from .console import Console
 from .runner import RunnerFactory
@@ -13,19 +16,28 @@ from .settings import SettingsManager
 # noinspection PyMethodMayBeStatic
 class App:
     def run(self):
+        try:
+            code = self._run()
+            print(flush=True)
+        except OSError as e:  # the output cannot be written
+            if not isinstance(e, BrokenPipeError):
+                Console.error(f'{e.__class__.__name__}: {e!s}')
+            os.dup2(os.open(os.devnull, os.O_WRONLY), sys.stdout.fileno())  # there is nothing to do with the rest of it
+            code = 1
+        exit(code)
+
+    def _run(self) -> int:
         try:
             self._parse_args()  # help processing is handled by argparse
             (RunnerFactory.create()).run()
+        except BrokenPipeError:
+            raise
         except Exception as e:
             Console.on_exception(e)
-            self._exit(1)
-        self._exit(0)
+            return 1
+        return 0
 
     def _parse_args(self):
         SettingsManager.init()
         AppArgumentParser().parse_args(namespace=SettingsManager.app_settings)
         Console.debug_settings()
-
-    def _exit(self, code: int):
-        print()
-        exit(code)
-- 
2.43.0


From 3ede7d4c9762a0b7ef60c69df2941d01f29ed29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:30 +0000
Subject: [PATCH 23/36] fix: order of a number just below a power of ten is not
 rounded up (-999.9999999999999 was refused)

---
 pytermor/util/auto_float.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytermor/util/auto_float.py b/pytermor/util/auto_float.py
index 2235c51..9e0f9a9 100644
--- a/pytermor/util/auto_float.py
+++ b/pytermor/util/auto_float.py
@@ -9,7 +9,7 @@
 
 """
 from decimal import Decimal
-from math import trunc, log10, floor
+from math import trunc
 
 
 _OVERFLOW_CHAR = '!'
@@ -75,7 +75,8 @@ def format_auto_float(value: float, req_len: int, allow_exponent_notation: bool
     if value == 0.0:
         return f'{sign}{0:{req_len}.0f}'
 
-    exponent = floor(log10(abs_value))
+    # logarithm is rounded (and is 3 for 999.9999999999999)
+    exponent = Decimal(str(abs_value)).adjusted()
     exp_threshold_left = -2
     exp_threshold_right = req_len - 1
 
@@ -123,7 +124,7 @@ def format_auto_float(value: float, req_len: int, allow_exponent_notation: bool
             return _OVERFLOW_CHAR * (len(sign) + req_len)
 
         # pow(10, exponent) is equal to zero for the smallest (subnormal) values
-        significand = float(Decimal(abs_value).scaleb(-exponent))
+        significand = float(Decimal(str(abs_value)).scaleb(-exponent))
         max_significand_len = req_len - exponent_len
         try:
             # max_significand_len can be 0, in that case significand_str will be empty; that
-- 
2.43.0


From c3f1d08b0a29dc6e58140d5fd99087c5c99bbb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:05 +0000
Subject: [PATCH 24/36] fix: formatting of a text does not change it (and the
 texts it was added to)

---
 pytermor/render.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytermor/render.py b/pytermor/render.py
index d674b67..1d4b995 100644
--- a/pytermor/render.py
+++ b/pytermor/render.py
@@ -179,8 +179,8 @@ class Text(Renderable):
             return len(self._string)
 
         def __format__(self, *args, **kwargs) -> str:
-            self._string = self._string.__format__(*args, **kwargs)
-            return self.render()
+            # the run can be a part of other texts as well, and should stay as is
+            return type(self)(self._string.__format__(*args, **kwargs), self._style).render()
 
 
 @dataclass
-- 
2.43.0


From 39c1fd1e4d54121b405d647b209954d3345b9b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:05 +0000
Subject: [PATCH 25/36] fix: distribution of values does not change the list it
 is given

---
 pytermor/render.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytermor/render.py b/pytermor/render.py
index 1d4b995..d9f4f50 100644
--- a/pytermor/render.py
+++ b/pytermor/render.py
@@ -755,6 +755,7 @@ class Styles(Registry[Style]):
 
 def distribute_padded(values: List, max_len: int, pad_before: bool = False,
                       pad_after: bool = False, ) -> str:
+    values = [*values]  # list of the caller stays as is
     if pad_before:
         values.insert(0, '')
     if pad_after:
-- 
2.43.0


From 1f9c01f70c9a5c59168127a8f044ce6ef74690e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:05 +0000
Subject: [PATCH 26/36] fix: styles with different attributes are not equal

---
 pytermor/render.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pytermor/render.py b/pytermor/render.py
index d9f4f50..c2630b2 100644
--- a/pytermor/render.py
+++ b/pytermor/render.py
@@ -312,6 +312,11 @@ class Style:
             if getattr(self, attr) is None and inherit_val is not None:
                 setattr(self, attr, inherit_val)
 
+    def __eq__(self, other) -> bool:
+        if not isinstance(other, self.__class__):
+            return False
+        return self.__dict__ == other.__dict__
+
     def __repr__(self):
         if self._fg is None or self._bg is None:
             return self.__class__.__name__ + '[uninitialized]'
-- 
2.43.0


From 068e89f71dc5c225a4a5dcc9dc9a731cea273f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:02 +0000
Subject: [PATCH 27/36] fix: HTML output is the same in every run

---
 pytermor/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytermor/render.py b/pytermor/render.py
index c2630b2..284c5c9 100644
--- a/pytermor/render.py
+++ b/pytermor/render.py
@@ -705,7 +705,7 @@ class HtmlRenderer(IRenderer):
             span_styles['text-decoration'].add('underline')
 
         span_class_str = '' if style.class_name is None else f' class="{style.class_name}"'
-        span_style_str = '; '.join(f"{k}: {' '.join(v)}"
+        span_style_str = '; '.join(f"{k}: {' '.join(sorted(v))}"
                                    for k, v in span_styles.items()
                                    if len(v) > 0)
         return f'<span{span_class_str} style="{span_style_str}">'+str(text)+'</span>'  # @TODO  # attribues
-- 
2.43.0


From 40615d05ebea912e40aeb84bf49d7ab42f3894ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:59 +0000
Subject: [PATCH 28/36] fix: CSI filter finds sequences with intermediate
 characters and all the final ones

---
 pytermor/util/string_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytermor/util/string_filter.py b/pytermor/util/string_filter.py
index 7723a1b..fd26538 100644
--- a/pytermor/util/string_filter.py
+++ b/pytermor/util/string_filter.py
@@ -108,7 +108,7 @@ class ReplaceCSI(StringFilter[str]):
         Replacement, can contain regexp groups (see :meth:`apply_filters()`).
     """
     def __init__(self, repl: AnyStr = ''):
-        super().__init__(r'(\x1b)(\[)(([0-9;:<=>?])*)([@A-Za-z])', repl)
+        super().__init__(r'(\x1b)(\[)(([0-9;:<=>?])*)([ -/]*[@-~])', repl)
 
 
 class ReplaceNonAsciiBytes(StringFilter[bytes]):
-- 
2.43.0


From 67ca1f84c70959eb147b638a984ce5cc021d6684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:42 +0000
Subject: [PATCH 29/36] fix: parameters of escape sequences are not lost in the
 raw data in text mode without marker details

---
 kolombos/byteio/template/template_escape.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kolombos/byteio/template/template_escape.py b/kolombos/byteio/template/template_escape.py
index 0c86af0..d78a91e 100644
--- a/kolombos/byteio/template/template_escape.py
+++ b/kolombos/byteio/template/template_escape.py
@@ -10,6 +10,7 @@ from pytermor import SequenceSGR, Seqs, NOOP_SEQ
 
 from . import Template
 from .. import CharClass, MarkerDetailsEnum, OpeningSeqPOV, LabelPOV, ReadMode
+from ..const import TYPE_LABEL_DETAILS
 from ..segment import Segment
 from ...settings import SettingsManager
 
@@ -48,6 +49,8 @@ class EscapeSequenceTemplate(Template):
 
     def _fill_additional_segments(self, params_raw: bytes):
         if self._marker_details is MarkerDetailsEnum.NO_DETAILS:
+            # not displayed, but keeps the raw data (and therefore offsets) complete
+            self._substituted.append(Segment(NOOP_SEQ, TYPE_LABEL_DETAILS, params_raw, ''))
             return
 
         params_processed = params_raw.decode('ascii', errors='ignore')
-- 
2.43.0


From bc02fa1e714b1e6563abb072a4dd00b4ff5691c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:14 +0000
Subject: [PATCH 30/36] fix: waiting for a key returns it whatever the terminal
 settings are

---
 pytermor/common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytermor/common.py b/pytermor/common.py
index 8bfe6a2..1e35757 100644
--- a/pytermor/common.py
+++ b/pytermor/common.py
@@ -57,6 +57,7 @@ def wait_key() -> AnyStr|None:
     oldterm = termios.tcgetattr(fd)
     newattr = termios.tcgetattr(fd)
     newattr[3] = newattr[3] & ~termios.ICANON & ~termios.ECHO
+    newattr[6][termios.VMIN], newattr[6][termios.VTIME] = 1, 0  # one character is enough, no time limit
     termios.tcsetattr(fd, termios.TCSANOW, newattr)
 
     result = None
-- 
2.43.0


From af5e22c92b62cade4ec13a22f88a8bf3fc08846c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:08 +0000
Subject: [PATCH 31/36] fix: keep colons at line ends of the help text, they
 are removed from headers only

---
 kolombos/arghelp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/arghelp.py b/kolombos/arghelp.py
index e9984fe..5a0f2d5 100644
--- a/kolombos/arghelp.py
+++ b/kolombos/arghelp.py
@@ -92,7 +92,7 @@ class CustomArgumentParser(ArgumentParser):
 
         result = super().format_help() + ending_formatted
         # remove ':' from headers ('<_b>header:<_f>'):
-        result = re.sub(r'(\033\[[0-9;]*m)?\s*:\s*(\n|\033|$)', r'\1\2', result)
+        result = re.sub(r'(\033\[[0-9;]*m):\s*(\n|\033|$)', r'\1\2', result)
         return result
 
 
-- 
2.43.0


From 909c3fd27e27cb47eb3accfeccab5f40f3b6ef43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:15 +0000
Subject: [PATCH 32/36] fix: do not break control sequences when wrapping the
 help text

---
 kolombos/arghelp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kolombos/arghelp.py b/kolombos/arghelp.py
index 5a0f2d5..085fa98 100644
--- a/kolombos/arghelp.py
+++ b/kolombos/arghelp.py
@@ -66,6 +66,10 @@ class CustomHelpFormatter(HelpFormatter):
     def _format_text(self, text: str) -> str:
         return super()._format_text(text).rstrip('\n') + '\n'
 
+    def _split_lines(self, text, width):
+        # breaking a long word could also break a control sequence in it
+        return textwrap.wrap(' '.join(text.split()), width, break_long_words=False)
+
     def _fill_text(self, text, width, indent):
         return ''.join(indent + line for line in text.splitlines(keepends=True))
 
-- 
2.43.0


From af1272f3b7864b0ff37bfb69c7ddc0b75907677c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:05 +0000
Subject: [PATCH 33/36] fix: wait for more data instead of failing when the
 input is non-blocking

---
 kolombos/byteio/reader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/kolombos/byteio/reader.py b/kolombos/byteio/reader.py
index d0b9fc8..d26db25 100644
--- a/kolombos/byteio/reader.py
+++ b/kolombos/byteio/reader.py
@@ -7,6 +7,7 @@ from __future__ import annotations
 import abc
 import re
 import sys
+from select import select
 from typing import Callable, IO
 
 from pytermor import Spans, Seqs
@@ -40,7 +41,7 @@ class Reader(metaclass=abc.ABCMeta):
         lines = 0
         chunks = 0
         try:
-            while raw_input := self._io.read(self._chunk_size):
+            while raw_input := self._read_chunk():
                 self._debug_buffer.write(1, f'Read chunk #{chunks}: {Console.printd(raw_input, 5)}', offset=self._offset)
                 self._debug_buffer.write(3, f'Current position: {Spans.BOLD(self._io.tell() if not self.reading_stdin and self._io.seekable() else "n/a")}', offset=self._offset)
                 chunks += 1
@@ -75,6 +76,11 @@ class Reader(metaclass=abc.ABCMeta):
         finally:
             self.close()
 
+    def _read_chunk(self) -> bytes:
+        while (chunk := self._io.read(self._chunk_size)) is None:  # non-blocking input, there is no data yet
+            select([self._io], [], [])
+        return chunk
+
     def _open(self):
         if self.reading_stdin:
             self._io = sys.stdin.buffer
-- 
2.43.0


From 8a4e6847cb29451b79613a82854e3d22bb36e6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:08 +0000
Subject: [PATCH 34/36] fix: do not depend on the site module when exiting

---
 kolombos/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/app.py b/kolombos/app.py
index fccb81b..b428e74 100644
--- a/kolombos/app.py
+++ b/kolombos/app.py
@@ -24,7 +24,7 @@ class App:
                 Console.error(f'{e.__class__.__name__}: {e!s}')
             os.dup2(os.open(os.devnull, os.O_WRONLY), sys.stdout.fileno())  # there is nothing to do with the rest of it
             code = 1
-        exit(code)
+        sys.exit(code)
 
     def _run(self) -> int:
         try:
-- 
2.43.0


From 9f29ae5cbd1ba9455c94e038c48dd9663607491e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:24 +0000
Subject: [PATCH 35/36] fix: quadratic time on long lines and large read
 buffers

---
 kolombos/byteio/segment/buffer.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/kolombos/byteio/segment/buffer.py b/kolombos/byteio/segment/buffer.py
index 94469f1..5e3c2a8 100644
--- a/kolombos/byteio/segment/buffer.py
+++ b/kolombos/byteio/segment/buffer.py
@@ -22,12 +22,14 @@ class SegmentBuffer:
         self._segment_chain: Deque[Chainable] = Deque[Chainable]()
         self._active_sgrs: List[SequenceSGR] = []
         self._last_detached_data_len = 0
+        self._data_len = 0  # counted here, because iterating over the whole chain for each row takes too long
+        self._newlines = 0
 
         self._debug_buffer = ConsoleDebugBuffer('chainbuf')
 
     @property
     def data_len(self) -> int:
-        return sum([el.data_len for el in self._segment_chain])
+        return self._data_len
 
     @property
     def last_detached_data_len(self) -> int:
@@ -35,6 +37,7 @@ class SegmentBuffer:
 
     def attach(self, *segments: Segment):
         for segment in segments:
+            self._count(segment)
             f = Span(segment.opening_seq)
             if len(f.opening_seq.params) == 0 or set(f.opening_seq.params) == {0}:
                 self._segment_chain.append(segment)
@@ -64,11 +67,13 @@ class SegmentBuffer:
     def detach_line(self, force: bool, printers: List[SegmentPrinter, ...]) -> Tuple[str, ...]:
         avail_bytes = 0
         has_newline = False
-        for el in self._segment_chain:
+        for el in self._segment_chain if self._newlines else ():
             avail_bytes += el.data_len
             if el.is_newline:
                 has_newline = True
                 break
+        if not has_newline:
+            avail_bytes = self._data_len
 
         if avail_bytes == 0:
             self._debug_buffer.write(1, 'Responsing with EOF')
@@ -109,6 +114,10 @@ class SegmentBuffer:
 
         return result
 
+    def _count(self, segment: Segment, coef: int = 1):
+        self._data_len += coef * segment.data_len
+        self._newlines += coef * segment.is_newline
+
     def _detach(self, req_bytes: int) -> List[Chainable]:
         self._debug_buffer.write(2, f'Buffer state: {Console.printd(self)}')
 
@@ -128,10 +137,13 @@ class SegmentBuffer:
                     output.append(cur_element)
                     req_bytes -= cur_element.data_len
                     self._segment_chain.popleft()
+                    self._count(cur_element, -1)
                     continue
 
                 else:
+                    self._count(cur_element, -1)
                     cur_element_left = cur_element.split(req_bytes)
+                    self._count(cur_element)
                     output.append(cur_element_left)
                     break
 
-- 
2.43.0


From 4d42e5ee8328be729aa0f7a566dbb19cf21bc92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:08 +0000
Subject: [PATCH 36/36] fix: SyntaxWarning each time auto_float.py is compiled

---
 pytermor/util/auto_float.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytermor/util/auto_float.py b/pytermor/util/auto_float.py
index 9e0f9a9..8f1c61c 100644
--- a/pytermor/util/auto_float.py
+++ b/pytermor/util/auto_float.py
@@ -16,7 +16,7 @@ _OVERFLOW_CHAR = '!'
 
 
 def format_auto_float(value: float, req_len: int, allow_exponent_notation: bool = True) -> str:
-    """
+    r"""
     Dynamically adjust decimal digit amount and format
     to fill up the output string with as many significant
     digits as possible, and keep the output length
-- 
2.43.0

