From 5b71717a6014ddb9f117bba3dd0ac3f0b079f423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:00 +0000
Subject: [PATCH 01/55] fix: do not crash on a hard line break that ends the
 document

A paragraph whose continuation line ends with two spaces and is the last line
of the (sub)document made the detector advance an exhausted generator, so
formatting died with StopIteration.
---
 markflow/detectors/paragraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/detectors/paragraph.py b/markflow/detectors/paragraph.py
index 4abf9f9..0670aad 100644
--- a/markflow/detectors/paragraph.py
+++ b/markflow/detectors/paragraph.py
@@ -106,7 +106,7 @@ def split_paragraph_ignoring_setext(
                 # ToDo: This should be handled in `wrap` as a double space is always a
                 #  newline in any section type.
                 if tail[0].endswith("  "):
-                    remaining_lines = next(tail_lines_generator)
+                    remaining_lines = next(tail_lines_generator, [])
                     break
             else:
                 remaining_lines = tail
-- 
2.43.0


From 773268d57ffd8f229550c44a6babf93e7da1df87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 02/55] fix: accept a link reference definition that ends the
 document

With the URL alone on the second line and nothing after it, formatting died
with StopIteration; with label and URL on the very last line, the definition
was taken for a paragraph (and could be wrapped into the crashing form).
---
 markflow/detectors/link_reference_definition.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/markflow/detectors/link_reference_definition.py b/markflow/detectors/link_reference_definition.py
index 3bb2ec0..4711a1b 100644
--- a/markflow/detectors/link_reference_definition.py
+++ b/markflow/detectors/link_reference_definition.py
@@ -88,6 +88,7 @@ def split_link_reference_definition(
             index, line = next(indexed_line_generator)
             title_text = line
         except StopIteration:
+            index += 1
             title_text = ""
         is_complete = True
     else:
@@ -110,9 +111,13 @@ def split_link_reference_definition(
             return link_reference_definition, remaining_lines
         elif len(line.split(maxsplit=1)) == 1:
             # Only the URL is on the second line
-            index, line = next(indexed_line_generator)
+            try:
+                index, line = next(indexed_line_generator)
+                title_text = line
+            except StopIteration:
+                index += 1
+                title_text = ""
             is_complete = True
-            title_text = line
         else:
             # The URL and possible title (or part of it) are on the second line
             title_text = line.split(maxsplit=1)[1]
-- 
2.43.0


From 8202963e97d5f6c1f7887fc8d5748e69fc4a764b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:04 +0000
Subject: [PATCH 03/55] fix: do not swallow text after a link reference
 definition as its title

When the line after "[label]: url" starts with a quotation mark that is never
closed (or is not closed at the end of a line), the search for the closing mark
still moved the end of the definition, so everything up to that point (blank
lines, headings, ...) was merged into the title.
---
 markflow/detectors/link_reference_definition.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/markflow/detectors/link_reference_definition.py b/markflow/detectors/link_reference_definition.py
index 4711a1b..dc4279a 100644
--- a/markflow/detectors/link_reference_definition.py
+++ b/markflow/detectors/link_reference_definition.py
@@ -129,14 +129,17 @@ def split_link_reference_definition(
 
     if quotation_character in QUOTATION_CHARACTERS:
         closing_regex = re.compile(r"(?<!\\)(\\\\)*{}".format(quotation_character))
-        for index, line in itertools.chain(
+        for title_index, line in itertools.chain(
             [(index, title_text[1:])], indexed_line_generator
         ):
+            if title_index > index and not line.strip():
+                # Titles cannot contain blank lines
+                break
             match = closing_regex.search(line.rstrip())
             if match:
                 if match.end() == len(line.rstrip()):
                     is_complete = True
-                    index += 1
+                    index = title_index + 1
                 break
 
     if is_complete:
-- 
2.43.0


From 6da5e634fa1d87d2c989512b2234e0c9264edbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:06 +0000
Subject: [PATCH 04/55] fix: keep label and URL when a definition title moves
 to the next line

The README promises the title is moved to the next line; the label and the URL
were dropped from the output instead.
---
 markflow/formatters/link_reference_definition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/formatters/link_reference_definition.py b/markflow/formatters/link_reference_definition.py
index c3248b2..2281005 100644
--- a/markflow/formatters/link_reference_definition.py
+++ b/markflow/formatters/link_reference_definition.py
@@ -105,7 +105,7 @@ class MarkdownLinkReferenceDefinition(MarkdownSection):
                 lines = str_.splitlines()
                 str_ = "\n".join(lines[:-1] + [wrap(lines[-1] + " " + title, width)])
             else:
-                str_ = "\n" + wrap(title, width)
+                str_ += "\n" + wrap(title, width)
         else:
             str_ += "\n" + wrap(title, width)
 
-- 
2.43.0


From c0406924d73a03fdbe33afd7ee25c45626e76b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 05/55] fix: keep the last line of an unclosed fenced code
 block

A code block without a closing fence runs to the end of its container. Its last
line was replaced by the closing fence we add; with no content at all,
formatting died with IndexError.
---
 markflow/formatters/fenced_code_block.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/markflow/formatters/fenced_code_block.py b/markflow/formatters/fenced_code_block.py
index a975e48..f77bdbc 100644
--- a/markflow/formatters/fenced_code_block.py
+++ b/markflow/formatters/fenced_code_block.py
@@ -56,7 +56,7 @@ class MarkdownFencedCodeBlock(MarkdownSection):
 
     @property
     def first_line(self) -> Optional[str]:
-        if len(self.lines) == 2:
+        if len(self.lines) <= 2:
             return None
         else:
             return self.lines[1].strip()
@@ -70,7 +70,11 @@ class MarkdownFencedCodeBlock(MarkdownSection):
 
     def reformatted(self, width: Number = 88) -> str:
         fence = self.fence_char * self.fence_count
-        new_lines = [fence + self.language] + self.lines[1:-1] + [fence]
+        content = self.lines[1:]
+        # A block that runs to the end of its container has no closing fence.
+        if content and content[-1].strip() == fence:
+            content = content[:-1]
+        new_lines = [fence + self.language] + content + [fence]
         return "\n".join([line.rstrip() for line in new_lines])
 
     def __repr__(self) -> str:
-- 
2.43.0


From bd3d9208cd15174ef66b7964b7efec21a6e99c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:28 +0000
Subject: [PATCH 06/55] fix: do not take inline code at the start of a line for
 a code fence

"```code``` text" is inline code: CommonMark does not allow backticks in the
info string of a backtick fence. It was taken for the opening fence of a block
running to the end of the document, and a closing fence was added there.
---
 markflow/detectors/_lines.py            | 4 +++-
 markflow/detectors/fenced_code_block.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index f9bbae0..e8ac3e2 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -102,7 +102,9 @@ def is_fenced_code_block_start_line(line: str) -> bool:
     """
     for fence in FENCED_CODE_BLOCK_FENCE_CHARACTERS:
         if line.strip().startswith(fence * 3):
-            return True
+            # The info string of a backtick fence can't contain backticks. That would be
+            # inline code.
+            return fence != "`" or "`" not in line.strip().lstrip("`")
     return False
 
 
diff --git a/markflow/detectors/fenced_code_block.py b/markflow/detectors/fenced_code_block.py
index 8fa2066..484082d 100644
--- a/markflow/detectors/fenced_code_block.py
+++ b/markflow/detectors/fenced_code_block.py
@@ -22,6 +22,7 @@ import logging
 from typing import List, Tuple
 
 from .._utils import get_indent
+from ._lines import is_fenced_code_block_start_line
 
 logger = logging.getLogger(__name__)
 
@@ -116,7 +117,7 @@ def split_fenced_code_block(
 
     index, line = next(indexed_line_generator)
     for fence in FENCES:
-        if line.strip().startswith(fence * 3):
+        if is_fenced_code_block_start_line(line) and line.strip().startswith(fence):
             count = len(line.lstrip()) - len(line.lstrip().lstrip(fence))
             fence_indent = get_indent(line)
             full_fence = fence * count
-- 
2.43.0


From bf61449d135b8690d176e462785b41342e745bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:58 +0000
Subject: [PATCH 07/55] fix: do not crash on text that starts with a single
 period

"`.gitignore`"-less text such as ".gitignore is ..." made the wrapper attach the
period to a previous word that does not exist (IndexError).
---
 markflow/_utils/textwrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index c4f15e9..0b5b55a 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -89,7 +89,7 @@ def code_split(
     else:
         remaining_text = text[last_end:]
         if (
-            remaining_text
+            split_text
             and remaining_text.startswith(".")
             and not remaining_text.startswith("..")
         ):
@@ -176,7 +176,7 @@ def link_split(
 
     remaining_text = text[last_end:]
     if (
-        remaining_text
+        split_text
         and remaining_text.startswith(".")
         and not remaining_text.startswith("..")
     ):
-- 
2.43.0


From 051c069e3cf26b837aaa9feadfb57677c6ec798c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 08/55] fix: do not lose or repeat text of links that touch or
 nest

"[![a](b)](c)" lost everything after the image, and text matched by both link
patterns, e.g. the "a" in "[x](y)a[z][w]", was written twice.
---
 markflow/_utils/textwrap.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 0b5b55a..b859817 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -137,6 +137,9 @@ def link_split(
     # Each iteration of this for loop operates on non-link text followed by
     # link text.
     for match in matches:
+        if match.start() < last_end:
+            # This is part of the link we just handled
+            continue
         non_link_text = text[last_end : match.start()]
         if non_link_text.strip():
             if (
@@ -162,11 +165,11 @@ def link_split(
 
         leading_spaces.append(False)
         if "](" in match.group():
-            split_link = match.group().split("](")
+            split_link = match.group().split("](", maxsplit=1)
             split_text.append(split_link[0].strip() + "](")
             split_text.append(split_link[1].strip())
         else:
-            split_link = match.group().split("][")
+            split_link = match.group().split("][", maxsplit=1)
             split_text.append(split_link[0].strip() + "][")
             split_text.append(split_link[1].strip())
 
-- 
2.43.0


From ab842ea3fcc62c88a94faf6b4de60a5ef96a3d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:03 +0000
Subject: [PATCH 09/55] fix: keep the space between two links

"[a](b), [c](d)" was joined to "[a](b),[c](d)". Links with text right in front
of them (a[b](c)) are still joined to a preceding link, as
test_utils.py::test_all_splits expects it.
---
 markflow/_utils/textwrap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index b859817..756da1f 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -161,7 +161,9 @@ def link_split(
             if not leading_spaces:
                 leading_spaces.append(leading_space)
             else:
-                leading_spaces.append(False)
+                leading_spaces.append(
+                    match.group().startswith(("[", "![")) and bool(non_link_text)
+                )
 
         leading_spaces.append(False)
         if "](" in match.group():
-- 
2.43.0


From d4b1b345ba24cf32b7493e89fecdfc171e2aa8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:05 +0000
Subject: [PATCH 10/55] fix: do not treat whitespace such as a lone tab as a
 word

"a \t b" became "a  b", which is not stable: formatting such text was refused.
---
 markflow/_utils/textwrap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 756da1f..d5889c0 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -241,9 +241,10 @@ def space_split(
     leading_spaces: List[bool] = []
     evaluates: List[bool] = []
     for word in text.split(" "):
+        word = word.strip()
         if not word:
             continue
-        split_text.append(word.strip())
+        split_text.append(word)
         if not leading_spaces:
             leading_spaces.append(leading_space)
         else:
-- 
2.43.0


From 043398a1e689c42c668067c0cc3b470b85d511a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:07 +0000
Subject: [PATCH 11/55] fix: only wrap lines where that does not change the
 document

A line could be wrapped in the middle of a word (between inline code and the
text attached to it, or at a backtick), which adds a space to the rendered text,
and before words such as "-", "1." or "#12", which then start a list or a
heading.
---
 markflow/_utils/textwrap.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index d5889c0..c03a493 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -6,12 +6,34 @@ from markflow.typing import Number
 INLINE_CODE_MARKER_REGEX = re.compile(r"(((?!<\\)`)+)")
 FOOTNOTE_REGEX = re.compile(r"[^\s\]\)]*\[[^\[]+\]\[[^\]]+\][^\s\[\(]*")
 HTML_NEWLINE_REGEX = re.compile(r"<br ?/?>")
+# Words that would start a different type of section if they were first on a line
+SECTION_START_REGEX = re.compile(
+    r"#|>|\||```|~~~|([-+*]|[0-9]+\.|=+|-+|_+|\*+)$"
+)
 URL_REGEX = re.compile(r"[^\s\]\)]*\[[^\[]+\]\([^\)]+\)[^\s\[\(]*")
 
 
 def join(split_text: List[str], leading_spaces: List[bool], width: Number) -> str:
-    new_split_text = [""]
+    # Put together what has to stay on one line: text that isn't separated by a space
+    # (other than links, which we're allowed to split) and words that would be something
+    # else if they were at the beginning of a line.
+    chunks: List[Tuple[str, bool]] = []
     for word, leading_space in zip(split_text, leading_spaces):
+        is_attached = (
+            bool(chunks)
+            and not leading_space
+            and not chunks[-1][0].endswith(("](", "]["))
+            and not HTML_NEWLINE_REGEX.match(word)
+            and not HTML_NEWLINE_REGEX.match(chunks[-1][0])
+        )
+        if is_attached or (chunks and SECTION_START_REGEX.match(word)):
+            separator = " " if leading_space else ""
+            chunks[-1] = (chunks[-1][0] + separator + word, chunks[-1][1])
+        else:
+            chunks.append((word, leading_space))
+
+    new_split_text = [""]
+    for word, leading_space in chunks:
         if leading_space and new_split_text[-1]:
             potential_new_string = f"{new_split_text[-1]} {word}"
         else:
-- 
2.43.0


From 8573db9674928a2c9506925bf74662fc2f13e20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:29 +0000
Subject: [PATCH 12/55] fix: remove quote markers indented by a tab

Lines whose ">" is indented by other whitespace than spaces are detected as
block quote lines, but the marker was not removed from them, so formatting
recursed until it died with RecursionError.
---
 markflow/detectors/block_quote.py  | 2 +-
 markflow/formatters/block_quote.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/markflow/detectors/block_quote.py b/markflow/detectors/block_quote.py
index c624cbc..8768e52 100644
--- a/markflow/detectors/block_quote.py
+++ b/markflow/detectors/block_quote.py
@@ -15,7 +15,7 @@ from .ordered_list import split_ordered_list
 from .table import split_table
 from .thematic_break import split_thematic_break
 
-LEADING_QUOTE_MARKER = re.compile(r"^ {0,3}>")
+LEADING_QUOTE_MARKER = re.compile(r"^\s{0,3}>")
 
 
 def _is_paragraph_continuation_text(lines: List[str], line_offset: int = 0) -> bool:
diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index f3cc4ff..2d16838 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -11,7 +11,7 @@ __all__ = ["MarkdownBlockQuote"]
 
 REPR_CONTENT_LEN = 20
 NON_ESCAPED_QUOTE_MARKER = re.compile(r"(?<= )>")
-LEADING_QUOTE_MARKER = re.compile(r"^ {0,3}>")
+LEADING_QUOTE_MARKER = re.compile(r"^\s{0,3}>")
 
 logger = logging.getLogger(__name__)
 
-- 
2.43.0


From f32309ca789ac9be58e3fec8cb6c0ea81c9cb242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:32 +0000
Subject: [PATCH 13/55] fix: wrap indented block quotes at the line length

The indentation, which is removed, was added to the available width, so the
first pass wrapped too late and the consistency check refused the document.
---
 markflow/formatters/block_quote.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index 2d16838..75fc340 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -36,8 +36,6 @@ class MarkdownBlockQuote(MarkdownSection):
         self.lines.append(line)
 
     def reformatted(self, width: Number = 88) -> str:
-        indent = len(self.lines[0].lstrip()) - len(self.lines[0])
-
         depth = 0
         fully_quoted_lines = []
         for line in self.lines:
@@ -70,8 +68,8 @@ class MarkdownBlockQuote(MarkdownSection):
                 restripped_lines += [line[1:] if line and line[0] == " " else line]
             stripped_lines = restripped_lines
 
-        sub_width = width - indent - 1
-        prefix = " " * indent + ">"
+        sub_width = width - 1
+        prefix = ">"
         if has_space:
             sub_width -= 1
             prefix += " "
-- 
2.43.0


From 1dbe84f4f3284242500e8423e47c5a1b12dd2d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:34 +0000
Subject: [PATCH 14/55] fix: keep hard line breaks in block quotes

The two spaces ending the line were removed, so its lines would be joined by the
next run and the consistency check refused the document.
---
 markflow/formatters/block_quote.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index 75fc340..bf8d7ec 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -77,7 +77,10 @@ class MarkdownBlockQuote(MarkdownSection):
         # ToDo (jmholla): Issues with leading > in paragraphs will be handled by a later
         #  change.
         text = _reformat_markdown(stripped_lines, width=sub_width)
-        text = "\n".join((prefix + line).strip() for line in text.splitlines())
+        # Trailing spaces in here are hard line breaks, so only the prefix is stripped.
+        text = "\n".join(
+            prefix + line if line else prefix.rstrip() for line in text.splitlines()
+        )
 
         return text
 
-- 
2.43.0


From d42e6d6b506fe738fb78f259b7860a523e330cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:34 +0000
Subject: [PATCH 15/55] fix: never make a thematic break shorter than three
 characters

At widths below three (for instance nested deeply in lists) it turned into text
or, below one, disappeared.
---
 markflow/formatters/thematic_break.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/markflow/formatters/thematic_break.py b/markflow/formatters/thematic_break.py
index 763f373..fab18bb 100644
--- a/markflow/formatters/thematic_break.py
+++ b/markflow/formatters/thematic_break.py
@@ -43,7 +43,8 @@ class MarkdownThematicBreak(MarkdownSection):
                     f"Invalid width {repr(width)} passed. How did you manage this?"
                 )
         else:
-            return self.char * width
+            # Anything shorter wouldn't be a thematic break
+            return self.char * max(width, 3)
 
     def __repr__(self) -> str:
         return f"<{self.__class__.__name__}: char={repr(self.char)}>"
-- 
2.43.0


From 9b44895e90dfde6c9ef62db770f37126b5c25c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:36 +0000
Subject: [PATCH 16/55] fix: do not leave a trailing space after an empty ATX
 heading

---
 markflow/formatters/atx_heading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/formatters/atx_heading.py b/markflow/formatters/atx_heading.py
index 5bce961..196d07f 100644
--- a/markflow/formatters/atx_heading.py
+++ b/markflow/formatters/atx_heading.py
@@ -64,7 +64,7 @@ class MarkdownATXHeading(MarkdownSection):
                 "corrected.",
                 self.line_index + 1,
             )
-        return "#" * self.depth + " " + self.content
+        return ("#" * self.depth + " " + self.content).rstrip()
 
     def __repr__(self) -> str:
         return (
-- 
2.43.0


From dda873984aaaf19034f40aed56cb57fcb1358760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 17/55] fix: do not split lists in the middle of fenced code
 blocks

A blank line (or a line looking like a table or a thematic break) in a code
block ended the list the block is in, and a code block starting right after a
list marker was not noticed at all, so its end was taken for a start and the
following entries became part of the entry. Code was reformatted as text, and
entries were nested that were not before.
---
 markflow/detectors/_lines.py       | 27 ++++++++++++++++++++++++
 markflow/detectors/bullet_list.py  |  5 ++++-
 markflow/detectors/ordered_list.py |  5 ++++-
 markflow/formatters/lists.py       | 34 ++++++++++++------------------
 4 files changed, 49 insertions(+), 22 deletions(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index e8ac3e2..205927c 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -6,6 +6,7 @@ lines. They are stored here so as to avoid any circular imports.
 """
 
 import re
+from typing import List
 
 from .._utils import get_indent
 
@@ -18,6 +19,7 @@ BULLET_LIST_START_REGEX = re.compile(
     r"-"  # Dash list marker
     r"] "  # Lists need a space after their identifier
 )
+LIST_MARKERS_REGEX = re.compile(r"^(\s*([*+-]|[0-9]+\.) )+")
 ORDERED_LIST_START_REGEX = re.compile(
     r"^\s*"  # Leading spaces are OK and often expected
     r"("
@@ -108,6 +110,31 @@ def is_fenced_code_block_start_line(line: str) -> bool:
     return False
 
 
+def get_open_code_fence(line: str, open_fence: str, next_lines: List[str]) -> str:
+    """Evaluates whether a line of a list leaves us in a fenced code block
+
+    Nothing in a fenced code block can end a list or start one of its entries. A fence
+    that is never closed does not count. It ends where its list entry does.
+
+    Args:
+        line: The line to evaluate
+        open_fence: The fence of the code block this line is in. Empty if it's in none.
+        next_lines: The lines following this one
+
+    Returns:
+        The fence of the code block the next line is in. Empty if it's in none.
+    """
+    if open_fence:
+        return "" if line.strip() == open_fence else open_fence
+
+    content = LIST_MARKERS_REGEX.sub("", line).strip()
+    if is_fenced_code_block_start_line(content):
+        fence = content[: len(content) - len(content.lstrip(content[0]))]
+        if any(next_line.strip() == fence for next_line in next_lines):
+            return fence
+    return ""
+
+
 def is_indented_code_block_start_line(line: str) -> bool:
     """Evaluates whether a line could start and indented code block
 
diff --git a/markflow/detectors/bullet_list.py b/markflow/detectors/bullet_list.py
index 5adc533..67ac671 100644
--- a/markflow/detectors/bullet_list.py
+++ b/markflow/detectors/bullet_list.py
@@ -1,6 +1,7 @@
 from typing import List, Tuple
 
 from ._lines import (
+    get_open_code_fence,
     is_blank_line_line,
     is_bullet_list_start_line,
     is_table_start_line,
@@ -20,8 +21,9 @@ def split_bullet_list(
         return bullet_list, remaining_lines
 
     bullet_list.append(line)
+    open_fence = get_open_code_fence(line, "", lines[1:])
     for index, line in indexed_line_generator:
-        if (
+        if not open_fence and (
             is_blank_line_line(line)
             or is_table_start_line(line)
             or is_thematic_break_line(line)
@@ -29,6 +31,7 @@ def split_bullet_list(
             break
         else:
             bullet_list.append(line)
+            open_fence = get_open_code_fence(line, open_fence, lines[index + 1 :])
     else:
         # We consumed the last line, so increment our index to chop it off
         index += 1
diff --git a/markflow/detectors/ordered_list.py b/markflow/detectors/ordered_list.py
index 4d63b66..096f011 100644
--- a/markflow/detectors/ordered_list.py
+++ b/markflow/detectors/ordered_list.py
@@ -1,6 +1,7 @@
 from typing import List, Tuple
 
 from ._lines import (
+    get_open_code_fence,
     is_blank_line_line,
     is_ordered_list_start_line,
     is_table_start_line,
@@ -20,8 +21,9 @@ def split_ordered_list(
         return ordered_list, remaining_lines
 
     ordered_list.append(line)
+    open_fence = get_open_code_fence(line, "", lines[1:])
     for index, line in indexed_line_generator:
-        if (
+        if not open_fence and (
             is_blank_line_line(line)
             or is_table_start_line(line)
             or is_thematic_break_line(line)
@@ -29,6 +31,7 @@ def split_ordered_list(
             break
         else:
             ordered_list.append(line)
+            open_fence = get_open_code_fence(line, open_fence, lines[index + 1 :])
     else:
         # We consumed the last line, so increment our index to chop it off
         index += 1
diff --git a/markflow/formatters/lists.py b/markflow/formatters/lists.py
index edfb4c4..dc60673 100644
--- a/markflow/formatters/lists.py
+++ b/markflow/formatters/lists.py
@@ -8,6 +8,7 @@ import string
 from typing import List
 
 from .._utils import get_indent, redirect_info_logs_to_debug, truncate_str
+from ..detectors._lines import get_open_code_fence
 from ..typing import Number
 from .base import MarkdownSection
 
@@ -21,7 +22,6 @@ MARKER_REGEX = re.compile(
     r")"
     r"($| )"  # End of line or space
 )
-CODE_BLOCK_FENCES = "`~"
 REPR_CONTENT_LEN = 20
 
 
@@ -58,26 +58,12 @@ def _list_marker_end_pos(line: str) -> int:
 
 
 def _split_list(lines: List[str]) -> List[List[str]]:
-    in_code_block = False
-    code_block_end = ""
+    open_fence = ""
 
     list_entries: List[List[str]] = []
     max_indent = _list_marker_end_pos(lines[0])
-    for line in lines:
-        if any(line.lstrip().startswith(f * 3) for f in CODE_BLOCK_FENCES):
-            code_block_symbol = line.lstrip()[0]
-            code_block_marker_length = len(line.lstrip()) - len(
-                line.lstrip(code_block_symbol)
-            )
-            code_block_marker = code_block_marker_length * code_block_symbol
-            if in_code_block:
-                if code_block_end == code_block_marker:
-                    in_code_block = False
-            else:
-                in_code_block = True
-                code_block_end = code_block_marker
-
-        if MARKER_REGEX.match(line) and not in_code_block:
+    for index, line in enumerate(lines):
+        if MARKER_REGEX.match(line) and not open_fence:
             line_indent = get_indent(line)
             list_indent = _list_marker_end_pos(line)
             if line_indent <= max_indent:
@@ -87,9 +73,17 @@ def _split_list(lines: List[str]) -> List[List[str]]:
                 list_entries[-1].append(line)
         else:
             list_entries[-1].append(line)
+        open_fence = get_open_code_fence(line, open_fence, lines[index + 1 :])
     return list_entries
 
 
+def _indent_entry(reformatted_entry: str, indent: int) -> str:
+    # The first line follows the list marker
+    first_line, *lines = reformatted_entry.split("\n")
+    lines = [" " * indent + line if line else line for line in lines]
+    return "\n".join([first_line] + lines)
+
+
 def _dedent_entries(list_entries: List[List[str]]) -> List[List[str]]:
     # ToDo: Should we handle missing spaces? I don't think so. Think:
     #  *read*
@@ -130,7 +124,7 @@ class MarkdownBulletList(MarkdownSection):
             reformatted_entry = (
                 self.marker
                 + " "
-                + ("\n" + toplevel_indent * " ").join(reformatted_entry.split("\n"))
+                + _indent_entry(reformatted_entry, toplevel_indent)
             )
             reformatted_entries.append(reformatted_entry)
 
@@ -176,7 +170,7 @@ class MarkdownOrderedList(MarkdownSection):
             reformatted_entry = (
                 str(entry_number)
                 + ". "
-                + ("\n" + toplevel_indent * " ").join(reformatted_entry.split("\n"))
+                + _indent_entry(reformatted_entry, toplevel_indent)
             )
             reformatted_entries.append(reformatted_entry)
 
-- 
2.43.0


From ce9b04099bedc7747754e0a205a7ac365e1ee48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:59 +0000
Subject: [PATCH 18/55] fix: indent entries of ordered lists to where their own
 text starts

In lists with numbers of different lengths (9. and 10.), entries with shorter
numbers were indented one column too deep. The next run took that column for
part of code blocks in those entries, so the consistency check refused the
document.
---
 markflow/formatters/lists.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/markflow/formatters/lists.py b/markflow/formatters/lists.py
index dc60673..5750205 100644
--- a/markflow/formatters/lists.py
+++ b/markflow/formatters/lists.py
@@ -157,12 +157,12 @@ class MarkdownOrderedList(MarkdownSection):
 
     def reformatted(self, width: Number = 88) -> str:
         list_entries = _split_list(self.lines)
-        # '99. '
-        toplevel_indent = len(str(self.first_number + len(list_entries) - 1)) + 2
         dedented_entries = _dedent_entries(list_entries)
 
         reformatted_entries: List[str] = []
         for entry_number, entry in enumerate(dedented_entries, start=self.first_number):
+            # '99. '
+            toplevel_indent = len(str(entry_number)) + 2
             with redirect_info_logs_to_debug():
                 reformatted_entry = _reformat_markdown(
                     entry, width - toplevel_indent
-- 
2.43.0


From c7481dbcbda92b753a4757cba67ec47910eafdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 19/55] fix: check the consistency of the text that is returned

Trailing whitespace was removed after the check. That can change what the text
means ("text\n+ " is a paragraph and a list, "text\n+" is a paragraph), so the
returned text was not always stable.
---
 markflow/reformat_markdown.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/markflow/reformat_markdown.py b/markflow/reformat_markdown.py
index 61582d8..20ce3ac 100644
--- a/markflow/reformat_markdown.py
+++ b/markflow/reformat_markdown.py
@@ -86,17 +86,16 @@ def reformat_markdown_text(text: str, width: Number = 88) -> str:
     Returns:
         The reformatted Markdown text
     """
-    new_text = _reformat_markdown_text(text, width)
+    new_text = _reformat_markdown_text(text, width).rstrip() + "\n"
     level = logger.getEffectiveLevel()
     # Mute logging during second pass since it means nothing to the user.
     if level > logging.DEBUG:
         logger.setLevel(logging.ERROR)
-    new_new_text = _reformat_markdown_text(new_text, width)
+    new_new_text = _reformat_markdown_text(new_text, width).rstrip() + "\n"
     logger.setLevel(level)
     if new_new_text != new_text:
         raise ReformatInconsistentException(
             "Reformat of reformatted code results in different text. Please open a bug "
             "report or email jholland@duosecurity.com."
         )
-    new_text = new_text.rstrip() + "\n"
     return new_text
-- 
2.43.0


From 6571ea5a237c6245e50e0e2111b65429f90ad8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 20/55] fix: do not lose table cells with escaped or missing
 trailing pipes

Body rows were split at escaped pipes after their columns had been counted
without doing so, and the last cell of rows that do not end with a pipe was
dropped.
---
 markflow/formatters/table.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/markflow/formatters/table.py b/markflow/formatters/table.py
index 10b859e..f37cfd3 100644
--- a/markflow/formatters/table.py
+++ b/markflow/formatters/table.py
@@ -1,6 +1,7 @@
 import enum
 import math
 import re
+from typing import List
 
 from ..exceptions import MarkdownFormatException
 from ..typing import Number
@@ -35,6 +36,14 @@ def right_align(text: str, width: int) -> str:
     return f"{' ' * padding}{text}"
 
 
+def _split_columns(line: str) -> List[str]:
+    columns = COLUMN_DIVIDER_REGEX.split(line)[1:]
+    # The trailing | is optional
+    if len(columns) > 1 and not columns[-1].strip():
+        columns = columns[:-1]
+    return columns
+
+
 class MarkdownTable(MarkdownSection):
     def append(self, line: str) -> None:
         self.lines.append(line)
@@ -45,12 +54,12 @@ class MarkdownTable(MarkdownSection):
             if i == 1:
                 # Skip the divider line
                 continue
-            cols = COLUMN_DIVIDER_REGEX.split(line)[1:-1]
+            cols = _split_columns(line)
             cols = [col.strip() for col in cols]
             column_widths.append(tuple(len(col) for col in cols))
 
         column_alignments = []
-        for divider in self.lines[1].strip()[1:-1].split("|"):
+        for divider in _split_columns(self.lines[1]):
             divider = divider.strip()
             if divider.startswith(":") and divider.endswith(":"):
                 column_alignments.append(Alignment.CENTER)
@@ -77,7 +86,7 @@ class MarkdownTable(MarkdownSection):
 
         new_lines = []
         # First line is headers. We'll center them.
-        headers = COLUMN_DIVIDER_REGEX.split(self.lines[0])[1:-1]
+        headers = _split_columns(self.lines[0])
         header_strings = []
         for header, width, alignment in zip(
             headers, new_column_widths, column_alignments
@@ -111,7 +120,7 @@ class MarkdownTable(MarkdownSection):
         for line in self.lines[2:]:
             columns = []
             for column, width, alignment in zip(
-                line.split("|")[1:-1], new_column_widths, column_alignments
+                _split_columns(line), new_column_widths, column_alignments
             ):
                 column = column.strip()
                 if alignment == Alignment.CENTER:
-- 
2.43.0


From 84d67fe5f009e2162fec922c798216ebff576b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:02 +0000
Subject: [PATCH 21/55] fix: report tables without a proper divider line

Without a second line, formatting died with IndexError; whatever text was on it
was replaced by dashes; and if it had too few columns, the columns it did not
have were dropped from the table.
---
 markflow/formatters/table.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/markflow/formatters/table.py b/markflow/formatters/table.py
index f37cfd3..50cd3ba 100644
--- a/markflow/formatters/table.py
+++ b/markflow/formatters/table.py
@@ -10,6 +10,7 @@ from .base import MarkdownSection
 __all__ = ["MarkdownTable"]
 
 COLUMN_DIVIDER_REGEX = re.compile(r"(?<!\\)" r"\|")  # Ignore escaped |
+DIVIDER_REGEX = re.compile(r"\s*:?-*:?\s*$")
 
 
 class Alignment(enum.Enum):
@@ -49,6 +50,14 @@ class MarkdownTable(MarkdownSection):
         self.lines.append(line)
 
     def reformatted(self, width: Number = 88) -> str:
+        if len(self.lines) < 2 or not all(
+            DIVIDER_REGEX.match(divider) for divider in _split_columns(self.lines[1])
+        ):
+            raise MarkdownFormatException(
+                f"Table on line {self.line_index + 1} has no line dividing its header "
+                "from its body"
+            )
+
         column_widths = []
         for i, line in enumerate(self.lines):
             if i == 1:
@@ -71,6 +80,11 @@ class MarkdownTable(MarkdownSection):
                 column_alignments.append(Alignment.NONE)
 
         header_column_count = len(column_widths[0])
+        if len(column_alignments) != header_column_count:
+            raise MarkdownFormatException(
+                f"Line {self.line_index + 2} has unexpected number of columns "
+                f"(expected: {header_column_count}, actual: {len(column_alignments)})"
+            )
         for i, column_width in enumerate(column_widths[1:], start=2):
             if len(column_width) != header_column_count:
                 raise MarkdownFormatException(
-- 
2.43.0


From 9d21de1b76dfd79e789ba17cb01486d3afdb1c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:58 +0000
Subject: [PATCH 22/55] fix: do not change the logging levels of the process

---
 markflow/_utils/_utils.py     | 25 +++++++++++++++++++++----
 markflow/reformat_markdown.py | 33 +++++++++++++++++++++++++++------
 2 files changed, 48 insertions(+), 10 deletions(-)

diff --git a/markflow/_utils/_utils.py b/markflow/_utils/_utils.py
index 1a9ebd4..0da553e 100644
--- a/markflow/_utils/_utils.py
+++ b/markflow/_utils/_utils.py
@@ -1,9 +1,11 @@
 import contextlib
 import logging
+import threading
 from typing import Iterator
 
 __all__ = [
     "get_indent",
+    "get_info_level",
     "truncate_str",
     "redirect_info_logs_to_debug",
 ]
@@ -26,9 +28,24 @@ def truncate_str(str_: str, length: int) -> str:
     return str_
 
 
+class _State(threading.local):
+    # Local to the current thread as to not redirect the logs of everything else running
+    # in this process.
+    info_level: int = logging.INFO
+
+
+_state = _State()
+
+
+def get_info_level() -> int:
+    return _state.info_level
+
+
 @contextlib.contextmanager
 def redirect_info_logs_to_debug() -> Iterator[None]:
-    old_info = logging.INFO
-    logging.INFO = logging.DEBUG
-    yield
-    logging.INFO = old_info
+    old_info_level = _state.info_level
+    _state.info_level = logging.DEBUG
+    try:
+        yield
+    finally:
+        _state.info_level = old_info_level
diff --git a/markflow/reformat_markdown.py b/markflow/reformat_markdown.py
index 20ce3ac..750ac7f 100644
--- a/markflow/reformat_markdown.py
+++ b/markflow/reformat_markdown.py
@@ -1,6 +1,8 @@
 import logging
+import threading
 from typing import Dict, Type
 
+from ._utils import get_info_level
 from .exceptions import ReformatInconsistentException
 from .formatters import (
     MarkdownATXHeading,
@@ -25,6 +27,25 @@ __all__ = ["reformat_markdown_text"]
 logger = logging.getLogger(__name__)
 
 
+class _State(threading.local):
+    # Local to the current thread as to not mute anything else running in this process.
+    is_second_pass: bool = False
+
+
+_state = _State()
+
+
+def _is_meaningful_to_user(record: logging.LogRecord) -> bool:
+    return (
+        not _state.is_second_pass
+        or record.levelno >= logging.ERROR
+        or logger.getEffectiveLevel() <= logging.DEBUG
+    )
+
+
+logger.addFilter(_is_meaningful_to_user)
+
+
 FORMATTERS: Dict[MarkdownSectionEnum, Type[MarkdownSection]] = {
     MarkdownSectionEnum.ATX_HEADING: MarkdownATXHeading,
     MarkdownSectionEnum.BLANK_LINE: MarkdownBlankLine,
@@ -54,7 +75,7 @@ def _reformat_markdown_text(text: str, width: Number = 88, line_index: int = 0)
             log_text = f"Lines {line_index + 1}-{line_index + content_length}"
         else:
             log_text = f"Line {line_index + 1}"
-        logger.info("%s: %s", log_text, repr(formatter))
+        logger.log(get_info_level(), "%s: %s", log_text, repr(formatter))
         if (
             section_type == MarkdownSectionEnum.SETEXT_HEADING
             and last_section_type == MarkdownSectionEnum.BLOCK_QUOTE
@@ -87,12 +108,12 @@ def reformat_markdown_text(text: str, width: Number = 88) -> str:
         The reformatted Markdown text
     """
     new_text = _reformat_markdown_text(text, width).rstrip() + "\n"
-    level = logger.getEffectiveLevel()
     # Mute logging during second pass since it means nothing to the user.
-    if level > logging.DEBUG:
-        logger.setLevel(logging.ERROR)
-    new_new_text = _reformat_markdown_text(new_text, width).rstrip() + "\n"
-    logger.setLevel(level)
+    _state.is_second_pass = True
+    try:
+        new_new_text = _reformat_markdown_text(new_text, width).rstrip() + "\n"
+    finally:
+        _state.is_second_pass = False
     if new_new_text != new_text:
         raise ReformatInconsistentException(
             "Reformat of reformatted code results in different text. Please open a bug "
-- 
2.43.0


From 664b413bc73306aab3ee33294464e9ea5852d744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:29 +0000
Subject: [PATCH 23/55] fix: do not write files when only checking them

---
 markflow/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 39f0c6b..597d808 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -300,7 +300,7 @@ def _reformat_files(args: argparse.Namespace) -> int:
             else:
                 print_markdown(f"would reformat {input_path}")
         else:
-            if output_path != input_path:
+            if output_path != input_path and not args.check:
                 output_path.write_text(new_contents)
             files_left_unchanged += 1
 
-- 
2.43.0


From 13bf0e24dc3497435206db9488ef5fa20a2b3658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 24/55] fix: find files in directories with glob characters in
 their name

---
 markflow/_argparse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/markflow/_argparse.py b/markflow/_argparse.py
index adfe12c..f88cfb9 100644
--- a/markflow/_argparse.py
+++ b/markflow/_argparse.py
@@ -122,6 +122,8 @@ class AddMarkdownFilesInDirOrPathsAction(argparse.Action):
             if value.is_file():
                 expanded_paths.append(value)
             else:
-                markdown_paths = glob.glob(str(value / "**" / "*.md"), recursive=True)
+                markdown_paths = glob.glob(
+                    os.path.join(glob.escape(str(value)), "**", "*.md"), recursive=True
+                )
                 expanded_paths += [pathlib.Path(path) for path in markdown_paths]
         setattr(namespace, self.dest, expanded_paths)
-- 
2.43.0


From a1c35a96cb261bd54f011af557bd0747b2f0b89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:34 +0000
Subject: [PATCH 25/55] fix: notice line endings that need to be fixed in files

---
 markflow/__main__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 597d808..32bf30a 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -277,7 +277,9 @@ def _reformat_files(args: argparse.Namespace) -> int:
     files_left_unchanged = 0
     files_changed = 0
     for input_path, output_path in zip(args.paths, output_paths):
-        old_contents = input_path.read_text()
+        # Keep the line endings, so we notice (and fix) those that aren't '\n'
+        with input_path.open(newline="") as input_file:
+            old_contents = input_file.read()
         try:
             new_contents = reformat_markdown_text(old_contents, args.line_length)
         except RuntimeError as runtime_error:
-- 
2.43.0


From aae3e7aeb95adcbcfe393dde695d4eccf92d158d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 26/55] fix: name the file that is not formatted correctly

---
 markflow/__main__.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 32bf30a..ab0a00f 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -282,17 +282,15 @@ def _reformat_files(args: argparse.Namespace) -> int:
             old_contents = input_file.read()
         try:
             new_contents = reformat_markdown_text(old_contents, args.line_length)
-        except RuntimeError as runtime_error:
-            if args.write_renders and isinstance(
-                runtime_error, ReformatInconsistentException
-            ):
+        except (RuntimeError, MarkdownFormatException) as error:
+            if args.write_renders and isinstance(error, ReformatInconsistentException):
                 _write_renders(input_path, output_path, args.line_length)
             # Add file information to our exception
             new_args = []
-            new_args.append(runtime_error.args[0] + f" (file: {str(input_path)})")
-            for arg in runtime_error.args[1:]:
+            new_args.append(error.args[0] + f" (file: {str(input_path)})")
+            for arg in error.args[1:]:
                 new_args.append(arg)
-            runtime_error.args = tuple(new_args)
+            error.args = tuple(new_args)
             raise
         if new_contents != old_contents:
             files_changed += 1
-- 
2.43.0


From 7c0c2ead19aec238456f2f5175a6d9a8b6e26eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 27/55] fix: do not take exponentially longer to parse nested
 block quotes

---
 markflow/detectors/block_quote.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/markflow/detectors/block_quote.py b/markflow/detectors/block_quote.py
index 8768e52..ed6c980 100644
--- a/markflow/detectors/block_quote.py
+++ b/markflow/detectors/block_quote.py
@@ -1,3 +1,4 @@
+import functools
 import re
 from typing import List, Tuple
 
@@ -81,7 +82,10 @@ def _is_paragraph_continuation_text(lines: List[str], line_offset: int = 0) -> b
     return True
 
 
-def _block_quote_ends_with_paragraph(block_quote_lines: List[str]) -> bool:
+# This is evaluated again for every level of nested quotes, so without a cache the time
+# it takes to parse a quote would double with each level.
+@functools.lru_cache(maxsize=1024)
+def _block_quote_ends_with_paragraph(block_quote_lines: Tuple[str, ...]) -> bool:
     # Avoid circular imports
     from ..parser import MarkdownSectionEnum, parse_markdown
 
@@ -93,7 +97,7 @@ def _block_quote_ends_with_paragraph(block_quote_lines: List[str]) -> bool:
         ending_section_type, ending_section_content = parse_markdown(parsing_lines)[-1]
 
     if ending_section_type == MarkdownSectionEnum.BLOCK_QUOTE:
-        return _block_quote_ends_with_paragraph(ending_section_content)
+        return _block_quote_ends_with_paragraph(tuple(ending_section_content))
     elif ending_section_type == MarkdownSectionEnum.PARAGRAPH:
         return True
     else:
@@ -135,7 +139,7 @@ def split_block_quote(
             block_quote += [remaining_lines[0]]
             remaining_lines = remaining_lines[1:]
 
-        check_for_continuation = _block_quote_ends_with_paragraph(block_quote)
+        check_for_continuation = _block_quote_ends_with_paragraph(tuple(block_quote))
 
         if check_for_continuation:
             first_line = True
-- 
2.43.0


From 9a9ad92cf6e041e8f76026917e6901a6ad8a9c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 28/55] fix: do not take exponentially longer to parse quotes
 followed by text

---
 markflow/detectors/paragraph.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/markflow/detectors/paragraph.py b/markflow/detectors/paragraph.py
index 0670aad..5bd4b8c 100644
--- a/markflow/detectors/paragraph.py
+++ b/markflow/detectors/paragraph.py
@@ -1,9 +1,12 @@
 from typing import Generator, List, Tuple
 
-from ._lines import is_paragraph_start_line, is_setext_underline
+from ._lines import (
+    is_explicit_block_quote_line,
+    is_paragraph_start_line,
+    is_setext_underline,
+)
 from .atx_heading import split_atx_heading
 from .blank_line import split_blank_line
-from .block_quote import split_block_quote
 from .bullet_list import split_bullet_list
 from .fenced_code_block import split_fenced_code_block
 from .ordered_list import split_ordered_list
@@ -31,7 +34,6 @@ def _is_paragraph_continuation_text(lines: List[str], line_offset: int = 0) -> b
     for splitter in [
         split_atx_heading,
         split_blank_line,
-        split_block_quote,
         split_bullet_list,
         split_fenced_code_block,
         split_ordered_list,
@@ -41,6 +43,9 @@ def _is_paragraph_continuation_text(lines: List[str], line_offset: int = 0) -> b
         # ToDo: Disable logging?
         if splitter(lines, line_offset)[0]:
             return False
+    # Splitting the block quote would evaluate the rest of the document (over and over).
+    if is_explicit_block_quote_line(lines[0]):
+        return False
     if is_setext_underline(lines[0]):
         return False
     return True
-- 
2.43.0


From 50f5240e1c25deb1ecfb5a8eb5859048aecebf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 29/55] fix: limit list numbers to nine digits as the standard
 does

---
 markflow/detectors/_lines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index 205927c..f567c6d 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -23,7 +23,7 @@ LIST_MARKERS_REGEX = re.compile(r"^(\s*([*+-]|[0-9]+\.) )+")
 ORDERED_LIST_START_REGEX = re.compile(
     r"^\s*"  # Leading spaces are OK and often expected
     r"("
-    r"[0-9]+\."  # Numeric list marker
+    r"[0-9]{1,9}\."  # Numeric list marker
     r") "  # Lists need a space after their identifier
 )
 THEMATIC_BREAK_CHARACTERS = ["*", "_", "-"]
-- 
2.43.0


From d776cc6065f614a0ef83e7ba84750775a56a6d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 30/55] fix: do not take spaced out thematic breaks for lists

---
 markflow/detectors/_lines.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index f567c6d..b8c5c76 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -187,8 +187,11 @@ def is_bullet_list_start_line(line: str) -> bool:
     Returns:
         True if the line is could start a bullet list. False otherwise.
     """
-    return not is_indented_code_block_start_line(line) and bool(
-        BULLET_LIST_START_REGEX.search(line)
+    return (
+        not is_indented_code_block_start_line(line)
+        # Thematic breaks take precedence
+        and not is_thematic_break_line(line)
+        and bool(BULLET_LIST_START_REGEX.search(line))
     )
 
 
-- 
2.43.0


From 3fa96dc487676aa894c388bed939ec8f6a602b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:14 +0000
Subject: [PATCH 31/55] fix: do not underline paragraphs with the thematic
 break following them

---
 markflow/reformat_markdown.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/markflow/reformat_markdown.py b/markflow/reformat_markdown.py
index 750ac7f..49dd96c 100644
--- a/markflow/reformat_markdown.py
+++ b/markflow/reformat_markdown.py
@@ -86,6 +86,15 @@ def _reformat_markdown_text(text: str, width: Number = 88, line_index: int = 0)
             formatters.append(
                 FORMATTERS[MarkdownSectionEnum.BLANK_LINE](line_index, [""])
             )
+        elif (
+            section_type == MarkdownSectionEnum.THEMATIC_BREAK
+            and last_section_type == MarkdownSectionEnum.PARAGRAPH
+            and section_content[0].lstrip().startswith("-")
+        ):
+            # Otherwise, it would underline the paragraph once we've removed its spaces.
+            formatters.append(
+                FORMATTERS[MarkdownSectionEnum.BLANK_LINE](line_index, [""])
+            )
         formatters.append(formatter)
         line_index += len(section_content)
 
-- 
2.43.0


From 11596f65bb7468fa4552e55af6abe344b881aed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 32/55] fix: do not quote text that follows a quote with a
 blank line at its end

---
 markflow/detectors/block_quote.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/markflow/detectors/block_quote.py b/markflow/detectors/block_quote.py
index ed6c980..2cb8116 100644
--- a/markflow/detectors/block_quote.py
+++ b/markflow/detectors/block_quote.py
@@ -143,8 +143,10 @@ def split_block_quote(
 
         if check_for_continuation:
             first_line = True
-            while remaining_lines and _is_paragraph_continuation_text(
-                remaining_lines, line_offset
+            while (
+                remaining_lines
+                and not is_explicit_block_quote_line(remaining_lines[0])
+                and _is_paragraph_continuation_text(remaining_lines, line_offset)
             ):
                 if first_line:
                     first_line = False
-- 
2.43.0


From 247d0783d25349b16a6ca6e72739b1a9e8f1de9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:41 +0000
Subject: [PATCH 33/55] fix: do not leave the last line of an indented code
 block to other blocks

---
 markflow/detectors/indented_code_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/detectors/indented_code_block.py b/markflow/detectors/indented_code_block.py
index b9322cd..a92d236 100644
--- a/markflow/detectors/indented_code_block.py
+++ b/markflow/detectors/indented_code_block.py
@@ -44,7 +44,7 @@ def split_indented_code_block(
             if not line.strip():
                 continue
             elif get_indent(line) >= 4:
-                close_index = index
+                close_index = index + 1
             else:
                 break
 
-- 
2.43.0


From f9027beb3be3d5d9e0eb006178983ea972921af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:28 +0000
Subject: [PATCH 34/55] fix: keep words apart from code and links that follow a
 tab

---
 markflow/_utils/textwrap.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index c03a493..ba773a5 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -79,7 +79,7 @@ def code_split(
                 if not leading_spaces:
                     leading_spaces.append(leading_space)
                 else:
-                    leading_spaces.append(plaintext.startswith(" "))
+                    leading_spaces.append(plaintext[:1].isspace())
                 split_text.append(plaintext.strip())
                 evaluates.append(True)
             open_marker_len = len(code_marker.group())
@@ -88,7 +88,7 @@ def code_split(
             if not leading_spaces:
                 leading_spaces.append(leading_space)
             else:
-                leading_spaces.append(plaintext.endswith(" "))
+                leading_spaces.append(plaintext[-1:].isspace())
             evaluates.append(False)
             split_text.append("`" * open_marker_len)
         elif len(code_marker.group()) == open_marker_len:
@@ -122,7 +122,7 @@ def code_split(
             if last_end == 0:
                 leading_spaces.append(leading_space)
             else:
-                leading_spaces.append(remaining_text.startswith(" "))
+                leading_spaces.append(remaining_text[:1].isspace())
             evaluates.append(True)
 
     return split_text, leading_spaces, evaluates
@@ -175,9 +175,9 @@ def link_split(
             if not leading_spaces:
                 leading_spaces.append(leading_space)
             else:
-                leading_spaces.append(non_link_text.startswith(" "))
+                leading_spaces.append(non_link_text[:1].isspace())
 
-            leading_spaces.append(text[match.start() - 1] == " ")
+            leading_spaces.append(text[match.start() - 1].isspace())
             evaluates.append(True)
         else:
             if not leading_spaces:
@@ -214,7 +214,7 @@ def link_split(
         if last_end == 0:
             leading_spaces.append(leading_space)
         else:
-            leading_spaces.append(remaining_text.startswith(" "))
+            leading_spaces.append(remaining_text[:1].isspace())
         evaluates.append(True)
 
     return split_text, leading_spaces, evaluates
@@ -234,12 +234,12 @@ def newline_split(
         if not leading_spaces:
             leading_spaces.append(leading_space)
         else:
-            leading_spaces.append(text[last_end] == " ")
+            leading_spaces.append(text[last_end].isspace())
 
         if non_newline_text.strip():
             split_text.append(non_newline_text.strip())
             evaluates.append(True)
-            leading_spaces.append(non_newline_text.endswith(" "))
+            leading_spaces.append(non_newline_text[-1:].isspace())
 
         split_text.append(match.group())
         evaluates.append(False)
@@ -250,7 +250,7 @@ def newline_split(
         if last_end == 0:
             leading_spaces.append(leading_space)
         else:
-            leading_spaces.append(text[last_end:].startswith(" "))
+            leading_spaces.append(text[last_end].isspace())
         evaluates.append(True)
 
     return split_text, leading_spaces, evaluates
-- 
2.43.0


From 5327a9abc8d354ac454a1cdee12c9f4f513773b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 35/55] fix: keep fences apart from info strings that begin
 with a tilde

---
 markflow/formatters/fenced_code_block.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/markflow/formatters/fenced_code_block.py b/markflow/formatters/fenced_code_block.py
index f77bdbc..6def6d7 100644
--- a/markflow/formatters/fenced_code_block.py
+++ b/markflow/formatters/fenced_code_block.py
@@ -74,7 +74,11 @@ class MarkdownFencedCodeBlock(MarkdownSection):
         # A block that runs to the end of its container has no closing fence.
         if content and content[-1].strip() == fence:
             content = content[:-1]
-        new_lines = [fence + self.language] + content + [fence]
+        opening = fence
+        if self.language.startswith(self.fence_char):
+            # Keep the info string from becoming a part of the fence.
+            opening += " "
+        new_lines = [opening + self.language] + content + [fence]
         return "\n".join([line.rstrip() for line in new_lines])
 
     def __repr__(self) -> str:
-- 
2.43.0


From 1f6ff2f21b6dd7adc0452808e761d2af2107e655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:30 +0000
Subject: [PATCH 36/55] fix: recognize indented titles of link reference
 definitions

---
 markflow/detectors/link_reference_definition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/markflow/detectors/link_reference_definition.py b/markflow/detectors/link_reference_definition.py
index dc4279a..affc77d 100644
--- a/markflow/detectors/link_reference_definition.py
+++ b/markflow/detectors/link_reference_definition.py
@@ -86,7 +86,7 @@ def split_link_reference_definition(
         # Only the label and URL are on the first line
         try:
             index, line = next(indexed_line_generator)
-            title_text = line
+            title_text = line.lstrip()
         except StopIteration:
             index += 1
             title_text = ""
@@ -113,7 +113,7 @@ def split_link_reference_definition(
             # Only the URL is on the second line
             try:
                 index, line = next(indexed_line_generator)
-                title_text = line
+                title_text = line.lstrip()
             except StopIteration:
                 index += 1
                 title_text = ""
-- 
2.43.0


From f3fbb878d0e476cbe9bbfba4b1893dad70fbe82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:32 +0000
Subject: [PATCH 37/55] fix: recognize titles of link reference definitions in
 parentheses

---
 markflow/detectors/link_reference_definition.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/markflow/detectors/link_reference_definition.py b/markflow/detectors/link_reference_definition.py
index affc77d..889dcf2 100644
--- a/markflow/detectors/link_reference_definition.py
+++ b/markflow/detectors/link_reference_definition.py
@@ -36,7 +36,8 @@ LINK_REFERENCE_DEFINITION_FIRST_ELEMENT_REGEX = re.compile(
     r"[^\]]{1,999}"  # At least one and up to 999 characters as the name
     r"\]:"  # End bracket and colon
 )
-QUOTATION_CHARACTERS = "'\""
+# What closes a title by what opens it
+QUOTATION_CHARACTERS = {"'": "'", '"': '"', "(": ")"}
 
 
 def split_link_reference_definition(
@@ -128,7 +129,8 @@ def split_link_reference_definition(
         quotation_character = "NO QUOTE"
 
     if quotation_character in QUOTATION_CHARACTERS:
-        closing_regex = re.compile(r"(?<!\\)(\\\\)*{}".format(quotation_character))
+        closing_character = re.escape(QUOTATION_CHARACTERS[quotation_character])
+        closing_regex = re.compile(r"(?<!\\)(\\\\)*{}".format(closing_character))
         for title_index, line in itertools.chain(
             [(index, title_text[1:])], indexed_line_generator
         ):
-- 
2.43.0


From 225c4b3694a4ba48dd2c41767e8947adf967e11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:00 +0000
Subject: [PATCH 38/55] fix: do not take an indented definition for the link of
 the one before

---
 markflow/detectors/link_reference_definition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/detectors/link_reference_definition.py b/markflow/detectors/link_reference_definition.py
index 889dcf2..1359e1a 100644
--- a/markflow/detectors/link_reference_definition.py
+++ b/markflow/detectors/link_reference_definition.py
@@ -98,7 +98,7 @@ def split_link_reference_definition(
             index, line = next(indexed_line_generator)
         except StopIteration:
             line = ""
-        if line.startswith("[") or not line.strip():
+        if line.lstrip().startswith("[") or not line.strip():
             # According to this standard, this is just paragraph text, but this tool
             # should be usable during development.
             # ToDo: Does that match up with our treatment of misquoted titles?
-- 
2.43.0


From ba1fef62dc744f76a61b461d3508c458d2411385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:22 +0000
Subject: [PATCH 39/55] fix: print file names as they are instead of as
 Markdown

---
 markflow/__main__.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index ab0a00f..df3b490 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -9,6 +9,7 @@ from typing import List, TextIO
 import rich.console
 import rich.logging
 import rich.markdown
+import rich.text
 
 from ._argparse import (
     READABLE,
@@ -63,6 +64,12 @@ def print_markdown(markdown_text: str) -> None:
     console.print(rich.markdown.Markdown(markdown_text))
 
 
+def print_text(text: str, style: str = "") -> None:
+    # For text that contains file names, which aren't Markdown and must not be wrapped
+    console = rich.console.Console()
+    console.print(rich.text.Text(text, style), soft_wrap=True)
+
+
 def parse_args(argv: List[str]) -> argparse.Namespace:
     parser = argparse.ArgumentParser(
         description="Make your Markdown sparkle.", add_help=False
@@ -296,9 +303,9 @@ def _reformat_files(args: argparse.Namespace) -> int:
             files_changed += 1
             if not args.check:
                 output_path.write_text(new_contents)
-                print_markdown(f"**reformatted {input_path}**")
+                print_text(f"reformatted {input_path}", "bold")
             else:
-                print_markdown(f"would reformat {input_path}")
+                print_text(f"would reformat {input_path}")
         else:
             if output_path != input_path and not args.check:
                 output_path.write_text(new_contents)
-- 
2.43.0


From 85f0fd5d9e6a7f0342b069fe2dc9ca8f8bf1dac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:39 +0000
Subject: [PATCH 40/55] fix: do not mix logs with formatted text on standard
 output

---
 markflow/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index df3b490..8b6c102 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -207,7 +207,8 @@ def parse_args(argv: List[str]) -> argparse.Namespace:
     logging.basicConfig(
         format="",
         level=logging_levels[verbosity],
-        handlers=[rich.logging.RichHandler()],
+        # STDOUT is for what gets formatted
+        handlers=[rich.logging.RichHandler(console=rich.console.Console(stderr=True))],
     )
 
     if args.developer_help:
-- 
2.43.0


From 11037c0d8d6dfa8817d4742e836af48a20786f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:41 +0000
Subject: [PATCH 41/55] fix: notice line endings that need to be fixed in
 standard input

---
 markflow/__main__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 8b6c102..0817f57 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -1,4 +1,5 @@
 import argparse
+import io
 import logging
 import math
 import pathlib
@@ -347,6 +348,9 @@ def _reformat_stdin(args: argparse.Namespace, stdin: TextIO) -> int:
             "STDOUT."
         )
 
+    # Keep the line endings, so we notice (and fix) those that aren't '\n'
+    if isinstance(stdin, io.TextIOWrapper):
+        stdin.reconfigure(newline="")
     old_contents = stdin.read()
     try:
         new_contents = reformat_markdown_text(old_contents, args.line_length)
-- 
2.43.0


From de5e0a4bae41c9e5bfb23e9d3eed52b763bb7ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:43 +0000
Subject: [PATCH 42/55] fix: notice arguments that are not readable before
 anything is written

---
 markflow/_argparse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/markflow/_argparse.py b/markflow/_argparse.py
index f88cfb9..6173ff4 100644
--- a/markflow/_argparse.py
+++ b/markflow/_argparse.py
@@ -27,6 +27,11 @@ class ExistingPath:
             raise argparse.ArgumentTypeError(
                 f"specified path does not exist: {repr(str(path))}"
             )
+        for permission in self._permissions:
+            if not os.access(path, permission.os_constant):
+                raise argparse.ArgumentTypeError(
+                    f"can't {permission.verbiage} path: {repr(str(path))}"
+                )
         return path
 
 
-- 
2.43.0


From 24215ae683999279f5c814135f73dc5d89e0ce6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:45 +0000
Subject: [PATCH 43/55] fix: do not take directories whose names end in .md for
 files

---
 markflow/_argparse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/markflow/_argparse.py b/markflow/_argparse.py
index 6173ff4..aae7deb 100644
--- a/markflow/_argparse.py
+++ b/markflow/_argparse.py
@@ -130,5 +130,7 @@ class AddMarkdownFilesInDirOrPathsAction(argparse.Action):
                 markdown_paths = glob.glob(
                     os.path.join(glob.escape(str(value)), "**", "*.md"), recursive=True
                 )
-                expanded_paths += [pathlib.Path(path) for path in markdown_paths]
+                expanded_paths += [
+                    pathlib.Path(path) for path in markdown_paths if os.path.isfile(path)
+                ]
         setattr(namespace, self.dest, expanded_paths)
-- 
2.43.0


From 599a005ac760e6821e99973b3f38f0c3a8dc276b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:03 +0000
Subject: [PATCH 44/55] fix: do not read standard input if directories hold no
 Markdown files

---
 markflow/__main__.py  | 3 ++-
 markflow/_argparse.py | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 0817f57..4fef35d 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -111,6 +111,7 @@ def parse_args(argv: List[str]) -> argparse.Namespace:
         type=ExistingPath([READABLE]),
         help="Path(s) to file(s) to reformat.",
     )
+    parser.set_defaults(paths_passed=False)
 
     parser.add_argument(
         "--check",
@@ -379,7 +380,7 @@ def main(argv: List[str]) -> int:
     if args.line_length < 1:
         args.line_length = math.inf
 
-    if not args.paths:
+    if not args.paths_passed:
         if sys.stdin.isatty():
             print_markdown("**No path provided. Nothing to do.**")
             return 0
diff --git a/markflow/_argparse.py b/markflow/_argparse.py
index aae7deb..1341258 100644
--- a/markflow/_argparse.py
+++ b/markflow/_argparse.py
@@ -134,3 +134,5 @@ class AddMarkdownFilesInDirOrPathsAction(argparse.Action):
                     pathlib.Path(path) for path in markdown_paths if os.path.isfile(path)
                 ]
         setattr(namespace, self.dest, expanded_paths)
+        # There may be no files in the directories that were passed
+        setattr(namespace, f"{self.dest}_passed", bool(values))
-- 
2.43.0


From df282d7c38386711f432c761cb93713d43841fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 45/55] fix: write the renders that are inconsistent

---
 markflow/__main__.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 4fef35d..d714d6a 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -245,6 +245,11 @@ def parse_args(argv: List[str]) -> argparse.Namespace:
     return args
 
 
+def _render(text: str, width: Number) -> str:
+    # The same as in the passes of `reformat_markdown_text` which are inconsistent
+    return _reformat_markdown_text(text, width).rstrip() + "\n"
+
+
 def _write_renders(
     input_path: pathlib.Path, output_path: pathlib.Path, width: Number = 88
 ) -> None:
@@ -256,22 +261,22 @@ def _write_renders(
         second_output_name = output_path.name + ".2"
 
     first_output_path = output_path.parent / first_output_name
-    first_contents = _reformat_markdown_text(input_path.read_text(), width)
+    first_contents = _render(input_path.read_text(), width)
     logger.debug("Writing first render to %s", first_output_path)
     first_output_path.write_text(first_contents)
 
     second_output_path = output_path.parent / second_output_name
     logger.debug("Writing second render to %s", second_output_path)
-    second_contents = _reformat_markdown_text(first_contents, width)
+    second_contents = _render(first_contents, width)
     second_output_path.write_text(second_contents)
 
 
 def _print_renders(text: str, width: Number = 88) -> None:
-    first_contents = _reformat_markdown_text(text, width)
+    first_contents = _render(text, width)
     logger.debug("Writing first render to STDOUT")
     print(first_contents)
 
-    second_contents = _reformat_markdown_text(first_contents, width)
+    second_contents = _render(first_contents, width)
     logger.debug("Writing second render to STDOUT")
     print(second_contents)
 
-- 
2.43.0


From 0a72977fa6caea755f56d0ba263c6b756c6248e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 46/55] fix: do not take quadratically longer to wrap long
 words

---
 markflow/_utils/textwrap.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index ba773a5..cf47560 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -4,13 +4,19 @@ from typing import List, Tuple
 from markflow.typing import Number
 
 INLINE_CODE_MARKER_REGEX = re.compile(r"(((?!<\\)`)+)")
-FOOTNOTE_REGEX = re.compile(r"[^\s\]\)]*\[[^\[]+\]\[[^\]]+\][^\s\[\(]*")
+# What links can start with. Trying that within longer words, too, would be quadratic.
+LINK_START_PATTERN = r"(?:(?<![^\s\]\)])|(?=[\[\(]))"
+FOOTNOTE_REGEX = re.compile(
+    LINK_START_PATTERN + r"[^\s\]\)]*\[[^\[]+\]\[[^\]]+\][^\s\[\(]*"
+)
 HTML_NEWLINE_REGEX = re.compile(r"<br ?/?>")
 # Words that would start a different type of section if they were first on a line
 SECTION_START_REGEX = re.compile(
     r"#|>|\||```|~~~|([-+*]|[0-9]+\.|=+|-+|_+|\*+)$"
 )
-URL_REGEX = re.compile(r"[^\s\]\)]*\[[^\[]+\]\([^\)]+\)[^\s\[\(]*")
+URL_REGEX = re.compile(
+    LINK_START_PATTERN + r"[^\s\]\)]*\[[^\[]+\]\([^\)]+\)[^\s\[\(]*"
+)
 
 
 def join(split_text: List[str], leading_spaces: List[bool], width: Number) -> str:
-- 
2.43.0


From 7bdcac1ebb8065fcbec5448114c164f1add22e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 47/55] fix: number the lines in warnings from the start of the
 document

---
 markflow/detectors/fenced_code_block.py          |  8 --------
 markflow/detectors/link_reference_definition.py  |  8 --------
 markflow/formatters/fenced_code_block.py         | 11 ++++++++++-
 markflow/formatters/link_reference_definition.py |  8 ++++++++
 4 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/markflow/detectors/fenced_code_block.py b/markflow/detectors/fenced_code_block.py
index 484082d..96e3f58 100644
--- a/markflow/detectors/fenced_code_block.py
+++ b/markflow/detectors/fenced_code_block.py
@@ -21,7 +21,6 @@ Examples:
 import logging
 from typing import List, Tuple
 
-from .._utils import get_indent
 from ._lines import is_fenced_code_block_start_line
 
 logger = logging.getLogger(__name__)
@@ -119,7 +118,6 @@ def split_fenced_code_block(
     for fence in FENCES:
         if is_fenced_code_block_start_line(line) and line.strip().startswith(fence):
             count = len(line.lstrip()) - len(line.lstrip().lstrip(fence))
-            fence_indent = get_indent(line)
             full_fence = fence * count
             break
     else:
@@ -130,12 +128,6 @@ def split_fenced_code_block(
     for index, line in indexed_line_generator:
         fenced_code_block.append(line)
         if line.strip() == full_fence:
-            if get_indent(line) > 3 + fence_indent:
-                logger.warning(
-                    "Detected that the fence on line %d is over indented per the "
-                    "standard. If this is intentional, please file a bug report."
-                    % (index + line_offset + 1)
-                )
             break
 
     remaining_lines = remaining_lines[index + 1 :]
diff --git a/markflow/detectors/link_reference_definition.py b/markflow/detectors/link_reference_definition.py
index 1359e1a..27c6a9c 100644
--- a/markflow/detectors/link_reference_definition.py
+++ b/markflow/detectors/link_reference_definition.py
@@ -23,14 +23,11 @@ Examples:
 """
 
 import itertools
-import logging
 import re
 from typing import List, Tuple
 
 from .._utils import get_indent
 
-logger = logging.getLogger(__name__)
-
 LINK_REFERENCE_DEFINITION_FIRST_ELEMENT_REGEX = re.compile(
     r"\["  # Open bracket
     r"[^\]]{1,999}"  # At least one and up to 999 characters as the name
@@ -102,11 +99,6 @@ def split_link_reference_definition(
             # According to this standard, this is just paragraph text, but this tool
             # should be usable during development.
             # ToDo: Does that match up with our treatment of misquoted titles?
-            logger.warning(
-                "The text on line %d seems to be a link reference definition, but it "
-                "does not contain a link. We will be treating it as if it were.",
-                index,  # We are just pass where the issue exists
-            )
             link_reference_definition = [lines[0]]
             remaining_lines = lines[1:]
             return link_reference_definition, remaining_lines
diff --git a/markflow/formatters/fenced_code_block.py b/markflow/formatters/fenced_code_block.py
index 6def6d7..deb4dcc 100644
--- a/markflow/formatters/fenced_code_block.py
+++ b/markflow/formatters/fenced_code_block.py
@@ -32,14 +32,17 @@ before or after.
 https://spec.commonmark.org/0.29/#fenced-code-blocks
 """
 
+import logging
 from typing import Optional
 
-from .._utils import truncate_str
+from .._utils import get_indent, truncate_str
 from ..typing import Number
 from .base import MarkdownSection
 
 __all__ = ["MarkdownFencedCodeBlock"]
 
+logger = logging.getLogger(__name__)
+
 REPR_CONTENT_LEN = 20
 
 
@@ -73,6 +76,12 @@ class MarkdownFencedCodeBlock(MarkdownSection):
         content = self.lines[1:]
         # A block that runs to the end of its container has no closing fence.
         if content and content[-1].strip() == fence:
+            if get_indent(content[-1]) > 3 + get_indent(self.lines[0]):
+                logger.warning(
+                    "Detected that the fence on line %d is over indented per the "
+                    "standard. If this is intentional, please file a bug report.",
+                    self.line_index + len(self.lines),
+                )
             content = content[:-1]
         opening = fence
         if self.language.startswith(self.fence_char):
diff --git a/markflow/formatters/link_reference_definition.py b/markflow/formatters/link_reference_definition.py
index 2281005..5852e08 100644
--- a/markflow/formatters/link_reference_definition.py
+++ b/markflow/formatters/link_reference_definition.py
@@ -23,6 +23,7 @@ characters inside the square brackets.
 https://spec.commonmark.org/0.29/#link-label
 """
 
+import logging
 import re
 
 from .._utils import truncate_str
@@ -32,6 +33,8 @@ from .base import MarkdownSection
 
 __all__ = ["MarkdownLinkReferenceDefinition"]
 
+logger = logging.getLogger(__name__)
+
 POST_COLON_SPACE_REGEX = re.compile(r":\s+")
 REPR_CONTENT_LEN = 20
 LINK_REFERENCE_DEFINITION_REGEX = re.compile(
@@ -85,6 +88,11 @@ class MarkdownLinkReferenceDefinition(MarkdownSection):
         last_index = 0
         str_ = f"[{self.name}]:"
         if not self.link:
+            logger.warning(
+                "The text on line %d seems to be a link reference definition, but it "
+                "does not contain a link. We will be treating it as if it were.",
+                self.line_index + 1,
+            )
             return str_
 
         if self.link in self.lines[last_index]:
-- 
2.43.0


From 7675b105151bbfe571b5523660809f88954a6380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:57 +0000
Subject: [PATCH 48/55] fix: number the lines of quotes and lists from the
 start of the document

---
 markflow/formatters/block_quote.py | 10 +++++++---
 markflow/formatters/lists.py       | 14 ++++++++++----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index bf8d7ec..68e1f91 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -16,13 +16,15 @@ LEADING_QUOTE_MARKER = re.compile(r"^\s{0,3}>")
 logger = logging.getLogger(__name__)
 
 
-def _reformat_markdown(lines: List[str], width: Number) -> str:
+def _reformat_markdown(lines: List[str], width: Number, line_index: int) -> str:
     # Prevents issues from circular imports. Since this module would already be loaded
     # whenever we call this function, we know it's cached.
     from ..reformat_markdown import _reformat_markdown_text
 
     with redirect_info_logs_to_debug():
-        text = _reformat_markdown_text("\n".join(lines) + "\n", width)
+        text = _reformat_markdown_text(
+            "\n".join(lines) + "\n", width, line_index
+        )
 
     return text
 
@@ -76,7 +78,9 @@ class MarkdownBlockQuote(MarkdownSection):
 
         # ToDo (jmholla): Issues with leading > in paragraphs will be handled by a later
         #  change.
-        text = _reformat_markdown(stripped_lines, width=sub_width)
+        text = _reformat_markdown(
+            stripped_lines, width=sub_width, line_index=self.line_index
+        )
         # Trailing spaces in here are hard line breaks, so only the prefix is stripped.
         text = "\n".join(
             prefix + line if line else prefix.rstrip() for line in text.splitlines()
diff --git a/markflow/formatters/lists.py b/markflow/formatters/lists.py
index 5750205..5e0feee 100644
--- a/markflow/formatters/lists.py
+++ b/markflow/formatters/lists.py
@@ -25,13 +25,15 @@ MARKER_REGEX = re.compile(
 REPR_CONTENT_LEN = 20
 
 
-def _reformat_markdown(lines: List[str], width: Number) -> str:
+def _reformat_markdown(lines: List[str], width: Number, line_index: int) -> str:
     # Prevents issues from circular imports. Since this module would already be loaded
     # whenever we call this function, we know it's cached.
     from ..reformat_markdown import _reformat_markdown_text
 
     with redirect_info_logs_to_debug():
-        text = _reformat_markdown_text("\n".join(lines) + "\n", width)
+        text = _reformat_markdown_text(
+            "\n".join(lines) + "\n", width, line_index
+        )
 
     return text
 
@@ -115,12 +117,14 @@ class MarkdownBulletList(MarkdownSection):
         toplevel_indent = 2
         dedented_entries = _dedent_entries(list_entries)
 
+        line_index = self.line_index
         reformatted_entries: List[str] = []
         for entry in dedented_entries:
             with redirect_info_logs_to_debug():
                 reformatted_entry = _reformat_markdown(
-                    entry, width - toplevel_indent
+                    entry, width - toplevel_indent, line_index
                 ).rstrip("\n")
+            line_index += len(entry)
             reformatted_entry = (
                 self.marker
                 + " "
@@ -159,14 +163,16 @@ class MarkdownOrderedList(MarkdownSection):
         list_entries = _split_list(self.lines)
         dedented_entries = _dedent_entries(list_entries)
 
+        line_index = self.line_index
         reformatted_entries: List[str] = []
         for entry_number, entry in enumerate(dedented_entries, start=self.first_number):
             # '99. '
             toplevel_indent = len(str(entry_number)) + 2
             with redirect_info_logs_to_debug():
                 reformatted_entry = _reformat_markdown(
-                    entry, width - toplevel_indent
+                    entry, width - toplevel_indent, line_index
                 ).rstrip("\n")
+            line_index += len(entry)
             reformatted_entry = (
                 str(entry_number)
                 + ". "
-- 
2.43.0


From 378645132aa46aafd044f97437570d206ec7f634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 49/55] fix: do not warn about the reformatted text

---
 markflow/reformat_markdown.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/markflow/reformat_markdown.py b/markflow/reformat_markdown.py
index 49dd96c..0f906c4 100644
--- a/markflow/reformat_markdown.py
+++ b/markflow/reformat_markdown.py
@@ -61,6 +61,10 @@ FORMATTERS: Dict[MarkdownSectionEnum, Type[MarkdownSection]] = {
     MarkdownSectionEnum.THEMATIC_BREAK: MarkdownThematicBreak,
 }
 
+for _formatter in FORMATTERS.values():
+    # Loggers do not inherit filters.
+    logging.getLogger(_formatter.__module__).addFilter(_is_meaningful_to_user)
+
 
 def _reformat_markdown_text(text: str, width: Number = 88, line_index: int = 0) -> str:
     sections = parse_markdown(text.splitlines())
-- 
2.43.0


From 5489f847931cc42182d4258e66e1ae1067e346fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 50/55] fix: don't begin a line with a destination that would
 be a list

---
 markflow/_utils/textwrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index cf47560..95844dd 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -12,7 +12,7 @@ FOOTNOTE_REGEX = re.compile(
 HTML_NEWLINE_REGEX = re.compile(r"<br ?/?>")
 # Words that would start a different type of section if they were first on a line
 SECTION_START_REGEX = re.compile(
-    r"#|>|\||```|~~~|([-+*]|[0-9]+\.|=+|-+|_+|\*+)$"
+    r"#|>|\||```|~~~|([-+*]|[0-9]+\.)(\s|$)|(=+|-+|_+|\*+)$"
 )
 URL_REGEX = re.compile(
     LINK_START_PATTERN + r"[^\s\]\)]*\[[^\[]+\]\([^\)]+\)[^\s\[\(]*"
-- 
2.43.0


From 5ff12a108d77b68abd54926eda40b74b789b3f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:09 +0000
Subject: [PATCH 51/55] fix: don't leave what would be a thematic break alone
 on the first line

---
 markflow/_utils/textwrap.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 95844dd..0d9819b 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -14,6 +14,8 @@ HTML_NEWLINE_REGEX = re.compile(r"<br ?/?>")
 SECTION_START_REGEX = re.compile(
     r"#|>|\||```|~~~|([-+*]|[0-9]+\.)(\s|$)|(=+|-+|_+|\*+)$"
 )
+# Text that would be a thematic break or an underline if it was alone on the first line
+LONE_SECTION_REGEX = re.compile(r"(=+|-+|([-_*])( ?\2){2,})$")
 URL_REGEX = re.compile(
     LINK_START_PATTERN + r"[^\s\]\)]*\[[^\[]+\]\([^\)]+\)[^\s\[\(]*"
 )
@@ -32,7 +34,16 @@ def join(split_text: List[str], leading_spaces: List[bool], width: Number) -> st
             and not HTML_NEWLINE_REGEX.match(word)
             and not HTML_NEWLINE_REGEX.match(chunks[-1][0])
         )
-        if is_attached or (chunks and SECTION_START_REGEX.match(word)):
+        needs_company = (
+            len(chunks) == 1
+            and LONE_SECTION_REGEX.match(chunks[0][0])
+            and not HTML_NEWLINE_REGEX.match(word)
+        )
+        if (
+            is_attached
+            or needs_company
+            or (chunks and SECTION_START_REGEX.match(word))
+        ):
             separator = " " if leading_space else ""
             chunks[-1] = (chunks[-1][0] + separator + word, chunks[-1][1])
         else:
-- 
2.43.0


From ec75d12edb281cd17c203962cf6988ddce1ca14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:11 +0000
Subject: [PATCH 52/55] fix: don't wrap within link reference definitions other
 than their titles

---
 markflow/formatters/link_reference_definition.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/markflow/formatters/link_reference_definition.py b/markflow/formatters/link_reference_definition.py
index 5852e08..98e4aa1 100644
--- a/markflow/formatters/link_reference_definition.py
+++ b/markflow/formatters/link_reference_definition.py
@@ -110,8 +110,10 @@ class MarkdownLinkReferenceDefinition(MarkdownSection):
         if title.split()[0] in self.lines[last_index]:
             # Our title was on the line with our link
             if len(title.split()[0]) + len(str_.splitlines()[-1]) <= width:
-                lines = str_.splitlines()
-                str_ = "\n".join(lines[:-1] + [wrap(lines[-1] + " " + title, width)])
+                # Only the title may be wrapped, so have something stand in for the rest
+                line_length = len(str_.splitlines()[-1])
+                wrapped = wrap("x" * line_length + " " + title, width)
+                str_ += wrapped[line_length:]
             else:
                 str_ += "\n" + wrap(title, width)
         else:
-- 
2.43.0


From 5b9742c121146c0877c919270050f896b7a0b8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:13 +0000
Subject: [PATCH 53/55] fix: let tabs follow list markers

---
 markflow/detectors/_lines.py | 6 +++---
 markflow/formatters/lists.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index b8c5c76..a73e0bf 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -17,14 +17,14 @@ BULLET_LIST_START_REGEX = re.compile(
     r"*"  # Asterisk list marker
     r"+"  # Plus list marker
     r"-"  # Dash list marker
-    r"] "  # Lists need a space after their identifier
+    r"][ \t]"  # Lists need a space after their identifier
 )
-LIST_MARKERS_REGEX = re.compile(r"^(\s*([*+-]|[0-9]+\.) )+")
+LIST_MARKERS_REGEX = re.compile(r"^(\s*([*+-]|[0-9]+\.)[ \t])+")
 ORDERED_LIST_START_REGEX = re.compile(
     r"^\s*"  # Leading spaces are OK and often expected
     r"("
     r"[0-9]{1,9}\."  # Numeric list marker
-    r") "  # Lists need a space after their identifier
+    r")[ \t]"  # Lists need a space after their identifier
 )
 THEMATIC_BREAK_CHARACTERS = ["*", "_", "-"]
 
diff --git a/markflow/formatters/lists.py b/markflow/formatters/lists.py
index 5e0feee..7fc3fd5 100644
--- a/markflow/formatters/lists.py
+++ b/markflow/formatters/lists.py
@@ -20,7 +20,7 @@ MARKER_REGEX = re.compile(
     r"\+|"  # Plus list marker
     r"[0-9]+\."  # Numeric list marker
     r")"
-    r"($| )"  # End of line or space
+    r"($|[ \t])"  # End of line or space
 )
 REPR_CONTENT_LEN = 20
 
-- 
2.43.0


From 1781f5443354e10ae684328fdfdbc83c74de766d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:15 +0000
Subject: [PATCH 54/55] fix: keep tables and thematic breaks within their list
 entry

---
 markflow/detectors/_lines.py       | 39 ++++++++++++++++++++++++++++++
 markflow/detectors/bullet_list.py  | 14 +++++------
 markflow/detectors/ordered_list.py | 14 +++++------
 3 files changed, 51 insertions(+), 16 deletions(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index a73e0bf..ec717b2 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -19,6 +19,7 @@ BULLET_LIST_START_REGEX = re.compile(
     r"-"  # Dash list marker
     r"][ \t]"  # Lists need a space after their identifier
 )
+ENTRY_MARKER_REGEX = re.compile(r"^\s*([*+-]|[0-9]+\.)($|[ \t])")
 LIST_MARKERS_REGEX = re.compile(r"^(\s*([*+-]|[0-9]+\.)[ \t])+")
 ORDERED_LIST_START_REGEX = re.compile(
     r"^\s*"  # Leading spaces are OK and often expected
@@ -271,6 +272,44 @@ def is_table_start_line(line: str) -> bool:
     return line.lstrip().startswith("|")
 
 
+def get_entry_marker_end(line: str, marker_end: int) -> int:
+    """Gets where the marker of the list entry that a line belongs to ends
+
+    Args:
+        line: The line to evaluate. It must be part of the list.
+        marker_end: Where the marker of the entry that the line before belongs to ends.
+
+    Returns:
+        The position after the marker if the line starts a new entry. The passed
+        position otherwise.
+    """
+    match = ENTRY_MARKER_REGEX.match(line)
+    if match is not None and get_indent(line) <= marker_end:
+        return match.end(1)
+    return marker_end
+
+
+def is_list_ending_line(line: str, marker_end: int) -> bool:
+    """Evaluates whether a line that isn't part of a code block ends a list
+
+    Args:
+        line: The line to evaluate
+        marker_end: Where the marker of the entry that the line before belongs to ends.
+
+    Returns:
+        True if the line is not part of the list. False otherwise.
+    """
+    if is_blank_line_line(line):
+        return True
+    if is_thematic_break_line(line) and re.match(r"-\S*\s", line.strip()):
+        # Following a paragraph, these need a blank line
+        return True
+    # What's indented beyond the marker is part of that entry
+    return get_indent(line) <= marker_end and (
+        is_table_start_line(line) or is_thematic_break_line(line)
+    )
+
+
 def is_thematic_break_line(line: str) -> bool:
     if is_indented_code_block_start_line(line):
         return False
diff --git a/markflow/detectors/bullet_list.py b/markflow/detectors/bullet_list.py
index 67ac671..b8a99e6 100644
--- a/markflow/detectors/bullet_list.py
+++ b/markflow/detectors/bullet_list.py
@@ -1,11 +1,10 @@
 from typing import List, Tuple
 
 from ._lines import (
+    get_entry_marker_end,
     get_open_code_fence,
-    is_blank_line_line,
     is_bullet_list_start_line,
-    is_table_start_line,
-    is_thematic_break_line,
+    is_list_ending_line,
 )
 
 
@@ -21,15 +20,14 @@ def split_bullet_list(
         return bullet_list, remaining_lines
 
     bullet_list.append(line)
+    marker_end = get_entry_marker_end(line, len(line))
     open_fence = get_open_code_fence(line, "", lines[1:])
     for index, line in indexed_line_generator:
-        if not open_fence and (
-            is_blank_line_line(line)
-            or is_table_start_line(line)
-            or is_thematic_break_line(line)
-        ):
+        if not open_fence and is_list_ending_line(line, marker_end):
             break
         else:
+            if not open_fence:
+                marker_end = get_entry_marker_end(line, marker_end)
             bullet_list.append(line)
             open_fence = get_open_code_fence(line, open_fence, lines[index + 1 :])
     else:
diff --git a/markflow/detectors/ordered_list.py b/markflow/detectors/ordered_list.py
index 096f011..5058eac 100644
--- a/markflow/detectors/ordered_list.py
+++ b/markflow/detectors/ordered_list.py
@@ -1,11 +1,10 @@
 from typing import List, Tuple
 
 from ._lines import (
+    get_entry_marker_end,
     get_open_code_fence,
-    is_blank_line_line,
     is_ordered_list_start_line,
-    is_table_start_line,
-    is_thematic_break_line,
+    is_list_ending_line,
 )
 
 
@@ -21,15 +20,14 @@ def split_ordered_list(
         return ordered_list, remaining_lines
 
     ordered_list.append(line)
+    marker_end = get_entry_marker_end(line, len(line))
     open_fence = get_open_code_fence(line, "", lines[1:])
     for index, line in indexed_line_generator:
-        if not open_fence and (
-            is_blank_line_line(line)
-            or is_table_start_line(line)
-            or is_thematic_break_line(line)
-        ):
+        if not open_fence and is_list_ending_line(line, marker_end):
             break
         else:
+            if not open_fence:
+                marker_end = get_entry_marker_end(line, marker_end)
             ordered_list.append(line)
             open_fence = get_open_code_fence(line, open_fence, lines[index + 1 :])
     else:
-- 
2.43.0


From 83288e23e7d02a459db67fdb7a1959193d954ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:29 +0000
Subject: [PATCH 55/55] fix: keep destinations and titles of definitions on
 their lines

---
 markflow/formatters/link_reference_definition.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/markflow/formatters/link_reference_definition.py b/markflow/formatters/link_reference_definition.py
index 98e4aa1..c0600b4 100644
--- a/markflow/formatters/link_reference_definition.py
+++ b/markflow/formatters/link_reference_definition.py
@@ -84,8 +84,6 @@ class MarkdownLinkReferenceDefinition(MarkdownSection):
         self.lines.append(line)
 
     def reformatted(self, width: Number = 88) -> str:
-        # Last index indicates that last line we checked for content
-        last_index = 0
         str_ = f"[{self.name}]:"
         if not self.link:
             logger.warning(
@@ -95,10 +93,11 @@ class MarkdownLinkReferenceDefinition(MarkdownSection):
             )
             return str_
 
-        if self.link in self.lines[last_index]:
+        link_and_title = self.lines[0].split("]:", maxsplit=1)[1].split(maxsplit=1)
+        if link_and_title:
             str_ += f" {self.link}"
         else:
-            last_index = 1
+            link_and_title = self.lines[1].split(maxsplit=1)
             str_ += f"\n{self.link}"
 
         title = self.title
@@ -107,7 +106,7 @@ class MarkdownLinkReferenceDefinition(MarkdownSection):
 
         # We don't naively wrap link reference definitions because they are allowed to
         # overflow lines (the label and url portions).
-        if title.split()[0] in self.lines[last_index]:
+        if len(link_and_title) > 1:
             # Our title was on the line with our link
             if len(title.split()[0]) + len(str_.splitlines()[-1]) <= width:
                 # Only the title may be wrapped, so have something stand in for the rest
-- 
2.43.0

