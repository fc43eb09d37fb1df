From 5234b0871f1622643faaa363fb67abe3d5cd4432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 01/68] fix: don't crash on a paragraph ending in a hard break
 at end of text

The last line of the document has no tail after it, so advancing the tail
generator raised StopIteration.
---
 markflow/detectors/paragraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/detectors/paragraph.py b/markflow/detectors/paragraph.py
index 4abf9f9..c04705f 100644
--- a/markflow/detectors/paragraph.py
+++ b/markflow/detectors/paragraph.py
@@ -106,7 +106,7 @@ def split_paragraph_ignoring_setext(
                 # ToDo: This should be handled in `wrap` as a double space is always a
                 #  newline in any section type.
                 if tail[0].endswith("  "):
-                    remaining_lines = next(tail_lines_generator)
+                    remaining_lines = tail[1:]
                     break
             else:
                 remaining_lines = tail
-- 
2.43.0


From d1cb5fb66c6512f020d96601886e9b19e6d301a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:19 +0000
Subject: [PATCH 02/68] fix: find the end of a link reference definition
 correctly

At the end of the text, a definition with its URL on the second line crashed
with StopIteration and one without a title was not recognised. When the text
after the URL turned out not to be a title, everything up to the line where
that was noticed, blank lines and other blocks included, was absorbed.
---
 .../detectors/link_reference_definition.py    | 31 ++++++++++++-------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/markflow/detectors/link_reference_definition.py b/markflow/detectors/link_reference_definition.py
index 3bb2ec0..55088ef 100644
--- a/markflow/detectors/link_reference_definition.py
+++ b/markflow/detectors/link_reference_definition.py
@@ -25,7 +25,7 @@ Examples:
 import itertools
 import logging
 import re
-from typing import List, Tuple
+from typing import Iterator, List, Tuple
 
 from .._utils import get_indent
 
@@ -39,6 +39,13 @@ LINK_REFERENCE_DEFINITION_FIRST_ELEMENT_REGEX = re.compile(
 QUOTATION_CHARACTERS = "'\""
 
 
+def _next_line_or_end(
+    indexed_line_generator: Iterator[Tuple[int, str]], lines: List[str]
+) -> Tuple[int, str]:
+    """Get the next line and its index or an empty one just past the end of lines"""
+    return next(indexed_line_generator, (len(lines), ""))
+
+
 def split_link_reference_definition(
     lines: List[str], line_offset: int = 0
 ) -> Tuple[List[str], List[str]]:
@@ -84,11 +91,7 @@ def split_link_reference_definition(
         title_text = url_and_title[1]
     elif len(url_and_title) == 1:
         # Only the label and URL are on the first line
-        try:
-            index, line = next(indexed_line_generator)
-            title_text = line
-        except StopIteration:
-            title_text = ""
+        index, title_text = _next_line_or_end(indexed_line_generator, lines)
         is_complete = True
     else:
         # Just the label was on the first line
@@ -110,13 +113,16 @@ def split_link_reference_definition(
             return link_reference_definition, remaining_lines
         elif len(line.split(maxsplit=1)) == 1:
             # Only the URL is on the second line
-            index, line = next(indexed_line_generator)
+            index, title_text = _next_line_or_end(indexed_line_generator, lines)
             is_complete = True
-            title_text = line
         else:
             # The URL and possible title (or part of it) are on the second line
             title_text = line.split(maxsplit=1)[1]
 
+    # If there turns out to be no valid title, nothing from here on is part of a
+    # definition that can stand on its own.
+    end_index = index
+
     if title_text.strip():
         quotation_character = title_text[0]
     else:
@@ -127,15 +133,18 @@ def split_link_reference_definition(
         for index, line in itertools.chain(
             [(index, title_text[1:])], indexed_line_generator
         ):
+            if index > end_index and not line.strip():
+                # Titles can't contain blank lines
+                break
             match = closing_regex.search(line.rstrip())
             if match:
                 if match.end() == len(line.rstrip()):
                     is_complete = True
-                    index += 1
+                    end_index = index + 1
                 break
 
     if is_complete:
-        link_reference_definition = lines[:index]
-        remaining_lines = lines[index:]
+        link_reference_definition = lines[:end_index]
+        remaining_lines = lines[end_index:]
 
     return link_reference_definition, remaining_lines
-- 
2.43.0


From d3f378ab9c8e3372cbe751a5118a86962b8defc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 03/68] fix: don't drop label and destination when a
 definition's title is moved

When the title of a link reference definition didn't fit on the line of its
destination, it replaced the label and destination instead of following them.
---
 markflow/formatters/link_reference_definition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/formatters/link_reference_definition.py b/markflow/formatters/link_reference_definition.py
index c3248b2..2281005 100644
--- a/markflow/formatters/link_reference_definition.py
+++ b/markflow/formatters/link_reference_definition.py
@@ -105,7 +105,7 @@ class MarkdownLinkReferenceDefinition(MarkdownSection):
                 lines = str_.splitlines()
                 str_ = "\n".join(lines[:-1] + [wrap(lines[-1] + " " + title, width)])
             else:
-                str_ = "\n" + wrap(title, width)
+                str_ += "\n" + wrap(title, width)
         else:
             str_ += "\n" + wrap(title, width)
 
-- 
2.43.0


From cc19140f50083cb3d2faab2f5409d0c041d3762f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 04/68] fix: keep the line breaks of a link reference
 definition

Whether the destination and the title were on their own lines was guessed from
their text occurring anywhere in the preceding line, so '[a]:' followed by 'a'
was joined.
---
 markflow/formatters/link_reference_definition.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/markflow/formatters/link_reference_definition.py b/markflow/formatters/link_reference_definition.py
index 2281005..596f909 100644
--- a/markflow/formatters/link_reference_definition.py
+++ b/markflow/formatters/link_reference_definition.py
@@ -81,16 +81,16 @@ class MarkdownLinkReferenceDefinition(MarkdownSection):
         self.lines.append(line)
 
     def reformatted(self, width: Number = 88) -> str:
-        # Last index indicates that last line we checked for content
-        last_index = 0
         str_ = f"[{self.name}]:"
         if not self.link:
             return str_
 
-        if self.link in self.lines[last_index]:
+        # What follows the label on its own line
+        rest_of_line = self.lines[0].strip()[len(str_) :]
+        if rest_of_line.strip():
             str_ += f" {self.link}"
         else:
-            last_index = 1
+            rest_of_line = self.lines[1]
             str_ += f"\n{self.link}"
 
         title = self.title
@@ -99,7 +99,7 @@ class MarkdownLinkReferenceDefinition(MarkdownSection):
 
         # We don't naively wrap link reference definitions because they are allowed to
         # overflow lines (the label and url portions).
-        if title.split()[0] in self.lines[last_index]:
+        if rest_of_line.strip() != self.link:
             # Our title was on the line with our link
             if len(title.split()[0]) + len(str_.splitlines()[-1]) <= width:
                 lines = str_.splitlines()
-- 
2.43.0


From a39c90b9452e783e963febd7165d7bb3ef7a212f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 05/68] fix: don't drop the last line of an unclosed fenced
 code block

The last line was assumed to be the closing fence, and a closing fence longer
than the opening one was not recognised, so content was lost (or, for a lone
fence, the formatter crashed).
---
 markflow/detectors/fenced_code_block.py  |  3 ++-
 markflow/formatters/fenced_code_block.py | 21 +++++++++++++++++----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/markflow/detectors/fenced_code_block.py b/markflow/detectors/fenced_code_block.py
index 8fa2066..79b0986 100644
--- a/markflow/detectors/fenced_code_block.py
+++ b/markflow/detectors/fenced_code_block.py
@@ -128,7 +128,8 @@ def split_fenced_code_block(
 
     for index, line in indexed_line_generator:
         fenced_code_block.append(line)
-        if line.strip() == full_fence:
+        # A closing fence may be longer than the opening one
+        if line.strip().startswith(full_fence) and not line.strip().strip(fence):
             if get_indent(line) > 3 + fence_indent:
                 logger.warning(
                     "Detected that the fence on line %d is over indented per the "
diff --git a/markflow/formatters/fenced_code_block.py b/markflow/formatters/fenced_code_block.py
index a975e48..d308c89 100644
--- a/markflow/formatters/fenced_code_block.py
+++ b/markflow/formatters/fenced_code_block.py
@@ -32,7 +32,7 @@ before or after.
 https://spec.commonmark.org/0.29/#fenced-code-blocks
 """
 
-from typing import Optional
+from typing import List, Optional
 
 from .._utils import truncate_str
 from ..typing import Number
@@ -54,12 +54,25 @@ class MarkdownFencedCodeBlock(MarkdownSection):
             self.lines[0].strip().lstrip(self.fence_char)
         )
 
+    @property
+    def content(self) -> List[str]:
+        last_line = self.lines[-1].strip()
+        if (
+            len(self.lines) > 1
+            and len(last_line) >= self.fence_count
+            and not last_line.strip(self.fence_char)
+        ):
+            return self.lines[1:-1]
+        else:
+            # The end of the text was reached without finding a closing fence
+            return self.lines[1:]
+
     @property
     def first_line(self) -> Optional[str]:
-        if len(self.lines) == 2:
+        if not self.content:
             return None
         else:
-            return self.lines[1].strip()
+            return self.content[0].strip()
 
     @property
     def language(self) -> str:
@@ -70,7 +83,7 @@ class MarkdownFencedCodeBlock(MarkdownSection):
 
     def reformatted(self, width: Number = 88) -> str:
         fence = self.fence_char * self.fence_count
-        new_lines = [fence + self.language] + self.lines[1:-1] + [fence]
+        new_lines = [fence + self.language] + self.content + [fence]
         return "\n".join([line.rstrip() for line in new_lines])
 
     def __repr__(self) -> str:
-- 
2.43.0


From 8730ee2cca495f0a27f94771dfdd74d866cba118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 06/68] fix: don't treat a line of inline code as an opening
 code fence

Lines starting with inline code delimited by three or more backticks were taken
for an opening fence, turning the rest of the text into code.
---
 markflow/detectors/_lines.py            | 26 +++++++++++++++++++++----
 markflow/detectors/fenced_code_block.py | 15 +++++++-------
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index f9bbae0..b70eca6 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -85,6 +85,27 @@ def is_explicit_block_quote_line(line: str) -> bool:
     return not is_indented_code_block_start_line(line) and line.lstrip().startswith(">")
 
 
+def get_opening_fence(line: str) -> str:
+    """Get the fence of a line that could open a fenced code block
+
+    The text after a backtick fence can't contain backticks as the line would otherwise
+    be inline code.
+
+    Args:
+        line: The line to evaluate
+
+    Returns:
+        The fence opening the block. An empty string if the line doesn't open one.
+    """
+    stripped_line = line.strip()
+    for character in FENCED_CODE_BLOCK_FENCE_CHARACTERS:
+        info_string = stripped_line.lstrip(character)
+        fence = stripped_line[: len(stripped_line) - len(info_string)]
+        if len(fence) >= 3 and not (character == "`" and "`" in info_string):
+            return fence
+    return ""
+
+
 def is_fenced_code_block_start_line(line: str) -> bool:
     """Evaluates whether a line could open a fenced code block
 
@@ -100,10 +121,7 @@ def is_fenced_code_block_start_line(line: str) -> bool:
     Returns:
         True if the line is could open a fenced code block. False otherwise.
     """
-    for fence in FENCED_CODE_BLOCK_FENCE_CHARACTERS:
-        if line.strip().startswith(fence * 3):
-            return True
-    return False
+    return bool(get_opening_fence(line))
 
 
 def is_indented_code_block_start_line(line: str) -> bool:
diff --git a/markflow/detectors/fenced_code_block.py b/markflow/detectors/fenced_code_block.py
index 79b0986..909e014 100644
--- a/markflow/detectors/fenced_code_block.py
+++ b/markflow/detectors/fenced_code_block.py
@@ -22,6 +22,7 @@ import logging
 from typing import List, Tuple
 
 from .._utils import get_indent
+from ._lines import get_opening_fence
 
 logger = logging.getLogger(__name__)
 
@@ -115,21 +116,19 @@ def split_fenced_code_block(
     indexed_line_generator = enumerate(lines)
 
     index, line = next(indexed_line_generator)
-    for fence in FENCES:
-        if line.strip().startswith(fence * 3):
-            count = len(line.lstrip()) - len(line.lstrip().lstrip(fence))
-            fence_indent = get_indent(line)
-            full_fence = fence * count
-            break
-    else:
+    full_fence = get_opening_fence(line)
+    if not full_fence:
         return fenced_code_block, remaining_lines
 
+    fence_indent = get_indent(line)
     fenced_code_block.append(line)
 
     for index, line in indexed_line_generator:
         fenced_code_block.append(line)
         # A closing fence may be longer than the opening one
-        if line.strip().startswith(full_fence) and not line.strip().strip(fence):
+        if line.strip().startswith(full_fence) and not line.strip().strip(
+            full_fence
+        ):
             if get_indent(line) > 3 + fence_indent:
                 logger.warning(
                     "Detected that the fence on line %d is over indented per the "
-- 
2.43.0


From 87c8aaeb3695219817a9cb664fec69b4fa8b167e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:21 +0000
Subject: [PATCH 07/68] fix: recognise fenced code blocks inside of list
 entries

Blank lines, thematic breaks and table rows inside of a fenced code block ended
the list and markers inside of a block opened on the line of the entry's marker
started new entries, breaking the block apart. An unclosed block in an entry
absorbed the entries after it.
---
 markflow/detectors/_lines.py            | 59 +++++++++++++++++++++++++
 markflow/detectors/bullet_list.py       |  4 +-
 markflow/detectors/fenced_code_block.py |  7 +--
 markflow/detectors/ordered_list.py      |  4 +-
 markflow/formatters/lists.py            | 32 +++++---------
 5 files changed, 78 insertions(+), 28 deletions(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index b70eca6..29f0d80 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -6,6 +6,7 @@ lines. They are stored here so as to avoid any circular imports.
 """
 
 import re
+from typing import List, Set
 
 from .._utils import get_indent
 
@@ -24,6 +25,7 @@ ORDERED_LIST_START_REGEX = re.compile(
     r"[0-9]+\."  # Numeric list marker
     r") "  # Lists need a space after their identifier
 )
+LIST_MARKER_REGEX = re.compile(r"^\s*([*+-]|[0-9]+\.) ")
 THEMATIC_BREAK_CHARACTERS = ["*", "_", "-"]
 
 
@@ -124,6 +126,63 @@ def is_fenced_code_block_start_line(line: str) -> bool:
     return bool(get_opening_fence(line))
 
 
+def is_closing_fence_line(line: str, fence: str) -> bool:
+    """Evaluates whether a line closes a fenced code block
+
+    Args:
+        line: The line to evaluate
+        fence: The fence the block was opened with
+
+    Returns:
+        True if the line closes the block. False otherwise.
+    """
+    # A closing fence may be longer than the opening one
+    return line.strip().startswith(fence) and not line.strip().strip(fence)
+
+
+def get_fenced_lines_in_list(lines: List[str]) -> Set[int]:
+    """Find the lines inside of the fenced code blocks of a list's entries
+
+    Those lines are code no matter what they look like, so they neither start an entry
+    nor end the list.
+
+    Args:
+        lines: The lines to evaluate, the first of which is the start of a list
+
+    Returns:
+        The indexes of the lines between opening and closing fence, including the latter
+    """
+    fenced_lines: Set[int] = set()
+    entry_indents: List[int] = []
+    index = 0
+    while index < len(lines):
+        content = lines[index]
+        indent = get_indent(content)
+        match = LIST_MARKER_REGEX.match(content)
+        while match:
+            indent += match.end()
+            entry_indents.append(indent)
+            content = content[match.end() :]
+            match = LIST_MARKER_REGEX.match(content)
+
+        index += 1
+        fence = get_opening_fence(content)
+        if not fence:
+            continue
+
+        # A fenced code block also ends with the entry it is in
+        entry_indent = max([i for i in entry_indents if i <= indent], default=indent)
+        for end, line in enumerate(lines[index:], start=index):
+            if is_closing_fence_line(line, fence):
+                fenced_lines.update(range(index, end + 1))
+                index = end + 1
+                break
+            if line.strip() and get_indent(line) < entry_indent:
+                break
+
+    return fenced_lines
+
+
 def is_indented_code_block_start_line(line: str) -> bool:
     """Evaluates whether a line could start and indented code block
 
diff --git a/markflow/detectors/bullet_list.py b/markflow/detectors/bullet_list.py
index 5adc533..5093eaf 100644
--- a/markflow/detectors/bullet_list.py
+++ b/markflow/detectors/bullet_list.py
@@ -1,6 +1,7 @@
 from typing import List, Tuple
 
 from ._lines import (
+    get_fenced_lines_in_list,
     is_blank_line_line,
     is_bullet_list_start_line,
     is_table_start_line,
@@ -20,8 +21,9 @@ def split_bullet_list(
         return bullet_list, remaining_lines
 
     bullet_list.append(line)
+    fenced_lines = get_fenced_lines_in_list(lines)
     for index, line in indexed_line_generator:
-        if (
+        if index not in fenced_lines and (
             is_blank_line_line(line)
             or is_table_start_line(line)
             or is_thematic_break_line(line)
diff --git a/markflow/detectors/fenced_code_block.py b/markflow/detectors/fenced_code_block.py
index 909e014..c541a22 100644
--- a/markflow/detectors/fenced_code_block.py
+++ b/markflow/detectors/fenced_code_block.py
@@ -22,7 +22,7 @@ import logging
 from typing import List, Tuple
 
 from .._utils import get_indent
-from ._lines import get_opening_fence
+from ._lines import get_opening_fence, is_closing_fence_line
 
 logger = logging.getLogger(__name__)
 
@@ -125,10 +125,7 @@ def split_fenced_code_block(
 
     for index, line in indexed_line_generator:
         fenced_code_block.append(line)
-        # A closing fence may be longer than the opening one
-        if line.strip().startswith(full_fence) and not line.strip().strip(
-            full_fence
-        ):
+        if is_closing_fence_line(line, full_fence):
             if get_indent(line) > 3 + fence_indent:
                 logger.warning(
                     "Detected that the fence on line %d is over indented per the "
diff --git a/markflow/detectors/ordered_list.py b/markflow/detectors/ordered_list.py
index 4d63b66..ad2804a 100644
--- a/markflow/detectors/ordered_list.py
+++ b/markflow/detectors/ordered_list.py
@@ -1,6 +1,7 @@
 from typing import List, Tuple
 
 from ._lines import (
+    get_fenced_lines_in_list,
     is_blank_line_line,
     is_ordered_list_start_line,
     is_table_start_line,
@@ -20,8 +21,9 @@ def split_ordered_list(
         return ordered_list, remaining_lines
 
     ordered_list.append(line)
+    fenced_lines = get_fenced_lines_in_list(lines)
     for index, line in indexed_line_generator:
-        if (
+        if index not in fenced_lines and (
             is_blank_line_line(line)
             or is_table_start_line(line)
             or is_thematic_break_line(line)
diff --git a/markflow/formatters/lists.py b/markflow/formatters/lists.py
index edfb4c4..7d6a2b0 100644
--- a/markflow/formatters/lists.py
+++ b/markflow/formatters/lists.py
@@ -8,6 +8,7 @@ import string
 from typing import List
 
 from .._utils import get_indent, redirect_info_logs_to_debug, truncate_str
+from ..detectors._lines import get_fenced_lines_in_list
 from ..typing import Number
 from .base import MarkdownSection
 
@@ -21,7 +22,6 @@ MARKER_REGEX = re.compile(
     r")"
     r"($| )"  # End of line or space
 )
-CODE_BLOCK_FENCES = "`~"
 REPR_CONTENT_LEN = 20
 
 
@@ -58,26 +58,11 @@ def _list_marker_end_pos(line: str) -> int:
 
 
 def _split_list(lines: List[str]) -> List[List[str]]:
-    in_code_block = False
-    code_block_end = ""
-
     list_entries: List[List[str]] = []
+    fenced_lines = get_fenced_lines_in_list(lines)
     max_indent = _list_marker_end_pos(lines[0])
-    for line in lines:
-        if any(line.lstrip().startswith(f * 3) for f in CODE_BLOCK_FENCES):
-            code_block_symbol = line.lstrip()[0]
-            code_block_marker_length = len(line.lstrip()) - len(
-                line.lstrip(code_block_symbol)
-            )
-            code_block_marker = code_block_marker_length * code_block_symbol
-            if in_code_block:
-                if code_block_end == code_block_marker:
-                    in_code_block = False
-            else:
-                in_code_block = True
-                code_block_end = code_block_marker
-
-        if MARKER_REGEX.match(line) and not in_code_block:
+    for index, line in enumerate(lines):
+        if MARKER_REGEX.match(line) and index not in fenced_lines:
             line_indent = get_indent(line)
             list_indent = _list_marker_end_pos(line)
             if line_indent <= max_indent:
@@ -103,6 +88,11 @@ def _dedent_entries(list_entries: List[List[str]]) -> List[List[str]]:
     return dedented_entries
 
 
+def _indent_following_lines(entry: str, indent: int) -> str:
+    first_line, *lines = entry.split("\n")
+    return "\n".join([first_line] + [indent * " " + l if l else l for l in lines])
+
+
 class MarkdownBulletList(MarkdownSection):
     @property
     def marker(self) -> str:
@@ -130,7 +120,7 @@ class MarkdownBulletList(MarkdownSection):
             reformatted_entry = (
                 self.marker
                 + " "
-                + ("\n" + toplevel_indent * " ").join(reformatted_entry.split("\n"))
+                + _indent_following_lines(reformatted_entry, toplevel_indent)
             )
             reformatted_entries.append(reformatted_entry)
 
@@ -176,7 +166,7 @@ class MarkdownOrderedList(MarkdownSection):
             reformatted_entry = (
                 str(entry_number)
                 + ". "
-                + ("\n" + toplevel_indent * " ").join(reformatted_entry.split("\n"))
+                + _indent_following_lines(reformatted_entry, toplevel_indent)
             )
             reformatted_entries.append(reformatted_entry)
 
-- 
2.43.0


From 1e4c758b22e8004957106f22de942074e29dc9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:49 +0000
Subject: [PATCH 08/68] fix: don't crash on text starting with a period

---
 markflow/_utils/textwrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index c4f15e9..0b5b55a 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -89,7 +89,7 @@ def code_split(
     else:
         remaining_text = text[last_end:]
         if (
-            remaining_text
+            split_text
             and remaining_text.startswith(".")
             and not remaining_text.startswith("..")
         ):
@@ -176,7 +176,7 @@ def link_split(
 
     remaining_text = text[last_end:]
     if (
-        remaining_text
+        split_text
         and remaining_text.startswith(".")
         and not remaining_text.startswith("..")
     ):
-- 
2.43.0


From 49f80b4d557ffb37e7ce2b4d9eb3dc08505a2035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:27 +0000
Subject: [PATCH 09/68] fix: don't lose or duplicate text of nested and
 adjoining links

---
 markflow/_utils/textwrap.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 0b5b55a..d9cb9c3 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -137,6 +137,9 @@ def link_split(
     # Each iteration of this for loop operates on non-link text followed by
     # link text.
     for match in matches:
+        if match.start() < last_end:
+            # This overlaps with the link we just split, so it isn't a link of its own
+            continue
         non_link_text = text[last_end : match.start()]
         if non_link_text.strip():
             if (
@@ -162,11 +165,11 @@ def link_split(
 
         leading_spaces.append(False)
         if "](" in match.group():
-            split_link = match.group().split("](")
+            split_link = match.group().split("](", maxsplit=1)
             split_text.append(split_link[0].strip() + "](")
             split_text.append(split_link[1].strip())
         else:
-            split_link = match.group().split("][")
+            split_link = match.group().split("][", maxsplit=1)
             split_text.append(split_link[0].strip() + "][")
             split_text.append(split_link[1].strip())
 
-- 
2.43.0


From 3e43dfcee7de1566fc8cefd3b371b8b4ab75e6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:51 +0000
Subject: [PATCH 10/68] fix: don't treat an escaped backtick as the start of
 inline code

---
 markflow/_utils/textwrap.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index d9cb9c3..a195ae9 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -3,7 +3,7 @@ from typing import List, Tuple
 
 from markflow.typing import Number
 
-INLINE_CODE_MARKER_REGEX = re.compile(r"(((?!<\\)`)+)")
+INLINE_CODE_MARKER_REGEX = re.compile(r"`+")
 FOOTNOTE_REGEX = re.compile(r"[^\s\]\)]*\[[^\[]+\]\[[^\]]+\][^\s\[\(]*")
 HTML_NEWLINE_REGEX = re.compile(r"<br ?/?>")
 URL_REGEX = re.compile(r"[^\s\]\)]*\[[^\[]+\]\([^\)]+\)[^\s\[\(]*")
@@ -45,7 +45,14 @@ def code_split(
     # beginning, ending, or still in code.
     for code_marker in INLINE_CODE_MARKER_REGEX.finditer(text):
         if open_marker_len == 0:
-            plaintext = text[last_end : code_marker.start()]
+            code_start = code_marker.start()
+            preceding_text = text[:code_start]
+            if (len(preceding_text) - len(preceding_text.rstrip("\\"))) % 2:
+                # The first tilda is escaped, which is only possible outside of code
+                code_start += 1
+                if code_start == code_marker.end():
+                    continue
+            plaintext = text[last_end:code_start]
             if (
                 plaintext.startswith(".")
                 and not plaintext.startswith("..")
@@ -60,7 +67,7 @@ def code_split(
                     leading_spaces.append(plaintext.startswith(" "))
                 split_text.append(plaintext.strip())
                 evaluates.append(True)
-            open_marker_len = len(code_marker.group())
+            open_marker_len = code_marker.end() - code_start
 
             # Prepare our lists for code
             if not leading_spaces:
-- 
2.43.0


From be1c8a9f0ce55bc2b2517b34d75c7b7576a0e3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 11/68] fix: only wrap text where that doesn't add whitespace

---
 markflow/_utils/textwrap.py | 40 +++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index a195ae9..ac5ebef 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -9,9 +9,45 @@ HTML_NEWLINE_REGEX = re.compile(r"<br ?/?>")
 URL_REGEX = re.compile(r"[^\s\]\)]*\[[^\[]+\]\([^\)]+\)[^\s\[\(]*")
 
 
+def _glue(
+    split_text: List[str], leading_spaces: List[bool]
+) -> Tuple[List[str], List[bool], List[bool]]:
+    """Join text that can't be on different lines
+
+    A new line is whitespace when rendered, so text without a space in front of it has
+    to stay with the text before it unless that ends with the first half of a link or an
+    HTML new line.
+
+    Args:
+        split_text: The text that has been split
+        leading_spaces: Should the text have a leading space when not on a new line?
+
+    Returns:
+        Glued text, What text has leading spaces, What text ends with an HTML new line
+    """
+    glued_text: List[str] = []
+    glued_spaces: List[bool] = []
+    html_newlines: List[bool] = []
+    breakable = True
+    for word, leading_space in zip(split_text, leading_spaces):
+        is_html_newline = bool(HTML_NEWLINE_REGEX.match(word))
+        if leading_space or breakable:
+            glued_text.append(word)
+            glued_spaces.append(leading_space)
+            html_newlines.append(is_html_newline)
+        else:
+            glued_text[-1] += word
+            html_newlines[-1] = is_html_newline
+        breakable = is_html_newline or word.endswith(("](", "]["))
+
+    return glued_text, glued_spaces, html_newlines
+
+
 def join(split_text: List[str], leading_spaces: List[bool], width: Number) -> str:
     new_split_text = [""]
-    for word, leading_space in zip(split_text, leading_spaces):
+    for word, leading_space, is_html_newline in zip(
+        *_glue(split_text, leading_spaces)
+    ):
         if leading_space and new_split_text[-1]:
             potential_new_string = f"{new_split_text[-1]} {word}"
         else:
@@ -22,7 +58,7 @@ def join(split_text: List[str], leading_spaces: List[bool], width: Number) -> st
             new_split_text.append(word)
 
         # If we hit an HTML new line, the next text should begin on a new line.
-        if HTML_NEWLINE_REGEX.match(word):
+        if is_html_newline:
             new_split_text.append("")
 
     if not new_split_text[-1]:
-- 
2.43.0


From 236ee515d5ed1e05aa7e9f4639cbef3ab1844dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 12/68] fix: don't wrap text so that a new line starts a new
 section

---
 markflow/_utils/textwrap.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index ac5ebef..50bd92a 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -1,6 +1,7 @@
 import re
 from typing import List, Tuple
 
+from markflow.detectors._lines import is_paragraph_start_line, is_setext_underline
 from markflow.typing import Number
 
 INLINE_CODE_MARKER_REGEX = re.compile(r"`+")
@@ -9,6 +10,19 @@ HTML_NEWLINE_REGEX = re.compile(r"<br ?/?>")
 URL_REGEX = re.compile(r"[^\s\]\)]*\[[^\[]+\]\([^\)]+\)[^\s\[\(]*")
 
 
+def _can_start_line(word: str) -> bool:
+    """Can this text start a line without being mistaken for a new section?
+
+    This errs on the side of caution as we don't know what would follow it.
+    """
+    return (
+        is_paragraph_start_line(word + " ")
+        and not is_setext_underline(word)
+        and bool(word.strip("*") and word.strip("_"))
+        and word != "1)"
+    )
+
+
 def _glue(
     split_text: List[str], leading_spaces: List[bool]
 ) -> Tuple[List[str], List[bool], List[bool]]:
@@ -16,7 +30,7 @@ def _glue(
 
     A new line is whitespace when rendered, so text without a space in front of it has
     to stay with the text before it unless that ends with the first half of a link or an
-    HTML new line.
+    HTML new line. So does text that would start a new section on a new line.
 
     Args:
         split_text: The text that has been split
@@ -40,6 +54,13 @@ def _glue(
             html_newlines[-1] = is_html_newline
         breakable = is_html_newline or word.endswith(("](", "]["))
 
+    for i in range(len(glued_text) - 1, 0, -1):
+        if not _can_start_line(glued_text[i]):
+            space = " " if glued_spaces[i] else ""
+            glued_text[i - 1 : i + 1] = [glued_text[i - 1] + space + glued_text[i]]
+            del glued_spaces[i]
+            del html_newlines[i - 1]
+
     return glued_text, glued_spaces, html_newlines
 
 
-- 
2.43.0


From 359e610e3901e9a5cc745f1127e409b053b2d3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 13/68] fix: let thematic breaks take precedence over list
 items

---
 markflow/detectors/_lines.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index 29f0d80..901b705 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -235,8 +235,11 @@ def is_bullet_list_start_line(line: str) -> bool:
     Returns:
         True if the line is could start a bullet list. False otherwise.
     """
-    return not is_indented_code_block_start_line(line) and bool(
-        BULLET_LIST_START_REGEX.search(line)
+    # Thematic breaks take precedence over list items
+    return (
+        not is_indented_code_block_start_line(line)
+        and not is_thematic_break_line(line)
+        and bool(BULLET_LIST_START_REGEX.search(line))
     )
 
 
-- 
2.43.0


From 9b0399e9e81e31296d31009f666f7adcc7de2f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 14/68] fix: never shorten a thematic break to less than three
 characters

---
 markflow/formatters/thematic_break.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/markflow/formatters/thematic_break.py b/markflow/formatters/thematic_break.py
index 763f373..632115a 100644
--- a/markflow/formatters/thematic_break.py
+++ b/markflow/formatters/thematic_break.py
@@ -43,7 +43,8 @@ class MarkdownThematicBreak(MarkdownSection):
                     f"Invalid width {repr(width)} passed. How did you manage this?"
                 )
         else:
-            return self.char * width
+            # Anything shorter than three characters isn't a thematic break
+            return self.char * max(3, width)
 
     def __repr__(self) -> str:
         return f"<{self.__class__.__name__}: char={repr(self.char)}>"
-- 
2.43.0


From dd37471d2c079c85d003b4ab58a23a8701db06e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 15/68] fix: don't lose cells, delimiters or rows of malformed
 tables

---
 markflow/formatters/table.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/markflow/formatters/table.py b/markflow/formatters/table.py
index 10b859e..20f4c4a 100644
--- a/markflow/formatters/table.py
+++ b/markflow/formatters/table.py
@@ -1,6 +1,7 @@
 import enum
 import math
 import re
+from typing import List
 
 from ..exceptions import MarkdownFormatException
 from ..typing import Number
@@ -9,6 +10,7 @@ from .base import MarkdownSection
 __all__ = ["MarkdownTable"]
 
 COLUMN_DIVIDER_REGEX = re.compile(r"(?<!\\)" r"\|")  # Ignore escaped |
+DIVIDER_REGEX = re.compile(r":?-+:?")
 
 
 class Alignment(enum.Enum):
@@ -35,23 +37,34 @@ def right_align(text: str, width: int) -> str:
     return f"{' ' * padding}{text}"
 
 
+def split_columns(line: str) -> List[str]:
+    columns = [column.strip() for column in COLUMN_DIVIDER_REGEX.split(line.strip())]
+    # The closing | is optional
+    return columns[1:-1] if not columns[-1] else columns[1:]
+
+
 class MarkdownTable(MarkdownSection):
     def append(self, line: str) -> None:
         self.lines.append(line)
 
     def reformatted(self, width: Number = 88) -> str:
+        dividers = split_columns(self.lines[1]) if len(self.lines) > 1 else []
+        if not dividers or not all(DIVIDER_REGEX.fullmatch(d) for d in dividers):
+            raise MarkdownFormatException(
+                f"Line {self.line_index + min(len(self.lines), 2)} is part of a table "
+                "without a valid delimiter row"
+            )
+
         column_widths = []
         for i, line in enumerate(self.lines):
             if i == 1:
                 # Skip the divider line
                 continue
-            cols = COLUMN_DIVIDER_REGEX.split(line)[1:-1]
-            cols = [col.strip() for col in cols]
+            cols = split_columns(line)
             column_widths.append(tuple(len(col) for col in cols))
 
         column_alignments = []
-        for divider in self.lines[1].strip()[1:-1].split("|"):
-            divider = divider.strip()
+        for divider in dividers:
             if divider.startswith(":") and divider.endswith(":"):
                 column_alignments.append(Alignment.CENTER)
             elif divider.startswith(":"):
@@ -62,6 +75,11 @@ class MarkdownTable(MarkdownSection):
                 column_alignments.append(Alignment.NONE)
 
         header_column_count = len(column_widths[0])
+        if len(dividers) != header_column_count:
+            raise MarkdownFormatException(
+                f"Line {self.line_index + 2} has unexpected number of columns "
+                f"(expected: {header_column_count}, actual: {len(dividers)})"
+            )
         for i, column_width in enumerate(column_widths[1:], start=2):
             if len(column_width) != header_column_count:
                 raise MarkdownFormatException(
@@ -77,12 +95,11 @@ class MarkdownTable(MarkdownSection):
 
         new_lines = []
         # First line is headers. We'll center them.
-        headers = COLUMN_DIVIDER_REGEX.split(self.lines[0])[1:-1]
+        headers = split_columns(self.lines[0])
         header_strings = []
         for header, width, alignment in zip(
             headers, new_column_widths, column_alignments
         ):
-            header = header.strip()
             if alignment == Alignment.CENTER:
                 header_strings.append(f" {center_align(header, width)} ")
             elif alignment == Alignment.LEFT:
@@ -111,9 +128,8 @@ class MarkdownTable(MarkdownSection):
         for line in self.lines[2:]:
             columns = []
             for column, width, alignment in zip(
-                line.split("|")[1:-1], new_column_widths, column_alignments
+                split_columns(line), new_column_widths, column_alignments
             ):
-                column = column.strip()
                 if alignment == Alignment.CENTER:
                     columns.append(f" {center_align(column, width)} ")
                 elif alignment == Alignment.LEFT:
-- 
2.43.0


From 06ff14893d9667cfa7d934867f43404f738429f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 16/68] fix: keep the delimiter of an empty centered column
 valid

---
 markflow/formatters/table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/markflow/formatters/table.py b/markflow/formatters/table.py
index 20f4c4a..9d7d7b2 100644
--- a/markflow/formatters/table.py
+++ b/markflow/formatters/table.py
@@ -87,7 +87,8 @@ class MarkdownTable(MarkdownSection):
                     f"(expected: {header_column_count}, actual: {len(column_width)})"
                 )
 
-        new_column_widths = [0 for _ in column_widths[0]]
+        # Centered columns need at least one dash between the colons of their delimiter
+        new_column_widths = [int(a == Alignment.CENTER) for a in column_alignments]
         for widths in column_widths:
             for i, width in enumerate(widths):
                 if width > new_column_widths[i]:
-- 
2.43.0


From bf51850cb505899abeed1a5b1f2af494372ede94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:50 +0000
Subject: [PATCH 17/68] fix: don't end a list at tables and thematic breaks
 inside of its entries

---
 markflow/detectors/_lines.py       | 25 +++++++++++++++++++++++++
 markflow/detectors/bullet_list.py  |  6 +++---
 markflow/detectors/ordered_list.py |  6 +++---
 3 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index 901b705..e9acf40 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -183,6 +183,31 @@ def get_fenced_lines_in_list(lines: List[str]) -> Set[int]:
     return fenced_lines
 
 
+def get_nested_lines_in_list(lines: List[str]) -> Set[int]:
+    """Find the lines that belong to a list's entries no matter what they look like
+
+    Those are the lines of fenced code blocks and those that are indented enough to be
+    part of the entry they follow.
+
+    Args:
+        lines: The lines to evaluate, the first of which is the start of a list
+
+    Returns:
+        The indexes of those lines
+    """
+    nested_lines = get_fenced_lines_in_list(lines)
+    entry_indent = 0
+    for index, line in enumerate(lines):
+        if index in nested_lines or is_blank_line_line(line):
+            continue
+        match = LIST_MARKER_REGEX.match(line)
+        if entry_indent and get_indent(line) >= entry_indent:
+            nested_lines.add(index)
+        elif match and not is_thematic_break_line(line):
+            entry_indent = match.end() + get_indent(line[match.end() :])
+    return nested_lines
+
+
 def is_indented_code_block_start_line(line: str) -> bool:
     """Evaluates whether a line could start and indented code block
 
diff --git a/markflow/detectors/bullet_list.py b/markflow/detectors/bullet_list.py
index 5093eaf..9531384 100644
--- a/markflow/detectors/bullet_list.py
+++ b/markflow/detectors/bullet_list.py
@@ -1,7 +1,7 @@
 from typing import List, Tuple
 
 from ._lines import (
-    get_fenced_lines_in_list,
+    get_nested_lines_in_list,
     is_blank_line_line,
     is_bullet_list_start_line,
     is_table_start_line,
@@ -21,9 +21,9 @@ def split_bullet_list(
         return bullet_list, remaining_lines
 
     bullet_list.append(line)
-    fenced_lines = get_fenced_lines_in_list(lines)
+    nested_lines = get_nested_lines_in_list(lines)
     for index, line in indexed_line_generator:
-        if index not in fenced_lines and (
+        if index not in nested_lines and (
             is_blank_line_line(line)
             or is_table_start_line(line)
             or is_thematic_break_line(line)
diff --git a/markflow/detectors/ordered_list.py b/markflow/detectors/ordered_list.py
index ad2804a..429574c 100644
--- a/markflow/detectors/ordered_list.py
+++ b/markflow/detectors/ordered_list.py
@@ -1,7 +1,7 @@
 from typing import List, Tuple
 
 from ._lines import (
-    get_fenced_lines_in_list,
+    get_nested_lines_in_list,
     is_blank_line_line,
     is_ordered_list_start_line,
     is_table_start_line,
@@ -21,9 +21,9 @@ def split_ordered_list(
         return ordered_list, remaining_lines
 
     ordered_list.append(line)
-    fenced_lines = get_fenced_lines_in_list(lines)
+    nested_lines = get_nested_lines_in_list(lines)
     for index, line in indexed_line_generator:
-        if index not in fenced_lines and (
+        if index not in nested_lines and (
             is_blank_line_line(line)
             or is_table_start_line(line)
             or is_thematic_break_line(line)
-- 
2.43.0


From 3dbeba64b6c7e33ed9ad20a2d0aba5c8b38f1ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 18/68] fix: keep the logging configuration of the process
 untouched

Patching logging.INFO and the level of our logger affected other threads and was never
undone if reformatting failed.
---
 markflow/_utils/_utils.py     | 24 ++++++++++++++++++++----
 markflow/reformat_markdown.py | 10 ++++------
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/markflow/_utils/_utils.py b/markflow/_utils/_utils.py
index 1a9ebd4..5740959 100644
--- a/markflow/_utils/_utils.py
+++ b/markflow/_utils/_utils.py
@@ -1,9 +1,11 @@
 import contextlib
 import logging
+import threading
 from typing import Iterator
 
 __all__ = [
     "get_indent",
+    "get_info_level",
     "truncate_str",
     "redirect_info_logs_to_debug",
 ]
@@ -26,9 +28,23 @@ def truncate_str(str_: str, length: int) -> str:
     return str_
 
 
+class _LoggingState(threading.local):
+    info_level = logging.INFO
+
+
+_logging_state = _LoggingState()
+
+
+def get_info_level() -> int:
+    return _logging_state.info_level
+
+
 @contextlib.contextmanager
 def redirect_info_logs_to_debug() -> Iterator[None]:
-    old_info = logging.INFO
-    logging.INFO = logging.DEBUG
-    yield
-    logging.INFO = old_info
+    # Other threads and the rest of the process must not be affected by this
+    old_level = _logging_state.info_level
+    _logging_state.info_level = logging.DEBUG
+    try:
+        yield
+    finally:
+        _logging_state.info_level = old_level
diff --git a/markflow/reformat_markdown.py b/markflow/reformat_markdown.py
index 61582d8..0ca98b5 100644
--- a/markflow/reformat_markdown.py
+++ b/markflow/reformat_markdown.py
@@ -1,6 +1,7 @@
 import logging
 from typing import Dict, Type
 
+from ._utils import get_info_level, redirect_info_logs_to_debug
 from .exceptions import ReformatInconsistentException
 from .formatters import (
     MarkdownATXHeading,
@@ -54,7 +55,7 @@ def _reformat_markdown_text(text: str, width: Number = 88, line_index: int = 0)
             log_text = f"Lines {line_index + 1}-{line_index + content_length}"
         else:
             log_text = f"Line {line_index + 1}"
-        logger.info("%s: %s", log_text, repr(formatter))
+        logger.log(get_info_level(), "%s: %s", log_text, repr(formatter))
         if (
             section_type == MarkdownSectionEnum.SETEXT_HEADING
             and last_section_type == MarkdownSectionEnum.BLOCK_QUOTE
@@ -87,12 +88,9 @@ def reformat_markdown_text(text: str, width: Number = 88) -> str:
         The reformatted Markdown text
     """
     new_text = _reformat_markdown_text(text, width)
-    level = logger.getEffectiveLevel()
     # Mute logging during second pass since it means nothing to the user.
-    if level > logging.DEBUG:
-        logger.setLevel(logging.ERROR)
-    new_new_text = _reformat_markdown_text(new_text, width)
-    logger.setLevel(level)
+    with redirect_info_logs_to_debug():
+        new_new_text = _reformat_markdown_text(new_text, width)
     if new_new_text != new_text:
         raise ReformatInconsistentException(
             "Reformat of reformatted code results in different text. Please open a bug "
-- 
2.43.0


From d482e5ec6fdc83be9413ef9f41f82f065f54f5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:39 +0000
Subject: [PATCH 19/68] fix: report the right line in warnings about sections

---
 markflow/detectors/block_quote.py               | 3 +--
 markflow/detectors/link_reference_definition.py | 2 +-
 markflow/parser.py                              | 4 +++-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/markflow/detectors/block_quote.py b/markflow/detectors/block_quote.py
index c624cbc..2190736 100644
--- a/markflow/detectors/block_quote.py
+++ b/markflow/detectors/block_quote.py
@@ -140,7 +140,7 @@ def split_block_quote(
         if check_for_continuation:
             first_line = True
             while remaining_lines and _is_paragraph_continuation_text(
-                remaining_lines, line_offset
+                remaining_lines, line_offset + len(block_quote)
             ):
                 if first_line:
                     first_line = False
@@ -150,7 +150,6 @@ def split_block_quote(
                         break
                 block_quote += [remaining_lines[0]]
                 remaining_lines = remaining_lines[1:]
-                line_offset += 1
         else:
             break
 
diff --git a/markflow/detectors/link_reference_definition.py b/markflow/detectors/link_reference_definition.py
index 55088ef..88b7bf2 100644
--- a/markflow/detectors/link_reference_definition.py
+++ b/markflow/detectors/link_reference_definition.py
@@ -106,7 +106,7 @@ def split_link_reference_definition(
             logger.warning(
                 "The text on line %d seems to be a link reference definition, but it "
                 "does not contain a link. We will be treating it as if it were.",
-                index,  # We are just pass where the issue exists
+                line_offset + 1,
             )
             link_reference_definition = [lines[0]]
             remaining_lines = lines[1:]
diff --git a/markflow/parser.py b/markflow/parser.py
index f57bb01..fa64b70 100644
--- a/markflow/parser.py
+++ b/markflow/parser.py
@@ -60,7 +60,9 @@ def parse_markdown(lines: List[str]) -> List[Tuple[MarkdownSectionEnum, List[str
 
     while remaining_lines:
         for section_type, splitter in SPLITTERS:
-            section_content, remaining_lines = splitter(remaining_lines)
+            section_content, remaining_lines = splitter(
+                remaining_lines, current_line - 1
+            )
             if section_content:
                 content_length = len(section_content)
                 if content_length > 1:
-- 
2.43.0


From fbb1d2c052ab36354246c9f5d12ab7543fee265b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 20/68] fix: don't take exponential time to split block quotes

---
 markflow/detectors/block_quote.py |  8 +++++++-
 markflow/detectors/paragraph.py   | 11 +++++++----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/markflow/detectors/block_quote.py b/markflow/detectors/block_quote.py
index 2190736..e731ec4 100644
--- a/markflow/detectors/block_quote.py
+++ b/markflow/detectors/block_quote.py
@@ -93,6 +93,9 @@ def _block_quote_ends_with_paragraph(block_quote_lines: List[str]) -> bool:
         ending_section_type, ending_section_content = parse_markdown(parsing_lines)[-1]
 
     if ending_section_type == MarkdownSectionEnum.BLOCK_QUOTE:
+        if not is_explicit_block_quote_line(ending_section_content[-1]):
+            # Only paragraphs can be continued without a quote marker
+            return True
         return _block_quote_ends_with_paragraph(ending_section_content)
     elif ending_section_type == MarkdownSectionEnum.PARAGRAPH:
         return True
@@ -135,7 +138,10 @@ def split_block_quote(
             block_quote += [remaining_lines[0]]
             remaining_lines = remaining_lines[1:]
 
-        check_for_continuation = _block_quote_ends_with_paragraph(block_quote)
+        # Evaluating this is expensive when quotes are nested deeply
+        check_for_continuation = bool(
+            remaining_lines
+        ) and _block_quote_ends_with_paragraph(block_quote)
 
         if check_for_continuation:
             first_line = True
diff --git a/markflow/detectors/paragraph.py b/markflow/detectors/paragraph.py
index c04705f..cc90ef4 100644
--- a/markflow/detectors/paragraph.py
+++ b/markflow/detectors/paragraph.py
@@ -1,9 +1,12 @@
 from typing import Generator, List, Tuple
 
-from ._lines import is_paragraph_start_line, is_setext_underline
+from ._lines import (
+    is_explicit_block_quote_line,
+    is_paragraph_start_line,
+    is_setext_underline,
+)
 from .atx_heading import split_atx_heading
 from .blank_line import split_blank_line
-from .block_quote import split_block_quote
 from .bullet_list import split_bullet_list
 from .fenced_code_block import split_fenced_code_block
 from .ordered_list import split_ordered_list
@@ -31,7 +34,6 @@ def _is_paragraph_continuation_text(lines: List[str], line_offset: int = 0) -> b
     for splitter in [
         split_atx_heading,
         split_blank_line,
-        split_block_quote,
         split_bullet_list,
         split_fenced_code_block,
         split_ordered_list,
@@ -41,7 +43,8 @@ def _is_paragraph_continuation_text(lines: List[str], line_offset: int = 0) -> b
         # ToDo: Disable logging?
         if splitter(lines, line_offset)[0]:
             return False
-    if is_setext_underline(lines[0]):
+    # Splitting block quotes evaluates the lines after them. We don't care about those.
+    if is_explicit_block_quote_line(lines[0]) or is_setext_underline(lines[0]):
         return False
     return True
 
-- 
2.43.0


From 135ec3919a78e7cdcf49e149451a4942663a7220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 21/68] fix: don't treat over indented fences as fenced code
 blocks

---
 markflow/detectors/_lines.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index e9acf40..3413cfc 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -99,6 +99,9 @@ def get_opening_fence(line: str) -> str:
     Returns:
         The fence opening the block. An empty string if the line doesn't open one.
     """
+    if is_indented_code_block_start_line(line):
+        return ""
+
     stripped_line = line.strip()
     for character in FENCED_CODE_BLOCK_FENCE_CHARACTERS:
         info_string = stripped_line.lstrip(character)
@@ -166,7 +169,7 @@ def get_fenced_lines_in_list(lines: List[str]) -> Set[int]:
             match = LIST_MARKER_REGEX.match(content)
 
         index += 1
-        fence = get_opening_fence(content)
+        fence = get_opening_fence(content.lstrip())
         if not fence:
             continue
 
-- 
2.43.0


From a2687ab66b30af07f0508c402882af61f4abf4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 22/68] fix: make link reference definitions and paragraphs
 mutually exclusive

---
 markflow/detectors/paragraph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/markflow/detectors/paragraph.py b/markflow/detectors/paragraph.py
index cc90ef4..2b89a6d 100644
--- a/markflow/detectors/paragraph.py
+++ b/markflow/detectors/paragraph.py
@@ -9,6 +9,7 @@ from .atx_heading import split_atx_heading
 from .blank_line import split_blank_line
 from .bullet_list import split_bullet_list
 from .fenced_code_block import split_fenced_code_block
+from .link_reference_definition import split_link_reference_definition
 from .ordered_list import split_ordered_list
 from .table import split_table
 from .thematic_break import split_thematic_break
@@ -94,7 +95,10 @@ def split_paragraph_ignoring_setext(
     paragraph_lines = []
     remaining_lines = lines
 
-    if is_paragraph_start_line(lines[0]):
+    if (
+        is_paragraph_start_line(lines[0])
+        and not split_link_reference_definition(lines, line_offset)[0]
+    ):
         # ToDo: This should be handled in `wrap` as a double space is always a newline
         #  in any section type. Also add indents while you're there.
         if lines[0].endswith("  "):
-- 
2.43.0


From 3184f9b1eb497a1593e11a5d91e8aebf3f6faddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:19 +0000
Subject: [PATCH 23/68] fix: only split text into lines at new lines

---
 markflow/_utils/_utils.py                        | 15 ++++++++++++++-
 markflow/_utils/textwrap.py                      |  3 ++-
 markflow/formatters/block_quote.py               |  9 +++++++--
 markflow/formatters/link_reference_definition.py |  6 +++---
 markflow/formatters/setext_heading.py            |  4 ++--
 markflow/reformat_markdown.py                    |  4 ++--
 6 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/markflow/_utils/_utils.py b/markflow/_utils/_utils.py
index 5740959..937c20f 100644
--- a/markflow/_utils/_utils.py
+++ b/markflow/_utils/_utils.py
@@ -1,22 +1,35 @@
 import contextlib
 import logging
+import re
 import threading
-from typing import Iterator
+from typing import Iterator, List
 
 __all__ = [
     "get_indent",
     "get_info_level",
+    "split_lines",
     "truncate_str",
     "redirect_info_logs_to_debug",
 ]
 
 ELLIPSIS = "..."
+LINE_ENDING_REGEX = re.compile(r"\r\n|\n|\r")
 
 
 def get_indent(line: str) -> int:
     return len(line) - len(line.lstrip())
 
 
+def split_lines(text: str) -> List[str]:
+    """Split text into lines as defined by the standard
+
+    In contrast to this, `str.splitlines` also splits at other characters, like form
+    feeds and Unicode line separators.
+    """
+    lines = LINE_ENDING_REGEX.split(text)
+    return lines if lines[-1] else lines[:-1]
+
+
 def truncate_str(str_: str, length: int) -> str:
     if len(str_) <= length:
         pass
diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 50bd92a..b7780bb 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -1,6 +1,7 @@
 import re
 from typing import List, Tuple
 
+from markflow._utils import split_lines
 from markflow.detectors._lines import is_paragraph_start_line, is_setext_underline
 from markflow.typing import Number
 
@@ -317,7 +318,7 @@ def space_split(
 
 def wrap(text: str, width: Number) -> str:
     # TODO: Should wrap be modifying the input. Maybe assert there's no newlines?
-    lines = text.splitlines()
+    lines = split_lines(text)
     text = " ".join([line.strip() for line in lines])
 
     split_text: List[str] = [text]
diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index f3cc4ff..5ba5203 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -2,7 +2,12 @@ import logging
 import re
 from typing import List
 
-from .._utils import get_indent, redirect_info_logs_to_debug, truncate_str
+from .._utils import (
+    get_indent,
+    redirect_info_logs_to_debug,
+    split_lines,
+    truncate_str,
+)
 from ..detectors._lines import is_explicit_block_quote_line
 from ..typing import Number
 from .base import MarkdownSection
@@ -79,7 +84,7 @@ class MarkdownBlockQuote(MarkdownSection):
         # ToDo (jmholla): Issues with leading > in paragraphs will be handled by a later
         #  change.
         text = _reformat_markdown(stripped_lines, width=sub_width)
-        text = "\n".join((prefix + line).strip() for line in text.splitlines())
+        text = "\n".join((prefix + line).strip() for line in split_lines(text))
 
         return text
 
diff --git a/markflow/formatters/link_reference_definition.py b/markflow/formatters/link_reference_definition.py
index 596f909..4c24cba 100644
--- a/markflow/formatters/link_reference_definition.py
+++ b/markflow/formatters/link_reference_definition.py
@@ -25,7 +25,7 @@ https://spec.commonmark.org/0.29/#link-label
 
 import re
 
-from .._utils import truncate_str
+from .._utils import split_lines, truncate_str
 from .._utils.textwrap import wrap
 from ..typing import Number
 from .base import MarkdownSection
@@ -101,8 +101,8 @@ class MarkdownLinkReferenceDefinition(MarkdownSection):
         # overflow lines (the label and url portions).
         if rest_of_line.strip() != self.link:
             # Our title was on the line with our link
-            if len(title.split()[0]) + len(str_.splitlines()[-1]) <= width:
-                lines = str_.splitlines()
+            if len(title.split()[0]) + len(split_lines(str_)[-1]) <= width:
+                lines = split_lines(str_)
                 str_ = "\n".join(lines[:-1] + [wrap(lines[-1] + " " + title, width)])
             else:
                 str_ += "\n" + wrap(title, width)
diff --git a/markflow/formatters/setext_heading.py b/markflow/formatters/setext_heading.py
index 4581361..8cb289c 100644
--- a/markflow/formatters/setext_heading.py
+++ b/markflow/formatters/setext_heading.py
@@ -24,7 +24,7 @@ blank line is needed between them.
 https://spec.commonmark.org/0.29/#setext-headings
 """
 
-from .._utils import truncate_str
+from .._utils import split_lines, truncate_str
 from .._utils.textwrap import wrap
 from ..typing import Number
 from .base import MarkdownSection
@@ -56,7 +56,7 @@ class MarkdownSetextHeading(MarkdownSection):
 
     def reformatted(self, width: Number = 88) -> str:
         heading_str = wrap(self.content, width)
-        heading_len = max(len(line) for line in heading_str.splitlines())
+        heading_len = max(len(line) for line in split_lines(heading_str))
         return heading_str + "\n" + self.char * heading_len
 
     def __repr__(self) -> str:
diff --git a/markflow/reformat_markdown.py b/markflow/reformat_markdown.py
index 0ca98b5..0552eae 100644
--- a/markflow/reformat_markdown.py
+++ b/markflow/reformat_markdown.py
@@ -1,7 +1,7 @@
 import logging
 from typing import Dict, Type
 
-from ._utils import get_info_level, redirect_info_logs_to_debug
+from ._utils import get_info_level, redirect_info_logs_to_debug, split_lines
 from .exceptions import ReformatInconsistentException
 from .formatters import (
     MarkdownATXHeading,
@@ -43,7 +43,7 @@ FORMATTERS: Dict[MarkdownSectionEnum, Type[MarkdownSection]] = {
 
 
 def _reformat_markdown_text(text: str, width: Number = 88, line_index: int = 0) -> str:
-    sections = parse_markdown(text.splitlines())
+    sections = parse_markdown(split_lines(text))
 
     formatters = []
     last_section_type = MarkdownSectionEnum.INVALID
-- 
2.43.0


From bdf87cef0dd65bf34afee3362ca85f63f38203b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 24/68] fix: don't let the indentation of a block quote widen
 its lines

---
 markflow/formatters/block_quote.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index 5ba5203..fbaadc2 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -41,8 +41,6 @@ class MarkdownBlockQuote(MarkdownSection):
         self.lines.append(line)
 
     def reformatted(self, width: Number = 88) -> str:
-        indent = len(self.lines[0].lstrip()) - len(self.lines[0])
-
         depth = 0
         fully_quoted_lines = []
         for line in self.lines:
@@ -75,8 +73,8 @@ class MarkdownBlockQuote(MarkdownSection):
                 restripped_lines += [line[1:] if line and line[0] == " " else line]
             stripped_lines = restripped_lines
 
-        sub_width = width - indent - 1
-        prefix = " " * indent + ">"
+        sub_width = width - 1
+        prefix = ">"
         if has_space:
             sub_width -= 1
             prefix += " "
-- 
2.43.0


From d501dc2d444807add62333ff9f99664e08494fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:50 +0000
Subject: [PATCH 25/68] fix: keep hard line breaks inside of block quotes

---
 markflow/formatters/block_quote.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index fbaadc2..f54aec8 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -82,7 +82,10 @@ class MarkdownBlockQuote(MarkdownSection):
         # ToDo (jmholla): Issues with leading > in paragraphs will be handled by a later
         #  change.
         text = _reformat_markdown(stripped_lines, width=sub_width)
-        text = "\n".join((prefix + line).strip() for line in split_lines(text))
+        # Trailing spaces of a line are a hard line break
+        text = "\n".join(
+            prefix + line if line else prefix.rstrip() for line in split_lines(text)
+        )
 
         return text
 
-- 
2.43.0


From 25a10240d64bf18ac0d25a3c2eb1198e0b8aed07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 26/68] fix: keep hard line breaks written with a backslash

---
 markflow/_utils/textwrap.py     | 13 ++++++++++---
 markflow/detectors/_lines.py    | 18 ++++++++++++++++++
 markflow/detectors/paragraph.py |  5 +++--
 3 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index b7780bb..1f3ef94 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -2,7 +2,11 @@ import re
 from typing import List, Tuple
 
 from markflow._utils import split_lines
-from markflow.detectors._lines import is_paragraph_start_line, is_setext_underline
+from markflow.detectors._lines import (
+    ends_with_hard_line_break,
+    is_paragraph_start_line,
+    is_setext_underline,
+)
 from markflow.typing import Number
 
 INLINE_CODE_MARKER_REGEX = re.compile(r"`+")
@@ -31,7 +35,8 @@ def _glue(
 
     A new line is whitespace when rendered, so text without a space in front of it has
     to stay with the text before it unless that ends with the first half of a link or an
-    HTML new line. So does text that would start a new section on a new line.
+    HTML new line. So does text that would start a new section on a new line or
+    make the new line a hard line break.
 
     Args:
         split_text: The text that has been split
@@ -56,7 +61,9 @@ def _glue(
         breakable = is_html_newline or word.endswith(("](", "]["))
 
     for i in range(len(glued_text) - 1, 0, -1):
-        if not _can_start_line(glued_text[i]):
+        if ends_with_hard_line_break(glued_text[i - 1]) or not _can_start_line(
+            glued_text[i]
+        ):
             space = " " if glued_spaces[i] else ""
             glued_text[i - 1 : i + 1] = [glued_text[i - 1] + space + glued_text[i]]
             del glued_spaces[i]
diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index 3413cfc..f880003 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -50,6 +50,24 @@ def is_atx_heading_line(line: str) -> bool:
     return not is_indented_code_block_start_line(line) and line.lstrip().startswith("#")
 
 
+def ends_with_hard_line_break(line: str) -> bool:
+    """Evaluates whether a line of a paragraph ends with a hard line break
+
+    Examples:
+        ```
+        Backslash\\
+        ```
+
+    Args:
+        line: The line to evaluate
+
+    Returns:
+        True if the line ends with a hard line break. False otherwise.
+    """
+    trailing_backslashes = len(line) - len(line.rstrip("\\"))
+    return line.endswith("  ") or trailing_backslashes % 2 == 1
+
+
 def is_blank_line_line(line: str) -> bool:
     """Evaluates whether a line is a blank line
 
diff --git a/markflow/detectors/paragraph.py b/markflow/detectors/paragraph.py
index 2b89a6d..884cf54 100644
--- a/markflow/detectors/paragraph.py
+++ b/markflow/detectors/paragraph.py
@@ -1,6 +1,7 @@
 from typing import Generator, List, Tuple
 
 from ._lines import (
+    ends_with_hard_line_break,
     is_explicit_block_quote_line,
     is_paragraph_start_line,
     is_setext_underline,
@@ -101,7 +102,7 @@ def split_paragraph_ignoring_setext(
     ):
         # ToDo: This should be handled in `wrap` as a double space is always a newline
         #  in any section type. Also add indents while you're there.
-        if lines[0].endswith("  "):
+        if ends_with_hard_line_break(lines[0]):
             return [lines[0]], lines[1:]
         paragraph_lines.append(lines[0])
         tail_lines_generator = list_tail_generator(lines[1:])
@@ -112,7 +113,7 @@ def split_paragraph_ignoring_setext(
                 paragraph_lines.append(tail[0])
                 # ToDo: This should be handled in `wrap` as a double space is always a
                 #  newline in any section type.
-                if tail[0].endswith("  "):
+                if ends_with_hard_line_break(tail[0]):
                     remaining_lines = tail[1:]
                     break
             else:
-- 
2.43.0


From f2a29b7b3d8a50eebb69f80df9f32ff851f167c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 27/68] fix: don't add trailing whitespace to empty ATX
 headings

---
 markflow/formatters/atx_heading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/formatters/atx_heading.py b/markflow/formatters/atx_heading.py
index 5bce961..196d07f 100644
--- a/markflow/formatters/atx_heading.py
+++ b/markflow/formatters/atx_heading.py
@@ -64,7 +64,7 @@ class MarkdownATXHeading(MarkdownSection):
                 "corrected.",
                 self.line_index + 1,
             )
-        return "#" * self.depth + " " + self.content
+        return ("#" * self.depth + " " + self.content).rstrip()
 
     def __repr__(self) -> str:
         return (
-- 
2.43.0


From 1d85ae3a52e98a084eb65628a8dabeb5a922b744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 28/68] fix: find all Markdown files in a directory and nothing
 but files

---
 markflow/_argparse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/markflow/_argparse.py b/markflow/_argparse.py
index adfe12c..2630ac8 100644
--- a/markflow/_argparse.py
+++ b/markflow/_argparse.py
@@ -122,6 +122,7 @@ class AddMarkdownFilesInDirOrPathsAction(argparse.Action):
             if value.is_file():
                 expanded_paths.append(value)
             else:
-                markdown_paths = glob.glob(str(value / "**" / "*.md"), recursive=True)
-                expanded_paths += [pathlib.Path(path) for path in markdown_paths]
+                pattern = os.path.join(glob.escape(str(value)), "**", "*.md")
+                markdown_paths = map(pathlib.Path, glob.glob(pattern, recursive=True))
+                expanded_paths += [path for path in markdown_paths if path.is_file()]
         setattr(namespace, self.dest, expanded_paths)
-- 
2.43.0


From b1a243ac5614511ac947a534723d089a28e6b6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 29/68] fix: check that paths are readable before reformatting
 any of them

---
 markflow/_argparse.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/markflow/_argparse.py b/markflow/_argparse.py
index 2630ac8..31742e1 100644
--- a/markflow/_argparse.py
+++ b/markflow/_argparse.py
@@ -27,6 +27,12 @@ class ExistingPath:
             raise argparse.ArgumentTypeError(
                 f"specified path does not exist: {repr(str(path))}"
             )
+
+        for permission in self._permissions:
+            if not os.access(path, permission.os_constant):
+                raise argparse.ArgumentTypeError(
+                    f"cannot {permission.verbiage} path: {repr(str(path))}"
+                )
         return path
 
 
-- 
2.43.0


From ede5a9ced94471fa3bf24c951696a06df03cc447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 30/68] fix: don't write files that are unchanged when only
 checking

---
 markflow/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 39f0c6b..597d808 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -300,7 +300,7 @@ def _reformat_files(args: argparse.Namespace) -> int:
             else:
                 print_markdown(f"would reformat {input_path}")
         else:
-            if output_path != input_path:
+            if output_path != input_path and not args.check:
                 output_path.write_text(new_contents)
             files_left_unchanged += 1
 
-- 
2.43.0


From b4aa5be42832ef1d0de883292ae41124eaea6b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 31/68] fix: correct the line endings of otherwise well
 formatted files

---
 markflow/__main__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 597d808..1f137f4 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -1,4 +1,5 @@
 import argparse
+import io
 import logging
 import math
 import pathlib
@@ -277,7 +278,9 @@ def _reformat_files(args: argparse.Namespace) -> int:
     files_left_unchanged = 0
     files_changed = 0
     for input_path, output_path in zip(args.paths, output_paths):
-        old_contents = input_path.read_text()
+        # Don't translate line endings, so we notice if they are to be changed
+        with input_path.open(newline="") as input_file:
+            old_contents = input_file.read()
         try:
             new_contents = reformat_markdown_text(old_contents, args.line_length)
         except RuntimeError as runtime_error:
@@ -372,6 +375,9 @@ def main(argv: List[str]) -> int:
             print_markdown("**No path provided. Nothing to do.**")
             return 0
         else:
+            if isinstance(sys.stdin, io.TextIOWrapper):
+                # Don't translate line endings, so we notice if they are to be changed
+                sys.stdin.reconfigure(newline="")
             return _reformat_stdin(args, sys.stdin)
     else:
         return _reformat_files(args)
-- 
2.43.0


From d3deffcd6865b736571070eba1d7087386bfa284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 32/68] fix: don't read from STDIN if a directory contains no
 Markdown files

---
 markflow/__main__.py  | 7 ++++++-
 markflow/_argparse.py | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 1f137f4..1352f1f 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -186,6 +186,8 @@ def parse_args(argv: List[str]) -> argparse.Namespace:
         else argparse.SUPPRESS,
     )
 
+    parser.set_defaults(paths_provided=False)
+
     args = parser.parse_args(argv)
 
     logging_levels = [
@@ -371,7 +373,10 @@ def main(argv: List[str]) -> int:
         args.line_length = math.inf
 
     if not args.paths:
-        if sys.stdin.isatty():
+        if args.paths_provided:
+            print_markdown("**No Markdown files found. Nothing to do.**")
+            return 0
+        elif sys.stdin.isatty():
             print_markdown("**No path provided. Nothing to do.**")
             return 0
         else:
diff --git a/markflow/_argparse.py b/markflow/_argparse.py
index 31742e1..699916c 100644
--- a/markflow/_argparse.py
+++ b/markflow/_argparse.py
@@ -132,3 +132,4 @@ class AddMarkdownFilesInDirOrPathsAction(argparse.Action):
                 markdown_paths = map(pathlib.Path, glob.glob(pattern, recursive=True))
                 expanded_paths += [path for path in markdown_paths if path.is_file()]
         setattr(namespace, self.dest, expanded_paths)
+        setattr(namespace, f"{self.dest}_provided", bool(values))
-- 
2.43.0


From ead8ba6e97b2fcb556d4301f918f28f0bd2bb287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 33/68] fix: keep empty list entries stable without trailing
 whitespace

---
 markflow/detectors/_lines.py      | 27 ++++++++++++++++++++++++---
 markflow/detectors/block_quote.py |  3 +++
 markflow/detectors/paragraph.py   |  3 +++
 markflow/formatters/lists.py      | 20 ++++++++++----------
 4 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index f880003..43ff30f 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -17,15 +17,16 @@ BULLET_LIST_START_REGEX = re.compile(
     r"*"  # Asterisk list marker
     r"+"  # Plus list marker
     r"-"  # Dash list marker
-    r"] "  # Lists need a space after their identifier
+    r"]( |$)"  # Lists need a space after their identifier unless the entry is empty
 )
 ORDERED_LIST_START_REGEX = re.compile(
     r"^\s*"  # Leading spaces are OK and often expected
     r"("
     r"[0-9]+\."  # Numeric list marker
-    r") "  # Lists need a space after their identifier
+    r")( |$)"  # Lists need a space after their identifier unless the entry is empty
 )
-LIST_MARKER_REGEX = re.compile(r"^\s*([*+-]|[0-9]+\.) ")
+LIST_MARKER_REGEX = re.compile(r"^\s*([*+-]|[0-9]+\.)( |$)")
+EMPTY_LIST_ENTRY_REGEX = re.compile(r"^\s*([*+-]|[0-9]+\.)\s*$")
 THEMATIC_BREAK_CHARACTERS = ["*", "_", "-"]
 
 
@@ -229,6 +230,26 @@ def get_nested_lines_in_list(lines: List[str]) -> Set[int]:
     return nested_lines
 
 
+def is_empty_list_entry_line(line: str) -> bool:
+    """Evaluates whether a line is a list entry without any content
+
+    Those can't interrupt a paragraph.
+
+    Examples:
+        ```
+        *
+        1.
+        ```
+
+    Args:
+        line: The line to evaluate
+
+    Returns:
+        True if the line is an empty list entry. False otherwise.
+    """
+    return bool(EMPTY_LIST_ENTRY_REGEX.search(line))
+
+
 def is_indented_code_block_start_line(line: str) -> bool:
     """Evaluates whether a line could start and indented code block
 
diff --git a/markflow/detectors/block_quote.py b/markflow/detectors/block_quote.py
index e731ec4..f01b05a 100644
--- a/markflow/detectors/block_quote.py
+++ b/markflow/detectors/block_quote.py
@@ -3,6 +3,7 @@ from typing import List, Tuple
 
 from .._utils import redirect_info_logs_to_debug
 from ._lines import (
+    is_empty_list_entry_line,
     is_explicit_block_quote_line,
     is_setext_underline,
     is_thematic_break_line,
@@ -63,6 +64,8 @@ def _is_paragraph_continuation_text(lines: List[str], line_offset: int = 0) -> b
     """
     from .setext_heading import split_setext_heading
 
+    if is_empty_list_entry_line(lines[0]) and not is_setext_underline(lines[0]):
+        return True
     for splitter in [
         split_atx_heading,
         split_blank_line,
diff --git a/markflow/detectors/paragraph.py b/markflow/detectors/paragraph.py
index 884cf54..deddabc 100644
--- a/markflow/detectors/paragraph.py
+++ b/markflow/detectors/paragraph.py
@@ -2,6 +2,7 @@ from typing import Generator, List, Tuple
 
 from ._lines import (
     ends_with_hard_line_break,
+    is_empty_list_entry_line,
     is_explicit_block_quote_line,
     is_paragraph_start_line,
     is_setext_underline,
@@ -33,6 +34,8 @@ def _is_paragraph_continuation_text(lines: List[str], line_offset: int = 0) -> b
     Returns:
         True if the first line would continue the paragraph. False otherwise.
     """
+    if is_empty_list_entry_line(lines[0]) and not is_setext_underline(lines[0]):
+        return True
     for splitter in [
         split_atx_heading,
         split_blank_line,
diff --git a/markflow/formatters/lists.py b/markflow/formatters/lists.py
index 7d6a2b0..e5cba27 100644
--- a/markflow/formatters/lists.py
+++ b/markflow/formatters/lists.py
@@ -93,6 +93,12 @@ def _indent_following_lines(entry: str, indent: int) -> str:
     return "\n".join([first_line] + [indent * " " + l if l else l for l in lines])
 
 
+def _add_marker(marker: str, entry: str, indent: int) -> str:
+    if entry and not entry.startswith("\n"):
+        marker += " "
+    return marker + _indent_following_lines(entry, indent)
+
+
 class MarkdownBulletList(MarkdownSection):
     @property
     def marker(self) -> str:
@@ -117,12 +123,9 @@ class MarkdownBulletList(MarkdownSection):
                 reformatted_entry = _reformat_markdown(
                     entry, width - toplevel_indent
                 ).rstrip("\n")
-            reformatted_entry = (
-                self.marker
-                + " "
-                + _indent_following_lines(reformatted_entry, toplevel_indent)
+            reformatted_entries.append(
+                _add_marker(self.marker, reformatted_entry, toplevel_indent)
             )
-            reformatted_entries.append(reformatted_entry)
 
         return "\n".join(reformatted_entries)
 
@@ -163,12 +166,9 @@ class MarkdownOrderedList(MarkdownSection):
                 reformatted_entry = _reformat_markdown(
                     entry, width - toplevel_indent
                 ).rstrip("\n")
-            reformatted_entry = (
-                str(entry_number)
-                + ". "
-                + _indent_following_lines(reformatted_entry, toplevel_indent)
+            reformatted_entries.append(
+                _add_marker(f"{entry_number}.", reformatted_entry, toplevel_indent)
             )
-            reformatted_entries.append(reformatted_entry)
 
         return "\n".join(reformatted_entries)
 
-- 
2.43.0


From 702f4ed91a7d3f1bdd105bb952b6e2b613b0ab51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 34/68] fix: report too deeply nested text as wrongly formatted

---
 markflow/reformat_markdown.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/markflow/reformat_markdown.py b/markflow/reformat_markdown.py
index 0552eae..7496683 100644
--- a/markflow/reformat_markdown.py
+++ b/markflow/reformat_markdown.py
@@ -2,7 +2,7 @@ import logging
 from typing import Dict, Type
 
 from ._utils import get_info_level, redirect_info_logs_to_debug, split_lines
-from .exceptions import ReformatInconsistentException
+from .exceptions import MarkdownFormatException, ReformatInconsistentException
 from .formatters import (
     MarkdownATXHeading,
     MarkdownBlankLine,
@@ -87,10 +87,15 @@ def reformat_markdown_text(text: str, width: Number = 88) -> str:
     Returns:
         The reformatted Markdown text
     """
-    new_text = _reformat_markdown_text(text, width)
-    # Mute logging during second pass since it means nothing to the user.
-    with redirect_info_logs_to_debug():
-        new_new_text = _reformat_markdown_text(new_text, width)
+    try:
+        new_text = _reformat_markdown_text(text, width)
+        # Mute logging during second pass since it means nothing to the user.
+        with redirect_info_logs_to_debug():
+            new_new_text = _reformat_markdown_text(new_text, width)
+    except RecursionError:
+        raise MarkdownFormatException(
+            "Lists and block quotes are nested too deeply"
+        ) from None
     if new_new_text != new_text:
         raise ReformatInconsistentException(
             "Reformat of reformatted code results in different text. Please open a bug "
-- 
2.43.0


From e778101971c3621108d4bbc69da0f2e00a026d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:00 +0000
Subject: [PATCH 35/68] fix: keep the space between two links

---
 markflow/_utils/textwrap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 1f3ef94..3877fff 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -233,7 +233,10 @@ def link_split(
             if not leading_spaces:
                 leading_spaces.append(leading_space)
             else:
-                leading_spaces.append(False)
+                # ToDo: What if there is a space, but the link is preceded by text?
+                leading_spaces.append(
+                    bool(non_link_text) and match.group().startswith(("[", "!["))
+                )
 
         leading_spaces.append(False)
         if "](" in match.group():
-- 
2.43.0


From 4a85c1de42102822b4a6ccbb436dc064f6670b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 36/68] fix: indent the content of list entries by the width of
 their own marker

---
 markflow/formatters/lists.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/markflow/formatters/lists.py b/markflow/formatters/lists.py
index e5cba27..d4820be 100644
--- a/markflow/formatters/lists.py
+++ b/markflow/formatters/lists.py
@@ -156,12 +156,12 @@ class MarkdownOrderedList(MarkdownSection):
 
     def reformatted(self, width: Number = 88) -> str:
         list_entries = _split_list(self.lines)
-        # '99. '
-        toplevel_indent = len(str(self.first_number + len(list_entries) - 1)) + 2
         dedented_entries = _dedent_entries(list_entries)
 
         reformatted_entries: List[str] = []
         for entry_number, entry in enumerate(dedented_entries, start=self.first_number):
+            # '99. '
+            toplevel_indent = len(str(entry_number)) + 2
             with redirect_info_logs_to_debug():
                 reformatted_entry = _reformat_markdown(
                     entry, width - toplevel_indent
-- 
2.43.0


From 4bfb56faa0d5d57a5bee8ae11b8a611c4eb15539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 37/68] fix: keep the space between links in punctuation

---
 markflow/_utils/textwrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 3877fff..6fd832d 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -233,9 +233,9 @@ def link_split(
             if not leading_spaces:
                 leading_spaces.append(leading_space)
             else:
-                # ToDo: What if there is a space, but the link is preceded by text?
+                # ToDo: What if there is a space, but the link is preceded by a word?
                 leading_spaces.append(
-                    bool(non_link_text) and match.group().startswith(("[", "!["))
+                    bool(non_link_text) and not match.group()[0].isalnum()
                 )
 
         leading_spaces.append(False)
-- 
2.43.0


From f9b095df7b2de1eaf774f907faad82bc8b8d4db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 38/68] fix: don't break the target of a link glued to another
 link

---
 markflow/_utils/textwrap.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 6fd832d..c7e1e39 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -210,8 +210,12 @@ def link_split(
     # link text.
     for match in matches:
         if match.start() < last_end:
-            # This overlaps with the link we just split, so it isn't a link of its own
-            continue
+            # This overlaps with the link we just split, so unless only the text in front
+            # of it does, it isn't a link of its own
+            glued_match = match.re.match(text, last_end)
+            if not glued_match:
+                continue
+            match = glued_match
         non_link_text = text[last_end : match.start()]
         if non_link_text.strip():
             if (
-- 
2.43.0


From 1e0da95af78f56c4ba38881a8f66cab4ba808a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 39/68] fix: end the line after HTML new lines glued to a link

---
 markflow/_utils/textwrap.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index c7e1e39..45a9da4 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -10,9 +10,12 @@ from markflow.detectors._lines import (
 from markflow.typing import Number
 
 INLINE_CODE_MARKER_REGEX = re.compile(r"`+")
-FOOTNOTE_REGEX = re.compile(r"[^\s\]\)]*\[[^\[]+\]\[[^\]]+\][^\s\[\(]*")
 HTML_NEWLINE_REGEX = re.compile(r"<br ?/?>")
-URL_REGEX = re.compile(r"[^\s\]\)]*\[[^\[]+\]\([^\)]+\)[^\s\[\(]*")
+# What can be glued to the beginning and end of a link
+_LINK_PREFIX = r"(?:<br /?>|[^\s\]\)])*"
+_LINK_SUFFIX = r"(?:(?!<br ?/?>)[^\s\[\(])*"
+FOOTNOTE_REGEX = re.compile(_LINK_PREFIX + r"\[[^\[]+\]\[[^\]]+\]" + _LINK_SUFFIX)
+URL_REGEX = re.compile(_LINK_PREFIX + r"\[[^\[]+\]\([^\)]+\)" + _LINK_SUFFIX)
 
 
 def _can_start_line(word: str) -> bool:
-- 
2.43.0


From ec415023ae566002ded3ec3570f855ed3e4902fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:53 +0000
Subject: [PATCH 40/68] fix: don't warn about the lines of the reformatted text

---
 markflow/_utils/_utils.py                      | 18 ++++++++++++++++++
 markflow/detectors/fenced_code_block.py        |  7 ++++---
 .../detectors/link_reference_definition.py     |  5 +++--
 markflow/formatters/atx_heading.py             |  8 +++-----
 markflow/reformat_markdown.py                  | 14 ++++++++++----
 5 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/markflow/_utils/_utils.py b/markflow/_utils/_utils.py
index 937c20f..35f62c9 100644
--- a/markflow/_utils/_utils.py
+++ b/markflow/_utils/_utils.py
@@ -7,9 +7,11 @@ from typing import Iterator, List
 __all__ = [
     "get_indent",
     "get_info_level",
+    "get_warning_level",
     "split_lines",
     "truncate_str",
     "redirect_info_logs_to_debug",
+    "redirect_logs_to_debug",
 ]
 
 ELLIPSIS = "..."
@@ -43,6 +45,7 @@ def truncate_str(str_: str, length: int) -> str:
 
 class _LoggingState(threading.local):
     info_level = logging.INFO
+    warning_level = logging.WARNING
 
 
 _logging_state = _LoggingState()
@@ -52,6 +55,10 @@ def get_info_level() -> int:
     return _logging_state.info_level
 
 
+def get_warning_level() -> int:
+    return _logging_state.warning_level
+
+
 @contextlib.contextmanager
 def redirect_info_logs_to_debug() -> Iterator[None]:
     # Other threads and the rest of the process must not be affected by this
@@ -61,3 +68,14 @@ def redirect_info_logs_to_debug() -> Iterator[None]:
         yield
     finally:
         _logging_state.info_level = old_level
+
+
+@contextlib.contextmanager
+def redirect_logs_to_debug() -> Iterator[None]:
+    old_level = _logging_state.warning_level
+    _logging_state.warning_level = logging.DEBUG
+    try:
+        with redirect_info_logs_to_debug():
+            yield
+    finally:
+        _logging_state.warning_level = old_level
diff --git a/markflow/detectors/fenced_code_block.py b/markflow/detectors/fenced_code_block.py
index c541a22..8c4acfb 100644
--- a/markflow/detectors/fenced_code_block.py
+++ b/markflow/detectors/fenced_code_block.py
@@ -21,7 +21,7 @@ Examples:
 import logging
 from typing import List, Tuple
 
-from .._utils import get_indent
+from .._utils import get_indent, get_warning_level
 from ._lines import get_opening_fence, is_closing_fence_line
 
 logger = logging.getLogger(__name__)
@@ -127,10 +127,11 @@ def split_fenced_code_block(
         fenced_code_block.append(line)
         if is_closing_fence_line(line, full_fence):
             if get_indent(line) > 3 + fence_indent:
-                logger.warning(
+                logger.log(
+                    get_warning_level(),
                     "Detected that the fence on line %d is over indented per the "
                     "standard. If this is intentional, please file a bug report."
-                    % (index + line_offset + 1)
+                    % (index + line_offset + 1),
                 )
             break
 
diff --git a/markflow/detectors/link_reference_definition.py b/markflow/detectors/link_reference_definition.py
index 88b7bf2..893acf8 100644
--- a/markflow/detectors/link_reference_definition.py
+++ b/markflow/detectors/link_reference_definition.py
@@ -27,7 +27,7 @@ import logging
 import re
 from typing import Iterator, List, Tuple
 
-from .._utils import get_indent
+from .._utils import get_indent, get_warning_level
 
 logger = logging.getLogger(__name__)
 
@@ -103,7 +103,8 @@ def split_link_reference_definition(
             # According to this standard, this is just paragraph text, but this tool
             # should be usable during development.
             # ToDo: Does that match up with our treatment of misquoted titles?
-            logger.warning(
+            logger.log(
+                get_warning_level(),
                 "The text on line %d seems to be a link reference definition, but it "
                 "does not contain a link. We will be treating it as if it were.",
                 line_offset + 1,
diff --git a/markflow/formatters/atx_heading.py b/markflow/formatters/atx_heading.py
index 196d07f..ef03bdd 100644
--- a/markflow/formatters/atx_heading.py
+++ b/markflow/formatters/atx_heading.py
@@ -18,7 +18,7 @@ https://spec.commonmark.org/0.29/#atx-headings
 """
 import logging
 
-from .._utils import truncate_str
+from .._utils import get_warning_level, truncate_str
 from ..typing import Number
 from .base import MarkdownSection
 
@@ -55,11 +55,9 @@ class MarkdownATXHeading(MarkdownSection):
         self.lines.append(line)
 
     def reformatted(self, width: Number = 88) -> str:
-        # TODO: This prints out twice. We probably need a first pass step that calls out
-        #  errors we will be fixing to suppress extra statements from reprocessing the
-        #  document.
         if not self.lines[0].strip().lstrip("#").startswith(" "):
-            logger.warning(
+            logger.log(
+                get_warning_level(),
                 "Line %d is an ATX Header without a space after #'s. This has been "
                 "corrected.",
                 self.line_index + 1,
diff --git a/markflow/reformat_markdown.py b/markflow/reformat_markdown.py
index 7496683..8da2f40 100644
--- a/markflow/reformat_markdown.py
+++ b/markflow/reformat_markdown.py
@@ -1,7 +1,12 @@
 import logging
 from typing import Dict, Type
 
-from ._utils import get_info_level, redirect_info_logs_to_debug, split_lines
+from ._utils import (
+    get_info_level,
+    get_warning_level,
+    redirect_logs_to_debug,
+    split_lines,
+)
 from .exceptions import MarkdownFormatException, ReformatInconsistentException
 from .formatters import (
     MarkdownATXHeading,
@@ -60,8 +65,9 @@ def _reformat_markdown_text(text: str, width: Number = 88, line_index: int = 0)
             section_type == MarkdownSectionEnum.SETEXT_HEADING
             and last_section_type == MarkdownSectionEnum.BLOCK_QUOTE
         ):
-            logger.warning(
-                f"Adding a new line before setext heading on line {line_index + 1}"
+            logger.log(
+                get_warning_level(),
+                f"Adding a new line before setext heading on line {line_index + 1}",
             )
             formatters.append(
                 FORMATTERS[MarkdownSectionEnum.BLANK_LINE](line_index, [""])
@@ -90,7 +96,7 @@ def reformat_markdown_text(text: str, width: Number = 88) -> str:
     try:
         new_text = _reformat_markdown_text(text, width)
         # Mute logging during second pass since it means nothing to the user.
-        with redirect_info_logs_to_debug():
+        with redirect_logs_to_debug():
             new_new_text = _reformat_markdown_text(new_text, width)
     except RecursionError:
         raise MarkdownFormatException(
-- 
2.43.0


From adf074f9f924db23f73ba879a33a06f4896d6263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:31 +0000
Subject: [PATCH 41/68] fix: don't split the last line off an indented code
 block

---
 markflow/detectors/indented_code_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/detectors/indented_code_block.py b/markflow/detectors/indented_code_block.py
index b9322cd..a92d236 100644
--- a/markflow/detectors/indented_code_block.py
+++ b/markflow/detectors/indented_code_block.py
@@ -44,7 +44,7 @@ def split_indented_code_block(
             if not line.strip():
                 continue
             elif get_indent(line) >= 4:
-                close_index = index
+                close_index = index + 1
             else:
                 break
 
-- 
2.43.0


From c6e74a3117819951cab4132b61350ed5fe04cf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:51 +0000
Subject: [PATCH 42/68] fix: don't claim indented code as a table

---
 markflow/detectors/_lines.py | 2 +-
 markflow/detectors/table.py  | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index 43ff30f..fb61732 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -383,7 +383,7 @@ def is_table_start_line(line: str) -> bool:
     """
     # ToDo: Not really, but we'll have to adapt a standard from somewhere other than
     #  CommonMark
-    return line.lstrip().startswith("|")
+    return not is_indented_code_block_start_line(line) and line.lstrip().startswith("|")
 
 
 def is_thematic_break_line(line: str) -> bool:
diff --git a/markflow/detectors/table.py b/markflow/detectors/table.py
index d60d966..fcd3910 100644
--- a/markflow/detectors/table.py
+++ b/markflow/detectors/table.py
@@ -1,5 +1,7 @@
 from typing import List, Tuple
 
+from ._lines import is_indented_code_block_start_line
+
 
 def table_started(line: str, index: int, lines: List[str]) -> bool:
     """DEPRECATED"""
@@ -16,7 +18,9 @@ def split_table(lines: List[str], line_offset: int = 0) -> Tuple[List[str], List
     remaining_lines = lines
 
     index = 0
-    if table_started(lines[index], index, lines):
+    if table_started(lines[index], index, lines) and not (
+        is_indented_code_block_start_line(lines[index])
+    ):
         table.append(lines[index])
         for index, line in enumerate(lines[1:], start=index + 1):
             if table_ended(line, index, lines):
-- 
2.43.0


From fb76efc1a179fc9069cb4f9fc8328155aa3ce7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 43/68] fix: keep the indentation inside of block quotes
 without a space after the marker

---
 markflow/formatters/block_quote.py | 36 +++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index f54aec8..0651d9a 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -5,6 +5,7 @@ from typing import List
 from .._utils import (
     get_indent,
     redirect_info_logs_to_debug,
+    redirect_logs_to_debug,
     split_lines,
     truncate_str,
 )
@@ -32,6 +33,28 @@ def _reformat_markdown(lines: List[str], width: Number) -> str:
     return text
 
 
+def _can_have_indented_lines(lines: List[str]) -> bool:
+    """Whether lines, at any width, can be reformatted to a line that is indented"""
+    # Avoid circular imports
+    from ..parser import MarkdownSectionEnum, parse_markdown
+
+    with redirect_logs_to_debug():
+        sections = parse_markdown(lines)
+
+    for section_type, section_content in sections:
+        if section_type in (
+            MarkdownSectionEnum.BULLET_LIST,
+            MarkdownSectionEnum.INDENTED_CODE_BLOCK,
+            MarkdownSectionEnum.ORDERED_LIST,
+        ):
+            return True
+        if section_type == MarkdownSectionEnum.FENCED_CODE_BLOCK and any(
+            line.startswith(" ") for line in section_content
+        ):
+            return True
+    return False
+
+
 class MarkdownBlockQuote(MarkdownSection):
     @property
     def first_line(self) -> str:
@@ -67,11 +90,14 @@ class MarkdownBlockQuote(MarkdownSection):
         else:
             has_space = False
 
-        if has_space:
-            restripped_lines: List[str] = []
-            for line in stripped_lines:
-                restripped_lines += [line[1:] if line and line[0] == " " else line]
-            stripped_lines = restripped_lines
+        # A space following a marker is part of the marker
+        restripped_lines: List[str] = []
+        for line in stripped_lines:
+            restripped_lines += [line[1:] if line and line[0] == " " else line]
+        stripped_lines = restripped_lines
+
+        # Without one, the marker would take a space from what is indented
+        has_space = has_space or _can_have_indented_lines(stripped_lines)
 
         sub_width = width - 1
         prefix = ">"
-- 
2.43.0


From 961ae897bf9b40b2ff6cf228d3e90e7f70b696e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:58 +0000
Subject: [PATCH 44/68] fix: print the names of reformatted files as they are

---
 markflow/__main__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 1352f1f..e005b53 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -64,6 +64,11 @@ def print_markdown(markdown_text: str) -> None:
     console.print(rich.markdown.Markdown(markdown_text))
 
 
+def escape_markdown(text: str) -> str:
+    """Escape text so that `print_markdown` prints it as it is"""
+    return re.sub(r"([!-/:-@\[-`{-~])", r"\\\1", text)
+
+
 def parse_args(argv: List[str]) -> argparse.Namespace:
     parser = argparse.ArgumentParser(
         description="Make your Markdown sparkle.", add_help=False
@@ -301,9 +306,9 @@ def _reformat_files(args: argparse.Namespace) -> int:
             files_changed += 1
             if not args.check:
                 output_path.write_text(new_contents)
-                print_markdown(f"**reformatted {input_path}**")
+                print_markdown(f"**reformatted {escape_markdown(str(input_path))}**")
             else:
-                print_markdown(f"would reformat {input_path}")
+                print_markdown(f"would reformat {escape_markdown(str(input_path))}")
         else:
             if output_path != input_path and not args.check:
                 output_path.write_text(new_contents)
-- 
2.43.0


From 46f8c12aecdcd2f1bb955a8310ba8d9213d0e52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:04 +0000
Subject: [PATCH 45/68] fix: recognise an indented title of a link reference
 definition

---
 markflow/detectors/link_reference_definition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/markflow/detectors/link_reference_definition.py b/markflow/detectors/link_reference_definition.py
index 893acf8..b5cac47 100644
--- a/markflow/detectors/link_reference_definition.py
+++ b/markflow/detectors/link_reference_definition.py
@@ -124,7 +124,8 @@ def split_link_reference_definition(
     # definition that can stand on its own.
     end_index = index
 
-    if title_text.strip():
+    title_text = title_text.lstrip()
+    if title_text:
         quotation_character = title_text[0]
     else:
         quotation_character = "NO QUOTE"
-- 
2.43.0


From ff1ab0e10ba419bf5b462f7b889b1eaa91f9f3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:30 +0000
Subject: [PATCH 46/68] fix: keep tabs and no-break spaces next to inline code
 and links

---
 markflow/_utils/textwrap.py      | 56 +++++++++++++++++++-------------
 markflow/formatters/paragraph.py |  2 +-
 2 files changed, 35 insertions(+), 23 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 45a9da4..f504260 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -98,6 +98,14 @@ def join(split_text: List[str], leading_spaces: List[bool], width: Number) -> st
     return "\n".join(new_split_text)
 
 
+def _drop_tabs(text: str) -> str:
+    """Drop tabs that are next to spaces as they don't make a difference
+
+    All other whitespace but spaces is kept like text.
+    """
+    return re.sub(r"(?: +\t|\t+ )[ \t]*", " ", text)
+
+
 def code_split(
     text: str, leading_space: bool
 ) -> Tuple[List[str], List[bool], List[bool]]:
@@ -120,7 +128,7 @@ def code_split(
                 code_start += 1
                 if code_start == code_marker.end():
                     continue
-            plaintext = text[last_end:code_start]
+            plaintext = _drop_tabs(text[last_end:code_start])
             if (
                 plaintext.startswith(".")
                 and not plaintext.startswith("..")
@@ -128,12 +136,12 @@ def code_split(
             ):
                 split_text[-1] += "."
                 plaintext = plaintext[1:]
-            if plaintext.strip():
+            if plaintext.strip(" "):
                 if not leading_spaces:
                     leading_spaces.append(leading_space)
                 else:
                     leading_spaces.append(plaintext.startswith(" "))
-                split_text.append(plaintext.strip())
+                split_text.append(plaintext.strip(" "))
                 evaluates.append(True)
             open_marker_len = code_marker.end() - code_start
 
@@ -159,10 +167,10 @@ def code_split(
     # inline text and just a standalone tilda or set of tildas, so we can evaluate it.
     if split_text and len(INLINE_CODE_MARKER_REGEX.findall(split_text[-1])) == 1:
         evaluates[-1] = True
-        if text[last_end:].strip():
-            split_text[-1] += text[last_end:].rstrip()
+        if text[last_end:].strip(" "):
+            split_text[-1] += text[last_end:].rstrip(" ")
     else:
-        remaining_text = text[last_end:]
+        remaining_text = _drop_tabs(text[last_end:])
         if (
             split_text
             and remaining_text.startswith(".")
@@ -170,8 +178,8 @@ def code_split(
         ):
             split_text[-1] += "."
             remaining_text = remaining_text[1:]
-        if remaining_text.strip():
-            split_text.append(remaining_text.strip())
+        if remaining_text.strip(" "):
+            split_text.append(remaining_text.strip(" "))
             if last_end == 0:
                 leading_spaces.append(leading_space)
             else:
@@ -220,7 +228,7 @@ def link_split(
                 continue
             match = glued_match
         non_link_text = text[last_end : match.start()]
-        if non_link_text.strip():
+        if non_link_text.strip(" "):
             if (
                 split_text
                 and non_link_text.startswith(".")
@@ -228,7 +236,7 @@ def link_split(
             ):
                 split_text[-1] += "."
                 non_link_text = non_link_text[1:]
-            split_text.append(non_link_text.strip())
+            split_text.append(non_link_text.strip(" "))
             if not leading_spaces:
                 leading_spaces.append(leading_space)
             else:
@@ -248,12 +256,12 @@ def link_split(
         leading_spaces.append(False)
         if "](" in match.group():
             split_link = match.group().split("](", maxsplit=1)
-            split_text.append(split_link[0].strip() + "](")
-            split_text.append(split_link[1].strip())
+            split_text.append(split_link[0].strip(" \t") + "](")
+            split_text.append(split_link[1].strip(" \t"))
         else:
             split_link = match.group().split("][", maxsplit=1)
-            split_text.append(split_link[0].strip() + "][")
-            split_text.append(split_link[1].strip())
+            split_text.append(split_link[0].strip(" \t") + "][")
+            split_text.append(split_link[1].strip(" \t"))
 
         # Don't modify our hyperlink
         evaluates += [True, False]
@@ -267,8 +275,8 @@ def link_split(
     ):
         split_text[-1] += "."
         remaining_text = remaining_text[1:]
-    if remaining_text.strip():
-        split_text.append(remaining_text.strip())
+    if remaining_text.strip(" "):
+        split_text.append(remaining_text.strip(" "))
         if last_end == 0:
             leading_spaces.append(leading_space)
         else:
@@ -294,8 +302,11 @@ def newline_split(
         else:
             leading_spaces.append(text[last_end] == " ")
 
-        if non_newline_text.strip():
-            split_text.append(non_newline_text.strip())
+        # Only tabs next to a new line don't make a difference
+        stripped_text = non_newline_text.lstrip(" \t" if last_end else " ")
+        stripped_text = stripped_text.rstrip(" \t")
+        if stripped_text:
+            split_text.append(stripped_text)
             evaluates.append(True)
             leading_spaces.append(non_newline_text.endswith(" "))
 
@@ -303,8 +314,9 @@ def newline_split(
         evaluates.append(False)
         last_end = match.end()
 
-    if text[last_end:].strip():
-        split_text.append(text[last_end:].strip())
+    remaining_text = text[last_end:].lstrip(" \t" if last_end else " ").rstrip(" ")
+    if remaining_text:
+        split_text.append(remaining_text)
         if last_end == 0:
             leading_spaces.append(leading_space)
         else:
@@ -323,7 +335,7 @@ def space_split(
     for word in text.split(" "):
         if not word:
             continue
-        split_text.append(word.strip())
+        split_text.append(word)
         if not leading_spaces:
             leading_spaces.append(leading_space)
         else:
@@ -336,7 +348,7 @@ def space_split(
 def wrap(text: str, width: Number) -> str:
     # TODO: Should wrap be modifying the input. Maybe assert there's no newlines?
     lines = split_lines(text)
-    text = " ".join([line.strip() for line in lines])
+    text = " ".join([line.strip(" \t") for line in lines])
 
     split_text: List[str] = [text]
     leading_spaces: List[bool] = [False]
diff --git a/markflow/formatters/paragraph.py b/markflow/formatters/paragraph.py
index 64b4e10..9cc823f 100644
--- a/markflow/formatters/paragraph.py
+++ b/markflow/formatters/paragraph.py
@@ -12,7 +12,7 @@ class MarkdownParagraph(MarkdownSection):
     @property
     def content(self) -> str:
         # TODO: I think we actually want to split each line to remove double spaces.
-        return " ".join([line.strip() for line in self.lines])
+        return " ".join([line.strip(" \t") for line in self.lines])
 
     def append(self, line: str) -> None:
         self.lines.append(line)
-- 
2.43.0


From c4cba406523d5edc0900c14462d8360ced9a9107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:24 +0000
Subject: [PATCH 47/68] fix: log messages were mixed with the reformatted text
 on standard output

---
 markflow/__main__.py   | 5 ++++-
 stubs/rich/logging.pyi | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index e005b53..b64ea0c 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -208,7 +208,10 @@ def parse_args(argv: List[str]) -> argparse.Namespace:
     logging.basicConfig(
         format="",
         level=logging_levels[verbosity],
-        handlers=[rich.logging.RichHandler()],
+        # Standard output is for reformatted text
+        handlers=[
+            rich.logging.RichHandler(console=rich.console.Console(file=sys.stderr))
+        ],
     )
 
     if args.developer_help:
diff --git a/stubs/rich/logging.pyi b/stubs/rich/logging.pyi
index f29030d..a76289c 100644
--- a/stubs/rich/logging.pyi
+++ b/stubs/rich/logging.pyi
@@ -1,3 +1,7 @@
 from logging import Handler
+from typing import Optional
 
-class RichHandler(Handler): ...
+from rich.console import Console
+
+class RichHandler(Handler):
+    def __init__(self, level: int = ..., console: Optional[Console] = ...) -> None: ...
-- 
2.43.0


From f8a3f012e14c9408e819d418b851d66432810143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 48/68] fix: name the file whose formatting can't be understood

---
 markflow/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index b64ea0c..7bfefd7 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -293,7 +293,7 @@ def _reformat_files(args: argparse.Namespace) -> int:
             old_contents = input_file.read()
         try:
             new_contents = reformat_markdown_text(old_contents, args.line_length)
-        except RuntimeError as runtime_error:
+        except (MarkdownFormatException, RuntimeError) as runtime_error:
             if args.write_renders and isinstance(
                 runtime_error, ReformatInconsistentException
             ):
-- 
2.43.0


From 1f60a3158d2956e9f200d58f99f7b3f2a4755101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:52 +0000
Subject: [PATCH 49/68] fix: take numbers of more than nine digits for text

---
 markflow/detectors/_lines.py | 6 +++---
 markflow/formatters/lists.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index fb61732..040b0e9 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -22,11 +22,11 @@ BULLET_LIST_START_REGEX = re.compile(
 ORDERED_LIST_START_REGEX = re.compile(
     r"^\s*"  # Leading spaces are OK and often expected
     r"("
-    r"[0-9]+\."  # Numeric list marker
+    r"[0-9]{1,9}\."  # Numeric list marker
     r")( |$)"  # Lists need a space after their identifier unless the entry is empty
 )
-LIST_MARKER_REGEX = re.compile(r"^\s*([*+-]|[0-9]+\.)( |$)")
-EMPTY_LIST_ENTRY_REGEX = re.compile(r"^\s*([*+-]|[0-9]+\.)\s*$")
+LIST_MARKER_REGEX = re.compile(r"^\s*([*+-]|[0-9]{1,9}\.)( |$)")
+EMPTY_LIST_ENTRY_REGEX = re.compile(r"^\s*([*+-]|[0-9]{1,9}\.)\s*$")
 THEMATIC_BREAK_CHARACTERS = ["*", "_", "-"]
 
 
diff --git a/markflow/formatters/lists.py b/markflow/formatters/lists.py
index d4820be..dfd8086 100644
--- a/markflow/formatters/lists.py
+++ b/markflow/formatters/lists.py
@@ -18,7 +18,7 @@ MARKER_REGEX = re.compile(
     r"\*|"  # Asterisk list marker
     r"-|"  # Dash list marker
     r"\+|"  # Plus list marker
-    r"[0-9]+\."  # Numeric list marker
+    r"[0-9]{1,9}\."  # Numeric list marker
     r")"
     r"($| )"  # End of line or space
 )
-- 
2.43.0


From e4752b39eecb995e407fd5cc4c75d7fe44d4ac92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:55 +0000
Subject: [PATCH 50/68] fix: don't number list entries past nine digits

---
 markflow/formatters/lists.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/markflow/formatters/lists.py b/markflow/formatters/lists.py
index dfd8086..460392a 100644
--- a/markflow/formatters/lists.py
+++ b/markflow/formatters/lists.py
@@ -23,6 +23,7 @@ MARKER_REGEX = re.compile(
     r"($| )"  # End of line or space
 )
 REPR_CONTENT_LEN = 20
+MAX_NUMBER = 999999999  # Anything longer isn't a list marker
 
 
 def _reformat_markdown(lines: List[str], width: Number) -> str:
@@ -160,6 +161,7 @@ class MarkdownOrderedList(MarkdownSection):
 
         reformatted_entries: List[str] = []
         for entry_number, entry in enumerate(dedented_entries, start=self.first_number):
+            entry_number = min(entry_number, MAX_NUMBER)
             # '99. '
             toplevel_indent = len(str(entry_number)) + 2
             with redirect_info_logs_to_debug():
-- 
2.43.0


From 22f3f69c91d1efef8240eba3c5d374ebde60dd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 51/68] fix: don't break a line after text that would be a
 thematic break or underline

---
 markflow/_utils/textwrap.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index f504260..9178ce7 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -6,6 +6,7 @@ from markflow.detectors._lines import (
     ends_with_hard_line_break,
     is_paragraph_start_line,
     is_setext_underline,
+    is_thematic_break_line,
 )
 from markflow.typing import Number
 
@@ -31,6 +32,14 @@ def _can_start_line(word: str) -> bool:
     )
 
 
+def _can_be_first_line(text: str) -> bool:
+    """Can a line end after the text at its beginning without being a new section?
+
+    This errs on the side of caution as we don't know what is in front of it.
+    """
+    return not is_thematic_break_line(text * 3) and not is_setext_underline(text)
+
+
 def _glue(
     split_text: List[str], leading_spaces: List[bool]
 ) -> Tuple[List[str], List[bool], List[bool]]:
@@ -72,6 +81,12 @@ def _glue(
             del glued_spaces[i]
             del html_newlines[i - 1]
 
+    while len(glued_text) > 1 and not _can_be_first_line(glued_text[0]):
+        space = " " if glued_spaces[1] else ""
+        glued_text[:2] = [glued_text[0] + space + glued_text[1]]
+        del glued_spaces[1]
+        del html_newlines[0]
+
     return glued_text, glued_spaces, html_newlines
 
 
-- 
2.43.0


From b3262da8560aeb116711e90489dac9f64fb341a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:35 +0000
Subject: [PATCH 52/68] fix: don't turn the beginning of a paragraph into a
 link reference definition

A line break after what looks like a definition in a paragraph made it one, so
it wasn't shown any more.
---
 markflow/_utils/textwrap.py                   | 43 +++++++++++++++++--
 .../formatters/link_reference_definition.py   |  2 +-
 2 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 9178ce7..7313a10 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -1,5 +1,5 @@
 import re
-from typing import List, Tuple
+from typing import List, Set, Tuple
 
 from markflow._utils import split_lines
 from markflow.detectors._lines import (
@@ -16,6 +16,15 @@ HTML_NEWLINE_REGEX = re.compile(r"<br ?/?>")
 _LINK_PREFIX = r"(?:<br /?>|[^\s\]\)])*"
 _LINK_SUFFIX = r"(?:(?!<br ?/?>)[^\s\[\(])*"
 FOOTNOTE_REGEX = re.compile(_LINK_PREFIX + r"\[[^\[]+\]\[[^\]]+\]" + _LINK_SUFFIX)
+# What a link reference definition starts with, including what others take for one
+DEFINITION_LABEL_REGEX = re.compile(r"\[[^\]]+(?:\\\][^\]]*)*\]:")
+DEFINITION_DESTINATION_REGEXES = [
+    re.compile(r"\s*\S+"),
+    re.compile(r"\s*<[^<>]*>(?!\S)"),
+]
+DEFINITION_TITLE_REGEX = re.compile(
+    r"\s+(?:'(?:\\.|[^'\\])*'|\"(?:\\.|[^\"\\])*\"|\((?:\\.|[^()\\])*\))(?!\S)"
+)
 URL_REGEX = re.compile(_LINK_PREFIX + r"\[[^\[]+\]\([^\)]+\)" + _LINK_SUFFIX)
 
 
@@ -40,6 +49,25 @@ def _can_be_first_line(text: str) -> bool:
     return not is_thematic_break_line(text * 3) and not is_setext_underline(text)
 
 
+def _get_definition_ends(text: str) -> Set[int]:
+    """Find where text can't be broken as it would begin with a definition then"""
+    label = DEFINITION_LABEL_REGEX.match(text)
+    if not label:
+        return set()
+
+    ends: Set[int] = set()
+    if text[label.end() :].lstrip().startswith("["):
+        ends.add(label.end())
+    for regex in DEFINITION_DESTINATION_REGEXES:
+        destination = regex.match(text, label.end())
+        if destination:
+            ends.update(range(label.end() + 1, destination.end() + 1))
+            title = DEFINITION_TITLE_REGEX.match(text, destination.end())
+            if title:
+                ends.add(title.end())
+    return ends
+
+
 def _glue(
     split_text: List[str], leading_spaces: List[bool]
 ) -> Tuple[List[str], List[bool], List[bool]]:
@@ -72,9 +100,18 @@ def _glue(
             html_newlines[-1] = is_html_newline
         breakable = is_html_newline or word.endswith(("](", "]["))
 
+    text = ""
+    ends: List[int] = []
+    for word, leading_space in zip(glued_text, glued_spaces):
+        text += (" " if leading_space else "") + word
+        ends.append(len(text))
+    definition_ends = _get_definition_ends(text)
+
     for i in range(len(glued_text) - 1, 0, -1):
-        if ends_with_hard_line_break(glued_text[i - 1]) or not _can_start_line(
-            glued_text[i]
+        if (
+            ends_with_hard_line_break(glued_text[i - 1])
+            or not _can_start_line(glued_text[i])
+            or ends[i - 1] in definition_ends
         ):
             space = " " if glued_spaces[i] else ""
             glued_text[i - 1 : i + 1] = [glued_text[i - 1] + space + glued_text[i]]
diff --git a/markflow/formatters/link_reference_definition.py b/markflow/formatters/link_reference_definition.py
index 4c24cba..6739333 100644
--- a/markflow/formatters/link_reference_definition.py
+++ b/markflow/formatters/link_reference_definition.py
@@ -101,7 +101,7 @@ class MarkdownLinkReferenceDefinition(MarkdownSection):
         # overflow lines (the label and url portions).
         if rest_of_line.strip() != self.link:
             # Our title was on the line with our link
-            if len(title.split()[0]) + len(split_lines(str_)[-1]) <= width:
+            if len(title.split()[0]) + len(split_lines(str_)[-1]) < width:
                 lines = split_lines(str_)
                 str_ = "\n".join(lines[:-1] + [wrap(lines[-1] + " " + title, width)])
             else:
-- 
2.43.0


From 3266e92cd5231e8e523c9f202bcaa8655c6749c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:14 +0000
Subject: [PATCH 53/68] fix: keep text that continues block quotes text, and
 end them at empty list entries

Indentation of at least four spaces is what makes it text, and the marker took
one of them. Only paragraphs outside of containers can't be interrupted by
empty list entries.
---
 markflow/detectors/block_quote.py  | 3 ---
 markflow/formatters/block_quote.py | 4 +++-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/markflow/detectors/block_quote.py b/markflow/detectors/block_quote.py
index f01b05a..e731ec4 100644
--- a/markflow/detectors/block_quote.py
+++ b/markflow/detectors/block_quote.py
@@ -3,7 +3,6 @@ from typing import List, Tuple
 
 from .._utils import redirect_info_logs_to_debug
 from ._lines import (
-    is_empty_list_entry_line,
     is_explicit_block_quote_line,
     is_setext_underline,
     is_thematic_break_line,
@@ -64,8 +63,6 @@ def _is_paragraph_continuation_text(lines: List[str], line_offset: int = 0) -> b
     """
     from .setext_heading import split_setext_heading
 
-    if is_empty_list_entry_line(lines[0]) and not is_setext_underline(lines[0]):
-        return True
     for splitter in [
         split_atx_heading,
         split_blank_line,
diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index 0651d9a..62bbb9f 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -72,7 +72,9 @@ class MarkdownBlockQuote(MarkdownSection):
                 depth = len(spaceless_string) - len(spaceless_string.lstrip(">"))
                 fully_quoted_lines.append(line)
             else:
-                fully_quoted_lines.append((">" * depth) + line)
+                # The marker would take a space from what then isn't text any longer
+                space = " " if get_indent(line) >= 4 else ""
+                fully_quoted_lines.append((">" * depth) + space + line)
 
         stripped_lines: List[str] = []
         for line in fully_quoted_lines:
-- 
2.43.0


From fdb53d75adbf63f7c97c8dc1f97c48c6744bd7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:42 +0000
Subject: [PATCH 54/68] fix: don't underline paragraphs with the thematic
 breaks that follow them

Breaks of dashes keep spaces in between if the line would underline a heading.
---
 markflow/formatters/thematic_break.py | 17 +++++++++++++++--
 markflow/reformat_markdown.py         | 12 ++++++++++++
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/markflow/formatters/thematic_break.py b/markflow/formatters/thematic_break.py
index 632115a..d9e424a 100644
--- a/markflow/formatters/thematic_break.py
+++ b/markflow/formatters/thematic_break.py
@@ -17,6 +17,7 @@ https://spec.commonmark.org/0.29/#thematic-breaks
 
 import math
 
+from ..detectors._lines import is_setext_underline
 from ..typing import Number
 from .base import MarkdownSection
 
@@ -24,6 +25,9 @@ __all__ = ["MarkdownThematicBreak"]
 
 
 class MarkdownThematicBreak(MarkdownSection):
+    # Does the break follow a paragraph that could be taken for a heading with it?
+    follows_paragraph = False
+
     @property
     def char(self) -> str:
         # Assuming we were passed valid data
@@ -37,14 +41,23 @@ class MarkdownThematicBreak(MarkdownSection):
     def reformatted(self, width: Number = 88) -> str:
         if isinstance(width, float):
             if width == math.inf:
-                return self.char * 3
+                line = self.char * 3
             else:
                 raise RuntimeError(
                     f"Invalid width {repr(width)} passed. How did you manage this?"
                 )
         else:
             # Anything shorter than three characters isn't a thematic break
-            return self.char * max(3, width)
+            line = self.char * max(3, width)
+
+        if (
+            self.char == "-"
+            and self.follows_paragraph
+            and not is_setext_underline(self.lines[0])
+        ):
+            # Lines of dashes without spaces in between underline headings
+            line = " ".join("-" * max(3, (len(line) + 1) // 2))
+        return line
 
     def __repr__(self) -> str:
         return f"<{self.__class__.__name__}: char={repr(self.char)}>"
diff --git a/markflow/reformat_markdown.py b/markflow/reformat_markdown.py
index 8da2f40..6f14b11 100644
--- a/markflow/reformat_markdown.py
+++ b/markflow/reformat_markdown.py
@@ -52,6 +52,7 @@ def _reformat_markdown_text(text: str, width: Number = 88, line_index: int = 0)
 
     formatters = []
     last_section_type = MarkdownSectionEnum.INVALID
+    in_paragraph = False
 
     for section_type, section_content in sections:
         formatter = FORMATTERS[section_type](line_index, section_content)
@@ -72,6 +73,17 @@ def _reformat_markdown_text(text: str, width: Number = 88, line_index: int = 0)
             formatters.append(
                 FORMATTERS[MarkdownSectionEnum.BLANK_LINE](line_index, [""])
             )
+        if isinstance(formatter, MarkdownThematicBreak):
+            formatter.follows_paragraph = in_paragraph
+        # What would be one of these continues a paragraph after a hard line break
+        in_paragraph = section_type == MarkdownSectionEnum.PARAGRAPH or (
+            in_paragraph
+            and section_type
+            in (
+                MarkdownSectionEnum.INDENTED_CODE_BLOCK,
+                MarkdownSectionEnum.LINK_REFERENCE_DEFINITION,
+            )
+        )
         formatters.append(formatter)
         line_index += len(section_content)
 
-- 
2.43.0


From b7b0d603034f7bfde4528a693bf9244b05d4fb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:29 +0000
Subject: [PATCH 55/68] fix: don't take quoted text and code for block quote
 markers

---
 markflow/formatters/block_quote.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index 62bbb9f..effef54 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -18,6 +18,7 @@ __all__ = ["MarkdownBlockQuote"]
 REPR_CONTENT_LEN = 20
 NON_ESCAPED_QUOTE_MARKER = re.compile(r"(?<= )>")
 LEADING_QUOTE_MARKER = re.compile(r"^ {0,3}>")
+LEADING_QUOTE_MARKERS = re.compile(r"^( {0,3}> ?)*")
 
 logger = logging.getLogger(__name__)
 
@@ -68,8 +69,9 @@ class MarkdownBlockQuote(MarkdownSection):
         fully_quoted_lines = []
         for line in self.lines:
             if is_explicit_block_quote_line(line):
-                spaceless_string = "".join(line.split())
-                depth = len(spaceless_string) - len(spaceless_string.lstrip(">"))
+                # A marker that is indented by more is text or code
+                match = LEADING_QUOTE_MARKERS.match(line)
+                depth = match.group().count(">") if match else 0
                 fully_quoted_lines.append(line)
             else:
                 # The marker would take a space from what then isn't text any longer
-- 
2.43.0


From 1ffa80c58a9327d52b82252e12817405dea279e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:57 +0000
Subject: [PATCH 56/68] fix: treat tabs as the columns of indentation they are

---
 markflow/_utils/_utils.py                  | 41 ++++++++++++++++++++
 markflow/detectors/_lines.py               | 45 ++++++++++++++++++++--
 markflow/detectors/block_quote.py          |  8 +---
 markflow/formatters/block_quote.py         | 20 +++++-----
 markflow/formatters/indented_code_block.py | 10 ++++-
 markflow/formatters/lists.py               | 18 +++++++--
 6 files changed, 117 insertions(+), 25 deletions(-)

diff --git a/markflow/_utils/_utils.py b/markflow/_utils/_utils.py
index 35f62c9..8d85d37 100644
--- a/markflow/_utils/_utils.py
+++ b/markflow/_utils/_utils.py
@@ -1,13 +1,19 @@
 import contextlib
 import logging
+import math
 import re
 import threading
 from typing import Iterator, List
 
+from ..typing import Number
+
 __all__ = [
+    "CODE_INDENT",
+    "expand_indent",
     "get_indent",
     "get_info_level",
     "get_warning_level",
+    "remove_indent",
     "split_lines",
     "truncate_str",
     "redirect_info_logs_to_debug",
@@ -15,13 +21,48 @@ __all__ = [
 ]
 
 ELLIPSIS = "..."
+TAB_SIZE = 4
+CODE_INDENT = 4  # Columns an indented code block is indented by
 LINE_ENDING_REGEX = re.compile(r"\r\n|\n|\r")
 
 
+def expand_indent(line: str, start: int = 0, columns: Number = math.inf) -> str:
+    """Replace tabs of the whitespace beginning at start by the spaces they stand for
+
+    Args:
+        line: The line, which must not contain tabs before start
+        start (optional): Where the whitespace begins
+        columns (optional): The number of columns of it that must consist of spaces
+
+    Returns:
+        The line with those columns expanded
+    """
+    if "\t" not in line:
+        return line
+    index = start
+    while index < start + columns and line[index : index + 1].isspace():
+        if line[index] == "\t":
+            spaces = " " * (TAB_SIZE - index % TAB_SIZE)
+            line = line[:index] + spaces + line[index + 1 :]
+        index += 1
+    return line
+
+
 def get_indent(line: str) -> int:
+    """Get the number of columns a line is indented by"""
+    line = expand_indent(line)
     return len(line) - len(line.lstrip())
 
 
+def remove_indent(line: str, columns: int) -> str:
+    """Remove up to that many columns of whitespace from the beginning of a line
+
+    What is left of a tab that is removed in part is replaced by spaces.
+    """
+    line = expand_indent(line, columns=columns)
+    return line[:columns].lstrip() + line[columns:]
+
+
 def split_lines(text: str) -> List[str]:
     """Split text into lines as defined by the standard
 
diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index 040b0e9..58213dd 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -8,7 +8,7 @@ lines. They are stored here so as to avoid any circular imports.
 import re
 from typing import List, Set
 
-from .._utils import get_indent
+from .._utils import CODE_INDENT, expand_indent, get_indent
 
 FENCED_CODE_BLOCK_FENCE_CHARACTERS = ["`", "~"]
 BULLET_LIST_START_REGEX = re.compile(
@@ -25,6 +25,7 @@ ORDERED_LIST_START_REGEX = re.compile(
     r"[0-9]{1,9}\."  # Numeric list marker
     r")( |$)"  # Lists need a space after their identifier unless the entry is empty
 )
+LEADING_QUOTE_MARKER_REGEX = re.compile(r"^ {0,3}>")
 LIST_MARKER_REGEX = re.compile(r"^\s*([*+-]|[0-9]{1,9}\.)( |$)")
 EMPTY_LIST_ENTRY_REGEX = re.compile(r"^\s*([*+-]|[0-9]{1,9}\.)\s*$")
 THEMATIC_BREAK_CHARACTERS = ["*", "_", "-"]
@@ -103,7 +104,9 @@ def is_explicit_block_quote_line(line: str) -> bool:
     Returns:
         True if the line is an block quote line. False otherwise.
     """
-    return not is_indented_code_block_start_line(line) and line.lstrip().startswith(">")
+    return not is_indented_code_block_start_line(line) and line.lstrip(" ").startswith(
+        ">"
+    )
 
 
 def get_opening_fence(line: str) -> str:
@@ -178,7 +181,7 @@ def get_fenced_lines_in_list(lines: List[str]) -> Set[int]:
     entry_indents: List[int] = []
     index = 0
     while index < len(lines):
-        content = lines[index]
+        content = expand_indent(lines[index])
         indent = get_indent(content)
         match = LIST_MARKER_REGEX.match(content)
         while match:
@@ -222,6 +225,7 @@ def get_nested_lines_in_list(lines: List[str]) -> Set[int]:
     for index, line in enumerate(lines):
         if index in nested_lines or is_blank_line_line(line):
             continue
+        line = expand_indent(line)
         match = LIST_MARKER_REGEX.match(line)
         if entry_indent and get_indent(line) >= entry_indent:
             nested_lines.add(index)
@@ -230,6 +234,39 @@ def get_nested_lines_in_list(lines: List[str]) -> Set[int]:
     return nested_lines
 
 
+def remove_quote_markers(lines: List[str]) -> List[str]:
+    """Remove the first marker from each of the lines of a block quote
+
+    Tabs that are not part of code are replaced by the spaces they stand for.
+
+    Args:
+        lines: The lines of the block quote
+
+    Returns:
+        The lines without their markers. A space following a marker is still there.
+    """
+    stripped_lines: List[str] = []
+    fence = ""
+    for line in lines:
+        marker = LEADING_QUOTE_MARKER_REGEX.match(line)
+        if marker:
+            # The first column may be part of the marker
+            columns = 1 if fence else 1 + CODE_INDENT
+            line = expand_indent(line, marker.end(), columns)[marker.end() :]
+        stripped_lines.append(line)
+
+        if not fence:
+            content = line[1:] if line.startswith(" ") else line
+            match = LIST_MARKER_REGEX.match(content)
+            while match:
+                content = content[match.end() :]
+                match = LIST_MARKER_REGEX.match(content)
+            fence = get_opening_fence(content)
+        elif is_closing_fence_line(line, fence):
+            fence = ""
+    return stripped_lines
+
+
 def is_empty_list_entry_line(line: str) -> bool:
     """Evaluates whether a line is a list entry without any content
 
@@ -264,7 +301,7 @@ def is_indented_code_block_start_line(line: str) -> bool:
     Returns:
         True if the line is could start an indented code block. False otherwise.
     """
-    return bool(line.strip()) and get_indent(line) >= 4
+    return bool(line.strip()) and get_indent(line) >= CODE_INDENT
 
 
 def is_ordered_list_start_line(line: str) -> bool:
diff --git a/markflow/detectors/block_quote.py b/markflow/detectors/block_quote.py
index e731ec4..df93f1d 100644
--- a/markflow/detectors/block_quote.py
+++ b/markflow/detectors/block_quote.py
@@ -1,4 +1,3 @@
-import re
 from typing import List, Tuple
 
 from .._utils import redirect_info_logs_to_debug
@@ -6,6 +5,7 @@ from ._lines import (
     is_explicit_block_quote_line,
     is_setext_underline,
     is_thematic_break_line,
+    remove_quote_markers,
 )
 from .atx_heading import split_atx_heading
 from .blank_line import split_blank_line
@@ -15,8 +15,6 @@ from .ordered_list import split_ordered_list
 from .table import split_table
 from .thematic_break import split_thematic_break
 
-LEADING_QUOTE_MARKER = re.compile(r"^ {0,3}>")
-
 
 def _is_paragraph_continuation_text(lines: List[str], line_offset: int = 0) -> bool:
     """Indicates whether the first line of lines would continue a paragraph
@@ -85,9 +83,7 @@ def _block_quote_ends_with_paragraph(block_quote_lines: List[str]) -> bool:
     # Avoid circular imports
     from ..parser import MarkdownSectionEnum, parse_markdown
 
-    parsing_lines = []
-    for line in block_quote_lines:
-        parsing_lines.append(LEADING_QUOTE_MARKER.sub("", line))
+    parsing_lines = remove_quote_markers(block_quote_lines)
 
     with redirect_info_logs_to_debug():
         ending_section_type, ending_section_content = parse_markdown(parsing_lines)[-1]
diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index effef54..2943b56 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -3,13 +3,15 @@ import re
 from typing import List
 
 from .._utils import (
+    expand_indent,
     get_indent,
     redirect_info_logs_to_debug,
     redirect_logs_to_debug,
+    remove_indent,
     split_lines,
     truncate_str,
 )
-from ..detectors._lines import is_explicit_block_quote_line
+from ..detectors._lines import is_explicit_block_quote_line, remove_quote_markers
 from ..typing import Number
 from .base import MarkdownSection
 
@@ -17,8 +19,6 @@ __all__ = ["MarkdownBlockQuote"]
 
 REPR_CONTENT_LEN = 20
 NON_ESCAPED_QUOTE_MARKER = re.compile(r"(?<= )>")
-LEADING_QUOTE_MARKER = re.compile(r"^ {0,3}>")
-LEADING_QUOTE_MARKERS = re.compile(r"^( {0,3}> ?)*")
 
 logger = logging.getLogger(__name__)
 
@@ -50,7 +50,7 @@ def _can_have_indented_lines(lines: List[str]) -> bool:
         ):
             return True
         if section_type == MarkdownSectionEnum.FENCED_CODE_BLOCK and any(
-            line.startswith(" ") for line in section_content
+            line.startswith((" ", "\t")) for line in section_content
         ):
             return True
     return False
@@ -70,17 +70,19 @@ class MarkdownBlockQuote(MarkdownSection):
         for line in self.lines:
             if is_explicit_block_quote_line(line):
                 # A marker that is indented by more is text or code
-                match = LEADING_QUOTE_MARKERS.match(line)
-                depth = match.group().count(">") if match else 0
+                depth = 0
+                content = line
+                while is_explicit_block_quote_line(content):
+                    depth += 1
+                    content = remove_indent(remove_quote_markers([content])[0], 1)
                 fully_quoted_lines.append(line)
             else:
                 # The marker would take a space from what then isn't text any longer
+                line = expand_indent(line)
                 space = " " if get_indent(line) >= 4 else ""
                 fully_quoted_lines.append((">" * depth) + space + line)
 
-        stripped_lines: List[str] = []
-        for line in fully_quoted_lines:
-            stripped_lines.append(LEADING_QUOTE_MARKER.sub("", line))
+        stripped_lines = remove_quote_markers(fully_quoted_lines)
 
         for line in stripped_lines:
             if not line.strip():
diff --git a/markflow/formatters/indented_code_block.py b/markflow/formatters/indented_code_block.py
index 999c5cb..1e3bdc7 100644
--- a/markflow/formatters/indented_code_block.py
+++ b/markflow/formatters/indented_code_block.py
@@ -18,7 +18,7 @@ https://spec.commonmark.org/0.29/#indented-code-blocks
 
 import logging
 
-from .._utils import truncate_str
+from .._utils import CODE_INDENT, remove_indent, truncate_str
 from ..typing import Number
 from .base import MarkdownSection
 
@@ -38,7 +38,13 @@ class MarkdownIndentedCodeBlock(MarkdownSection):
         self.lines.append(line)
 
     def reformatted(self, width: Number = 88) -> str:
-        return "\n".join([line.rstrip() for line in self.lines])
+        # Tabs take up another number of columns once the code moves
+        return "\n".join(
+            [
+                (" " * CODE_INDENT + remove_indent(line, CODE_INDENT)).rstrip()
+                for line in self.lines
+            ]
+        )
 
     def __repr__(self) -> str:
         return (
diff --git a/markflow/formatters/lists.py b/markflow/formatters/lists.py
index 460392a..6c09e97 100644
--- a/markflow/formatters/lists.py
+++ b/markflow/formatters/lists.py
@@ -7,7 +7,14 @@ import re
 import string
 from typing import List
 
-from .._utils import get_indent, redirect_info_logs_to_debug, truncate_str
+from .._utils import (
+    CODE_INDENT,
+    expand_indent,
+    get_indent,
+    redirect_info_logs_to_debug,
+    remove_indent,
+    truncate_str,
+)
 from ..detectors._lines import get_fenced_lines_in_list
 from ..typing import Number
 from .base import MarkdownSection
@@ -63,6 +70,8 @@ def _split_list(lines: List[str]) -> List[List[str]]:
     fenced_lines = get_fenced_lines_in_list(lines)
     max_indent = _list_marker_end_pos(lines[0])
     for index, line in enumerate(lines):
+        if index not in fenced_lines:
+            line = expand_indent(line, columns=max_indent + 1 + CODE_INDENT)
         if MARKER_REGEX.match(line) and index not in fenced_lines:
             line_indent = get_indent(line)
             list_indent = _list_marker_end_pos(line)
@@ -82,10 +91,11 @@ def _dedent_entries(list_entries: List[List[str]]) -> List[List[str]]:
     dedented_entries: List[List[str]] = []
     for entry in list_entries:
         indent = _list_marker_end_pos(entry[0]) + 1
-        dedented_entries.append([entry[0][indent:]])
+        dedented_entries.append(
+            [expand_indent(entry[0], indent, CODE_INDENT)[indent:]]
+        )
         for line in entry[1:]:
-            dedented_entry = line[:indent].lstrip() + line[indent:]
-            dedented_entries[-1].append(dedented_entry)
+            dedented_entries[-1].append(remove_indent(line, indent))
     return dedented_entries
 
 
-- 
2.43.0


From 18fc5320c8176a08673629eaa3403f6b5cd214b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:17 +0000
Subject: [PATCH 57/68] fix: let text continue indented paragraphs of block
 quotes

---
 markflow/detectors/block_quote.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/markflow/detectors/block_quote.py b/markflow/detectors/block_quote.py
index df93f1d..80394bc 100644
--- a/markflow/detectors/block_quote.py
+++ b/markflow/detectors/block_quote.py
@@ -83,7 +83,13 @@ def _block_quote_ends_with_paragraph(block_quote_lines: List[str]) -> bool:
     # Avoid circular imports
     from ..parser import MarkdownSectionEnum, parse_markdown
 
-    parsing_lines = remove_quote_markers(block_quote_lines)
+    parsing_lines = [
+        # A space following a marker is part of the marker
+        content[1:] if content.startswith(" ") and content != line else content
+        for content, line in zip(
+            remove_quote_markers(block_quote_lines), block_quote_lines
+        )
+    ]
 
     with redirect_info_logs_to_debug():
         ending_section_type, ending_section_content = parse_markdown(parsing_lines)[-1]
-- 
2.43.0


From b8bba11a106904c4e6dcd01cc07b7eab731280f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:36 +0000
Subject: [PATCH 58/68] fix: let text continue the last entry of a list in a
 block quote

---
 markflow/detectors/block_quote.py | 30 ++++++++++++++++++++----------
 markflow/formatters/lists.py      | 11 +++++++----
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/markflow/detectors/block_quote.py b/markflow/detectors/block_quote.py
index 80394bc..28e2ded 100644
--- a/markflow/detectors/block_quote.py
+++ b/markflow/detectors/block_quote.py
@@ -79,32 +79,42 @@ def _is_paragraph_continuation_text(lines: List[str], line_offset: int = 0) -> b
     return True
 
 
-def _block_quote_ends_with_paragraph(block_quote_lines: List[str]) -> bool:
+def _ends_with_paragraph(lines: List[str]) -> bool:
     # Avoid circular imports
+    from ..formatters.lists import get_entries
     from ..parser import MarkdownSectionEnum, parse_markdown
 
-    parsing_lines = [
-        # A space following a marker is part of the marker
-        content[1:] if content.startswith(" ") and content != line else content
-        for content, line in zip(
-            remove_quote_markers(block_quote_lines), block_quote_lines
-        )
-    ]
-
     with redirect_info_logs_to_debug():
-        ending_section_type, ending_section_content = parse_markdown(parsing_lines)[-1]
+        ending_section_type, ending_section_content = parse_markdown(lines)[-1]
 
     if ending_section_type == MarkdownSectionEnum.BLOCK_QUOTE:
         if not is_explicit_block_quote_line(ending_section_content[-1]):
             # Only paragraphs can be continued without a quote marker
             return True
         return _block_quote_ends_with_paragraph(ending_section_content)
+    elif ending_section_type in (
+        MarkdownSectionEnum.BULLET_LIST,
+        MarkdownSectionEnum.ORDERED_LIST,
+    ):
+        return _ends_with_paragraph(get_entries(ending_section_content)[-1])
     elif ending_section_type == MarkdownSectionEnum.PARAGRAPH:
         return True
     else:
         return False
 
 
+def _block_quote_ends_with_paragraph(block_quote_lines: List[str]) -> bool:
+    return _ends_with_paragraph(
+        [
+            # A space following a marker is part of the marker
+            content[1:] if content.startswith(" ") and content != line else content
+            for content, line in zip(
+                remove_quote_markers(block_quote_lines), block_quote_lines
+            )
+        ]
+    )
+
+
 def split_block_quote(
     lines: List[str], line_offset: int = 0
 ) -> Tuple[List[str], List[str]]:
diff --git a/markflow/formatters/lists.py b/markflow/formatters/lists.py
index 6c09e97..3786700 100644
--- a/markflow/formatters/lists.py
+++ b/markflow/formatters/lists.py
@@ -99,6 +99,11 @@ def _dedent_entries(list_entries: List[List[str]]) -> List[List[str]]:
     return dedented_entries
 
 
+def get_entries(lines: List[str]) -> List[List[str]]:
+    """Get the lines of each of a list's entries as if the entry stood by itself"""
+    return _dedent_entries(_split_list(lines))
+
+
 def _indent_following_lines(entry: str, indent: int) -> str:
     first_line, *lines = entry.split("\n")
     return "\n".join([first_line] + [indent * " " + l if l else l for l in lines])
@@ -123,10 +128,9 @@ class MarkdownBulletList(MarkdownSection):
         self.lines.append(line)
 
     def reformatted(self, width: Number = 88) -> str:
-        list_entries = _split_list(self.lines)
         # '* '
         toplevel_indent = 2
-        dedented_entries = _dedent_entries(list_entries)
+        dedented_entries = get_entries(self.lines)
 
         reformatted_entries: List[str] = []
         for entry in dedented_entries:
@@ -166,8 +170,7 @@ class MarkdownOrderedList(MarkdownSection):
         return self.lines[0]
 
     def reformatted(self, width: Number = 88) -> str:
-        list_entries = _split_list(self.lines)
-        dedented_entries = _dedent_entries(list_entries)
+        dedented_entries = get_entries(self.lines)
 
         reformatted_entries: List[str] = []
         for entry_number, entry in enumerate(dedented_entries, start=self.first_number):
-- 
2.43.0


From 4231addff6a26e62d2703a173b7381c500a6e9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:42 +0000
Subject: [PATCH 59/68] fix: don't turn text after a definition into its title

---
 markflow/_utils/textwrap.py           | 19 ++++++++++++++-----
 markflow/formatters/paragraph.py      |  5 ++++-
 markflow/formatters/setext_heading.py |  5 ++++-
 markflow/reformat_markdown.py         |  6 ++++++
 4 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 7313a10..5eb58a3 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -69,7 +69,7 @@ def _get_definition_ends(text: str) -> Set[int]:
 
 
 def _glue(
-    split_text: List[str], leading_spaces: List[bool]
+    split_text: List[str], leading_spaces: List[bool], follows_definition: bool
 ) -> Tuple[List[str], List[bool], List[bool]]:
     """Join text that can't be on different lines
 
@@ -81,6 +81,7 @@ def _glue(
     Args:
         split_text: The text that has been split
         leading_spaces: Should the text have a leading space when not on a new line?
+        follows_definition: Could the beginning of the text be the title of a definition?
 
     Returns:
         Glued text, What text has leading spaces, What text ends with an HTML new line
@@ -106,6 +107,9 @@ def _glue(
         text += (" " if leading_space else "") + word
         ends.append(len(text))
     definition_ends = _get_definition_ends(text)
+    title = DEFINITION_TITLE_REGEX.match(" " + text)
+    if follows_definition and title:
+        definition_ends.add(title.end() - 1)
 
     for i in range(len(glued_text) - 1, 0, -1):
         if (
@@ -127,10 +131,15 @@ def _glue(
     return glued_text, glued_spaces, html_newlines
 
 
-def join(split_text: List[str], leading_spaces: List[bool], width: Number) -> str:
+def join(
+    split_text: List[str],
+    leading_spaces: List[bool],
+    width: Number,
+    follows_definition: bool = False,
+) -> str:
     new_split_text = [""]
     for word, leading_space, is_html_newline in zip(
-        *_glue(split_text, leading_spaces)
+        *_glue(split_text, leading_spaces, follows_definition)
     ):
         if leading_space and new_split_text[-1]:
             potential_new_string = f"{new_split_text[-1]} {word}"
@@ -397,7 +406,7 @@ def space_split(
     return split_text, leading_spaces, evaluates
 
 
-def wrap(text: str, width: Number) -> str:
+def wrap(text: str, width: Number, follows_definition: bool = False) -> str:
     # TODO: Should wrap be modifying the input. Maybe assert there's no newlines?
     lines = split_lines(text)
     text = " ".join([line.strip(" \t") for line in lines])
@@ -423,4 +432,4 @@ def wrap(text: str, width: Number) -> str:
         leading_spaces = new_leading_spaces
         evaluates = new_evaluates
 
-    return join(split_text, leading_spaces, width)
+    return join(split_text, leading_spaces, width, follows_definition)
diff --git a/markflow/formatters/paragraph.py b/markflow/formatters/paragraph.py
index 9cc823f..9038999 100644
--- a/markflow/formatters/paragraph.py
+++ b/markflow/formatters/paragraph.py
@@ -9,6 +9,9 @@ REPR_CONTENT_LEN = 20
 
 
 class MarkdownParagraph(MarkdownSection):
+    # Could the beginning of the text be the title of a definition in front of it?
+    follows_definition = False
+
     @property
     def content(self) -> str:
         # TODO: I think we actually want to split each line to remove double spaces.
@@ -18,7 +21,7 @@ class MarkdownParagraph(MarkdownSection):
         self.lines.append(line)
 
     def reformatted(self, width: Number = 88) -> str:
-        text = wrap(self.content, width)
+        text = wrap(self.content, width, self.follows_definition)
         if self.lines[-1].endswith("  "):
             text += "  "
         return text
diff --git a/markflow/formatters/setext_heading.py b/markflow/formatters/setext_heading.py
index 8cb289c..abf7e4f 100644
--- a/markflow/formatters/setext_heading.py
+++ b/markflow/formatters/setext_heading.py
@@ -35,6 +35,9 @@ REPR_CONTENT_LEN = 20
 
 
 class MarkdownSetextHeading(MarkdownSection):
+    # Could the beginning of the heading be the title of a definition in front of it?
+    follows_definition = False
+
     @property
     def char(self) -> str:
         if len(self.lines) < 2:
@@ -55,7 +58,7 @@ class MarkdownSetextHeading(MarkdownSection):
         self.lines.append(line)
 
     def reformatted(self, width: Number = 88) -> str:
-        heading_str = wrap(self.content, width)
+        heading_str = wrap(self.content, width, self.follows_definition)
         heading_len = max(len(line) for line in split_lines(heading_str))
         return heading_str + "\n" + self.char * heading_len
 
diff --git a/markflow/reformat_markdown.py b/markflow/reformat_markdown.py
index 6f14b11..5c64858 100644
--- a/markflow/reformat_markdown.py
+++ b/markflow/reformat_markdown.py
@@ -73,6 +73,12 @@ def _reformat_markdown_text(text: str, width: Number = 88, line_index: int = 0)
             formatters.append(
                 FORMATTERS[MarkdownSectionEnum.BLANK_LINE](line_index, [""])
             )
+        if isinstance(formatter, (MarkdownParagraph, MarkdownSetextHeading)):
+            formatter.follows_definition = (
+                bool(formatters)
+                and isinstance(formatters[-1], MarkdownLinkReferenceDefinition)
+                and not formatters[-1].title
+            )
         if isinstance(formatter, MarkdownThematicBreak):
             formatter.follows_paragraph = in_paragraph
         # What would be one of these continues a paragraph after a hard line break
-- 
2.43.0


From e244b071db9bb6140f1665d478376cf1163feee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:14 +0000
Subject: [PATCH 60/68] fix: keep "1)" with the text before it if what follows
 has to stay with it

---
 markflow/_utils/textwrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 5eb58a3..a2c653e 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -37,7 +37,7 @@ def _can_start_line(word: str) -> bool:
         is_paragraph_start_line(word + " ")
         and not is_setext_underline(word)
         and bool(word.strip("*") and word.strip("_"))
-        and word != "1)"
+        and not (word + " ").startswith("1) ")
     )
 
 
-- 
2.43.0


From d227cf08aa10c4baac4634f0ffb4ce16aada7848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:36 +0000
Subject: [PATCH 61/68] fix: treat whitespace in setext headings like that in
 paragraphs

---
 markflow/formatters/setext_heading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/formatters/setext_heading.py b/markflow/formatters/setext_heading.py
index abf7e4f..c53aa87 100644
--- a/markflow/formatters/setext_heading.py
+++ b/markflow/formatters/setext_heading.py
@@ -52,7 +52,7 @@ class MarkdownSetextHeading(MarkdownSection):
             raise RuntimeError(
                 f"Attempted access of uninitialized {self.__class__.__name__}."
             )
-        return " ".join(line.strip() for line in self.lines[:-1])
+        return " ".join(line.strip(" \t") for line in self.lines[:-1])
 
     def append(self, line: str) -> None:
         self.lines.append(line)
-- 
2.43.0


From 768f07559fb8e9d63e1eeaaf2858e9cc8675e267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:25 +0000
Subject: [PATCH 62/68] fix: keep an info string that starts with a tilde apart
 from the fence

---
 markflow/formatters/fenced_code_block.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/markflow/formatters/fenced_code_block.py b/markflow/formatters/fenced_code_block.py
index d308c89..73171cc 100644
--- a/markflow/formatters/fenced_code_block.py
+++ b/markflow/formatters/fenced_code_block.py
@@ -83,7 +83,9 @@ class MarkdownFencedCodeBlock(MarkdownSection):
 
     def reformatted(self, width: Number = 88) -> str:
         fence = self.fence_char * self.fence_count
-        new_lines = [fence + self.language] + self.content + [fence]
+        # The language must not become part of the fence
+        space = " " if self.language.startswith(self.fence_char) else ""
+        new_lines = [fence + space + self.language] + self.content + [fence]
         return "\n".join([line.rstrip() for line in new_lines])
 
     def __repr__(self) -> str:
-- 
2.43.0


From c5ccf67176d17c02762143fddc9242a99a7195a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:01 +0000
Subject: [PATCH 63/68] fix: count the indentation of a list item once when
 looking for its code

---
 markflow/detectors/_lines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index 58213dd..2f978d3 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -182,8 +182,8 @@ def get_fenced_lines_in_list(lines: List[str]) -> Set[int]:
     index = 0
     while index < len(lines):
         content = expand_indent(lines[index])
-        indent = get_indent(content)
         match = LIST_MARKER_REGEX.match(content)
+        indent = 0 if match else get_indent(content)
         while match:
             indent += match.end()
             entry_indents.append(indent)
-- 
2.43.0


From 3bd7f1694cdd3aed45f8463aa026d252e28d7d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:35 +0000
Subject: [PATCH 64/68] fix: titles of definitions end where another section
 begins

---
 .../detectors/link_reference_definition.py    | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/markflow/detectors/link_reference_definition.py b/markflow/detectors/link_reference_definition.py
index b5cac47..a9364b3 100644
--- a/markflow/detectors/link_reference_definition.py
+++ b/markflow/detectors/link_reference_definition.py
@@ -28,6 +28,13 @@ import re
 from typing import Iterator, List, Tuple
 
 from .._utils import get_indent, get_warning_level
+from ._lines import (
+    is_empty_list_entry_line,
+    is_indented_code_block_start_line,
+    is_paragraph_start_line,
+    is_setext_underline,
+    is_table_start_line,
+)
 
 logger = logging.getLogger(__name__)
 
@@ -46,6 +53,16 @@ def _next_line_or_end(
     return next(indexed_line_generator, (len(lines), ""))
 
 
+def _can_continue_title(line: str) -> bool:
+    """Whether line can be part of a title, i.e. isn't blank and begins no other section"""
+    return not is_setext_underline(line) and (
+        is_paragraph_start_line(line)
+        or is_empty_list_entry_line(line)
+        or is_indented_code_block_start_line(line)
+        or is_table_start_line(line)
+    )
+
+
 def split_link_reference_definition(
     lines: List[str], line_offset: int = 0
 ) -> Tuple[List[str], List[str]]:
@@ -135,8 +152,7 @@ def split_link_reference_definition(
         for index, line in itertools.chain(
             [(index, title_text[1:])], indexed_line_generator
         ):
-            if index > end_index and not line.strip():
-                # Titles can't contain blank lines
+            if index > end_index and not _can_continue_title(line):
                 break
             match = closing_regex.search(line.rstrip())
             if match:
-- 
2.43.0


From 4b25aef997a610e12d274187878563a64df2b9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:01 +0000
Subject: [PATCH 65/68] fix: indented text that continues a quoted list stays
 text

---
 markflow/formatters/block_quote.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index 2943b56..eed3dca 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -3,6 +3,7 @@ import re
 from typing import List
 
 from .._utils import (
+    CODE_INDENT,
     expand_indent,
     get_indent,
     redirect_info_logs_to_debug,
@@ -66,6 +67,7 @@ class MarkdownBlockQuote(MarkdownSection):
 
     def reformatted(self, width: Number = 88) -> str:
         depth = 0
+        longest_line = max(len(line.expandtabs(CODE_INDENT)) for line in self.lines)
         fully_quoted_lines = []
         for line in self.lines:
             if is_explicit_block_quote_line(line):
@@ -77,9 +79,9 @@ class MarkdownBlockQuote(MarkdownSection):
                     content = remove_indent(remove_quote_markers([content])[0], 1)
                 fully_quoted_lines.append(line)
             else:
-                # The marker would take a space from what then isn't text any longer
+                # What is text because of its indentation has to stay that in a list, too
                 line = expand_indent(line)
-                space = " " if get_indent(line) >= 4 else ""
+                space = " " * longest_line if get_indent(line) >= CODE_INDENT else ""
                 fully_quoted_lines.append((">" * depth) + space + line)
 
         stripped_lines = remove_quote_markers(fully_quoted_lines)
-- 
2.43.0


From 67e5c76aa3531d9869b2c554b15a9d7cec2d8689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:01 +0000
Subject: [PATCH 66/68] fix: tabs in nested lists count from the columns they
 are at

---
 markflow/detectors/_lines.py |  7 +++++--
 markflow/formatters/lists.py | 15 ++++++++++++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index 2f978d3..e19f99c 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -247,11 +247,11 @@ def remove_quote_markers(lines: List[str]) -> List[str]:
     """
     stripped_lines: List[str] = []
     fence = ""
+    text_indent = 1  # The first column may be part of the marker
     for line in lines:
         marker = LEADING_QUOTE_MARKER_REGEX.match(line)
         if marker:
-            # The first column may be part of the marker
-            columns = 1 if fence else 1 + CODE_INDENT
+            columns = text_indent if fence else text_indent + CODE_INDENT
             line = expand_indent(line, marker.end(), columns)[marker.end() :]
         stripped_lines.append(line)
 
@@ -262,6 +262,9 @@ def remove_quote_markers(lines: List[str]) -> List[str]:
                 content = content[match.end() :]
                 match = LIST_MARKER_REGEX.match(content)
             fence = get_opening_fence(content)
+            # Code may only begin to the right of the text of the last list entries
+            is_blank = is_blank_line_line(line)
+            text_indent = 1 if is_blank else max(text_indent, len(line) - len(content))
         elif is_closing_fence_line(line, fence):
             fence = ""
     return stripped_lines
diff --git a/markflow/formatters/lists.py b/markflow/formatters/lists.py
index 3786700..6745369 100644
--- a/markflow/formatters/lists.py
+++ b/markflow/formatters/lists.py
@@ -65,16 +65,29 @@ def _list_marker_end_pos(line: str) -> int:
     return match.end(1)
 
 
+def _text_indent(line: str) -> int:
+    """Return the column of the text after the list markers of a line"""
+    text = line
+    match = MARKER_REGEX.match(text)
+    while match:
+        text = text[match.end() :]
+        match = MARKER_REGEX.match(text)
+    return len(line) - len(text.lstrip())
+
+
 def _split_list(lines: List[str]) -> List[List[str]]:
     list_entries: List[List[str]] = []
     fenced_lines = get_fenced_lines_in_list(lines)
     max_indent = _list_marker_end_pos(lines[0])
+    text_indent = max_indent + 1
     for index, line in enumerate(lines):
         if index not in fenced_lines:
-            line = expand_indent(line, columns=max_indent + 1 + CODE_INDENT)
+            # Tabs to the right of that are part of code
+            line = expand_indent(line, columns=text_indent + CODE_INDENT)
         if MARKER_REGEX.match(line) and index not in fenced_lines:
             line_indent = get_indent(line)
             list_indent = _list_marker_end_pos(line)
+            text_indent = max(text_indent, _text_indent(line))
             if line_indent <= max_indent:
                 max_indent = list_indent
                 list_entries.append([line])
-- 
2.43.0


From 5e7905056df521c8ab3265bad3592926e0e1327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:53 +0000
Subject: [PATCH 67/68] fix: keep parentheses in the target of a link

---
 markflow/_utils/textwrap.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index a2c653e..656e71b 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -25,7 +25,14 @@ DEFINITION_DESTINATION_REGEXES = [
 DEFINITION_TITLE_REGEX = re.compile(
     r"\s+(?:'(?:\\.|[^'\\])*'|\"(?:\\.|[^\"\\])*\"|\((?:\\.|[^()\\])*\))(?!\S)"
 )
-URL_REGEX = re.compile(_LINK_PREFIX + r"\[[^\[]+\]\([^\)]+\)" + _LINK_SUFFIX)
+# A destination and a title, which both can have closing parentheses in them
+_LINK_TARGET = (
+    r"\s*(?:<[^<>]*>|(?!<)(?:\\.|[^\s()\\]|\((?:\\.|[^\s()\\])*\))+)"
+    r"(?:\s+(?:'(?:\\.|[^'\\])*'|\"(?:\\.|[^\"\\])*\"|\((?:\\.|[^()\\])*\)))?\s*"
+)
+URL_REGEX = re.compile(
+    _LINK_PREFIX + r"\[[^\[]+\]\((?:" + _LINK_TARGET + r"|[^\)]+)\)" + _LINK_SUFFIX
+)
 
 
 def _can_start_line(word: str) -> bool:
-- 
2.43.0


From dbda41de344e5639b422f95385efec9ce9b9eb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:55 +0000
Subject: [PATCH 68/68] fix: don't take backticks that are never closed for
 inline code

---
 markflow/_utils/textwrap.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 656e71b..b144d6d 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -4,6 +4,7 @@ from typing import List, Set, Tuple
 from markflow._utils import split_lines
 from markflow.detectors._lines import (
     ends_with_hard_line_break,
+    is_fenced_code_block_start_line,
     is_paragraph_start_line,
     is_setext_underline,
     is_thematic_break_line,
@@ -53,7 +54,11 @@ def _can_be_first_line(text: str) -> bool:
 
     This errs on the side of caution as we don't know what is in front of it.
     """
-    return not is_thematic_break_line(text * 3) and not is_setext_underline(text)
+    return (
+        not is_thematic_break_line(text * 3)
+        and not is_setext_underline(text)
+        and not is_fenced_code_block_start_line(text)
+    )
 
 
 def _get_definition_ends(text: str) -> Set[int]:
@@ -196,6 +201,13 @@ def code_split(
                 code_start += 1
                 if code_start == code_marker.end():
                     continue
+            marker_len = code_marker.end() - code_start
+            if all(
+                len(marker.group()) != marker_len
+                for marker in INLINE_CODE_MARKER_REGEX.finditer(text, code_marker.end())
+            ):
+                # This is text as it is never closed
+                continue
             plaintext = _drop_tabs(text[last_end:code_start])
             if (
                 plaintext.startswith(".")
-- 
2.43.0

