From 5f6b6352f3f10845d870bcfe68281ea9189da67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 01/13] fix: marks serialize without the OPT sentinel of absent
 attrs fields

---
 atlas_doc_parser/mark_or_node.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/atlas_doc_parser/mark_or_node.py b/atlas_doc_parser/mark_or_node.py
index 984aabf..bba25f8 100644
--- a/atlas_doc_parser/mark_or_node.py
+++ b/atlas_doc_parser/mark_or_node.py
@@ -163,8 +163,10 @@ class BaseMark(BaseMarkOrNode):
     def to_dict(self) -> T_DATA:
         """Serialize to dictionary, handling nested attrs."""
         data = super().to_dict()
-        if "attrs" in data and hasattr(data["attrs"], "to_dict"):
-            data["attrs"] = remove_optional(**data["attrs"])
+        # ``dataclasses.asdict`` already turned attrs into a plain dict that still
+        # holds the OPT sentinel of every absent field, so serialize the object.
+        if "attrs" in data and hasattr(self.attrs, "to_dict"):
+            data["attrs"] = self.attrs.to_dict()
         return data
 
     def to_markdown(self, text: str) -> str:
-- 
2.43.0


From 70f282c51c6fa2205b2394a5444bc50e7531e910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 02/13] fix: render an orderedList that has no attrs

---
 atlas_doc_parser/nodes/node_ordered_list.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atlas_doc_parser/nodes/node_ordered_list.py b/atlas_doc_parser/nodes/node_ordered_list.py
index 250772b..d96d565 100644
--- a/atlas_doc_parser/nodes/node_ordered_list.py
+++ b/atlas_doc_parser/nodes/node_ordered_list.py
@@ -85,7 +85,11 @@ class NodeOrderedList(BaseNode):
         indent = "    " * level  # 4 spaces per level
 
         # Start numbering from attrs.order (or 1 for inner levels)
-        if level == 0 and isinstance(self.attrs.order, int):
+        if (
+            level == 0
+            and self.attrs is not OPT
+            and isinstance(self.attrs.order, int)
+        ):
             current_num = self.attrs.order
         else:
             current_num = 1
-- 
2.43.0


From ea0450b2d55b74d778c3319a45801e0535051a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 03/13] fix: render a taskList whose taskItem has no content

---
 atlas_doc_parser/nodes/node_task_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atlas_doc_parser/nodes/node_task_list.py b/atlas_doc_parser/nodes/node_task_list.py
index de78202..038c5a1 100644
--- a/atlas_doc_parser/nodes/node_task_list.py
+++ b/atlas_doc_parser/nodes/node_task_list.py
@@ -89,7 +89,7 @@ class NodeTaskList(BaseNode):
             if item.is_type_of(TypeEnum.taskItem):
                 # Process the task item content (text nodes)
                 content_parts = []
-                for node in item.content:
+                for node in [] if item.content is OPT else item.content:
                     try:
                         md = node.to_markdown()
                         content_parts.append(md)
-- 
2.43.0


From d72b9eb19f435e7c092d1b32e48d5ee04a42cf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 04/13] fix: pass ignore_error down to every nested to_markdown
 call

---
 atlas_doc_parser/markdown_helpers.py        | 6 +++---
 atlas_doc_parser/nodes/node_bullet_list.py  | 7 +++++--
 atlas_doc_parser/nodes/node_ordered_list.py | 7 +++++--
 atlas_doc_parser/nodes/node_table.py        | 2 +-
 atlas_doc_parser/nodes/node_task_list.py    | 2 +-
 5 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/atlas_doc_parser/markdown_helpers.py b/atlas_doc_parser/markdown_helpers.py
index 3eceed0..c4f500d 100644
--- a/atlas_doc_parser/markdown_helpers.py
+++ b/atlas_doc_parser/markdown_helpers.py
@@ -91,7 +91,7 @@ def content_to_markdown(
         lst = list()
         for node in content:
             try:
-                md = node.to_markdown()
+                md = node.to_markdown(ignore_error=ignore_error)
                 lst.append(md)
             except Exception as e:  # pragma: no cover
                 if ignore_error:
@@ -147,9 +147,9 @@ def doc_content_to_markdown(
                         TypeEnum.codeBlock,
                     ]
                 ):
-                    md = "\n" + node.to_markdown() + "\n"
+                    md = "\n" + node.to_markdown(ignore_error=ignore_error) + "\n"
                 else:
-                    md = node.to_markdown()
+                    md = node.to_markdown(ignore_error=ignore_error)
                 # print(f"{node = }")  # for debug only
                 # print(f"{md = }")  # for debug only
                 lst.append(md)
diff --git a/atlas_doc_parser/nodes/node_bullet_list.py b/atlas_doc_parser/nodes/node_bullet_list.py
index 285ca45..94e7337 100644
--- a/atlas_doc_parser/nodes/node_bullet_list.py
+++ b/atlas_doc_parser/nodes/node_bullet_list.py
@@ -76,7 +76,10 @@ class NodeBulletList(BaseNode):
                     if node.is_type_of(TypeEnum.bulletList):
                         # Nested list - increase level
                         try:
-                            md = node.to_markdown(level=level + 1)
+                            md = node.to_markdown(
+                                level=level + 1,
+                                ignore_error=ignore_error,
+                            )
                             content_lines.append(md)
                         except Exception as e:
                             if ignore_error:
@@ -86,7 +89,7 @@ class NodeBulletList(BaseNode):
                     else:
                         # Regular content (like paragraph)
                         try:
-                            md = node.to_markdown().rstrip()
+                            md = node.to_markdown(ignore_error=ignore_error).rstrip()
                             content_lines.append(md)
                         except Exception as e:
                             if ignore_error:
diff --git a/atlas_doc_parser/nodes/node_ordered_list.py b/atlas_doc_parser/nodes/node_ordered_list.py
index d96d565..f4c6576 100644
--- a/atlas_doc_parser/nodes/node_ordered_list.py
+++ b/atlas_doc_parser/nodes/node_ordered_list.py
@@ -102,7 +102,10 @@ class NodeOrderedList(BaseNode):
                     if node.is_type_of(TypeEnum.orderedList):
                         # Nested list - increase level
                         try:
-                            md = node.to_markdown(level=level + 1)
+                            md = node.to_markdown(
+                                level=level + 1,
+                                ignore_error=ignore_error,
+                            )
                             content_lines.append(md)
                         except Exception as e:  # pragma: no cover
                             if ignore_error:
@@ -112,7 +115,7 @@ class NodeOrderedList(BaseNode):
                     else:
                         # Regular content (like paragraph)
                         try:
-                            md = node.to_markdown().rstrip()
+                            md = node.to_markdown(ignore_error=ignore_error).rstrip()
                             content_lines.append(md)
                         except Exception as e:  # pragma: no cover
                             if ignore_error:
diff --git a/atlas_doc_parser/nodes/node_table.py b/atlas_doc_parser/nodes/node_table.py
index ca343e1..2ea786b 100644
--- a/atlas_doc_parser/nodes/node_table.py
+++ b/atlas_doc_parser/nodes/node_table.py
@@ -76,7 +76,7 @@ class NodeTable(BaseNode):
         lines = list()
         for row in self.content:
             try:
-                md = row.to_markdown()
+                md = row.to_markdown(ignore_error=ignore_error)
                 lines.append(md)
                 if row.content[0].is_type_of(TypeEnum.tableHeader):
                     lines.append("| " + " | ".join(["---"] * len(row.content)) + " |")
diff --git a/atlas_doc_parser/nodes/node_task_list.py b/atlas_doc_parser/nodes/node_task_list.py
index 038c5a1..088f8eb 100644
--- a/atlas_doc_parser/nodes/node_task_list.py
+++ b/atlas_doc_parser/nodes/node_task_list.py
@@ -91,7 +91,7 @@ class NodeTaskList(BaseNode):
                 content_parts = []
                 for node in [] if item.content is OPT else item.content:
                     try:
-                        md = node.to_markdown()
+                        md = node.to_markdown(ignore_error=ignore_error)
                         content_parts.append(md)
                     except Exception as e:
                         if ignore_error:
-- 
2.43.0


From b22bd7abef61b808bd574821c70845f00fb4b9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 05/13] fix: the indentation mark keeps the text it indents

---
 atlas_doc_parser/marks/mark_indentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atlas_doc_parser/marks/mark_indentation.py b/atlas_doc_parser/marks/mark_indentation.py
index 64c6a5f..4fbd406 100644
--- a/atlas_doc_parser/marks/mark_indentation.py
+++ b/atlas_doc_parser/marks/mark_indentation.py
@@ -36,4 +36,4 @@ class MarkIndentation(BaseMark):
         self,
         text: str,
     ) -> str:
-        return self.attrs.level * "\t"
+        return self.attrs.level * "\t" + text
-- 
2.43.0


From 3dbabe41b7591b1c87f408a7b291ab9616efd499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 06/13] fix: collapse blank lines of any number, not only up to
 seven newlines

---
 atlas_doc_parser/markdown_helpers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atlas_doc_parser/markdown_helpers.py b/atlas_doc_parser/markdown_helpers.py
index c4f500d..69ae031 100644
--- a/atlas_doc_parser/markdown_helpers.py
+++ b/atlas_doc_parser/markdown_helpers.py
@@ -41,8 +41,8 @@ def strip_double_empty_line(
     (3+ newlines) down to exactly one blank line (2 newlines).
 
     :param text: The input text that may contain excessive blank lines.
-    :param n: Number of replacement iterations to perform. Default is 3,
-        which handles up to 5 consecutive newlines being reduced to 2.
+    :param n: Kept for backward compatibility, it has no effect. The text is
+        processed until no run of three or more newlines is left.
     :return: Text with at most one consecutive blank line (two newlines).
 
     Example::
@@ -50,7 +50,7 @@ def strip_double_empty_line(
         >>> strip_double_empty_line("Hello\\n\\n\\n\\nWorld")
         'Hello\\n\\nWorld'
     """
-    for _ in range(n):
+    while "\n\n\n" in text:
         text = text.replace("\n\n\n", "\n\n")
     return text
 
-- 
2.43.0


From 9cce458110eea24fc23b0c4ea42c3a3106e85b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 07/13] fix: a link with an empty title shows its text

---
 atlas_doc_parser/marks/mark_link.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atlas_doc_parser/marks/mark_link.py b/atlas_doc_parser/marks/mark_link.py
index 557d2ad..ff1cd96 100644
--- a/atlas_doc_parser/marks/mark_link.py
+++ b/atlas_doc_parser/marks/mark_link.py
@@ -45,7 +45,7 @@ class MarkLink(BaseMark):
         self,
         text: str,
     ) -> str:
-        if isinstance(self.attrs.title, str):
+        if isinstance(self.attrs.title, str) and self.attrs.title:
             title = self.attrs.title
         else:
             title = text
-- 
2.43.0


From 7c5fa5e8fbcdafbe3c61c6027092b2049a66330e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 08/13] fix: separate task lists, decision lists and tables
 from the next block

---
 atlas_doc_parser/markdown_helpers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/atlas_doc_parser/markdown_helpers.py b/atlas_doc_parser/markdown_helpers.py
index 69ae031..0102c09 100644
--- a/atlas_doc_parser/markdown_helpers.py
+++ b/atlas_doc_parser/markdown_helpers.py
@@ -114,10 +114,11 @@ def doc_content_to_markdown(
     **block-level content** with additional processing:
 
     1. Joins blocks with newlines (not empty string)
-    2. Adds extra blank lines around lists and code blocks for proper rendering
+    2. Adds extra blank lines around lists, tables and code blocks for proper
+       rendering
     3. Cleans up excessive blank lines using :func:`strip_double_empty_line`
 
-    The extra padding around lists and code blocks is needed because some
+    The extra padding around these blocks is needed because some
     Markdown renderers require blank lines before/after these elements to
     render them correctly as separate blocks.
 
@@ -145,6 +146,9 @@ def doc_content_to_markdown(
                         TypeEnum.bulletList,
                         TypeEnum.orderedList,
                         TypeEnum.codeBlock,
+                        TypeEnum.taskList,
+                        TypeEnum.decisionList,
+                        TypeEnum.table,
                     ]
                 ):
                     md = "\n" + node.to_markdown(ignore_error=ignore_error) + "\n"
-- 
2.43.0


From 2e872d65464880ab110a02eb834c19a0671093da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 09/13] fix: a table with a header column gets one delimiter
 row, and an empty row does not crash it

---
 atlas_doc_parser/nodes/node_table.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/atlas_doc_parser/nodes/node_table.py b/atlas_doc_parser/nodes/node_table.py
index 2ea786b..c067771 100644
--- a/atlas_doc_parser/nodes/node_table.py
+++ b/atlas_doc_parser/nodes/node_table.py
@@ -74,12 +74,20 @@ class NodeTable(BaseNode):
         ignore_error: bool = False,
     ) -> str:
         lines = list()
+        has_delimiter = False
         for row in self.content:
             try:
                 md = row.to_markdown(ignore_error=ignore_error)
                 lines.append(md)
-                if row.content[0].is_type_of(TypeEnum.tableHeader):
+                # a table has one delimiter row, also when the first column of
+                # the following rows is made of header cells
+                if (
+                    not has_delimiter
+                    and row.content
+                    and row.content[0].is_type_of(TypeEnum.tableHeader)
+                ):
                     lines.append("| " + " | ".join(["---"] * len(row.content)) + " |")
+                    has_delimiter = True
             except Exception as e:  # pragma: no cover
                 if ignore_error:
                     pass
-- 
2.43.0


From ece0682a8821f67e03e023c85ee104a1dd5211f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 10/13] fix: backticks inside code do not end the code fence or
 the code span

---
 atlas_doc_parser/marks/mark_code.py       | 6 +++++-
 atlas_doc_parser/nodes/node_code_block.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/atlas_doc_parser/marks/mark_code.py b/atlas_doc_parser/marks/mark_code.py
index 09eaf41..d36109d 100644
--- a/atlas_doc_parser/marks/mark_code.py
+++ b/atlas_doc_parser/marks/mark_code.py
@@ -28,6 +28,10 @@ class MarkCode(BaseMark):
                 "Code mark cannot contain newlines in markdown representation."
             )
         if text.strip():
-            return f"`` {text} ``"
+            # the delimiter has to be longer than any run of backticks in the text
+            delimiter = "``"
+            while delimiter in text:
+                delimiter += "`"
+            return f"{delimiter} {text} {delimiter}"
         else:
             return text
diff --git a/atlas_doc_parser/nodes/node_code_block.py b/atlas_doc_parser/nodes/node_code_block.py
index e37f469..9d6e3bb 100644
--- a/atlas_doc_parser/nodes/node_code_block.py
+++ b/atlas_doc_parser/nodes/node_code_block.py
@@ -68,4 +68,8 @@ class NodeCodeBlock(BaseNode):
                 )
         if lang == "none":
             lang = ""
-        return f"```{lang}\n{code}\n```"
+        # the fence has to be longer than any run of backticks inside the code
+        fence = "```"
+        while fence in code:
+            fence += "`"
+        return f"{fence}{lang}\n{code}\n{fence}"
-- 
2.43.0


From 52516d99293847fa0072469e3f0b3cc55fd363da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 11/13] fix: lists nested in a list of another kind keep their
 indentation and numbering

---
 atlas_doc_parser/nodes/node_bullet_list.py  | 11 ++++++++++-
 atlas_doc_parser/nodes/node_ordered_list.py | 19 ++++++++++++-------
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/atlas_doc_parser/nodes/node_bullet_list.py b/atlas_doc_parser/nodes/node_bullet_list.py
index 94e7337..4981984 100644
--- a/atlas_doc_parser/nodes/node_bullet_list.py
+++ b/atlas_doc_parser/nodes/node_bullet_list.py
@@ -73,13 +73,22 @@ class NodeBulletList(BaseNode):
                 # Process the list item content
                 content_lines = []
                 for node in item.content:
-                    if node.is_type_of(TypeEnum.bulletList):
+                    if node.is_type_of(
+                        [
+                            TypeEnum.bulletList,
+                            TypeEnum.orderedList,
+                            TypeEnum.taskList,
+                        ]
+                    ):
                         # Nested list - increase level
                         try:
                             md = node.to_markdown(
                                 level=level + 1,
                                 ignore_error=ignore_error,
                             )
+                            if not content_lines:
+                                # keep the marker of this item on its own line
+                                content_lines.append("")
                             content_lines.append(md)
                         except Exception as e:
                             if ignore_error:
diff --git a/atlas_doc_parser/nodes/node_ordered_list.py b/atlas_doc_parser/nodes/node_ordered_list.py
index f4c6576..033523d 100644
--- a/atlas_doc_parser/nodes/node_ordered_list.py
+++ b/atlas_doc_parser/nodes/node_ordered_list.py
@@ -84,12 +84,8 @@ class NodeOrderedList(BaseNode):
         lines = []
         indent = "    " * level  # 4 spaces per level
 
-        # Start numbering from attrs.order (or 1 for inner levels)
-        if (
-            level == 0
-            and self.attrs is not OPT
-            and isinstance(self.attrs.order, int)
-        ):
+        # Start numbering from attrs.order (or 1 when not specified)
+        if self.attrs is not OPT and isinstance(self.attrs.order, int):
             current_num = self.attrs.order
         else:
             current_num = 1
@@ -99,13 +95,22 @@ class NodeOrderedList(BaseNode):
                 # Process the list item content
                 content_lines = []
                 for node in item.content:
-                    if node.is_type_of(TypeEnum.orderedList):
+                    if node.is_type_of(
+                        [
+                            TypeEnum.bulletList,
+                            TypeEnum.orderedList,
+                            TypeEnum.taskList,
+                        ]
+                    ):
                         # Nested list - increase level
                         try:
                             md = node.to_markdown(
                                 level=level + 1,
                                 ignore_error=ignore_error,
                             )
+                            if not content_lines:
+                                # keep the marker of this item on its own line
+                                content_lines.append("")
                             content_lines.append(md)
                         except Exception as e:  # pragma: no cover
                             if ignore_error:
-- 
2.43.0


From 6b81f9d9d5bd7603960f0ae1b8836560c3491a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 12/13] fix: blocks in a table cell or a list item do not run
 into each other

---
 atlas_doc_parser/markdown_helpers.py        | 26 +++++++++++++++++++++
 atlas_doc_parser/nodes/node_list_item.py    |  4 ++--
 atlas_doc_parser/nodes/node_table_cell.py   |  4 ++--
 atlas_doc_parser/nodes/node_table_header.py |  4 ++--
 4 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/atlas_doc_parser/markdown_helpers.py b/atlas_doc_parser/markdown_helpers.py
index 0102c09..d169561 100644
--- a/atlas_doc_parser/markdown_helpers.py
+++ b/atlas_doc_parser/markdown_helpers.py
@@ -101,6 +101,32 @@ def content_to_markdown(
         return concat.join(lst)
 
 
+def block_content_to_markdown(
+    content: T.Union[list["T_NODE"], T.Literal[OPT]],
+    ignore_error: bool = False,
+) -> str:
+    """
+    Convert the block-level content of a container (a list item, a table cell)
+    to Markdown text.
+
+    It differs from :func:`content_to_markdown` in that every block starts on a
+    line of its own, also when the previous block doesn't end with a newline.
+
+    :param content: List of block-level child nodes. If ``OPT``, returns empty string.
+    :param ignore_error: If True, silently skip nodes that fail to convert.
+    :return: Markdown text of all blocks.
+    """
+    if content is OPT:
+        return ""
+    md = ""
+    for node in content:
+        block = content_to_markdown([node], ignore_error=ignore_error)
+        if md and block and not md.endswith("\n") and not block.startswith("\n"):
+            md += "\n"
+        md += block
+    return md
+
+
 def doc_content_to_markdown(
     content: T.Union[list["T_NODE"], T.Literal[OPT]],
     concat: str = "\n",
diff --git a/atlas_doc_parser/nodes/node_list_item.py b/atlas_doc_parser/nodes/node_list_item.py
index 2235810..6bba252 100644
--- a/atlas_doc_parser/nodes/node_list_item.py
+++ b/atlas_doc_parser/nodes/node_list_item.py
@@ -7,7 +7,7 @@ from func_args.api import REQ, OPT
 
 from ..type_enum import TypeEnum
 from ..mark_or_node import Base, BaseNode
-from ..markdown_helpers import content_to_markdown
+from ..markdown_helpers import block_content_to_markdown
 
 if T.TYPE_CHECKING:  # pragma: no cover
     from .node_paragraph import NodeParagraph
@@ -58,4 +58,4 @@ class NodeListItem(BaseNode):
         self,
         ignore_error: bool = False,
     ) -> str:
-        return content_to_markdown(content=self.content, ignore_error=ignore_error)
+        return block_content_to_markdown(content=self.content, ignore_error=ignore_error)
diff --git a/atlas_doc_parser/nodes/node_table_cell.py b/atlas_doc_parser/nodes/node_table_cell.py
index e14fb46..b1d53c8 100644
--- a/atlas_doc_parser/nodes/node_table_cell.py
+++ b/atlas_doc_parser/nodes/node_table_cell.py
@@ -7,7 +7,7 @@ from func_args.api import REQ, OPT
 
 from ..type_enum import TypeEnum
 from ..mark_or_node import Base, BaseNode
-from ..markdown_helpers import content_to_markdown
+from ..markdown_helpers import block_content_to_markdown
 
 if T.TYPE_CHECKING:  # pragma: no cover
     from .node_paragraph import NodeParagraph
@@ -86,7 +86,7 @@ class NodeTableCell(BaseNode):
         self,
         ignore_error: bool = False,
     ) -> str:
-        md = content_to_markdown(content=self.content, ignore_error=ignore_error)
+        md = block_content_to_markdown(content=self.content, ignore_error=ignore_error)
         md = md.replace("|", "\\|")
 
         # Convert leading spaces to &nbsp; for HTML table rendering
diff --git a/atlas_doc_parser/nodes/node_table_header.py b/atlas_doc_parser/nodes/node_table_header.py
index dd19f7b..e9dfc9a 100644
--- a/atlas_doc_parser/nodes/node_table_header.py
+++ b/atlas_doc_parser/nodes/node_table_header.py
@@ -7,7 +7,7 @@ from func_args.api import REQ, OPT
 
 from ..type_enum import TypeEnum
 from ..mark_or_node import Base, BaseNode
-from ..markdown_helpers import content_to_markdown
+from ..markdown_helpers import block_content_to_markdown
 
 if T.TYPE_CHECKING:  # pragma: no cover
     from .node_paragraph import NodeParagraph
@@ -85,7 +85,7 @@ class NodeTableHeader(BaseNode):
         self,
         ignore_error: bool = False,
     ) -> str:
-        md = content_to_markdown(content=self.content, ignore_error=ignore_error)
+        md = block_content_to_markdown(content=self.content, ignore_error=ignore_error)
         md = md.replace("|", "\\|")
 
         # Convert leading spaces to &nbsp; for HTML table rendering
-- 
2.43.0


From bc4bcf98e1f3da0cda9eca4edbd498a1ac24d533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:26 +0000
Subject: [PATCH 13/13] fix: backticks in a status text do not end its code
 span

---
 atlas_doc_parser/nodes/node_status.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/atlas_doc_parser/nodes/node_status.py b/atlas_doc_parser/nodes/node_status.py
index 49b274e..a96d83e 100644
--- a/atlas_doc_parser/nodes/node_status.py
+++ b/atlas_doc_parser/nodes/node_status.py
@@ -48,4 +48,11 @@ class NodeStatus(BaseNode):
         self,
         ignore_error: bool = False,
     ) -> str:
-        return f"`{self.attrs.text}`"
+        text = self.attrs.text
+        if "`" not in text:
+            return f"`{text}`"
+        # the delimiter has to be longer than any run of backticks in the text
+        delimiter = "``"
+        while delimiter in text:
+            delimiter += "`"
+        return f"{delimiter} {text} {delimiter}"
-- 
2.43.0

