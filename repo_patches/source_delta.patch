From 9de6d6e4d63297e42387bdf7825d28bfb5572a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 01/18] fix: to_dict leaked the OPT sentinel from unset attrs
 of marks and nested attrs

---
 atlas_doc_parser/mark_or_node.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/atlas_doc_parser/mark_or_node.py b/atlas_doc_parser/mark_or_node.py
index 984aabf..7068ad9 100644
--- a/atlas_doc_parser/mark_or_node.py
+++ b/atlas_doc_parser/mark_or_node.py
@@ -55,8 +55,14 @@ class Base(BaseFrozenModel):
     def to_dict(self) -> T_DATA:
         """
         Convert the dataclass to a complete dictionary with all fields.
+
+        Optional fields that are not set are left out at every level, so that
+        nested dataclasses (e.g. ``attrs``) don't leak the ``OPT`` sentinel.
         """
-        return remove_optional(**dataclasses.asdict(self))
+        return dataclasses.asdict(
+            self,
+            dict_factory=lambda items: remove_optional(**dict(items)),
+        )
 
     def to_kwargs(self) -> T_DATA:
         """
-- 
2.43.0


From 7463c124892887e09a5c7a18027aa6f7ad1fd98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 02/18] fix: the exported ParamError was not the error that a
 missing required field raises

---
 atlas_doc_parser/exc.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/atlas_doc_parser/exc.py b/atlas_doc_parser/exc.py
index 39623c1..f04bb01 100644
--- a/atlas_doc_parser/exc.py
+++ b/atlas_doc_parser/exc.py
@@ -5,10 +5,9 @@ Exceptions for atlas_doc_parser.
 """
 
 
-class ParamError(Exception):
-    """Raised when a parameter validation fails."""
-
-    pass
+# Raised when a parameter validation fails. It has to be the very class that
+# the ``REQ`` validation of func_args raises, otherwise it cannot be caught.
+from func_args.api import ParamError
 
 
 class UnimplementedTypeError(Exception):
-- 
2.43.0


From 4948dbdc416dd919f1a69ffbf2d8b76b6d8e5f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 03/18] fix: a required mark attribute that is missing raised
 TypeError instead of ParamError

---
 atlas_doc_parser/marks/mark_alignment.py        | 2 +-
 atlas_doc_parser/marks/mark_background_color.py | 2 +-
 atlas_doc_parser/marks/mark_breakout.py         | 2 +-
 atlas_doc_parser/marks/mark_data_consumer.py    | 2 +-
 atlas_doc_parser/marks/mark_fragment.py         | 2 +-
 atlas_doc_parser/marks/mark_text_color.py       | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/atlas_doc_parser/marks/mark_alignment.py b/atlas_doc_parser/marks/mark_alignment.py
index 163d95d..0aef2d2 100644
--- a/atlas_doc_parser/marks/mark_alignment.py
+++ b/atlas_doc_parser/marks/mark_alignment.py
@@ -18,7 +18,7 @@ class MarkAlignmentAttrs(Base):
         Valid values are ``"center"`` or ``"end"``.
     """
 
-    align: T.Literal["center", "end"]
+    align: T.Literal["center", "end"] = REQ
 
 
 @dataclasses.dataclass(frozen=True)
diff --git a/atlas_doc_parser/marks/mark_background_color.py b/atlas_doc_parser/marks/mark_background_color.py
index 23b8733..4bb419e 100644
--- a/atlas_doc_parser/marks/mark_background_color.py
+++ b/atlas_doc_parser/marks/mark_background_color.py
@@ -12,7 +12,7 @@ from ..mark_or_node import Base, BaseMark
 class MarkBackgroundColorAttrs(Base):
     """Attributes for :class:`MarkBackgroundColor`."""
 
-    color: str
+    color: str = REQ
 
 
 @dataclasses.dataclass(frozen=True)
diff --git a/atlas_doc_parser/marks/mark_breakout.py b/atlas_doc_parser/marks/mark_breakout.py
index 683a42c..2b4e27b 100644
--- a/atlas_doc_parser/marks/mark_breakout.py
+++ b/atlas_doc_parser/marks/mark_breakout.py
@@ -18,7 +18,7 @@ class MarkBreakoutAttrs(Base):
     :param width: Optional. Width value.
     """
 
-    mode: T.Literal["wide", "full-width"]
+    mode: T.Literal["wide", "full-width"] = REQ
     width: int = OPT
 
 
diff --git a/atlas_doc_parser/marks/mark_data_consumer.py b/atlas_doc_parser/marks/mark_data_consumer.py
index 7e7f10c..f6a3bb8 100644
--- a/atlas_doc_parser/marks/mark_data_consumer.py
+++ b/atlas_doc_parser/marks/mark_data_consumer.py
@@ -16,7 +16,7 @@ class MarkDataConsumerAttrs(Base):
     :param sources: Required. An array of source identifiers (minimum 1 item).
     """
 
-    sources: list[str]
+    sources: list[str] = REQ
 
 
 @dataclasses.dataclass(frozen=True)
diff --git a/atlas_doc_parser/marks/mark_fragment.py b/atlas_doc_parser/marks/mark_fragment.py
index 027969a..ad2f5cb 100644
--- a/atlas_doc_parser/marks/mark_fragment.py
+++ b/atlas_doc_parser/marks/mark_fragment.py
@@ -17,7 +17,7 @@ class MarkFragmentAttrs(Base):
     :param name: Optional. A human-readable name for the fragment.
     """
 
-    localId: str
+    localId: str = REQ
     name: str = OPT
 
 
diff --git a/atlas_doc_parser/marks/mark_text_color.py b/atlas_doc_parser/marks/mark_text_color.py
index d9e9cde..111010f 100644
--- a/atlas_doc_parser/marks/mark_text_color.py
+++ b/atlas_doc_parser/marks/mark_text_color.py
@@ -12,7 +12,7 @@ from ..mark_or_node import Base, BaseMark
 class MarkTextColorAttrs(Base):
     """Attributes for :class:`MarkTextColor`."""
 
-    color: str
+    color: str = REQ
 
 
 @dataclasses.dataclass(frozen=True)
-- 
2.43.0


From ba5de4ee67409465384013551181bf7c52dd29bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 04/18] fix: the indentation mark replaced the text by tabs

---
 atlas_doc_parser/marks/mark_indentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atlas_doc_parser/marks/mark_indentation.py b/atlas_doc_parser/marks/mark_indentation.py
index 64c6a5f..4fbd406 100644
--- a/atlas_doc_parser/marks/mark_indentation.py
+++ b/atlas_doc_parser/marks/mark_indentation.py
@@ -36,4 +36,4 @@ class MarkIndentation(BaseMark):
         self,
         text: str,
     ) -> str:
-        return self.attrs.level * "\t"
+        return self.attrs.level * "\t" + text
-- 
2.43.0


From c0384260bb8285d894ad6833e3699c137336e6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 05/18] fix: ignore_error was not passed down, so one bad
 inline node dropped its whole block

---
 atlas_doc_parser/markdown_helpers.py        | 6 +++---
 atlas_doc_parser/nodes/node_bullet_list.py  | 7 +++++--
 atlas_doc_parser/nodes/node_ordered_list.py | 7 +++++--
 atlas_doc_parser/nodes/node_table.py        | 2 +-
 atlas_doc_parser/nodes/node_task_list.py    | 2 +-
 5 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/atlas_doc_parser/markdown_helpers.py b/atlas_doc_parser/markdown_helpers.py
index 3eceed0..c4f500d 100644
--- a/atlas_doc_parser/markdown_helpers.py
+++ b/atlas_doc_parser/markdown_helpers.py
@@ -91,7 +91,7 @@ def content_to_markdown(
         lst = list()
         for node in content:
             try:
-                md = node.to_markdown()
+                md = node.to_markdown(ignore_error=ignore_error)
                 lst.append(md)
             except Exception as e:  # pragma: no cover
                 if ignore_error:
@@ -147,9 +147,9 @@ def doc_content_to_markdown(
                         TypeEnum.codeBlock,
                     ]
                 ):
-                    md = "\n" + node.to_markdown() + "\n"
+                    md = "\n" + node.to_markdown(ignore_error=ignore_error) + "\n"
                 else:
-                    md = node.to_markdown()
+                    md = node.to_markdown(ignore_error=ignore_error)
                 # print(f"{node = }")  # for debug only
                 # print(f"{md = }")  # for debug only
                 lst.append(md)
diff --git a/atlas_doc_parser/nodes/node_bullet_list.py b/atlas_doc_parser/nodes/node_bullet_list.py
index 285ca45..94e7337 100644
--- a/atlas_doc_parser/nodes/node_bullet_list.py
+++ b/atlas_doc_parser/nodes/node_bullet_list.py
@@ -76,7 +76,10 @@ class NodeBulletList(BaseNode):
                     if node.is_type_of(TypeEnum.bulletList):
                         # Nested list - increase level
                         try:
-                            md = node.to_markdown(level=level + 1)
+                            md = node.to_markdown(
+                                level=level + 1,
+                                ignore_error=ignore_error,
+                            )
                             content_lines.append(md)
                         except Exception as e:
                             if ignore_error:
@@ -86,7 +89,7 @@ class NodeBulletList(BaseNode):
                     else:
                         # Regular content (like paragraph)
                         try:
-                            md = node.to_markdown().rstrip()
+                            md = node.to_markdown(ignore_error=ignore_error).rstrip()
                             content_lines.append(md)
                         except Exception as e:
                             if ignore_error:
diff --git a/atlas_doc_parser/nodes/node_ordered_list.py b/atlas_doc_parser/nodes/node_ordered_list.py
index 250772b..c38b68c 100644
--- a/atlas_doc_parser/nodes/node_ordered_list.py
+++ b/atlas_doc_parser/nodes/node_ordered_list.py
@@ -98,7 +98,10 @@ class NodeOrderedList(BaseNode):
                     if node.is_type_of(TypeEnum.orderedList):
                         # Nested list - increase level
                         try:
-                            md = node.to_markdown(level=level + 1)
+                            md = node.to_markdown(
+                                level=level + 1,
+                                ignore_error=ignore_error,
+                            )
                             content_lines.append(md)
                         except Exception as e:  # pragma: no cover
                             if ignore_error:
@@ -108,7 +111,7 @@ class NodeOrderedList(BaseNode):
                     else:
                         # Regular content (like paragraph)
                         try:
-                            md = node.to_markdown().rstrip()
+                            md = node.to_markdown(ignore_error=ignore_error).rstrip()
                             content_lines.append(md)
                         except Exception as e:  # pragma: no cover
                             if ignore_error:
diff --git a/atlas_doc_parser/nodes/node_table.py b/atlas_doc_parser/nodes/node_table.py
index ca343e1..2ea786b 100644
--- a/atlas_doc_parser/nodes/node_table.py
+++ b/atlas_doc_parser/nodes/node_table.py
@@ -76,7 +76,7 @@ class NodeTable(BaseNode):
         lines = list()
         for row in self.content:
             try:
-                md = row.to_markdown()
+                md = row.to_markdown(ignore_error=ignore_error)
                 lines.append(md)
                 if row.content[0].is_type_of(TypeEnum.tableHeader):
                     lines.append("| " + " | ".join(["---"] * len(row.content)) + " |")
diff --git a/atlas_doc_parser/nodes/node_task_list.py b/atlas_doc_parser/nodes/node_task_list.py
index de78202..256c119 100644
--- a/atlas_doc_parser/nodes/node_task_list.py
+++ b/atlas_doc_parser/nodes/node_task_list.py
@@ -91,7 +91,7 @@ class NodeTaskList(BaseNode):
                 content_parts = []
                 for node in item.content:
                     try:
-                        md = node.to_markdown()
+                        md = node.to_markdown(ignore_error=ignore_error)
                         content_parts.append(md)
                     except Exception as e:
                         if ignore_error:
-- 
2.43.0


From 4e9adbc6d5664e58ea29a9e715cc282fece7e4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 06/18] fix: an ordered list without attrs could not be
 rendered

---
 atlas_doc_parser/nodes/node_ordered_list.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atlas_doc_parser/nodes/node_ordered_list.py b/atlas_doc_parser/nodes/node_ordered_list.py
index c38b68c..f4c6576 100644
--- a/atlas_doc_parser/nodes/node_ordered_list.py
+++ b/atlas_doc_parser/nodes/node_ordered_list.py
@@ -85,7 +85,11 @@ class NodeOrderedList(BaseNode):
         indent = "    " * level  # 4 spaces per level
 
         # Start numbering from attrs.order (or 1 for inner levels)
-        if level == 0 and isinstance(self.attrs.order, int):
+        if (
+            level == 0
+            and self.attrs is not OPT
+            and isinstance(self.attrs.order, int)
+        ):
             current_num = self.attrs.order
         else:
             current_num = 1
-- 
2.43.0


From 0bd97ee4e4501dfeceda354c0e4bf31499a3fcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 07/18] fix: a task item without content could not be rendered

---
 atlas_doc_parser/nodes/node_task_list.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atlas_doc_parser/nodes/node_task_list.py b/atlas_doc_parser/nodes/node_task_list.py
index 256c119..e9f2f28 100644
--- a/atlas_doc_parser/nodes/node_task_list.py
+++ b/atlas_doc_parser/nodes/node_task_list.py
@@ -89,7 +89,8 @@ class NodeTaskList(BaseNode):
             if item.is_type_of(TypeEnum.taskItem):
                 # Process the task item content (text nodes)
                 content_parts = []
-                for node in item.content:
+                # content is optional: an empty task item has none
+                for node in [] if item.content is OPT else item.content:
                     try:
                         md = node.to_markdown(ignore_error=ignore_error)
                         content_parts.append(md)
-- 
2.43.0


From 15d1c673fa8a9783850ad88cc86835a0d69f714c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 08/18] fix: a table with an empty row, or with a header
 column, was not rendered as one table

---
 atlas_doc_parser/nodes/node_table.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/atlas_doc_parser/nodes/node_table.py b/atlas_doc_parser/nodes/node_table.py
index 2ea786b..c1f4361 100644
--- a/atlas_doc_parser/nodes/node_table.py
+++ b/atlas_doc_parser/nodes/node_table.py
@@ -74,12 +74,19 @@ class NodeTable(BaseNode):
         ignore_error: bool = False,
     ) -> str:
         lines = list()
+        has_delimiter = False
         for row in self.content:
             try:
                 md = row.to_markdown(ignore_error=ignore_error)
                 lines.append(md)
-                if row.content[0].is_type_of(TypeEnum.tableHeader):
+                # a Markdown table has one delimiter row, below its header row
+                if (
+                    not has_delimiter
+                    and row.content
+                    and row.content[0].is_type_of(TypeEnum.tableHeader)
+                ):
                     lines.append("| " + " | ".join(["---"] * len(row.content)) + " |")
+                    has_delimiter = True
             except Exception as e:  # pragma: no cover
                 if ignore_error:
                     pass
-- 
2.43.0


From 70f1377351e4f53fcd36a58b84d03a4316a91d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 09/18] fix: no blank line after a table, task list, decision
 list, image or extension

---
 atlas_doc_parser/markdown_helpers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/atlas_doc_parser/markdown_helpers.py b/atlas_doc_parser/markdown_helpers.py
index c4f500d..9813edf 100644
--- a/atlas_doc_parser/markdown_helpers.py
+++ b/atlas_doc_parser/markdown_helpers.py
@@ -145,6 +145,11 @@ def doc_content_to_markdown(
                         TypeEnum.bulletList,
                         TypeEnum.orderedList,
                         TypeEnum.codeBlock,
+                        TypeEnum.taskList,
+                        TypeEnum.decisionList,
+                        TypeEnum.table,
+                        TypeEnum.mediaSingle,
+                        TypeEnum.extension,
                     ]
                 ):
                     md = "\n" + node.to_markdown(ignore_error=ignore_error) + "\n"
-- 
2.43.0


From e9e4c8ba70ae9ce073b8c8c7b958f4de2d58a7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 10/18] fix: two blocks in a table cell could be glued together
 on one line

---
 atlas_doc_parser/markdown_helpers.py        | 24 +++++++++++++++++++++
 atlas_doc_parser/nodes/node_table_cell.py   |  4 ++--
 atlas_doc_parser/nodes/node_table_header.py |  4 ++--
 3 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/atlas_doc_parser/markdown_helpers.py b/atlas_doc_parser/markdown_helpers.py
index 9813edf..1160ff1 100644
--- a/atlas_doc_parser/markdown_helpers.py
+++ b/atlas_doc_parser/markdown_helpers.py
@@ -101,6 +101,30 @@ def content_to_markdown(
         return concat.join(lst)
 
 
+def cell_content_to_markdown(
+    content: T.Union[list["T_NODE"], T.Literal[OPT]],
+    ignore_error: bool = False,
+) -> str:
+    """
+    Convert the content of a table cell to Markdown text.
+
+    Same as :func:`content_to_markdown`, except that the children of a table
+    cell are **block-level** nodes: each of them starts on a new line.
+
+    :param content: List of block-level child nodes. If ``OPT`` (not provided),
+        returns an empty string.
+    :param ignore_error: If True, silently skip nodes that fail to convert.
+    :return: Concatenated Markdown text from all child nodes.
+    """
+    md = ""
+    for node in [] if content is OPT else content:
+        part = content_to_markdown(content=[node], ignore_error=ignore_error)
+        if md and part and not (md.endswith("\n") or part.startswith("\n")):
+            md += "\n"
+        md += part
+    return md
+
+
 def doc_content_to_markdown(
     content: T.Union[list["T_NODE"], T.Literal[OPT]],
     concat: str = "\n",
diff --git a/atlas_doc_parser/nodes/node_table_cell.py b/atlas_doc_parser/nodes/node_table_cell.py
index e14fb46..ac1a567 100644
--- a/atlas_doc_parser/nodes/node_table_cell.py
+++ b/atlas_doc_parser/nodes/node_table_cell.py
@@ -7,7 +7,7 @@ from func_args.api import REQ, OPT
 
 from ..type_enum import TypeEnum
 from ..mark_or_node import Base, BaseNode
-from ..markdown_helpers import content_to_markdown
+from ..markdown_helpers import cell_content_to_markdown
 
 if T.TYPE_CHECKING:  # pragma: no cover
     from .node_paragraph import NodeParagraph
@@ -86,7 +86,7 @@ class NodeTableCell(BaseNode):
         self,
         ignore_error: bool = False,
     ) -> str:
-        md = content_to_markdown(content=self.content, ignore_error=ignore_error)
+        md = cell_content_to_markdown(content=self.content, ignore_error=ignore_error)
         md = md.replace("|", "\\|")
 
         # Convert leading spaces to &nbsp; for HTML table rendering
diff --git a/atlas_doc_parser/nodes/node_table_header.py b/atlas_doc_parser/nodes/node_table_header.py
index dd19f7b..2c14013 100644
--- a/atlas_doc_parser/nodes/node_table_header.py
+++ b/atlas_doc_parser/nodes/node_table_header.py
@@ -7,7 +7,7 @@ from func_args.api import REQ, OPT
 
 from ..type_enum import TypeEnum
 from ..mark_or_node import Base, BaseNode
-from ..markdown_helpers import content_to_markdown
+from ..markdown_helpers import cell_content_to_markdown
 
 if T.TYPE_CHECKING:  # pragma: no cover
     from .node_paragraph import NodeParagraph
@@ -85,7 +85,7 @@ class NodeTableHeader(BaseNode):
         self,
         ignore_error: bool = False,
     ) -> str:
-        md = content_to_markdown(content=self.content, ignore_error=ignore_error)
+        md = cell_content_to_markdown(content=self.content, ignore_error=ignore_error)
         md = md.replace("|", "\\|")
 
         # Convert leading spaces to &nbsp; for HTML table rendering
-- 
2.43.0


From edc2548a176fbed43b6beca6e6e50807f1ecc60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 11/18] fix: a list nested in a list of another kind lost its
 indentation

An ordered list now keeps its start number at every level: it did so when
it was nested in a bullet list, but not when nested in an ordered list.
---
 atlas_doc_parser/nodes/node_bullet_list.py  | 10 ++++++++--
 atlas_doc_parser/nodes/node_ordered_list.py | 18 ++++++++++--------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/atlas_doc_parser/nodes/node_bullet_list.py b/atlas_doc_parser/nodes/node_bullet_list.py
index 94e7337..0657143 100644
--- a/atlas_doc_parser/nodes/node_bullet_list.py
+++ b/atlas_doc_parser/nodes/node_bullet_list.py
@@ -73,8 +73,14 @@ class NodeBulletList(BaseNode):
                 # Process the list item content
                 content_lines = []
                 for node in item.content:
-                    if node.is_type_of(TypeEnum.bulletList):
-                        # Nested list - increase level
+                    if node.is_type_of(
+                        [
+                            TypeEnum.bulletList,
+                            TypeEnum.orderedList,
+                            TypeEnum.taskList,
+                        ]
+                    ):
+                        # Nested list (of any kind) - increase level
                         try:
                             md = node.to_markdown(
                                 level=level + 1,
diff --git a/atlas_doc_parser/nodes/node_ordered_list.py b/atlas_doc_parser/nodes/node_ordered_list.py
index f4c6576..ed9b231 100644
--- a/atlas_doc_parser/nodes/node_ordered_list.py
+++ b/atlas_doc_parser/nodes/node_ordered_list.py
@@ -84,12 +84,8 @@ class NodeOrderedList(BaseNode):
         lines = []
         indent = "    " * level  # 4 spaces per level
 
-        # Start numbering from attrs.order (or 1 for inner levels)
-        if (
-            level == 0
-            and self.attrs is not OPT
-            and isinstance(self.attrs.order, int)
-        ):
+        # Start numbering from attrs.order (or 1 if it is not specified)
+        if self.attrs is not OPT and isinstance(self.attrs.order, int):
             current_num = self.attrs.order
         else:
             current_num = 1
@@ -99,8 +95,14 @@ class NodeOrderedList(BaseNode):
                 # Process the list item content
                 content_lines = []
                 for node in item.content:
-                    if node.is_type_of(TypeEnum.orderedList):
-                        # Nested list - increase level
+                    if node.is_type_of(
+                        [
+                            TypeEnum.bulletList,
+                            TypeEnum.orderedList,
+                            TypeEnum.taskList,
+                        ]
+                    ):
+                        # Nested list (of any kind) - increase level
                         try:
                             md = node.to_markdown(
                                 level=level + 1,
-- 
2.43.0


From a088d23e86d6eb8334c4e9984cbfa4a086e8a838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 12/18] fix: blank lines were removed from code blocks, and
 long runs of them were kept elsewhere

---
 atlas_doc_parser/markdown_helpers.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/atlas_doc_parser/markdown_helpers.py b/atlas_doc_parser/markdown_helpers.py
index 1160ff1..ba96afc 100644
--- a/atlas_doc_parser/markdown_helpers.py
+++ b/atlas_doc_parser/markdown_helpers.py
@@ -15,6 +15,7 @@ Key concepts:
 - Content nodes can contain child nodes that need recursive conversion
 """
 
+import re
 import typing as T
 
 from func_args.api import OPT
@@ -25,6 +26,15 @@ if T.TYPE_CHECKING:  # pragma: no cover
     from .mark_or_node import T_MARK, T_NODE
 
 
+# A fenced code block (which may be the content of a list item, so that a list
+# marker precedes the opening fence), or a run of empty lines outside of it
+_CODE_BLOCK_OR_EMPTY_LINES = re.compile(
+    r"^((?:[ \t]*(?:[-*]|\d+\.)[ \t]+)*[ \t]*(`{3,})[^`\n]*\n(?:.*?\n)??[ \t]*\2[ \t]*$)"
+    r"|\n{3,}",
+    flags=re.MULTILINE | re.DOTALL,
+)
+
+
 def strip_double_empty_line(
     text: str,
     n: int = 3,
@@ -39,10 +49,11 @@ def strip_double_empty_line(
 
     This function normalizes the output by collapsing excessive blank lines
     (3+ newlines) down to exactly one blank line (2 newlines).
+    The blank lines inside a fenced code block are part of the code, they are
+    left alone.
 
     :param text: The input text that may contain excessive blank lines.
-    :param n: Number of replacement iterations to perform. Default is 3,
-        which handles up to 5 consecutive newlines being reduced to 2.
+    :param n: Not used any more, runs of any length are reduced to 2 newlines.
     :return: Text with at most one consecutive blank line (two newlines).
 
     Example::
@@ -50,9 +61,7 @@ def strip_double_empty_line(
         >>> strip_double_empty_line("Hello\\n\\n\\n\\nWorld")
         'Hello\\n\\nWorld'
     """
-    for _ in range(n):
-        text = text.replace("\n\n\n", "\n\n")
-    return text
+    return _CODE_BLOCK_OR_EMPTY_LINES.sub(lambda m: m.group(1) or "\n\n", text)
 
 
 def content_to_markdown(
-- 
2.43.0


From 55098925636c33cdaa147f6d75738576f767105e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 13/18] fix: a code block that contains a fence ended early

---
 atlas_doc_parser/nodes/node_code_block.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atlas_doc_parser/nodes/node_code_block.py b/atlas_doc_parser/nodes/node_code_block.py
index e37f469..ab353f7 100644
--- a/atlas_doc_parser/nodes/node_code_block.py
+++ b/atlas_doc_parser/nodes/node_code_block.py
@@ -68,4 +68,8 @@ class NodeCodeBlock(BaseNode):
                 )
         if lang == "none":
             lang = ""
-        return f"```{lang}\n{code}\n```"
+        # the fence has to be longer than any run of backticks in the code
+        fence = "```"
+        while fence in code:
+            fence += "`"
+        return f"{fence}{lang}\n{code}\n{fence}"
-- 
2.43.0


From 4d06f983c07cf55670260e4bc7004ecd49355952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 14/18] fix: a link with an empty title lost its text

---
 atlas_doc_parser/marks/mark_link.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atlas_doc_parser/marks/mark_link.py b/atlas_doc_parser/marks/mark_link.py
index 557d2ad..ff1cd96 100644
--- a/atlas_doc_parser/marks/mark_link.py
+++ b/atlas_doc_parser/marks/mark_link.py
@@ -45,7 +45,7 @@ class MarkLink(BaseMark):
         self,
         text: str,
     ) -> str:
-        if isinstance(self.attrs.title, str):
+        if isinstance(self.attrs.title, str) and self.attrs.title:
             title = self.attrs.title
         else:
             title = text
-- 
2.43.0


From d1384eae367d961af928bd9c4feafc0e8f958732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 15/18] fix: quotes and panels inserted a quote marker in the
 middle of a line at characters like U+2028

---
 atlas_doc_parser/nodes/node_blockquote.py | 9 +++++----
 atlas_doc_parser/nodes/node_panel.py      | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/atlas_doc_parser/nodes/node_blockquote.py b/atlas_doc_parser/nodes/node_blockquote.py
index 7bed81e..3921ca1 100644
--- a/atlas_doc_parser/nodes/node_blockquote.py
+++ b/atlas_doc_parser/nodes/node_blockquote.py
@@ -1,7 +1,7 @@
 # -*- coding: utf-8 -*-
 
+import re
 import typing as T
-import textwrap
 import dataclasses
 
 from func_args.api import REQ, OPT
@@ -62,15 +62,16 @@ class NodeBlockquote(BaseNode):
         ignore_error: bool = False,
     ) -> str:
         return (
-            textwrap.indent(
+            # not textwrap.indent: it also breaks lines at characters like U+2028
+            re.sub(
+                r"(?:\A|(?<=\n)|(?<=\r)(?!\n))(?!\Z)",
+                "> ",
                 strip_double_empty_line(
                     doc_content_to_markdown(
                         content=self.content,
                         ignore_error=ignore_error,
                     )
                 ),
-                prefix="> ",
-                predicate=lambda line: True,
             )
             + "\n"
         )
\ No newline at end of file
diff --git a/atlas_doc_parser/nodes/node_panel.py b/atlas_doc_parser/nodes/node_panel.py
index 7307b3c..7c953ad 100644
--- a/atlas_doc_parser/nodes/node_panel.py
+++ b/atlas_doc_parser/nodes/node_panel.py
@@ -1,7 +1,7 @@
 # -*- coding: utf-8 -*-
 
+import re
 import typing as T
-import textwrap
 import dataclasses
 
 from func_args.api import REQ, OPT
@@ -101,7 +101,10 @@ class NodePanel(BaseNode):
         ignore_error: bool = False,
     ) -> str:
         return (
-            textwrap.indent(
+            # not textwrap.indent: it also breaks lines at characters like U+2028
+            re.sub(
+                r"(?:\A|(?<=\n)|(?<=\r)(?!\n))(?!\Z)",
+                "> ",
                 strip_double_empty_line(
                     "\n".join(
                         [
@@ -114,8 +117,6 @@ class NodePanel(BaseNode):
                         ]
                     )
                 ),
-                prefix="> ",
-                predicate=lambda line: True,
             )
             + "\n"
         )
\ No newline at end of file
-- 
2.43.0


From c76a7b3b3f774a2f07b539b87af177b03382e910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:20 +0000
Subject: [PATCH 16/18] fix: deeply nested lists with empty items took
 exponential time to render

---
 atlas_doc_parser/markdown_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atlas_doc_parser/markdown_helpers.py b/atlas_doc_parser/markdown_helpers.py
index ba96afc..4a8a7b7 100644
--- a/atlas_doc_parser/markdown_helpers.py
+++ b/atlas_doc_parser/markdown_helpers.py
@@ -29,7 +29,7 @@ if T.TYPE_CHECKING:  # pragma: no cover
 # A fenced code block (which may be the content of a list item, so that a list
 # marker precedes the opening fence), or a run of empty lines outside of it
 _CODE_BLOCK_OR_EMPTY_LINES = re.compile(
-    r"^((?:[ \t]*(?:[-*]|\d+\.)[ \t]+)*[ \t]*(`{3,})[^`\n]*\n(?:.*?\n)??[ \t]*\2[ \t]*$)"
+    r"^([ \t]*(?:(?:[-*]|\d+\.)[ \t]+)*(`{3,})[^`\n]*\n(?:.*?\n)??[ \t]*\2[ \t]*$)"
     r"|\n{3,}",
     flags=re.MULTILINE | re.DOTALL,
 )
-- 
2.43.0


From 38bacf20257b06d24361a021ebf7fe8ad4900b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:50 +0000
Subject: [PATCH 17/18] fix: a code block with a very long run of backticks
 took quadratic time to render

---
 atlas_doc_parser/nodes/node_code_block.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atlas_doc_parser/nodes/node_code_block.py b/atlas_doc_parser/nodes/node_code_block.py
index ab353f7..cffb853 100644
--- a/atlas_doc_parser/nodes/node_code_block.py
+++ b/atlas_doc_parser/nodes/node_code_block.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 
+import re
 import typing as T
 import dataclasses
 
@@ -69,7 +70,6 @@ class NodeCodeBlock(BaseNode):
         if lang == "none":
             lang = ""
         # the fence has to be longer than any run of backticks in the code
-        fence = "```"
-        while fence in code:
-            fence += "`"
+        longest = max(map(len, re.findall("`+", code)), default=0)
+        fence = "`" * max(3, longest + 1)
         return f"{fence}{lang}\n{code}\n{fence}"
-- 
2.43.0


From 48341be15803466de49a6cacaa9a7d55e4ed5b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:53 +0000
Subject: [PATCH 18/18] fix: a content or marks field that an element does not
 have is ignored

Unknown fields are ignored, but a field named content or marks was always
parsed, even when the class of the element has no such field: what was in it
could then raise (or log warnings) although it is not part of the result.
---
 atlas_doc_parser/mark_or_node.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atlas_doc_parser/mark_or_node.py b/atlas_doc_parser/mark_or_node.py
index 7068ad9..ccfc8ca 100644
--- a/atlas_doc_parser/mark_or_node.py
+++ b/atlas_doc_parser/mark_or_node.py
@@ -256,7 +256,8 @@ class BaseNode(BaseMarkOrNode):
                     dct["attrs"] = attrs_field.type.from_dict(dct["attrs"])
 
         # Deserialize content (child nodes)
-        if "content" in dct:
+        # a field that this class does not have is ignored, see Base.from_dict
+        if "content" in dct and "content" in cls.get_fields():
             if isinstance(dct["content"], list) and parse_node is not None:
                 new_content = []
                 for d in dct["content"]:
@@ -272,7 +273,7 @@ class BaseNode(BaseMarkOrNode):
                 dct["content"] = new_content
 
         # Deserialize marks
-        if "marks" in dct:
+        if "marks" in dct and "marks" in cls.get_fields():
             if isinstance(dct["marks"], list) and parse_mark is not None:
                 new_marks = []
                 for d in dct["marks"]:
-- 
2.43.0

