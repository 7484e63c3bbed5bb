From bd879b4384fab1837dcf7602429b5cd66693f3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:28 +0000
Subject: [PATCH 001/122] fix: attribute values were written with an
 unterminated &quot entity

---
 creole/emitter/creol2html_emitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index f2da5d4..1618abb 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -149,7 +149,7 @@ class HtmlEmitter:
         return escape(text)
 
     def attr_escape(self, text):
-        return self.html_escape(text).replace('"', '&quot')
+        return self.html_escape(text).replace('"', '&quot;')
 
     # *_emit methods for emitting nodes of the document:
 
-- 
2.43.0


From f65d718814abe2d10f78655cb38a6059b9f7d3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:28 +0000
Subject: [PATCH 002/122] fix: escape the target of a sized image if it is used
 as title

---
 creole/emitter/creol2html_emitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 1618abb..13a7742 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -273,7 +273,7 @@ class HtmlEmitter:
                 if "|" in text:
                     title, size_str = text.split("|", 1)
                     if not title:
-                        title = target
+                        title = self.attr_escape(target)
                     w_str, h_str = size_str.split("x", 1)
                     width = int(w_str.strip())
                     height = int(h_str.strip())
-- 
2.43.0


From 2b6b977b36d0a47af23eb46cd71f1db1a062a283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:46 +0000
Subject: [PATCH 003/122] fix: escape headlines in the table of contents and in
 their anchors

---
 creole/emitter/creol2html_emitter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 13a7742..901d47e 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -65,7 +65,9 @@ class TableOfContent:
         """Convert a python nested list like the one representing the toc to an html equivalent."""
         indent = "\t" * level
         if isinstance(nested_headlines, str):
-            return f'{indent}<li><a href="#{nested_headlines}">{nested_headlines}</a></li>\n'
+            text = escape(nested_headlines)
+            anchor = text.replace('"', '&quot;')
+            return f'{indent}<li><a href="#{anchor}">{text}</a></li>\n'
         elif isinstance(nested_headlines, list):
             html = f'{indent}<ul>\n'
             for elt in nested_headlines:
@@ -248,7 +250,7 @@ class HtmlEmitter:
         if self.toc is not None:
             self.toc.add_headline(node.level, node.content)
             # add link attribute for toc navigation
-            header = f'<a name="{self.html_escape(node.content)}">{header}</a>'
+            header = f'<a name="{self.attr_escape(node.content)}">{header}</a>'
 
         header += "\n"
         return header
-- 
2.43.0


From c3370ff88a6745cdc13f34a1eb4d20123c4324d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:46 +0000
Subject: [PATCH 004/122] fix: <<toc>> with a depth that is not a number is a
 macro error, not a crash

---
 creole/emitter/creol2html_emitter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 901d47e..bc812da 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -27,6 +27,9 @@ class TableOfContent:
         if self._created:
             return "&lt;&lt;toc&gt;&gt;"
 
+        if depth is not None and not isinstance(depth, int):
+            raise TypeError(f"depth must be a number, not {depth!r}")
+
         self._created = True
         if depth is not None:
             self.max_depth = depth
-- 
2.43.0


From 5bf046cf8493ec539c4e328b76f0b698e2ae212c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:59 +0000
Subject: [PATCH 005/122] fix: escape the text of an exception raised by a
 macro

---
 creole/emitter/creol2html_emitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index bc812da..aef43f9 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -326,7 +326,7 @@ class HtmlEmitter:
         try:
             result = macro(**macro_kwargs)
         except TypeError as err:
-            msg = f"Macro '{macro_name}' error: {err}"
+            msg = f"Macro '{macro_name}' error: {self.html_escape(str(err))}"
             exc_info = sys.exc_info()
             if self.verbose > 1:
                 if self.verbose > 2:
@@ -353,7 +353,7 @@ class HtmlEmitter:
             return self.error(msg, exc_info)
         except Exception as err:
             return self.error(
-                f"Macro '{macro_name}' error: {err}",
+                f"Macro '{macro_name}' error: {self.html_escape(str(err))}",
                 exc_info=sys.exc_info()
             )
 
-- 
2.43.0


From 478144ac76dd70b731917b235cc6029a5457cb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:15 +0000
Subject: [PATCH 006/122] fix: escape the value shown for a macro that doesn't
 return a string

---
 creole/emitter/creol2html_emitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index aef43f9..6b0e2eb 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -360,7 +360,7 @@ class HtmlEmitter:
         if not isinstance(result, str):
             msg = f"Macro '{macro_name}' doesn't return a unicode string!"
             if self.verbose > 1:
-                msg += f" - returns: {result!r}, type {type(result)!r}"
+                msg += self.html_escape(f" - returns: {result!r}, type {type(result)!r}")
             return self.error(msg)
 
         if node.kind == "macro_block":
-- 
2.43.0


From ca63e5e91dec3384ffb2ad022ab68b4729bc7152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:31 +0000
Subject: [PATCH 007/122] fix: don't put the default toc macro into the macros
 given by the caller

---
 creole/emitter/creol2html_emitter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 6b0e2eb..139aaab 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -123,13 +123,11 @@ class HtmlEmitter:
                     self.toc = self.macros["toc"]
                 else:
                     self.toc = TableOfContent()
-                    self.macros["toc"] = self.toc
             else:
                 try:
                     self.toc = getattr(self.macros, "toc")
                 except AttributeError:
                     self.toc = TableOfContent()
-                    self.macros.toc = self.toc
 
         if verbose is None:
             self.verbose = 1
@@ -306,7 +304,10 @@ class HtmlEmitter:
         macro_kwargs["text"] = text
 
         exc_info = None
-        if isinstance(self.macros, dict):
+        if macro_name == "toc":
+            # maybe the default one, which is not in the given macros
+            macro = self.toc
+        elif isinstance(self.macros, dict):
             try:
                 macro = self.macros[macro_name]
             except KeyError:
-- 
2.43.0


From 188c833050ad792558b6693b5f3294a523017cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:59 +0000
Subject: [PATCH 008/122] fix: a text line after a list item was glued to the
 item's last word

---
 creole/parser/creol2html_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/creole/parser/creol2html_parser.py b/creole/parser/creol2html_parser.py
index dd31a44..8120aca 100644
--- a/creole/parser/creol2html_parser.py
+++ b/creole/parser/creol2html_parser.py
@@ -130,6 +130,10 @@ class CreoleParser:
             # use wikipedia style line breaks and seperate a new line with one space
             text = " " + text
 
+        elif self.cur.kind == 'list_item' and self.cur.children:
+            # the line continues the list item
+            DocNode('break', self.cur, "")
+
         self.parse_inline(text)
 
         if groups.get('break') and self.cur.kind in ('paragraph',
-- 
2.43.0


From c4034ac2913d805e3da2c88633b55f085fe725d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:51 +0000
Subject: [PATCH 009/122] fix: with wiki style line breaks a block element
 after a text line, and all table rows but the first, were not recognized

---
 creole/parser/creol2html_rules.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index 07754c9..a4e471a 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -156,7 +156,14 @@ class BlockRules:
             self.text = r'(?P<text> .+ ) (?P<break> (?<!\\)$\n(?!\s*$) )?'
         else:
             # use wiki style line breaks, seperate lines with one space
-            self.text = r'(?P<space> (?<!\\)$\n(?!\s*$) )? (?P<text> .+ )'
+            # a line break before a new block element doesn't belong to the text
+            next_block = '|'.join(
+                re.sub(r'\(\?P([<=])', r'(?P\1next_', rule) for rule in (
+                    self.macro_block, self.head, self.separator,
+                    self.pre_block, self.list, self.table,
+                )
+            )
+            self.text = r'(?P<space> (?<!\\)$\n(?!\s*$)(?! %s ) )? (?P<text> .+ )' % next_block
 
         self.rules = (
             self.macro_block,
-- 
2.43.0


From 6c67f2d5781043c0912efaf6adeacc06d94449b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:24 +0000
Subject: [PATCH 010/122] fix: a list of the other kind on the same level was
 nested into the last item of the list before

---
 creole/parser/creol2html_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/creole/parser/creol2html_parser.py b/creole/parser/creol2html_parser.py
index 8120aca..8e13341 100644
--- a/creole/parser/creol2html_parser.py
+++ b/creole/parser/creol2html_parser.py
@@ -288,6 +288,9 @@ class CreoleParser:
         if lst and lst.kind == kind:
             self.cur = lst
         else:
+            if lst.kind in ('number_list', 'bullet_list'):
+                # The other kind of list on the same level: close it
+                self.cur = lst.parent
             # Create a new level of list
             self.cur = self._upto(self.cur,
                                   ('list_item', 'document', 'section', 'blockquote'))
-- 
2.43.0


From 636675339ec0188ee5d503365e88f29011790b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:03 +0000
Subject: [PATCH 011/122] fix: an empty table cell was dropped and shifted the
 cells after it

README.rst and README.md are generated again: the second column of the
status table was lost in them.
---
 README.md                          | 10 +++++-----
 README.rst                         | 20 ++++++++++----------
 creole/parser/creol2html_parser.py |  2 +-
 creole/parser/creol2html_rules.py  |  2 +-
 4 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/README.md b/README.md
index 047689f..5f1fd95 100644
--- a/README.md
+++ b/README.md
@@ -21,10 +21,10 @@ Existing converters:
 
 The creole2html part based on the creole markup parser and emitter from the MoinMoin project by Radomir Dopieralski and Thomas Waldmann.
 
-| ![Build Status on github](https://github.com/jedie/python-creole/workflows/test/badge.svg?branch=master "Build Status on github") |
-| ![Coverage Status on coveralls.io](https://coveralls.io/repos/jedie/python-creole/badge.svg "Coverage Status on coveralls.io")    |
-| ![Status on landscape.io](https://landscape.io/github/jedie/python-creole/main/landscape.svg "Status on landscape.io")            |
-| ![PyPi version](https://badge.fury.io/py/python-creole.svg "PyPi version")                                                        |
+| ![Build Status on github](https://github.com/jedie/python-creole/workflows/test/badge.svg?branch=master "Build Status on github") |                                                                                                          |
+| ![Coverage Status on coveralls.io](https://coveralls.io/repos/jedie/python-creole/badge.svg "Coverage Status on coveralls.io")    | [coveralls.io/r/jedie/python-creole](https://coveralls.io/r/jedie/python-creole)                         |
+| ![Status on landscape.io](https://landscape.io/github/jedie/python-creole/main/landscape.svg "Status on landscape.io")            | [landscape.io/github/jedie/python-creole/master](https://landscape.io/github/jedie/python-creole/master) |
+| ![PyPi version](https://badge.fury.io/py/python-creole.svg "PyPi version")                                                        | [pypi.org/project/python-creole/](https://pypi.org/project/python-creole/)                               |
 
 # install
 
@@ -439,4 +439,4 @@ first source code was written 27.11.2008: [Forum thread (de)](http://www.python-
 
 ------------
 
-``Note: this file is generated from README.creole 2022-08-23 07:57:12 with "python-creole"``
\ No newline at end of file
+``Note: this file is generated from README.creole 2023-08-24 15:49:20 with "python-creole"``
\ No newline at end of file
diff --git a/README.rst b/README.rst
index 4f70129..06c1dbf 100644
--- a/README.rst
+++ b/README.rst
@@ -27,15 +27,15 @@ Existing converters:
 
 The creole2html part based on the creole markup parser and emitter from the MoinMoin project by Radomir Dopieralski and Thomas Waldmann.
 
-+-----------------------------------+
-| |Build Status on github|          |
-+-----------------------------------+
-| |Coverage Status on coveralls.io| |
-+-----------------------------------+
-| |Status on landscape.io|          |
-+-----------------------------------+
-| |PyPi version|                    |
-+-----------------------------------+
++-----------------------------------+---------------------------------------------------+
+| |Build Status on github|          |                                                   |
++-----------------------------------+---------------------------------------------------+
+| |Coverage Status on coveralls.io| | `coveralls.io/r/jedie/python-creole`_             |
++-----------------------------------+---------------------------------------------------+
+| |Status on landscape.io|          | `landscape.io/github/jedie/python-creole/master`_ |
++-----------------------------------+---------------------------------------------------+
+| |PyPi version|                    | `pypi.org/project/python-creole/`_                |
++-----------------------------------+---------------------------------------------------+
 
 .. |Build Status on github| image:: https://github.com/jedie/python-creole/workflows/test/badge.svg?branch=master
 .. |Coverage Status on coveralls.io| image:: https://coveralls.io/repos/jedie/python-creole/badge.svg
@@ -710,4 +710,4 @@ donation
 
 ------------
 
-``Note: this file is generated from README.creole 2022-08-23 07:57:12 with "python-creole"``
\ No newline at end of file
+``Note: this file is generated from README.creole 2023-08-24 15:49:20 with "python-creole"``
\ No newline at end of file
diff --git a/creole/parser/creol2html_parser.py b/creole/parser/creol2html_parser.py
index 8e13341..e0958ab 100644
--- a/creole/parser/creol2html_parser.py
+++ b/creole/parser/creol2html_parser.py
@@ -326,7 +326,7 @@ class CreoleParser:
 
         for m in self.cell_re.finditer(row):
             cell = m.group('cell')
-            if cell:
+            if cell is not None:
                 text = cell.strip()
                 self.cur = DocNode('table_cell', tr)
                 self.text = None
diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index a4e471a..d315826 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -188,7 +188,7 @@ class SpecialRules:
             \| \s*
             (
                 (?P<head> [=][^|]+ ) |
-                (?P<cell> (  %s | [^|])+ )
+                (?P<cell> (  %s | [^|])+ | (?=\|) )
             ) \s*
         ''' % '|'.join([
         InlineRules.link,
-- 
2.43.0


From 168ee46245584cab99be64cbaf95d61b9d3d6dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 012/122] fix: cells of table rows with different lengths were
 dropped

---
 creole/shared/markup_table.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/creole/shared/markup_table.py b/creole/shared/markup_table.py
index 70611c2..98ac941 100644
--- a/creole/shared/markup_table.py
+++ b/creole/shared/markup_table.py
@@ -50,6 +50,11 @@ class MarkupTable:
                 line_cells.append(cell)
             cells.append(line_cells)
 
+        # Fill up short rows: every row gets the same number of cells
+        column_count = max(map(len, cells), default=0)
+        for line_cells in cells:
+            line_cells += [""] * (column_count - len(line_cells))
+
         # Build a list of max len for every column
         widths = [max(map(len, col)) for col in zip(*cells)]
 
-- 
2.43.0


From 2607da2cf0bbb08af9aad54b08e5d450e45ea739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 013/122] fix: a table column with only empty cells made
 invalid ReSt and Markdown tables

---
 creole/shared/markup_table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/shared/markup_table.py b/creole/shared/markup_table.py
index 98ac941..9a844c2 100644
--- a/creole/shared/markup_table.py
+++ b/creole/shared/markup_table.py
@@ -55,8 +55,8 @@ class MarkupTable:
         for line_cells in cells:
             line_cells += [""] * (column_count - len(line_cells))
 
-        # Build a list of max len for every column
-        widths = [max(map(len, col)) for col in zip(*cells)]
+        # Build a list of max len for every column (a empty column is not valid in ReSt and Markdown)
+        widths = [max(3, *map(len, col)) for col in zip(*cells)]
 
         return cells, widths
 
-- 
2.43.0


From 57fb6a4f760026422a4dd7447fcf5ea97a6024e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 014/122] fix: a empty table head cell became a normal cell
 with a equal sign

---
 creole/shared/markup_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/creole/shared/markup_table.py b/creole/shared/markup_table.py
index 9a844c2..633b9df 100644
--- a/creole/shared/markup_table.py
+++ b/creole/shared/markup_table.py
@@ -41,9 +41,10 @@ class MarkupTable:
         for row in self.rows:
             line_cells = []
             for cell in row:
+                is_head = self.head_prefix and cell.startswith(self.head_prefix)
                 cell = cell.strip()
                 if cell != "":
-                    if self.head_prefix and cell.startswith(self.head_prefix):
+                    if is_head:
                         cell += " "  # Headline
                     else:
                         cell = f" {cell} "  # normal cell
-- 
2.43.0


From de5bc09ea513123f27ef34c1a54e5e3f13afc30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:33 +0000
Subject: [PATCH 015/122] fix: nested tables lost cells of the outer table and
 cells outside of a table crashed

---
 creole/emitter/html2markdown_emitter.py | 8 ++++++++
 creole/emitter/html2rest_emitter.py     | 2 ++
 creole/shared/base_emitter.py           | 9 +++++++++
 3 files changed, 19 insertions(+)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index b9bf8a0..b6bb236 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -45,21 +45,29 @@ class MarkdownEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
     def table_emit(self, node):
+        outer_table = self._table
         self._table = MarkupTable(head_prefix='', debug_msg=self.debug_msg)
         self.emit_children(node)
         content = self._table.get_markdown_table()
+        self._table = outer_table
         return f'\n{content}\n'
 
     def tr_emit(self, node):
+        if self._table is None:  # not in a table
+            return self._emit_content(node)
         self._table.add_tr()
         self.emit_children(node)
         return ''
 
     def th_emit(self, node):
+        if self._table is None:  # not in a table
+            return self._emit_content(node)
         self._table.add_th(self.emit_children(node))
         return ''
 
     def td_emit(self, node):
+        if self._table is None:  # not in a table
+            return self._emit_content(node)
         self._table.add_td(self.emit_children(node))
         return ''
     # --------------------------------------------------------------------------
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 64891ca..5d80dd5 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -282,6 +282,7 @@ class ReStructuredTextEmitter(BaseEmitter):
         """
         http://docutils.sourceforge.net/docs/ref/rst/restructuredtext.html#tables
         """
+        outer_table = self._table
         self._table = MarkupTable(
             head_prefix="",
             auto_width=True,
@@ -289,4 +290,5 @@ class ReStructuredTextEmitter(BaseEmitter):
         )
         self.emit_children(node)
         content = self._table.get_rest_table()
+        self._table = outer_table
         return f"{content}\n\n"
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 35d7f88..47c1501 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -34,6 +34,7 @@ class BaseEmitter:
         self.deentity = Deentity()  # for replacing html entities
         self._inner_list = ""
         self._mask_linebreak = False
+        self._table = None  # The current MarkupTable
 
     # --------------------------------------------------------------------------
 
@@ -125,6 +126,7 @@ class BaseEmitter:
     # --------------------------------------------------------------------------
 
     def table_emit(self, node):
+        outer_table = self._table
         self._table = MarkupTable(
             head_prefix=self.table_head_prefix,
             auto_width=self.table_auto_width,
@@ -132,9 +134,12 @@ class BaseEmitter:
         )
         self.emit_children(node)
         content = self._table.get_table_markup()
+        self._table = outer_table
         return f"{content}\n"
 
     def tr_emit(self, node):
+        if self._table is None:  # not in a table
+            return self._emit_content(node)
         self._table.add_tr()
         self.emit_children(node)
         return ""
@@ -149,12 +154,16 @@ class BaseEmitter:
         return content
 
     def th_emit(self, node):
+        if self._table is None:  # not in a table
+            return self._emit_content(node)
         content = self.emit_children(node)
         content = self._escape_linebreaks(content)
         self._table.add_th(content)
         return ""
 
     def td_emit(self, node):
+        if self._table is None:  # not in a table
+            return self._emit_content(node)
         content = self.emit_children(node)
         content = self._escape_linebreaks(content)
         self._table.add_td(content)
-- 
2.43.0


From 7ca34f68687bbd800146cf66c2109598f6944282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:52 +0000
Subject: [PATCH 016/122] fix: a line break in a table cell broke Markdown
 tables

---
 creole/emitter/html2markdown_emitter.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index b6bb236..666c41c 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -59,16 +59,21 @@ class MarkdownEmitter(BaseEmitter):
         self.emit_children(node)
         return ''
 
+    def _escape_linebreaks(self, text):
+        # A table row must be one line
+        lines = [line.strip() for line in text.split('\n')]
+        return '<br />'.join(line for line in lines if line)
+
     def th_emit(self, node):
         if self._table is None:  # not in a table
             return self._emit_content(node)
-        self._table.add_th(self.emit_children(node))
+        self._table.add_th(self._escape_linebreaks(self.emit_children(node)))
         return ''
 
     def td_emit(self, node):
         if self._table is None:  # not in a table
             return self._emit_content(node)
-        self._table.add_td(self.emit_children(node))
+        self._table.add_td(self._escape_linebreaks(self.emit_children(node)))
         return ''
     # --------------------------------------------------------------------------
 
-- 
2.43.0


From 78c62a29d6ed9df8107184e6c88177263ea16501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 017/122] fix: block elements and backslashes inside of a div
 or an unknown tag were mangled

The line breaks between them became forced line breaks.
---
 creole/emitter/html2markdown_emitter.py | 3 +--
 creole/shared/base_emitter.py           | 5 ++++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 666c41c..f5d1574 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -218,8 +218,7 @@ class MarkdownEmitter(BaseEmitter):
         return node.content
 
     def code_emit(self, node: DocNode):
-        code_block = self._emit_content(node)
-        assert '\n' not in code_block
+        code_block = ' '.join(self.emit_children(node).split('\n')).strip()
 
         if '`' in code_block:
             return f'``{code_block}``'
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 47c1501..5e5a898 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -173,7 +173,10 @@ class BaseEmitter:
 
     def _emit_content(self, node):
         content = self.emit_children(node)
-        content = self._escape_linebreaks(content)
+        if self._inner_list == "":
+            content = content.strip()
+        else:
+            content = self._escape_linebreaks(content)
         if node.kind in BLOCK_TAGS:
             content = f"{content}\n\n"
         return content
-- 
2.43.0


From 5d8130b180faf9d44d3b87978da60665f94966cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:58 +0000
Subject: [PATCH 018/122] fix: backslashes at the begin and end of a table cell
 were lost

---
 creole/shared/base_emitter.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 5e5a898..d450361 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -149,9 +149,7 @@ class BaseEmitter:
         text = text.split("\n")
         lines = [line.strip() for line in text]
         lines = [line for line in lines if line]
-        content = "\\\\".join(lines)
-        content = content.strip("\\")
-        return content
+        return "\\\\".join(lines)
 
     def th_emit(self, node):
         if self._table is None:  # not in a table
-- 
2.43.0


From 20cb1a7b2ed9f90c800f645d1c66ae7e0eb4c7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:32 +0000
Subject: [PATCH 019/122] fix: the rest of a html document was lost after an
 unmatched end tag

An end tag closes now the nearest open tag of its kind; one that was never
opened is ignored. Before, it left the document tree: everything behind e.g.
</b> or a </section> with a paragraph in it was thrown away.
---
 creole/parser/html_parser.py | 42 ++++++++++++++----------------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 0b8e171..44365f5 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -11,7 +11,7 @@ import warnings
 from html.parser import HTMLParser
 
 from creole.html_tools.strip_html import strip_html
-from creole.parser.html_parser_config import BLOCK_TAGS, IGNORE_TAGS
+from creole.parser.html_parser_config import IGNORE_TAGS
 from creole.shared.document_tree import DebugList, DocNode
 
 
@@ -159,26 +159,6 @@ class HtmlParser(HTMLParser):
 
     # -------------------------------------------------------------------------
 
-    def _upto(self, node, kinds):
-        """
-        Look up the tree to the first occurence
-        of one of the listed kinds of nodes or root.
-        Start at the node node.
-        """
-        while node is not None and node.parent is not None:
-            node = node.parent
-            if node.kind in kinds:
-                break
-
-        return node
-
-    def _go_up(self):
-        kinds = list(BLOCK_TAGS) + ["document"]
-        self.cur = self._upto(self.cur, kinds)
-        self.debug_msg("go up to", self.cur)
-
-    # -------------------------------------------------------------------------
-
     def handle_starttag(self, tag, attrs):
         self.debug_msg("starttag", f"{tag!r} atts: {attrs}")
 
@@ -243,12 +223,22 @@ class HtmlParser(HTMLParser):
 
         self.debug_msg("starttag", f"{self.get_starttag_text()!r}")
 
-        if tag in ("ul", "ol"):
-            self.__list_level -= 1
-
-        if tag in BLOCK_TAGS or self.cur is None:
-            self._go_up()
+        if headline_tag_re.match(tag):
+            kind = "headline"
         else:
+            kind = tag
+
+        # Close the nearest open tag of this kind and all tags in it.
+        node = self.cur
+        while node is not self.root and node.kind != kind:
+            node = node.parent
+        if node is self.root:
+            # A end tag without a start tag
+            return
+
+        while self.cur is not node.parent:
+            if self.cur.kind in ("ul", "ol"):
+                self.__list_level -= 1
             self.cur = self.cur.parent
 
     # -------------------------------------------------------------------------
-- 
2.43.0


From 8cfc0a5fb01fa45d350db40a4788dc1668de4cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:36 +0000
Subject: [PATCH 020/122] fix: the end of a html document was lost if it looks
 like an unfinished entity or tag

---
 creole/parser/html_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 44365f5..af6276d 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -154,6 +154,7 @@ class HtmlParser(HTMLParser):
             print("-" * 79)
 
         HTMLParser.feed(self, data)
+        self.close()  # handle the buffered rest of the data
 
         return self.root
 
-- 
2.43.0


From f0facc6cf3ea91f2fae92030100939ede1441050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:41 +0000
Subject: [PATCH 021/122] fix: text after a <hr> that is not self closed was
 lost

---
 creole/parser/html_parser.py        | 6 +++---
 creole/parser/html_parser_config.py | 5 +++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index af6276d..d1739d8 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -11,7 +11,7 @@ import warnings
 from html.parser import HTMLParser
 
 from creole.html_tools.strip_html import strip_html
-from creole.parser.html_parser_config import IGNORE_TAGS
+from creole.parser.html_parser_config import IGNORE_TAGS, VOID_TAGS
 from creole.shared.document_tree import DebugList, DocNode
 
 
@@ -177,8 +177,8 @@ class HtmlParser(HTMLParser):
             if tag in ("ul", "ol"):
                 self.__list_level += 1
             self.cur = DocNode(tag, self.cur, None, attrs, level=self.__list_level)
-        elif tag in ("img", "br"):
-            # Work-a-round if img or br  tag is not marked as startendtag:
+        elif tag in VOID_TAGS:
+            # Work-a-round if e.g. img or br tag is not marked as startendtag:
             # wrong: <img src="/image.jpg"> doesn't work if </img> not exist
             # right: <img src="/image.jpg" />
             DocNode(tag, self.cur, None, attrs)
diff --git a/creole/parser/html_parser_config.py b/creole/parser/html_parser_config.py
index 38557ed..1808872 100644
--- a/creole/parser/html_parser_config.py
+++ b/creole/parser/html_parser_config.py
@@ -19,3 +19,8 @@ BLOCK_TAGS = (
     "br"
 )
 IGNORE_TAGS = ("tbody",)
+# Tags without content and end tag:
+VOID_TAGS = (
+    "area", "base", "br", "col", "embed", "hr", "img", "input",
+    "link", "meta", "param", "source", "track", "wbr"
+)
-- 
2.43.0


From 530cf71be2cfa0fe4eed6f03ff94050508a4b55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 022/122] fix: unknown marked sections like <![foo]> crashed
 the html parser

---
 creole/parser/html_parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index d1739d8..46efa53 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -160,6 +160,13 @@ class HtmlParser(HTMLParser):
 
     # -------------------------------------------------------------------------
 
+    def parse_marked_section(self, i, report=1):
+        try:
+            return super().parse_marked_section(i, report)
+        except AssertionError:
+            # e.g.: <![foo]> - ignore it like other unknown declarations
+            return self.parse_bogus_comment(i)
+
     def handle_starttag(self, tag, attrs):
         self.debug_msg("starttag", f"{tag!r} atts: {attrs}")
 
-- 
2.43.0


From a4b951397838e474e1e9a778818810482936c2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 023/122] fix: invalid, upper case hex and HTML5 character
 references crashed or were not decoded

---
 creole/html_tools/deentity.py | 27 ++++++++++++++++++---------
 creole/shared/base_emitter.py |  2 +-
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/creole/html_tools/deentity.py b/creole/html_tools/deentity.py
index 16a7dfa..f78a211 100644
--- a/creole/html_tools/deentity.py
+++ b/creole/html_tools/deentity.py
@@ -14,8 +14,8 @@ from html import entities
 
 entities_rules = '|'.join([
     r"(&\#(?P<number>\d+);)",
-    r"(&\#x(?P<hex>[a-fA-F0-9]+);)",
-    r"(&(?P<named>[a-zA-Z]+);)",
+    r"(&\#[xX](?P<hex>[a-fA-F0-9]+);)",
+    r"(&(?P<named>[a-zA-Z][a-zA-Z0-9]*);)",
 ])
 # print(entities_rules)
 entities_regex = re.compile(
@@ -42,15 +42,22 @@ class Deentity:
     '&'
     """
 
+    def _chr(self, text, base):
+        try:
+            char = chr(int(text, base))
+        except (ValueError, OverflowError):  # not a unicode code point
+            return "\N{REPLACEMENT CHARACTER}"
+        if "\ud800" <= char <= "\udfff":  # surrogates are not characters
+            return "\N{REPLACEMENT CHARACTER}"
+        return char
+
     def replace_number(self, text):
         """ unicode number entity """
-        unicode_no = int(text)
-        return chr(unicode_no)
+        return self._chr(text, base=10)
 
     def replace_hex(self, text):
         """ hex entity """
-        unicode_no = int(text, 16)
-        return chr(unicode_no)
+        return self._chr(text, base=16)
 
     def replace_named(self, text):
         """ named entity """
@@ -58,8 +65,7 @@ class Deentity:
             # Non breaking spaces is not in htmlentitydefs
             return " "
         else:
-            codepoint = entities.name2codepoint[text]
-            return chr(codepoint)
+            return entities.html5[f"{text};"]
 
     def replace_all(self, content):
         """ replace all html entities form the given text. """
@@ -68,7 +74,10 @@ class Deentity:
             for name, text in groups.items():
                 if text is not None:
                     replace_method = getattr(self, f'replace_{name}')
-                    return replace_method(text)
+                    try:
+                        return replace_method(text)
+                    except KeyError:  # unknown named entity
+                        return match.group(0)
 
             # Should never happen:
             raise RuntimeError("deentitfy re rules wrong!")
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index d450361..11c6f10 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -70,7 +70,7 @@ class BaseEmitter:
         """
         entity = node.content
 
-        if entity.startswith("x"):
+        if entity.startswith(("x", "X")):
             # entity in hex
             hex_no = entity[1:]
             return self.deentity.replace_hex(hex_no)
-- 
2.43.0


From bb7ac7b96df52ec8bab423a972aaecb4b77f9aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:52 +0000
Subject: [PATCH 024/122] fix: a ampersand that isn't part of a known entity
 was lost or lost the text after it

---
 creole/parser/html_parser.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 46efa53..1ea176b 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -8,6 +8,7 @@
 
 import re
 import warnings
+from html.entities import html5
 from html.parser import HTMLParser
 
 from creole.html_tools.strip_html import strip_html
@@ -35,6 +36,18 @@ inline_re = re.compile(r'''
 ''', re.VERBOSE | re.UNICODE)
 
 
+# Everything that looks like a character reference (but not in script/style areas)
+reference_re = re.compile(r'''
+    <(?P<cdata>script|style)\b .*? </(?P=cdata)
+    |
+    &(?:
+        \#(?P<number> \d+ | x[a-f0-9]+ ) ;?
+        |
+        (?P<named> [a-z][a-z0-9]* ;? )
+    )?
+''', re.VERBOSE | re.ASCII | re.IGNORECASE | re.DOTALL)
+
+
 headline_tag_re = re.compile(r"h(\d)", re.UNICODE)
 
 # ------------------------------------------------------------------------------
@@ -126,6 +139,19 @@ class HtmlParser(HTMLParser):
 
 #        data = match.group("data")
 
+    def _clean_reference(self, match):
+        """
+        Mask a ampersand which isn't the begin of a character reference and
+        terminate the others: HTMLParser loses data on e.g.: "AT&T", "&foo;"
+        """
+        if match["cdata"]:
+            return match.group(0)
+        if match["number"]:
+            return f'&#{match["number"]};'
+        if match["named"] in html5:
+            return f'&{match["named"].rstrip(";")};'
+        return f'&amp;{match["named"] or ""}'
+
     def feed(self, raw_data, preprocess=True) -> DocNode:
         assert isinstance(raw_data, str), "feed data must be unicode!"
         data = raw_data.strip()
@@ -153,6 +179,7 @@ class HtmlParser(HTMLParser):
             print(data)
             print("-" * 79)
 
+        data = reference_re.sub(self._clean_reference, data)
         HTMLParser.feed(self, data)
         self.close()  # handle the buffered rest of the data
 
-- 
2.43.0


From ecdae1b2be5e133acf2e7559346b06d0d118058d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 025/122] fix: more than six equal signs made a headline tag
 that doesn't exist, e.g. <h7>

---
 creole/parser/creol2html_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/parser/creol2html_parser.py b/creole/parser/creol2html_parser.py
index e0958ab..0a7bb3d 100644
--- a/creole/parser/creol2html_parser.py
+++ b/creole/parser/creol2html_parser.py
@@ -310,7 +310,7 @@ class CreoleParser:
     def _head_repl(self, groups):
         self._upto_block()
         node = DocNode('header', self.cur, groups['head_text'].strip())
-        node.level = len(groups['head_head'])
+        node.level = min(len(groups['head_head']), 6)  # there is no <h7> in html
         self.text = None
     _head_head_repl = _head_repl
     _head_text_repl = _head_repl
-- 
2.43.0


From b9f4eeeb4cf489ddb73b662db9cbbac001190490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 026/122] fix: <h0> crashed html2rest and <h10> was taken for
 <h1>

---
 creole/parser/html_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 1ea176b..18997d3 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -48,7 +48,7 @@ reference_re = re.compile(r'''
 ''', re.VERBOSE | re.ASCII | re.IGNORECASE | re.DOTALL)
 
 
-headline_tag_re = re.compile(r"h(\d)", re.UNICODE)
+headline_tag_re = re.compile(r"h([1-9])$")
 
 # ------------------------------------------------------------------------------
 
-- 
2.43.0


From c773dcd683adf4f90aa20dbd1bf2ed4fc8ea54c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 027/122] fix: attributes without a value crashed or became the
 value null

---
 creole/parser/html_parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 18997d3..61e641c 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -194,12 +194,18 @@ class HtmlParser(HTMLParser):
             # e.g.: <![foo]> - ignore it like other unknown declarations
             return self.parse_bogus_comment(i)
 
+    def _clean_attrs(self, attrs):
+        """ The value of attributes without a value, e.g.: <option selected> is a empty string. """
+        return [(name, value or "") for name, value in attrs]
+
     def handle_starttag(self, tag, attrs):
         self.debug_msg("starttag", f"{tag!r} atts: {attrs}")
 
         if tag in IGNORE_TAGS:
             return
 
+        attrs = self._clean_attrs(attrs)
+
         headline = headline_tag_re.match(tag)
         if headline:
             self.cur = DocNode(
@@ -234,6 +240,7 @@ class HtmlParser(HTMLParser):
 
     def handle_startendtag(self, tag, attrs):
         self.debug_msg("startendtag", f"{tag!r} atts: {attrs}")
+        attrs = self._clean_attrs(attrs)
         attr_dict = dict(attrs)
         if tag in (self._block_placeholder, self._inline_placeholder):
             id = int(attr_dict["id"])
-- 
2.43.0


From 06a967f79e2706663ed51da9503bff4c3b4311b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:33 +0000
Subject: [PATCH 028/122] fix: list items that are empty or not in a list
 crashed html2rest and html2markdown

---
 creole/emitter/html2markdown_emitter.py | 7 +++----
 creole/parser/html_parser.py            | 2 ++
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index f5d1574..d8d92fe 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -197,12 +197,11 @@ class MarkdownEmitter(BaseEmitter):
 
         list_node = node.parent
         list_kind = list_node.kind
-        if list_kind == 'ul':
-            prefix = '*'
-        elif list_kind == 'ol':
+        if list_kind == 'ol':
             prefix = '1.'
         else:
-            raise NotImplementedError(f'List type: {list_kind}')
+            # Maybe also a item that is not directly in a list
+            prefix = '*'
 
         indent = '  ' * (list_level - 1)
 
diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 61e641c..1ea8355 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -251,6 +251,8 @@ class HtmlParser(HTMLParser):
                 content=self.blockdata[id],
                 #                attrs = attr_dict
             )
+        elif tag in ("li", "ul", "ol"):
+            DocNode(tag, self.cur, None, attrs, level=self.__list_level)
         else:
             DocNode(tag, self.cur, None, attrs)
 
-- 
2.43.0


From f1773e8d6b01ad9020847cfe83d9dc2af6d239f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 029/122] fix: tags with the name of a internal node, e.g.
 <data>, crashed the converters

---
 creole/parser/html_parser.py        | 23 ++++++++++++++++++++---
 creole/parser/html_parser_config.py |  5 +++++
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 1ea8355..8f90950 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -12,7 +12,7 @@ from html.entities import html5
 from html.parser import HTMLParser
 
 from creole.html_tools.strip_html import strip_html
-from creole.parser.html_parser_config import IGNORE_TAGS, VOID_TAGS
+from creole.parser.html_parser_config import IGNORE_TAGS, INTERNAL_KINDS, VOID_TAGS
 from creole.shared.document_tree import DebugList, DocNode
 
 
@@ -194,6 +194,21 @@ class HtmlParser(HTMLParser):
             # e.g.: <![foo]> - ignore it like other unknown declarations
             return self.parse_bogus_comment(i)
 
+    def _tag2kind(self, tag):
+        """ A tag must not be taken for one of our own nodes, e.g.: <data> """
+        if tag in INTERNAL_KINDS:
+            return tag.upper()
+        return tag
+
+    def _is_placeholder(self, tag, attr_dict):
+        if tag not in (self._block_placeholder, self._inline_placeholder):
+            return False
+        id = attr_dict.get("id", "")
+        return (
+            attr_dict.get("type") == "pre"
+            and id.isdecimal() and len(id) < 10 and int(id) < len(self.blockdata)
+        )
+
     def _clean_attrs(self, attrs):
         """ The value of attributes without a value, e.g.: <option selected> is a empty string. """
         return [(name, value or "") for name, value in attrs]
@@ -204,6 +219,7 @@ class HtmlParser(HTMLParser):
         if tag in IGNORE_TAGS:
             return
 
+        tag = self._tag2kind(tag)
         attrs = self._clean_attrs(attrs)
 
         headline = headline_tag_re.match(tag)
@@ -240,9 +256,10 @@ class HtmlParser(HTMLParser):
 
     def handle_startendtag(self, tag, attrs):
         self.debug_msg("startendtag", f"{tag!r} atts: {attrs}")
+        tag = self._tag2kind(tag)
         attrs = self._clean_attrs(attrs)
         attr_dict = dict(attrs)
-        if tag in (self._block_placeholder, self._inline_placeholder):
+        if self._is_placeholder(tag, attr_dict):
             id = int(attr_dict["id"])
 #            block_type = attr_dict["type"]
             DocNode(
@@ -270,7 +287,7 @@ class HtmlParser(HTMLParser):
         if headline_tag_re.match(tag):
             kind = "headline"
         else:
-            kind = tag
+            kind = self._tag2kind(tag)
 
         # Close the nearest open tag of this kind and all tags in it.
         node = self.cur
diff --git a/creole/parser/html_parser_config.py b/creole/parser/html_parser_config.py
index 1808872..d30d910 100644
--- a/creole/parser/html_parser_config.py
+++ b/creole/parser/html_parser_config.py
@@ -24,3 +24,8 @@ VOID_TAGS = (
     "area", "base", "br", "col", "embed", "hr", "img", "input",
     "link", "meta", "param", "source", "track", "wbr"
 )
+# Kinds of document tree nodes that are not a html tag:
+INTERNAL_KINDS = (
+    "document", "data", "entityref", "charref", "headline",
+    "blockdata_pre", "blockdata_pass", "inlinedata_pre",
+)
-- 
2.43.0


From 7a0c5de6671d6cd87cd6e47c2c33c45a1e60b111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 030/122] fix: anchors without href crashed html2rest,
 html2textile and html2markdown

---
 creole/emitter/html2markdown_emitter.py | 6 +++++-
 creole/emitter/html2rest_emitter.py     | 6 +++++-
 creole/emitter/html2textile_emitter.py  | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index d8d92fe..3b44d2f 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -163,7 +163,11 @@ class MarkdownEmitter(BaseEmitter):
     def a_emit(self, node: DocNode):
         link_text = self.emit_children(node)
 
-        url = quote_link(node.attrs['href'])
+        try:
+            url = quote_link(node.attrs['href'])
+        except KeyError:
+            # e.g.: <a name="anchor-one">foo</a>
+            return link_text
 
         title = node.attrs.get('title')
         if title:
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 5d80dd5..6ea8a4f 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -203,7 +203,11 @@ class ReStructuredTextEmitter(BaseEmitter):
 
     def a_emit(self, node):
         link_text = self.emit_children(node)
-        url = node.attrs["href"]
+        try:
+            url = node.attrs["href"]
+        except KeyError:
+            # e.g.: <a name="anchor-one">foo</a>
+            return link_text
 
         old_url = self._get_old_substitution(self._used_substitution_links, link_text, url)
 
diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index 89623d4..5fe3908 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -96,7 +96,11 @@ class TextileEmitter(BaseEmitter):
 
     def a_emit(self, node):
         link_text = self.emit_children(node)
-        url = node.attrs["href"]
+        try:
+            url = node.attrs["href"]
+        except KeyError:
+            # e.g.: <a name="anchor-one">foo</a>
+            return link_text
         return f'"{link_text}":{url}'
 
     def img_emit(self, node):
-- 
2.43.0


From 82bc4dd36a04a34d8dc5ffce51c09628a7411bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 031/122] fix: images without src crashed all html converters

---
 creole/emitter/html2creole_emitter.py   | 4 +++-
 creole/emitter/html2markdown_emitter.py | 4 +++-
 creole/emitter/html2rest_emitter.py     | 4 +++-
 creole/emitter/html2textile_emitter.py  | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/creole/emitter/html2creole_emitter.py b/creole/emitter/html2creole_emitter.py
index d745fe3..5526601 100644
--- a/creole/emitter/html2creole_emitter.py
+++ b/creole/emitter/html2creole_emitter.py
@@ -108,7 +108,9 @@ class CreoleEmitter(BaseEmitter):
             return f"[[{url}|{link_text}]]"
 
     def img_emit(self, node):
-        src = node.attrs["src"]
+        src = node.attrs.get("src", "")
+        if not src:  # there is no image, e.g. it is lazy loaded
+            return node.attrs.get("alt", "")
 
         if src.split(':')[0] == 'data':
             return ""
diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 3b44d2f..6ce75bc 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -176,7 +176,9 @@ class MarkdownEmitter(BaseEmitter):
             return f'[{link_text}]({url})'
 
     def img_emit(self, node: DocNode):
-        src = quote_link(node.attrs['src'])
+        src = quote_link(node.attrs.get('src', ''))
+        if not src:  # there is no image, e.g. it is lazy loaded
+            return node.attrs.get('alt', '')
 
         title = node.attrs.get('title')
         alt = node.attrs.get('alt', '')
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 6ea8a4f..05ace11 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -228,7 +228,9 @@ class ReStructuredTextEmitter(BaseEmitter):
             return f"`{link_text} <{url}>`_"
 
     def img_emit(self, node):
-        src = node.attrs["src"]
+        src = node.attrs.get("src", "")
+        if not src:  # there is no image, e.g. it is lazy loaded
+            return node.attrs.get("alt", "")
 
         if src.split(':')[0] == 'data':
             return ""
diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index 5fe3908..35d7bc4 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -104,7 +104,9 @@ class TextileEmitter(BaseEmitter):
         return f'"{link_text}":{url}'
 
     def img_emit(self, node):
-        src = node.attrs["src"]
+        src = node.attrs.get("src", "")
+        if not src:  # there is no image, e.g. it is lazy loaded
+            return node.attrs.get("alt", "")
 
         if src.split(':')[0] == 'data':
             return ""
-- 
2.43.0


From 4169a9ea25d3c504573a384765402d8713f67cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:00 +0000
Subject: [PATCH 032/122] fix: html2markdown changed percent-encoded urls and
 crashed on invalid ones

---
 creole/emitter/html2markdown_emitter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 6ce75bc..b95cf72 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -24,9 +24,12 @@ def quote_link(uri):
     >>> quote_link('https://foo.tld/a image.png?bar=1#anchor')
     'https://foo.tld/a%20image.png?bar=1#anchor'
     """
-    scheme, netloc, url, params, query, fragment = urlparse(uri)
-    url = quote(url)
-    return urlunparse(ParseResult(scheme, netloc, url, params, query, fragment))
+    safe = "/%:@!$&'*+,;=?~"  # "%": keep existing percent-encoding
+    try:
+        scheme, netloc, *parts = urlparse(uri)
+    except ValueError:  # not a valid url, e.g.: "http://[foo"
+        return quote(uri, safe=safe)
+    return urlunparse(ParseResult(scheme, netloc, *(quote(part, safe=safe) for part in parts)))
 
 
 class MarkdownEmitter(BaseEmitter):
-- 
2.43.0


From 580c67a64ee660585783ff05b7acbe5b1ead02ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:05 +0000
Subject: [PATCH 033/122] fix: html2markdown lost parts of or crashed on the
 content of <pre><code> areas

It also printed debug output.
---
 creole/emitter/html2markdown_emitter.py | 39 ++++++++++++++-----------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index b95cf72..ae639fb 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -8,14 +8,19 @@
     :license: GNU GPL v3 or above, see LICENSE for more details.
 
 """
+import re
 from urllib.parse import ParseResult, quote, urlparse, urlunparse
 
-from creole.parser.html_parser import HtmlParser
 from creole.shared.base_emitter import BaseEmitter
 from creole.shared.document_tree import DocNode
 from creole.shared.markup_table import MarkupTable
 
 
+# <pre><code>...</code></pre>
+pre_code_re = re.compile(r'\s*<code(?P<attrs>\s[^>]*)?>(?P<code>.*)</code>\s*$', re.DOTALL)
+language_re = re.compile(r'''\sclass=["']language-(?P<language>[^"'>]+)["']''')
+
+
 def quote_link(uri):
     """
     >>> quote_link('http://foo.tld/a image with spaces.png')
@@ -82,28 +87,28 @@ class MarkdownEmitter(BaseEmitter):
 
     def blockdata_pre_emit(self, node: DocNode):
         """pre block -> with newline at the end"""
-        return f'```{self.deentity.replace_all(node.content)}```\n'
+        return self._code_block(node.content)
 
     def inlinedata_pre_emit(self, node: DocNode):
-        """a pre inline block -> no newline at the end"""
-        pre_content = node.content
+        """a pre inline block"""
+        return f'\n{self._code_block(node.content)}'
 
-        if pre_content.endswith('</code>'):
-            # TODO: The parser should parse this!
-            p = HtmlParser(debug=True)
-            root_node: DocNode = p.feed(pre_content, preprocess=False)
-            code_node: DocNode = root_node.children[0]
-            code = self.deentity.replace_all(code_node.children[0].content)
+    def _code_block(self, code):
+        language = ''
 
-            class_value = code_node.attrs.get('class')
-            if class_value:
-                if class_value.startswith('language-'):
-                    language = class_value.partition('-')[2]
-                    return f'\n```{language}{code}```\n'
+        match = pre_code_re.match(code)
+        if match:
+            language_match = language_re.search(match['attrs'] or '')
+            if language_match:
+                language = language_match['language']
+            code = re.sub(r'<[^>]*>', '', match['code'])  # remove e.g. syntax highlighting
 
-            return f'\n```{code}```\n'
+        code = self.deentity.replace_all(code).strip('\n')
 
-        return f'\n```{self.deentity.replace_all(pre_content)}```\n'
+        fence = '```'
+        while fence in code:
+            fence += '`'
+        return f'{fence}{language}\n{code}\n{fence}\n'
 
     def blockdata_pass_emit(self, node: DocNode):
         return f'\n{node.content}\n'
-- 
2.43.0


From ab5d43e2e48c93607eb083984eb0adb4c9d1c627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 034/122] fix: attributes of masked unknown tags were written
 as JSON and not as html

---
 creole/shared/unknown_tags.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/creole/shared/unknown_tags.py b/creole/shared/unknown_tags.py
index e08492f..e19a612 100644
--- a/creole/shared/unknown_tags.py
+++ b/creole/shared/unknown_tags.py
@@ -11,10 +11,15 @@
 from xml.sax.saxutils import escape
 
 
+def _get_attrs(node):
+    """ the attributes of the node as html code """
+    return "".join(
+        f""" {name}="{escape(value, {'"': '&quot;'})}\"""" for name, value in sorted(node.attrs.items())
+    )
+
+
 def _mask_content(emitter, node, mask_tag):
-    attrs = node.get_attrs_as_string()
-    if attrs:
-        attrs = " " + attrs
+    attrs = _get_attrs(node)
 
     tag_data = {
         "tag": node.kind,
@@ -69,9 +74,7 @@ def escape_unknown_nodes(emitter, node):
 
     All unknown tags should be escaped.
     """
-    attrs = node.get_attrs_as_string()
-    if attrs:
-        attrs = " " + attrs
+    attrs = _get_attrs(node)
 
     tag_data = {
         "tag": node.kind,
-- 
2.43.0


From 2c48c180ac32b8be16b853935994436a328d0deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:43 +0000
Subject: [PATCH 035/122] fix: words were glued together if there is a tab
 between a tag and the text

---
 creole/html_tools/strip_html.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/html_tools/strip_html.py b/creole/html_tools/strip_html.py
index 39613cc..77c6f64 100644
--- a/creole/html_tools/strip_html.py
+++ b/creole/html_tools/strip_html.py
@@ -71,8 +71,8 @@ def strip_html(html_code):
         if tag in BLOCK_TAGS:
             return block.strip()
 
-        space_start = block.startswith(" ")
-        space_end = block.endswith(" ")
+        space_start = block[0].isspace()
+        space_end = block[-1].isspace()
 
         result = block.strip()
 
-- 
2.43.0


From 5a182b7f88f0425b56582151e0c5b4fc1fe4603a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 036/122] fix: <ins> was handled as a block tag: the spaces
 around it were lost

---
 creole/parser/html_parser_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/parser/html_parser_config.py b/creole/parser/html_parser_config.py
index d30d910..e19cc0e 100644
--- a/creole/parser/html_parser_config.py
+++ b/creole/parser/html_parser_config.py
@@ -13,7 +13,7 @@ BLOCK_TAGS = (
     "address", "blockquote", "center", "dir", "div", "dl", "fieldset",
     "form",
     "h1", "h2", "h3", "h4", "h5", "h6",
-    "hr", "ins", "isindex", "men", "noframes", "noscript",
+    "hr", "isindex", "men", "noframes", "noscript",
     "ul", "ol", "li", "table", "th", "tr", "td",
     "p", "pre",
     "br"
-- 
2.43.0


From dcfb432b0deaa45136b7f4213cdbca0b6a9e5837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 037/122] fix: text directly before or after a block element
 was glued to it

e.g.: 'foo<p>bar</p>' became 'foobar'
---
 creole/shared/base_emitter.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 11c6f10..f4d0fa8 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -14,6 +14,12 @@ from creole.shared.markup_table import MarkupTable
 from creole.shared.unknown_tags import transparent_unknown_nodes
 
 
+# block elements that are separated from the text before and after them
+SEPARATED_KINDS = ("headline",) + tuple(
+    tag for tag in BLOCK_TAGS if tag not in ("br", "li", "th", "tr", "td", "pre")
+)
+
+
 class BaseEmitter:
     """
     Build from a document_tree (html2creole.parser.HtmlParser instance) a
@@ -199,12 +205,22 @@ class BaseEmitter:
         """Emit all the children of a node."""
         self.last = node
         result = []
+        last_child = None
         for child in node.children:
             content = self.emit_node(child)
             assert isinstance(content, str)
-            result.append(content)
+            if content:
+                if last_child is not None and self._must_separate(last_child, child):
+                    if not result[-1].endswith("\n") and not content.startswith("\n"):
+                        # e.g.: "text<p>paragraph</p>": don't glue the words together
+                        result.append("\\\\" if self._inner_list else "\n\n")
+                result.append(content)
+                last_child = child
         return result
 
+    def _must_separate(self, node1, node2):
+        return node1.kind in SEPARATED_KINDS or node2.kind in SEPARATED_KINDS
+
     def emit_node(self, node):
         """Emit a single node."""
         def unicode_error(method_name, method, node, content):
-- 
2.43.0


From 9a92a68b6516999180110922249e316af4ee38b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:51 +0000
Subject: [PATCH 038/122] fix: html2markdown removed the space between two
 inline tags

---
 creole/emitter/html2markdown_emitter.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index ae639fb..0d79d49 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -11,6 +11,7 @@
 import re
 from urllib.parse import ParseResult, quote, urlparse, urlunparse
 
+from creole.parser.html_parser_config import BLOCK_TAGS
 from creole.shared.base_emitter import BaseEmitter
 from creole.shared.document_tree import DocNode
 from creole.shared.markup_table import MarkupTable
@@ -21,6 +22,10 @@ pre_code_re = re.compile(r'\s*<code(?P<attrs>\s[^>]*)?>(?P<code>.*)</code>\s*$',
 language_re = re.compile(r'''\sclass=["']language-(?P<language>[^"'>]+)["']''')
 
 
+# Nodes that start on a new line
+BLOCK_KINDS = BLOCK_TAGS + ('headline', 'blockdata_pre', 'inlinedata_pre')
+
+
 def quote_link(uri):
     """
     >>> quote_link('http://foo.tld/a image with spaces.png')
@@ -225,11 +230,19 @@ class MarkdownEmitter(BaseEmitter):
     # --------------------------------------------------------------------------
     def data_emit(self, node: DocNode):
         content = node.content
-        if content == ' ':
+        if content == ' ' and not self._is_between_inline(node):
             # FIXME: Because of bug in creole.html_tools.strip_html.strip_html()
             return ''
         return node.content
 
+    def _is_between_inline(self, node: DocNode):
+        siblings = node.parent.children
+        index = siblings.index(node)
+        neighbours = siblings[max(index - 1, 0):index] + siblings[index + 1:index + 2]
+        return len(neighbours) == 2 and not any(
+            neighbour.kind in BLOCK_KINDS for neighbour in neighbours
+        )
+
     def code_emit(self, node: DocNode):
         code_block = ' '.join(self.emit_children(node).split('\n')).strip()
 
-- 
2.43.0


From ff3ce106874b9d39948612c164212f8f05f017fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:25 +0000
Subject: [PATCH 039/122] fix: a stale, truncated or missing README was
 reported as up-to-date

The generated text was compared with zip(), so a README that is shorter
or longer than the new text counts as unchanged. A README that doesn't
exist yet crashed and the files were read and written with the locale
encoding.
---
 creole/setup_utils.py | 95 ++++++++++++++++---------------------------
 1 file changed, 36 insertions(+), 59 deletions(-)

diff --git a/creole/setup_utils.py b/creole/setup_utils.py
index 2b716ea..ce6641e 100644
--- a/creole/setup_utils.py
+++ b/creole/setup_utils.py
@@ -105,8 +105,7 @@ def get_long_description(package_root, filename='README.creole', raise_errors=No
 
 
 def _generate_rst_readme(*, creole_readme_path):
-    with creole_readme_path.open('r') as f:
-        creole_readme = f.read().strip()
+    creole_readme = creole_readme_path.read_text(encoding='utf-8').strip()
 
     # convert creole into html
     html_readme = creole2html(creole_readme)
@@ -131,7 +130,7 @@ def _generate_markdown_readme(*, creole_readme_path):
 
     # convert creole into html
     html_readme = creole2html(creole_readme)
-    creole_readme_path.with_suffix('.html').write_text(html_readme)
+    creole_readme_path.with_suffix('.html').write_text(html_readme, encoding='utf-8')
 
     # convert html to Markdown
     markdown_readme = html2markdown(
@@ -144,6 +143,31 @@ def _generate_markdown_readme(*, creole_readme_path):
     return markdown_readme
 
 
+def _remove_note(content):
+    """ remove note about generation with modification time """
+    return content.rsplit('\n', 4)[0]
+
+
+def _write_readme(*, readme_path, readme, creole_readme_path):
+    if readme_path.is_file():
+        # Check if content was changed
+        old_content = readme_path.read_text(encoding='utf-8')
+        if _remove_note(old_content) == readme:
+            # The existing README is up-to-date: Don't change the timestamp
+            print('nothing changed, ok.')
+            return
+
+    # Add a note about generation with modification time from source:
+    modification_time = creole_readme_path.stat().st_mtime
+    dt = datetime.datetime.fromtimestamp(modification_time)
+    dt = dt.replace(microsecond=0)
+    dt = dt.isoformat(sep=' ')
+    note = f'``Note: this file is generated from {creole_readme_path.name} {dt} with "python-creole"``'
+
+    readme_path.write_bytes(f'{readme}\n\n------------\n\n{note}'.encode('utf-8'))
+    print('done.')
+
+
 def update_rst_readme(package_root, filename='README.creole'):
     """
     Generate README.rst from README.creole
@@ -161,33 +185,9 @@ def update_rst_readme(package_root, filename='README.creole'):
 
     rest_readme = _generate_rst_readme(creole_readme_path=creole_readme_path)
 
-    # Check if content was changed
-    changed = False
-    with rest_readme_path.open('r') as f:
-        for new_line, old_line in zip(rest_readme.splitlines(), f):
-            if new_line.rstrip() != old_line.rstrip():
-                changed = True
-                break
-
-    if not changed:
-        # The existing README.rst is up-to-date: Don't change the timestamp
-        print('nothing changed, ok.')
-        return rest_readme_path
-
-    with rest_readme_path.open('w') as f:
-        f.write(rest_readme)
-
-        # Add a note about generation with modification time from source:
-
-        f.write('\n\n------------\n\n')
-
-        modification_time = creole_readme_path.stat().st_mtime
-        dt = datetime.datetime.fromtimestamp(modification_time)
-        dt = dt.replace(microsecond=0)
-        dt = dt.isoformat(sep=' ')
-        f.write(f'``Note: this file is generated from {filename} {dt} with "python-creole"``')
-
-    print('done.')
+    _write_readme(
+        readme_path=rest_readme_path, readme=rest_readme, creole_readme_path=creole_readme_path
+    )
     return rest_readme_path
 
 
@@ -209,33 +209,10 @@ def update_markdown_readme(package_root, filename='README.creole'):
 
     markdown_readme = _generate_markdown_readme(creole_readme_path=creole_readme_path)
 
-    # # Check if content was changed
-    changed = False
-    with markdown_readme_path.open('r') as f:
-        for new_line, old_line in zip(markdown_readme.splitlines(), f):
-            if new_line.rstrip() != old_line.rstrip():
-                changed = True
-                break
-
-    if not changed:
-        # The existing README.rst is up-to-date: Don't change the timestamp
-        print('nothing changed, ok.')
-        return markdown_readme_path
-
-    with markdown_readme_path.open('w') as f:
-        f.write(markdown_readme)
-
-        # Add a note about generation with modification time from source:
-
-        f.write('\n\n------------\n\n')
-
-        modification_time = creole_readme_path.stat().st_mtime
-        dt = datetime.datetime.fromtimestamp(modification_time)
-        dt = dt.replace(microsecond=0)
-        dt = dt.isoformat(sep=' ')
-        f.write(f'``Note: this file is generated from {filename} {dt} with "python-creole"``')
-
-    print('done.')
+    _write_readme(
+        readme_path=markdown_readme_path, readme=markdown_readme,
+        creole_readme_path=creole_readme_path
+    )
     return markdown_readme_path
 
 
@@ -249,7 +226,7 @@ def assert_rst_readme(package_root, filename='README.creole'):
     content = rest_readme_path.read_text(encoding='UTF-8')
 
     assert len(content) > 0, f'Empty content in {rest_readme_path}'
-    content = content.rsplit('\n', 4)[0]  # remove note about generation with modification time
+    content = _remove_note(content)
 
     if rest_readme != content:
         diff = unified_diff(content, rest_readme, filename=rest_readme_path.name)
@@ -266,7 +243,7 @@ def assert_markdown_readme(package_root, filename='README.creole'):
     content = markdown_readme_path.read_text(encoding='UTF-8')
 
     assert len(content) > 0, f'Empty content in {markdown_readme_path}'
-    content = content.rsplit('\n', 4)[0]  # remove note about generation with modification time
+    content = _remove_note(content)
 
     if markdown_readme != content:
         diff = unified_diff(content, markdown_readme, filename=markdown_readme_path.name)
-- 
2.43.0


From b9c891fd3f8f7dcc9686d02ffb334db3b801fd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:47 +0000
Subject: [PATCH 040/122] fix: rest2html wrote end tags of divs that were never
 opened

The div start tags of directives and line blocks are ignored, but not
their end tags. The ids of a definition list item were written as an
attribute with the name "ids".
---
 creole/rest_tools/clean_writer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/creole/rest_tools/clean_writer.py b/creole/rest_tools/clean_writer.py
index d71525c..1f37051 100644
--- a/creole/rest_tools/clean_writer.py
+++ b/creole/rest_tools/clean_writer.py
@@ -42,11 +42,12 @@ DEBUG = False
 #DEBUG = True
 
 IGNORE_ATTR = (
-    "start", "class", "classes", "frame", "rules",
+    "start", "class", "classes", "frame", "rules", "ids",
 )
 IGNORE_TAGS = (
     "div",
 )
+IGNORE_END_TAGS = tuple(f"</{tagname}>\n" for tagname in IGNORE_TAGS)
 
 
 class CleanHTMLWriter(html4css1.Writer):
@@ -128,6 +129,9 @@ class CleanHTMLTranslator(html4css1.HTMLTranslator):
 
     # set only html_body, we used in rest2html() and don't surround it with <div>
     def depart_document(self, node):
+        # starttag() ignores the start tags: Remove the end tags, too.
+        self.body = [part for part in self.body if part not in IGNORE_END_TAGS]
+
         self.html_body.extend(
             self.body_prefix[1:] + self.body_pre_docinfo + self.docinfo + self.body + self.body_suffix[:-1]
         )
-- 
2.43.0


From 7e89d5e2bc04fb1a54c7a26baf47034824624479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:52 +0000
Subject: [PATCH 041/122] fix: get_long_description() passed an argument that
 html2rest() doesn't have

Every call failed with a TypeError or returned it as error text.
---
 creole/setup_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/setup_utils.py b/creole/setup_utils.py
index ce6641e..189c28f 100644
--- a/creole/setup_utils.py
+++ b/creole/setup_utils.py
@@ -77,7 +77,7 @@ def get_long_description(package_root, filename='README.creole', raise_errors=No
         # convert html to ReSt
         long_description_rest = html2rest(
             long_description_html,
-            emitter_kwargs={'unknown_emit': unknown_emit}
+            unknown_emit=unknown_emit
         )
     except Exception:
         if raise_errors:
-- 
2.43.0


From 667e4ba8deb0315f2b2f74e06446714a048d3f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 042/122] fix: a failed conversion on the command line emptied
 the destination file

---
 creole/cmdline.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/creole/cmdline.py b/creole/cmdline.py
index 18d9074..9a7d816 100644
--- a/creole/cmdline.py
+++ b/creole/cmdline.py
@@ -49,10 +49,13 @@ class CreoleCLI:
         )
 
         with codecs.open(sourcefile, "r", encoding=encoding) as infile:
-            with codecs.open(destination, "w", encoding=encoding) as outfile:
-                content = infile.read()
-                converted = self.convert_func(content)
-                outfile.write(converted)
+            content = infile.read()
+
+        converted = self.convert_func(content).encode(encoding)
+
+        # Open it not before everything is done: A failure must not empty an existing file
+        with open(destination, "wb") as outfile:
+            outfile.write(converted)
         print(f"done. {destination!r} created.")
 
 
-- 
2.43.0


From 99f09cf9b95f6f6f8b3e080c44e1752c7c06f792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:21 +0000
Subject: [PATCH 043/122] fix: the code macro crashed for unknown file
 extensions

---
 creole/shared/example_macros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/shared/example_macros.py b/creole/shared/example_macros.py
index 635e920..0002a2e 100644
--- a/creole/shared/example_macros.py
+++ b/creole/shared/example_macros.py
@@ -55,7 +55,7 @@ def code(ext, text):
     except IndexError:
         source_type = ''
 
-    lexer = get_pygments_lexer(source_type, code)
+    lexer = get_pygments_lexer(source_type, text)
     formatter = get_pygments_formatter()
 
     try:
-- 
2.43.0


From 7051d8329f5133c123311ea25233ed544ac9b461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 044/122] fix: a blank line with spaces in it after a table row
 didn't end the table

---
 creole/parser/creol2html_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index d315826..88f958e 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -144,9 +144,9 @@ class BlockRules:
     )'''
 
     table = r'''^ \s*(?P<table>
-            [|].*? \s*
+            [|].*? [ \t]*
             [|]?
-        ) \s* $'''
+        ) [ \t]* $'''
 
     re_flags = re.VERBOSE | re.UNICODE | re.MULTILINE
 
-- 
2.43.0


From 18dc15ead8359384411109009366be579b8b2678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 045/122] fix: blank lines at the begin of a preformatted block
 were lost

---
 creole/parser/creol2html_rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index 88f958e..dbbcc97 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -128,7 +128,7 @@ class BlockRules:
     separator = r'(?P<separator> ^ \s* ----) [ \t]* $'  # horizontal line
 
     pre_block = r'''(?P<pre_block>
-            ^{{{ \s* $
+            ^{{{ [ \t]* $
             (?P<pre_block_text>
                 ([\#]!(?P<pre_block_kind>\w*?)(\s+.*)?$)?
                 (.|\n)+?
-- 
2.43.0


From c596b936de3d139b1dbb265c51a4203a16d130c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:05 +0000
Subject: [PATCH 046/122] fix: a headline without text swallowed the next line,
 also after a blank line

---
 creole/parser/creol2html_rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index dbbcc97..70dbee2 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -121,7 +121,7 @@ class BlockRules:
 
     head = r'''(?P<head>
         ^
-        (?P<head_head>=+) \s*
+        (?P<head_head>=+) [^\S\n]*
         (?P<head_text> .*? )
         (=|\s)*?$
     )'''
-- 
2.43.0


From 88c6d3a928118767b7e34e5dca57072d8ffb286d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:01 +0000
Subject: [PATCH 047/122] fix: an empty list item swallowed the next one

---
 creole/parser/creol2html_rules.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index 70dbee2..45d794a 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -139,7 +139,7 @@ class BlockRules:
     # Matches the whole list, separate items are parsed later.
     # The list *must* start with a single bullet.
     list = r'''(?P<list>
-        ^ \s* ([*][^*\#]|[\#][^\#*]).* $
+        ^ \s* ([*][^*\#\n]|[\#][^\#*\n]).* $
         ( \n[ \t]* [*\#]+.* $ )*
     )'''
 
@@ -179,9 +179,9 @@ class SpecialRules:
     """
     # Matches single list items:
     item = r'''^ \s* (?P<item>
-        (?P<item_head> [\#*]+) \s*
+        (?P<item_head> [\#*]+) [^\S\n]*
         (?P<item_text> .*?)
-    ) \s* $'''
+    ) [^\S\n]* $'''
 
     # For splitting table cells:
     cell = r'''
-- 
2.43.0


From ca2edab49dae9e9c8c8f2b862b923dcd28178154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:14 +0000
Subject: [PATCH 048/122] fix: a line break after a line that ends with a
 single backslash was lost

---
 creole/parser/creol2html_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index 45d794a..b85f8f8 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -153,7 +153,7 @@ class BlockRules:
     def __init__(self, blog_line_breaks=True):
         if blog_line_breaks:
             # use blog style line breaks (every line break would be converted into <br />)
-            self.text = r'(?P<text> .+ ) (?P<break> (?<!\\)$\n(?!\s*$) )?'
+            self.text = r'(?P<text> .+ ) (?P<break> (?<!\\\\)$\n(?!\s*$) )?'
         else:
             # use wiki style line breaks, seperate lines with one space
             # a line break before a new block element doesn't belong to the text
@@ -163,7 +163,7 @@ class BlockRules:
                     self.pre_block, self.list, self.table,
                 )
             )
-            self.text = r'(?P<space> (?<!\\)$\n(?!\s*$)(?! %s ) )? (?P<text> .+ )' % next_block
+            self.text = r'(?P<space> (?<!\\\\)$\n(?!\s*$)(?! %s ) )? (?P<text> .+ )' % next_block
 
         self.rules = (
             self.macro_block,
-- 
2.43.0


From f5e32a24ef4801fdecccd91a0ec2df32299b9404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 049/122] fix: <<toc depth=...>> listed deeper headlines if
 they are before the toc

---
 creole/emitter/creol2html_emitter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 139aaab..5838f18 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -82,7 +82,12 @@ class TableOfContent:
 
     def emit(self, document):
         """Emit the toc where the <<toc>> macro was."""
-        nested_headlines = self.flat_list2nest_list(self.headlines)
+        # the headlines before the <<toc>> were added without knowing the depth
+        headlines = [
+            (level, content) for level, content in self.headlines
+            if self.max_depth is None or level <= self.max_depth
+        ]
+        nested_headlines = self.flat_list2nest_list(headlines)
         html = self.nested_headlines2html(nested_headlines)
 
         # FIXME: We should not use <p> here, because it doesn't match
-- 
2.43.0


From 2217ec384dea8a3b36fdf9a20fdb1ad364f670bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 050/122] fix: a nested table broke the row of the outer table
 and could blow up the memory

---
 creole/emitter/html2markdown_emitter.py |  8 ++++++--
 creole/emitter/html2rest_emitter.py     |  8 ++++++--
 creole/shared/base_emitter.py           | 17 +++++++++++++++--
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 0d79d49..ef473c3 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -58,11 +58,15 @@ class MarkdownEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
     def table_emit(self, node):
-        outer_table = self._table
+        if self._in_table:
+            return self._nested_table_emit(node)
+
+        self._in_table = True
         self._table = MarkupTable(head_prefix='', debug_msg=self.debug_msg)
         self.emit_children(node)
         content = self._table.get_markdown_table()
-        self._table = outer_table
+        self._table = None
+        self._in_table = False
         return f'\n{content}\n'
 
     def tr_emit(self, node):
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 05ace11..ee27adb 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -288,7 +288,10 @@ class ReStructuredTextEmitter(BaseEmitter):
         """
         http://docutils.sourceforge.net/docs/ref/rst/restructuredtext.html#tables
         """
-        outer_table = self._table
+        if self._in_table:
+            return self._nested_table_emit(node)
+
+        self._in_table = True
         self._table = MarkupTable(
             head_prefix="",
             auto_width=True,
@@ -296,5 +299,6 @@ class ReStructuredTextEmitter(BaseEmitter):
         )
         self.emit_children(node)
         content = self._table.get_rest_table()
-        self._table = outer_table
+        self._table = None
+        self._in_table = False
         return f"{content}\n\n"
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index f4d0fa8..57b30c7 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -41,6 +41,7 @@ class BaseEmitter:
         self._inner_list = ""
         self._mask_linebreak = False
         self._table = None  # The current MarkupTable
+        self._in_table = False  # Also True in a nested table
 
     # --------------------------------------------------------------------------
 
@@ -132,7 +133,10 @@ class BaseEmitter:
     # --------------------------------------------------------------------------
 
     def table_emit(self, node):
-        outer_table = self._table
+        if self._in_table:
+            return self._nested_table_emit(node)
+
+        self._in_table = True
         self._table = MarkupTable(
             head_prefix=self.table_head_prefix,
             auto_width=self.table_auto_width,
@@ -140,9 +144,18 @@ class BaseEmitter:
         )
         self.emit_children(node)
         content = self._table.get_table_markup()
-        self._table = outer_table
+        self._table = None
+        self._in_table = False
         return f"{content}\n"
 
+    def _nested_table_emit(self, node):
+        """ There is no markup for a table in a table cell: Emit the content of the cells as lines. """
+        outer_table = self._table
+        self._table = None
+        content = self._emit_content(node)
+        self._table = outer_table
+        return content
+
     def tr_emit(self, node):
         if self._table is None:  # not in a table
             return self._emit_content(node)
-- 
2.43.0


From 3f89c822b63817e151144b9b764e88f8c7b8f052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 051/122] fix: html2rest wrote titles with more than one line,
 nested headlines could blow up the memory

---
 creole/emitter/html2rest_emitter.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index ee27adb..877f74e 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -109,7 +109,10 @@ class ReStructuredTextEmitter(BaseEmitter):
     }
 
     def headline_emit(self, node):
-        text = self.emit_children(node)
+        # The title must be one line
+        text = " ".join(self.emit_children(node).split())
+        if self._is_in_headline(node):
+            return f"{text} "
 
         level = node.level
         if level > 6:
@@ -125,6 +128,12 @@ class ReStructuredTextEmitter(BaseEmitter):
 
         return format % {"m": markup, "t": text}
 
+    def _is_in_headline(self, node):
+        node = node.parent
+        while node is not None and node.kind != "headline":
+            node = node.parent
+        return node is not None
+
     # --------------------------------------------------------------------------
 
     def _typeface(self, node, key):
-- 
2.43.0


From 6d5f24130f7871ceb4154509139d248136eb1bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:23 +0000
Subject: [PATCH 052/122] fix: html2markdown crashed on urls with lone
 surrogates

---
 creole/emitter/html2markdown_emitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index ef473c3..9324787 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -38,8 +38,8 @@ def quote_link(uri):
     try:
         scheme, netloc, *parts = urlparse(uri)
     except ValueError:  # not a valid url, e.g.: "http://[foo"
-        return quote(uri, safe=safe)
-    return urlunparse(ParseResult(scheme, netloc, *(quote(part, safe=safe) for part in parts)))
+        return quote(uri, safe=safe, errors='replace')
+    return urlunparse(ParseResult(scheme, netloc, *(quote(part, safe=safe, errors='replace') for part in parts)))
 
 
 class MarkdownEmitter(BaseEmitter):
-- 
2.43.0


From a54f4f74f8074e149c626c7d722bc6a2c7f86c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 053/122] fix: words were glued together if there is only a
 empty block element between them

---
 creole/shared/base_emitter.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 57b30c7..ad089a9 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -218,22 +218,22 @@ class BaseEmitter:
         """Emit all the children of a node."""
         self.last = node
         result = []
-        last_child = None
+        separate = False
         for child in node.children:
             content = self.emit_node(child)
             assert isinstance(content, str)
+
+            is_separated = child.kind in SEPARATED_KINDS
+            separate = separate or is_separated
             if content:
-                if last_child is not None and self._must_separate(last_child, child):
+                if result and separate:
                     if not result[-1].endswith("\n") and not content.startswith("\n"):
                         # e.g.: "text<p>paragraph</p>": don't glue the words together
                         result.append("\\\\" if self._inner_list else "\n\n")
                 result.append(content)
-                last_child = child
+                separate = is_separated
         return result
 
-    def _must_separate(self, node1, node2):
-        return node1.kind in SEPARATED_KINDS or node2.kind in SEPARATED_KINDS
-
     def emit_node(self, node):
         """Emit a single node."""
         def unicode_error(method_name, method, node, content):
-- 
2.43.0


From b75ce272309bb92c97ac72417aeff40e54a37183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:42 +0000
Subject: [PATCH 054/122] fix: words were glued together at the border of
 inline and unknown tags and after unmatched end tags

---
 creole/emitter/html2markdown_emitter.py | 10 ++++----
 creole/parser/html_parser.py            | 11 +++++++--
 creole/shared/base_emitter.py           | 33 +++++++++++++++++--------
 3 files changed, 37 insertions(+), 17 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 9324787..3b78087 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -23,7 +23,7 @@ language_re = re.compile(r'''\sclass=["']language-(?P<language>[^"'>]+)["']''')
 
 
 # Nodes that start on a new line
-BLOCK_KINDS = BLOCK_TAGS + ('headline', 'blockdata_pre', 'inlinedata_pre')
+BLOCK_KINDS = BLOCK_TAGS + ('document', 'headline', 'blockdata_pre', 'inlinedata_pre')
 
 
 def quote_link(uri):
@@ -242,10 +242,10 @@ class MarkdownEmitter(BaseEmitter):
     def _is_between_inline(self, node: DocNode):
         siblings = node.parent.children
         index = siblings.index(node)
-        neighbours = siblings[max(index - 1, 0):index] + siblings[index + 1:index + 2]
-        return len(neighbours) == 2 and not any(
-            neighbour.kind in BLOCK_KINDS for neighbour in neighbours
-        )
+        # at the border of e.g. a <span>: the neighbour is outside
+        before = siblings[index - 1] if index > 0 else node.parent
+        after = siblings[index + 1] if index + 1 < len(siblings) else node.parent
+        return not any(neighbour.kind in BLOCK_KINDS for neighbour in (before, after))
 
     def code_emit(self, node: DocNode):
         code_block = ' '.join(self.emit_children(node).split('\n')).strip()
diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 8f90950..a2dcbba 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -12,7 +12,7 @@ from html.entities import html5
 from html.parser import HTMLParser
 
 from creole.html_tools.strip_html import strip_html
-from creole.parser.html_parser_config import IGNORE_TAGS, INTERNAL_KINDS, VOID_TAGS
+from creole.parser.html_parser_config import BLOCK_TAGS, IGNORE_TAGS, INTERNAL_KINDS, VOID_TAGS
 from creole.shared.document_tree import DebugList, DocNode
 
 
@@ -279,7 +279,10 @@ class HtmlParser(HTMLParser):
 
         self.debug_msg("endtag", f"{tag!r}")
 
-        if tag == "br":  # handled in starttag
+        if tag == "br":
+            # handled in starttag, but a single </br> is a line break, too
+            if not self.cur.children or self.cur.children[-1].kind != "br":
+                self.handle_starttag(tag, [])
             return
 
         self.debug_msg("starttag", f"{self.get_starttag_text()!r}")
@@ -295,6 +298,10 @@ class HtmlParser(HTMLParser):
             node = node.parent
         if node is self.root:
             # A end tag without a start tag
+            last = self.cur.children[-1] if self.cur.children else self.cur
+            if tag in BLOCK_TAGS and last.kind not in BLOCK_TAGS + ("document", "headline", "blockdata_pre"):
+                # strip_html() has removed the spaces around it: don't glue the words together
+                self.handle_data(" ")
             return
 
         while self.cur is not node.parent:
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index ad089a9..9724a7a 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -15,9 +15,7 @@ from creole.shared.unknown_tags import transparent_unknown_nodes
 
 
 # block elements that are separated from the text before and after them
-SEPARATED_KINDS = ("headline",) + tuple(
-    tag for tag in BLOCK_TAGS if tag not in ("br", "li", "th", "tr", "td", "pre")
-)
+SEPARATED_KINDS = ("headline",) + tuple(tag for tag in BLOCK_TAGS if tag != "br")
 
 
 class BaseEmitter:
@@ -190,12 +188,15 @@ class BaseEmitter:
 
     def _emit_content(self, node):
         content = self.emit_children(node)
-        if self._inner_list == "":
-            content = content.strip()
-        else:
-            content = self._escape_linebreaks(content)
         if node.kind in BLOCK_TAGS:
+            if self._inner_list == "":
+                content = content.strip()
+            else:
+                content = self._escape_linebreaks(content)
             content = f"{content}\n\n"
+        elif self._inner_list != "" and "\n" in content:
+            space = " " if content.startswith(" ") else ""
+            content = space + self._escape_linebreaks(content)
         return content
 
     def div_emit(self, node):
@@ -223,17 +224,29 @@ class BaseEmitter:
             content = self.emit_node(child)
             assert isinstance(content, str)
 
-            is_separated = child.kind in SEPARATED_KINDS
-            separate = separate or is_separated
+            separate = separate or self._is_separated(child, 1)
             if content:
                 if result and separate:
                     if not result[-1].endswith("\n") and not content.startswith("\n"):
                         # e.g.: "text<p>paragraph</p>": don't glue the words together
                         result.append("\\\\" if self._inner_list else "\n\n")
                 result.append(content)
-                separate = is_separated
+                separate = False
+            separate = separate or self._is_separated(child, -1)
         return result
 
+    def _is_separated(self, node, step):
+        """ Is it a block element or e.g. an unknown tag that starts (step: 1) or ends (step: -1) with one? """
+        nodes = [node]
+        while nodes:
+            node = nodes.pop()
+            if node.kind in SEPARATED_KINDS:
+                return True
+            if node.kind in ("img", "br") or (node.content and node.content.strip()):
+                return False
+            nodes += node.children[::-step]
+        return False
+
     def emit_node(self, node):
         """Emit a single node."""
         def unicode_error(method_name, method, node, content):
-- 
2.43.0


From aa865524b049d75164acaf88941f512bc9733c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 055/122] fix: a <pre> area swallowed the text up to a later
 </pre>

---
 creole/parser/html_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index a2dcbba..839972c 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -21,7 +21,7 @@ from creole.shared.document_tree import DebugList, DocNode
 block_re = re.compile(r'''
     ^<pre> \s* $
     (?P<pre_block>
-        (\n|.)*?
+        ((?!</pre>)(\n|.))*?
     )
     ^</pre> \s* $
     [\s\n]*
-- 
2.43.0


From f5c8fb01c6bca57847648e763a7d63dcbbcdd668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:30 +0000
Subject: [PATCH 056/122] fix: html2rest wrote link and image targets into the
 middle of a text line

---
 creole/emitter/html2rest_emitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 877f74e..94f197a 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -90,7 +90,9 @@ class ReStructuredTextEmitter(BaseEmitter):
 
     def emit_node(self, node):
         result = ""
-        if self._substitution_data and node.parent == self.root:
+        if self._substitution_data and node.parent == self.root and (
+            self._is_separated(self.last, -1) or self._is_separated(node, 1)
+        ):
             result += f"{self._get_block_data()}\n\n"
 
         result += super().emit_node(node)
-- 
2.43.0


From 12a85bd01a8110f40a36999b4924c465e2103950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:55 +0000
Subject: [PATCH 057/122] fix: the space after an image tag that isn't self
 closed was lost

---
 creole/html_tools/strip_html.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/creole/html_tools/strip_html.py b/creole/html_tools/strip_html.py
index 77c6f64..9ebc04c 100644
--- a/creole/html_tools/strip_html.py
+++ b/creole/html_tools/strip_html.py
@@ -10,7 +10,7 @@
 
 import re
 
-from creole.parser.html_parser_config import BLOCK_TAGS
+from creole.parser.html_parser_config import BLOCK_TAGS, VOID_TAGS
 
 
 strip_html_regex = re.compile(
@@ -80,8 +80,8 @@ def strip_html(html_code):
             # It's a normal end tag e.g.: </strong>
             if space_start or space_end:
                 result += " "
-        elif startend_tag:
-            # It's a closed start tag e.g.: <br />
+        elif startend_tag or tag.lower() in VOID_TAGS:
+            # It's a closed start tag e.g.: <br /> or has no end tag e.g.: <img src="/image.jpg">
 
             if space_start:  # there was space before the tag
                 result = " " + result
-- 
2.43.0


From 30030b527baebf0436bb27302bbb6c781c62c405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:57 +0000
Subject: [PATCH 058/122] fix: spaces between block elements (e.g. beside a
 comment) became a line break in html lists

---
 creole/shared/base_emitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 9724a7a..01c38ea 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -225,7 +225,9 @@ class BaseEmitter:
             assert isinstance(content, str)
 
             separate = separate or self._is_separated(child, 1)
-            if content:
+            if not content.strip():  # e.g. spaces between block elements
+                result.append(content)
+            else:
                 if result and separate:
                     if not result[-1].endswith("\n") and not content.startswith("\n"):
                         # e.g.: "text<p>paragraph</p>": don't glue the words together
-- 
2.43.0


From 6c7f55a813162b6d0aeb378798410df5fa238ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:50 +0000
Subject: [PATCH 059/122] fix: html2creole broke link labels with a line break

---
 creole/emitter/html2creole_emitter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/creole/emitter/html2creole_emitter.py b/creole/emitter/html2creole_emitter.py
index 5526601..e8c2c03 100644
--- a/creole/emitter/html2creole_emitter.py
+++ b/creole/emitter/html2creole_emitter.py
@@ -25,6 +25,7 @@ class CreoleEmitter(BaseEmitter):
 
         self.table_head_prefix = "= "
         self.table_auto_width = True
+        self._in_link = False
 
     def emit(self):
         """Emit the document represented by self.root DOM tree."""
@@ -52,7 +53,7 @@ class CreoleEmitter(BaseEmitter):
         return result
 
     def br_emit(self, node):
-        if self._inner_list != "":
+        if self._inner_list != "" or self._in_link:  # the markup ends at the end of the line
             return "\\\\"
         else:
             return "\n"
@@ -96,7 +97,9 @@ class CreoleEmitter(BaseEmitter):
         return "----\n\n"
 
     def a_emit(self, node):
+        self._in_link = True
         link_text = self.emit_children(node)
+        self._in_link = False
         try:
             url = node.attrs["href"]
         except KeyError:
-- 
2.43.0


From dfbb7eadb6c98b9b93db7adc8e605ce243dacd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:00 +0000
Subject: [PATCH 060/122] fix: spaces after the closing brackets of a
 preformatted block became a paragraph

---
 creole/parser/creol2html_rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index b85f8f8..821f7db 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -133,7 +133,7 @@ class BlockRules:
                 ([\#]!(?P<pre_block_kind>\w*?)(\s+.*)?$)?
                 (.|\n)+?
             )
-            ^}}})
+            ^}}}) ([ \t]* $)?
         '''
 
     # Matches the whole list, separate items are parsed later.
-- 
2.43.0


From 9537798021ce6ffff2579704a05cfabd6a38ab17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:00 +0000
Subject: [PATCH 061/122] fix: blank lines at the begin of a <pre> block were
 lost

---
 creole/parser/html_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 839972c..70abb10 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -19,7 +19,7 @@ from creole.shared.document_tree import DebugList, DocNode
 # ------------------------------------------------------------------------------
 
 block_re = re.compile(r'''
-    ^<pre> \s* $
+    ^<pre> [^\S\n]* $
     (?P<pre_block>
         ((?!</pre>)(\n|.))*?
     )
-- 
2.43.0


From 10bb7e92c7e44573837d53194cd12fe2e8c3512a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:43 +0000
Subject: [PATCH 062/122] fix: html2creole didn't escape a line of closing
 brackets in preformatted blocks

---
 creole/emitter/html2creole_emitter.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/html2creole_emitter.py b/creole/emitter/html2creole_emitter.py
index e8c2c03..a632346 100644
--- a/creole/emitter/html2creole_emitter.py
+++ b/creole/emitter/html2creole_emitter.py
@@ -9,6 +9,7 @@
 
 
 import posixpath
+import re
 
 from creole.shared.base_emitter import BaseEmitter
 
@@ -33,13 +34,20 @@ class CreoleEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
 
+    def _pre_content(self, node):
+        content = self.deentity.replace_all(node.content)
+        if "\n" in content:
+            # Escape lines that would end the pre block
+            content = re.sub(r"^(}}}[ \t]*)$", r"~\1", content, flags=re.MULTILINE)
+        return content
+
     def blockdata_pre_emit(self, node):
         """ pre block -> with newline at the end """
-        return "{{{%s}}}\n" % self.deentity.replace_all(node.content)
+        return "{{{%s}}}\n" % self._pre_content(node)
 
     def inlinedata_pre_emit(self, node):
         """ a pre inline block -> no newline at the end """
-        return "{{{%s}}}" % self.deentity.replace_all(node.content)
+        return "{{{%s}}}" % self._pre_content(node)
 
     def blockdata_pass_emit(self, node):
         return f"{node.content}\n\n"
-- 
2.43.0


From d91333d324761e614ca2340c29e65d6382cb4961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:53 +0000
Subject: [PATCH 063/122] fix: a html table directly after a table became a
 part of it

---
 creole/shared/base_emitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 01c38ea..4abe458 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -232,6 +232,8 @@ class BaseEmitter:
                     if not result[-1].endswith("\n") and not content.startswith("\n"):
                         # e.g.: "text<p>paragraph</p>": don't glue the words together
                         result.append("\\\\" if self._inner_list else "\n\n")
+                    elif result[-1].endswith("|\n") and content.startswith("|"):
+                        result.append("\n")  # a table after a table
                 result.append(content)
                 separate = False
             separate = separate or self._is_separated(child, -1)
-- 
2.43.0


From 5cfd2cf5d64e2acb79fa4f4f47c16367fc29faec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:49 +0000
Subject: [PATCH 064/122] fix: a <pre> area with several lines inside of a line
 wasn't converted to a block

---
 creole/emitter/html2creole_emitter.py  |  9 ++++++++-
 creole/emitter/html2rest_emitter.py    |  5 +++++
 creole/emitter/html2textile_emitter.py |  2 ++
 creole/shared/base_emitter.py          | 12 +++++++++++-
 4 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/html2creole_emitter.py b/creole/emitter/html2creole_emitter.py
index a632346..ad568bf 100644
--- a/creole/emitter/html2creole_emitter.py
+++ b/creole/emitter/html2creole_emitter.py
@@ -47,7 +47,14 @@ class CreoleEmitter(BaseEmitter):
 
     def inlinedata_pre_emit(self, node):
         """ a pre inline block -> no newline at the end """
-        return "{{{%s}}}" % self._pre_content(node)
+        content = self._pre_content(node)
+        if self._is_pre_block(node):
+            # The brackets must stand on own lines
+            if not content.startswith("\n"):
+                content = f"\n{content}"
+            content = re.sub(r"\n?[ \t]*\Z", "\n", content, count=1)
+            return "{{{%s}}}\n" % content
+        return "{{{%s}}}" % content
 
     def blockdata_pass_emit(self, node):
         return f"{node.content}\n\n"
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 94f197a..d0d927e 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -63,8 +63,13 @@ class ReStructuredTextEmitter(BaseEmitter):
 
     def inlinedata_pre_emit(self, node):
         """ a pre inline block -> no newline at the end """
+        if self._is_pre_block(node):
+            return self.blockdata_pre_emit(node)
         return f"<pre>{self.deentity.replace_all(node.content)}</pre>"
 
+    def _is_pre_block(self, node):
+        return super()._is_pre_block(node) and not self._list_markup
+
     def blockdata_pass_emit(self, node):
         return f"{node.content}\n\n"
 
diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index 35d7bc4..944609a 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -37,6 +37,8 @@ class TextileEmitter(BaseEmitter):
 
     def inlinedata_pre_emit(self, node):
         """ a pre inline block -> no newline at the end """
+        if self._is_pre_block(node):
+            return self.blockdata_pre_emit(node)
         return f"<pre>{self.deentity.replace_all(node.content)}</pre>"
 
     def blockdata_pass_emit(self, node):
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 4abe458..1f1dfdb 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -220,6 +220,7 @@ class BaseEmitter:
         self.last = node
         result = []
         separate = False
+        last = node
         for child in node.children:
             content = self.emit_node(child)
             assert isinstance(content, str)
@@ -234,8 +235,11 @@ class BaseEmitter:
                         result.append("\\\\" if self._inner_list else "\n\n")
                     elif result[-1].endswith("|\n") and content.startswith("|"):
                         result.append("\n")  # a table after a table
+                    if self._is_pre_block(last):
+                        content = content.lstrip(" ")
                 result.append(content)
                 separate = False
+                last = child
             separate = separate or self._is_separated(child, -1)
         return result
 
@@ -244,13 +248,19 @@ class BaseEmitter:
         nodes = [node]
         while nodes:
             node = nodes.pop()
-            if node.kind in SEPARATED_KINDS:
+            if node.kind in SEPARATED_KINDS or self._is_pre_block(node):
                 return True
             if node.kind in ("img", "br") or (node.content and node.content.strip()):
                 return False
             nodes += node.children[::-step]
         return False
 
+    def _is_pre_block(self, node):
+        """ Is it a <pre> with several lines that doesn't stand at the begin of a line? """
+        if node.kind != "inlinedata_pre" or self._inner_list or self._in_table:
+            return False
+        return "\n" in node.content and node.content.strip() != ""
+
     def emit_node(self, node):
         """Emit a single node."""
         def unicode_error(method_name, method, node, content):
-- 
2.43.0


From eeababe882281941e890e618359a7ce52b03e9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:49 +0000
Subject: [PATCH 065/122] fix: html2rest used the marks of a inner list for the
 following items of the outer list

---
 creole/emitter/html2rest_emitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index d0d927e..ac9287e 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -284,8 +284,10 @@ class ReStructuredTextEmitter(BaseEmitter):
         return result
 
     def _list_emit(self, node, list_type):
+        outer_list_markup = self._list_markup
         self._list_markup = list_type
         content = self.emit_children(node)
+        self._list_markup = outer_list_markup
 
         if node.level == 1:
             # FIXME: This should be made ​​easier and better
-- 
2.43.0


From a65b0fa12c51002f67bd147cb58f4bea18e95a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:40 +0000
Subject: [PATCH 066/122] fix: a comment at the begin of a nested html list
 became a line break

---
 creole/shared/base_emitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 1f1dfdb..07c507a 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -230,7 +230,7 @@ class BaseEmitter:
                 result.append(content)
             else:
                 if result and separate:
-                    if not result[-1].endswith("\n") and not content.startswith("\n"):
+                    if not result[-1].endswith("\n") and not content.lstrip(" ").startswith("\n"):
                         # e.g.: "text<p>paragraph</p>": don't glue the words together
                         result.append("\\\\" if self._inner_list else "\n\n")
                     elif result[-1].endswith("|\n") and content.startswith("|"):
-- 
2.43.0


From 9a65bb45c3655155b0ae1d5ba9376250e6b306da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:15 +0000
Subject: [PATCH 067/122] fix: spaces around upper case html block tags were
 not removed

---
 creole/html_tools/strip_html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/html_tools/strip_html.py b/creole/html_tools/strip_html.py
index 9ebc04c..fd227ae 100644
--- a/creole/html_tools/strip_html.py
+++ b/creole/html_tools/strip_html.py
@@ -68,7 +68,7 @@ def strip_html(html_code):
 #        print("startend_tag:", startend_tag)
 #        print("tag.........: %r" % tag)
 
-        if tag in BLOCK_TAGS:
+        if tag.lower() in BLOCK_TAGS:
             return block.strip()
 
         space_start = block[0].isspace()
-- 
2.43.0


From 92773e9913d2156a2a6a2012d55a51eec9dd06d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:28 +0000
Subject: [PATCH 068/122] fix: a <pre> block directly after a comment or text
 wasn't put on own lines

---
 creole/shared/base_emitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 07c507a..4b82418 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -248,7 +248,7 @@ class BaseEmitter:
         nodes = [node]
         while nodes:
             node = nodes.pop()
-            if node.kind in SEPARATED_KINDS or self._is_pre_block(node):
+            if node.kind in SEPARATED_KINDS or node.kind == "blockdata_pre" or self._is_pre_block(node):
                 return True
             if node.kind in ("img", "br") or (node.content and node.content.strip()):
                 return False
-- 
2.43.0


From d75627e4dcd59bedb7111fb8b45ddaf13c021e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:15 +0000
Subject: [PATCH 069/122] fix: html2rest headlines and tables with wide East
 Asian characters were malformed

---
 creole/emitter/html2rest_emitter.py |  3 ++-
 creole/html_tools/text_tools.py     | 14 ++++++++++++++
 creole/shared/markup_table.py       | 13 ++++++++-----
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index ac9287e..49bf4a4 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -13,6 +13,7 @@
 
 import posixpath
 
+from creole.html_tools.text_tools import column_width
 from creole.shared.base_emitter import BaseEmitter
 from creole.shared.markup_table import MarkupTable
 
@@ -126,7 +127,7 @@ class ReStructuredTextEmitter(BaseEmitter):
             level = 6
 
         char, both = self.HEADLINE_DATA[level]
-        markup = char * len(text)
+        markup = char * column_width(text)
 
         if both:
             format = "%(m)s\n%(t)s\n%(m)s\n\n"
diff --git a/creole/html_tools/text_tools.py b/creole/html_tools/text_tools.py
index 7963bd6..08917a2 100644
--- a/creole/html_tools/text_tools.py
+++ b/creole/html_tools/text_tools.py
@@ -9,6 +9,7 @@
 
 
 import re
+import unicodedata
 
 
 space_re = re.compile(r"^(\s*)(.*?)(\s*)$", re.DOTALL)
@@ -48,6 +49,19 @@ def clean_whitespace(txt):
     return space_re.sub(cleanup, txt)
 
 
+def column_width(txt):
+    """
+    Number of columns of a text: ReSt counts wide East Asian characters twice.
+
+    >>> column_width("foo")
+    3
+
+    >>> column_width("\u4e2d\u6587")
+    4
+    """
+    return sum(2 if unicodedata.east_asian_width(char) in "WF" else 1 for char in txt)
+
+
 if __name__ == '__main__':
     import doctest
     print(doctest.testmod())
diff --git a/creole/shared/markup_table.py b/creole/shared/markup_table.py
index 633b9df..ac70aa5 100644
--- a/creole/shared/markup_table.py
+++ b/creole/shared/markup_table.py
@@ -1,3 +1,6 @@
+from creole.html_tools.text_tools import column_width
+
+
 class MarkupTable:
     """
     Container for holding table data and render the data in creole markup.
@@ -36,7 +39,7 @@ class MarkupTable:
         self.debug_msg("Table.add_td", text)
         self.rows[self.row_index].append(text)
 
-    def _get_preformat_info(self):
+    def _get_preformat_info(self, width_func=len):
         cells = []
         for row in self.rows:
             line_cells = []
@@ -57,7 +60,7 @@ class MarkupTable:
             line_cells += [""] * (column_count - len(line_cells))
 
         # Build a list of max len for every column (a empty column is not valid in ReSt and Markdown)
-        widths = [max(3, *map(len, col)) for col in zip(*cells)]
+        widths = [max(3, *map(width_func, col)) for col in zip(*cells)]
 
         return cells, widths
 
@@ -85,7 +88,7 @@ class MarkupTable:
     def get_rest_table(self):
         """ return the table data in ReSt markup. """
         # preformat every table cell
-        cells, widths = self._get_preformat_info()
+        cells, widths = self._get_preformat_info(width_func=column_width)
 
         separator_line = f"+{'+'.join(('-' * width) for width in widths)}+"
         headline_separator = f"+{'+'.join(('=' * width) for width in widths)}+"
@@ -97,8 +100,8 @@ class MarkupTable:
             else:
                 lines.append(separator_line)
 
-            # Join every line with ljust
-            cells = [cell.ljust(width) for cell, width in zip(row, widths)]
+            # Fill every cell up to the width of the column
+            cells = [cell + " " * (width - column_width(cell)) for cell, width in zip(row, widths)]
             lines.append("|" + "|".join(cells) + "|")
 
         lines.append(separator_line)
-- 
2.43.0


From 206f79904f2cf7e6868633ae0b7a855bd006c3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 070/122] fix: html2rest wrote headlines of one character as
 list items

---
 creole/emitter/html2rest_emitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 49bf4a4..891f8c2 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -127,7 +127,8 @@ class ReStructuredTextEmitter(BaseEmitter):
             level = 6
 
         char, both = self.HEADLINE_DATA[level]
-        markup = char * column_width(text)
+        # A single "-" would be the mark of a list item
+        markup = char * max(2, column_width(text))
 
         if both:
             format = "%(m)s\n%(t)s\n%(m)s\n\n"
-- 
2.43.0


From 435d3cff42bcf3d2e80de1a37a7d00a75386e8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:41 +0000
Subject: [PATCH 071/122] fix: html2rest lost the indentation of the first line
 of a preformatted block

---
 creole/emitter/html2rest_emitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 891f8c2..6da9599 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -12,6 +12,7 @@
 
 
 import posixpath
+import re
 
 from creole.html_tools.text_tools import column_width
 from creole.shared.base_emitter import BaseEmitter
@@ -58,7 +59,8 @@ class ReStructuredTextEmitter(BaseEmitter):
 
     def blockdata_pre_emit(self, node):
         """ pre block -> with newline at the end """
-        pre_block = self.deentity.replace_all(node.content).strip()
+        pre_block = self.deentity.replace_all(node.content).rstrip()
+        pre_block = re.sub(r"\A([ \t]*\n)+", "", pre_block)  # blank lines at the begin
         pre_block = "\n".join(f"    {line}" for line in pre_block.splitlines())
         return f"::\n\n{pre_block}\n\n"
 
-- 
2.43.0


From 76b51baf9e39a9d050ac858b70f5d789a2c02387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:46 +0000
Subject: [PATCH 072/122] fix: html2rest moved the text after a line break out
 of the list item

---
 creole/emitter/html2rest_emitter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 6da9599..c7fc2b2 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -106,6 +106,10 @@ class ReStructuredTextEmitter(BaseEmitter):
         result += super().emit_node(node)
         return result
 
+    def br_emit(self, node):
+        # There are no line breaks in ReSt. The text of a list item must stay in the item.
+        return " " if self._list_markup else "\n"
+
     def p_emit(self, node):
         return f"{self.emit_children(node)}\n\n"
 
-- 
2.43.0


From feab835364a53eda4cf14b455cfbe3a6f7e81041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:11 +0000
Subject: [PATCH 073/122] fix: html2rest wrote a line break in a table cell as
 backslash

---
 creole/emitter/html2rest_emitter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index c7fc2b2..dd403f3 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -310,6 +310,10 @@ class ReStructuredTextEmitter(BaseEmitter):
     def ol_emit(self, node):
         return self._list_emit(node, "#.")
 
+    def _escape_linebreaks(self, text):
+        # Backslashes are no line break in ReSt
+        return " ".join(line.strip() for line in text.split("\n") if line.strip())
+
     def table_emit(self, node):
         """
         http://docutils.sourceforge.net/docs/ref/rst/restructuredtext.html#tables
-- 
2.43.0


From 9bdb8a985706b0eaedfbe77cd4b16d678a54ff06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:06 +0000
Subject: [PATCH 074/122] fix: tabs in table cells made html2rest tables
 malformed

---
 creole/emitter/html2rest_emitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index dd403f3..c0d1aab 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -311,8 +311,8 @@ class ReStructuredTextEmitter(BaseEmitter):
         return self._list_emit(node, "#.")
 
     def _escape_linebreaks(self, text):
-        # Backslashes are no line break in ReSt
-        return " ".join(line.strip() for line in text.split("\n") if line.strip())
+        # Backslashes are no line break in ReSt and docutils expands tabs
+        return " ".join(line.strip() for line in text.expandtabs(1).split("\n") if line.strip())
 
     def table_emit(self, node):
         """
-- 
2.43.0


From bfa651e428d57186074e1b3572846bfd24c84ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:54 +0000
Subject: [PATCH 075/122] fix: html2rest wrote link names that differ only in
 upper and lower case as different targets

---
 creole/emitter/html2rest_emitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index c0d1aab..9bb918e 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -233,7 +233,9 @@ class ReStructuredTextEmitter(BaseEmitter):
             # e.g.: <a name="anchor-one">foo</a>
             return link_text
 
-        old_url = self._get_old_substitution(self._used_substitution_links, link_text, url)
+        # ReSt target names are case-insensitive
+        name = " ".join(link_text.lower().split())
+        old_url = self._get_old_substitution(self._used_substitution_links, name, url)
 
         if self._should_do_substitution(node):
             # make a hyperlink reference
-- 
2.43.0


From 8ba40dd7c8445d45d1fede9e6f85842a620a2bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:05 +0000
Subject: [PATCH 076/122] fix: html2markdown wrote tt, u and small with marks
 that aren't Markdown

---
 creole/emitter/html2markdown_emitter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 3b78087..75d3082 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -150,7 +150,7 @@ class MarkdownEmitter(BaseEmitter):
     em_emit = i_emit
 
     def tt_emit(self, node: DocNode):
-        return self._typeface(node, key='##')
+        return self.code_emit(node)
 
     def _typeface_html(self, node, tag):
         return f'<{tag}>{self.emit_children(node)}</{tag}>'
@@ -162,10 +162,10 @@ class MarkdownEmitter(BaseEmitter):
         return self._typeface_html(node, tag='sub')
 
     def u_emit(self, node: DocNode):
-        return self._typeface(node, key='__')
+        return self._typeface_html(node, tag='u')
 
     def small_emit(self, node: DocNode):
-        return self._typeface(node, key='--')
+        return self._typeface_html(node, tag='small')
 
     def del_emit(self, node: DocNode):
         return self._typeface(node, key='~~')
-- 
2.43.0


From be681922b89a435a6dc185c876dc309be7bb116f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:14 +0000
Subject: [PATCH 077/122] fix: html2markdown lists in a ordered list were not
 nested

---
 creole/emitter/html2markdown_emitter.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 75d3082..d5cc2d3 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -216,8 +216,6 @@ class MarkdownEmitter(BaseEmitter):
     ol_emit = list_emit
 
     def li_emit(self, node: DocNode):
-        list_level = node.level
-
         list_node = node.parent
         list_kind = list_node.kind
         if list_kind == 'ol':
@@ -226,7 +224,13 @@ class MarkdownEmitter(BaseEmitter):
             # Maybe also a item that is not directly in a list
             prefix = '*'
 
-        indent = '  ' * (list_level - 1)
+        # Indent to the text of the outer items
+        indent = ''
+        outer_node = list_node.parent
+        while outer_node is not None:
+            if outer_node.kind in ('ul', 'ol'):
+                indent += '   ' if outer_node.kind == 'ol' else '  '
+            outer_node = outer_node.parent
 
         content = self.emit_children(node)
         return f"\n{indent}{prefix} {content}"
-- 
2.43.0


From 223da0600d4164eb4db06fe7a3b8fb14d85e976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:48 +0000
Subject: [PATCH 078/122] fix: html2markdown wrote paragraphs and code blocks
 in list items outside of the item

---
 creole/emitter/html2markdown_emitter.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index d5cc2d3..e8afa5b 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -224,16 +224,11 @@ class MarkdownEmitter(BaseEmitter):
             # Maybe also a item that is not directly in a list
             prefix = '*'
 
-        # Indent to the text of the outer items
-        indent = ''
-        outer_node = list_node.parent
-        while outer_node is not None:
-            if outer_node.kind in ('ul', 'ol'):
-                indent += '   ' if outer_node.kind == 'ol' else '  '
-            outer_node = outer_node.parent
-
-        content = self.emit_children(node)
-        return f"\n{indent}{prefix} {content}"
+        # Everything in the item must be indented to the text behind the prefix
+        indent = ' ' * (len(prefix) + 1)
+        content = self.emit_children(node).strip('\n')
+        content = re.sub(r'\n(?=[^\n])', f'\n{indent}', content)
+        return f"\n{prefix} {content}"
 
     # --------------------------------------------------------------------------
     def data_emit(self, node: DocNode):
-- 
2.43.0


From 607fd2ccbd8c4001b8683670a0c24907d553a759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:28 +0000
Subject: [PATCH 079/122] fix: html2markdown joined the paragraphs of adjacent
 divs and blocks

---
 creole/emitter/html2markdown_emitter.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index e8afa5b..d082b00 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -256,6 +256,13 @@ class MarkdownEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
 
+    def _emit_content(self, node: DocNode):
+        content = super()._emit_content(node)
+        if node.kind in BLOCK_TAGS:
+            # Blocks are separated by a blank line
+            content = f'\n{content.strip()}\n'
+        return content
+
     def div_emit(self, node: DocNode):
         return self._emit_content(node)
 
-- 
2.43.0


From 55a46e89c10222c1c80158146f7435f74e7f8139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:30 +0000
Subject: [PATCH 080/122] fix: html2textile wrote the block after a
 preformatted block without a blank line

---
 creole/emitter/html2textile_emitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index 944609a..42eeb5e 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -32,8 +32,8 @@ class TextileEmitter(BaseEmitter):
     # --------------------------------------------------------------------------
 
     def blockdata_pre_emit(self, node):
-        """ pre block -> with newline at the end """
-        return f"<pre>{self.deentity.replace_all(node.content)}</pre>\n"
+        """ pre block -> with a blank line at the end """
+        return f"<pre>{self.deentity.replace_all(node.content)}</pre>\n\n"
 
     def inlinedata_pre_emit(self, node):
         """ a pre inline block -> no newline at the end """
-- 
2.43.0


From f0108e0458bb0f078922c626d48f479a8a518443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:42 +0000
Subject: [PATCH 081/122] fix: html2textile wrote the block after a table
 without a blank line

---
 creole/emitter/html2textile_emitter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index 42eeb5e..4970523 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -127,6 +127,12 @@ class TextileEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
 
+    def table_emit(self, node):
+        # The block after the table needs a blank line
+        return f"{super().table_emit(node).rstrip()}\n\n"
+
+    # --------------------------------------------------------------------------
+
     def ul_emit(self, node):
         return self._list_emit(node, list_type="*")
 
-- 
2.43.0


From e0338a5db028d0433afebfada448985d730d1643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:57 +0000
Subject: [PATCH 082/122] fix: html2textile table cells that begin with
 emphasis or end with an image

---
 creole/emitter/html2textile_emitter.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index 4970523..f81dcae 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -131,6 +131,15 @@ class TextileEmitter(BaseEmitter):
         # The block after the table needs a blank line
         return f"{super().table_emit(node).rstrip()}\n\n"
 
+    def _escape_linebreaks(self, text):
+        text = super()._escape_linebreaks(text)
+        if self._table is not None:
+            if text.startswith("_"):  # would be the mark of a table head cell
+                text = f" {text}"
+            if text.endswith("!"):  # a image must be followed by a space
+                text = f"{text} "
+        return text
+
     # --------------------------------------------------------------------------
 
     def ul_emit(self, node):
-- 
2.43.0


From f206ab87f8935a4ce236f3d6b117a0904f31e1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:55 +0000
Subject: [PATCH 083/122] fix: html2textile wrote line breaks in lists and
 table cells as backslashes

---
 creole/emitter/html2textile_emitter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index f81dcae..52a9168 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -49,6 +49,9 @@ class TextileEmitter(BaseEmitter):
     def p_emit(self, node):
         return f"{self.emit_children(node)}\n\n"
 
+    def br_emit(self, node):
+        return "\n"
+
     def headline_emit(self, node):
         return f"h{node.level:d}. {self.emit_children(node)}\n\n"
 
@@ -132,7 +135,8 @@ class TextileEmitter(BaseEmitter):
         return f"{super().table_emit(node).rstrip()}\n\n"
 
     def _escape_linebreaks(self, text):
-        text = super()._escape_linebreaks(text)
+        # Backslashes are no line break in textile
+        text = "\n".join(line.strip() for line in text.split("\n") if line.strip())
         if self._table is not None:
             if text.startswith("_"):  # would be the mark of a table head cell
                 text = f" {text}"
-- 
2.43.0


From e840880dead589057e8d595de860eda1773be0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:40 +0000
Subject: [PATCH 084/122] fix: html2textile ended the list after a list item
 with a paragraph

---
 creole/emitter/html2textile_emitter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index 52a9168..fa5de24 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -9,6 +9,7 @@
 
 
 import posixpath
+import re
 
 from creole.shared.base_emitter import BaseEmitter
 
@@ -146,6 +147,10 @@ class TextileEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
 
+    def li_emit(self, node):
+        # A blank line would be the end of the list
+        return re.sub(r"\n\s*\n", "\n", super().li_emit(node)).rstrip("\n")
+
     def ul_emit(self, node):
         return self._list_emit(node, list_type="*")
 
-- 
2.43.0


From 5640bbc971a20a723c19e5b1babfd5e27ad635fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:11 +0000
Subject: [PATCH 085/122] fix: html2rest headlines of three characters before a
 headline of a upper level were not read back

---
 creole/emitter/html2rest_emitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 9bb918e..8a7dd37 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -133,8 +133,8 @@ class ReStructuredTextEmitter(BaseEmitter):
             level = 6
 
         char, both = self.HEADLINE_DATA[level]
-        # A single "-" would be the mark of a list item
-        markup = char * max(2, column_width(text))
+        # Less than four characters can be something else, e.g.: "-" is the mark of a list item
+        markup = char * max(4, column_width(text))
 
         if both:
             format = "%(m)s\n%(t)s\n%(m)s\n\n"
-- 
2.43.0


From a5696f9ad7dc2aaad4df628b452632d4a90b73fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:33 +0000
Subject: [PATCH 086/122] fix: html2markdown removed the spaces at the border
 of code

---
 creole/emitter/html2markdown_emitter.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index d082b00..33d05a8 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -247,12 +247,20 @@ class MarkdownEmitter(BaseEmitter):
         return not any(neighbour.kind in BLOCK_KINDS for neighbour in (before, after))
 
     def code_emit(self, node: DocNode):
-        code_block = ' '.join(self.emit_children(node).split('\n')).strip()
+        content = ' '.join(self.emit_children(node).split('\n'))
+        code_block = content.strip()
+        if not code_block:
+            return content[:1]
 
         if '`' in code_block:
-            return f'``{code_block}``'
+            code_block = f'``{code_block}``'
         else:
-            return f'`{code_block}`'
+            code_block = f'`{code_block}`'
+
+        # Spaces at the border stay outside of the code
+        before = ' ' if content.startswith(' ') else ''
+        after = ' ' if content.endswith(' ') else ''
+        return f'{before}{code_block}{after}'
 
     # --------------------------------------------------------------------------
 
-- 
2.43.0


From a307c5f6573f77b489fe797b346a42cadcda5653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:38 +0000
Subject: [PATCH 087/122] fix: html2markdown code with double backticks or
 backticks at the border was broken

---
 creole/emitter/html2markdown_emitter.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 33d05a8..323c2f8 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -252,10 +252,12 @@ class MarkdownEmitter(BaseEmitter):
         if not code_block:
             return content[:1]
 
-        if '`' in code_block:
-            code_block = f'``{code_block}``'
-        else:
-            code_block = f'`{code_block}`'
+        mark = '`'
+        while mark in code_block:
+            mark += '`'
+        if code_block.startswith('`') or code_block.endswith('`'):
+            code_block = f' {code_block} '
+        code_block = f'{mark}{code_block}{mark}'
 
         # Spaces at the border stay outside of the code
         before = ' ' if content.startswith(' ') else ''
-- 
2.43.0


From 8c77c129dff7f238b509ea97d1b85ec43a645b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:22 +0000
Subject: [PATCH 088/122] fix: html2markdown wrote the marks of nested code
 into the code

---
 creole/emitter/html2markdown_emitter.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 323c2f8..5b65e0a 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -246,7 +246,17 @@ class MarkdownEmitter(BaseEmitter):
         after = siblings[index + 1] if index + 1 < len(siblings) else node.parent
         return not any(neighbour.kind in BLOCK_KINDS for neighbour in (before, after))
 
+    def _is_in_code(self, node: DocNode):
+        while node.parent is not None:
+            node = node.parent
+            if node.kind in ('code', 'tt'):
+                return True
+        return False
+
     def code_emit(self, node: DocNode):
+        if self._is_in_code(node):  # the marks would be a part of the code
+            return self.emit_children(node)
+
         content = ' '.join(self.emit_children(node).split('\n'))
         code_block = content.strip()
         if not code_block:
-- 
2.43.0


From b340d5c5f4659e4efabe9c44ff2400096905aa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:22 +0000
Subject: [PATCH 089/122] fix: html2textile glued words together at a line
 break in an inline tag in a list

---
 creole/emitter/html2textile_emitter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index fa5de24..2222358 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -11,6 +11,7 @@
 import posixpath
 import re
 
+from creole.parser.html_parser_config import BLOCK_TAGS
 from creole.shared.base_emitter import BaseEmitter
 
 
@@ -145,7 +146,11 @@ class TextileEmitter(BaseEmitter):
                 text = f"{text} "
         return text
 
-    # --------------------------------------------------------------------------
+    def _emit_content(self, node):
+        if node.kind not in BLOCK_TAGS:
+            # Line breaks in a list need no mask
+            return self.emit_children(node)
+        return super()._emit_content(node)
 
     def li_emit(self, node):
         # A blank line would be the end of the list
-- 
2.43.0


From 61cdd7aa83b600cb76b4e33da29eb55c08beefcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 090/122] fix: rest2html: no classes and end tags of divs that
 docutils writes without starttag()

---
 creole/rest_tools/clean_writer.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/creole/rest_tools/clean_writer.py b/creole/rest_tools/clean_writer.py
index 1f37051..ea390ce 100644
--- a/creole/rest_tools/clean_writer.py
+++ b/creole/rest_tools/clean_writer.py
@@ -14,6 +14,7 @@
 """
 
 
+import re
 import sys
 
 from creole.exceptions import DocutilsImportError
@@ -47,7 +48,11 @@ IGNORE_ATTR = (
 IGNORE_TAGS = (
     "div",
 )
-IGNORE_END_TAGS = tuple(f"</{tagname}>\n" for tagname in IGNORE_TAGS)
+
+# docutils doesn't make all tags with starttag() and we ignore only the start tags there
+ignore_re = re.compile(
+    fr"""</?(?:{'|'.join(IGNORE_TAGS)})\b[^>]*>\n? | (?<=["\w])\ (?:class|id)="[^"]*" """, re.VERBOSE
+)
 
 
 class CleanHTMLWriter(html4css1.Writer):
@@ -129,11 +134,9 @@ class CleanHTMLTranslator(html4css1.HTMLTranslator):
 
     # set only html_body, we used in rest2html() and don't surround it with <div>
     def depart_document(self, node):
-        # starttag() ignores the start tags: Remove the end tags, too.
-        self.body = [part for part in self.body if part not in IGNORE_END_TAGS]
-
+        parts = self.body_prefix[1:] + self.body_pre_docinfo + self.docinfo + self.body + self.body_suffix[:-1]
         self.html_body.extend(
-            self.body_prefix[1:] + self.body_pre_docinfo + self.docinfo + self.body + self.body_suffix[:-1]
+            part if part.startswith('<!--') else ignore_re.sub('', part) for part in parts
         )
         assert not self.context, f'len(context) = {len(self.context)}'
 
-- 
2.43.0


From f8371d135aad57c98ca7e009db10e111fd61f094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 091/122] fix: rest2html: don't glue the lines of line blocks
 and the text of block quotes, containers and legends

---
 creole/rest_tools/clean_writer.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/creole/rest_tools/clean_writer.py b/creole/rest_tools/clean_writer.py
index ea390ce..d72c834 100644
--- a/creole/rest_tools/clean_writer.py
+++ b/creole/rest_tools/clean_writer.py
@@ -22,6 +22,7 @@ from creole.exceptions import DocutilsImportError
 
 try:
     import docutils
+    from docutils import nodes
     from docutils.core import publish_parts
     from docutils.writers import html4css1
 except ImportError:
@@ -54,6 +55,12 @@ ignore_re = re.compile(
     fr"""</?(?:{'|'.join(IGNORE_TAGS)})\b[^>]*>\n? | (?<=["\w])\ (?:class|id)="[^"]*" """, re.VERBOSE
 )
 
+# The tags of these nodes are ignored: Only a <p> separates the text from the text around it
+SEPARATED_NODES = (
+    nodes.block_quote, nodes.container, nodes.legend, nodes.header, nodes.footer,
+)
+LINE_BREAK = "<br />\n"
+
 
 class CleanHTMLWriter(html4css1.Writer):
     """
@@ -132,6 +139,28 @@ class CleanHTMLTranslator(html4css1.HTMLTranslator):
     visit_block_quote = _do_nothing
     depart_block_quote = _do_nothing
 
+    def should_be_compact_paragraph(self, node):
+        if isinstance(node.parent, SEPARATED_NODES):
+            return False
+        return super().should_be_compact_paragraph(node)
+
+    # The lines of a line block are divs, too
+    def visit_line_block(self, node):
+        if not isinstance(node.parent, nodes.line_block):
+            self.body.append(self.starttag(node, 'p', ''))
+
+    def depart_line_block(self, node):
+        if not isinstance(node.parent, nodes.line_block):
+            if self.body[-1] == LINE_BREAK:  # after the last line
+                del self.body[-1]
+            self.body.append('</p>\n')
+
+    def visit_line(self, node):
+        pass
+
+    def depart_line(self, node):
+        self.body.append(LINE_BREAK)
+
     # set only html_body, we used in rest2html() and don't surround it with <div>
     def depart_document(self, node):
         parts = self.body_prefix[1:] + self.body_pre_docinfo + self.docinfo + self.body + self.body_suffix[:-1]
-- 
2.43.0


From b374156d46f2ba244c261448b3c04d7c9963f2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 092/122] fix: a incomplete character at the end of a source
 file was silently ignored

---
 creole/cmdline.py     | 6 +++---
 creole/setup_utils.py | 6 ++----
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/creole/cmdline.py b/creole/cmdline.py
index 9a7d816..0077fcb 100644
--- a/creole/cmdline.py
+++ b/creole/cmdline.py
@@ -8,7 +8,6 @@
 
 
 import argparse
-import codecs
 
 from creole import VERSION_STRING, creole2html, html2creole, html2rest, html2textile
 
@@ -48,8 +47,9 @@ class CreoleCLI:
             f" (codec: {encoding})"
         )
 
-        with codecs.open(sourcefile, "r", encoding=encoding) as infile:
-            content = infile.read()
+        # Decode all at once: codecs.open() ignores a incomplete character at the end of the file
+        with open(sourcefile, "rb") as infile:
+            content = infile.read().decode(encoding)
 
         converted = self.convert_func(content).encode(encoding)
 
diff --git a/creole/setup_utils.py b/creole/setup_utils.py
index 189c28f..b5acbca 100644
--- a/creole/setup_utils.py
+++ b/creole/setup_utils.py
@@ -12,7 +12,6 @@
     :license: GNU GPL v3 or above, see LICENSE for more details.
 """
 
-import codecs
 import datetime
 import os
 import sys
@@ -67,9 +66,8 @@ def get_long_description(package_root, filename='README.creole', raise_errors=No
     long_description_origin = ''
     try:
         # Read creole README
-        f = codecs.open(filepath, 'r', encoding='utf-8')
-        long_description_origin = f.read().strip()
-        f.close()
+        with open(filepath, 'rb') as f:
+            long_description_origin = f.read().decode('utf-8').strip()
 
         # convert creole into html
         long_description_html = creole2html(long_description_origin)
-- 
2.43.0


From 09cc9129ae0ae6af1b13ec25bdcaa078df73dda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 093/122] fix: a README with broken bytes (e.g. after a aborted
 write) was never updated

---
 creole/setup_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/creole/setup_utils.py b/creole/setup_utils.py
index b5acbca..6c037df 100644
--- a/creole/setup_utils.py
+++ b/creole/setup_utils.py
@@ -149,7 +149,8 @@ def _remove_note(content):
 def _write_readme(*, readme_path, readme, creole_readme_path):
     if readme_path.is_file():
         # Check if content was changed
-        old_content = readme_path.read_text(encoding='utf-8')
+        # A broken file (e.g.: after a aborted write) isn't up-to-date
+        old_content = readme_path.read_text(encoding='utf-8', errors='replace')
         if _remove_note(old_content) == readme:
             # The existing README is up-to-date: Don't change the timestamp
             print('nothing changed, ok.')
@@ -221,7 +222,7 @@ def assert_rst_readme(package_root, filename='README.creole'):
     creole_readme_path = Path(package_root, filename)
     rest_readme = _generate_rst_readme(creole_readme_path=creole_readme_path)
     rest_readme_path = creole_readme_path.with_suffix('.rst')
-    content = rest_readme_path.read_text(encoding='UTF-8')
+    content = rest_readme_path.read_text(encoding='UTF-8', errors='replace')
 
     assert len(content) > 0, f'Empty content in {rest_readme_path}'
     content = _remove_note(content)
@@ -238,7 +239,7 @@ def assert_markdown_readme(package_root, filename='README.creole'):
     creole_readme_path = Path(package_root, filename)
     markdown_readme = _generate_markdown_readme(creole_readme_path=creole_readme_path)
     markdown_readme_path = creole_readme_path.with_suffix('.md')
-    content = markdown_readme_path.read_text(encoding='UTF-8')
+    content = markdown_readme_path.read_text(encoding='UTF-8', errors='replace')
 
     assert len(content) > 0, f'Empty content in {markdown_readme_path}'
     content = _remove_note(content)
-- 
2.43.0


From 102b6fde4285e292522d8faec4f46739f5ff7617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 094/122] fix: update_rst_readme() wrote a not valid README.rst
 if the source ends with a headline or is empty

---
 creole/setup_utils.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/creole/setup_utils.py b/creole/setup_utils.py
index 6c037df..af37f4f 100644
--- a/creole/setup_utils.py
+++ b/creole/setup_utils.py
@@ -31,6 +31,9 @@ RAISE_ERRORS_ARGS = (
     '--long-description', '--restructuredtext',
 )
 
+# Between the generated content and the note about the generation
+NOTE_SEPARATOR = '\n\n------------\n\n'
+
 
 def should_raise_errors():
     """
@@ -116,9 +119,11 @@ def _generate_rst_readme(*, creole_readme_path):
 
     # Check if generated ReSt is valid, see also:
     # https://pypi.org/help/#description-content-type
-    rendered = render(rest_readme, stream=sys.stderr)
-    if rendered is None:
-        sys.exit(1)
+    # The note is a part of the file: A headline at the end can't be followed by a transition
+    for content in (rest_readme, f'{rest_readme}{NOTE_SEPARATOR}note'):
+        rendered = render(content, stream=sys.stderr)
+        if rendered is None:
+            sys.exit(1)
 
     return rest_readme
 
@@ -163,7 +168,7 @@ def _write_readme(*, readme_path, readme, creole_readme_path):
     dt = dt.isoformat(sep=' ')
     note = f'``Note: this file is generated from {creole_readme_path.name} {dt} with "python-creole"``'
 
-    readme_path.write_bytes(f'{readme}\n\n------------\n\n{note}'.encode('utf-8'))
+    readme_path.write_bytes(f'{readme}{NOTE_SEPARATOR}{note}'.encode('utf-8'))
     print('done.')
 
 
-- 
2.43.0


From d2f935d4241a5bcc054e4744dfae6066c13c2269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 095/122] fix: links with text, images, macros and code with |
 in table head cells were split

---
 creole/parser/creol2html_parser.py | 7 +++----
 creole/parser/creol2html_rules.py  | 6 ++----
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/creole/parser/creol2html_parser.py b/creole/parser/creol2html_parser.py
index 0a7bb3d..c92fdc9 100644
--- a/creole/parser/creol2html_parser.py
+++ b/creole/parser/creol2html_parser.py
@@ -325,13 +325,12 @@ class CreoleParser:
         tr = DocNode('table_row', tb)
 
         for m in self.cell_re.finditer(row):
-            cell = m.group('cell')
-            if cell is not None:
-                text = cell.strip()
+            text = m.group('cell').strip()
+            if m.group('head') is None:
                 self.cur = DocNode('table_cell', tr)
                 self.text = None
             else:
-                text = m.group('head').strip('= ')
+                text = text.strip('= ')
                 self.cur = DocNode('table_head', tr)
                 self.text = DocNode('text', self.cur, "")
             self.parse_inline(text)
diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index 821f7db..101a2ab 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -186,10 +186,8 @@ class SpecialRules:
     # For splitting table cells:
     cell = r'''
             \| \s*
-            (
-                (?P<head> [=][^|]+ ) |
-                (?P<cell> (  %s | [^|])+ | (?=\|) )
-            ) \s*
+            (?P<head> [=] (?=[^|]) )?
+            (?P<cell> (  %s | [^|])+ | (?=\|) ) \s*
         ''' % '|'.join([
         InlineRules.link,
         InlineRules.macro_inline, InlineRules.macro_tag,
-- 
2.43.0


From 242c7c4a00c724df599a2745d29aa88f3d75c10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 096/122] fix: html2markdown tables with a head only were no
 tables

---
 creole/shared/markup_table.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/creole/shared/markup_table.py b/creole/shared/markup_table.py
index ac70aa5..4ccdf62 100644
--- a/creole/shared/markup_table.py
+++ b/creole/shared/markup_table.py
@@ -114,11 +114,11 @@ class MarkupTable:
 
         lines = []
         for no, row in enumerate(cells):
-            if no == 1 and self.has_header:
-                cells = ['-' * (width - 2) for width in widths]
-                lines.append(f'| {" | ".join(cells)} |')
             cells = [cell.ljust(width) for cell, width in zip(row, widths)]
             lines.append(f'|{"|".join(cells)}|')
+            if no == 0 and self.has_header:
+                cells = ['-' * (width - 2) for width in widths]
+                lines.append(f'| {" | ".join(cells)} |')
 
         result = "\n".join(lines)
 
-- 
2.43.0


From e1d88d046d30064e087fadb9596cfeb5ebc25380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:26 +0000
Subject: [PATCH 097/122] fix: html2markdown took an unknown <list> tag for a
 html list

---
 creole/emitter/html2markdown_emitter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 5b65e0a..6271c35 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -206,14 +206,14 @@ class MarkdownEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
 
-    def list_emit(self, node: DocNode):
+    def _any_list_emit(self, node: DocNode):
         content = self.emit_children(node)
         if node.level == 1:
             return f'\n{content}\n'
         return content
 
-    ul_emit = list_emit
-    ol_emit = list_emit
+    ul_emit = _any_list_emit
+    ol_emit = _any_list_emit
 
     def li_emit(self, node: DocNode):
         list_node = node.parent
-- 
2.43.0


From b20805628ffbace43e1f06f3fff061a27531df1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 098/122] fix: html2markdown wrote titles with quote signs that
 end the title

---
 creole/emitter/html2markdown_emitter.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 6271c35..fd68b72 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -42,6 +42,16 @@ def quote_link(uri):
     return urlunparse(ParseResult(scheme, netloc, *(quote(part, safe=safe, errors='replace') for part in parts)))
 
 
+def quote_title(title):
+    """
+    A quote sign would end the title of a link or image
+
+    >>> quote_title('a "foo" bar')
+    'a &quot;foo&quot; bar'
+    """
+    return (title or '').replace('"', '&quot;')
+
+
 class MarkdownEmitter(BaseEmitter):
     """
     Build from a document_tree (html2creole.parser.HtmlParser instance) a
@@ -186,7 +196,7 @@ class MarkdownEmitter(BaseEmitter):
             # e.g.: <a name="anchor-one">foo</a>
             return link_text
 
-        title = node.attrs.get('title')
+        title = quote_title(node.attrs.get('title'))
         if title:
             return f'[{link_text}]({url} "{title}")'
         else:
@@ -197,7 +207,7 @@ class MarkdownEmitter(BaseEmitter):
         if not src:  # there is no image, e.g. it is lazy loaded
             return node.attrs.get('alt', '')
 
-        title = node.attrs.get('title')
+        title = quote_title(node.attrs.get('title'))
         alt = node.attrs.get('alt', '')
         if title and alt:
             return f'![{alt}]({src} "{title}")'
-- 
2.43.0


From 2b6ef726f58182cec68de4b5f01ba639197e3089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:11 +0000
Subject: [PATCH 099/122] fix: a macro tag was taken for the begin of a macro
 with a shorter name

---
 creole/parser/creol2html_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index 101a2ab..0761216 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -59,7 +59,7 @@ class InlineRules:
     # a macro like: <<macro>>text<</macro>>
     macro_inline = r'''
         (?P<macro_inline>
-        << \s* (?P<macro_inline_start>\w+) \s* (?P<macro_inline_args>.*?) \s* >>
+        << \s* (?P<macro_inline_start>\w+)\b \s* (?P<macro_inline_args>.*?) \s* >>
         (?P<macro_inline_text>(.|\n)*?)
         <</ \s* (?P=macro_inline_start) \s* >>
         )
@@ -111,7 +111,7 @@ class BlockRules:
 
     macro_block = r'''
         (?P<macro_block>
-        << \s* (?P<macro_block_start>\w+) \s* (?P<macro_block_args>.*?) \s* >>
+        << \s* (?P<macro_block_start>\w+)\b \s* (?P<macro_block_args>.*?) \s* >>
         (?P<macro_block_text>(.|\n)*?)
         <</ \s* (?P=macro_block_start) \s* >>
         )
-- 
2.43.0


From b9c98485988e2d6d4aaf8f75ba20a104198bea73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:10 +0000
Subject: [PATCH 100/122] fix: text with many < and without > took minutes in
 the html converters

---
 creole/html_tools/strip_html.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/creole/html_tools/strip_html.py b/creole/html_tools/strip_html.py
index fd227ae..a9d4bf9 100644
--- a/creole/html_tools/strip_html.py
+++ b/creole/html_tools/strip_html.py
@@ -18,7 +18,8 @@ strip_html_regex = re.compile(
         \s*
         <
             (?P<end>/{0,1})       # end tag e.g.: </end>
-            (?P<tag>[^ >]+)       # tag name
+            (?=(?P<tag>[^ >]+))   # tag name
+            (?P=tag)              # never tried again with a shorter name: very slow, if there is no ">"
             .*?
             (?P<startend>/{0,1})  # closed tag e.g.: <closed />
         >
-- 
2.43.0


From 57c784d09abe506dcafcee229b3ca392f9e91312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:06 +0000
Subject: [PATCH 101/122] fix: many macro tags, unclosed links, unclosed images
 or spaces in a table took minutes

---
 creole/parser/creol2html_rules.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index 0761216..80c0ee7 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -30,6 +30,7 @@ class InlineRules:
     # )''' % proto
     link = r'''(?P<link>
             \[\[
+            (?= [\s\S]+? ]])  # without an end all combinations of the next lines would be tried
             (?P<link_target>.+?) \s*
             ([|] \s* (?P<link_text>.+?) \s*)?
             ]]
@@ -50,6 +51,7 @@ class InlineRules:
     # image tag
     image = r'''(?P<image>
             {{
+            (?= [\s\S]+? }})
             (?P<image_target>.+?) \s*
             (\| \s* (?P<image_text>.+?) \s*)?
             }}
@@ -59,7 +61,9 @@ class InlineRules:
     # a macro like: <<macro>>text<</macro>>
     macro_inline = r'''
         (?P<macro_inline>
-        << \s* (?P<macro_inline_start>\w+)\b \s* (?P<macro_inline_args>.*?) \s* >>
+        << \s* (?P<macro_inline_start>\w+)\b
+        (?= [\s\S]*? <</ \s* (?P=macro_inline_start) \s* >> )
+        \s* (?P<macro_inline_args>.*?) \s* >>
         (?P<macro_inline_text>(.|\n)*?)
         <</ \s* (?P=macro_inline_start) \s* >>
         )
@@ -111,7 +115,9 @@ class BlockRules:
 
     macro_block = r'''
         (?P<macro_block>
-        << \s* (?P<macro_block_start>\w+)\b \s* (?P<macro_block_args>.*?) \s* >>
+        << \s* (?P<macro_block_start>\w+)\b
+        (?= [\s\S]*? <</ \s* (?P=macro_block_start) \s* >> )
+        \s* (?P<macro_block_args>.*?) \s* >>
         (?P<macro_block_text>(.|\n)*?)
         <</ \s* (?P=macro_block_start) \s* >>
         )
@@ -143,10 +149,7 @@ class BlockRules:
         ( \n[ \t]* [*\#]+.* $ )*
     )'''
 
-    table = r'''^ \s*(?P<table>
-            [|].*? [ \t]*
-            [|]?
-        ) [ \t]* $'''
+    table = r'''^ \s*(?P<table> [|].* ) $'''
 
     re_flags = re.VERBOSE | re.UNICODE | re.MULTILINE
 
-- 
2.43.0


From e42f363693acd6a5aa57a03b8c7150d8bfe69a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:40 +0000
Subject: [PATCH 102/122] fix: the text <<toc>> in the result of a macro isn't
 the place of the table of contents

---
 creole/emitter/creol2html_emitter.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 5838f18..3f4bd9e 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -9,6 +9,7 @@
 import json
 import sys
 import traceback
+import uuid
 from xml.sax.saxutils import escape
 
 from creole.parser.creol2html_parser import CreoleParser
@@ -21,6 +22,8 @@ class TableOfContent:
         self.headlines = []
         self._created = False
         self._current_level = 0
+        # no macro can have the same text in its own output
+        self._marker = f'<<toc {uuid.uuid4().hex}>>'
 
     def __call__(self, depth=None, **kwargs):
         """Called when if the macro <<toc>> is defined when it is emitted."""
@@ -34,7 +37,7 @@ class TableOfContent:
         if depth is not None:
             self.max_depth = depth
 
-        return '<<toc>>'
+        return self._marker
 
     def add_headline(self, level, content):
         """Add the current header to the toc."""
@@ -92,10 +95,11 @@ class TableOfContent:
 
         # FIXME: We should not use <p> here, because it doesn't match
         #        if no newline was made before <<toc>>
-        if "<p><<toc>></p>" in document:
-            document = document.replace("<p><<toc>></p>", html, 1)
+        paragraph = f"<p>{self._marker}</p>"
+        if paragraph in document:
+            document = document.replace(paragraph, html, 1)
         else:
-            document = document.replace("<<toc>>", html, 1)
+            document = document.replace(self._marker, html, 1)
 
         return document
 
-- 
2.43.0


From 3262d205d22356e5314489712e2da0f513751a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:08 +0000
Subject: [PATCH 103/122] fix: a ">" in the value of a html attribute was taken
 for the end of the tag

White space in the value and behind the tag was changed. The same if the first attribute is in another line or behind a tab.
---
 creole/html_tools/strip_html.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/creole/html_tools/strip_html.py b/creole/html_tools/strip_html.py
index a9d4bf9..c19c7ba 100644
--- a/creole/html_tools/strip_html.py
+++ b/creole/html_tools/strip_html.py
@@ -18,10 +18,16 @@ strip_html_regex = re.compile(
         \s*
         <
             (?P<end>/{0,1})       # end tag e.g.: </end>
-            (?=(?P<tag>[^ >]+))   # tag name
+            (?P<decl>[!?])?       # e.g.: <!-- comment -->
+            (?=(?P<tag>[^\s/>]+)) # tag name
             (?P=tag)              # never tried again with a shorter name: very slow, if there is no ">"
-            .*?
-            (?P<startend>/{0,1})  # closed tag e.g.: <closed />
+            (?(decl)[^>]*|(?:
+                # attributes: A ">" in a quoted value is not the end of the tag
+                (?=(?P<attrs>(?:=\s*(?:"[^"]*"|'[^']*')|[^>])*))
+                (?P=attrs)(?=>)
+            |
+                [^>]*
+            ))
         >
         \s*
     """,
@@ -59,7 +65,7 @@ def strip_html(html_code):
     def strip_tag(match):
         block = match.group(0)
         end_tag = match.group("end") in ("/", "/")
-        startend_tag = match.group("startend") in ("/", "/")
+        startend_tag = block.rstrip().endswith("/>")  # closed tag e.g.: <closed />
         tag = match.group("tag")
 
 #        print("_"*40)
-- 
2.43.0


From 4658356f7e3f684e24463649168a21a6e25fdd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:34 +0000
Subject: [PATCH 104/122] fix: the mark of a missing newline in a diff was
 written into the line before

---
 creole/shared/diff_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/shared/diff_utils.py b/creole/shared/diff_utils.py
index b6fa05d..5f6103f 100644
--- a/creole/shared/diff_utils.py
+++ b/creole/shared/diff_utils.py
@@ -29,6 +29,6 @@ def unified_diff(old, new, filename=None):
 
         # Work around missing newline (http://bugs.python.org/issue2142).
         if text and not line.endswith('\n'):
-            text += 'n\\ No newline at end of file\n'
+            text += '\n\\ No newline at end of file\n'
 
     return text
-- 
2.43.0


From 84c6abb80eff6b47bac7c6033c633a6c33839e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:39 +0000
Subject: [PATCH 105/122] fix: the diff of texts with form feeds or unicode
 line separators was not applicable

---
 creole/shared/diff_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/creole/shared/diff_utils.py b/creole/shared/diff_utils.py
index 5f6103f..5dc857a 100644
--- a/creole/shared/diff_utils.py
+++ b/creole/shared/diff_utils.py
@@ -4,6 +4,7 @@
 """
 
 import difflib
+import re
 
 
 def unified_diff(old, new, filename=None):
@@ -18,8 +19,9 @@ def unified_diff(old, new, filename=None):
         tofile = f'new / {filename}'
 
     if isinstance(old, str) and isinstance(new, str):
-        old = old.splitlines(keepends=True)
-        new = new.splitlines(keepends=True)
+        # Only a newline ends the line of a diff
+        old = re.findall(r'[^\n]*\n|[^\n]+', old)
+        new = re.findall(r'[^\n]*\n|[^\n]+', new)
 
     diff = difflib.unified_diff(old, new, fromfile=fromfile, tofile=tofile)
 
-- 
2.43.0


From abe2ef5bf70f826d946df1b664560202d8d28f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:24 +0000
Subject: [PATCH 106/122] fix: a own macro with the name toc, e.g. a function,
 made the conversion fail

---
 creole/emitter/creol2html_emitter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 3f4bd9e..ccb0d2c 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -138,6 +138,10 @@ class HtmlEmitter:
                 except AttributeError:
                     self.toc = TableOfContent()
 
+            if not hasattr(self.toc, "add_headline"):
+                # A own macro with this name, there is no table of contents
+                self.toc = None
+
         if verbose is None:
             self.verbose = 1
         else:
@@ -313,7 +317,7 @@ class HtmlEmitter:
         macro_kwargs["text"] = text
 
         exc_info = None
-        if macro_name == "toc":
+        if macro_name == "toc" and self.toc is not None:
             # maybe the default one, which is not in the given macros
             macro = self.toc
         elif isinstance(self.macros, dict):
-- 
2.43.0


From 7fd80cf8ef961dc10120c37ab43259ee4602494e Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 03:52:21 +0000
Subject: [PATCH 107/122] fix: the lines of a <pre> with attributes or in upper
 case were lost

---
 creole/parser/html_parser.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 70abb10..2e0367b 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -18,22 +18,25 @@ from creole.shared.document_tree import DebugList, DocNode
 
 # ------------------------------------------------------------------------------
 
-block_re = re.compile(r'''
-    ^<pre> [^\S\n]* $
+# <pre> with optional attributes, a ">" in a quoted value is not the end of the tag
+pre_start = r'''<pre (?: \s (?: [^"'>] | "[^"]*" | '[^']*' )* )? (?<!/)>'''
+
+block_re = re.compile(fr'''
+    ^{pre_start} [^\S\n]* $
     (?P<pre_block>
-        ((?!</pre>)(\n|.))*?
+        ((?!</pre\s*>)(\n|.))*?
     )
-    ^</pre> \s* $
+    ^</pre\s*> \s* $
     [\s\n]*
-''', re.VERBOSE | re.UNICODE | re.MULTILINE)
+''', re.VERBOSE | re.UNICODE | re.MULTILINE | re.IGNORECASE)
 
-inline_re = re.compile(r'''
-    <pre>
+inline_re = re.compile(fr'''
+    {pre_start}
     (?P<pre_inline>
         (\n|.)*?
     )
-    </pre>
-''', re.VERBOSE | re.UNICODE)
+    </pre\s*>
+''', re.VERBOSE | re.UNICODE | re.IGNORECASE)
 
 
 # Everything that looks like a character reference (but not in script/style areas)
-- 
2.43.0


From b5df52170b2962a58d761788b6bf097ecf08c48e Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 03:53:01 +0000
Subject: [PATCH 108/122] fix: the tags of <pre><code> areas and of a syntax
 highlighter became text

---
 creole/emitter/html2creole_emitter.py   |  6 +++++-
 creole/emitter/html2markdown_emitter.py |  2 +-
 creole/emitter/html2rest_emitter.py     |  4 ++--
 creole/emitter/html2textile_emitter.py  |  4 ++--
 creole/parser/html_parser.py            |  5 +++--
 creole/shared/base_emitter.py           | 14 ++++++++++++++
 6 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/creole/emitter/html2creole_emitter.py b/creole/emitter/html2creole_emitter.py
index ad568bf..107afb2 100644
--- a/creole/emitter/html2creole_emitter.py
+++ b/creole/emitter/html2creole_emitter.py
@@ -35,7 +35,11 @@ class CreoleEmitter(BaseEmitter):
     # --------------------------------------------------------------------------
 
     def _pre_content(self, node):
-        content = self.deentity.replace_all(node.content)
+        content = node.content
+        if "\n" in content:
+            content = self._pre_text(content)
+        else:  # the tags in a inline nowiki are a part of the text
+            content = self.deentity.replace_all(content)
         if "\n" in content:
             # Escape lines that would end the pre block
             content = re.sub(r"^(}}}[ \t]*)$", r"~\1", content, flags=re.MULTILINE)
diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index fd68b72..4f3a752 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -122,7 +122,7 @@ class MarkdownEmitter(BaseEmitter):
                 language = language_match['language']
             code = re.sub(r'<[^>]*>', '', match['code'])  # remove e.g. syntax highlighting
 
-        code = self.deentity.replace_all(code).strip('\n')
+        code = self._pre_text(code).strip('\n')
 
         fence = '```'
         while fence in code:
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 8a7dd37..f56bf0c 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -59,7 +59,7 @@ class ReStructuredTextEmitter(BaseEmitter):
 
     def blockdata_pre_emit(self, node):
         """ pre block -> with newline at the end """
-        pre_block = self.deentity.replace_all(node.content).rstrip()
+        pre_block = self._pre_text(node.content).rstrip()
         pre_block = re.sub(r"\A([ \t]*\n)+", "", pre_block)  # blank lines at the begin
         pre_block = "\n".join(f"    {line}" for line in pre_block.splitlines())
         return f"::\n\n{pre_block}\n\n"
@@ -68,7 +68,7 @@ class ReStructuredTextEmitter(BaseEmitter):
         """ a pre inline block -> no newline at the end """
         if self._is_pre_block(node):
             return self.blockdata_pre_emit(node)
-        return f"<pre>{self.deentity.replace_all(node.content)}</pre>"
+        return f"<pre>{self._pre_text(node.content)}</pre>"
 
     def _is_pre_block(self, node):
         return super()._is_pre_block(node) and not self._list_markup
diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index 2222358..8f2598d 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -35,13 +35,13 @@ class TextileEmitter(BaseEmitter):
 
     def blockdata_pre_emit(self, node):
         """ pre block -> with a blank line at the end """
-        return f"<pre>{self.deentity.replace_all(node.content)}</pre>\n\n"
+        return f"<pre>{self._pre_text(node.content)}</pre>\n\n"
 
     def inlinedata_pre_emit(self, node):
         """ a pre inline block -> no newline at the end """
         if self._is_pre_block(node):
             return self.blockdata_pre_emit(node)
-        return f"<pre>{self.deentity.replace_all(node.content)}</pre>"
+        return f"<pre>{self._pre_text(node.content)}</pre>"
 
     def blockdata_pass_emit(self, node):
         return f"{node.content}\n\n"
diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 2e0367b..ec7a402 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -38,6 +38,8 @@ inline_re = re.compile(fr'''
     </pre\s*>
 ''', re.VERBOSE | re.UNICODE | re.IGNORECASE)
 
+pre_br_re = re.compile(r"<br\s*/?>\n?", re.IGNORECASE)
+
 
 # Everything that looks like a character reference (but not in script/style areas)
 reference_re = re.compile(r'''
@@ -111,11 +113,10 @@ class HtmlParser(HTMLParser):
         self.__list_level = 0
 
     def _pre_cut(self, data, type, placeholder):
-        # TODO: Check if we have a code block, e.g.: "<pre><code>...</code></pre>"
         if self.debugging:
             print(f"append blockdata: {data!r}")
         assert isinstance(data, str), "blockdata is not unicode"
-        self.blockdata.append(data)
+        self.blockdata.append(pre_br_re.sub("\n", data))
         id = len(self.blockdata) - 1
         return f'<{placeholder} type="{type}" id="{id}" />'
 
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 4b82418..21bc048 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -8,6 +8,8 @@
 """
 
 
+import re
+
 from creole.html_tools.deentity import Deentity
 from creole.parser.html_parser_config import BLOCK_TAGS
 from creole.shared.markup_table import MarkupTable
@@ -17,6 +19,14 @@ from creole.shared.unknown_tags import transparent_unknown_nodes
 # block elements that are separated from the text before and after them
 SEPARATED_KINDS = ("headline",) + tuple(tag for tag in BLOCK_TAGS if tag != "br")
 
+# inline tags in a preformatted area, e.g. of a syntax highlighter or <pre><code>...</code></pre>
+pre_tag_re = re.compile(
+    r'''</?(?:
+        a|abbr|b|big|cite|code|del|em|font|i|ins|kbd|mark|q|s|samp|small|span|strike|strong|sub|sup|tt|u|var
+    )(?:\s(?:[^<"'>]|"[^"]*"|'[^']*')*)?/?>''',
+    re.VERBOSE | re.IGNORECASE
+)
+
 
 class BaseEmitter:
     """
@@ -43,6 +53,10 @@ class BaseEmitter:
 
     # --------------------------------------------------------------------------
 
+    def _pre_text(self, content):
+        """ The text of a <pre> area """
+        return self.deentity.replace_all(pre_tag_re.sub("", content))
+
     def blockdata_pass_emit(self, node):
         return f"{node.content}\n\n"
 
-- 
2.43.0


From dbc55b3dc78d5a29784b1eee43e2ab713c6f970e Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 03:56:29 +0000
Subject: [PATCH 109/122] fix: a nested list in e.g. a <div> or <blockquote> of
 a list item became text

---
 creole/emitter/html2rest_emitter.py |  3 +++
 creole/shared/base_emitter.py       | 15 +++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index f56bf0c..4027e2c 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -293,6 +293,9 @@ class ReStructuredTextEmitter(BaseEmitter):
         result = f"\n{'    ' * (node.level - 1)}{self._list_markup} {content}\n"
         return result
 
+    def _is_in_list(self):
+        return self._list_markup != ""
+
     def _list_emit(self, node, list_type):
         outer_list_markup = self._list_markup
         self._list_markup = list_type
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 21bc048..85ccb53 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -200,8 +200,23 @@ class BaseEmitter:
 
     # --------------------------------------------------------------------------
 
+    def _is_in_list(self):
+        return self._inner_list != ""
+
+    def _has_list(self, node):
+        nodes = list(node.children)
+        while nodes:
+            node = nodes.pop()
+            if node.kind in ("ul", "ol"):
+                return True
+            nodes += node.children
+        return False
+
     def _emit_content(self, node):
         content = self.emit_children(node)
+        if self._is_in_list() and self._has_list(node):
+            return content  # the items of a nested list stand on own lines
+
         if node.kind in BLOCK_TAGS:
             if self._inner_list == "":
                 content = content.strip()
-- 
2.43.0


From cfcc9923304aaa8a414a90b517af87acfc9da8bf Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 03:56:29 +0000
Subject: [PATCH 110/122] fix: html2rest wrote <pre> tags as text

---
 creole/emitter/html2rest_emitter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 4027e2c..2947e24 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -68,10 +68,14 @@ class ReStructuredTextEmitter(BaseEmitter):
         """ a pre inline block -> no newline at the end """
         if self._is_pre_block(node):
             return self.blockdata_pre_emit(node)
-        return f"<pre>{self._pre_text(node.content)}</pre>"
+        # There is no literal block in a list or table
+        lines = self._pre_text(node.content).splitlines()
+        return " ".join(f"``{line.strip()}``" for line in lines if line.strip())
 
     def _is_pre_block(self, node):
-        return super()._is_pre_block(node) and not self._list_markup
+        if node.kind != "inlinedata_pre" or self._list_markup or self._in_table:
+            return False
+        return node.content.strip() != ""
 
     def blockdata_pass_emit(self, node):
         return f"{node.content}\n\n"
-- 
2.43.0


From 54c0e7d53b59a1c010c0571b30d626ca4f730f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:21 +0000
Subject: [PATCH 111/122] fix: a <div> in a list item ended the list

---
 creole/emitter/html2textile_emitter.py | 2 ++
 creole/shared/base_emitter.py          | 9 +++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index 8f2598d..3269e3b 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -21,6 +21,8 @@ class TextileEmitter(BaseEmitter):
     creole markup text.
     """
 
+    _list_line_break = "\n"
+
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
 
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 85ccb53..35d1827 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -34,6 +34,8 @@ class BaseEmitter:
     creole markup text.
     """
 
+    _list_line_break = "\\\\"  # between block elements in a list item
+
     def __init__(self, document_tree, unknown_emit=None, debug=False):
         self.root = document_tree
 
@@ -219,10 +221,9 @@ class BaseEmitter:
 
         if node.kind in BLOCK_TAGS:
             if self._inner_list == "":
-                content = content.strip()
-            else:
+                content = f"{content.strip()}\n\n"
+            else:  # a blank line would be the end of the list
                 content = self._escape_linebreaks(content)
-            content = f"{content}\n\n"
         elif self._inner_list != "" and "\n" in content:
             space = " " if content.startswith(" ") else ""
             content = space + self._escape_linebreaks(content)
@@ -261,7 +262,7 @@ class BaseEmitter:
                 if result and separate:
                     if not result[-1].endswith("\n") and not content.lstrip(" ").startswith("\n"):
                         # e.g.: "text<p>paragraph</p>": don't glue the words together
-                        result.append("\\\\" if self._inner_list else "\n\n")
+                        result.append(self._list_line_break if self._inner_list else "\n\n")
                     elif result[-1].endswith("|\n") and content.startswith("|"):
                         result.append("\n")  # a table after a table
                     if self._is_pre_block(last):
-- 
2.43.0


From 087c7bc0e851c5082dbbe8362242735b0548b02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:52 +0000
Subject: [PATCH 112/122] fix: html2rest ended a list item at its second
 paragraph

---
 creole/emitter/html2rest_emitter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 2947e24..2b4865b 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -294,8 +294,11 @@ class ReStructuredTextEmitter(BaseEmitter):
 
     def li_emit(self, node):
         content = self.emit_children(node).strip("\n")
-        result = f"\n{'    ' * (node.level - 1)}{self._list_markup} {content}\n"
-        return result
+        mark = f"{'    ' * (node.level - 1)}{self._list_markup} "
+        # Further paragraphs are only a part of the item if they are indented.
+        # The lines of the nested lists are already indented.
+        content = re.sub(r"\n(?=[^\s])", "\n" + " " * len(mark), content)
+        return f"\n{mark}{content}\n"
 
     def _is_in_list(self):
         return self._list_markup != ""
-- 
2.43.0


From 31d694b0efbb5b02ecf662c7f9ae06cab2f96171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:52 +0000
Subject: [PATCH 113/122] fix: html2textile ended a list after e.g. a comment
 behind a paragraph in an item

---
 creole/emitter/html2textile_emitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index 3269e3b..f7ef565 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -156,7 +156,8 @@ class TextileEmitter(BaseEmitter):
 
     def li_emit(self, node):
         # A blank line would be the end of the list
-        return re.sub(r"\n\s*\n", "\n", super().li_emit(node)).rstrip("\n")
+        content = re.sub(r"\n\s*\n", "\n", super().li_emit(node))
+        return re.sub(r"\n\s*$", "", content)
 
     def ul_emit(self, node):
         return self._list_emit(node, list_type="*")
-- 
2.43.0


From 97081036433e47fa3fa401db9d07ea16180833ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:06 +0000
Subject: [PATCH 114/122] fix: the text after a <br> in a headline was no
 longer a part of it

---
 creole/emitter/html2creole_emitter.py   | 2 ++
 creole/emitter/html2markdown_emitter.py | 2 +-
 creole/emitter/html2rest_emitter.py     | 6 ------
 creole/shared/base_emitter.py           | 6 ++++++
 4 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/creole/emitter/html2creole_emitter.py b/creole/emitter/html2creole_emitter.py
index 107afb2..7d54dce 100644
--- a/creole/emitter/html2creole_emitter.py
+++ b/creole/emitter/html2creole_emitter.py
@@ -72,6 +72,8 @@ class CreoleEmitter(BaseEmitter):
         return result
 
     def br_emit(self, node):
+        if self._is_in_headline(node):  # a headline has only one line
+            return " "
         if self._inner_list != "" or self._in_link:  # the markup ends at the end of the line
             return "\\\\"
         else:
diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 4f3a752..df605d5 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -138,7 +138,7 @@ class MarkdownEmitter(BaseEmitter):
         return f'\n{self.emit_children(node)}\n'
 
     def br_emit(self, node: DocNode):
-        return '\n'
+        return ' ' if self._is_in_headline(node) else '\n'  # a headline has only one line
 
     def headline_emit(self, node: DocNode):
         prefix = '#' * node.level
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 2b4865b..1be8341 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -147,12 +147,6 @@ class ReStructuredTextEmitter(BaseEmitter):
 
         return format % {"m": markup, "t": text}
 
-    def _is_in_headline(self, node):
-        node = node.parent
-        while node is not None and node.kind != "headline":
-            node = node.parent
-        return node is not None
-
     # --------------------------------------------------------------------------
 
     def _typeface(self, node, key):
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 35d1827..d4864fc 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -202,6 +202,12 @@ class BaseEmitter:
 
     # --------------------------------------------------------------------------
 
+    def _is_in_headline(self, node):
+        node = node.parent
+        while node is not None and node.kind != "headline":
+            node = node.parent
+        return node is not None
+
     def _is_in_list(self):
         return self._inner_list != ""
 
-- 
2.43.0


From 90c28645987a0ae6e2a4d3a8da172b16778b3650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:14 +0000
Subject: [PATCH 115/122] fix: html2markdown joined a paragraph with text
 before or after it

---
 creole/emitter/html2markdown_emitter.py | 7 +++++++
 creole/shared/base_emitter.py           | 8 +++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index df605d5..aaba2f5 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -140,6 +140,13 @@ class MarkdownEmitter(BaseEmitter):
     def br_emit(self, node: DocNode):
         return ' ' if self._is_in_headline(node) else '\n'  # a headline has only one line
 
+    def _is_blank_line(self, before: str, after: str, last: DocNode, node: DocNode):
+        if self._in_table or node.kind in ('ul', 'ol', 'li', 'blockdata_pre', 'inlinedata_pre'):
+            return True
+        if last.kind in ('blockdata_pre', 'inlinedata_pre'):
+            return True
+        return re.search(r'\n[ \t]*\n', before[-2:] + after.lstrip(' ')[:2]) is not None
+
     def headline_emit(self, node: DocNode):
         prefix = '#' * node.level
         if node.parent not in ('document', 'headline', 'p'):
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index d4864fc..5ca8e77 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -269,9 +269,11 @@ class BaseEmitter:
                     if not result[-1].endswith("\n") and not content.lstrip(" ").startswith("\n"):
                         # e.g.: "text<p>paragraph</p>": don't glue the words together
                         result.append(self._list_line_break if self._inner_list else "\n\n")
+                    elif not self._is_blank_line(result[-1], content, last, child):
+                        result.append("\n")
                     elif result[-1].endswith("|\n") and content.startswith("|"):
                         result.append("\n")  # a table after a table
-                    if self._is_pre_block(last):
+                    if result[-1].endswith("\n"):
                         content = content.lstrip(" ")
                 result.append(content)
                 separate = False
@@ -279,6 +281,10 @@ class BaseEmitter:
             separate = separate or self._is_separated(child, -1)
         return result
 
+    def _is_blank_line(self, before, after, last, node):
+        """ Is a blank line between the blocks? Most blocks end with one. """
+        return True
+
     def _is_separated(self, node, step):
         """ Is it a block element or e.g. an unknown tag that starts (step: 1) or ends (step: -1) with one? """
         nodes = [node]
-- 
2.43.0


From 8ce949e7edca9dd9de679fc2e2b85ed039d71d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:19 +0000
Subject: [PATCH 116/122] fix: html2rest wrote a paragraph without <p> into a
 image definition before it

---
 creole/emitter/html2rest_emitter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 1be8341..233de4f 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -101,6 +101,12 @@ class ReStructuredTextEmitter(BaseEmitter):
         return result
 
     def emit_node(self, node):
+        if node.kind == "data" and not node.content.strip():  # e.g. spaces between block elements
+            last = self.last
+            result = super().emit_node(node)
+            self.last = last
+            return result
+
         result = ""
         if self._substitution_data and node.parent == self.root and (
             self._is_separated(self.last, -1) or self._is_separated(node, 1)
-- 
2.43.0


From 40b609a05b8a61b0a22c2e2914d736b77ed8754d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:16 +0000
Subject: [PATCH 117/122] fix: empty typefaces and typefaces in the same
 typeface became text

---
 creole/emitter/html2rest_emitter.py    |  4 ++--
 creole/emitter/html2textile_emitter.py |  5 +++--
 creole/shared/base_emitter.py          | 15 ++++++++++++++-
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 233de4f..fb4ad96 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -155,8 +155,8 @@ class ReStructuredTextEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
 
-    def _typeface(self, node, key):
-        return key + self.emit_children(node) + key
+    def _is_markup_possible(self, key):
+        return not self._open_typefaces  # ReSt has no nested inline markup
 
     def strong_emit(self, node):
         return self._typeface(node, key="**")
diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index f7ef565..3ee08f5 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -61,8 +61,9 @@ class TextileEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
 
-    def _typeface(self, node, key):
-        return key + self.emit_children(node) + key
+    def _is_markup_possible(self, key):
+        # "*" and "**" or "_" and "__" are the same typeface
+        return not any(key[0] in other for other in self._open_typefaces)
 
     def strong_emit(self, node):
         return self._typeface(node, key="*")
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 5ca8e77..b5194fb 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -39,6 +39,8 @@ class BaseEmitter:
     def __init__(self, document_tree, unknown_emit=None, debug=False):
         self.root = document_tree
 
+        self._open_typefaces = []
+
         if unknown_emit is None:
             self._unknown_emit = transparent_unknown_nodes
         else:
@@ -113,7 +115,18 @@ class BaseEmitter:
     # --------------------------------------------------------------------------
 
     def _typeface(self, node, key):
-        return key + self.emit_children(node) + key
+        if not self._is_markup_possible(key):  # e.g.: "<strong><b>text</b></strong>"
+            return self.emit_children(node)
+
+        self._open_typefaces.append(key)
+        content = self.emit_children(node)
+        self._open_typefaces.pop()
+        if not content.strip():  # e.g.: "<b></b>"
+            return content
+        return key + content + key
+
+    def _is_markup_possible(self, key):
+        return key not in self._open_typefaces
 
     # --------------------------------------------------------------------------
 
-- 
2.43.0


From e4b043bd43d20926626426f6c16033d475eb07eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:05 +0000
Subject: [PATCH 118/122] fix: html2rest links with a colon in the text were
 broken in tables

---
 creole/emitter/html2rest_emitter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index fb4ad96..529cd61 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -229,6 +229,11 @@ class ReStructuredTextEmitter(BaseEmitter):
                 ) % (text, old_url, url)
                 raise Html2restException(msg)
 
+    def _add_target(self, name, url):
+        if ":" in name:  # would be the end of the name
+            name = f"`{name}`"
+        self._substitution_data.append(f".. _{name}: {url}")
+
     def a_emit(self, node):
         link_text = self.emit_children(node)
         try:
@@ -245,9 +250,7 @@ class ReStructuredTextEmitter(BaseEmitter):
             # make a hyperlink reference
             if not old_url:
                 # new substitution
-                self._substitution_data.append(
-                    f".. _{link_text}: {url}"
-                )
+                self._add_target(link_text, url)
             return f"`{link_text}`_"
 
         if old_url:
-- 
2.43.0


From 56d0078bec58c1c5c764e23f5200bf6215eee0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:51 +0000
Subject: [PATCH 119/122] fix: html2rest wrote linked images, markup in links
 and images in typefaces as text

---
 creole/emitter/html2rest_emitter.py | 45 +++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 529cd61..54565ef 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -42,6 +42,8 @@ class ReStructuredTextEmitter(BaseEmitter):
         self._substitution_data = []
         self._used_substitution_links = {}
         self._used_substitution_images = {}
+        self._used_image_links = {}
+        self._in_link = False
         self._list_markup = ""
 
     def _get_block_data(self):
@@ -156,7 +158,16 @@ class ReStructuredTextEmitter(BaseEmitter):
     # --------------------------------------------------------------------------
 
     def _is_markup_possible(self, key):
-        return not self._open_typefaces  # ReSt has no nested inline markup
+        return not self._open_typefaces and not self._in_link  # ReSt has no nested inline markup
+
+    def _typeface(self, node, key):
+        nodes = list(node.children)
+        while nodes:  # a image can't be in a typeface
+            child = nodes.pop()
+            if child.kind == "img":
+                return self.emit_children(node)
+            nodes += child.children
+        return super()._typeface(node, key)
 
     def strong_emit(self, node):
         return self._typeface(node, key="**")
@@ -230,17 +241,26 @@ class ReStructuredTextEmitter(BaseEmitter):
                 raise Html2restException(msg)
 
     def _add_target(self, name, url):
-        if ":" in name:  # would be the end of the name
+        if ": " in f"{name} ":  # would be the end of the name
             name = f"`{name}`"
         self._substitution_data.append(f".. _{name}: {url}")
 
     def a_emit(self, node):
-        link_text = self.emit_children(node)
         try:
             url = node.attrs["href"]
         except KeyError:
             # e.g.: <a name="anchor-one">foo</a>
-            return link_text
+            return self.emit_children(node)
+
+        images = [child for child in node.children if child.kind != "data" or child.content.strip()]
+        if len(images) == 1 and images[0].kind == "img":
+            image = self.img_emit(images[0])
+            if image.startswith("|"):
+                return self._linked_image(image, url)
+
+        self._in_link = True
+        link_text = self.emit_children(node)
+        self._in_link = False
 
         # ReSt target names are case-insensitive
         name = " ".join(link_text.lower().split())
@@ -260,6 +280,15 @@ class ReStructuredTextEmitter(BaseEmitter):
             # create a inline hyperlink
             return f"`{link_text} <{url}>`_"
 
+    def _linked_image(self, image, url):
+        """ the substitution is a hyperlink reference, too: |image|_ """
+        text = image.strip("|")
+        name = " ".join(text.lower().split())
+        if not self._get_old_substitution(self._used_image_links, name, url):
+            self._get_old_substitution(self._used_substitution_links, name, url)
+            self._add_target(text, url)
+        return f"{image}_"
+
     def img_emit(self, node):
         src = node.attrs.get("src", "")
         if not src:  # there is no image, e.g. it is lazy loaded
@@ -278,6 +307,9 @@ class ReStructuredTextEmitter(BaseEmitter):
         if substitution_text == "":  # Use filename as picture text
             substitution_text = posixpath.basename(src)
 
+        if self._in_link:  # there is no inline markup in a link text
+            return substitution_text
+
         old_src = self._get_old_substitution(
             self._used_substitution_images, substitution_text, src
         )
@@ -291,7 +323,10 @@ class ReStructuredTextEmitter(BaseEmitter):
     # --------------------------------------------------------------------------
 
     def code_emit(self, node):
-        return f"``{self._emit_content(node)}``"
+        content = self._emit_content(node)
+        if self._in_link:  # there is no inline markup in a link text
+            return content
+        return f"``{content}``"
 
     # --------------------------------------------------------------------------
 
-- 
2.43.0


From 5c8c89800e3df3604aedb84e287a2f7f4c29c55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:00 +0000
Subject: [PATCH 120/122] fix: typefaces, links, code and images beside a
 letter were no markup in ReSt, textile and Markdown

---
 creole/emitter/html2markdown_emitter.py | 28 +++++++++++++++++
 creole/emitter/html2rest_emitter.py     | 41 +++++++++++++++++-------
 creole/emitter/html2textile_emitter.py  | 30 ++++++++++++++++--
 creole/shared/base_emitter.py           | 42 ++++++++++++++++++++++++-
 4 files changed, 125 insertions(+), 16 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index aaba2f5..a4ed0eb 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -9,6 +9,7 @@
 
 """
 import re
+import unicodedata
 from urllib.parse import ParseResult, quote, urlparse, urlunparse
 
 from creole.parser.html_parser_config import BLOCK_TAGS
@@ -52,12 +53,22 @@ def quote_title(title):
     return (title or '').replace('"', '&quot;')
 
 
+def is_word_char(char):
+    """
+    >>> is_word_char('a'), is_word_char('.'), is_word_char(' '), is_word_char('')
+    (True, False, False, False)
+    """
+    return char.strip() != '' and char not in '$+<=>^`|~' and not unicodedata.category(char).startswith('P')
+
+
 class MarkdownEmitter(BaseEmitter):
     """
     Build from a document_tree (html2creole.parser.HtmlParser instance) a
     Markdown markup text.
     """
 
+    _markup_kinds = ('strong', 'b', 'big', 'i', 'em')
+
     def __init__(self, document_tree, strict=False, *args, **kwargs):
         self.strict = strict
         super().__init__(document_tree, *args, **kwargs)
@@ -155,6 +166,23 @@ class MarkdownEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
 
+    def _typeface(self, node: DocNode, key: str):
+        content = super()._typeface(node, key)
+        text = content[len(key):-len(key)]
+        if not self._is_markup_possible(key) or not content.strip() or key not in self._html_tags:
+            return content
+
+        before = self._char_beside(node, -1)
+        after = self._char_beside(node, 1)
+        before_word, after_word = is_word_char(before), is_word_char(after)
+        in_word = key == '_' and (before_word or after_word)  # "_" would be a part of the word
+        if before == '*' or before_word and not text[0].isalnum() or after_word and not text[-1].isalnum() or in_word and '*' in text:
+            tag = self._html_tags[key]  # the marks would not be the start or end of the typeface
+            return f'<{tag}>{text}</{tag}>'
+        return f'*{text}*' if in_word else content
+
+    _html_tags = {'**': 'strong', '_': 'em'}
+
     def strong_emit(self, node: DocNode):
         return self._typeface(node, key='**')
 
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 54565ef..2810aac 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -33,6 +33,8 @@ class ReStructuredTextEmitter(BaseEmitter):
     creole markup text.
     """
 
+    _markup_kinds = ("strong", "b", "big", "i", "em", "tt", "code", "a", "img")
+
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
 
@@ -90,7 +92,7 @@ class ReStructuredTextEmitter(BaseEmitter):
 
     def emit(self):
         """Emit the document represented by self.root DOM tree."""
-        return self.emit_node(self.root).rstrip()
+        return self.emit_node(self.root).strip()
 
     def document_emit(self, node):
         self.last = node
@@ -115,8 +117,10 @@ class ReStructuredTextEmitter(BaseEmitter):
         ):
             result += f"{self._get_block_data()}\n\n"
 
-        result += super().emit_node(node)
-        return result
+        content = super().emit_node(node)
+        if result:  # a indented line would be a part of the last definition
+            content = content.lstrip(" ")
+        return result + content
 
     def br_emit(self, node):
         # There are no line breaks in ReSt. The text of a list item must stay in the item.
@@ -167,7 +171,20 @@ class ReStructuredTextEmitter(BaseEmitter):
             if child.kind == "img":
                 return self.emit_children(node)
             nodes += child.children
-        return super()._typeface(node, key)
+        content = super()._typeface(node, key)
+        if not self._is_markup_possible(key) or not content.strip():
+            return content
+        return self._inline(node, content)
+
+    def _inline(self, node, markup):
+        """ Separate inline markup from e.g. a letter beside it """
+        before = self._char_beside(node, -1)
+        if before and not before.isspace() and before not in "'\"([{<-/:":
+            markup = f"\\ {markup}"
+        after = self._char_beside(node, 1)
+        if after and not after.isspace() and after not in "'\")]}>-/:.,;!?\\":
+            markup = f"{markup}\\ "
+        return markup
 
     def strong_emit(self, node):
         return self._typeface(node, key="**")
@@ -254,9 +271,9 @@ class ReStructuredTextEmitter(BaseEmitter):
 
         images = [child for child in node.children if child.kind != "data" or child.content.strip()]
         if len(images) == 1 and images[0].kind == "img":
-            image = self.img_emit(images[0])
+            image = self.emit_children(node).strip()
             if image.startswith("|"):
-                return self._linked_image(image, url)
+                return self._inline(node, self._linked_image(image, url))
 
         self._in_link = True
         link_text = self.emit_children(node)
@@ -271,14 +288,14 @@ class ReStructuredTextEmitter(BaseEmitter):
             if not old_url:
                 # new substitution
                 self._add_target(link_text, url)
-            return f"`{link_text}`_"
+            return self._inline(node, f"`{link_text}`_")
 
         if old_url:
             # reuse a existing substitution
-            return f"`{link_text}`_"
+            return self._inline(node, f"`{link_text}`_")
         else:
             # create a inline hyperlink
-            return f"`{link_text} <{url}>`_"
+            return self._inline(node, f"`{link_text} <{url}>`_")
 
     def _linked_image(self, image, url):
         """ the substitution is a hyperlink reference, too: |image|_ """
@@ -318,15 +335,15 @@ class ReStructuredTextEmitter(BaseEmitter):
                 f".. |{substitution_text}| image:: {src}"
             )
 
-        return f"|{substitution_text}|"
+        return self._inline(node, f"|{substitution_text}|")
 
     # --------------------------------------------------------------------------
 
     def code_emit(self, node):
         content = self._emit_content(node)
-        if self._in_link:  # there is no inline markup in a link text
+        if self._in_link or self._open_typefaces:  # ReSt has no nested inline markup
             return content
-        return f"``{content}``"
+        return self._inline(node, f"``{content}``")
 
     # --------------------------------------------------------------------------
 
diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index 3ee08f5..d3c4662 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -10,6 +10,7 @@
 
 import posixpath
 import re
+from html import escape
 
 from creole.parser.html_parser_config import BLOCK_TAGS
 from creole.shared.base_emitter import BaseEmitter
@@ -21,6 +22,9 @@ class TextileEmitter(BaseEmitter):
     creole markup text.
     """
 
+    _markup_kinds = (
+        "strong", "b", "big", "i", "em", "sup", "sub", "del", "cite", "ins", "span", "code", "a", "img"
+    )
     _list_line_break = "\n"
 
     def __init__(self, *args, **kwargs):
@@ -65,6 +69,18 @@ class TextileEmitter(BaseEmitter):
         # "*" and "**" or "_" and "__" are the same typeface
         return not any(key[0] in other for other in self._open_typefaces)
 
+    def _typeface(self, node, key):
+        content = super()._typeface(node, key)
+        if not self._is_markup_possible(key) or not content.strip():
+            return content
+        return self._inline(node, content)
+
+    def _inline(self, node, markup, before="(.,\"'?!;:", after=").,\"'?!;:"):
+        """ Separate inline markup from e.g. a letter beside it """
+        if self._char_beside(node, -1).strip(f"{before} \t\n") or self._char_beside(node, 1).strip(f"{after} \t\n"):
+            return f"[{markup}]"
+        return markup
+
     def strong_emit(self, node):
         return self._typeface(node, key="*")
 
@@ -97,7 +113,12 @@ class TextileEmitter(BaseEmitter):
         return self._typeface(node, key="%")
 
     def code_emit(self, node):
-        return self._typeface(node, key="@")
+        before = self._char_beside(node, -1)
+        if before.strip("([{ \t\n") or before == "" and self._open_typefaces:
+            # the mark would not be a start mark, e.g. beside a letter
+            content = self.emit_children(node)
+            return f"<code>{escape(content, quote=False)}</code>" if content.strip() else content
+        return super()._typeface(node, key="@")
 
     # --------------------------------------------------------------------------
 
@@ -111,7 +132,7 @@ class TextileEmitter(BaseEmitter):
         except KeyError:
             # e.g.: <a name="anchor-one">foo</a>
             return link_text
-        return f'"{link_text}":{url}'
+        return self._inline(node, f'"{link_text}":{url}', after="")
 
     def img_emit(self, node):
         src = node.attrs.get("src", "")
@@ -131,7 +152,10 @@ class TextileEmitter(BaseEmitter):
         if text == "":  # Use filename as picture text
             text = posixpath.basename(src)
 
-        return f"!{src}({text})!"
+        image = f"!{src}({text})!"
+        if self._open_typefaces:
+            return f"[{image}]"
+        return self._inline(node, image, before="", after="")
 
     # --------------------------------------------------------------------------
 
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index b5194fb..96ca6fb 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -34,6 +34,7 @@ class BaseEmitter:
     creole markup text.
     """
 
+    _markup_kinds = ()  # the tags with inline markup that can't be directly beside e.g. a letter
     _list_line_break = "\\\\"  # between block elements in a list item
 
     def __init__(self, document_tree, unknown_emit=None, debug=False):
@@ -270,7 +271,8 @@ class BaseEmitter:
         result = []
         separate = False
         last = node
-        for child in node.children:
+        for position, child in enumerate(node.children):
+            child.position = position
             content = self.emit_node(child)
             assert isinstance(content, str)
 
@@ -310,6 +312,44 @@ class BaseEmitter:
             nodes += node.children[::-step]
         return False
 
+    def _char_beside(self, node, step):
+        """
+        The character before (step: -1) or after (step: 1) a inline node:
+        "*" for other markup, nothing at the border of a block or markup.
+        """
+        if self._is_separated(node, -step):
+            return ""
+        while True:
+            siblings = node.parent.children
+            position = node.position + step
+            while 0 <= position < len(siblings):
+                char = self._border_char(siblings[position], -step)
+                if char:
+                    return char
+                position += step
+            node = node.parent
+            if node.kind in SEPARATED_KINDS or self._is_markup(node) or node is self.root:
+                return ""
+
+    def _is_markup(self, node):
+        return node.kind in self._markup_kinds and (node.kind != "a" or "href" in node.attrs)
+
+    def _border_char(self, node, step):
+        """ The first (step: -1) or last (step: 1) character of a node """
+        nodes = [node]
+        in_markup = False
+        while nodes:
+            node = nodes.pop()
+            in_markup = in_markup or self._is_markup(node)
+            if in_markup and (node.kind == "img" or node.content):
+                return "*"
+            if node.kind in BLOCK_TAGS or node.kind in ("headline", "blockdata_pre", "inlinedata_pre"):
+                return " "
+            if node.content:
+                return node.content[-1 if step == 1 else 0]
+            nodes += node.children[::step]
+        return ""
+
     def _is_pre_block(self, node):
         """ Is it a <pre> with several lines that doesn't stand at the begin of a line? """
         if node.kind != "inlinedata_pre" or self._inner_list or self._in_table:
-- 
2.43.0


From b4d50dcd23105bd604b91e0fb480c4d7c5f4e2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:15 +0000
Subject: [PATCH 121/122] fix: html2markdown joined code beside other code

---
 creole/emitter/html2markdown_emitter.py |  6 +++++-
 creole/emitter/html2rest_emitter.py     |  2 +-
 creole/emitter/html2textile_emitter.py  |  4 ++--
 creole/shared/base_emitter.py           | 13 +++++++------
 4 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index a4ed0eb..e6ab97f 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -10,6 +10,7 @@
 """
 import re
 import unicodedata
+from html import escape
 from urllib.parse import ParseResult, quote, urlparse, urlunparse
 
 from creole.parser.html_parser_config import BLOCK_TAGS
@@ -67,7 +68,7 @@ class MarkdownEmitter(BaseEmitter):
     Markdown markup text.
     """
 
-    _markup_kinds = ('strong', 'b', 'big', 'i', 'em')
+    _markup_kinds = {'strong': '*', 'b': '*', 'big': '*', 'i': '*', 'em': '*', 'code': '`', 'tt': '`'}
 
     def __init__(self, document_tree, strict=False, *args, **kwargs):
         self.strict = strict
@@ -307,6 +308,9 @@ class MarkdownEmitter(BaseEmitter):
         if not code_block:
             return content[:1]
 
+        if self._char_beside(node, -1) == '`':  # the marks would be a part of the code before
+            return f'<code>{escape(content)}</code>'
+
         mark = '`'
         while mark in code_block:
             mark += '`'
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 2810aac..94fd8d3 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -33,7 +33,7 @@ class ReStructuredTextEmitter(BaseEmitter):
     creole markup text.
     """
 
-    _markup_kinds = ("strong", "b", "big", "i", "em", "tt", "code", "a", "img")
+    _markup_kinds = dict.fromkeys(("strong", "b", "big", "i", "em", "tt", "code", "a", "img"), "*")
 
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index d3c4662..1846ac4 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -22,8 +22,8 @@ class TextileEmitter(BaseEmitter):
     creole markup text.
     """
 
-    _markup_kinds = (
-        "strong", "b", "big", "i", "em", "sup", "sub", "del", "cite", "ins", "span", "code", "a", "img"
+    _markup_kinds = dict.fromkeys(
+        ("strong", "b", "big", "i", "em", "sup", "sub", "del", "cite", "ins", "span", "code", "a", "img"), "*"
     )
     _list_line_break = "\n"
 
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 96ca6fb..7fe5ecf 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -34,7 +34,7 @@ class BaseEmitter:
     creole markup text.
     """
 
-    _markup_kinds = ()  # the tags with inline markup that can't be directly beside e.g. a letter
+    _markup_kinds = {}  # the tags with inline markup that can't be directly beside e.g. a letter, and their marks
     _list_line_break = "\\\\"  # between block elements in a list item
 
     def __init__(self, document_tree, unknown_emit=None, debug=False):
@@ -315,7 +315,7 @@ class BaseEmitter:
     def _char_beside(self, node, step):
         """
         The character before (step: -1) or after (step: 1) a inline node:
-        "*" for other markup, nothing at the border of a block or markup.
+        the mark of other markup, nothing at the border of a block or markup.
         """
         if self._is_separated(node, -step):
             return ""
@@ -337,12 +337,13 @@ class BaseEmitter:
     def _border_char(self, node, step):
         """ The first (step: -1) or last (step: 1) character of a node """
         nodes = [node]
-        in_markup = False
+        mark = ""
         while nodes:
             node = nodes.pop()
-            in_markup = in_markup or self._is_markup(node)
-            if in_markup and (node.kind == "img" or node.content):
-                return "*"
+            if not mark and self._is_markup(node):
+                mark = self._markup_kinds[node.kind]
+            if mark and (node.kind == "img" or node.content):
+                return mark
             if node.kind in BLOCK_TAGS or node.kind in ("headline", "blockdata_pre", "inlinedata_pre"):
                 return " "
             if node.content:
-- 
2.43.0


From e0572cc485dd49032c5c0c20c8fb4397eb06b6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:36 +0000
Subject: [PATCH 122/122] fix: html2markdown took the > in an attribute value
 for the end of a tag in code

---
 creole/emitter/html2markdown_emitter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index e6ab97f..6ab8f36 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -20,7 +20,11 @@ from creole.shared.markup_table import MarkupTable
 
 
 # <pre><code>...</code></pre>
-pre_code_re = re.compile(r'\s*<code(?P<attrs>\s[^>]*)?>(?P<code>.*)</code>\s*$', re.DOTALL)
+pre_code_re = re.compile(
+    r'''\s*<code(?P<attrs>\s(?:[^"'>]|"[^"]*"|'[^']*')*)?>(?P<code>.*)</code>\s*$''', re.DOTALL
+)
+# a ">" in a quoted value is not the end of the tag
+tag_re = re.compile(r'''<(?:[^"'>]|"[^"]*"|'[^']*')*>''')
 language_re = re.compile(r'''\sclass=["']language-(?P<language>[^"'>]+)["']''')
 
 
@@ -132,7 +136,7 @@ class MarkdownEmitter(BaseEmitter):
             language_match = language_re.search(match['attrs'] or '')
             if language_match:
                 language = language_match['language']
-            code = re.sub(r'<[^>]*>', '', match['code'])  # remove e.g. syntax highlighting
+            code = tag_re.sub('', match['code'])  # remove e.g. syntax highlighting
 
         code = self._pre_text(code).strip('\n')
 
-- 
2.43.0

