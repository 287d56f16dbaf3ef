From 5bdbab3c42c92a24923c74d43a02fb8bb6c4d1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:39 +0000
Subject: [PATCH 01/60] fix: don't raise StopIteration if a file ends in a
 continuation or function header

---
 oelint_parser/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 1f47ade..05b9297 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -113,13 +113,13 @@ def prepare_lines_subparser(_iter: Iterable, lineOffset: int, num: int, line: in
         res = buffer
         next_ = ''
         if RegexRpl.search(__next_line_regex__, res):
-            _, line = _iter.__next__()
+            _, line = next(_iter, (0, ''))
             while RegexRpl.search(__next_line_regex__, line):
                 res += line
-                _, line = _iter.__next__()
+                _, line = next(_iter, (0, ''))
             res += line
         elif RegexRpl.match(__func_start_regexp__, res):
-            _, line = _iter.__next__()
+            _, line = next(_iter, (0, ''))
             stopiter = False
             scope_level = 0
             while not stopiter:
-- 
2.43.0


From 96b35d0b43f0cf83820a2f0110b23813493b97d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:54 +0000
Subject: [PATCH 02/60] fix: parse the complete variable name of unset
 statements

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 05b9297..251bad5 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -55,7 +55,7 @@ __regex_export_func = regex.compile(r"^EXPORT_FUNCTIONS\s+(?P<func>.*)")
 __regex_addpylib = regex.compile(
     r"^(\s+|\t*)addpylib(\s+|\t+)(?P<path>\$\{LAYERDIR\}/.+)(\s+|\t+)(?P<namespace>.*)")
 __regex_unset = regex.compile(
-    r"^(\s+|\t+)*unset(\s+|\t+)+(?P<varname>.+?)(\[*(?P<flag>.+)\])*")
+    r"^\s*unset\s+(?P<varname>[^\s\[]+)(\[(?P<flag>.+)\])?")
 __regex_addfragments = regex.compile(
     r"addfragments\s+(?P<path>.+)\s+(?P<variable>.+)\s+(?P<flagged>.+)")
 __regex_includeall = regex.compile(r"include_all\s+(?P<file>.+)")
-- 
2.43.0


From 8d1a2f316bb77be7198c3b560fd77ed4bd54a87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:09 +0000
Subject: [PATCH 03/60] fix: don't treat comments or values containing '() {'
 as function start

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 251bad5..8890f90 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -60,7 +60,7 @@ __regex_addfragments = regex.compile(
     r"addfragments\s+(?P<path>.+)\s+(?P<variable>.+)\s+(?P<flagged>.+)")
 __regex_includeall = regex.compile(r"include_all\s+(?P<file>.+)")
 __func_start_regexp__ = regex.compile(
-    r".*(((?P<py>python)|(?P<fr>fakeroot))\s*)*(?P<func>[\w\.\-\+\{\}\$]+)?\s*\(\s*\)\s*\{")
+    r"\s*(((?P<py>python)|(?P<fr>fakeroot))\s*)*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{")
 __next_line_regex__ = regex.compile(r"\\\s*\n")
 __valid_func_name_regex__ = regex.compile(r"^[A-Za-z0-9#]+")
 
-- 
2.43.0


From e0898a6e2f39c0d005a4561616f863d1aef88f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:38 +0000
Subject: [PATCH 04/60] fix: don't recurse endlessly on circular includes

---
 oelint_parser/cls_stash.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 19c734c..347b08f 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -130,6 +130,7 @@ class Stash():
         self.__list = []
         self.__seen_files = set()
         self.__seen_classes = set()
+        self.__parsing = []
         self.__map = {}
         self.__quiet = quiet
         self.__new_style_override_syntax = new_style_override_syntax
@@ -173,16 +174,23 @@ class Stash():
             return []
         if _file in self.__seen_classes:
             return []
+        if _file in self.__parsing:
+            # circular include
+            return []
         if not self.__quiet:
             print("Parsing {file}".format(file=_file))
         self.__seen_files.add(_file)
         if _ext in [".bbclass"]:
             self.__seen_classes.add(_file)
-        res = get_items(self,
-                        _file,
-                        lineOffset=lineOffset,
-                        new_style_override_syntax=self.__new_style_override_syntax,
-                        negative=self.__negative_inline)
+        self.__parsing.append(_file)
+        try:
+            res = get_items(self,
+                            _file,
+                            lineOffset=lineOffset,
+                            new_style_override_syntax=self.__new_style_override_syntax,
+                            negative=self.__negative_inline)
+        finally:
+            self.__parsing.remove(_file)
         if _file not in self.__map:
             self.__map[_file] = []
         if forcedLink:
-- 
2.43.0


From d8c1f000b275ad8bc44d8ab825b543a31da37a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:14 +0000
Subject: [PATCH 05/60] fix: link already parsed classes to every file
 inheriting them

---
 oelint_parser/cls_stash.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 347b08f..eae3316 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -170,12 +170,15 @@ class Stash():
         """
         _file = os.path.abspath(_file)
         _, _ext = os.path.splitext(_file)
-        if _file in self.__seen_files and _ext not in [".inc", ".bb", ".conf", ".bbclass"]:
-            return []
-        if _file in self.__seen_classes:
-            return []
-        if _file in self.__parsing:
-            # circular include
+        _known = _file in self.__seen_files and _ext not in [".inc", ".bb", ".conf", ".bbclass"]
+        _known |= _file in self.__seen_classes
+        # circular include
+        _known |= _file in self.__parsing
+        if _known:
+            # nothing to parse, but the including file is still linked to it
+            if forcedLink:
+                self.__map.setdefault(forcedLink, []).append(_file)
+                self._clear_cached()
             return []
         if not self.__quiet:
             print("Parsing {file}".format(file=_file))
-- 
2.43.0


From 2816ef86920b569ecf8f1b5ab8a4d95ce39246e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:20 +0000
Subject: [PATCH 06/60] fix: order items of multiple and nested includes in
 sequence of inclusion

---
 oelint_parser/cls_stash.py |  8 ++++++++
 oelint_parser/parser.py    | 12 ++++++------
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index eae3316..755ae9d 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -131,6 +131,7 @@ class Stash():
         self.__seen_files = set()
         self.__seen_classes = set()
         self.__parsing = []
+        self.__last_line = {}
         self.__map = {}
         self.__quiet = quiet
         self.__new_style_override_syntax = new_style_override_syntax
@@ -186,6 +187,7 @@ class Stash():
         if _ext in [".bbclass"]:
             self.__seen_classes.add(_file)
         self.__parsing.append(_file)
+        _items_before = len(self.__list)
         try:
             res = get_items(self,
                             _file,
@@ -194,6 +196,8 @@ class Stash():
                             negative=self.__negative_inline)
         finally:
             self.__parsing.remove(_file)
+        # the files included by this one are already part of the list
+        self.__last_line[_file] = max((x.Line for x in self.__list[_items_before:] + res), default=lineOffset)
         if _file not in self.__map:
             self.__map[_file] = []
         if forcedLink:
@@ -239,6 +243,10 @@ class Stash():
 
         return res
 
+    def _GetLastLine(self, _file: str) -> int:
+        """Get the last overall line used by a file and everything included by it"""
+        return self.__last_line.get(os.path.abspath(_file), 0)
+
     @property
     def FingerPrint(self) -> str:
         """Get the SHA1 fingerprint of the current Stash
diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 8890f90..1d34499 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -345,9 +345,9 @@ def get_items(stash: object,
                                 continue
                             _found_paths.add(_path)
                             tmp = stash.AddFile(
-                                _path, lineOffset=line["line"], forcedLink=_file)
+                                _path, lineOffset=line["line"] + includeOffset, forcedLink=_file)
                             if any(tmp):
-                                includeOffset += max([x.InFileLine for x in tmp])
+                                includeOffset = stash._GetLastLine(_path) - line["line"]
                     parameter['statement'] = m.group("statement")
                     parameter['classes'] = m.group("inhname")
                     parameter['inherit_file_paths'] = _found_paths
@@ -372,9 +372,9 @@ def get_items(stash: object,
                                 continue
                             _found_paths.add(_path)
                             tmp = stash.AddFile(
-                                _path, lineOffset=line["line"], forcedLink=_file)
+                                _path, lineOffset=line["line"] + includeOffset, forcedLink=_file)
                             if any(tmp):
-                                includeOffset += max([x.InFileLine for x in tmp])
+                                includeOffset = stash._GetLastLine(_path) - line["line"]
                     parameter['statement'] = 'INHERIT'
                     parameter['classes'] = m.group("inhname")
                     parameter['inherit_file_paths'] = _found_paths
@@ -436,9 +436,9 @@ def get_items(stash: object,
                         if includename in CONSTANTS.IncludeIgnore:
                             continue
                         tmp = stash.AddFile(
-                            _path, lineOffset=line["line"], forcedLink=_file)
+                            _path, lineOffset=line["line"] + includeOffset, forcedLink=_file)
                         if any(tmp):
-                            includeOffset += max([x.InFileLine for x in tmp])
+                            includeOffset = stash._GetLastLine(_path) - line["line"]
                     parameter['incname'] = m.group("incname")
                     parameter['fileincluded'] = _path or ''
                     parameter['statement'] = m.group("statement")
-- 
2.43.0


From b5c8645cb2102fe379af191a6278f05307cdb6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:34 +0000
Subject: [PATCH 07/60] fix: match bbappends by the complete literal name of
 the recipe

---
 oelint_parser/cls_stash.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 755ae9d..4f3928d 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -207,11 +207,9 @@ class Stash():
 
         # Match bbappends to bbs
         if _file.endswith(".bbappend"):
-            bn_this = os.path.basename(_file).replace(
-                ".bbappend", ".bb$").replace("%", ".*")
             _maxline = 0
             for x in self.__map:
-                if RegexRpl.match(bn_this, os.path.basename(x)):
+                if self._IsAppendFor(_file, x):
                     self.__map[x].append(_file)
                     _maxline = max(_maxline, max(
                         (i.Line for i in self.__list if i.Origin == x), default=0))
@@ -219,14 +217,11 @@ class Stash():
                 # pretend that we are adding the file to the end of the original
                 r.Line += _maxline
         elif _file.endswith(".bb"):
-            bn_this = os.path.basename(_file).replace(".bb", "")
             _maxline = max((r.Line for r in res), default=0)
             for item in self.__list:
                 if not item.Origin.endswith(".bbappend"):
                     continue
-                bn_that = os.path.basename(item.Origin).replace(
-                    ".bbappend", "").replace("%", ".*")
-                if RegexRpl.match(bn_that, bn_this):
+                if self._IsAppendFor(item.Origin, _file):
                     self.__map[_file].append(item.Origin)
                     # pretend that we are adding that bbappend to the end of this recipe
                     item.Line = max(item.Line, item.InFileLine + _maxline)
@@ -243,6 +238,20 @@ class Stash():
 
         return res
 
+    def _IsAppendFor(self, _append: str, _recipe: str) -> bool:
+        """Check if a bbappend applies to a recipe
+
+        Args:
+            _append (str): Path to bbappend, '%' in the name matches anything
+            _recipe (str): Path to recipe
+
+        Returns:
+            bool: True if bbappend is to be applied
+        """
+        _stem, _ = os.path.splitext(os.path.basename(_append))
+        _pattern = '.*'.join(regex.escape(x) for x in _stem.split('%'))
+        return bool(RegexRpl.match(rf"{_pattern}\.bb$", os.path.basename(_recipe)))
+
     def _GetLastLine(self, _file: str) -> int:
         """Get the last overall line used by a file and everything included by it"""
         return self.__last_line.get(os.path.abspath(_file), 0)
-- 
2.43.0


From 5c84fda14c9d087395576a9fa3da5c0b98df4aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:48 +0000
Subject: [PATCH 08/60] fix: apply a bbappend after the files included by the
 recipe

---
 oelint_parser/cls_stash.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 4f3928d..9bc4a6b 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -211,13 +211,12 @@ class Stash():
             for x in self.__map:
                 if self._IsAppendFor(_file, x):
                     self.__map[x].append(_file)
-                    _maxline = max(_maxline, max(
-                        (i.Line for i in self.__list if i.Origin == x), default=0))
+                    _maxline = max(_maxline, self._GetLastLine(x))
             for r in res:
                 # pretend that we are adding the file to the end of the original
                 r.Line += _maxline
         elif _file.endswith(".bb"):
-            _maxline = max((r.Line for r in res), default=0)
+            _maxline = self._GetLastLine(_file)
             for item in self.__list:
                 if not item.Origin.endswith(".bbappend"):
                     continue
-- 
2.43.0


From 6accf5d2319afba607e55cc6ec9cd3a264dd3843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:22 +0000
Subject: [PATCH 09/60] fix: evaluate variable operators regardless of the
 surrounding whitespace

---
 oelint_parser/cls_stash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 9bc4a6b..cd021d0 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -522,7 +522,7 @@ class Stash():
                 continue
             if not item.IsImmediateModify():
                 continue
-            varop = item.VarOp
+            varop = f' {item.VarOp.strip()} '
             name = item.VarNameCompleteNoModifiers
             if name not in _exp.keys():
                 _exp[name] = None
-- 
2.43.0


From c993b23a2663511cf0d7b824b5d93e2fd26b086b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:47 +0000
Subject: [PATCH 10/60] fix: keep operator semantics and known expansions for
 values with inline blocks

---
 oelint_parser/cls_stash.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index cd021d0..64906e4 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -526,30 +526,29 @@ class Stash():
             name = item.VarNameCompleteNoModifiers
             if name not in _exp.keys():
                 _exp[name] = None
-            if INLINE_BLOCK in item.VarValueStripped:
-                _exp[name] = self._ReverseInlineBlock(item)
-            elif varop in [" = ", " := "]:
-                _exp[name] = item.VarValueStripped
+            value = self._ReverseInlineBlock(item)
+            if varop in [" = ", " := "]:
+                _exp[name] = value
             elif varop == " ?= " and _exp[name] is None:
-                _exp[name] = item.VarValueStripped
+                _exp[name] = value
             elif varop == " ??= " and _exp[name] is None:
-                _exp[name] = item.VarValueStripped
+                _exp[name] = value
             elif varop == " += ":
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] += " " + item.VarValueStripped
+                _exp[name] += " " + value
             elif varop == " =+ ":
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = item.VarValueStripped + " " + _exp[name]
+                _exp[name] = value + " " + _exp[name]
             elif varop in [" .= "]:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] += item.VarValueStripped
+                _exp[name] += value
             elif varop in [" =. "]:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = item.VarValueStripped + _exp[name]
+                _exp[name] = value + _exp[name]
         # and now for a second run with special append
         for item in sorted(_res, key=lambda x: x.Line):
             if isinstance(item, Unset):
@@ -562,15 +561,15 @@ class Stash():
                 _exp[name] = None
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] += item.VarValueStripped
+                _exp[name] += self._ReverseInlineBlock(item)
             elif "append" in item.SubItems:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] += item.VarValueStripped
+                _exp[name] += self._ReverseInlineBlock(item)
             elif "prepend" in item.SubItems:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = item.VarValueStripped + _exp[name]
+                _exp[name] = self._ReverseInlineBlock(item) + _exp[name]
         # and now for the run with remove
         for item in sorted(_res, key=lambda x: x.Line):
             if isinstance(item, Unset):
@@ -584,7 +583,7 @@ class Stash():
             if "remove" in item.SubItems:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = _exp[name].replace(item.VarValueStripped, "")
+                _exp[name] = _exp[name].replace(self._ReverseInlineBlock(item), "")
         # final run and explode the settings
         _finalexp = {}
         for k, v in _exp.items():
@@ -753,7 +752,9 @@ class Stash():
     def _ReverseInlineBlock(self, varref: Variable) -> str:
         res = varref.VarValueStripped
         for item in varref.InlineBlocks:
-            res = res.replace(*reversed(item), 1)
+            # blocks that could be expanded, don't leave a placeholder behind
+            if item[1] == INLINE_BLOCK:
+                res = res.replace(*reversed(item), 1)
         return res
 
     def ExpandTerm(self, _file: str, value: str, spare: List[str] = None, seen: List[str] = None, objref: Variable = None) -> str:
-- 
2.43.0


From ac51f05afc689d3b7ab75c2dfc78c9a0223be6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:01 +0000
Subject: [PATCH 11/60] fix: keep track of every occurrence of an inline block

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 1d34499..8be5fc4 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -178,7 +178,7 @@ def prepare_lines_subparser(_iter: Iterable, lineOffset: int, num: int, line: in
         _repl = inlinerep(repl, negative)
         if _repl is None:
             _repl = INLINE_BLOCK
-        raw_line = raw_line.replace(repl, _repl)
+        raw_line = raw_line.replace(repl, _repl, 1)
         inline_blocks.append((repl, _repl))
     res = {"line": startnum + lineOffset, "raw": raw_line,
            "realraw": real_raw,
-- 
2.43.0


From 7e75c20a942fd824c650155faaa691c7cb559c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:16 +0000
Subject: [PATCH 12/60] fix: remove whole words instead of substrings on
 :remove

---
 oelint_parser/cls_stash.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 64906e4..3a7e79e 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -583,7 +583,8 @@ class Stash():
             if "remove" in item.SubItems:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = _exp[name].replace(self._ReverseInlineBlock(item), "")
+                _remove = self.SafeLineSplit(self._ReverseInlineBlock(item))
+                _exp[name] = " ".join(x for x in self.SafeLineSplit(_exp[name]) if x not in _remove)
         # final run and explode the settings
         _finalexp = {}
         for k, v in _exp.items():
-- 
2.43.0


From a095d04357c1d68a3c4950740eabcff8657b2a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:59 +0000
Subject: [PATCH 13/60] fix: weak default assignments don't take precedence
 over other assignments

---
 oelint_parser/cls_stash.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 3a7e79e..633da1d 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -513,12 +513,14 @@ class Stash():
             "BPN": self.GuessBaseRecipeName(filename),
         }
         _exp = {**_exp, **CONSTANTS.SetsBase}
+        _weak = {}
         for item in sorted(_res, key=lambda x: x.Line):
             if isinstance(item, Unset):
                 if item.Flag:
                     continue
                 if item.VarName in _exp:
                     del _exp[item.VarName]
+                _weak.pop(item.VarName, None)
                 continue
             if not item.IsImmediateModify():
                 continue
@@ -531,8 +533,8 @@ class Stash():
                 _exp[name] = value
             elif varop == " ?= " and _exp[name] is None:
                 _exp[name] = value
-            elif varop == " ??= " and _exp[name] is None:
-                _exp[name] = value
+            elif varop == " ??= ":
+                _weak[name] = value
             elif varop == " += ":
                 if _exp[name] is None:
                     _exp[name] = ""
@@ -549,6 +551,10 @@ class Stash():
                 if _exp[name] is None:
                     _exp[name] = ""
                 _exp[name] = value + _exp[name]
+        # weak defaults only apply if there is nothing else
+        for name, value in _weak.items():
+            if _exp[name] is None:
+                _exp[name] = value
         # and now for a second run with special append
         for item in sorted(_res, key=lambda x: x.Line):
             if isinstance(item, Unset):
-- 
2.43.0


From f92a408a1f425f533c85ea9964afb4e34fab4448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:13 +0000
Subject: [PATCH 14/60] fix: clear all caches that depend on the content of the
 stash

---
 oelint_parser/cls_stash.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 633da1d..eda3f1e 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -142,13 +142,16 @@ class Stash():
 
     def _clear_cached(self):
         """Clear cached values"""
+        self.GetBBClasses.cache_clear()
         self.GetConfFiles.cache_clear()
         self.GetFiles.cache_clear()
         self.GetLinksForFile.cache_clear()
         self.GetLoneAppends.cache_clear()
+        self.GetPackagesDynamic.cache_clear()
         self.GetRecipes.cache_clear()
         self.GetValidNamedResources.cache_clear()
         self.GetValidPackageNames.cache_clear()
+        self.IsDynamicPackage.cache_clear()
         self.IsImage.cache_clear()
         self.IsPackageGroup.cache_clear()
         self.__get_items_by_attribute.cache_clear()
-- 
2.43.0


From 362692e92f8ed1757f673c68ae72593b48a74acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:27 +0000
Subject: [PATCH 15/60] fix: return items and files in a reproducible order

---
 oelint_parser/cls_stash.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index eda3f1e..119f64b 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -361,7 +361,7 @@ class Stash():
         Returns:
             List[str]: List of configuration files
         """
-        return list({x.Origin for x in self.__list if x.Origin.endswith(".conf")})
+        return sorted({x.Origin for x in self.__list if x.Origin.endswith(".conf")})
 
     @functools.cache  # noqa: B019
     def GetBBClasses(self) -> List[str]:
@@ -415,7 +415,7 @@ class Stash():
         """
         if not filename:
             return []
-        return [x.Origin for x in self.__get_items_by_file(frozenset(self.__list), filename) if x.Origin != filename]
+        return [x.Origin for x in self.__get_items_by_file(tuple(self.__list), filename) if x.Origin != filename]
 
     def Reduce(self,
                in_list: Iterable[Item],
@@ -452,7 +452,7 @@ class Stash():
         if attribute:
             in_list = self.__get_items_by_attribute(
                 tuple(in_list), tuple(attribute), tuple(attributeValue))
-        return sorted(set(in_list), key=lambda x: x.Line)
+        return sorted(dict.fromkeys(in_list), key=lambda x: x.Line)
 
     def GetItemsFor(self,
                     filename: str = None,
-- 
2.43.0


From 093b8e647cd4d4c1a74334329931f4479c0d137a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:02 +0000
Subject: [PATCH 16/60] fix: make the fingerprint independent of the order of
 sets

---
 oelint_parser/cls_item.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 5c9248e..6e26b55 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -258,7 +258,9 @@ class Item():
         return res
 
     def __repr__(self) -> str:
-        return "{name} -- {attr}\n".format(name=self.__class__.__name__, attr=self.GetAttributes())
+        # sets have no defined order, which would leak into the representation
+        attr = {k: sorted(v) if isinstance(v, (set, frozenset)) else v for k, v in self.GetAttributes().items()}
+        return "{name} -- {attr}\n".format(name=self.__class__.__name__, attr=attr)
 
 
 class Variable(Item):
-- 
2.43.0


From 1ae559fbb112460ee1bc17283b006fa8f5e66a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:17 +0000
Subject: [PATCH 17/60] fix: StashList.extend did not add anything

---
 oelint_parser/cls_stash.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 119f64b..8e74db2 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -74,8 +74,10 @@ class Stash():
             Args:
                 other (Stash.StashList): Other stash other
             """
-            if isinstance(other, type(Stash.StashList)):
+            if isinstance(other, Stash.StashList):
                 self.data.extend(other.data)
+            else:
+                self.data.extend(other)
 
         def remove(self, item: Union[Item, Iterable[Item]]) -> None:
             """Remove from list
-- 
2.43.0


From 223050721cbb07eb72eba687573d9f23a5af2804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:33 +0000
Subject: [PATCH 18/60] fix: slicing, adding and copying a StashList raised a
 TypeError

---
 oelint_parser/cls_stash.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 8e74db2..40f816c 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -44,6 +44,25 @@ class Stash():
         def __setitem__(self, index: int, item: Item) -> None:
             self.data[index] = item
 
+        def __getitem__(self, index: Union[int, slice]) -> Union[Item, 'Stash.StashList']:
+            if isinstance(index, slice):
+                return Stash.StashList(self._stash, self.data[index])
+            return self.data[index]
+
+        def __add__(self, other: Iterable[Item]) -> 'Stash.StashList':
+            return Stash.StashList(self._stash, self.data + list(other))
+
+        def __radd__(self, other: Iterable[Item]) -> 'Stash.StashList':
+            return Stash.StashList(self._stash, list(other) + self.data)
+
+        def copy(self) -> 'Stash.StashList':
+            """Shallow copy of the list
+
+            Returns:
+                Stash.StashList: copy
+            """
+            return Stash.StashList(self._stash, self.data[:])
+
         def __iadd__(self, __value: Iterable) -> List[Item]:
             return self.data.__iadd__(__value)
 
-- 
2.43.0


From 7e01eda1ae5a632a2aec05cf2d658c0404676664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:49 +0000
Subject: [PATCH 19/60] fix: finditer timeouts weren't caught

---
 oelint_parser/rpl_regex.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/rpl_regex.py b/oelint_parser/rpl_regex.py
index d633e80..46fa6d4 100644
--- a/oelint_parser/rpl_regex.py
+++ b/oelint_parser/rpl_regex.py
@@ -101,6 +101,7 @@ class RegexRpl():
             Scanner: Scanner object or None
         """
         try:
-            return regex.finditer(pattern, string, flags=flags, timeout=timeout, **kwargs)
+            # evaluate here, as the timeout is raised on iteration
+            return iter(list(regex.finditer(pattern, string, flags=flags, timeout=timeout, **kwargs)))
         except TimeoutError:
-            return default
+            return default or iter([])
-- 
2.43.0


From 6064315462ed77beb2e697f460831cbe62ce68e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:23 +0000
Subject: [PATCH 20/60] fix: don't modify dictionaries handed over by the user
 on changing constants

---
 oelint_parser/constants.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/constants.py b/oelint_parser/constants.py
index 5b1abdb..03e23f0 100644
--- a/oelint_parser/constants.py
+++ b/oelint_parser/constants.py
@@ -1,3 +1,4 @@
+import copy
 import json
 import os
 import sys
@@ -16,7 +17,7 @@ class Constants():
         Args:
             file_ (str, optional): File to load. Defaults to DEFAULT_DB.
         """
-        self.__db = file_ if isinstance(file_, dict) else self.__load_db(file_)
+        self.__db = copy.deepcopy(file_) if isinstance(file_, dict) else self.__load_db(file_)
 
     def __load_db(self, path: str) -> dict:
         try:
@@ -56,7 +57,7 @@ class Constants():
                 else:
                     a[k] += v
             return a
-        self.__db = dict_merge(self.__db, _dict)
+        self.__db = dict_merge(self.__db, copy.deepcopy(_dict))
 
     def RemoveConstants(self, _dict: dict) -> None:
         """Remove constants from the existing
@@ -90,7 +91,7 @@ class Constants():
                 else:
                     a[k] = v
             return a
-        self.__db = dict_merge(self.__db, _dict)
+        self.__db = dict_merge(self.__db, copy.deepcopy(_dict))
 
     @property
     def FunctionsKnown(self) -> List[str]:
-- 
2.43.0


From fb3da5fb2c2dee669f9d36eb1a5054445b7b9d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:36 +0000
Subject: [PATCH 21/60] fix: GetByPath returns an empty dictionary for paths
 beyond a leaf

---
 oelint_parser/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/constants.py b/oelint_parser/constants.py
index 03e23f0..ba6bda9 100644
--- a/oelint_parser/constants.py
+++ b/oelint_parser/constants.py
@@ -39,7 +39,7 @@ class Constants():
         paths = path.rstrip('/').split('/')
         data = self.__db
         for _, value in enumerate(paths):
-            data = data.get(value, {})
+            data = data.get(value, {}) if isinstance(data, dict) else {}
         return data
 
     def AddConstants(self, _dict: dict) -> None:
-- 
2.43.0


From 5ce0daf55ad0852c05575dbe9aa2a713cd753aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:52 +0000
Subject: [PATCH 22/60] fix: don't truncate SRC_URI option values containing a
 =

---
 oelint_parser/cls_stash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 40f816c..73cca39 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -721,7 +721,7 @@ class Stash():
             _tmp += "/" + _url.path.lstrip("/")
         _path = _tmp.split(";")[0]
         _options = _raw.split(";")[1:] if ";" in _raw else []
-        _parsed_opt = {x.split("=")[0]: x.split("=")[1]
+        _parsed_opt = {x.split("=", 1)[0]: x.split("=", 1)[1]
                        for x in _options if "=" in x}
         return {"scheme": _scheme, "src": _path, "options": _parsed_opt}
 
-- 
2.43.0


From 2a799aa6d71eb9a65b23407807462ed1ad0e754a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:07 +0000
Subject: [PATCH 23/60] fix: surrounding whitespace in PACKAGES_DYNAMIC is not
 a pattern

---
 oelint_parser/cls_stash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 73cca39..32b9a7b 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -970,8 +970,8 @@ class Stash():
                                  attribute=Variable.ATTR_VAR,
                                  attributeValue="PACKAGES_DYNAMIC")
         for i in items:
-            packages_dynamic.update(self.SafeLineSplit(
-                self.ExpandTerm(_file, i.VarValueStripped)))
+            packages_dynamic.update(x for x in self.SafeLineSplit(
+                self.ExpandTerm(_file, i.VarValueStripped)) if x)
 
         return packages_dynamic
 
-- 
2.43.0


From 7000ef803bf3647a6422fbd7634a170d0508bd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:53 +0000
Subject: [PATCH 24/60] fix: keep spared variables unexpanded in nested
 references

---
 oelint_parser/cls_stash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 32b9a7b..05d8bde 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -822,7 +822,7 @@ class Stash():
                         cnt = self._ReverseInlineBlock(_comp[0])
                     else:
                         cnt = _comp[0].VarValueStripped
-                    _rpl = self.ExpandTerm(_file, cnt, seen=seen)
+                    _rpl = self.ExpandTerm(_file, cnt, spare=spare, seen=seen)
                     seen[m.group(1)] = _rpl
                 res = res.replace(m.group(0), _rpl)
             elif m.group(1) in baseset:
@@ -831,7 +831,7 @@ class Stash():
                 elif m.group(1) in baseset:
                     seen[m.group(1)] = ""
                     _rpl = self.ExpandTerm(
-                        _file, baseset[m.group(1)], seen=seen)
+                        _file, baseset[m.group(1)], spare=spare, seen=seen)
                     seen[m.group(1)] = _rpl
                 else:
                     _rpl = m.group(1)
-- 
2.43.0


From 87742800306c4b6bf17c510a958ed64d993d9ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:07 +0000
Subject: [PATCH 25/60] fix: consider the directory of a file as a possible
 layer root

---
 oelint_parser/cls_stash.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 05d8bde..bd53ff8 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -660,11 +660,11 @@ class Stash():
         """
         _curdir = os.path.dirname(name) if os.path.isfile(name) else name
         while os.path.isdir(_curdir):
+            if os.path.exists(os.path.join(_curdir, "conf/layer.conf")):
+                return _curdir
             if _curdir == "/":
                 break
             _curdir = os.path.dirname(_curdir)
-            if os.path.exists(os.path.join(_curdir, "conf/layer.conf")):
-                return _curdir
         return ""
 
     @functools.cache  # noqa: B019
@@ -682,14 +682,14 @@ class Stash():
             return os.path.join(localdir, name)
         _curdir = localdir
         while os.path.isdir(_curdir):
-            if _curdir == "/":
-                break
-            _curdir = os.path.dirname(_curdir)
             if os.path.exists(os.path.join(_curdir, "conf/layer.conf")):
                 if os.path.exists(os.path.join(_curdir, name)):
                     return os.path.join(_curdir, name)
                 else:
                     break
+            if _curdir == "/":
+                break
+            _curdir = os.path.dirname(_curdir)
         return ""
 
     def _replace_with_known_mirrors(self, _in: dict) -> dict:
-- 
2.43.0


From 6f804096fa11079709f59f6aaf4b007ec705aec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:22 +0000
Subject: [PATCH 26/60] fix: don't try to parse directories as include files

---
 oelint_parser/cls_stash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index bd53ff8..84926d2 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -678,12 +678,12 @@ class Stash():
         Returns:
             str -- path to found file or None
         """
-        if os.path.exists(os.path.join(localdir, name)):
+        if os.path.isfile(os.path.join(localdir, name)):
             return os.path.join(localdir, name)
         _curdir = localdir
         while os.path.isdir(_curdir):
             if os.path.exists(os.path.join(_curdir, "conf/layer.conf")):
-                if os.path.exists(os.path.join(_curdir, name)):
+                if os.path.isfile(os.path.join(_curdir, name)):
                     return os.path.join(_curdir, name)
                 else:
                     break
-- 
2.43.0


From eb1d5975c38116e12ca7a8758c07b9b65d352107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:38 +0000
Subject: [PATCH 27/60] fix: evaluate every single class of an inherit
 statement

---
 oelint_parser/parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 8be5fc4..b742fad 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -330,7 +330,9 @@ def get_items(stash: object,
                 elif k == "inherit":
                     inhname = stash.ExpandTerm(_file, m.group("inhname"))
                     _found_paths = set()
-                    for inh_item in [x for x in inhname.split(' ') if x]:
+                    for inh_item in Item.safe_linesplit(inhname):
+                        if inh_item in CONSTANTS.ClassIgnore:
+                            continue
                         if not inh_item.endswith(".bbclass"):
                             inh_item += ".bbclass"
                         _path = None
@@ -357,7 +359,9 @@ def get_items(stash: object,
                 elif k == "inherit_glob":
                     inhname = stash.ExpandTerm(_file, m.group("inhname"))
                     _found_paths = set()
-                    for inh_item in [x for x in inhname.split(' ') if x]:
+                    for inh_item in Item.safe_linesplit(inhname):
+                        if inh_item in CONSTANTS.ClassIgnore:
+                            continue
                         if not inh_item.endswith(".bbclass"):
                             inh_item += ".bbclass"
                         _path = None
-- 
2.43.0


From 4a25f6a358fffebef97dad07050007d4aaa16d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:55 +0000
Subject: [PATCH 28/60] fix: don't return quotes as part of an item, if a value
 is followed by whitespace

---
 oelint_parser/cls_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 6e26b55..7eb2fe7 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -414,7 +414,7 @@ class Variable(Item):
         Returns:
             list -- clean list of items in variable value
         """
-        _x = override.strip('"') or self.VarValue.strip('"')
+        _x = override.strip('"') or self.VarValueStripped
         if versioned:
             _x = RegexRpl.sub(__versioned_regex__, "", _x)
         return self._safe_linesplit(_x)
-- 
2.43.0


From 7b4891224e84f9f152996ad3b01f51915d308c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:10 +0000
Subject: [PATCH 29/60] fix: don't repeat parts of the function name as
 override

---
 oelint_parser/cls_item.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 7eb2fe7..cbc6e81 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -222,9 +222,9 @@ class Item():
                    "class-cross", "class-target", "remove"]
         _suffix = []
         _var = [chunks[0]]
-        for i in chunks[1:]:
+        for pos, i in enumerate(chunks[1:], start=1):
             if i in _marker or self.__OverrideDelimiter.join(_var) in CONSTANTS.FunctionsKnown:
-                _suffix = chunks[chunks.index(i):]
+                _suffix = chunks[pos:]
                 break
             else:
                 _var.append(i)
-- 
2.43.0


From 3703ce08fa7e768156b94d835a47efda87ea4cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:34 +0000
Subject: [PATCH 30/60] fix: oe.utils.read_file on a directory raised an
 exception

---
 oelint_parser/cls_stash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 84926d2..2bf7a88 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -859,7 +859,7 @@ class Stash():
                     "file"), spare=spare, seen=seen).strip("'\"")
                 with open(_fullpath) as i:
                     res = i.read()
-            except (FileNotFoundError, PermissionError, NotADirectoryError):
+            except OSError:
                 res = ''
         return res
 
-- 
2.43.0


From db355fca73e6ea58c9b58d489e0182b1d36b9d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:22 +0000
Subject: [PATCH 31/60] fix: task names containing 'before' or 'after' broke
 the evaluation of addtask

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index b742fad..8d2419b 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -46,7 +46,7 @@ __regex_python = regex.compile(
 __regex_include = regex.compile(
     r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9\-\./\$\{\}]+)")
 __regex_addtask = regex.compile(
-    r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)\s*((before\s*(?P<before>(([^#\n]*(?=after))|([^#\n]*))))|(after\s*(?P<after>(([^#\n]*(?=before))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
+    r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)\s*((before\s*(?P<before>(([^#\n]*\s(?=after(\s|$)))|([^#\n]*))))|(after\s*(?P<after>(([^#\n]*\s(?=before(\s|$)))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
 __regex_deltask = regex.compile(
     r"^(\s*|\t*)deltask\s+(?P<func>[\w\-]+)\s*(?P<comment>#.*)*")
 __regex_flagass = regex.compile(
-- 
2.43.0


From 18219951d843c8b4500ee7faf54835674b2f6b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:38 +0000
Subject: [PATCH 32/60] fix: split task and function lists on any whitespace

---
 oelint_parser/cls_item.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index cbc6e81..2d483b5 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -908,7 +908,7 @@ class FunctionExports(Item):
         Returns:
             list -- function names
         """
-        return [x for x in self.__FuncNames.split(" ") if x]
+        return self.safe_linesplit(self.__FuncNames)
 
     def get_items_unaliased(self) -> List[str]:
         """Get items with their bbclass scope names
@@ -947,8 +947,8 @@ class TaskAdd(Item):
         """
         super().__init__(*args, **kwargs)
         self.__FuncName = name
-        self.__Before = [x for x in (before or "").split(" ") if x]
-        self.__After = [x for x in (after or "").split(" ") if x]
+        self.__Before = self.safe_linesplit(before or "")
+        self.__After = self.safe_linesplit(after or "")
         self.__Comment = comment or ''
 
     @property
-- 
2.43.0


From 07d72efee2b270a21e1479cebb274b7ece41a51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:15 +0000
Subject: [PATCH 33/60] fix: detect python functions with upper case names or
 return annotations

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 8d2419b..66e436d 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -42,7 +42,7 @@ __regex_export_woval = regex.compile(r"^\s*?export(\s+|\t+)(?P<name>.+)\s*$")
 __regex_comments = regex.compile(r"^(\s|\t)*#+\s*(?P<body>.*)")
 __regex_comments_pure = regex.compile(r"^#+\s*(?P<body>.*)")
 __regex_python = regex.compile(
-    r"^(\s*|\t*)def(\s+|\t+)(?P<funcname>[a-z0-9_\-]+)(\s*|\t*)\(.*\)\:")
+    r"^(\s*|\t*)def(\s+|\t+)(?P<funcname>[A-Za-z0-9_\-]+)(\s*|\t*)\(.*\)\s*(->.*)?\:")
 __regex_include = regex.compile(
     r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9\-\./\$\{\}]+)")
 __regex_addtask = regex.compile(
-- 
2.43.0


From 5045048b79b01710f0c93fb843741e710c7c9b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:30 +0000
Subject: [PATCH 34/60] fix: don't return separating whitespace as part of
 addpylib and addfragments arguments

---
 oelint_parser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 66e436d..25392a8 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -53,11 +53,11 @@ __regex_flagass = regex.compile(
     r"^(\s*|\t*)(?P<name>([A-Z0-9a-z_.-]|\$|\{|\}|:)+?)\[(?P<ident>(\w|-|\.|/|@|_)+)\](?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
 __regex_export_func = regex.compile(r"^EXPORT_FUNCTIONS\s+(?P<func>.*)")
 __regex_addpylib = regex.compile(
-    r"^(\s+|\t*)addpylib(\s+|\t+)(?P<path>\$\{LAYERDIR\}/.+)(\s+|\t+)(?P<namespace>.*)")
+    r"^(\s+|\t*)addpylib(\s+|\t+)(?P<path>\$\{LAYERDIR\}/.*\S)(\s+|\t+)(?P<namespace>.*)")
 __regex_unset = regex.compile(
     r"^\s*unset\s+(?P<varname>[^\s\[]+)(\[(?P<flag>.+)\])?")
 __regex_addfragments = regex.compile(
-    r"addfragments\s+(?P<path>.+)\s+(?P<variable>.+)\s+(?P<flagged>.+)")
+    r"addfragments\s+(?P<path>.*\S)\s+(?P<variable>.*\S)\s+(?P<flagged>\S.*)")
 __regex_includeall = regex.compile(r"include_all\s+(?P<file>.+)")
 __func_start_regexp__ = regex.compile(
     r"\s*(((?P<py>python)|(?P<fr>fakeroot))\s*)*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{")
-- 
2.43.0


From d4376f36d017a52b260dec07ad47cbfda12ec236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:46 +0000
Subject: [PATCH 35/60] fix: don't truncate the names of include files

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 25392a8..0488a5c 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -44,7 +44,7 @@ __regex_comments_pure = regex.compile(r"^#+\s*(?P<body>.*)")
 __regex_python = regex.compile(
     r"^(\s*|\t*)def(\s+|\t+)(?P<funcname>[A-Za-z0-9_\-]+)(\s*|\t*)\(.*\)\s*(->.*)?\:")
 __regex_include = regex.compile(
-    r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9\-\./\$\{\}]+)")
+    r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9\-\./\$\{\}\+@%~,:]+)")
 __regex_addtask = regex.compile(
     r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)\s*((before\s*(?P<before>(([^#\n]*\s(?=after(\s|$)))|([^#\n]*))))|(after\s*(?P<after>(([^#\n]*\s(?=before(\s|$)))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
 __regex_deltask = regex.compile(
-- 
2.43.0


From e1eafa4183f1ffd422b74da30d90a7e1924ded1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 36/60] fix: don't treat the expand argument of d.getVar as
 part of the variable name

---
 oelint_parser/inlinerep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/inlinerep.py b/oelint_parser/inlinerep.py
index 92ed7ed..9e413a8 100644
--- a/oelint_parser/inlinerep.py
+++ b/oelint_parser/inlinerep.py
@@ -24,7 +24,7 @@ __oe_utils_version_less_or_equal_regex__ = regex.compile(
     r"(.*)oe\.utils\.version_less_or_equal\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),.*?\)")
 __oe_utils_both_contain_regex__ = regex.compile(
     r"(.*)oe\.utils\.both_contain\(.*?,\s*.*?,\s*(?P<trueval>.*?),.*?\)")
-__d_getvar_regex__ = regex.compile(r'\s*d\.getVar\(\s*(?P<val>.*?)\s*\)')
+__d_getvar_regex__ = regex.compile(r'\s*d\.getVar\(\s*(?P<val>.*?)\s*(,.*?)?\)')
 
 
 def bb_utils_filter(_in: str, negative_clause: bool = False) -> str:
-- 
2.43.0


From bd74349e845d76769b113fbf007255e5c3dd1652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:22 +0000
Subject: [PATCH 37/60] fix: blanks after arguments of inline functions are not
 part of the argument

---
 oelint_parser/inlinerep.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/oelint_parser/inlinerep.py b/oelint_parser/inlinerep.py
index 9e413a8..6ef18fd 100644
--- a/oelint_parser/inlinerep.py
+++ b/oelint_parser/inlinerep.py
@@ -3,27 +3,27 @@ import regex
 from oelint_parser.rpl_regex import RegexRpl
 
 __bb_utils_filter_regex__ = regex.compile(
-    r'(.*)bb\.utils\.filter\(\s*(?P<trueval>.*?),.*?,.*?\)')
+    r'(.*)bb\.utils\.filter\(\s*(?P<trueval>.*?)\s*,.*?,.*?\)')
 __bb_utils_contains_regex__ = regex.compile(
-    r"(.*)bb\.utils\.contains\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),\s*.\)")
+    r"(.*)bb\.utils\.contains\(.*?,\s*.*?,\s*(?P<trueval>.*?)\s*,\s*(?P<falseval>.*?)\s*,\s*.\)")
 __bb_utils_contains_any_regex__ = regex.compile(
-    r"(.*)bb\.utils\.contains_any\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),\s*.\)")
+    r"(.*)bb\.utils\.contains_any\(.*?,\s*.*?,\s*(?P<trueval>.*?)\s*,\s*(?P<falseval>.*?)\s*,\s*.\)")
 __oe_utils_conditional_regex__ = regex.compile(
-    r"(.*)oe\.utils\.conditional\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),\s*.*?\)")
+    r"(.*)oe\.utils\.conditional\(.*?,\s*.*?,\s*(?P<trueval>.*?)\s*,\s*(?P<falseval>.*?)\s*,\s*.*?\)")
 __oe_utils_ifelse_regex__ = regex.compile(
-    r"(.*)oe\.utils\.ifelse\(.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?)\)")
+    r"(.*)oe\.utils\.ifelse\(.*?,\s*(?P<trueval>.*?)\s*,\s*(?P<falseval>.*?)\s*\)")
 __oe_utils_any_distro_features_regex__ = regex.compile(
-    r"(.*)oe\.utils\.any_distro_features\(.*?,\s*(?P<feature>.*?)(,\s*(?P<trueval>.*?)(,\s*(?P<falseval>.*?))*)*\)")
+    r"(.*)oe\.utils\.any_distro_features\(.*?,\s*(?P<feature>.*?)(,\s*(?P<trueval>.*?)\s*(,\s*(?P<falseval>.*?)\s*)*)*\)")
 __oe_utils_all_distro_features_regex__ = regex.compile(
-    r"(.*)oe\.utils\.all_distro_features\(.*?,\s*(?P<feature>.*?)(,\s*(?P<trueval>.*?)(,\s*(?P<falseval>.*?))*)*\)")
+    r"(.*)oe\.utils\.all_distro_features\(.*?,\s*(?P<feature>.*?)(,\s*(?P<trueval>.*?)\s*(,\s*(?P<falseval>.*?)\s*)*)*\)")
 __oe_utils_vartrue_regex__ = regex.compile(
-    r"(.*)oe\.utils\.vartrue\(.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),.*?\)")
+    r"(.*)oe\.utils\.vartrue\(.*?,\s*(?P<trueval>.*?)\s*,\s*(?P<falseval>.*?)\s*,.*?\)")
 __oe_utils_less_or_equal_regex__ = regex.compile(
-    r"(.*)oe\.utils\.less_or_equal\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),.*?\)")
+    r"(.*)oe\.utils\.less_or_equal\(.*?,\s*.*?,\s*(?P<trueval>.*?)\s*,\s*(?P<falseval>.*?)\s*,.*?\)")
 __oe_utils_version_less_or_equal_regex__ = regex.compile(
-    r"(.*)oe\.utils\.version_less_or_equal\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),.*?\)")
+    r"(.*)oe\.utils\.version_less_or_equal\(.*?,\s*.*?,\s*(?P<trueval>.*?)\s*,\s*(?P<falseval>.*?)\s*,.*?\)")
 __oe_utils_both_contain_regex__ = regex.compile(
-    r"(.*)oe\.utils\.both_contain\(.*?,\s*.*?,\s*(?P<trueval>.*?),.*?\)")
+    r"(.*)oe\.utils\.both_contain\(.*?,\s*.*?,\s*(?P<trueval>.*?)\s*,.*?\)")
 __d_getvar_regex__ = regex.compile(r'\s*d\.getVar\(\s*(?P<val>.*?)\s*(,.*?)?\)')
 
 
-- 
2.43.0


From 9a3ce6702b1393e32556e5d127ec4a491406f7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:13 +0000
Subject: [PATCH 38/60] fix: detect include statements with inline code in the
 name of the file

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 0488a5c..7d1c27c 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -44,7 +44,7 @@ __regex_comments_pure = regex.compile(r"^#+\s*(?P<body>.*)")
 __regex_python = regex.compile(
     r"^(\s*|\t*)def(\s+|\t+)(?P<funcname>[A-Za-z0-9_\-]+)(\s*|\t*)\(.*\)\s*(->.*)?\:")
 __regex_include = regex.compile(
-    r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9\-\./\$\{\}\+@%~,:]+)")
+    r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9\-\./\$\{\}\+@%~,:!]+)")
 __regex_addtask = regex.compile(
     r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)\s*((before\s*(?P<before>(([^#\n]*\s(?=after(\s|$)))|([^#\n]*))))|(after\s*(?P<after>(([^#\n]*\s(?=before(\s|$)))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
 __regex_deltask = regex.compile(
-- 
2.43.0


From 75c50cd107eaf3b24a0d3f0e499eca2232b9c8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:57 +0000
Subject: [PATCH 39/60] fix: keep bbappends and everything included by them in
 sequence

---
 oelint_parser/cls_stash.py | 45 ++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 2bf7a88..62a30ca 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -153,6 +153,7 @@ class Stash():
         self.__seen_classes = set()
         self.__parsing = []
         self.__last_line = {}
+        self.__append_items = {}
         self.__map = {}
         self.__quiet = quiet
         self.__new_style_override_syntax = new_style_override_syntax
@@ -232,22 +233,28 @@ class Stash():
         # Match bbappends to bbs
         if _file.endswith(".bbappend"):
             _maxline = 0
-            for x in self.__map:
-                if self._IsAppendFor(_file, x):
-                    self.__map[x].append(_file)
-                    _maxline = max(_maxline, self._GetLastLine(x))
-            for r in res:
-                # pretend that we are adding the file to the end of the original
-                r.Line += _maxline
+            _recipes = [x for x in self.__map if self._IsAppendFor(_file, x)]
+            for x in _recipes:
+                self.__map[x].append(_file)
+                _maxline = max(_maxline, self._GetLastLine(x))
+            self.__append_items[_file] = [(x, x.Line) for x in self.__list[_items_before:] + res]
+            # pretend that we are adding the file to the end of the original
+            _maxline = self._MoveAppend(_file, _maxline)
+            for x in _recipes:
+                # further bbappends follow this one
+                self.__last_line[x] = _maxline
         elif _file.endswith(".bb"):
             _maxline = self._GetLastLine(_file)
             for item in self.__list:
-                if not item.Origin.endswith(".bbappend"):
-                    continue
-                if self._IsAppendFor(item.Origin, _file):
-                    self.__map[_file].append(item.Origin)
+                if item.Origin.endswith(".bbappend") and item.Origin not in self.__append_items:
+                    # added to the stash without parsing
+                    self.__append_items[item.Origin] = [(x, x.InFileLine) for x in self.__list if x.Origin == item.Origin]
+            for _append in self.__append_items:
+                if self._IsAppendFor(_append, _file):
+                    self.__map[_file].append(_append)
                     # pretend that we are adding that bbappend to the end of this recipe
-                    item.Line = max(item.Line, item.InFileLine + _maxline)
+                    _maxline = self._MoveAppend(_append, _maxline)
+            self.__last_line[_file] = _maxline
 
         self.AddDistroMachineFromLayer(_file)
         self.__list += res
@@ -261,6 +268,20 @@ class Stash():
 
         return res
 
+    def _MoveAppend(self, _append: str, _line: int) -> int:
+        """Move the items of a bbappend (and everything included by it) after a line
+
+        Args:
+            _append (str): Path to bbappend
+            _line (int): Line
+
+        Returns:
+            int: Last line used by the bbappend
+        """
+        for item, line in self.__append_items[_append]:
+            item.Line = max(item.Line, line + _line)
+        return max((x.Line for x, _ in self.__append_items[_append]), default=_line)
+
     def _IsAppendFor(self, _append: str, _recipe: str) -> bool:
         """Check if a bbappend applies to a recipe
 
-- 
2.43.0


From a63d29040afa1f0caf0d7040cb651ebba55213be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:41 +0000
Subject: [PATCH 40/60] fix: don't add the value of :remove to variables
 without any other assignment

---
 oelint_parser/cls_stash.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 62a30ca..e1be504 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -610,10 +610,7 @@ class Stash():
             name = item.VarNameCompleteNoModifiers
             if name not in _exp.keys():
                 _exp[name] = None
-                if _exp[name] is None:
-                    _exp[name] = ""
-                _exp[name] += self._ReverseInlineBlock(item)
-            elif "append" in item.SubItems:
+            if "append" in item.SubItems:
                 if _exp[name] is None:
                     _exp[name] = ""
                 _exp[name] += self._ReverseInlineBlock(item)
-- 
2.43.0


From f66a37b549cec2bf146281f0efeda077c9d0f478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:56 +0000
Subject: [PATCH 41/60] fix: FunctionExports.ATTR_FUNCNAME names an attribute
 that doesn't exist

---
 oelint_parser/cls_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 2d483b5..719a167 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -879,7 +879,7 @@ class FlagAssignment(Item):
 class FunctionExports(Item):
     """Items representing EXPORT_FUNCTIONS in bitbake."""
 
-    ATTR_FUNCNAME = "FuncName"
+    ATTR_FUNCNAME = "FuncNames"
     CLASSIFIER = "FunctionExports"
 
     def __init__(self,
-- 
2.43.0


From e5f85605107980010d2e06c4e5eaf7f61bd47e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:28 +0000
Subject: [PATCH 42/60] fix: query and fragment of a source URI are part of its
 location

---
 oelint_parser/cls_stash.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index e1be504..a89292e 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -730,18 +730,22 @@ class Stash():
         """
         _raw = self._replace_with_known_mirrors(string)
         try:
-            _url = urlparse(self._replace_with_known_mirrors(string))
+            # options are not part of the location
+            _url = urlparse(_raw.split(";")[0])
         except ValueError:
             return {"scheme": '', "src": '', "options": {}}
         _scheme = _url.scheme
         _tmp = _url.netloc
         if _url.path:
             _tmp += "/" + _url.path.lstrip("/")
-        _path = _tmp.split(";")[0]
+        if _url.query:
+            _tmp += "?" + _url.query
+        if _url.fragment:
+            _tmp += "#" + _url.fragment
         _options = _raw.split(";")[1:] if ";" in _raw else []
         _parsed_opt = {x.split("=", 1)[0]: x.split("=", 1)[1]
                        for x in _options if "=" in x}
-        return {"scheme": _scheme, "src": _path, "options": _parsed_opt}
+        return {"scheme": _scheme, "src": _tmp, "options": _parsed_opt}
 
     @functools.cache  # noqa: B019
     def SafeLineSplit(self, string: str) -> List[str]:
-- 
2.43.0


From dcc3958a5d9ee42c51a6b9fc102c2aedc4ab6131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:27 +0000
Subject: [PATCH 43/60] fix: overrides of functions with the new syntax and
 class-nativesdk are part of the name

---
 oelint_parser/cls_item.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 719a167..a516d18 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -218,12 +218,13 @@ class Item():
         chunks = name.split(self.__OverrideDelimiter)
         if name in ['__anonymous']:
             return (name, '')
-        _marker = ["append", "prepend", "class-native",
+        _marker = ["append", "prepend", "class-native", "class-nativesdk",
                    "class-cross", "class-target", "remove"]
         _suffix = []
         _var = [chunks[0]]
         for pos, i in enumerate(chunks[1:], start=1):
-            if i in _marker or self.__OverrideDelimiter.join(_var) in CONSTANTS.FunctionsKnown:
+            # with the new syntax everything after the first delimiter is an override
+            if i in _marker or self.__OverrideDelimiter == ':' or self.__OverrideDelimiter.join(_var) in CONSTANTS.FunctionsKnown:
                 _suffix = chunks[pos:]
                 break
             else:
@@ -736,7 +737,7 @@ class Function(Item):
             str -- machine specific modifier or ""
         """
         for x in self.SubItems:
-            if x not in ["append", "prepend", "class-native", "class-cross", "class-target", "remove", "machine"]:
+            if x not in ["append", "prepend", "class-native", "class-nativesdk", "class-cross", "class-target", "remove", "machine"]:
                 return x
         return ""
 
-- 
2.43.0


From 78513750df985cbd28563d7baa705cacde065986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:45 +0000
Subject: [PATCH 44/60] fix: split words at a continuation that is followed by
 an x

---
 oelint_parser/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 7d1c27c..1fe3c7f 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -183,7 +183,8 @@ def prepare_lines_subparser(_iter: Iterable, lineOffset: int, num: int, line: in
     res = {"line": startnum + lineOffset, "raw": raw_line,
            "realraw": real_raw,
            "inline_blocks": inline_blocks,
-           "cnt": raw_line.replace("\n", "").replace("\\", chr(0x1b))}
+           # a continued line starting with x must not be taken for an escaped hex character
+           "cnt": raw_line.replace("\\\nx", "\\\n x").replace("\n", "").replace("\\", chr(0x1b))}
     return (res, nextbuf, length)
 
 
-- 
2.43.0


From 70a6e799371addde6a5e8a01cde867c6dfade20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:40 +0000
Subject: [PATCH 45/60] fix: removing a text constant turned it into a list of
 characters

---
 oelint_parser/constants.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oelint_parser/constants.py b/oelint_parser/constants.py
index ba6bda9..a59f50e 100644
--- a/oelint_parser/constants.py
+++ b/oelint_parser/constants.py
@@ -71,6 +71,9 @@ class Constants():
                     pass
                 elif isinstance(b[k], dict):
                     dict_merge(a[k], b[k])
+                elif isinstance(a[k], str):
+                    if a[k] == v:
+                        del a[k]
                 else:
                     a[k] = [x for x in a[k] if x not in v]
             return a
-- 
2.43.0


From 6bb5a4f0e9b81b2ce92306c8d47e1a20d955f292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:26 +0000
Subject: [PATCH 46/60] fix: an ignored include is still an include statement

---
 oelint_parser/parser.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 1fe3c7f..15adc80 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -437,9 +437,7 @@ def get_items(stash: object,
                     includename = stash.ExpandTerm(_file, m.group("incname"))
                     _path = stash.FindLocalOrLayer(
                         includename, os.path.dirname(_file))
-                    if _path:
-                        if includename in CONSTANTS.IncludeIgnore:
-                            continue
+                    if _path and includename not in CONSTANTS.IncludeIgnore:
                         tmp = stash.AddFile(
                             _path, lineOffset=line["line"] + includeOffset, forcedLink=_file)
                         if any(tmp):
-- 
2.43.0


From 7a3671e49c1deb3c529039163aa44abddef6063b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:50 +0000
Subject: [PATCH 47/60] fix: appending or removing a query result to a list of
 items nested the list

---
 oelint_parser/cls_stash.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index a89292e..9b302ee 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -81,11 +81,10 @@ class Stash():
             Args:
                 item (Union[Item, Iterable[Item]]): Item or Iterable of Items
             """
-            if isinstance(item, (list, tuple)):
-                for _item in item:
-                    self.data.append(_item)
-            else:
+            if isinstance(item, Item):
                 self.data.append(item)
+            else:
+                self.data.extend(list(item))
 
         def extend(self, other: 'Stash.StashList') -> None:
             """Extend list
@@ -104,11 +103,8 @@ class Stash():
             Args:
                 item (Item): Item(s) to remove
             """
-            if isinstance(item, (list, tuple)):
-                for _item in item:
-                    self.data.remove(_item)
-            else:
-                self.data.remove(item)
+            for _item in [item] if isinstance(item, Item) else list(item):
+                self.data.remove(_item)
 
         def reduce(self, filename: str = None,
                    classifier: Union[Iterable[str], str] = None,
-- 
2.43.0


From 599dfc2cd35dce441762040b3e80a294dbe015d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:07 +0000
Subject: [PATCH 48/60] fix: += turned a list of items into a plain list

---
 oelint_parser/cls_stash.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 9b302ee..b4d3785 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -63,8 +63,9 @@ class Stash():
             """
             return Stash.StashList(self._stash, self.data[:])
 
-        def __iadd__(self, __value: Iterable) -> List[Item]:
-            return self.data.__iadd__(__value)
+        def __iadd__(self, __value: Iterable) -> 'Stash.StashList':
+            self.data += __value
+            return self
 
         def insert(self, index: int, item: Item) -> None:
             """Insert into list
-- 
2.43.0


From 42743fba1cace1ae761eb7ee1b1e71c78f55f235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:21 +0000
Subject: [PATCH 49/60] fix: a failing removal left a part of the items removed
 and stale caches

---
 oelint_parser/cls_stash.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index b4d3785..9c86767 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -312,11 +312,10 @@ class Stash():
         Args:
             item (Item): Item(s) to append
         """
-        if isinstance(item, (list, tuple, Stash.StashList)):
-            for _item in item:
-                self.__list.append(_item)
-        else:
+        if isinstance(item, Item):
             self.__list.append(item)
+        else:
+            self.__list.extend(list(item))
 
         # Reset caches
         self._clear_cached()
@@ -327,11 +326,11 @@ class Stash():
         Args:
             item (Item): Item(s) to remove
         """
-        if isinstance(item, (list, tuple, Stash.StashList)):
-            for _item in item:
-                self.__list.remove(_item)
-        else:
-            self.__list.remove(item)
+        # nothing is removed, if any of the items is unknown
+        _list = self.__list[:]
+        for _item in [item] if isinstance(item, Item) else list(item):
+            _list.remove(_item)
+        self.__list = _list
 
         # Reset caches
         self._clear_cached()
-- 
2.43.0


From c1dc738df3c5e751405adc22b960e26fce265398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:21 +0000
Subject: [PATCH 50/60] fix: an invalid pattern of dynamic packages raised an
 exception

---
 oelint_parser/cls_stash.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 9c86767..20712ca 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -1006,7 +1006,11 @@ class Stash():
         """
         expanded = self.ExpandTerm(_file, name)
         for pattern in self.GetPackagesDynamic(_file):
-            if RegexRpl.match(pattern, expanded):
-                return True
+            try:
+                if RegexRpl.match(pattern, expanded):
+                    return True
+            except regex.error:
+                # not a valid expression, so it matches nothing
+                continue
 
         return False
-- 
2.43.0


From 6b5ec0258235dc39557f31c2231ad3fb31fbb19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:36 +0000
Subject: [PATCH 51/60] fix: several names of a source URI are several
 resources

---
 oelint_parser/cls_stash.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 20712ca..85a703d 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -930,8 +930,9 @@ class Stash():
             for name in [x for x in self.SafeLineSplit(item.VarValueStripped) if x]:
                 _url = self.GetScrComponents(name)
                 if "name" in _url["options"]:
-                    res.add(_url["options"]["name"].replace(
-                        "${PN}", _recipe_name))
+                    # a URI with several branches has several names
+                    res.update(x.replace("${PN}", _recipe_name)
+                               for x in _url["options"]["name"].split(",") if x)
         return res
 
     @functools.cache  # noqa: B019
-- 
2.43.0


From cf38653fcc242077d8ae04be6da9c2536616c69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:53 +0000
Subject: [PATCH 52/60] fix: items of an include shared by recipes are part of
 each recipe just once

---
 oelint_parser/cls_stash.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 85a703d..3eb3024 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -148,9 +148,10 @@ class Stash():
         self.__list = []
         self.__seen_files = set()
         self.__seen_classes = set()
-        self.__parsing = []
+        self.__parsing = {}
         self.__last_line = {}
         self.__append_items = {}
+        self.__included_by = {}
         self.__map = {}
         self.__quiet = quiet
         self.__new_style_override_syntax = new_style_override_syntax
@@ -193,6 +194,10 @@ class Stash():
         """
         _file = os.path.abspath(_file)
         _, _ext = os.path.splitext(_file)
+        # files parsed for every inclusion have own items for each of the including files
+        _included_by = set()
+        if _ext not in [".bbclass", ".bbappend"]:
+            _included_by.update([x for x in self.__parsing if x.endswith((".bb", ".bbclass", ".bbappend"))][-1:])
         _known = _file in self.__seen_files and _ext not in [".inc", ".bb", ".conf", ".bbclass"]
         _known |= _file in self.__seen_classes
         # circular include
@@ -202,13 +207,14 @@ class Stash():
             if forcedLink:
                 self.__map.setdefault(forcedLink, []).append(_file)
                 self._clear_cached()
+            self.__parsing.get(_file, set()).update(_included_by)
             return []
         if not self.__quiet:
             print("Parsing {file}".format(file=_file))
         self.__seen_files.add(_file)
         if _ext in [".bbclass"]:
             self.__seen_classes.add(_file)
-        self.__parsing.append(_file)
+        self.__parsing[_file] = _included_by
         _items_before = len(self.__list)
         try:
             res = get_items(self,
@@ -217,7 +223,7 @@ class Stash():
                             new_style_override_syntax=self.__new_style_override_syntax,
                             negative=self.__negative_inline)
         finally:
-            self.__parsing.remove(_file)
+            del self.__parsing[_file]
         # the files included by this one are already part of the list
         self.__last_line[_file] = max((x.Line for x in self.__list[_items_before:] + res), default=lineOffset)
         if _file not in self.__map:
@@ -255,6 +261,8 @@ class Stash():
 
         self.AddDistroMachineFromLayer(_file)
         self.__list += res
+        if _included_by:
+            self.__included_by.update(dict.fromkeys(res, _included_by))
 
         # Reset caches
         self._clear_cached()
@@ -412,7 +420,14 @@ class Stash():
 
     @functools.cache  # noqa: B019
     def __is_linked_to(self, item: Item, filename: str, nolink: bool = False) -> bool:
-        return (item.Origin in self.__map.get(filename, {}) and not nolink) or filename == item.Origin
+        if filename == item.Origin:
+            return True
+        _links = self.__map.get(filename, [])
+        if nolink or item.Origin not in _links:
+            return False
+        # an include shared by recipes, is part of each recipe just once
+        _included_by = self.__included_by.get(item, [filename])
+        return any(x == filename or x in _links for x in _included_by) or not filename.endswith(".bb")
 
     @functools.cache  # noqa: B019
     def __get_items_by_file(self, items: Iterable[Item], filename: str, nolink: bool = False) -> List[Item]:
-- 
2.43.0


From ece36d86eda73f72c89bdbb794e31de419e00488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:30 +0000
Subject: [PATCH 53/60] fix: layer paths are no pattern when looking for
 distros and machines

---
 oelint_parser/cls_stash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 3eb3024..536ac58 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -351,10 +351,10 @@ class Stash():
         """
         _root = self.GetLayerRoot(path)
         if _root:
-            for conf in glob.glob(os.path.join(_root, "conf", "distro", "*.conf")):
+            for conf in glob.glob(os.path.join(glob.escape(_root), "conf", "distro", "*.conf")):
                 _fn, _ = os.path.splitext(os.path.basename(conf))
                 CONSTANTS.AddConstants({'replacements': {'distros': [_fn]}})
-            for conf in glob.glob(os.path.join(_root, "conf", "machine", "*.conf")):
+            for conf in glob.glob(os.path.join(glob.escape(_root), "conf", "machine", "*.conf")):
                 _fn, _ = os.path.splitext(os.path.basename(conf))
                 CONSTANTS.AddConstants({'replacements': {'machines': [_fn]}})
 
-- 
2.43.0


From 88d2b9094d426003b17492c49a78dc9b3dd89228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:30 +0000
Subject: [PATCH 54/60] fix: directories of recipes are no pattern when looking
 for files

---
 oelint_parser/cls_stash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 536ac58..cb5a442 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -669,9 +669,9 @@ class Stash():
         src_uris = self.GetItemsFor(filename=_file, classifier=Variable.CLASSIFIER,
                                     attribute=Variable.ATTR_VAR, attributeValue="SRC_URI")
         files_paths = {
-            "{dir}/*/{pattern}".format(dir=os.path.dirname(x.Origin), pattern=pattern) for x in src_uris}
+            "{dir}/*/{pattern}".format(dir=glob.escape(os.path.dirname(x.Origin)), pattern=pattern) for x in src_uris}
         for item in src_uris:
-            files_paths.update({"{dir}/*/{pattern}".format(dir=os.path.dirname(x.Origin), pattern=pattern)
+            files_paths.update({"{dir}/*/{pattern}".format(dir=glob.escape(os.path.dirname(x.Origin)), pattern=pattern)
                                 for x in self.GetItemsFor(filename=item.Origin)})
         for item in files_paths:
             res.update(glob.glob(item))
-- 
2.43.0


From fbcd7595c18ca37300e5af42d3466c251cdf11c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:38 +0000
Subject: [PATCH 55/60] fix: the body of functions with references in their
 names started within the name

---
 oelint_parser/cls_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index a516d18..dffa509 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -633,7 +633,7 @@ class Function(Item):
             self.OverrideDelimiter) if x]
         self.__FuncBody = body
         self.__FuncBodyRaw = textwrap.dedent(
-            self.Raw[self.Raw.find("{") + 1:].rstrip().rstrip("}"))
+            self.Raw[self.Raw.find("{", self.Raw.find("(")) + 1:].rstrip().rstrip("}"))
 
     @property
     def IsPython(self) -> bool:
-- 
2.43.0


From b65b5fd6db986d8f4baf77f681a3dfcad69d36eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:51 +0000
Subject: [PATCH 56/60] fix: exported values in single quotes and with other
 operators

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 15adc80..5ecc0fb 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -37,7 +37,7 @@ __regex_inherit = regex.compile(
 __regex_inherit_glob = regex.compile(
     r"^INHERIT(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)('|\")(?P<inhname>.*)('|\")")
 __regex_export_wval = regex.compile(
-    r"^\s*?export(\s+|\t+)(?P<name>.+)\s*=\s*\"(?P<value>.*)\"")
+    r"^\s*?export(\s+|\t+)(?P<name>.+?)\s*(\+|\?|\:|\.)*=(\+|\.)*\s*(?P<quote>\"|')(?P<value>.*)(?P=quote)")
 __regex_export_woval = regex.compile(r"^\s*?export(\s+|\t+)(?P<name>.+)\s*$")
 __regex_comments = regex.compile(r"^(\s|\t)*#+\s*(?P<body>.*)")
 __regex_comments_pure = regex.compile(r"^#+\s*(?P<body>.*)")
-- 
2.43.0


From 83659586614b1fb2dfc80de141ac0fd099e5e72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:29 +0000
Subject: [PATCH 57/60] fix: statements starting with an underscore or a
 reference end a python function

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 5ecc0fb..c83ac9c 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -62,7 +62,7 @@ __regex_includeall = regex.compile(r"include_all\s+(?P<file>.+)")
 __func_start_regexp__ = regex.compile(
     r"\s*(((?P<py>python)|(?P<fr>fakeroot))\s*)*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{")
 __next_line_regex__ = regex.compile(r"\\\s*\n")
-__valid_func_name_regex__ = regex.compile(r"^[A-Za-z0-9#]+")
+__valid_func_name_regex__ = regex.compile(r"^[A-Za-z0-9#_$]+")
 
 
 def get_full_scope(_string: str, offset: int, _sstart: int, _send: int) -> str:
-- 
2.43.0


From a21045283ece2334fd140c80e5cd64249ab10467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:22 +0000
Subject: [PATCH 58/60] fix: variables with a plus sign, slash or tilde in the
 name were no assignments

---
 oelint_parser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index c83ac9c..22ca674 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -29,7 +29,7 @@ from oelint_parser.constants import CONSTANTS
 INLINE_BLOCK = "!!!inlineblock!!!"
 
 __regex_var = regex.compile(
-    r"^(?P<varname>([A-Z0-9a-z_.-]|\$|\{|\}|:)+?)(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
+    r"^(?P<varname>([A-Z0-9a-z_.+/~-]|\$|\{|\}|:)+?)(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
 __regex_func = regex.compile(
     r"^((?P<py>python)\s*|(?P<fr>fakeroot\s*))*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{(?P<funcbody>.*)\s*\}")
 __regex_inherit = regex.compile(
@@ -50,7 +50,7 @@ __regex_addtask = regex.compile(
 __regex_deltask = regex.compile(
     r"^(\s*|\t*)deltask\s+(?P<func>[\w\-]+)\s*(?P<comment>#.*)*")
 __regex_flagass = regex.compile(
-    r"^(\s*|\t*)(?P<name>([A-Z0-9a-z_.-]|\$|\{|\}|:)+?)\[(?P<ident>(\w|-|\.|/|@|_)+)\](?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
+    r"^(\s*|\t*)(?P<name>([A-Z0-9a-z_.+/~-]|\$|\{|\}|:)+?)\[(?P<ident>(\w|-|\.|/|@|_)+)\](?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
 __regex_export_func = regex.compile(r"^EXPORT_FUNCTIONS\s+(?P<func>.*)")
 __regex_addpylib = regex.compile(
     r"^(\s+|\t*)addpylib(\s+|\t+)(?P<path>\$\{LAYERDIR\}/.*\S)(\s+|\t+)(?P<namespace>.*)")
-- 
2.43.0


From 1f0bb602948e1e619c7ce555c08319c88633b430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:42 +0000
Subject: [PATCH 59/60] fix: flags with a plus sign in the name were no flag
 assignments

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 22ca674..c75c7a7 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -50,7 +50,7 @@ __regex_addtask = regex.compile(
 __regex_deltask = regex.compile(
     r"^(\s*|\t*)deltask\s+(?P<func>[\w\-]+)\s*(?P<comment>#.*)*")
 __regex_flagass = regex.compile(
-    r"^(\s*|\t*)(?P<name>([A-Z0-9a-z_.+/~-]|\$|\{|\}|:)+?)\[(?P<ident>(\w|-|\.|/|@|_)+)\](?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
+    r"^(\s*|\t*)(?P<name>([A-Z0-9a-z_.+/~-]|\$|\{|\}|:)+?)\[(?P<ident>(\w|-|\.|\+|/|@|_)+)\](?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
 __regex_export_func = regex.compile(r"^EXPORT_FUNCTIONS\s+(?P<func>.*)")
 __regex_addpylib = regex.compile(
     r"^(\s+|\t*)addpylib(\s+|\t+)(?P<path>\$\{LAYERDIR\}/.*\S)(\s+|\t+)(?P<namespace>.*)")
-- 
2.43.0


From fed0842c76dc1a25abef087a160f30977792381d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:37 +0000
Subject: [PATCH 60/60] fix: set the including files of all items when
 finalizing after a query

---
 oelint_parser/cls_stash.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index cb5a442..ce922f0 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -368,6 +368,9 @@ class Stash():
             self.__map[k].append(k)
             self.__map[k] = list(set(self.__map[k]))
 
+        # Reset caches
+        self._clear_cached()
+
         for k, v in self.__map.items():
             for item in self.GetItemsFor(k):
                 item.IncludedFrom = v
-- 
2.43.0

