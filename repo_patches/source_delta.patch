From c957c7ff19f0796c1131750780f1bbe8284181fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:50 +0000
Subject: [PATCH 01/17] fix: report hidden singles only for candidates the
 field contains

HiddenSingle.find() looked at all numbers instead of the candidates of the
field, so hints() reported wrong steps for fields whose candidates are not
calculated yet (or do not contain the number).
---
 sudokutools/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/solvers.py b/sudokutools/solvers.py
index e86cc97..5230be0 100644
--- a/sudokutools/solvers.py
+++ b/sudokutools/solvers.py
@@ -207,7 +207,7 @@ class HiddenSingle(_SingleFieldStep):
         for row, col in sudoku.empty():
             for f in sudoku.column_of, sudoku.row_of, sudoku.box_of:
                 found_hidden_single = False
-                candidates = set(sudoku.numbers)
+                candidates = set(sudoku.get_candidates(row, col))
                 for i, j in f(row, col, include=False):
                     candidates -= sudoku.get_candidates(i, j)
 
-- 
2.43.0


From b1c52aee2f0d01abed7e33062892ebdb7343ec7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 02/17] fix: compare fields with the character for empty fields
 by value

---
 sudokutools/sudoku.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index 6539d81..0c93d22 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -394,7 +394,7 @@ class Sudoku(object):
             items = sudoku_str
 
         for item in items:
-            if item is empty:
+            if item == empty:
                 sudoku[row, col] = 0
             else:
                 sudoku[row, col] = int(item)
-- 
2.43.0


From 8ab0412f87524cf535b33849fafcde8d0c431c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 03/17] fix: accept fields without candidates if a number
 separator is given

---
 sudokutools/sudoku.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index 0c93d22..3d53f80 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -415,7 +415,9 @@ class Sudoku(object):
 
         for c in candidate_str.split(candidate_sep):
             c = c.strip()
-            if number_sep:
+            if not c:
+                candidates = []
+            elif number_sep:
                 candidates = [int(item) for item in c.split(number_sep)]
             else:
                 candidates = [int(item) for item in c]
-- 
2.43.0


From c7988bdaa2cc3794b2341d5f1ea76a58f7837294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 04/17] fix: draw rules as wide as the rows if boxes are as
 wide as the sudoku

---
 sudokutools/sudoku.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index 3d53f80..796ce21 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -615,6 +615,9 @@ def view(
     for i in range(sudoku.box_height - 2):
         rule += "-" * (dash_count + 1) + "+"
     rule += "-" * dash_count + "\n"
+    if sudoku.box_height == 1:
+        # a single box side by side
+        rule = "-" * (dash_count - 1) + "\n"
 
     s = ""
 
-- 
2.43.0


From e5e33fa9451e6544dc52543cf35c761e12dec3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 05/17] fix: use the separator for candidates given to view()

---
 sudokutools/sudoku.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index 796ce21..a2dce3b 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -591,10 +591,11 @@ def view(
     """
 
     max_length = max([len(str(n)) for n in sudoku.numbers])
-    if max_length > 1:
-        number_sep = ","
-    else:
-        number_sep = ""
+    if number_sep is None:
+        if max_length > 1:
+            number_sep = ","
+        else:
+            number_sep = ""
 
     # In case, candidates aren't calculated yet, this gives a
     # better representation.
-- 
2.43.0


From ba48c7e133a222e33023e9656447da0decee0d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 06/17] fix: sudokus of different sizes are not equal

---
 sudokutools/sudoku.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index a2dce3b..ff19c2c 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -153,6 +153,9 @@ class Sudoku(object):
             bool: True, if all fields are equal and false if not or other
                   is an incompatible type.
         """
+        if isinstance(other, Sudoku) and len(self) != len(other):
+            return False
+
         try:
             for row, col in self:
                 if self[row, col] != other[row, col]:
@@ -530,6 +533,9 @@ class Sudoku(object):
                 if grid_y + i != row and grid_x + j != col]
 
     def equals(self, other, candidates=False):
+        if len(self) != len(other):
+            return False
+
         for row, col in self:
             if self[(row, col)] != other[(row, col)]:
                 return False
-- 
2.43.0


From d7409ddc4d82acc1797acb5ba3e9ff266afc49f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 07/17] fix: step by step solving ends for sudokus without a
 solution

---
 sudokutools/solvers.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sudokutools/solvers.py b/sudokutools/solvers.py
index 5230be0..99bcc7e 100644
--- a/sudokutools/solvers.py
+++ b/sudokutools/solvers.py
@@ -569,8 +569,18 @@ def solve(sudoku, report=lambda step: None):
     solution = sudoku.copy()
     init_candidates(solution, filled_only=True)
 
+    # Calculate candidates only once: A field, which loses all of them later
+    # on, proves that there is no solution. Calculating them again would
+    # repeat the same steps forever.
+    for step in CalculateCandidates.find(solution):
+        report(step)
+        step.apply(solution)
+
     while True:
         for cls in SOLVERS:
+            if cls is CalculateCandidates:
+                continue
+
             count = 0
 
             for step in cls.find(solution):
-- 
2.43.0


From 10679446f69727a9c84ca7d587c6c76a81db421a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:08 +0000
Subject: [PATCH 08/17] fix: ignore whitespace in coordinate notation

---
 sudokutools/notation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/notation.py b/sudokutools/notation.py
index bece0f8..734c97d 100644
--- a/sudokutools/notation.py
+++ b/sudokutools/notation.py
@@ -182,7 +182,7 @@ def decode(s, width=3, height=3, sep=",", nsep=""):
     # there is none present in the separators.
     if not any([c in sep for c in string.whitespace]) and \
        not any([c in nsep for c in string.whitespace]):
-        s = s.replace(string.whitespace, "")
+        s = "".join([c for c in s if c not in string.whitespace])
 
     # Split multiple groups.
     groups = [s]
-- 
2.43.0


From 72782af93fb6c907cda6e238db6241b008e9f3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:08 +0000
Subject: [PATCH 09/17] fix: refuse coordinate groups with missing or repeated
 parts

---
 sudokutools/notation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sudokutools/notation.py b/sudokutools/notation.py
index 734c97d..0bb6255 100644
--- a/sudokutools/notation.py
+++ b/sudokutools/notation.py
@@ -227,7 +227,7 @@ def _decode_single(group, width=3, height=3, nsep=""):
     number_str = ""     # An accumulation of all numbers for the current item.
 
     for c in group:
-        if c in present:
+        if c in present or c == current:
             raise ValueError(
                 "Malformed group '%s'. '%s' has multiple occurrences." %
                 (group, c))
@@ -268,6 +268,11 @@ def _decode_single(group, width=3, height=3, nsep=""):
         else:
             numbers = [int(n) - 1 for n in number_str.split(nsep)]
 
+        if not numbers:
+            raise ValueError(
+                "Malformed group '%s'. No numbers given for '%s'" %
+                (group, current))
+
         all_numbers[current] = numbers
     elif not present:
         raise ValueError("Empty group '%s'" % group)
-- 
2.43.0


From 9ef0363b2d8b0ef2613a330bbb82fde986160182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:08 +0000
Subject: [PATCH 10/17] fix: write numbers and candidates of actions

---
 sudokutools/notation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sudokutools/notation.py b/sudokutools/notation.py
index 0bb6255..e5f4504 100644
--- a/sudokutools/notation.py
+++ b/sudokutools/notation.py
@@ -291,11 +291,12 @@ def _decode_single(group, width=3, height=3, nsep=""):
 def encode_action(action, width=3, height=3):
     if isinstance(action, SetNumber):
         s = encode(action.coordinates, width=width, height=height)
-        s += "=" + action.number
+        s += "=" + str(action.number)
         return s
     elif isinstance(action, RemoveCandidates):
         s = encode(action.coordinates, width=width, height=height)
-        s += "<>" + "".join(sorted(action.candidates))
+        s += "<>" + "".join([str(c) for c in sorted(action.candidates)])
+        return s
 
 
 def decode_action(s, width=3, height=3):
-- 
2.43.0


From 03d0f8a643da450f9ce343da77ff90e0e16c4749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:08 +0000
Subject: [PATCH 11/17] fix: read the short notation of removed candidates

---
 sudokutools/notation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/notation.py b/sudokutools/notation.py
index e5f4504..6acb380 100644
--- a/sudokutools/notation.py
+++ b/sudokutools/notation.py
@@ -304,7 +304,7 @@ def decode_action(s, width=3, height=3):
     if s.startswith("-"):
         left, sep, right = s.partition(" ")
         coordinates = decode(right, width=width, height=height)
-        candidates = [int(c) for c in left]
+        candidates = [int(c) for c in left[1:]]
         return RemoveCandidates(coordinates, candidates)
     elif "<>" in s:
         left, sep, right = s.partition("<>")
-- 
2.43.0


From ff97ef75f23a19533b9a6870273d610263c2a367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:32 +0000
Subject: [PATCH 12/17] fix: show signatures of commands in the help of the
 shell

---
 sudokutools/shell.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 20c2ecb..139fa8a 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -198,7 +198,10 @@ def signature_str(func):
         'a b=3'
     """
     arg_str = []
-    spec = inspect.getargspec(func)
+    # getargspec() was removed in Python 3.11 and getfullargspec() is not
+    # available in Python 2.
+    getspec = getattr(inspect, 'getfullargspec', None) or inspect.getargspec
+    spec = getspec(func)
     args, defaults = spec.args, spec.defaults
 
     # ignore first argument on methods.
@@ -207,7 +210,7 @@ def signature_str(func):
 
     for i, name in enumerate(args):
         if spec.defaults and i >= len(args) - len(defaults):
-            j = i - len(defaults)
+            j = i - len(args)
             arg_str.append("%s=%s" % (name, repr(defaults[j])))
         else:
             arg_str.append(name)
-- 
2.43.0


From ee23f2a54636298c5c31cb8f5805e8b05e6e64a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:32 +0000
Subject: [PATCH 13/17] fix: print results of shell commands which are no
 strings

---
 sudokutools/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 139fa8a..5ab5f5b 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -352,7 +352,7 @@ class Shell(object):
             elif result is None:
                 pass
             else:
-                self._print(result)
+                self._print(str(result))
         except Exception as e:
             self.error(str(e))
             # raise
-- 
2.43.0


From c3f4e0d7a69d4e90eb9d7c56aadecfdc0e6d9712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:32 +0000
Subject: [PATCH 14/17] fix: report unhashable shell arguments instead of
 raising

---
 sudokutools/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 5ab5f5b..b6523f6 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -251,7 +251,7 @@ def parse(s):
                     else:
                         args.append(literal_eval(value))
 
-            except (SyntaxError, ValueError):
+            except (SyntaxError, ValueError, TypeError):
                 raise ValueError("Invalid argument: %s " % value +
                                  "(Did you forget quotation marks?)")
 
-- 
2.43.0


From 33e963b33f9a46035c8dbf217d50a1523d749ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:32 +0000
Subject: [PATCH 15/17] fix: list the settings of the game shell

---
 sudokutools/shell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index b6523f6..17e929d 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -71,7 +71,7 @@ class GameShell(object):
             init_candidates(self.sudokus[0], filled_only=True)
 
     def get_setting(self, key):
-        return self.settings[key][0]
+        return self.settings[key]
 
     def run(self):
         print("sudokutools game shell %s" % __version__)
@@ -114,7 +114,7 @@ class GameShell(object):
                     print(s)
             elif command == "settings":
                 for key in sorted(self.settings):
-                    value, desc = self.settings[key]
+                    value, desc = self.settings[key], self.settings_desc[key]
                     s = "%s = %s" % (key, value)
                     s = s.ljust(20, " ")
                     s += " # %s" % desc
-- 
2.43.0


From fdd29a0041139152ba1ecc57ac51142047a4f515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:32 +0000
Subject: [PATCH 16/17] fix: ignore empty lines in the game shell

---
 sudokutools/shell.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 17e929d..f8fc54e 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -84,6 +84,10 @@ class GameShell(object):
             print("> ", end="")
             line = input()
             splitted = line.split()
+
+            # ignore empty lines
+            if not splitted:
+                continue
             command = splitted[0]
 
             if command == "hint":
-- 
2.43.0


From e3972df576ee9c327985bcc9085c5cececc4826f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:32 +0000
Subject: [PATCH 17/17] fix: search hints again after candidates have changed

---
 sudokutools/shell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index f8fc54e..b409230 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -91,7 +91,8 @@ class GameShell(object):
             command = splitted[0]
 
             if command == "hint":
-                if self.hints is None or self.hinted_sudoku != sudoku:
+                if self.hints is None or not sudoku.equals(
+                        self.hinted_sudoku, candidates=True):
                     self.hinted_sudoku = sudoku.copy(include_candidates=True)
                     self.hints = hints(sudoku)
                 try:
-- 
2.43.0

