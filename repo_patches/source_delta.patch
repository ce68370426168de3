From a7dcbe0642f4aae10820e00e964f06857b0ad08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 01/13] fix: report contradicting equations instead of dropping
 them

Row elimination silently discarded '0 = nonzero' rows, so solve_question could
yield vectors that violate A x = b (e.g. a 4th row for (13,6,2,3)).
---
 srg/gauss_elim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srg/gauss_elim.py b/srg/gauss_elim.py
index d2b1726..1732ac2 100644
--- a/srg/gauss_elim.py
+++ b/srg/gauss_elim.py
@@ -6,6 +6,8 @@ from . import srg
 
 
 def _remove_zerokeys(h: list) -> None:
+    if any(k == 0 and v != 0 for k, i, v in h):
+        raise srg.NoSolution('contradicting equations: 0 = nonzero')
     hnz = [(k, i, v) for k, i, v in h if k > 0]
     h.clear()
     h += hnz
-- 
2.43.0


From 908985593ad2b5d27f02c19be2cdf0b7eb57597b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:48 +0000
Subject: [PATCH 02/13] fix: do not overflow the row and column encodings
 beyond 63 bits

With more than 63 known rows (or unknown columns) the int64 encoding wrapped or
shifted out bits; distinct columns were merged, so e.g. the cocktail-party graph
(68,66,64,66) was not found and (128,126,124,126) crashed.
---
 srg/gauss_elim.py | 4 ++--
 srg/unique.py     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/srg/gauss_elim.py b/srg/gauss_elim.py
index 1732ac2..eaf00bc 100644
--- a/srg/gauss_elim.py
+++ b/srg/gauss_elim.py
@@ -89,9 +89,9 @@ def _encode(A: np.array, b: np.array) -> list:
     R, C = A.shape
     assert b.size == R, f'{b.size} != {R}'
 
-    _sum = A[:, -1].copy().astype(int)
+    _sum = A[:, -1].astype(object)  # python ints, more than 63 columns do not overflow
     for c in reversed(range(C - 1)):
-        delta = A[:, c].astype(int) << (C - 1 - c)
+        delta = A[:, c].astype(object) << (C - 1 - c)
         _sum += delta
 
     return list(zip(_sum, range(R), b))
diff --git a/srg/unique.py b/srg/unique.py
index 4240a68..7223cde 100644
--- a/srg/unique.py
+++ b/srg/unique.py
@@ -13,7 +13,7 @@ def _encode(A: np.array) -> list:
     :return: array([7, 7, 5, 5, 3, 3, 1], dtype=int16)
     '''
     R, C = A.shape
-    _A = A.astype(int)
+    _A = A.astype(object)  # python ints, more than 63 rows do not overflow
     _sum = _A[-1, :]
     for r in reversed(range(R - 1)):
         _sum += _A[r, :] << (R - 1 - r)
-- 
2.43.0


From 77617988c5f3e4b8c1d703d43653b1c68016402c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 03/13] fix: hold counts above 127 (int16 instead of int8)

Bounds, quotas and right-hand sides reach v, so int8 overflowed for about
v >= 129: (132,1,0,0) and (130,128,126,128) raised OverflowError.
---
 srg/srg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/srg/srg.py b/srg/srg.py
index 3beb61a..7a2df71 100644
--- a/srg/srg.py
+++ b/srg/srg.py
@@ -4,10 +4,10 @@
 import numpy as np
 from functools import partial
 
-array = partial(np.array, dtype=np.int8)
-ones = partial(np.ones, dtype=np.int8)
-zeros = partial(np.zeros, dtype=np.int8)
-identity = partial(np.identity, dtype=np.int8)
+array = partial(np.array, dtype=np.int16)
+ones = partial(np.ones, dtype=np.int16)
+zeros = partial(np.zeros, dtype=np.int16)
+identity = partial(np.identity, dtype=np.int16)
 
 class NoSolution(Exception): pass
 
-- 
2.43.0


From c9cd6154150a790dea378e19aa273adbb554ab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 04/13] fix: srg.database command line imported a module that
 does not exist

---
 srg/database/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srg/database/__main__.py b/srg/database/__main__.py
index 445980e..c3b3916 100644
--- a/srg/database/__main__.py
+++ b/srg/database/__main__.py
@@ -1,5 +1,5 @@
 from srg.database import list_problems, get_solutions, draw
-from srg import util
+from srg import utils
 import sys
 from pprint import pprint
 
@@ -17,7 +17,7 @@ except ValueError:
 if v is None:
     pprint(list_problems())
 else:
-    util.assert_arg(v,k,l,u)
+    utils.assert_srg(v,k,l,u)
     if cmd == 'list':
         pprint(get_solutions(v,k,l,u))
     elif cmd == 'draw':
-- 
2.43.0


From 7043ed9bbc4df8db3794906eace05fa643afbc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 05/13] fix: exact determinant for conference graphs

The product of float powers was off from v = 33 on.
---
 srg/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srg/utils.py b/srg/utils.py
index 8370ccc..53acdf5 100644
--- a/srg/utils.py
+++ b/srg/utils.py
@@ -22,6 +22,10 @@ def conference(v: int, k: int, l: int, u: int):
     return 2 * k + (v - 1) * (l - u)
 
 def determinant(v: int, k: int, l: int, u: int):
+    if conference(v, k, l, u) == 0:
+        # the two irrational eigenvalues are equally frequent and their product is u - k
+        return k * (u - k) ** ((v - 1) // 2)
+
     prod = 1
     for e, m in eig(v, k, l, u):
         prod *= e ** m
-- 
2.43.0


From fcd02338727b9e3f976928a035dedef409a0fd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 06/13] fix: maximize sorts every block and breaks ties stably

Blocks of all ones (or an all-zero block at the diagonal) were left unsorted, a
vertex adjacent to all others crashed, and the unstable argsort could make the
encoding smaller for more than 16 vertices.
---
 srg/sorter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/srg/sorter.py b/srg/sorter.py
index b547696..ced79cf 100755
--- a/srg/sorter.py
+++ b/srg/sorter.py
@@ -38,7 +38,8 @@ class AdjMat:
         si1 = SortInstruct(row=row + 1, colrange=(c0_new, di), div_index=None)
         di1 = self._sort(row=si1.row, colrange=si1.colrange)
 
-        si2 = SortInstruct(row=row + 1, colrange=(di, c1), div_index=None)
+        di_new = di + 1 if row + 1 == di else di
+        si2 = SortInstruct(row=row + 1, colrange=(di_new, c1), div_index=None)
         di2 = self._sort(row=si2.row, colrange=si2.colrange)
 
         if di1:
@@ -58,7 +59,7 @@ class AdjMat:
 
         M = self.Mat
         a = M[row, colrange[0]:colrange[1]]
-        i = np.argsort(-a)  # large element first, so negate a.
+        i = np.argsort(-a, kind='stable')  # large element first, so negate a.
 
         ii = np.arange(self.v)
         ii[colrange[0]: colrange[1]] = i + colrange[0]
@@ -74,7 +75,7 @@ class AdjMat:
         s = S[row, colrange[0]:colrange[1]]
         zero_indices = np.where(s == 0)[0]  # where returns a tuple. take the 1st element, which is an array
 
-        first_zero_index = zero_indices[0] + colrange[0] if len(zero_indices) > 0 else None
+        first_zero_index = zero_indices[0] + colrange[0] if len(zero_indices) > 0 else colrange[1]
 
         return first_zero_index
 
-- 
2.43.0


From 6f7b93fe525997ef4d1fd943812b1c75e3c47b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 07/13] fix: print answers in full from the command line

numpy abbreviates matrices of 32 and more vertices with '...'.
---
 srg/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srg/__main__.py b/srg/__main__.py
index aec011f..1731c9c 100644
--- a/srg/__main__.py
+++ b/srg/__main__.py
@@ -7,10 +7,12 @@ from . import utils
 from . import solver
 from . import sorter
 import sys
+import numpy as np
 
 
 if __name__ == '__main__':
     pprint.clear()
+    np.set_printoptions(threshold=sys.maxsize)  # never abbreviate an answer
 
     v, k, l, u = map(int, sys.argv[1:])
     print(v, k, l, u)
-- 
2.43.0


From f6774335225d07a57c83f18ac2fe027041237d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 08/13] fix: elimination keeps unknowns that occur in no
 equation

elim guessed the number of columns from the highest set bit, losing leading zero
columns, and crashed when every row was zero.
---
 srg/gauss_elim.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/srg/gauss_elim.py b/srg/gauss_elim.py
index eaf00bc..c787d0a 100644
--- a/srg/gauss_elim.py
+++ b/srg/gauss_elim.py
@@ -108,7 +108,9 @@ def _dec2bin(a):
     return srg.array(rr)[::-1]
 
 
-def _decode(hd: list) -> tuple:
+def _decode(hd: list, C: int) -> tuple:
+    if not hd: return srg.zeros((0, C)), srg.zeros(0)
+
     z = zip(*hd)
     enc_a, ind, b = next(z), next(z), next(z)
 
@@ -124,7 +126,7 @@ def _decode(hd: list) -> tuple:
     #       array([1, 1, 1, 1, 0], dtype=int8),
     #       array([1, 0, 1, 0, 1], dtype=int8)]
 
-    R, C = len(_A), max(map(len, _A))
+    R = len(_A)
 
     A = srg.zeros((R, C))
 
@@ -144,7 +146,7 @@ def sort(A: np.array, b: np.array) -> None:
 def elim(A: np.array, b: np.array) -> tuple:
     hd = _encode(A, b)
     _elim(hd)
-    return _decode(hd)
+    return _decode(hd, A.shape[1])
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 03aa8430a0e91675202ae5c4feeac95e36ed56b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 09/13] fix: never place more than the quota when splitting a
 question

---
 srg/fork.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srg/fork.py b/srg/fork.py
index e53d332..e2ea2a7 100644
--- a/srg/fork.py
+++ b/srg/fork.py
@@ -19,7 +19,7 @@ def enum(quota: int, bounds: np.array, loc: int):
     m, bounds_rest = _pop_ele(bounds, loc)
 
     start_from = max(0, quota - bounds_rest.sum())
-    for quota_used in range(start_from, m + 1):  # q = 0,1,2
+    for quota_used in range(start_from, min(m, quota) + 1):  # q = 0,1,2
         quota_rest = quota - quota_used
         yield quota_used, quota_rest
 
-- 
2.43.0


From 5763f06154bb651e145ecfffccd69af525c3fe56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 10/13] fix: hold counts above 32767 (int32)

---
 srg/srg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/srg/srg.py b/srg/srg.py
index 7a2df71..571e0c2 100644
--- a/srg/srg.py
+++ b/srg/srg.py
@@ -4,10 +4,10 @@
 import numpy as np
 from functools import partial
 
-array = partial(np.array, dtype=np.int16)
-ones = partial(np.ones, dtype=np.int16)
-zeros = partial(np.zeros, dtype=np.int16)
-identity = partial(np.identity, dtype=np.int16)
+array = partial(np.array, dtype=np.int32)
+ones = partial(np.ones, dtype=np.int32)
+zeros = partial(np.zeros, dtype=np.int32)
+identity = partial(np.identity, dtype=np.int32)
 
 class NoSolution(Exception): pass
 
-- 
2.43.0


From 8cd4c569e95ee9d59c8d45eec5033ff8270313f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:11 +0000
Subject: [PATCH 11/13] fix: refuse bucket starts that do not ascend

---
 srg/srg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srg/srg.py b/srg/srg.py
index 571e0c2..b313cfb 100644
--- a/srg/srg.py
+++ b/srg/srg.py
@@ -19,7 +19,7 @@ class Answer:
         assert np.array_equal(value.shape, location.shape)
         if location.size > 0:
             assert location[0] == 0
-            assert all(np.diff(location)), f'location is not sorted: {location}'
+            assert np.all(np.diff(location) > 0), f'location is not sorted: {location}'
             assert location[-1] < len
 
         self._v = value
-- 
2.43.0


From 2cd44d956608cd368270b3a591d4efe741cefc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:16 +0000
Subject: [PATCH 12/13] fix: a question created with an answer checks its
 undecided buckets

---
 srg/srg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srg/srg.py b/srg/srg.py
index b313cfb..b9b0bd8 100644
--- a/srg/srg.py
+++ b/srg/srg.py
@@ -104,7 +104,7 @@ class Question:
 
         self.A, self.b, self.quota, self.bounds = A, b, quota, bounds
 
-        self._ans = Answer.default(C) if ans is None else ans
+        self.answer = Answer.default(C) if ans is None else ans
 
     def __str__(self):
         return repr(self)
-- 
2.43.0


From 17e0b9aca8a963785774b057d0a09d44dbf50083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:22 +0000
Subject: [PATCH 13/13] fix: exact integer eigenvalues and multiplicities for
 large parameters

Floating point lost the multiplicities from about 4e15 vertices on and
np.sqrt refused integers beyond 64 bits.
---
 srg/utils.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/srg/utils.py b/srg/utils.py
index 53acdf5..cf37c7c 100644
--- a/srg/utils.py
+++ b/srg/utils.py
@@ -1,6 +1,8 @@
 #!python
 #cython: language_level=3
 
+import math
+
 from .srg import Question
 from . import pprint
 import numpy as np
@@ -9,12 +11,16 @@ from . import srg
 def eig(v: int, k: int, l: int, u: int):
     conf = conference(v, k, l, u)  # if conference graph, conf == 0, so D becomes non-integer
 
-    D = np.sqrt((l - u) ** 2 + 4 * (k - u))
-    D = int(D) if conf != 0 else D
+    D2 = (l - u) ** 2 + 4 * (k - u)
+    D = math.isqrt(D2) if conf != 0 else math.sqrt(D2)
 
-    eig = k, ((l - u) + D) / 2, ((l - u) - D) / 2
-    eig = tuple(int(x) if conf != 0 else x for x in eig)  # if not conference graph, eigvalues are integer
-    mul = 1, int(((v - 1) - conf / D) / 2), int(((v - 1) + conf / D) / 2)  # multiplicity is always integer
+    if conf != 0:  # if not conference graph, eigvalues are integer
+        eig = int(k), ((l - u) + D) // 2, ((l - u) - D) // 2
+        diff = conf // D
+    else:
+        eig = k, ((l - u) + D) / 2, ((l - u) - D) / 2
+        diff = 0
+    mul = 1, ((v - 1) - diff) // 2, ((v - 1) + diff) // 2  # multiplicity is always integer
 
     return tuple(zip(eig, mul))
 
-- 
2.43.0

