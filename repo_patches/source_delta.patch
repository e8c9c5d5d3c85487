From 8c9ac898f612467e78605ec1b6784139ceeb3d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 01/11] fix: do not drop contradictory equations when
 simplifying a question

Elimination removed every equation whose left hand side had become zero,
even when its right hand side was not, so solve_question yielded rows that
do not satisfy A @ x = b.
---
 srg/gauss_elim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srg/gauss_elim.py b/srg/gauss_elim.py
index d2b1726..8d0d522 100644
--- a/srg/gauss_elim.py
+++ b/srg/gauss_elim.py
@@ -6,6 +6,8 @@ from . import srg
 
 
 def _remove_zerokeys(h: list) -> None:
+    if any(k == 0 and v != 0 for k, i, v in h):
+        raise srg.NoSolution('an equation without unknowns has a nonzero right hand side')
     hnz = [(k, i, v) for k, i, v in h if k > 0]
     h.clear()
     h += hnz
-- 
2.43.0


From a0042f8055ab0f9602c66308d7b0bf1cade140ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 02/11] fix: encode rows and columns as python integers

With 64 bit integers, different columns got the same code once there were
more than 63 of them, and the enumeration lost solutions (v >= 68).
---
 srg/gauss_elim.py | 4 ++--
 srg/unique.py     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/srg/gauss_elim.py b/srg/gauss_elim.py
index 8d0d522..983c216 100644
--- a/srg/gauss_elim.py
+++ b/srg/gauss_elim.py
@@ -89,9 +89,9 @@ def _encode(A: np.array, b: np.array) -> list:
     R, C = A.shape
     assert b.size == R, f'{b.size} != {R}'
 
-    _sum = A[:, -1].copy().astype(int)
+    _sum = A[:, -1].astype(object)  # python integers: C bits need not fit in 64
     for c in reversed(range(C - 1)):
-        delta = A[:, c].astype(int) << (C - 1 - c)
+        delta = A[:, c].astype(object) << (C - 1 - c)
         _sum += delta
 
     return list(zip(_sum, range(R), b))
diff --git a/srg/unique.py b/srg/unique.py
index 4240a68..71278ef 100644
--- a/srg/unique.py
+++ b/srg/unique.py
@@ -13,7 +13,7 @@ def _encode(A: np.array) -> list:
     :return: array([7, 7, 5, 5, 3, 3, 1], dtype=int16)
     '''
     R, C = A.shape
-    _A = A.astype(int)
+    _A = A.astype(object)  # python integers: R bits need not fit in 64
     _sum = _A[-1, :]
     for r in reversed(range(R - 1)):
         _sum += _A[r, :] << (R - 1 - r)
-- 
2.43.0


From a70f84ce88b0d11c89bc7d22672a7e4a6d540910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 03/11] fix: compute in 64 bit integers

8 bit sums overflow from 128 on: questions with v >= 128 ended in an
OverflowError, or silently without their solutions.
---
 srg/srg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/srg/srg.py b/srg/srg.py
index 3beb61a..7861565 100644
--- a/srg/srg.py
+++ b/srg/srg.py
@@ -4,10 +4,10 @@
 import numpy as np
 from functools import partial
 
-array = partial(np.array, dtype=np.int8)
-ones = partial(np.ones, dtype=np.int8)
-zeros = partial(np.zeros, dtype=np.int8)
-identity = partial(np.identity, dtype=np.int8)
+array = partial(np.array, dtype=np.int64)
+ones = partial(np.ones, dtype=np.int64)
+zeros = partial(np.zeros, dtype=np.int64)
+identity = partial(np.identity, dtype=np.int64)
 
 class NoSolution(Exception): pass
 
-- 
2.43.0


From fd0036cf0a59020d0c29154b46466b553224849a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 04/11] fix: maximize keeps the order of equal elements

argsort is not stable by default, so for v > 16 an already maximized matrix
could change again, depending on the dtype and the machine.
---
 srg/sorter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srg/sorter.py b/srg/sorter.py
index b547696..f6ef0a4 100755
--- a/srg/sorter.py
+++ b/srg/sorter.py
@@ -58,7 +58,7 @@ class AdjMat:
 
         M = self.Mat
         a = M[row, colrange[0]:colrange[1]]
-        i = np.argsort(-a)  # large element first, so negate a.
+        i = np.argsort(-a, kind='stable')  # large element first, so negate a.
 
         ii = np.arange(self.v)
         ii[colrange[0]: colrange[1]] = i + colrange[0]
-- 
2.43.0


From 4919b3970a4778469b0a9b7fbacc1de737129838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 05/11] fix: maximize sorts every group of columns

A group without zeros, and a group of zeros that starts at the diagonal,
was dropped, and its columns were left unsorted in the rows below.
---
 srg/sorter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srg/sorter.py b/srg/sorter.py
index f6ef0a4..a1798cb 100755
--- a/srg/sorter.py
+++ b/srg/sorter.py
@@ -38,7 +38,7 @@ class AdjMat:
         si1 = SortInstruct(row=row + 1, colrange=(c0_new, di), div_index=None)
         di1 = self._sort(row=si1.row, colrange=si1.colrange)
 
-        si2 = SortInstruct(row=row + 1, colrange=(di, c1), div_index=None)
+        si2 = SortInstruct(row=row + 1, colrange=(max(di, row + 2), c1), div_index=None)
         di2 = self._sort(row=si2.row, colrange=si2.colrange)
 
         if di1:
@@ -74,7 +74,7 @@ class AdjMat:
         s = S[row, colrange[0]:colrange[1]]
         zero_indices = np.where(s == 0)[0]  # where returns a tuple. take the 1st element, which is an array
 
-        first_zero_index = zero_indices[0] + colrange[0] if len(zero_indices) > 0 else None
+        first_zero_index = zero_indices[0] + colrange[0] if len(zero_indices) > 0 else colrange[1]
 
         return first_zero_index
 
-- 
2.43.0


From 18d2718c80e01a4c71226ae75d564c1657ddb5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 06/11] fix: determinant of conference graphs is exact

The irrational eigenvalues were multiplied as floats, which is wrong from
v = 37 on.
---
 srg/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srg/utils.py b/srg/utils.py
index 8370ccc..d85680b 100644
--- a/srg/utils.py
+++ b/srg/utils.py
@@ -22,6 +22,10 @@ def conference(v: int, k: int, l: int, u: int):
     return 2 * k + (v - 1) * (l - u)
 
 def determinant(v: int, k: int, l: int, u: int):
+    if conference(v, k, l, u) == 0:
+        # the two other eigenvalues, whose product is u - k, have the same multiplicity
+        return k * (u - k) ** ((v - 1) // 2)
+
     prod = 1
     for e, m in eig(v, k, l, u):
         prod *= e ** m
-- 
2.43.0


From f188335b1b72f3a23ec7a5cd9d76d3542f940200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 07/11] fix: python -m srg.database imports a module and a
 function that exist

---
 srg/database/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srg/database/__main__.py b/srg/database/__main__.py
index 445980e..c3b3916 100644
--- a/srg/database/__main__.py
+++ b/srg/database/__main__.py
@@ -1,5 +1,5 @@
 from srg.database import list_problems, get_solutions, draw
-from srg import util
+from srg import utils
 import sys
 from pprint import pprint
 
@@ -17,7 +17,7 @@ except ValueError:
 if v is None:
     pprint(list_problems())
 else:
-    util.assert_arg(v,k,l,u)
+    utils.assert_srg(v,k,l,u)
     if cmd == 'list':
         pprint(get_solutions(v,k,l,u))
     elif cmd == 'draw':
-- 
2.43.0


From 68f28436dfed5c3d753268ac106284c83cc8d9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 08/11] fix: python -m srg prints answers of more than 1000
 elements in full

---
 srg/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srg/__main__.py b/srg/__main__.py
index aec011f..517dd74 100644
--- a/srg/__main__.py
+++ b/srg/__main__.py
@@ -7,10 +7,12 @@ from . import utils
 from . import solver
 from . import sorter
 import sys
+import numpy as np
 
 
 if __name__ == '__main__':
     pprint.clear()
+    np.set_printoptions(threshold=sys.maxsize)
 
     v, k, l, u = map(int, sys.argv[1:])
     print(v, k, l, u)
-- 
2.43.0


From 5bc5bdd56eb9b70b35cc4e16c72ee6f31956fe42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 09/11] fix: unique._encode returns an array, not a list

The wrong annotation made the compiled solver (cythonize.sh) fail with
'TypeError: Expected list, got numpy.ndarray'.
---
 srg/unique.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srg/unique.py b/srg/unique.py
index 71278ef..d576452 100644
--- a/srg/unique.py
+++ b/srg/unique.py
@@ -4,7 +4,7 @@
 import numpy as np
 
 
-def _encode(A: np.array) -> list:
+def _encode(A: np.array) -> np.array:
     '''
     A = np.array([[1, 1, 1, 1, 0, 0, 0],
                   [1, 1, 0, 0, 1, 1, 0],
-- 
2.43.0


From 2588e601f11cae9f27e02fff3d165d885576be41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:50 +0000
Subject: [PATCH 10/11] fix: print the parameters before the answers on an
 ASCII stdout too

click writes to a text stream of its own when the encoding of stdout is ASCII, so what print had buffered came out last.
---
 srg/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srg/__main__.py b/srg/__main__.py
index 517dd74..f192924 100644
--- a/srg/__main__.py
+++ b/srg/__main__.py
@@ -15,7 +15,7 @@ if __name__ == '__main__':
     np.set_printoptions(threshold=sys.maxsize)
 
     v, k, l, u = map(int, sys.argv[1:])
-    print(v, k, l, u)
+    print(v, k, l, u, flush=True)
 
     utils.assert_srg(v, k, l, u)
 
-- 
2.43.0


From e65072da09d185fc2557f0bde0474fac3604f958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:26 +0000
Subject: [PATCH 11/11] fix: exact determinant of conference graphs for
 parameters of 64 bits, as read off a matrix

---
 srg/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srg/utils.py b/srg/utils.py
index d85680b..ac7f9d9 100644
--- a/srg/utils.py
+++ b/srg/utils.py
@@ -24,7 +24,8 @@ def conference(v: int, k: int, l: int, u: int):
 def determinant(v: int, k: int, l: int, u: int):
     if conference(v, k, l, u) == 0:
         # the two other eigenvalues, whose product is u - k, have the same multiplicity
-        return k * (u - k) ** ((v - 1) // 2)
+        # python integers: parameters read off a matrix are of 64 bits
+        return int(k) * int(u - k) ** int((v - 1) // 2)
 
     prod = 1
     for e, m in eig(v, k, l, u):
-- 
2.43.0

