From 46ba17234571dea46ddec5caaac823ba3f7dac54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:00 +0000
Subject: [PATCH 001/126] fix: skip zeros at infinity in state_to_transfer

A channel without any path from the input to the output has no finite
zeros. Its zero at infinity made the gain computation fail.
---
 harold/_classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index 2bd1796..f68fc44 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2849,6 +2849,8 @@ def state_to_transfer(state_or_abcd, output='system'):
             # with it
 
             zz = transmission_zeros(A, b, c, np.array([[0]]))
+            # An identically zero entry leads to zeros at infinity
+            zz = zz[np.isfinite(zz)]
 
             # For finding k of a G(s) we compute
             #          pole polynomial evaluated at some s0
-- 
2.43.0


From 8256177af3532bd43db3b39470291cb6d1b2063c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:04 +0000
Subject: [PATCH 002/126] fix: drop rounding errors in the leading remainder
 coefficients

The remainder of haroldpolydiv could keep tiny coefficients of degree equal
to or higher than the divisor. MIMO transfer_to_state then failed with a
shape mismatch.
---
 harold/_polynomial_ops.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index b96a5dc..6c706ef 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -467,7 +467,8 @@ def haroldpolydiv(dividend, divisor):
     (array([1., 1.]), array([], dtype=float64))
 
     """
-    h_factor, h_remainder = (np.trim_zeros(x, 'f') for x
-                             in sig.deconvolve(dividend, divisor))
+    h_factor, h_remainder = sig.deconvolve(dividend, divisor)
+    # The leading entries cancel by construction, drop the rounding errors
+    h_remainder = h_remainder[h_factor.size:]
 
-    return h_factor, h_remainder
+    return np.trim_zeros(h_factor, 'f'), np.trim_zeros(h_remainder, 'f')
-- 
2.43.0


From e9a9b046fa31d6f219b44832e3200be4a95e068c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:07 +0000
Subject: [PATCH 003/126] fix: convert row and column static gains in
 state_to_transfer

A 1xm or px1 gain array was taken for a SISO numerator polynomial and
rejected as noncausal.
---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index f68fc44..d6c5e9f 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2826,7 +2826,7 @@ def state_to_transfer(state_or_abcd, output='system'):
     if it_is_gain:
         if output == 'p':
             return D, np.ones_like(D)
-        return Transfer(D, dt=dt)
+        return Transfer(D.tolist(), dt=dt)
 
     n = A.shape[0]
 
-- 
2.43.0


From ab5ed773ecf86fe75840c9181e6919a44fa72ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:11 +0000
Subject: [PATCH 004/126] fix: return Transfer arguments of state_to_transfer
 unchanged

This is what the docstring promises. The call raised an error instead.
---
 harold/_classes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index d6c5e9f..9a8825d 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2801,6 +2801,10 @@ def state_to_transfer(state_or_abcd, output='system'):
                          '"{0}"'.format(output))
 
     output = output.lower()[0]
+
+    if isinstance(state_or_abcd, Transfer):
+        return state_or_abcd.polynomials if output == 'p' else state_or_abcd
+
     # If a discrete time system is given this will be modified to the
     # SamplingPeriod later.
     dt = None
-- 
2.43.0


From 07c5251922eb48a3a0bf452562f522e708bac83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:41 +0000
Subject: [PATCH 005/126] fix: consider identical polynomials only once in
 haroldlcm

Repeated arguments made the rank decision of the LCM computation unreliable.
State models with an integrator and a static channel could not be converted
to a Transfer because of that.
---
 harold/_polynomial_ops.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index 6c706ef..ed058bf 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -92,6 +92,15 @@ def haroldlcm(*args, compute_multipliers=True, cleanup_threshold=1e-9):
     [p_ind.append(ind) if x.size == 1 else l_ind.append(ind)
         for ind, x in enumerate(args)]
 
+    # Identical polynomials are considered only once
+    which, distinct = [], []
+    for x in poppedargs:
+        ind = [np.array_equal(x, y) for y in distinct] + [True]
+        which.append(ind.index(True))
+        if which[-1] == len(distinct):
+            distinct.append(x)
+    poppedargs = distinct
+
     # If there are more than one nonconstant polynomial to consider
     if len(poppedargs) > 1:
         a = block_diag(*(map(haroldcompanion, poppedargs)))
@@ -149,6 +158,7 @@ def haroldlcm(*args, compute_multipliers=True, cleanup_threshold=1e-9):
             mults = np.zeros((1, n_lcm))
             mults[0, -1] = 1.
 
+        mults = mults[which]
         if len(p_ind) > 0:
             temp = np.zeros((len(args), lcmpoly.size), dtype=float)
             temp[p_ind] = lcmpoly
-- 
2.43.0


From 04cbba6dc1abdb89845acded52d12ff444f0148b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:46 +0000
Subject: [PATCH 006/126] fix: keep small gains accurate in state_to_transfer

The least squares solution is accurate only relative to its largest entry.
Entries with a far away zero and a high relative degree came out with a wrong
gain.
---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 9a8825d..d2407f2 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2871,7 +2871,7 @@ def state_to_transfer(state_or_abcd, output='system'):
                 s0 = max(np.abs(pp).max(), .5)*2
                 zero_prod = 1.0  # Not zero!
 
-            CAB = c @ np.linalg.lstsq((s0*np.eye(n)-A), b, rcond=-1)[0]
+            CAB = c @ np.linalg.solve(s0*np.eye(n)-A, b)
             pole_prod = np.prod(s0 - pp).real
             entry_gain = (CAB*pole_prod/zero_prod).flatten()
 
-- 
2.43.0


From a55b69f85b282c77b4dffe252ac7edcdece1c44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:29 +0000
Subject: [PATCH 007/126] fix: compute transmission zeros without the Schur
 form

The QZ iteration of the Schur form can fail to converge, the warning was
silenced and wrong zeros were returned. The generalized eigenvalues are
computed directly instead.
---
 harold/_classes.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index d2407f2..1442e7b 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -1,8 +1,7 @@
 import numpy as np
-import warnings
 from numpy import zeros_like, kron, ndarray, zeros, exp, convolve, spacing
 from numpy.random import rand, choice
-from scipy.linalg import (eigvals, svdvals, block_diag, qz, norm, solve, expm,
+from scipy.linalg import (eigvals, svdvals, block_diag, norm, solve, expm,
                           inv, LinAlgError)
 from scipy.linalg._decomp import _asarray_validated
 from scipy.signal import deconvolve
@@ -3214,14 +3213,12 @@ def transmission_zeros(A, B, C, D):
     *_, v = haroldsvd(np.hstack((Drc, Crc)))
     v = np.roll(np.roll(v.T, -m, axis=0), -m, axis=1)
     T = np.hstack((Arc, Brc)) @ v
-    with warnings.catch_warnings():
-        warnings.simplefilter("ignore")
-        a, b, *_ = qz(v[:n, :n], T[:n, :n], output='complex')
+    # QZ iteration might fail silently if the Schur form is also asked for
+    b, a = eigvals(T[:n, :n], v[:n, :n], homogeneous_eigvals=True)
     # Handle zeros at infinity
-    diaga = np.diag(a)
-    idx = np.nonzero(diaga)
-    z = np.full_like(diaga, np.inf)
-    z[idx] = np.diag(b)[idx]/diaga[idx]
+    idx = np.nonzero(a)
+    z = np.full(n, np.inf, dtype=complex)
+    z[idx] = b[idx]/a[idx]
     return np.real_if_close(z)
 
 
-- 
2.43.0


From 7e7c1714b84bca216d8bd3ff63d77f4e91357021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:53 +0000
Subject: [PATCH 008/126] fix: keep the sampling period when adding State
 models

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 1442e7b..8988f10 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -1978,7 +1978,7 @@ class State:
                 addb = np.vstack((self._b, other.b))
                 addc = np.hstack((self._c, other.c))
                 addd = self._d + other.d
-                return State(adda, addb, addc, addd)
+                return State(adda, addb, addc, addd, dt=self._dt)
             # One of them is SISO and needs to be broadcasted
             else:
                 if self._isSISO:
-- 
2.43.0


From 7dfcde37cbd231e3fe266b4da6d23d64c2711eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:53 +0000
Subject: [PATCH 009/126] fix: add arrays to row and column Transfer models

A 2D array with a single row or column is read as a SISO polynomial, hence
the addition failed. Also use the regularized array instead of the
original.
---
 harold/_classes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 8988f10..8abc140 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -571,7 +571,7 @@ class Transfer:
                                      'shape is {0} but the array shape is {1}.'
                                      ''.format(self._shape, other.shape))
 
-                return Transfer(mat, dt=self._dt)
+                return Transfer(mat.tolist(), dt=self._dt)
 
             elif self._isSISO:
                 # 3
@@ -585,14 +585,15 @@ class Transfer:
             else:
                 # 5
                 if isinstance(s, float):
-                    return self + Transfer(np.ones(self.shape)*s, dt=self._dt)
+                    return self + Transfer((np.ones(self.shape)*s).tolist(),
+                                           dt=self._dt)
                 # 6
                 if self.shape != other.shape:
                     raise ValueError('Shapes are not compatible for '
                                      'addition. Transfer shape is {0}'
                                      ' but the array shape is {1}.'
                                      ''.format(self._shape, other.shape))
-                return self + Transfer(other.tolist(), dt=self._dt)
+                return self + Transfer(s.tolist(), dt=self._dt)
         else:
             raise ValueError('I don\'t know how to add a {0} to a '
                              'Transfer representation (yet).'
-- 
2.43.0


From 897740977f7959792b8ff457d6d5b2c6c2787d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:53 +0000
Subject: [PATCH 010/126] fix: broadcast SISO Transfer models in MIMO additions

---
 harold/_classes.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 8abc140..6478b69 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -524,14 +524,16 @@ class Transfer:
             # One of them is SISO and will be broadcasted here
             else:
                 if self._isSISO:
+                    p, m = other.shape
                     return other +\
-                        Transfer([[self._num]*other.m for n in range(other.p)],
-                                 [[self._den]*other.m for n in range(other.p)],
+                        Transfer([[self._num]*m for n in range(p)],
+                                 [[self._den]*m for n in range(p)],
                                  self._dt)
                 else:
+                    p, m = self.shape
                     return self +\
-                        Transfer([[other.num]*other.m for n in range(other.p)],
-                                 [[other.den]*other.m for n in range(other.p)],
+                        Transfer([[other.num]*m for n in range(p)],
+                                 [[other.den]*m for n in range(p)],
                                  self._dt)
 
         # Regularize arrays and scalars and consistency checks
-- 
2.43.0


From 491282f07fad7d01d46291386077f10d377efa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:53 +0000
Subject: [PATCH 011/126] fix: broadcast SISO static gains in Transfer
 additions

---
 harold/_classes.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 6478b69..11a224b 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -461,10 +461,8 @@ class Transfer:
             # If both are static gains
             if gainflag == 2:
                 try:
-                    s = self.shape
-                    num = (self.to_array() +
-                           other.to_array()).reshape(*s, 1).tolist()
-                    return Transfer(num, dt=self._dt)
+                    num = self.to_array() + other.to_array()
+                    return Transfer(num.tolist(), dt=self._dt)
                 except ValueError:
                     raise ValueError('Shapes are not compatible for '
                                      'addition. Model shapes are {0} and'
-- 
2.43.0


From f87aca90ed5282a98007eac4b6c309239d14a13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:39 +0000
Subject: [PATCH 012/126] fix: trim the leading zeros of the sum in
 haroldpolyadd

The option is documented to act on the output too. Sums that cancel
completely now give a zero polynomial instead of an empty array.
---
 harold/_classes.py        | 3 +--
 harold/_polynomial_ops.py | 6 +++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 11a224b..d5f5605 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2885,8 +2885,7 @@ def state_to_transfer(state_or_abcd, output='system'):
                 entry_num = haroldpoly(zz).real
                 entry_num = np.convolve(entry_gain, entry_num)
             entry_num = haroldpolyadd(entry_num, dentimesD)
-            if entry_num.size == 0:
-                entry_num = np.array([0.])
+            if not np.any(entry_num):
                 den_list[rowind][colind] = np.array([[1.]])
             num_list[rowind][colind] = entry_num[None, :]
 
diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index ed058bf..b57817e 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -379,7 +379,7 @@ def haroldpolyadd(*args, trim_zeros=True):
     array([ 6., 11., 14.,  0., 18.])
     >>> d = np.array([-2, -4 ,3, -1])
     >>> haroldpolyadd(a, b, d)
-    array([ 0.,  0., 11., 11.])
+    array([11., 11.])
     >>> haroldpolyadd(a, b, d, trim_zeros=False)
     array([ 0.,  0., 11., 11.])
 
@@ -394,6 +394,10 @@ def haroldpolyadd(*args, trim_zeros=True):
     for ind, x in enumerate(trimmedargs):
         s[0, max(degs)-degs[ind]:] += np.real(x)
 
+    if trim_zeros:
+        s = np.trim_zeros(s[0], 'f')
+        return s if s.size else np.array([0.])
+
     return s[0]
 
 
-- 
2.43.0


From db04208bdbdab78a923f622a46c7c779ebb9e1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:42 +0000
Subject: [PATCH 013/126] fix: treat 1x1 arrays as scalars in additions

Adding a 1x1 array to a SISO State model recursed endlessly and adding it
to a MIMO Transfer model was refused.
---
 harold/_classes.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index d5f5605..d00468e 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -543,11 +543,10 @@ class Transfer:
                                  'supported.')
 
             if isinstance(other, np.ndarray):
-                if other.ndim == 1:
-                    if other.size == 1:
-                        s = float(other)
-                    else:
-                        s = np.atleast_2d(other.real)
+                if other.size == 1:
+                    s = float(other.real.item())
+                elif other.ndim == 1:
+                    s = np.atleast_2d(other.real)
                 else:
                     s = other.real
 
@@ -2043,11 +2042,10 @@ class State:
                                  'supported.')
 
             if isinstance(other, np.ndarray):
-                if other.ndim == 1:
-                    if other.size == 1:
-                        s = float(other)
-                    else:
-                        s = np.atleast_2d(other.real)
+                if other.size == 1:
+                    s = float(other.real.item())
+                elif other.ndim == 1:
+                    s = np.atleast_2d(other.real)
                 else:
                     s = other.real
 
-- 
2.43.0


From b7c90e94e4aade7a16335d348e1c8f35084565d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:05 +0000
Subject: [PATCH 014/126] fix: multiply Transfer with State models via @

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index d00468e..309d3f3 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -896,7 +896,7 @@ class Transfer:
                                  'so I cannot multiply these systems.')
 
             if isinstance(other, State):
-                return transfer_to_state(self) @ State
+                return transfer_to_state(self) @ other
 
             # 2.
             if other._isSISO:
-- 
2.43.0


From d8505687a4dbb5c5a6213a1bc4a4efb216863015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:05 +0000
Subject: [PATCH 015/126] fix: keep the order of factors in Transfer * State
 products

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 309d3f3..af7091a 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -693,7 +693,7 @@ class Transfer:
             if not self._dt == other._dt:
                 raise ValueError('The sampling periods don\'t match '
                                  'so I cannot multiply these systems. ')
-            return other*transfer_to_state(self)
+            return transfer_to_state(self)*other
 
         elif isinstance(other, Transfer):
             if not self._dt == other._dt:
-- 
2.43.0


From 14c06ed8d9231ff8663ed95e76410a89b34cf2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:05 +0000
Subject: [PATCH 016/126] fix: include the denominator of SISO gains in
 Transfer products

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index af7091a..1185efe 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -704,7 +704,7 @@ class Transfer:
             # For gain, convert to ndarray and let previous case handle it
             if self._isgain:
                 if self._isSISO:
-                    return other * float(self._num)
+                    return other * self.to_array()
                 else:
                     # recast as a numpy array and multiply
                     # if denominator has non unity entries
-- 
2.43.0


From cf920f903a7a72857003e3de0f98e7256fff7851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:05 +0000
Subject: [PATCH 017/126] fix: multiply row and column Transfer gains with
 arrays

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 1185efe..ab4cd44 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -868,7 +868,7 @@ class Transfer:
 
             # If self is gain, this is just matrix multiplication
             if self._isgain:
-                return Transfer(self.to_array() @ arr, dt=self._dt)
+                return Transfer((self.to_array() @ arr).tolist(), dt=self._dt)
 
             tp, tm = self._shape[0], arr.shape[1]
 
-- 
2.43.0


From eda2ea29d82690fd6063f971278cefe211e5c154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:05 +0000
Subject: [PATCH 018/126] fix: multiply discrete Transfer models with arrays
 from the left

The sampling period was passed in as the denominator.
---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index ab4cd44..35716b0 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -955,7 +955,7 @@ class Transfer:
             else:
                 arr = other.real
 
-            return Transfer(arr.tolist(), self._dt) @ self
+            return Transfer(arr.tolist(), dt=self._dt) @ self
 
         elif isinstance(other, (int, float)):
             return self * other
-- 
2.43.0


From 3538bec6fbfc5df7649500bbb7483b845fa2c94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:05 +0000
Subject: [PATCH 019/126] fix: multiply State gains with scalars

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 35716b0..0466379 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2298,7 +2298,7 @@ class State:
                     mat = self.to_array() @ s
                 except ValueError:
                     # 1
-                    mat = self.to_array * s
+                    mat = self.to_array() * s
 
                 return State(mat, dt=self._dt)
 
-- 
2.43.0


From 3a068f186ee4c8e43c629f1d5d20455ab2716ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:29 +0000
Subject: [PATCH 020/126] fix: treat 1x1 arrays as scalars in products

---
 harold/_classes.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 0466379..22e5d6f 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -644,7 +644,7 @@ class Transfer:
 
             # It still might be a scalar inside an array
             if other.size == 1:
-                return float(other) * self
+                return float(other.real.item()) * self
 
             if other.ndim == 1:
                 arr = np.atleast_2d(other.real)
@@ -854,7 +854,7 @@ class Transfer:
 
             # It still might be a scalar inside an array
             if other.size == 1:
-                return self*float(other)
+                return self*float(other.real.item())
 
             if other.ndim == 1:
                 arr = np.atleast_2d(other.real).astype(float)
@@ -948,7 +948,7 @@ class Transfer:
 
             # It still might be a scalar inside an array
             if other.size == 1:
-                return self*float(other)
+                return self*float(other.real.item())
 
             if other.ndim == 1:
                 arr = np.atleast_2d(other.real)
@@ -2267,16 +2267,16 @@ class State:
                                  'supported.')
 
             if isinstance(other, np.ndarray):
-                if other.ndim == 1:
-                    if other.size == 1:
-                        s = float(other)
-                    else:
-                        s = np.atleast_2d(other.real)
+                if other.size == 1:
+                    s = float(other.real.item())
+                elif other.ndim == 1:
+                    s = np.atleast_2d(other.real)
                 else:
                     s = other.real
 
                 # Early shape check
-                if self._shape[1] != other.shape[0] and not self._isSISO:
+                if (other.size > 1 and self._shape[1] != s.shape[0] and
+                        not self._isSISO):
                     raise ValueError('Shapes are not compatible for '
                                      'multiplication. State shape is {0}'
                                      ' but the array shape is {1}.'
@@ -2357,16 +2357,16 @@ class State:
                                  'supported.')
 
             if isinstance(other, np.ndarray):
-                if other.ndim == 1:
-                    if other.size == 1:
-                        s = float(other)
-                    else:
-                        s = np.atleast_2d(other.real)
+                if other.size == 1:
+                    s = float(other.real.item())
+                elif other.ndim == 1:
+                    s = np.atleast_2d(other.real)
                 else:
                     s = other.real
 
                 # Early shape check
-                if self._shape[0] != other.shape[1] and not self._isSISO:
+                if (other.size > 1 and self._shape[0] != s.shape[1] and
+                        not self._isSISO):
                     raise ValueError('Shapes are not compatible for '
                                      'multiplication. Model shape is {0} but'
                                      ' the array shape is {1}.'
-- 
2.43.0


From 30cecc4d08298330404baaae7e5780cb9083ddb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:32 +0000
Subject: [PATCH 021/126] fix: scale MIMO gains with SISO gains in State
 products

---
 harold/_classes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index 22e5d6f..ff0e667 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2136,6 +2136,9 @@ class State:
             # If both are static gains
             if gainflag == 2:
                 try:
+                    if self._isSISO or other._isSISO:
+                        return State(self.to_array()*other.to_array(),
+                                     dt=self._dt)
                     return State(self.to_array()@other.to_array(), dt=self._dt)
                 except ValueError:
                     raise ValueError('Shapes are not compatible for '
@@ -2215,6 +2218,9 @@ class State:
             # If both are static gains
             if gainflag == 2:
                 try:
+                    if self._isSISO or other._isSISO:
+                        return State(self.to_array()*other.to_array(),
+                                     dt=self._dt)
                     return State(self.to_array()@other.to_array(), dt=self._dt)
                 except ValueError:
                     raise ValueError('Shapes are not compatible for '
-- 
2.43.0


From 1408000fb1293bfb909dc2f427619761d993f070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:57 +0000
Subject: [PATCH 022/126] fix: detect singular feedthrough relative to its size
 in inversions

---
 harold/_classes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index ff0e667..2ada8de 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -813,7 +813,8 @@ class Transfer:
         a, b, c, d = transfer_to_state((self._num, self._den),
                                        output='matrices')
 
-        if np.any(svdvals(d) < np.spacing(1.)):
+        sv = svdvals(d)
+        if sv[-1] <= sv[0]*d.shape[0]*np.spacing(10.):
             raise LinAlgError('The feedthrough term of the system is not'
                               ' invertible.')
         else:
@@ -2451,7 +2452,8 @@ class State:
 
         a, b, c, d = self._a, self._b, self._c, self._d
 
-        if np.any(svdvals(d) < np.spacing(1.)):
+        sv = svdvals(d)
+        if sv[-1] <= sv[0]*d.shape[0]*np.spacing(10.):
             raise LinAlgError('The feedthrough term of the system is not'
                               ' invertible.')
         else:
-- 
2.43.0


From 85101d86eddbb704f102d6d5504dc4c576646d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:57 +0000
Subject: [PATCH 023/126] fix: invert Transfer models with all dynamics
 cancelled

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 2ada8de..6c3bb16 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -821,7 +821,7 @@ class Transfer:
             # A-BD^{-1}C | BD^{-1}
             # -----------|--------
             # -D^{-1}C   | D^{-1}
-            if self._isgain:
+            if a.size == 0:
                 ai, bi, ci = a, b, c
             else:
                 ai = a - b @ solve(d, c)
-- 
2.43.0


From 3106c55cd2ea1e29c75eca2cdbf4f14a89bb7f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:06 +0000
Subject: [PATCH 024/126] fix: regularize all polynomial entries of Transfer
 models

Only plain lists were trimmed from leading zeros and checked. Arrays and
nested lists with leading zeros were refused or stored as is, zero
denominators and complex arrays were accepted.
---
 harold/_classes.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 6c3bb16..a29951c 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -1173,6 +1173,17 @@ class Transfer:
                 shape = (1, 1)
             return shape
 
+        def regularize_entry(arr):
+            """
+            Returns a copy of the polynomial as a real valued 2D array with
+            a single row, trimmed from the leading zeros.
+            """
+            if np.iscomplexobj(arr) and np.any(np.imag(arr)):
+                raise ValueError('Complex valued representations are not '
+                                 'supported.')
+            arr = np.trim_zeros(np.real(arr).astype(float).ravel(), 'f')
+            return arr[None, :] if arr.size > 0 else np.array([[0.]])
+
         # A list for storing the regularized entries for num and den
         returned_numden_list = [[], []]
 
@@ -1224,7 +1235,7 @@ class Transfer:
                                   'the lists and converted '
                                   'to a numpy array.')
                         returned_numden_list[numden_index] = np.atleast_2d(
-                                                numden[0]).astype(float)
+                                                numden[0])
                         continue
 
                     # It is a list of lists so the context is MIMO
@@ -1327,6 +1338,21 @@ class Transfer:
         # End of the num, den for loop
         # =============================
 
+        # Make all entries real valued rows without leading zeros
+        for ind, numden in enumerate(returned_numden_list):
+            if None_flags[ind]:
+                continue
+            elif MIMO_flags[ind]:
+                returned_numden_list[ind] = [[regularize_entry(x) for x in row]
+                                             for row in numden]
+                entries = sum(returned_numden_list[ind], [])
+            else:
+                returned_numden_list[ind] = regularize_entry(numden)
+                entries = [returned_numden_list[ind]]
+
+            if ind == 1 and not all([np.any(x) for x in entries]):
+                raise ValueError('Denominator entries cannot be zero.')
+
         # Now we have regularized and also derived the context for
         # both numerator and the denominator. Finally a decision
         # can be made about the intention of the user.
-- 
2.43.0


From 39703fc45684e93de2214cf2099dc323413e256f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:26 +0000
Subject: [PATCH 025/126] fix: refuse complex valued arrays in State models

The imaginary part was silently dropped.
---
 harold/_classes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index a29951c..73217b8 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2650,6 +2650,10 @@ class State:
                         print('Trying to np.array {0}'
                               ''.format(entrytext[abcd_index]))
 
+                    if np.iscomplexobj(abcd) and np.any(np.imag(abcd)):
+                        raise ValueError('Complex valued representations are '
+                                         'not supported.')
+
                     returned_abcd_list[abcd_index] = np.atleast_2d(
                                                 np.array(abcd, dtype='float')
                                                 )
-- 
2.43.0


From bc74c81152fad0c48c3f0c1a780e928313174c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:09 +0000
Subject: [PATCH 026/126] fix: refuse adding Transfer models of different
 shapes

The dynamic models were added over the shape of the first one, which
dropped the remaining entries of the second one silently.
---
 harold/_classes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index 73217b8..4b137c3 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -473,6 +473,11 @@ class Transfer:
 
             sisoflag = sum([self._isSISO, other._isSISO])
 
+            if sisoflag == 0 and self._shape != other.shape:
+                raise ValueError('Shapes are not compatible for '
+                                 'addition. Model shapes are {0} and'
+                                 ' {1}'.format(self._shape, other.shape))
+
             # Both SISO or both MIMO
             if sisoflag in [0, 2]:
 
-- 
2.43.0


From 9137878c36198d2b32bebbb605b84b1b64052d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:13 +0000
Subject: [PATCH 027/126] fix: keep the sampling period of gains in
 minimal_realization

The gains also lost their shape or were refused if they had a single row
or a single column.
---
 harold/_system_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 6890e09..db00d5f 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -335,7 +335,7 @@ def minimal_realization(G, tol=1e-6):
 
     if type(G).__name__ == 'State':
         if G._isgain:
-            return State(G.to_array())
+            return State(G.to_array(), dt=G.SamplingPeriod)
         else:
             A, B, C, D = G.matrices
             Am, Bm, Cm = _minimal_realization_state(A, B, C, tol=tol)
@@ -345,7 +345,7 @@ def minimal_realization(G, tol=1e-6):
                 return State(D, dt=G.SamplingPeriod)
     else:
         if G._isgain:
-            return Transfer(G.to_array())
+            return Transfer(G.to_array().tolist(), dt=G.SamplingPeriod)
         else:
             num, den = G.polynomials
             numm, denm = _minimal_realization_transfer(num, den, tol=tol)
-- 
2.43.0


From 83ba41495796fe39d08bf8c9b89610cdb7cae481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:03 +0000
Subject: [PATCH 028/126] fix: close feedback loops of static models with a
 zero gain

The result was not defined if one of the gains is identically zero.
---
 harold/_bd_algebra.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/harold/_bd_algebra.py b/harold/_bd_algebra.py
index 2ad4499..810baad 100644
--- a/harold/_bd_algebra.py
+++ b/harold/_bd_algebra.py
@@ -88,8 +88,7 @@ def feedback(G, H, negative=True):
 
     # if both are static
     if g._isgain and h._isgain:
-        if np.any(d) and np.any(n):
-            mat = d + sign * (d @ solve(delta, n @ d))
+        mat = d + sign * (d @ solve(delta, n @ d))
 
         return Transfer(mat, dt=dt) if conv_tf else State(mat, dt=dt)
     # if both are dynamic
-- 
2.43.0


From 190a091f1a911f941753bd5c99cfd4da4fd8c85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:07 +0000
Subject: [PATCH 029/126] fix: close feedback loops of static row and column
 Transfer models

The resulting gain was taken as the coefficients of a polynomial.
---
 harold/_bd_algebra.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/harold/_bd_algebra.py b/harold/_bd_algebra.py
index 810baad..486f2a6 100644
--- a/harold/_bd_algebra.py
+++ b/harold/_bd_algebra.py
@@ -90,7 +90,10 @@ def feedback(G, H, negative=True):
     if g._isgain and h._isgain:
         mat = d + sign * (d @ solve(delta, n @ d))
 
-        return Transfer(mat, dt=dt) if conv_tf else State(mat, dt=dt)
+        # nested lists are entries, a row or column array is a polynomial
+        if conv_tf:
+            return Transfer(mat.tolist(), dt=dt)
+        return State(mat, dt=dt)
     # if both are dynamic
     elif (not g._isgain) and (not h._isgain):
         acl = np.block([[a, np.zeros([n1, n2]), b],
-- 
2.43.0


From 754e49690dab199cc675a149f5f156c2e59b3f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:48 +0000
Subject: [PATCH 030/126] fix: update the stability when the sampling period is
 changed

---
 harold/_classes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index 4b137c3..9ab22b2 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -271,6 +271,10 @@ class Transfer:
             self._dt = None
             self._isdiscrete = False
 
+        # The poles are not there yet during the initialization
+        if hasattr(self, 'poles'):
+            self._set_stability()
+
     @num.setter
     def num(self, value):
 
@@ -1896,6 +1900,10 @@ class State:
             self._dt = None
             self._isdiscrete = False
 
+        # The poles are not there yet during the initialization
+        if hasattr(self, 'poles'):
+            self._set_stability()
+
     @DiscretizedWith.setter
     def DiscretizedWith(self, value):
         if value in _KnownDiscretizationMethods:
-- 
2.43.0


From d3a790992598e150b43e728c8644d43ebcf2187f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:51 +0000
Subject: [PATCH 031/126] fix: update the gain flag when a Transfer denominator
 is changed

A model that became static or dynamic with the new denominator kept the
properties of the former one, or the assignment failed halfway.
---
 harold/_classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 9ab22b2..e858e13 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -293,7 +293,8 @@ class Transfer:
     @den.setter
     def den(self, value):
 
-        user_den, user_shape = self.validate_arguments(self._num, value)[1:3]
+        (_, user_den, user_shape,
+         gain_flag) = self.validate_arguments(self._num, value)
 
         if not user_shape == self._shape:
             raise IndexError('Once created, the shape of the transfer '
@@ -303,6 +304,7 @@ class Transfer:
                              ''.format(*user_shape+self._shape))
         else:
             self._den = user_den
+            self._isgain = gain_flag
             self._recalc()
 
     @DiscretizedWith.setter
-- 
2.43.0


From 5daf5bb240da0f21055804aef600c05b7cf102cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:58 +0000
Subject: [PATCH 032/126] fix: report no discretization method for continuous
 State models

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index e858e13..4735405 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -1777,7 +1777,7 @@ class State:
         possible to manually set this property such that ``undiscretize``
         uses the provided method.
         """
-        return self._DiscretizedWith
+        return None if self.SamplingSet == 'R' else self._DiscretizedWith
 
     @property
     def DiscretizationMatrix(self):
-- 
2.43.0


From 635a41410bbee5f23e10893249560c3dea919b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:22 +0000
Subject: [PATCH 033/126] fix: accept new values for the d matrix of static
 State models

---
 harold/_classes.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 4735405..3d2d4b0 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -1876,12 +1876,20 @@ class State:
 
     @d.setter
     def d(self, value):
-        value = self.validate_arguments(
-            np.zeros_like(self._a),
-            np.zeros_like(self._b),
-            np.zeros_like(self._c),
-            value
-            )[3]
+        if self._isgain:
+            value, user_shape = self.validate_arguments(None, None, None,
+                                                        value)[3:5]
+            if user_shape != self._shape:
+                raise ValueError('Once created, the shape of a static gain '
+                                 'cannot be changed. I need the shape {0} but '
+                                 'got {1}.'.format(self._shape, user_shape))
+        else:
+            value = self.validate_arguments(
+                np.zeros_like(self._a),
+                np.zeros_like(self._b),
+                np.zeros_like(self._c),
+                value
+                )[3]
         self._d = value
         self._recalc()
 
-- 
2.43.0


From 3e5e2003c65029f0da88fd472993a6af22a03cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:28 +0000
Subject: [PATCH 034/126] fix: leave models as they were when an assignment
 fails

The data was replaced before the properties were computed from it. If the
latter failed, say due to infinite entries, the model kept the new data
with the properties of the former.
---
 harold/_classes.py | 45 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 3d2d4b0..9311e76 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -287,8 +287,7 @@ class Transfer:
                              'the system has {2}x{3}.'
                              ''.format(*user_shape+self._shape))
         else:
-            self._num = user_num
-            self._recalc()
+            self._update(_num=user_num)
 
     @den.setter
     def den(self, value):
@@ -303,9 +302,7 @@ class Transfer:
                              'the system has {2}x{3}.'
                              ''.format(*user_shape+self._shape))
         else:
-            self._den = user_den
-            self._isgain = gain_flag
-            self._recalc()
+            self._update(_den=user_den, _isgain=gain_flag)
 
     @DiscretizedWith.setter
     def DiscretizedWith(self, value):
@@ -349,6 +346,19 @@ class Transfer:
             else:
                 self._PrewarpFrequency = value
 
+    def _update(self, **data):
+        """
+        Sets the given data and readjusts the properties. If that fails the
+        model is left as it was.
+        """
+        former = vars(self).copy()
+        try:
+            vars(self).update(data)
+            self._recalc()
+        except Exception:
+            vars(self).update(former)
+            raise
+
     def _recalc(self):
         """
         Internal bookkeeping routine to readjust the class properties
@@ -1849,8 +1859,7 @@ class State:
             np.zeros_like(self._c),
             np.zeros_like(self._d)
             )[0]
-        self._a = value
-        self._recalc()
+        self._update(_a=value)
 
     @b.setter
     def b(self, value):
@@ -1860,8 +1869,7 @@ class State:
             np.zeros_like(self._c),
             np.zeros_like(self._d)
             )[1]
-        self._b = value
-        self._recalc()
+        self._update(_b=value)
 
     @c.setter
     def c(self, value):
@@ -1871,8 +1879,7 @@ class State:
             value,
             np.zeros_like(self._d)
             )[2]
-        self._c = value
-        self._recalc()
+        self._update(_c=value)
 
     @d.setter
     def d(self, value):
@@ -1890,8 +1897,7 @@ class State:
                 np.zeros_like(self._c),
                 value
                 )[3]
-        self._d = value
-        self._recalc()
+        self._update(_d=value)
 
     @SamplingPeriod.setter
     def SamplingPeriod(self, value):
@@ -1956,6 +1962,19 @@ class State:
             else:
                 self._PrewarpFrequency = value
 
+    def _update(self, **data):
+        """
+        Sets the given data and readjusts the properties. If that fails the
+        model is left as it was.
+        """
+        former = vars(self).copy()
+        try:
+            vars(self).update(data)
+            self._recalc()
+        except Exception:
+            vars(self).update(former)
+            raise
+
     def _recalc(self):
         if self._isgain:
             self.poles = []
-- 
2.43.0


From a12a1b49b9d44b417e9c31524c8fc687d104ece2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:32 +0000
Subject: [PATCH 035/126] fix: refuse infs and NaNs in haroldsvd

The underlying LAPACK routine might not return for such arrays.
---
 harold/_aux_linalg.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/harold/_aux_linalg.py b/harold/_aux_linalg.py
index 540bda2..edc02ce 100644
--- a/harold/_aux_linalg.py
+++ b/harold/_aux_linalg.py
@@ -23,6 +23,8 @@ THE SOFTWARE.
 """
 import numpy as np
 
+from ._array_validators import _assert_finite
+
 __all__ = ['haroldsvd', 'haroldker', 'pair_complex_numbers', 'e_i',
            'matrix_slice']
 
@@ -75,6 +77,9 @@ def haroldsvd(A, also_rank=False, rank_tol=None):
     except ValueError:
         raise ValueError('The argument cannot be cast as an array.')
 
+    # The decomposition might not return for infs and NaNs
+    _assert_finite(A)
+
     p, m = A.shape
     u, s, v = np.linalg.svd(A, full_matrices=True)
     diags = np.zeros((p, m))  # Reallocate the s matrix of u,s,v
-- 
2.43.0


From abcff5ac6f1d7ba558a7fbf985d837b29c8d6be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:44 +0000
Subject: [PATCH 036/126] fix: honour the indices when slicing SISO Transfer
 models

Every slice of a SISO model returned the model itself, also the ones that
select the entry repeatedly or not at all.
---
 harold/_classes.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 9311e76..62f753d 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -997,20 +997,23 @@ class Transfer:
         rc = np.arange(self.NumberOfOutputs)[rows_of_c].tolist()
         cb = np.arange(self.NumberOfInputs)[cols_of_b].tolist()
 
-        # if a SISO is sliced only [0,0] will pass, then return self
         if self._isSISO:
-            return self
+            # if the only entry is selected once, return self
+            if np.size(rc) == np.size(cb) == 1:
+                return self
+            num, den = [[self.num]], [[self.den]]
+        else:
+            num, den = self.num, self.den
 
         # Is the result goint to be SISO ?
         if isinstance(rc, int) and isinstance(cb, int):
-            return Transfer(self.num[rc][cb], self.den[rc][cb],
-                            dt=self._dt)
+            return Transfer(num[rc][cb], den[rc][cb], dt=self._dt)
         else:
             # Nope, release the MIMO bracket hell
             rc = [rc] if isinstance(rc, int) else rc
             cb = [cb] if isinstance(cb, int) else cb
-            return Transfer([[self.num[x][y] for y in cb] for x in rc],
-                            [[self.den[x][y] for y in cb] for x in rc],
+            return Transfer([[num[x][y] for y in cb] for x in rc],
+                            [[den[x][y] for y in cb] for x in rc],
                             dt=self._dt)
 
     def __setitem__(self, *args):
-- 
2.43.0


From ff5bd80f9b2a4532999a4e2839ec62d79fa880b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:17 +0000
Subject: [PATCH 037/126] fix: divide by the leading coefficient in
 haroldcompanion

Multiplying with its reciprocal moved poles on the stability boundary such
as the one of 1/(3.98z + 3.98) inside the unit circle.
---
 harold/_polynomial_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index b57817e..aa58de9 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -311,8 +311,8 @@ def haroldcompanion(somearray):
 
     ta = np.trim_zeros(somearray, 'f')
     # convert to monic polynomial.
-    # Note: ta *=... syntax doesn't autoconvert to float
-    ta = np.array(1/ta[0])*ta
+    # Note: ta /=... syntax doesn't autoconvert to float
+    ta = ta/ta[0]
     ta = -ta[-1:0:-1]
     n = ta.size
 
-- 
2.43.0


From 915272e5cef0fd8797f4b5900ce539f747902dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:19 +0000
Subject: [PATCH 038/126] fix: base the rank tolerance of transmission_zeros on
 all matrices

The tolerance was zero if the state matrix is, or gets reduced to, the zero
matrix. Then rounding errors counted as full rank and zeros were missed.
---
 harold/_classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 62f753d..561e613 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -3308,7 +3308,8 @@ def _tzeros_reduce(A, B, C, D):
     Basic deflation loop until we get a full row rank feedthrough matrix.
     """
     m_eps = np.spacing(100 * np.sqrt((A.shape[0] + C.shape[0]) * (
-                       A.shape[1] + B.shape[1]))) * norm(A, 'fro')
+                       A.shape[1] + B.shape[1]))) * norm(np.block([[A, B],
+                                                                  [C, D]]))
 
     for x in range(A.shape[0]):  # At most!
         n, (p, m) = A.shape[0], D.shape
-- 
2.43.0


From 4ac4f6379052231c653885cb5140bb6403eaa8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:22 +0000
Subject: [PATCH 039/126] fix: drop the zero rows in the reduction of
 transmission_zeros

The rows that don't involve the states or the inputs stayed in the data and
led to invented or infinite zeros of systems with deficient normal rank.
---
 harold/_classes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index 561e613..75236f9 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -3291,6 +3291,10 @@ def transmission_zeros(A, B, C, D):
 
     n, (p, m) = Arc.shape[0], Drc.shape
 
+    # No channels left, only the modes that they don't reach
+    if p == 0 and m == 0:
+        return np.real_if_close(eigvals(Arc))
+
     *_, v = haroldsvd(np.hstack((Drc, Crc)))
     v = np.roll(np.roll(v.T, -m, axis=0), -m, axis=1)
     T = np.hstack((Arc, Brc)) @ v
@@ -3330,6 +3334,8 @@ def _tzeros_reduce(A, B, C, D):
         q_of_c, *_, rho = haroldsvd(Ctilde.T, also_rank=1, rank_tol=m_eps)
         nu = n - rho
         if rho == 0:  # [C,D] happen to be compressed simultaneously
+            # Drop the zero rows of [C, D]
+            C, D = Cbar, r_of_d[:sigma, :] if sigma > 0 else D[:0, :]
             break
         elif nu == 0:  # [C, D] happen to form a invertible matrix
             A, B, C, D = np.array([]), np.array([]), np.array([]), np.array([])
-- 
2.43.0


From 08ddc603bce84f8e8a8b4a02eda0077f282fba13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:22 +0000
Subject: [PATCH 040/126] fix: keep the shape of static row and column
 Transfers in discretize

---
 harold/_discrete_funcs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index 33fe0ce..3ce9d0a 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -109,8 +109,9 @@ def discretize(G, dt, method='tustin', prewarp_at=0., q=None):
 
     if G._isgain:
         # Method doesn't matter
-        Gd = Transfer(G.to_array(), dt=dt) if isinstance(G, Transfer) else \
-                                                    State(G.to_array(), dt=dt)
+        # Nested lists, since a row/column array is taken as a polynomial
+        Gd = Transfer(G.to_array().tolist(), dt=dt) \
+            if isinstance(G, Transfer) else State(G.to_array(), dt=dt)
         Gd.SamplingPeriod = dt
     else:
         discretized_args = _discretize(T, dt, method, prewarp_at, q)
-- 
2.43.0


From d1f678c28ccb865a82c8b9d839c45a86d1650a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:27 +0000
Subject: [PATCH 041/126] fix: discretize Transfers with only cancelling
 dynamics

---
 harold/_discrete_funcs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index 3ce9d0a..e6dd022 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -107,11 +107,12 @@ def discretize(G, dt, method='tustin', prewarp_at=0., q=None):
     else:
         T = G
 
-    if G._isgain:
+    # The dynamics of a Transfer might cancel completely
+    if T._isgain:
         # Method doesn't matter
         # Nested lists, since a row/column array is taken as a polynomial
-        Gd = Transfer(G.to_array().tolist(), dt=dt) \
-            if isinstance(G, Transfer) else State(G.to_array(), dt=dt)
+        Gd = Transfer(T.to_array().tolist(), dt=dt) \
+            if isinstance(G, Transfer) else State(T.to_array(), dt=dt)
         Gd.SamplingPeriod = dt
     else:
         discretized_args = _discretize(T, dt, method, prewarp_at, q)
-- 
2.43.0


From 6327313e6d884193f5a68837654ab63d46b4385c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:03 +0000
Subject: [PATCH 042/126] fix: evaluate gains near the poles in
 state_to_transfer

---
 harold/_classes.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 75236f9..8fb31bb 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2943,10 +2943,15 @@ def state_to_transfer(state_or_abcd, output='system'):
             #          zero polynomial evaluated at some s0
             # s0 : some point that is not a pole or a zero
 
-            # Additional factor of 2 are just some tolerances
+            # Additional factor of 2 are just some tolerances. The zeros can
+            # be arbitrarily far away, hence take the point which is the
+            # furthest from the zeros among a few around the poles.
 
             if zz.size != 0:
-                s0 = max(np.abs([*pp, *zz]).max(), .5)*2
+                s0 = max(np.abs(pp).max(), .5)*2
+                s0 = s0 * (1 + np.arange(zz.size + 1)/2)
+                gap = np.abs(s0[:, None] - zz) / (s0[:, None] + np.abs(zz))
+                s0 = s0[gap.min(axis=1).argmax()]
                 zero_prod = np.real(np.prod(s0*np.ones_like(zz) - zz))
             else:
                 s0 = max(np.abs(pp).max(), .5)*2
-- 
2.43.0


From 82c894d16588f0d0051043e50f506b5f11ff51a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:01 +0000
Subject: [PATCH 043/126] fix: undiscretize static models

---
 harold/_discrete_funcs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index e6dd022..1ecdc68 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -269,14 +269,15 @@ def undiscretize(G, method=None, prewarp_at=0., q=None):
                 q = G.DiscretizationMatrix
 
     if isinstance(G, Transfer):
-        if G._isgain:
-            return Transfer(G.to_array)
         T = transfer_to_state(G)
+        # The dynamics might also cancel completely
+        if T._isgain:
+            return Transfer(T.to_array().tolist())
         undiscretized_args = _undiscretize(T, dt, method, prewarp_at, q)
         return state_to_transfer(State(*undiscretized_args))
     else:
         if G._isgain:
-            return State(G.to_array)
+            return State(G.to_array())
         undiscretized_args = _undiscretize(G, dt, method, prewarp_at, q)
         return State(*undiscretized_args)
 
-- 
2.43.0


From 07de87e50d9693e1d19d125633e5ed9b1bebc2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:05 +0000
Subject: [PATCH 044/126] fix: invert the prewarped tustin map in undiscretize

---
 harold/_discrete_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index 1ecdc68..06a2f19 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -364,7 +364,7 @@ def _undiscretize(T, dt, method, prewarp_at, q):
                                  ' allowed is {1} Hz.'.format(dt, 1/(2*dt)))
             prew_rps = 2 * np.pi * prewarp_at
             sq2tan = np.sqrt(2*np.tan(prew_rps * dt / 2)/prew_rps)
-            q = np.array([[-2/sq2tan**2, 1/sq2tan], [1/sq2tan, -1]])
+            q = np.array([[-2/sq2tan**2, 2/sq2tan], [2/sq2tan, -1]])
 
         Ac, Bc, Cc, Dc = _simple_lft_connect(q, T.a, T.b, T.c, T.d)
 
-- 
2.43.0


From 1aa8b553fe2b531da4a4dd411bdfe59317966e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:08 +0000
Subject: [PATCH 045/126] fix: use the recorded prewarp frequency and refuse
 unknown methods in undiscretize

---
 harold/_discrete_funcs.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index 06a2f19..63a5b36 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -257,6 +257,13 @@ def undiscretize(G, method=None, prewarp_at=0., q=None):
             method = 'tustin'
         else:
             method = G.DiscretizedWith
+            # Go back with what the model is discretized with
+            if prewarp_at == 0. and G.PrewarpFrequency:
+                prewarp_at = G.PrewarpFrequency
+
+    if method not in KDM:
+        raise ValueError('I don\'t know the discretization method "{0}". But '
+                         'I know:\n {1}'.format(method, ',\n'.join(KDM)))
 
     if method == 'lft':
         if G.DiscretizationMatrix is None and q is None:
-- 
2.43.0


From 9c50b6b98f97c8108cefcda93740c21998645a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:12 +0000
Subject: [PATCH 046/126] fix: invert the lft map in undiscretize

---
 harold/_discrete_funcs.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index 63a5b36..4b5c417 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -406,7 +406,23 @@ def _undiscretize(T, dt, method, prewarp_at, q):
         if q is None:
             raise ValueError('"lft" method requires a 2x2 interconnection '
                              'matrix "q" between s and z indeterminates.')
-        Ac, Bc, Cc, Dc = _simple_lft_connect(q, T.a, T.b, T.c, T.d)
+        q = np.asarray(q)
+        if q.shape != (2, 2):
+            raise ValueError('q must be exactly a 2x2 array')
+        q11, q12, q21, q22 = q.ravel()
+        # The inverse of the map might be nonproper, compute explicitly.
+        E = (q12*q21 - q11*q22)*eye(n) + q22*T.a
+        try:
+            iE = solve(E, eye(n))
+        except LinAlgError:
+            raise ValueError('The state matrix has eigenvalues that are '
+                             'mapped to infinity by q and this conversion '
+                             'method can\'t be used.')
+
+        Ac = iE @ (T.a - q11*eye(n))
+        Bc = q21*(iE @ T.b)
+        Cc = q12*(T.c @ iE)
+        Dc = T.d - q22*(T.c @ iE @ T.b)
 
     return Ac, Bc, Cc, Dc
 
-- 
2.43.0


From 013fccdd5503365e43d6e63abc8e2cf78111cba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:52 +0000
Subject: [PATCH 047/126] fix: balance the data in transmission_zeros

The rank decisions were dominated by the units of the states. Zeros got lost,
for example, for Transfer models with millisecond time constants.
---
 harold/_classes.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 8fb31bb..bac3ab5 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2,7 +2,7 @@ import numpy as np
 from numpy import zeros_like, kron, ndarray, zeros, exp, convolve, spacing
 from numpy.random import rand, choice
 from scipy.linalg import (eigvals, svdvals, block_diag, norm, solve, expm,
-                          inv, LinAlgError)
+                          inv, matrix_balance, LinAlgError)
 from scipy.linalg._decomp import _asarray_validated
 from scipy.signal import deconvolve
 from scipy.stats import ortho_group
@@ -3272,7 +3272,16 @@ def transmission_zeros(A, B, C, D):
     # and becomes a c'bility/o'bility test. We don't need that.
     if not np.any(B) or not np.any(C):
         return np.zeros((0, 1))
-    elif (p == 1 and m == 1 and r > 0) or (r == min(p, m) and p == m):
+
+    # Scale the rows and columns, otherwise the rank decisions are dominated
+    # by the units of the states and the channels.
+    k = max(p, m)
+    M = np.zeros((n+k, n+k))
+    M[:n, :n], M[:n, n:n+m], M[n:n+p, :n], M[n:n+p, n:n+m] = A, B, C, D
+    M, _ = matrix_balance(M, permute=False)
+    A, B, C, D = M[:n, :n], M[:n, n:n+m], M[n:n+p, :n], M[n:n+p, n:n+m]
+
+    if (p == 1 and m == 1 and r > 0) or (r == min(p, m) and p == m):
         Arc, Brc, Crc, Drc = (A, B, C, D)
     else:  # Reduction needed
         if r == p:
-- 
2.43.0


From ef73f550131f1f218d4cb3e5440dd1a0ace9358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:22 +0000
Subject: [PATCH 048/126] fix: fall back to complex shifts in
 transmission_zeros

---
 harold/_classes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index bac3ab5..34653e1 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -3313,7 +3313,12 @@ def transmission_zeros(A, B, C, D):
     v = np.roll(np.roll(v.T, -m, axis=0), -m, axis=1)
     T = np.hstack((Arc, Brc)) @ v
     # QZ iteration might fail silently if the Schur form is also asked for
-    b, a = eigvals(T[:n, :n], v[:n, :n], homogeneous_eigvals=True)
+    try:
+        b, a = eigvals(T[:n, :n], v[:n, :n], homogeneous_eigvals=True)
+    except LinAlgError:
+        # Defective pencils might need the complex shifts to converge
+        b, a = eigvals(T[:n, :n].astype(complex), v[:n, :n],
+                       homogeneous_eigvals=True)
     # Handle zeros at infinity
     idx = np.nonzero(a)
     z = np.full(n, np.inf, dtype=complex)
-- 
2.43.0


From c6e26153b5f49373d197a7535556dfc890026518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:56 +0000
Subject: [PATCH 049/126] fix: evaluate static gains on the whole frequency
 grid

The response of a static gain always had two samples whatever grid was
given, and the denominator of a Transfer gain was left out.
---
 harold/_frequency_domain.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/harold/_frequency_domain.py b/harold/_frequency_domain.py
index 3b623f0..51eb179 100644
--- a/harold/_frequency_domain.py
+++ b/harold/_frequency_domain.py
@@ -55,18 +55,15 @@ def frequency_response(G, w=None, samples=None, w_unit='Hz', output_unit='Hz',
     w = _get_freq_grid(G, w, samples, w_unit, 'rad/s')
 
     if G._isgain:
-        if G._isSISO:
-            if type(G).__name__ == 'Transfer':
-                fr_arr = array([1]*2)*G.num[0, 0]
-            else:
-                fr_arr = array([1]*2)*G.d[0, 0]
+        if type(G).__name__ == 'Transfer':
+            gain = G.to_array()
         else:
-            if type(G).__name__ == 'Transfer':
-                fr_arr = zeros((2,)+G.shape) + G.to_array()
-            else:
-                fr_arr = zeros((2,)+G.shape) + G.d
+            gain = G.d
 
-            fr_arr = rollaxis(fr_arr, 0, 3)
+        if G._isSISO:
+            fr_arr = np.full(len(w), gain.item())
+        else:
+            fr_arr = rollaxis(zeros((len(w),)+G.shape) + gain, 0, 3)
     else:
         p, m = G.shape
         fr_arr = empty((len(w), m, p), dtype='complex')
-- 
2.43.0


From c09236e4d4894f9506f7dd797a20a76e1e4ab16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:56 +0000
Subject: [PATCH 050/126] fix: compare frequency units without regard to case

Any capitalization of the unit names is accepted but only one of them was
acted upon.
---
 harold/_frequency_domain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harold/_frequency_domain.py b/harold/_frequency_domain.py
index 51eb179..d1dbc09 100644
--- a/harold/_frequency_domain.py
+++ b/harold/_frequency_domain.py
@@ -108,7 +108,7 @@ def frequency_response(G, w=None, samples=None, w_unit='Hz', output_unit='Hz',
                                 )
                 fr_arr = rollaxis(rollaxis(fr_arr, 0, 3), 1)
 
-    return fr_arr, w if output_unit == 'rad/s' else w/2/np.pi
+    return fr_arr, w if output_unit.lower() == 'rad/s' else w/2/np.pi
 
 
 def _State_freq_resp(mA, mb, sc, f, dt=None):
@@ -199,7 +199,7 @@ def _get_freq_grid(G, w, samples, iu, ou):
             raise ValueError('The frequency array should be a 1D float array')
 
         # convert the internal array to rad/s
-        if iu == 'Hz':
+        if iu.lower() == 'hz':
             w_u *= 2*np.pi
 
         # Discrete time behavior doesn't make sense beyond Nyquist freq.
-- 
2.43.0


From 2f3bc2ec93b696a81d0f46f0eaa9260633bbc355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:22 +0000
Subject: [PATCH 051/126] fix: pivot in the state model frequency response

A zero on the diagonal of the Hessenberg form made the response NaN, a small
one made it inaccurate.
---
 harold/_frequency_domain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harold/_frequency_domain.py b/harold/_frequency_domain.py
index d1dbc09..6604f2f 100644
--- a/harold/_frequency_domain.py
+++ b/harold/_frequency_domain.py
@@ -149,6 +149,9 @@ def _State_freq_resp(mA, mb, sc, f, dt=None):
         U[:, :] = Ab  # Working copy
         U[imag_indices] += val*1j if dt is None else np.exp(dt*val*1j)
         for x in range(1, nn):
+            # swap rows to avoid small pivots
+            if abs(U[x, x-1]) > abs(U[x-1, x-1]):
+                U[[x-1, x], x-1:] = U[[x, x-1], x-1:]
             U[x, x:] -= (U[x, x-1] / U[x-1, x-1]) * U[x-1, x:]
 
         r[ind, :] = U[-1, -m:] / U[-1, -1-m]
-- 
2.43.0


From 836a983dc2b20dadad25d57556bbe8be48b5326c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:47 +0000
Subject: [PATCH 052/126] fix: remove the nonminimal modes before the
 Hessenberg reduction

Minimal realization does not keep the Hessenberg form which the frequency
response relies on.
---
 harold/_frequency_domain.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/harold/_frequency_domain.py b/harold/_frequency_domain.py
index 6604f2f..b31d94e 100644
--- a/harold/_frequency_domain.py
+++ b/harold/_frequency_domain.py
@@ -70,13 +70,16 @@ def frequency_response(G, w=None, samples=None, w_unit='Hz', output_unit='Hz',
 
         if type(G).__name__ == 'State':
             for row in range(p):
-                aa, bb, cc = hessenberg_realization((G.a, G.b, G.c[[row], :]),
-                                                    form='o', invert=True,
-                                                    output='matrices')
+                aa, bb, cc = G.a, G.b, G.c[[row], :]
                 if use_minreal:
-                    aaa, bbb, ccc = _minimal_realization_state(aa, bb, cc)
-                else:
-                    aaa, bbb, ccc = aa, bb, cc
+                    # Hessenberg form should be the last to be obtained
+                    aa, bb, cc = _minimal_realization_state(aa, bb, cc)
+                    if aa.size == 0:
+                        fr_arr[:, :, row] = 0.
+                        continue
+                aaa, bbb, ccc = hessenberg_realization((aa, bb, cc), form='o',
+                                                       invert=True,
+                                                       output='matrices')
                 dt = G.SamplingPeriod if G.SamplingSet == 'Z' else None
                 fr_arr[:, :, row] = _State_freq_resp(aaa, bbb, ccc[0, -1],
                                                      w, dt)
-- 
2.43.0


From 5b8be35dd6b3810743a7840e5dbf1df6659f8ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:48 +0000
Subject: [PATCH 053/126] fix: test the observability distance when removing
 unobservable modes

The distance to uncontrollability was tested instead, hence observable modes
could be removed or unobservable ones kept.
---
 harold/_system_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index db00d5f..750406a 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -413,7 +413,7 @@ def _minimal_realization_state(A, B, C, tol=1e-6):
                     A, B, C = [array([], dtype=float)]*3
                     break
                 else:
-                    ko, *_ = cancellation_distance(Ao, Bo)
+                    ko, *_ = cancellation_distance(Ao.T, Co.T)
 
             # Return the resulting matrices
             A, B, C = Ao, Bo, Co
-- 
2.43.0


From 201c81af2454a864a52058f1f2d236a7e558a890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:23 +0000
Subject: [PATCH 054/126] fix: minimal realization of models without a
 controllable mode

The loop went on with empty matrices after the last state was removed.
---
 harold/_system_funcs.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 750406a..4e1a049 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -394,8 +394,7 @@ def _minimal_realization_state(A, B, C, tol=1e-6):
             while kc <= tol:
                 Ac, Bc, Cc = (Ac[:-1, :-1], Bc[:-1, :], Cc[:, :-1])
                 if Ac.size == 0:
-                    A, B, C = [array([], dtype=float)]*3
-                    break
+                    return Ac, Bc, Cc
                 else:
                     kc, *_ = cancellation_distance(Ac, Bc)
             # Return the resulting matrices
@@ -410,8 +409,7 @@ def _minimal_realization_state(A, B, C, tol=1e-6):
             while ko <= tol:  # Until cancel dist gets big
                 Ao, Bo, Co = Ao[1:, 1:], Bo[1:, :], Co[:, 1:]
                 if Ao.size == 0:
-                    A, B, C = [array([], dtype=float)]*3
-                    break
+                    return Ao, Bo, Co
                 else:
                     ko, *_ = cancellation_distance(Ao.T, Co.T)
 
-- 
2.43.0


From 25ae52b8888705594441c2194984da79334338b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:00:01 +0000
Subject: [PATCH 055/126] fix: order the modes in the last block of the
 staircase form

The last block was left as is when it had full row rank. The mode closest to
being uncontrollable was then not the last one, which minimal realization
removes.
---
 harold/_system_funcs.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 4e1a049..a7eca23 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -111,16 +111,16 @@ def staircase(A, B, C, compute_T=False, form='c', invert=False,
 
         uh3, sh3, vh3, m = haroldsvd(h3, also_rank=True, rank_tol=tol_from_A)
         sh3[m:, m:] = 0.
-        # If the resulting subblock is not full row
-        if 0 < m < h3.shape[0]:
-            T[-uh3.shape[0]:, :] = uh3.T @ T[-uh3.shape[0]:, :]
-            A0[:, next_ + size_:] = A0[:, next_ + size_:] @ uh3
-            A0[next_ + size_:, next_:next_ + size_] = sh3 @ vh3
-            A0[next_ + size_:, next_ + size_:] = uh3.T @ h4
-            p = uh3.shape[0]
-            C0[:, -p:] = C0[:, -p:] @ uh3
-        else:
+        # If the resulting subblock is zero
+        if m == 0:
             break
+        # Otherwise compress the rows
+        T[-uh3.shape[0]:, :] = uh3.T @ T[-uh3.shape[0]:, :]
+        A0[:, next_ + size_:] = A0[:, next_ + size_:] @ uh3
+        A0[next_ + size_:, next_:next_ + size_] = sh3 @ vh3
+        A0[next_ + size_:, next_ + size_:] = uh3.T @ h4
+        p = uh3.shape[0]
+        C0[:, -p:] = C0[:, -p:] @ uh3
     if invert:
         A0, B0, C0, T = fliplr(flipud(A0)), flipud(B0), fliplr(C0), flipud(T)
     return (A0, B0, C0, T.T) if form == 'c' else (A0.T, C0.T, B0.T, T.T)
-- 
2.43.0


From 8647e0f360a97d2374f8a1b06ed193bc857db4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:06 +0000
Subject: [PATCH 056/126] fix: keep empty input matrices empty in the zeros
 computation

The slice with the negative column count took all the columns if there were
no inputs left, hence bogus infinite zeros were found.
---
 harold/_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 34653e1..413b7d2 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -3368,8 +3368,8 @@ def _tzeros_reduce(A, B, C, D):
             B, D = BD_slice[:nu, :], BD_slice[nu:, :]
         else:
             ABCD_slice = q_of_c.T @ np.c_[A @ q_of_c, B]
-            A, B, C, D = (ABCD_slice[:nu, :nu], ABCD_slice[:nu, -m:],
-                          ABCD_slice[nu:, :nu], ABCD_slice[nu:, -m:])
+            A, B, C, D = (ABCD_slice[:nu, :nu], ABCD_slice[:nu, n:],
+                          ABCD_slice[nu:, :nu], ABCD_slice[nu:, n:])
     return A, B, C, D
 
 
-- 
2.43.0


From e6790885a7ccc67f23ee97862bf5ec1f90b90af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:50 +0000
Subject: [PATCH 057/126] fix: simulate single state models with an initial
 condition

Squeezing the initial condition left nothing to index.
---
 harold/_time_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index 7901fe6..098cd35 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -66,7 +66,7 @@ def simulate_linear_system(sys, u, t=None, x0=None, per_channel=False):
         if isinstance(sys, Transfer):
             raise ValueError('Transfer models can\'t have initial conditions '
                              'set.')
-        x0 = np.asarray(x0, dtype=float).squeeze()
+        x0 = atleast_1d(np.asarray(x0, dtype=float).squeeze())
         if x0.ndim > 1:
             raise ValueError('Initial condition can only be a 1D array.')
         else:
-- 
2.43.0


From dadd68c80fce5659df5b3abf68874790fc8446a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:50 +0000
Subject: [PATCH 058/126] fix: simulate a single input sample

A single sample of a multi input model was taken as many samples of a single
input one and for single input models it was refused.
---
 harold/_time_domain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index 098cd35..c62fa07 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -85,7 +85,10 @@ def simulate_linear_system(sys, u, t=None, x0=None, per_channel=False):
     n, m = sys.NumberOfStates, sys.shape[1]
 
     is_discrete = sys.SamplingSet == 'Z'
-    u = np.asarray(u, dtype=float).squeeze()
+    u = np.asarray(u, dtype=float)
+    # Keep a single sample of many inputs as a row
+    if u.shape != (1, m):
+        u = atleast_1d(u.squeeze())
     if u.ndim == 1:
         u = u[:, None]
 
-- 
2.43.0


From 66fc318e2dcbdc06731128b07554640fd4334e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:50 +0000
Subject: [PATCH 059/126] fix: return a copy of the time array as documented

---
 harold/_time_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index c62fa07..f7f9c75 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -448,7 +448,7 @@ def _check_u_and_t_for_simulation(m, dt, u, t, isdiscrete):
             u_samples = len(u)
             t = np.linspace(0, (u_samples-1)*dt, num=u_samples)
     else:
-        t = np.asarray(t, dtype=float).squeeze()
+        t = np.array(t, dtype=float).squeeze()
         if t.ndim != 1:
             raise ValueError('Time array needs to be a 1D array.')
         t_diff = np.diff(t)
-- 
2.43.0


From 634f58354bac8697e9936e682117179d2d491f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:08:08 +0000
Subject: [PATCH 060/126] fix: judge the equal spacing of time arrays relative
 to the increment

The absolute tolerance let unevenly spaced samples through if the increment
was below a microsecond or so.
---
 harold/_time_domain.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index f7f9c75..419e7e6 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -452,11 +452,12 @@ def _check_u_and_t_for_simulation(m, dt, u, t, isdiscrete):
         if t.ndim != 1:
             raise ValueError('Time array needs to be a 1D array.')
         t_diff = np.diff(t)
-        if not np.allclose(t_diff, t_diff[0]) or not t_diff[0] > 0.:
+        if t_diff.size < 1 or not t_diff[0] > 0. or \
+                not np.allclose(t_diff, t_diff[0], atol=1e-5*t_diff[0]):
             raise ValueError('Time array should be equally spaced and '
                              'increasing.')
 
-        if isdiscrete and not np.isclose(dt, t_diff[0]):
+        if isdiscrete and not np.isclose(dt, t_diff[0], atol=0.):
             raise ValueError('Time array increment {} is not equal to the'
                              ' model sampling period {}.'.format(t_diff[0],
                                                                  dt))
@@ -495,7 +496,7 @@ def _check_custom_time_input(t):
                          'Difference of the first two samples t1 - t0 = {}'
                          ''.format(dt))
     # np.diff is somewhat slower than the diff of the views
-    if not np.allclose(t[1:] - t[:-1], dt):
+    if not np.allclose(t[1:] - t[:-1], dt, atol=1e-5*dt):
         raise ValueError('Supplied time array is not numerically equally '
                          'spaced (checked via numpy.allclose).')
 
-- 
2.43.0


From 2b79e93fcec84e9430e37d588a5757d2e2e5b36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:08:08 +0000
Subject: [PATCH 061/126] fix: time horizon of models with only negative real
 unstable poles

The maximum over an empty array raised an error.
---
 harold/_time_domain.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index 419e7e6..5783fcb 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -331,8 +331,10 @@ def _compute_tfinal_and_dt(sys, is_step=True):
         p_u, p = p[m_u], p[~m_u]
         if p_u.size > 0:
             m_u = (p_u.real < 0) & (np.abs(p_u.imag) < sqrt_eps)
-            t_emp = np.max(log_decay_percent / np.abs(np.log(p_u[~m_u])/dt))
-            tfinal = max(tfinal, t_emp)
+            if not np.all(m_u):
+                t_emp = np.max(log_decay_percent /
+                               np.abs(np.log(p_u[~m_u])/dt))
+                tfinal = max(tfinal, t_emp)
 
         # zero - negligible effect on tfinal
         m_z = np.abs(p) < sqrt_eps
-- 
2.43.0


From 14cd0f9cc017f7ece2f6b8dbd1e1c8171f747e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:08:56 +0000
Subject: [PATCH 062/126] fix: time horizon of discrete models with a pole at
 -1

The decay time of such a mode is infinite, it is a pure oscillation.
---
 harold/_time_domain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index 5783fcb..af08573 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -340,7 +340,8 @@ def _compute_tfinal_and_dt(sys, is_step=True):
         m_z = np.abs(p) < sqrt_eps
         p = p[~m_z]
         # Negative reals- treated as oscillary mode
-        m_nr = (p.real < 0) & (np.abs(p.imag) < sqrt_eps)
+        m_nr = (p.real < 0) & (np.abs(p.imag) < sqrt_eps) & \
+            (np.abs(p) < 1 - sqrt_eps)
         p_nr, p = p[m_nr], p[~m_nr]
         if p_nr.size > 0:
             t_emp = np.max(log_decay_percent / np.abs((np.log(p_nr)/dt).real))
-- 
2.43.0


From ed1a0f095c1b28339bb5a03f00efa7150cce3806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:00 +0000
Subject: [PATCH 063/126] fix: simulate discrete models with a long sampling
 period

The default horizon was shorter than the sampling period, leaving a single
sample which was then refused.
---
 harold/_time_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index af08573..40f6b13 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -364,7 +364,7 @@ def _compute_tfinal_and_dt(sys, is_step=True):
             tfinal = tfinal * 5
 
         # Make tfinal an integer multiple of dt
-        num_samples = tfinal // dt
+        num_samples = max(tfinal // dt, min_points_z)
         if num_samples > max_points_z:
             tfinal = dt * max_points_z
         else:
-- 
2.43.0


From 4019befbdf4c38fee21a4e8689b4c83ec3346127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:25 +0000
Subject: [PATCH 064/126] fix: time horizon of discrete models with positive
 real poles

All positive real poles were taken as integrators and their decay was left
out of the horizon.
---
 harold/_time_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index 40f6b13..c1e8e87 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -347,7 +347,7 @@ def _compute_tfinal_and_dt(sys, is_step=True):
             t_emp = np.max(log_decay_percent / np.abs((np.log(p_nr)/dt).real))
             tfinal = max(tfinal, t_emp)
         # discrete integrators
-        m_int = (p.real - 1 < sqrt_eps) & (np.abs(p.imag) < sqrt_eps)
+        m_int = (np.abs(p.real - 1) < sqrt_eps) & (np.abs(p.imag) < sqrt_eps)
         p_int, p = p[m_int], p[~m_int]
         # pure oscillatory modes
         m_w = (np.abs(np.abs(p) - 1) < sqrt_eps)
-- 
2.43.0


From 1c3c17151a8fd14b5c862cd9a9a1bbb0756311ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:11:54 +0000
Subject: [PATCH 065/126] fix: recognize rounded integrators when choosing the
 time horizon

A pole at the origin that is off by a few units of rounding led to a horizon
of more than 1e15 seconds.
---
 harold/_time_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index c1e8e87..e226042 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -381,7 +381,7 @@ def _compute_tfinal_and_dt(sys, is_step=True):
     eig_sens = reciprocal(maximum(1e-12, einsum('ij,ij->j', l, r).real))
     eig_sens = minimum(1e12, eig_sens)
     # Tolerances
-    p[np.abs(p) < np.spacing(eig_sens * norm(b, 1))] = 0.
+    p[np.abs(p) < 10 * p.size * np.spacing(eig_sens * norm(b, 1))] = 0.
     # Incorporate balancing to outer factors
     l[perm, :] *= reciprocal(sca)[:, None]
     r[perm, :] *= sca[:, None]
-- 
2.43.0


From 89103aa2075ae67cee38bbca18df96df2c65e7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:14:58 +0000
Subject: [PATCH 066/126] fix: solve Lyapunov equations in floating point, on
 copies

Integer right hand sides truncated the solution and the QZ decomposition
overwrote the arguments of the discrete time equation.
---
 harold/_solvers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/harold/_solvers.py b/harold/_solvers.py
index bcdf78e..49c1821 100644
--- a/harold/_solvers.py
+++ b/harold/_solvers.py
@@ -76,10 +76,10 @@ def lyapunov_eq_solver(A, Y, E=None, form='c'):
     '''
     def check_matrices(a, y, e):
         arg_names = ['A', 'Y', 'E']
-        a = np.atleast_2d(a)
-        y = np.atleast_2d(y)
+        a = np.array(a, dtype=float, ndmin=2)
+        y = np.array(y, dtype=float, ndmin=2)
         if e is not None:
-            e = np.atleast_2d(e)
+            e = np.array(e, dtype=float, ndmin=2)
             if e.shape[0] != e.shape[1]:
                 raise ValueError('E matrix is not square. Its shape is'
                                  '{}'.format(e.shape))
-- 
2.43.0


From 4a5bd08c1b46af7b4cdfe9fb69a8578457c5b5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:28 +0000
Subject: [PATCH 067/126] fix: detect the 2x2 blocks of generalized Lyapunov
 equations exactly

The absolute tolerance split complex pairs if the data is small. The plain
equations already test for nonzeros.
---
 harold/_solvers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harold/_solvers.py b/harold/_solvers.py
index 49c1821..5efb098 100644
--- a/harold/_solvers.py
+++ b/harold/_solvers.py
@@ -119,7 +119,7 @@ def lyapunov_eq_solver(A, Y, E=None, form='c'):
     return X_sol
 
 
-def _solve_continuous_generalized_lyapunov(A, E, Y, tol=1e-12):
+def _solve_continuous_generalized_lyapunov(A, E, Y):
     '''
     Solves
 
@@ -193,7 +193,7 @@ def _solve_continuous_generalized_lyapunov(A, E, Y, tol=1e-12):
     As, Es, Q, Z = qz(A, E)
     Ys = Z.T @ Y @ Z
     n = A.shape[0]
-    subdiag_entries = np.abs(As[range(1, n), range(0, n-1)]) > tol
+    subdiag_entries = np.abs(As[range(1, n), range(0, n-1)]) > 0.
     subdiag_indices = [ind for ind, x in enumerate(subdiag_entries) if x]
     bz = np.ones(n)
     for x in subdiag_indices:
@@ -284,7 +284,7 @@ def _solve_continuous_generalized_lyapunov(A, E, Y, tol=1e-12):
     return Q @ Xs @ Q.T
 
 
-def _solve_discrete_generalized_lyapunov(A, E, Y, tol=1e-12):
+def _solve_discrete_generalized_lyapunov(A, E, Y):
     '''
     Solves
 
@@ -355,7 +355,7 @@ def _solve_discrete_generalized_lyapunov(A, E, Y, tol=1e-12):
     # If there are nontrivial entries on the subdiagonal, we have a 2x2 block.
     # Based on that we have the block sizes `bz` and starting positions `bs`.
 
-    subdiag_entries = np.abs(As[range(1, n), range(0, n-1)]) > tol
+    subdiag_entries = np.abs(As[range(1, n), range(0, n-1)]) > 0.
     subdiag_indices = [ind for ind, x in enumerate(subdiag_entries) if x]
     bz = np.ones(n)
     for x in subdiag_indices:
-- 
2.43.0


From 254cddf203623ee6b1004fd515cab0d35cc7e341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:28 +0000
Subject: [PATCH 068/126] fix: test the weighting option of lqr against its two
 values

Any part of the string 'state, output' was accepted and output weighting was
not recognized in another case.
---
 harold/_static_ctrl_design.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harold/_static_ctrl_design.py b/harold/_static_ctrl_design.py
index e88c030..826c7b1 100644
--- a/harold/_static_ctrl_design.py
+++ b/harold/_static_ctrl_design.py
@@ -79,7 +79,8 @@ def lqr(G, Q, R=None, S=None, weight_on='state'):
         raise ValueError('State feedback design requires dynamic system'
                          ' representations. The argument is a static gain.')
 
-    if weight_on.lower() not in ('state, output'):
+    weight_on = weight_on.lower()
+    if weight_on not in ('state', 'output'):
         raise ValueError('"weight_on" keyword can either be "state" or'
                          ' "output" but received "{}"'.format(weight_on))
 
-- 
2.43.0


From c59e241499e5436609cbcc42c12be1405b249dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:28 +0000
Subject: [PATCH 069/126] fix: accept array_like cross weights in lqr

---
 harold/_static_ctrl_design.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/harold/_static_ctrl_design.py b/harold/_static_ctrl_design.py
index 826c7b1..b4936d4 100644
--- a/harold/_static_ctrl_design.py
+++ b/harold/_static_ctrl_design.py
@@ -123,6 +123,8 @@ def lqr(G, Q, R=None, S=None, weight_on='state'):
         Q, S, _, R = matrix_slice(fact, (m, m), corner='se')
         X = func(a=T.a, b=T.b, q=Q, r=R, s=S)
     else:
+        if S is not None:
+            S = array(S, dtype=float, ndmin=2)
         X = func(a=T.a, b=T.b, q=Q, r=R, s=S)
 
     if T.SamplingSet == 'R':
-- 
2.43.0


From c7f8788be85968b135c24dcfeca578a83b98844b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:45 +0000
Subject: [PATCH 070/126] fix: place complex poles with ackermann

Complex locations were refused or, if given as an array, lost their imaginary
parts.
---
 harold/_static_ctrl_design.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/harold/_static_ctrl_design.py b/harold/_static_ctrl_design.py
index b4936d4..cf67957 100644
--- a/harold/_static_ctrl_design.py
+++ b/harold/_static_ctrl_design.py
@@ -169,9 +169,12 @@ def ackermann(G, loc):
         raise ValueError('Ackermann method is only applicable to single input'
                          ' systems.')
 
-    loc = array(loc, dtype=float)
+    loc = array(loc, ndmin=1)
     if loc.ndim > 1:
         raise ValueError('Pole location array must be 1D.')
+    if not np.allclose(poly(loc).imag, 0.):
+        raise ValueError('Complex pole locations must come in conjugate '
+                         'pairs.')
 
     Cc, _, r = controllability_matrix((A, B), compress=False)
     # if not controllable
-- 
2.43.0


From 23fd3e795596f27664ee0467c600d83714012a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:45 +0000
Subject: [PATCH 071/126] fix: refuse the wrong number of pole locations in
 ackermann

Extra locations led to a meaningless gain, missing ones to an IndexError.
---
 harold/_static_ctrl_design.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harold/_static_ctrl_design.py b/harold/_static_ctrl_design.py
index cf67957..5a2d850 100644
--- a/harold/_static_ctrl_design.py
+++ b/harold/_static_ctrl_design.py
@@ -172,6 +172,9 @@ def ackermann(G, loc):
     loc = array(loc, ndmin=1)
     if loc.ndim > 1:
         raise ValueError('Pole location array must be 1D.')
+    if loc.size != n:
+        raise ValueError('The number of pole locations ({}) should match the '
+                         'number of states ({}).'.format(loc.size, n))
     if not np.allclose(poly(loc).imag, 0.):
         raise ValueError('Complex pole locations must come in conjugate '
                          'pairs.')
-- 
2.43.0


From a2cad580afcdd579bb2f196fcfbff60731eaacf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:00 +0000
Subject: [PATCH 072/126] fix: let discrete models with feedthrough have a
 finite H2 norm

---
 harold/_system_props.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/harold/_system_props.py b/harold/_system_props.py
index 28255fc..3a326b0 100644
--- a/harold/_system_props.py
+++ b/harold/_system_props.py
@@ -71,10 +71,13 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
     # 2-norm
     if p == 2:
         # Handle trivial infinities
-        if not np.allclose(T.d, np.zeros_like(T.d)) or (not T._isstable):
+        if not T._isstable:
             return np.Inf
 
         if T.SamplingSet == 'R':
+            if not np.allclose(T.d, np.zeros_like(T.d)):
+                return np.Inf
+
             x = lyapunov_eq_solver(a.T, b @ b.T)
             return np.sqrt(np.trace(c @ x @ c.T))
         else:
-- 
2.43.0


From b1370d6702734aca621922c2eccfe9eaa2cacbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:19 +0000
Subject: [PATCH 073/126] fix: compute the norms of static gains

---
 harold/_system_props.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/harold/_system_props.py b/harold/_system_props.py
index 3a326b0..e98d6cd 100644
--- a/harold/_system_props.py
+++ b/harold/_system_props.py
@@ -78,9 +78,15 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
             if not np.allclose(T.d, np.zeros_like(T.d)):
                 return np.Inf
 
+            if T._isgain:
+                return 0.
+
             x = lyapunov_eq_solver(a.T, b @ b.T)
             return np.sqrt(np.trace(c @ x @ c.T))
         else:
+            if T._isgain:
+                return norm(d)
+
             x = lyapunov_eq_solver(a.T, b @ b.T, form='d')
             return np.sqrt(np.trace(c @ x @ c.T + d @ d.T))
     # ∞-norm
@@ -88,6 +94,9 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
         if not T._isstable:
             return np.Inf
 
+        if T._isgain:
+            return norm(d, ord=2)
+
         # Initial gamma0 guess
         # Get the max of the largest svd of either
         #   - feedthrough matrix
-- 
2.43.0


From 00574bd9e006da5d10d9a16055e7ac8967c8aacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:19 +0000
Subject: [PATCH 074/126] fix: search the Hinf norm of discrete models over the
 unit circle

---
 harold/_system_props.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/harold/_system_props.py b/harold/_system_props.py
index e98d6cd..1fbda81 100644
--- a/harold/_system_props.py
+++ b/harold/_system_props.py
@@ -5,7 +5,7 @@ from scipy.linalg import solve, norm, eigvals, qr
 
 from ._array_validators import _assert_2d, _assert_square, _assert_finite
 from ._frequency_domain import frequency_response
-from ._classes import Transfer, transfer_to_state
+from ._classes import State, Transfer, transfer_to_state
 from ._solvers import lyapunov_eq_solver
 from ._arg_utils import _check_for_state_or_transfer
 
@@ -97,6 +97,16 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
         if T._isgain:
             return norm(d, ord=2)
 
+        # The bilinear transformation z = (1+s)/(1-s) maps the unit circle to
+        # the imaginary axis and hence keeps the peak gain.
+        if T.SamplingSet == 'Z':
+            ima = np.eye(a.shape[0]) + a
+            d = d - c @ solve(ima, b)
+            b = np.sqrt(2) * solve(ima, b)
+            c = np.sqrt(2) * solve(ima.T, c.T).T
+            a = solve(ima, a - np.eye(a.shape[0]))
+            T = State(a, b, c, d)
+
         # Initial gamma0 guess
         # Get the max of the largest svd of either
         #   - feedthrough matrix
-- 
2.43.0


From 36354bb6125099a6de53f1dc32d3c933f180f3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:33 +0000
Subject: [PATCH 075/126] fix: keep the Hinf iteration going until the peak is
 found

The Hamiltonian inverts a matrix that is almost singular when the gain
is close to the feedthrough, so that crossings were missed or moved.
The iteration also failed for an identically zero model, for a single
crossing and when it made no progress.
---
 harold/_system_props.py | 66 +++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 22 deletions(-)

diff --git a/harold/_system_props.py b/harold/_system_props.py
index 1fbda81..7d30cc0 100644
--- a/harold/_system_props.py
+++ b/harold/_system_props.py
@@ -1,7 +1,8 @@
 import numpy as np
 from numpy import block
 from numpy.linalg.linalg import _makearray
-from scipy.linalg import solve, norm, eigvals, qr
+from scipy.linalg import (solve, norm, eigvals, qr, block_diag,
+                          matrix_balance)
 
 from ._array_validators import _assert_2d, _assert_square, _assert_finite
 from ._frequency_domain import frequency_response
@@ -132,40 +133,61 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
 
         # Finally
         gamma_lb = np.max([lb, norm(d, ord=2)])
+        # Nothing to search for if the system is identically zero
+        if gamma_lb == 0.:
+            return 0.
+
+        n, (p, m) = a.shape[0], d.shape
+        # Bring the entries to comparable magnitude for the eigenvalue problem
+        a, (sca, _) = matrix_balance(a, permute=False, separate=True)
+        b, c = b / sca[:, None], c * sca
+        if np.any(b) and np.any(c):
+            sca = np.sqrt(norm(c) / norm(b))
+            b, c = b * sca, c / sca
 
         # Start a for loop with a definite end! Convergence is quartic!!
         for x in range(51):
 
             # (Step b1)
             test_gamma = gamma_lb * (1 + 2*np.sqrt(np.spacing(1.)))
+            gamma_ub = test_gamma
 
             # (Step b2)
-            R = d.T @ d - test_gamma**2 * np.eye(d.shape[1])
-            S = d @ d.T - test_gamma**2 * np.eye(d.shape[0])
-            # TODO : Implement the result of Benner for the Hamiltonian later
-            mat = block([[a - b @ solve(R, d.T) @ c,
-                          -test_gamma * b @ solve(R, b.T)],
-                         [test_gamma * c.T @ solve(S, c),
-                          -(a - b @ solve(R, d.T) @ c).T]])
-            eigs_of_H = eigvals(mat)
+            # The finite eigenvalues of the even pencil are those of the
+            # Hamiltonian but d.T @ d - gamma**2 * I, which is almost singular
+            # if the peak is close to the feedthrough, need not be inverted.
+            mat = block([[a, np.zeros((n, n)), b, np.zeros((n, p))],
+                         [np.zeros((n, n)), -a.T, np.zeros((n, m)), -c.T],
+                         [c, np.zeros((p, n)), d, -test_gamma * np.eye(p)],
+                         [np.zeros((m, n)), b.T, -test_gamma * np.eye(m), d.T]])
+            eigs_of_H = eigvals(mat, block_diag(np.eye(2*n),
+                                                np.zeros((p+m, p+m))))
+            eigs_of_H = eigs_of_H[np.isfinite(eigs_of_H)]
 
             # (Step b3)
-            im_eigs = eigs_of_H[np.abs(eigs_of_H.real) <= eig_tol]
+            scale = np.maximum(np.abs(eigs_of_H), max(1., norm(mat, ord=2)))
+            im_eigs = eigs_of_H[np.abs(eigs_of_H.real) <= eig_tol * scale]
+            # Take the ones with positive imag part, the interval around zero
+            # frequency has only one such end
+            w_i = np.unique(np.append(np.abs(im_eigs.imag), 0.))
             # If none left break
-            if im_eigs.size == 0:
-                gamma_ub = test_gamma
+            if w_i.size == 1:
                 break
+
+            # Evaluate the cubic interpolant
+            m_i = (w_i[1:] + w_i[:-1]) / 2
+            f, w = frequency_response(T, w=m_i, w_unit='rad/s',
+                                      output_unit='rad/s')
+            if T._isSISO:
+                lb = np.max(np.abs(f))
             else:
-                # Take the ones with positive imag part
-                w_i = np.sort(np.unique(np.abs(im_eigs.imag)))
-                # Evaluate the cubic interpolant
-                m_i = (w_i[1:] + w_i[:-1]) / 2
-                f, w = frequency_response(T, w=m_i, w_unit='rad/s',
-                                          output_unit='rad/s')
-                if T._isSISO:
-                    gamma_lb = np.max(np.abs(f))
-                else:
-                    gamma_lb = np.max(norm(f, ord=2, axis=(0, 1)))
+                lb = np.max(norm(f, ord=2, axis=(0, 1)))
+
+            # If there is no progress break
+            if lb <= gamma_lb:
+                break
+
+            gamma_lb = lb
 
         return (gamma_lb + gamma_ub)/2
 
-- 
2.43.0


From 666d6d4eafa769f9ab2c59fe5d5b904ebb2d48b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:37 +0000
Subject: [PATCH 076/126] fix: return input and output of the observer
 staircase in order

---
 harold/_system_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index a7eca23..d37ed09 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -96,7 +96,7 @@ def staircase(A, B, C, compute_T=False, form='c', invert=False,
         if invert:
             A0, B0, C0 = fliplr(flipud(A0)), flipud(B0), fliplr(C0)
             T = flipud(T)
-        return (A0, B0, C0, T.T) if form == 'c' else (A0.T, B0.T, C0.T, T.T)
+        return (A0, B0, C0, T.T) if form == 'c' else (A0.T, C0.T, B0.T, T.T)
 
     next_, size_ = -m, m
     tol_from_A = n*norm(A, 1)*np.spacing(1.)
-- 
2.43.0


From c6ba180aae30f6219079d86eafcb77c66d255744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:37 +0000
Subject: [PATCH 077/126] fix: keep the zeros when a complex pair cancels one
 real pole

---
 harold/_system_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index d37ed09..393108e 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -509,7 +509,7 @@ def _minimal_realization_simplify(num, den, tol):
                     plz = np.delete(plz, match_index)
                 else:
                     # It was a real/complex cancellation, make the zero real
-                    safe_z += np.real(z)
+                    safe_z += [np.real(z)]
 
             elif not bool_cz and bool_cp:
                 # Same with above but this time we convert the other pole
-- 
2.43.0


From 69659b79630ea4c233d8cd7e7c3c7dd0179816b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:37 +0000
Subject: [PATCH 078/126] fix: cancel poles with negative imaginary part
 together with their pair

---
 harold/_system_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 393108e..38a1a28 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -486,7 +486,7 @@ def _minimal_realization_simplify(num, den, tol):
             # Get the index and check the complex part
             match_index = np.argmin(dist)
             pz = plz[match_index]
-            bool_cp = np.imag(pz) > 0
+            bool_cp = np.imag(pz) != 0
 
             if bool_cz and bool_cp:
                 plz = np.delete(plz, match_index)
-- 
2.43.0


From c24ef3f79099a57f046a08f1fb7b7e525e42ab56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:06 +0000
Subject: [PATCH 079/126] fix: ignore rounding errors left in the output by
 removed states

---
 harold/_system_funcs.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 38a1a28..dcfa41a 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -4,7 +4,7 @@ import numpy as np
 from numpy.linalg import cond, eig, norm
 from numpy import array, flipud, fliplr, eye, zeros
 from numpy.random import rand
-from scipy.linalg import (solve, svdvals, qr, block_diag,
+from scipy.linalg import (solve, svd, svdvals, qr, block_diag,
                           hessenberg, matrix_balance, LinAlgError)
 from ._aux_linalg import haroldsvd, matrix_slice, e_i
 from ._classes import State, Transfer, transfer_to_state
@@ -397,8 +397,12 @@ def _minimal_realization_state(A, B, C, tol=1e-6):
                     return Ac, Bc, Cc
                 else:
                     kc, *_ = cancellation_distance(Ac, Bc)
+            # The output rows of the removed states leave rounding errors behind
+            # that should not count as observable directions
+            u, s, vh = svd(Cc, full_matrices=False)
+            s[s <= 10*n*np.spacing(norm(C))] = 0.
             # Return the resulting matrices
-            A, B, C = Ac, Bc, Cc
+            A, B, C = Ac, Bc, (u * s) @ vh
             # Same with the o'ble modes, but now kc might have removed
             # unobservable mode already so get the distance again
             ko, *_ = cancellation_distance(A.T, C.T)
-- 
2.43.0


From f632c1dff4c998955d9dbbaa5971790973873c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:36:34 +0000
Subject: [PATCH 080/126] fix: leave a margin for rounding errors in the
 staircase ranks

---
 harold/_system_funcs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index dcfa41a..9fd29ae 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -99,7 +99,9 @@ def staircase(A, B, C, compute_T=False, form='c', invert=False,
         return (A0, B0, C0, T.T) if form == 'c' else (A0.T, C0.T, B0.T, T.T)
 
     next_, size_ = -m, m
-    tol_from_A = n*norm(A, 1)*np.spacing(1.)
+    # Each block inherits the rounding errors of the previous ones divided by
+    # their singular values, hence the extra margin
+    tol_from_A = 100*n*norm(A, 1)*np.spacing(1.)
 
     for _ in range(A0.shape[0]):
         next_, size_ = next_ + size_, m
@@ -400,7 +402,7 @@ def _minimal_realization_state(A, B, C, tol=1e-6):
             # The output rows of the removed states leave rounding errors behind
             # that should not count as observable directions
             u, s, vh = svd(Cc, full_matrices=False)
-            s[s <= 10*n*np.spacing(norm(C))] = 0.
+            s[s <= 100*n*np.spacing(norm(C))] = 0.
             # Return the resulting matrices
             A, B, C = Ac, Bc, (u * s) @ vh
             # Same with the o'ble modes, but now kc might have removed
-- 
2.43.0


From cf7029ee02164225f7ef953209fc3b43e1555d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:18 +0000
Subject: [PATCH 081/126] fix: reverse the columns of the inverted Hessenberg
 transformation

---
 harold/_system_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 9fd29ae..0f70a81 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -203,7 +203,7 @@ def hessenberg_realization(G, compute_T=False, form='c', invert=False,
     if invert:
         ah, bh, ch = fliplr(flipud(ah)), flipud(bh), fliplr(ch)
         if compute_T:
-            T = flipud(T)
+            T = fliplr(T)
 
     if form == 'o':
         ah, bh, ch = ah.T, ch.T, bh.T
-- 
2.43.0


From 6840069f0c09c53f9c6ec21e60efa378385d31aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:18 +0000
Subject: [PATCH 082/126] fix: transform all inputs to the Hessenberg
 coordinates

---
 harold/_system_funcs.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 0f70a81..00eb93a 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -132,14 +132,14 @@ def hessenberg_realization(G, compute_T=False, form='c', invert=False,
                            output='system'):
     """
     A state transformation is applied in order to get the following form where
-    A is a Hessenberg matrix and B (or C if 'form' is set to 'o' ) is row/col
-    compressed ::
+    A is a Hessenberg matrix and the first column of B (or the first row of C
+    if 'form' is set to 'o' ) is compressed ::
 
                                 [x x x x x|x x]
                                 [x x x x x|0 x]
-                                [0 x x x x|0 0]
-                                [0 0 x x x|0 0]
-                                [0 0 0 x x|0 0]
+                                [0 x x x x|0 x]
+                                [0 0 x x x|0 x]
+                                [0 0 0 x x|0 x]
                                 [---------|---]
                                 [x x x x x|x x]
                                 [x x x x x|x x]
@@ -195,7 +195,7 @@ def hessenberg_realization(G, compute_T=False, form='c', invert=False,
     qq, bh = qr(b)
     ab, cb = qq.T @ a @ qq, c @ qq
     ah, qh = hessenberg(ab, calc_q=True)
-    ch = cb @ qh
+    bh, ch = qh.T @ bh, cb @ qh
 
     if compute_T:
         T = qq @ qh
-- 
2.43.0


From d09aebe0ffaff2e4968cec4ee8ccb8087abd1fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:18 +0000
Subject: [PATCH 083/126] fix: keep the feedthrough of Hessenberg realizations

---
 harold/_system_funcs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 00eb93a..e7b0570 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -185,9 +185,9 @@ def hessenberg_realization(G, compute_T=False, form='c', invert=False,
         _check_for_state_or_transfer(G)
         in_is_sys = True
         if type(G).__name__ == 'Transfer':
-            a, b, c, _ = transfer_to_state(G, output='matrices')
+            a, b, c, d = transfer_to_state(G, output='matrices')
         else:
-            a, b, c = G.a, G.b, G.c
+            a, b, c, d = G.matrices
 
     if form == 'o':
         a, b, c = a.T, c.T, b.T
@@ -210,7 +210,7 @@ def hessenberg_realization(G, compute_T=False, form='c', invert=False,
 
     if output == 'system':
         if in_is_sys:
-            Gh = State(ah, bh, ch, dt=G.SamplingPeriod)
+            Gh = State(ah, bh, ch, d, dt=G.SamplingPeriod)
         else:
             Gh = State(ah, bh, ch)
         if compute_T:
-- 
2.43.0


From ee8f5647631549d188d7c3b2d2eb944cc55b9532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:18 +0000
Subject: [PATCH 084/126] fix: return static gains unchanged from
 hessenberg_realization

---
 harold/_system_funcs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index e7b0570..27ace4d 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -189,6 +189,11 @@ def hessenberg_realization(G, compute_T=False, form='c', invert=False,
         else:
             a, b, c, d = G.matrices
 
+        # Static gains have no states to transform
+        if (a is None or a.size == 0) and output == 'system':
+            Gh = G if G._isgain else State(d, dt=G.SamplingPeriod)
+            return (Gh, zeros((0, 0))) if compute_T else Gh
+
     if form == 'o':
         a, b, c = a.T, c.T, b.T
 
-- 
2.43.0


From 05c0d6245421e7a59721e8edc825d59f23a14dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:51:51 +0000
Subject: [PATCH 085/126] fix: return the row compressed controllability matrix
 itself

The right factor of the SVD is already transposed.
---
 harold/_kalman_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_kalman_ops.py b/harold/_kalman_ops.py
index e2d86a8..f46ff8c 100644
--- a/harold/_kalman_ops.py
+++ b/harold/_kalman_ops.py
@@ -53,7 +53,7 @@ def controllability_matrix(G, compress=False):
 
     if compress:
         T, S, V, r = haroldsvd(Cc, also_rank=True)
-        return S.dot(V.T), T, r
+        return S.dot(V), T, r
 
     T, *_, r = haroldsvd(Cc, also_rank=True)
     return Cc, T, r
-- 
2.43.0


From 82ec0e5991f937f9ba74486b984c4254e9ab7b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:51:51 +0000
Subject: [PATCH 086/126] fix: return the column compressing transformation
 from observability_matrix

The transpose was returned unless compress was requested and hence the
unobservable modes were not separated in kalman_decomposition.
---
 harold/_kalman_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harold/_kalman_ops.py b/harold/_kalman_ops.py
index f46ff8c..f04bb67 100644
--- a/harold/_kalman_ops.py
+++ b/harold/_kalman_ops.py
@@ -106,8 +106,8 @@ def observability_matrix(G, compress=False):
         T, S, V, r = haroldsvd(Co, also_rank=True)
         return T.dot(S), V.T, r
 
-    *_, T, r = haroldsvd(Co, also_rank=True)
-    return Co, T, r
+    *_, V, r = haroldsvd(Co, also_rank=True)
+    return Co, V.T, r
 
 
 def kalman_decomposition(G, compute_T=False, output='system',
-- 
2.43.0


From 11ee07cfb2e58c6daca8562b60f18dd538a8d4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:51:51 +0000
Subject: [PATCH 087/126] fix: allow for static gains in Kalman controllability
 tests

The rank of an empty array raised an error about zero-size arrays.
---
 harold/_aux_linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_aux_linalg.py b/harold/_aux_linalg.py
index edc02ce..bd0d649 100644
--- a/harold/_aux_linalg.py
+++ b/harold/_aux_linalg.py
@@ -88,7 +88,7 @@ def haroldsvd(A, also_rank=False, rank_tol=None):
 
     if also_rank:  # Copy the official rank computation
         if rank_tol is None:
-            rank_tol = s.max() * max(p, m) * np.spacing(1.)
+            rank_tol = s.max(initial=0.) * max(p, m) * np.spacing(1.)
         r = sum(s > rank_tol)
         return u, diags, v, r
 
-- 
2.43.0


From cc747843a721d8e451583ebae7b0de2a2505a1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:51:51 +0000
Subject: [PATCH 088/126] fix: return the transformation of static gains in
 kalman_decomposition

---
 harold/_kalman_ops.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/harold/_kalman_ops.py b/harold/_kalman_ops.py
index f04bb67..1bef1c2 100644
--- a/harold/_kalman_ops.py
+++ b/harold/_kalman_ops.py
@@ -184,10 +184,8 @@ def kalman_decomposition(G, compute_T=False, output='system',
 
     # If a static gain, then skip and return the argument
     if G._isgain:
-        if output == 'matrices':
-            return G.matrices
-
-        return G
+        Gk = G.matrices if output == 'matrices' else G
+        return (Gk, np.zeros((0, 0))) if compute_T else Gk
 
     # TODO: This is an unreliable test anyways but at least check
     # which rank drop of Cc, Co is higher and start from that
-- 
2.43.0


From 5d708c277dbc81bbfed5fac4637d60560f2909b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:51:51 +0000
Subject: [PATCH 089/126] fix: separate the unobservable uncontrollable modes
 in kalman_decomposition

The uncontrollable modes were tested for observability without the
controllable ones they are connected to.
---
 harold/_kalman_ops.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/harold/_kalman_ops.py b/harold/_kalman_ops.py
index 1bef1c2..2a9f5bb 100644
--- a/harold/_kalman_ops.py
+++ b/harold/_kalman_ops.py
@@ -209,19 +209,22 @@ def kalman_decomposition(G, compute_T=False, output='system',
         raise ValueError('The system is trivially uncontrollable.'
                          'Probably B matrix is numerically all zeros.')
     elif r != G.a.shape[0]:
-        aco, auco = ac[:r, :r], ac[r:, r:]
-        # bco = bc[:r, :]
-        cco, cuco = cc[:, :r], cc[:, r:]
+        aco, cco = ac[:r, :r], cc[:, :r]
         do_separate_obsv = True
     else:
-        aco, _, cco = ac, bc, cc
-        auco, cuco = None, None
         do_separate_obsv = False
 
     if do_separate_obsv:
         _, To_co, _ = observability_matrix((aco, cco))
-        _, To_uco, _ = observability_matrix((auco, cuco))
-        To = block_diag(To_co, To_uco)
+        # The unobservable modes among the uncontrollable ones might have
+        # components in the controllable subspace too
+        _, V, ro = observability_matrix(G)
+        N = solve(Tc, V[:, ro:])
+        U, S, W, k = haroldsvd(N[r:, :], also_rank=True, rank_tol=1e-8)
+        To = block_diag(To_co, np.eye(ac.shape[0] - r))
+        if k > 0:
+            To[r:, r:] = np.roll(U, -k, axis=1)
+            To[:r, -k:] = N[:r, :] @ W[:k, :].T / np.diag(S)[:k]
     else:
         if not is_kalman_observable((ac, cc)):
             _, To, r = observability_matrix((ac, cc))
-- 
2.43.0


From ea63d45d8368a64995834d9e925a5cfd6e0ce12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:59:28 +0000
Subject: [PATCH 090/126] fix: use the smallest upper bound for the lower bound
 in cancellation_distance

The eigenvalue closest to the rank loss need not be the one with the
smallest soft bound and the lower bound could exceed the distance.
---
 harold/_system_funcs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 27ace4d..10cce3c 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -291,10 +291,12 @@ def cancellation_distance(F, G):
     for x in range(n):
         upp0[x] = norm((C-evals[x]*D).dot(Y[:, x])) / norm(X[:, x])
 
-    f = np.argsort(upp0)[0]
+    upper1 = min(upp0)
+    # The lower bound only holds for the smallest one among all eigenvalues
+    sigmas = [svdvals(A - x*B)[-1] for x in evals]
+    f = np.argmin(sigmas)
     e_f = evals[f]
-    upper1 = upp0[f]
-    upper2 = svdvals(A - e_f*B)[-1]
+    upper2 = sigmas[f]
     lower0 = upper2/(K+1)
     radius = upper2*K
 
-- 
2.43.0


From dbda4639c1f6f7c7eba68f366915bf9b2b067e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:40 +0000
Subject: [PATCH 091/126] fix: trim the leading zeros of the arguments in
 haroldlcm

---
 harold/_polynomial_ops.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index aa58de9..aa8b51a 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -78,6 +78,11 @@ def haroldlcm(*args, compute_multipliers=True, cleanup_threshold=1e-9):
     if not all([x.size > 0 for x in args]):
         raise ValueError('Empty arrays are not allowed.')
 
+    # Leading zeros do not contribute to the degree
+    args = [x if x.size == 1 else np.trim_zeros(x, 'f') for x in args]
+    if not all([x.size > 0 for x in args]):
+        raise ValueError('Zero polynomials are not allowed.')
+
     # All scalars
     if all([x.size == 1 for x in args]):
         if compute_multipliers:
@@ -129,8 +134,7 @@ def haroldlcm(*args, compute_multipliers=True, cleanup_threshold=1e-9):
         # Add monic coefficient and flip
         lcmpoly = np.append(lcmpoly, 1)[::-1]
     else:
-        lcmpoly = np.trim_zeros(poppedargs[0], 'f')
-        lcmpoly = lcmpoly/lcmpoly[0]
+        lcmpoly = poppedargs[0]/poppedargs[0][0]
 
     if compute_multipliers:
         n_lcm = lcmpoly.size - 1
-- 
2.43.0


From 4c6e042c314b404873267fb47f58e2ece0a72889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:40 +0000
Subject: [PATCH 092/126] fix: scale the variable in haroldlcm

The degree and the coefficients of the least common multiple were wrong if
the roots are large, say of the order of 1000, and small coefficients were
cleaned up if the roots are small. The clean up is also done if the
multipliers are not requested.
---
 harold/_polynomial_ops.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index aa8b51a..44c1573 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -106,6 +106,13 @@ def haroldlcm(*args, compute_multipliers=True, cleanup_threshold=1e-9):
             distinct.append(x)
     poppedargs = distinct
 
+    # Scale the variable such that the magnitudes of the roots are around 1.
+    # Otherwise the powers of the companion matrices grow or decay quickly.
+    mags = [np.trim_zeros(x, 'b') for x in poppedargs]
+    mags = [np.log2(abs(x[-1]/x[0]))/(x.size-1) for x in mags if x.size > 1]
+    alpha = 2.**np.round(np.mean(mags)) if mags else 1.
+    poppedargs = [x*alpha**-np.arange(x.size) for x in poppedargs]
+
     # If there are more than one nonconstant polynomial to consider
     if len(poppedargs) > 1:
         a = block_diag(*(map(haroldcompanion, poppedargs)))
@@ -169,12 +176,17 @@ def haroldlcm(*args, compute_multipliers=True, cleanup_threshold=1e-9):
             temp[l_ind, 1:] = mults
             mults = temp
 
-        lcmpoly[abs(lcmpoly) < cleanup_threshold] = 0.
         mults[abs(mults) < cleanup_threshold] = 0.
         mults = [np.trim_zeros(z, 'f') for z in mults]
-        return lcmpoly, mults
-    else:
-        return lcmpoly
+        # Undo the scaling of the variable, some leading noise might remain
+        degs = [lcmpoly.size - x.size for x in args]
+        mults = [z*alpha**np.arange(d + 1. - z.size, d + 1.)
+                 for z, d in zip(mults, degs)]
+
+    lcmpoly[abs(lcmpoly) < cleanup_threshold] = 0.
+    lcmpoly = lcmpoly*alpha**np.arange(lcmpoly.size)
+
+    return (lcmpoly, mults) if compute_multipliers else lcmpoly
 
 
 def haroldgcd(*args):
-- 
2.43.0


From 33fb2026dd1d1a4d6008c99f68a33a38e5b676eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:40 +0000
Subject: [PATCH 093/126] fix: return 1 for the gcd of a polynomial and a
 constant

---
 harold/_polynomial_ops.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index 44c1573..291bb35 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -253,8 +253,9 @@ def haroldgcd(*args):
     if n == 0:
         return np.array([1])
 
-    if n > 0 and p == 0:
-        return arr_args.pop(max_degree_index)
+    # There is a nonzero constant
+    if p == 0:
+        return np.array([1])
 
     # pop out the max degree polynomial and zero pad
     # such that we have n+m columns
-- 
2.43.0


From 1c27eeac0a45dd47139dc51e3c49886ebfd06018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:40 +0000
Subject: [PATCH 094/126] fix: skip zero polynomials in haroldgcd

---
 harold/_polynomial_ops.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index 291bb35..97c8489 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -226,13 +226,18 @@ def haroldgcd(*args):
                  I am still interested in better methods.
     """
     raw_arr_args = [np.atleast_1d(np.squeeze(x)) for x in args]
-    arr_args = [np.trim_zeros(x, 'f') for x in raw_arr_args if x.size > 0]
-    dimension_list = [x.ndim for x in arr_args]
+    dimension_list = [x.ndim for x in raw_arr_args]
 
     # do we have 2d elements?
     if max(dimension_list) > 1:
         raise ValueError('Input arrays must be 1D arrays, rows, or columns')
 
+    arr_args = [np.trim_zeros(x, 'f') for x in raw_arr_args]
+    # Everything divides zero
+    arr_args = [x for x in arr_args if x.size > 0]
+    if len(arr_args) == 0:
+        raise ValueError('At least one of the polynomials should be nonzero.')
+
     degree_list = np.array([x.size-1 for x in arr_args])
     max_degree = np.max(degree_list)
     max_degree_index = np.argmax(degree_list)
-- 
2.43.0


From 0b01d6a1913ef40b1516e9ba36fb8361e80b1c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:40 +0000
Subject: [PATCH 095/126] fix: allow for sequences and a leading zero
 polynomial in haroldpolymul

---
 harold/_polynomial_ops.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index 97c8489..6a8f936 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -454,17 +454,16 @@ def haroldpolymul(*args, trim_zeros=True):
 
     """
 
+    trimmedargs = [np.array(x).flatten() for x in args]
     if trim_zeros:
-        trimmedargs = [np.trim_zeros(x.flatten(), 'f') for x in args]
-    else:
-        trimmedargs = args
+        trimmedargs = [np.trim_zeros(x, 'f') for x in trimmedargs]
+
+    if any(x.size == 0 for x in trimmedargs):  # it was all zeros
+        return np.array([0.])
 
     p = trimmedargs[0]
 
     for x in trimmedargs[1:]:
-        if x.size == 0:  # it was all zeros
-            p = []
-            break
         p = np.convolve(p, x)
 
     return p if np.any(p) else np.array([0.])
-- 
2.43.0


From 03ba6e2d5ed3208221bfddf6e06163e3a1771812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:40 +0000
Subject: [PATCH 096/126] fix: allow for iterables that can't be indexed in
 haroldpoly

---
 harold/_polynomial_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index 6a8f936..6945e67 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -366,7 +366,7 @@ def haroldpoly(rootlist):
     else:
         p = np.array([0.+0j for x in range(n+1)], dtype=complex)
         p[0] = 1  # Monic polynomial
-        p[1] = -rootlist[0]
+        p[1] = -r[0]
         for x in range(1, n):
             p[x+1] = -p[x]*r[x]
             for y in range(x, 0, -1):
-- 
2.43.0


From 17f3cd7fa67172582f2622cc223b8a4a3d40751e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:40 +0000
Subject: [PATCH 097/126] fix: trim the leading zeros of the divisor in
 haroldpolydiv

Also a dividend of smaller degree failed since the empty quotient is a list.
---
 harold/_polynomial_ops.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index 6945e67..5360e5a 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -502,8 +502,10 @@ def haroldpolydiv(dividend, divisor):
     (array([1., 1.]), array([], dtype=float64))
 
     """
+    dividend = np.array(dividend)
+    divisor = np.trim_zeros(np.array(divisor), 'f')
     h_factor, h_remainder = sig.deconvolve(dividend, divisor)
     # The leading entries cancel by construction, drop the rounding errors
-    h_remainder = h_remainder[h_factor.size:]
+    h_remainder = h_remainder[len(h_factor):]
 
     return np.trim_zeros(h_factor, 'f'), np.trim_zeros(h_remainder, 'f')
-- 
2.43.0


From 166af3b89d06e381cbbd7ee3823fa02b60e0c4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:18:43 +0000
Subject: [PATCH 098/126] fix: do not return nan for the H2 norm of systems
 that are zero up to rounding

---
 harold/_system_props.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harold/_system_props.py b/harold/_system_props.py
index 7d30cc0..8f44e62 100644
--- a/harold/_system_props.py
+++ b/harold/_system_props.py
@@ -83,13 +83,13 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
                 return 0.
 
             x = lyapunov_eq_solver(a.T, b @ b.T)
-            return np.sqrt(np.trace(c @ x @ c.T))
+            return np.sqrt(max(0., np.trace(c @ x @ c.T)))
         else:
             if T._isgain:
                 return norm(d)
 
             x = lyapunov_eq_solver(a.T, b @ b.T, form='d')
-            return np.sqrt(np.trace(c @ x @ c.T + d @ d.T))
+            return np.sqrt(max(0., np.trace(c @ x @ c.T + d @ d.T)))
     # ∞-norm
     elif np.isinf(p):
         if not T._isstable:
-- 
2.43.0


From cd5bec0f21529e818c1bc26cf7c897980614fb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:18:43 +0000
Subject: [PATCH 099/126] fix: balance the state matrix for the H2 norm

The norms of transfer matrices with poles of the order of 1000 were
inaccurate or nan due to the badly scaled companion form.
---
 harold/_system_props.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/harold/_system_props.py b/harold/_system_props.py
index 8f44e62..a9ba305 100644
--- a/harold/_system_props.py
+++ b/harold/_system_props.py
@@ -82,12 +82,14 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
             if T._isgain:
                 return 0.
 
+            a, b, c = _balance(a, b, c)
             x = lyapunov_eq_solver(a.T, b @ b.T)
             return np.sqrt(max(0., np.trace(c @ x @ c.T)))
         else:
             if T._isgain:
                 return norm(d)
 
+            a, b, c = _balance(a, b, c)
             x = lyapunov_eq_solver(a.T, b @ b.T, form='d')
             return np.sqrt(max(0., np.trace(c @ x @ c.T + d @ d.T)))
     # ∞-norm
@@ -139,8 +141,7 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
 
         n, (p, m) = a.shape[0], d.shape
         # Bring the entries to comparable magnitude for the eigenvalue problem
-        a, (sca, _) = matrix_balance(a, permute=False, separate=True)
-        b, c = b / sca[:, None], c * sca
+        a, b, c = _balance(a, b, c)
         if np.any(b) and np.any(c):
             sca = np.sqrt(norm(c) / norm(b))
             b, c = b * sca, c / sca
@@ -192,6 +193,12 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
         return (gamma_lb + gamma_ub)/2
 
 
+def _balance(a, b, c):
+    """Scales the states such that the entries of `a` have similar size."""
+    a, (sca, _) = matrix_balance(a, permute=False, separate=True)
+    return a, b / sca[:, None], c * sca
+
+
 def controllability_indices(A, B, tol=None):
     """Computes the controllability indices for a controllable pair (A, B)
 
-- 
2.43.0


From 473b6b94b65a357e3ebfd8c01faed69254570275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:16 +0000
Subject: [PATCH 100/126] fix: return the basis of the null space from
 haroldker

The right factor of the singular value decomposition is already transposed.
---
 harold/_aux_linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_aux_linalg.py b/harold/_aux_linalg.py
index bd0d649..47d98a7 100644
--- a/harold/_aux_linalg.py
+++ b/harold/_aux_linalg.py
@@ -147,7 +147,7 @@ def haroldker(N, side='right'):
         # If full rank and not fat, return trivial zero
         return np.zeros((A.shape[1], 1))
     else:
-        return V[:, r:]
+        return V[r:, :].conj().T
 
 
 def pair_complex_numbers(a, tol=1e-9, realness_tol=1e-9,
-- 
2.43.0


From 49cf91a874c3a5d518eb0283dd63a6a3e469c707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:16 +0000
Subject: [PATCH 101/126] fix: return the nontrivial null space of a scalar
 zero from haroldker

---
 harold/_aux_linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_aux_linalg.py b/harold/_aux_linalg.py
index 47d98a7..ce058d1 100644
--- a/harold/_aux_linalg.py
+++ b/harold/_aux_linalg.py
@@ -137,7 +137,7 @@ def haroldker(N, side='right'):
 
     m, n = A.shape
 
-    if A.size <= 1:
+    if A.size == 0:
         # don't bother
         return np.array([[0]])
 
-- 
2.43.0


From 431c052509acfb61c8956b86fb4f67a6f2a2c7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:16 +0000
Subject: [PATCH 102/126] fix: use the requested number of rows for the
 north-east corner in matrix_slice

---
 harold/_aux_linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_aux_linalg.py b/harold/_aux_linalg.py
index ce058d1..17aa135 100644
--- a/harold/_aux_linalg.py
+++ b/harold/_aux_linalg.py
@@ -439,7 +439,7 @@ def matrix_slice(M, corner_shape, corner='nw'):
     if corner == 'nw':
         p, m = z, w
     elif corner == 'ne':
-        p, m = x, y - w
+        p, m = z, y - w
     elif corner == 'sw':
         p, m = x - z, w
     else:
-- 
2.43.0


From b0a317c8f1fee0477cc86694ec4d3b8b4c4edf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:44 +0000
Subject: [PATCH 103/126] fix: pair repeated complex numbers that are equal up
 to the tolerance

The search for sign changes ran over the end of the array if there are
entries with no conjugate and repeated entries could be paired in the wrong
order.
---
 harold/_aux_linalg.py | 72 ++++++++++++-------------------------------
 1 file changed, 19 insertions(+), 53 deletions(-)

diff --git a/harold/_aux_linalg.py b/harold/_aux_linalg.py
index 17aa135..b2c328b 100644
--- a/harold/_aux_linalg.py
+++ b/harold/_aux_linalg.py
@@ -230,68 +230,34 @@ def pair_complex_numbers(a, tol=1e-9, realness_tol=1e-9,
 
         # Still doesn't distinguish whether they are pairable or not.
         sorted_array_r_j = np.sort_complex(array_j_ent)
-        sorted_array_r, sorted_array_j = return_imre(sorted_array_r_j)
+        negatives = sorted_array_r_j[sorted_array_r_j.imag < 0]
+        positives = sorted_array_r_j[sorted_array_r_j.imag > 0]
 
-        # Since the entries are now sorted and appear as pairs,
-        # when summed with the next element the result should
-        # be very small
+        if negatives.size != positives.size:
+            raise ValueError('Pairing failed for the complex parts.')
+
+        # The real parts might be equal only up to the tolerance and hence the
+        # sorted order of the repeated ones is arbitrary. Look for the closest
+        # conjugate of each entry among the ones that are not paired yet.
+        for x in negatives:
+            ind = np.argmin(np.abs(positives - x.conj()))
+            diff_r, diff_j = return_imre(positives[ind] - x.conj())
 
-        if any(np.abs(sorted_array_r[:-1:2] - sorted_array_r[1::2]) > tol):
-            # if any difference is bigger than the tolerance
-            raise ValueError('Pairing failed for the real parts.')
-
-        # Now we have sorted the real parts and they appear in pairs.
-        # Next, we have to get rid of the repeated imaginary, if any,
-        # parts in the  --... , ++... pattern due to sorting. Note
-        # that the non-repeated imaginary parts now have the pattern
-        # -,+,-,+,-,... and so on. So we can check whether sign is
-        # not alternating for the existence of the repeatedness.
-
-        def repeat_sign_test(myarr, mylen):
-            # Since we separated the zero imaginary parts now any sign
-            # info is either -1 or 1. Hence we can test whether -1,1
-            # pattern is present. Otherwise we count how many -1s occured
-            # double it for the repeated region. Then repeat until we
-            # we exhaust the array with a generator.
-
-            x = 0
-            myarr_sign = np.sign(myarr).astype(int)
-            while x < mylen:
-                if np.array_equal(myarr_sign[x:x+2], [-1, 1]):
-                    x += 2
-                elif np.array_equal(myarr_sign[x:x+2], [1, -1]):
-                    myarr[x:x+2] *= -1
-                    x += 2
-                else:
-                    still_neg = True
-                    xl = x+2
-                    while still_neg:
-                        if myarr_sign[xl] == 1:
-                            still_neg = False
-                        else:
-                            xl += 1
-
-                    yield x, xl - x
-                    x += 2*(xl - x)
-
-        for ind, l in repeat_sign_test(sorted_array_j, num_j_ent):
-            indices = np.dstack(
-                        (range(ind, ind+l), range(ind+2*l-1, ind+l-1, -1))
-                        )[0].reshape(1, -1)
-
-            sorted_array_j[ind:ind+2*l] = sorted_array_j[indices]
-
-        if any(np.abs(sorted_array_j[:-1:2] + sorted_array_j[1::2]) > tol):
             # if any difference is bigger than the tolerance
-            raise ValueError('Pairing failed for the complex parts.')
+            if np.abs(diff_r) > tol:
+                raise ValueError('Pairing failed for the real parts.')
+            if np.abs(diff_j) > tol:
+                raise ValueError('Pairing failed for the complex parts.')
+
+            positives = np.delete(positives, ind)
 
         # Finally we have a properly sorted pairs of complex numbers
         # We can now combine the real and complex parts depending on
         # the choice of positives_first keyword argument
 
         # Force entries to be the same for each of the pairs.
-        sorted_array_j = np.repeat(sorted_array_j[::2], 2)
-        paired_cmplx_part = np.repeat(sorted_array_r[::2], 2).astype(complex)
+        sorted_array_r, sorted_array_j = return_imre(np.repeat(negatives, 2))
+        paired_cmplx_part = sorted_array_r.astype(complex)
 
         if positives_first:
             sorted_array_j[::2] *= -1
-- 
2.43.0


From 4b928da081f9db46ef8db240e20507716ea2d933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:28:43 +0000
Subject: [PATCH 104/126] fix: copy the discretization matrix assigned to a
 Transfer

The model kept a reference to the array it was given, so changing that
array later changed the model.
---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 413b7d2..49f7ea8 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -320,7 +320,7 @@ class Transfer:
     @DiscretizationMatrix.setter
     def DiscretizationMatrix(self, value):
         if self._DiscretizedWith == 'lft':
-            value = np.atleast_2d(np.asarray(value, dtype=float))
+            value = np.atleast_2d(np.array(value, dtype=float))
             if value.ndim > 2 or value.shape != (2, 2):
                 raise ValueError('The interconnection array needs to be a'
                                  ' 2x2 real-valued array.')
-- 
2.43.0


From 27039b3f3716cb91b5872ba11c0f78467098c80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:11 +0000
Subject: [PATCH 105/126] fix: decide on integrators relative to the
 coefficients in the discrete dcgain

The sums of the coefficients were compared with an absolute tolerance, so
models with small gains were reported as zero.  Denominators that vanish at
z=1 up to rounding gave large finite values instead of infinity.
---
 harold/_classes.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 49f7ea8..f8cfb6b 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -176,7 +176,9 @@ class Transfer:
         else:
             # Now we need to strip off the discrete -1 poles like above :(
             # Lack of convenience for 0, evaluate at 1 and see if it is both ~0
-            tol = 10*np.spacing(1.)
+            def vanishes(x):
+                return abs(x.sum()) <= 10*np.spacing(1.)*np.abs(x).sum()
+
             for c in range(self._m):
                 for r in range(self._p):
                     if self._isSISO:
@@ -186,7 +188,7 @@ class Transfer:
                         num = self.num[r][c].flatten()
                         den = self.den[r][c].flatten()
                     for el in range(len(num)):
-                        if (abs(num.sum()) < tol) and (abs(den.sum()) < tol):
+                        if vanishes(num) and vanishes(den):
                             num, _ = deconvolve(num, [1, -1])
                             den, _ = deconvolve(den, [1, -1])
                         else:
@@ -195,7 +197,8 @@ class Transfer:
                         dcg[r, c] = 0.
                         continue
                     with np.errstate(divide='ignore'):
-                        dcg[r, c] = num.sum() / den.sum()
+                        dcg[r, c] = num.sum() / (0. if vanishes(den) else
+                                                 den.sum())
 
         return dcg[0, 0] if self._isSISO else dcg
 
-- 
2.43.0


From 787d0f7dbdb8b5d838a2c6c4a2e74f1e14035810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:11 +0000
Subject: [PATCH 106/126] fix: report integrators in the dcgain of State models

Whether the state matrix is singular was left to the solver, which rarely
notices.  Models with integrators then got arbitrary finite numbers, also in
the entries that do not contain the integrator, and slow models were reduced
to nothing by the minimal realization.  Test the rank explicitly and look at
the entries one by one if there is an integrator.
---
 harold/_system_funcs.py | 66 ++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 34 deletions(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 10cce3c..d954d33 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -5,7 +5,7 @@ from numpy.linalg import cond, eig, norm
 from numpy import array, flipud, fliplr, eye, zeros
 from numpy.random import rand
 from scipy.linalg import (solve, svd, svdvals, qr, block_diag,
-                          hessenberg, matrix_balance, LinAlgError)
+                          hessenberg, matrix_balance)
 from ._aux_linalg import haroldsvd, matrix_slice, e_i
 from ._classes import State, Transfer, transfer_to_state
 from ._arg_utils import _check_for_state_or_transfer
@@ -552,42 +552,40 @@ def dcgain(self):
     if self._isgain:
         return self.d
 
-    # First try if A is not singular
-    try:
+    def at_dc(a):
+        # sI - A at s=0 or zI - A at z=1
+        return np.eye(a.shape[0]) - a if self._dt else -a
 
+    def value(m, b, c):
         with warnings.catch_warnings():
             warnings.simplefilter("ignore")
-            aa, bb, cc = _minimal_realization_state(self.a, self.b, self.c)
-            R = cc @ solve(np.eye(aa.shape[0]) - aa if self._dt else -aa, bb)
-            R[R > 1/np.spacing(1.)] = np.inf
-            return R + self.d
-
-    except LinAlgError:
-        # Maybe single channel subsystems would remove singularities
-        if self._isSISO:
-            return np.inf
-
-        R = np.empty_like(self.d)
-        for c in range(self._m):
-            for r in range(self._p):
-                aa, bb, cc = _minimal_realization_state(self.a,
-                                                        self.b[:, [c]],
-                                                        self.c[[r], :])
-                # try again
-                if self._dt:
-                    # -(zI - A) at z=1
-                    aa -= np.eye(aa.shape[0])
-                try:
-                    with warnings.catch_warnings():
-                        warnings.simplefilter("ignore")
-                        val = cc @ solve(-aa, bb)
-                        if abs(val) > 1/np.spacing(1.):
-                            val = np.inf
-                        R[r, c] = val
-                except LinAlgError:
-                    # OK fine
-                    R[r, c] = np.inf
-        return R + self.d
+            return c @ solve(m, b)
+
+    # First try if A is not singular, the rows are scaled to decide on the rank
+    m = at_dc(self.a)
+    scale = np.maximum(np.abs(m), np.abs(self.a)).max(axis=1, keepdims=True)
+    scale[scale == 0.] = 1.
+    sv = svdvals(m/scale)
+    if sv[-1] > 10*len(sv)*np.spacing(sv[0]):
+        return value(m/scale, self.b/scale, self.c) + self.d
+
+    # Maybe single channel subsystems would remove singularities
+    tol = 1e-10*max(norm(m, 2), norm(self.a, 2))
+    R = np.zeros_like(self.d)
+    for c in range(self._m):
+        for r in range(self._p):
+            aa, bb, cc = _minimal_realization_state(self.a,
+                                                    self.b[:, [c]],
+                                                    self.c[[r], :])
+            if aa.size == 0:
+                continue
+            m = at_dc(aa)
+            if svdvals(m)[-1] > tol:
+                R[r, c] = value(m, bb, cc)[0, 0]
+            else:
+                R[r, c] = np.inf
+
+    return np.inf if self._isSISO and np.isinf(R[0, 0]) else R + self.d
 
 
 setattr(State, 'dcgain', dcgain)
-- 
2.43.0


From dd63a296237a113c33189f1368c466904a06c311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:43:25 +0000
Subject: [PATCH 107/126] fix: keep to the requested pole kinds for the last
 state of random models

When a complex pair did not fit in, the last state always got a real pole,
also if real poles had zero probability and integrators were asked for.
---
 harold/_classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index f8cfb6b..342d2e9 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -3598,7 +3598,9 @@ def random_state_model(n, p=1, m=1, dt=None, prob_dist=None, stable=True):
             break
 
     # Complex didn't fit, fill the remaining
-    if diag_i == n-1:
+    # with the kinds that fit, integrators are already in place
+    if diag_i == n-1 and (stable or
+                          rand()*(pdist[0] + pdist[2]) >= pdist[2]):
         ps = choice([1, -1], 1)
         pr = -exp(exp(rand())) if stable else ps*exp(exp(rand()))
         a[diag_i, diag_i] = pr
-- 
2.43.0


From 4470b9c0c75ecdb402d951068ab6aeaeb7de5435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:43:25 +0000
Subject: [PATCH 108/126] fix: use the requested pole kinds for random models
 with one state

Models with one state always had a pole between -1 and 0, whatever the
probabilities and the stability keyword.
---
 harold/_classes.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 342d2e9..37b9e3c 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -3552,9 +3552,6 @@ def random_state_model(n, p=1, m=1, dt=None, prob_dist=None, stable=True):
     # Static model
     if n == 0:
         return State(rand(p, m), dt=dt)
-    elif n == 1:
-        a, b, c, d = rand(1), rand(1, m), rand(p, 1), rand(p, m)
-        return State(-a, b, c, d, dt=dt)
 
     # Get random pole types
     choose_from = [0, 1] if stable else [0, 1, 2, 3]
-- 
2.43.0


From 6dc653b384cb50ff090302514340b914e2b2885e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:43:50 +0000
Subject: [PATCH 109/126] fix: draw complex pairs of random models that need
 not be stable

The sign of the real part was an array with one element, which can not be
placed in the state matrix next to scalars with recent versions of NumPy.
---
 harold/_classes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 37b9e3c..caf11b0 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -3563,7 +3563,7 @@ def random_state_model(n, p=1, m=1, dt=None, prob_dist=None, stable=True):
 
         p_type = choice(choose_from, 1, replace=True, p=pdist)
         if p_type == 0:
-            ps = choice([1, -1], 1)
+            ps = choice([1, -1])
             pr = -exp(exp(rand())) if stable else ps*exp(exp(rand()))
             a[diag_i, diag_i] = pr
             diag_i += 1
@@ -3571,7 +3571,7 @@ def random_state_model(n, p=1, m=1, dt=None, prob_dist=None, stable=True):
         elif p_type == 1:
             if diag_i >= n-1:
                 break
-            ps = choice([1, -1], 1)
+            ps = choice([1, -1])
             pr = -exp(exp(rand())) if stable else ps*exp(exp(rand()))
             pi = exp(exp(rand()))
             a[[diag_i, diag_i, diag_i+1, diag_i+1],
@@ -3598,7 +3598,7 @@ def random_state_model(n, p=1, m=1, dt=None, prob_dist=None, stable=True):
     # with the kinds that fit, integrators are already in place
     if diag_i == n-1 and (stable or
                           rand()*(pdist[0] + pdist[2]) >= pdist[2]):
-        ps = choice([1, -1], 1)
+        ps = choice([1, -1])
         pr = -exp(exp(rand())) if stable else ps*exp(exp(rand()))
         a[diag_i, diag_i] = pr
 
-- 
2.43.0


From 7a5f84138113cd3c9f3cfb6be93d42158c7831a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:47:55 +0000
Subject: [PATCH 110/126] fix: use the own frequency grid of each model in Bode
 and Nyquist plots

With several models the grid of the first one was used for all of them, so
the dynamics of the others could fall outside the plotted range.
---
 harold/_frequency_domain_plots.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/harold/_frequency_domain_plots.py b/harold/_frequency_domain_plots.py
index c20b795..33c8cf7 100644
--- a/harold/_frequency_domain_plots.py
+++ b/harold/_frequency_domain_plots.py
@@ -177,18 +177,19 @@ def bode_plot(sys, w=None, use_db=False, use_hz=True, use_degree=True,
 
     for ind, (G, sty) in enumerate(zip(syslist, style)):
         # If multiple systems are given W is necessarily defined here.
+        wi = w
         if w is None and len(syslist) > 1:
-            w = W[ind]
+            wi = W[ind]
             if f_unit == 'Hz':
-                w /= 2*np.pi
+                wi = wi / (2*np.pi)
 
         isDiscrete = True if G.SamplingSet == 'Z' else False
         if isDiscrete:
             dt = G.SamplingPeriod
             nyq = 1/(2*dt) if use_hz else np.pi/dt
 
-        if w is not None:
-            fre, ww = frequency_response(G, w, w_unit=f_unit,
+        if wi is not None:
+            fre, ww = frequency_response(G, wi, w_unit=f_unit,
                                          output_unit=f_unit)
         else:
             fre, ww = frequency_response(G, output_unit=f_unit)
@@ -336,13 +337,14 @@ def nyquist_plot(sys, w=None, use_hz=True, negative_freqs=True,
 
     for ind, (G, sty) in enumerate(zip(syslist, style)):
         # If multiple systems are given W is necessarily defined here.
+        wi = w
         if w is None and len(syslist) > 1:
-            w = W[ind]
+            wi = W[ind]
             if f_unit == 'Hz':
-                w /= 2*np.pi
+                wi = wi / (2*np.pi)
 
-        if w is not None:
-            fre, ww = frequency_response(G, w, w_unit=f_unit,
+        if wi is not None:
+            fre, ww = frequency_response(G, wi, w_unit=f_unit,
                                          output_unit=f_unit)
         else:
             fre, ww = frequency_response(G, output_unit=f_unit)
-- 
2.43.0


From 26d73988663d213c57b2938dbfbc2cbdb2e413e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:47:55 +0000
Subject: [PATCH 111/126] fix: keep the low frequencies added to the common
 grid of several models

Adding points above the grid of a model discarded those that were added
below it.
---
 harold/_frequency_domain_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_frequency_domain_plots.py b/harold/_frequency_domain_plots.py
index 33c8cf7..218199d 100644
--- a/harold/_frequency_domain_plots.py
+++ b/harold/_frequency_domain_plots.py
@@ -87,7 +87,7 @@ def _get_common_freq_grid(syslist):
             lw1 = np.log10(w[-1])
             samples = (5 if syslist[ind]._isgain else
                        int(np.ceil((lmaxw - lw1) * ppd)))
-            W[ind] = np.hstack([w,
+            W[ind] = np.hstack([W[ind],
                                 np.logspace(start=lw1,
                                             stop=lmaxw,
                                             num=samples)])
-- 
2.43.0


From b2db32e63189ec42a06a571194a5a1d51a1a5b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:47:55 +0000
Subject: [PATCH 112/126] fix: draw no phase for zero entries in the Bode plot

The phase of entries that are zero was taken from uninitialized memory, and
the other channels were unwrapped as if they were one single curve.
---
 harold/_frequency_domain_plots.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/harold/_frequency_domain_plots.py b/harold/_frequency_domain_plots.py
index 218199d..2e45777 100644
--- a/harold/_frequency_domain_plots.py
+++ b/harold/_frequency_domain_plots.py
@@ -199,8 +199,10 @@ def bode_plot(sys, w=None, use_db=False, use_hz=True, use_degree=True,
 
         # Mask NaN values if any
         if np.isnan(fre).any():
-            pha = np.empty_like(fre, dtype=float)
-            pha[~np.isnan(fre)] = np.unwrap(np.angle(fre[~np.isnan(fre)]))
+            pha = np.full_like(fre, np.nan, dtype=float)
+            for ch in np.ndindex(fre.shape[:-1]):
+                ok = ~np.isnan(fre[ch])
+                pha[ch][ok] = np.unwrap(np.angle(fre[ch][ok]))
         else:
             pha = np.unwrap(np.angle(fre))
         if use_degree:
-- 
2.43.0


From 3bf7835b279a9e5db26ece6000015738f7985e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:47:55 +0000
Subject: [PATCH 113/126] fix: accept line styles for the Bode plots of
 discrete models

A style with line styles or widths clashed with those of the vertical line
at the Nyquist frequency.
---
 harold/_frequency_domain_plots.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/harold/_frequency_domain_plots.py b/harold/_frequency_domain_plots.py
index 2e45777..c2c8081 100644
--- a/harold/_frequency_domain_plots.py
+++ b/harold/_frequency_domain_plots.py
@@ -227,15 +227,13 @@ def bode_plot(sys, w=None, use_db=False, use_hz=True, use_degree=True,
 
                 if isDiscrete:
                     label = f'sys_{ind}_in_{col}_out_{row}_mag_nyqline'
-                    axs[2*row, col].axvline(nyq, linestyle='dashed',
-                                            linewidth=2,
-                                            label=label,
-                                            **sty)
+                    axs[2*row, col].axvline(nyq, label=label,
+                                            **{**sty, 'linestyle': 'dashed',
+                                               'linewidth': 2})
                     label = f'sys_{ind}_in_{col}_out_{row}_phase_nyqline'
-                    axs[2*row+1, col].axvline(nyq, linestyle='dashed',
-                                              linewidth=2,
-                                              label=label,
-                                              **sty)
+                    axs[2*row+1, col].axvline(nyq, label=label,
+                                              **{**sty, 'linestyle': 'dashed',
+                                                 'linewidth': 2})
 
                 axs[2*row, col].grid(True, which='both')
                 axs[2*row+1, col].grid(True, which='both')
-- 
2.43.0


From bc985fc0247476563d51499cdf2e923ddc3e877b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:47:55 +0000
Subject: [PATCH 114/126] fix: plot all models if there are fewer styles than
 models

Models in excess of the entries in the style cycle, ten by default, were
left out of the plots without notice.
---
 harold/_frequency_domain_plots.py | 5 +++--
 harold/_time_domain_plots.py      | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/harold/_frequency_domain_plots.py b/harold/_frequency_domain_plots.py
index c2c8081..1787776 100644
--- a/harold/_frequency_domain_plots.py
+++ b/harold/_frequency_domain_plots.py
@@ -1,3 +1,4 @@
+import itertools
 import numpy as np
 import matplotlib.pyplot as plt
 import matplotlib as mpl
@@ -175,7 +176,7 @@ def bode_plot(sys, w=None, use_db=False, use_hz=True, use_degree=True,
     if w is None and len(syslist) > 1:
         W = _get_common_freq_grid(syslist)
 
-    for ind, (G, sty) in enumerate(zip(syslist, style)):
+    for ind, (G, sty) in enumerate(zip(syslist, itertools.cycle(style))):
         # If multiple systems are given W is necessarily defined here.
         wi = w
         if w is None and len(syslist) > 1:
@@ -335,7 +336,7 @@ def nyquist_plot(sys, w=None, use_hz=True, negative_freqs=True,
     if w is None and len(syslist) > 1:
         W = _get_common_freq_grid(syslist)
 
-    for ind, (G, sty) in enumerate(zip(syslist, style)):
+    for ind, (G, sty) in enumerate(zip(syslist, itertools.cycle(style))):
         # If multiple systems are given W is necessarily defined here.
         wi = w
         if w is None and len(syslist) > 1:
diff --git a/harold/_time_domain_plots.py b/harold/_time_domain_plots.py
index f057bc9..bf72d8a 100644
--- a/harold/_time_domain_plots.py
+++ b/harold/_time_domain_plots.py
@@ -1,3 +1,4 @@
+import itertools
 import numpy as np
 import matplotlib.pyplot as plt
 import matplotlib as mpl
@@ -93,7 +94,7 @@ def step_response_plot(sys, t=None, style=None, **kwargs):
     # compromise for the shorter ones. For now, just plot everything on top of
     # each other independently and cut to the shortest. Yes, it sucks; I know.
     tmin = np.inf
-    for sys, sty in zip(syslist, style):
+    for sys, sty in zip(syslist, itertools.cycle(style)):
         yout, tout = simulate_step_response(sys, t=t)
         tmin = np.min([tout[-1], tmin])
         if sys._isSISO:
-- 
2.43.0


From cb1601f515d8ec6faf4eae57c77b9394b48849fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:47:55 +0000
Subject: [PATCH 115/126] fix: use the given style in the impulse response plot

The style argument was ignored, and models with different numbers of
channels got different colors in different axes.
---
 harold/_time_domain_plots.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/harold/_time_domain_plots.py b/harold/_time_domain_plots.py
index bf72d8a..a48f874 100644
--- a/harold/_time_domain_plots.py
+++ b/harold/_time_domain_plots.py
@@ -187,14 +187,14 @@ def impulse_response_plot(sys, t=None, style=None, **kwargs):
     # compromise for the shorter ones. For now, just plot everything on top of
     # each other independently and cut to the shortest. Yes, it sucks; I know.
     tmin = np.inf
-    for sys in syslist:
+    for sys, sty in zip(syslist, itertools.cycle(style)):
         yout, tout = simulate_impulse_response(sys, t=t)
         tmin = np.min([tout[-1], tmin])
         if sys._isSISO:
             if sys._isdiscrete:
-                axs[0, 0].step(tout, yout, where='post')
+                axs[0, 0].step(tout, yout, where='post', **sty)
             else:
-                axs[0, 0].plot(tout, yout)
+                axs[0, 0].plot(tout, yout, **sty)
 
             axs[0, 0].grid(visible=True)
         else:
@@ -208,7 +208,9 @@ def impulse_response_plot(sys, t=None, style=None, **kwargs):
                 for col in range(ncols):
                     getattr(axs[row, col], ptype)(tout, yout[:, row, col]
                                                   if yout.ndim == 3
-                                                  else yout[:, row], **w_dict)
+                                                  else yout[:, row],
+                                                  **w_dict,
+                                                  **sty)
                     axs[row, col].grid(visible=True)
     axs[0, 0].set_xlim(left=0, right=tmin)
     fig.text(0, .5, 'Amplitude', ha='center', va='center', rotation='vertical')
-- 
2.43.0


From c58c1940b6788e15b73a923246a854f581969aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:47:55 +0000
Subject: [PATCH 116/126] fix: honor negative_freqs and style in the Nyquist
 plot

Both arguments were ignored.
---
 harold/_frequency_domain_plots.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/harold/_frequency_domain_plots.py b/harold/_frequency_domain_plots.py
index 1787776..2b2f467 100644
--- a/harold/_frequency_domain_plots.py
+++ b/harold/_frequency_domain_plots.py
@@ -365,8 +365,10 @@ def nyquist_plot(sys, w=None, use_hz=True, negative_freqs=True,
                     rdata = rr[row, col, :]
                     idata = ii[row, col, :]
 
-                axs[row, col].plot(rdata, idata, '-')
-                axs[row, col].plot(rdata, -idata, '-.')
+                axs[row, col].plot(rdata, idata, **{'linestyle': '-', **sty})
+                if negative_freqs:
+                    axs[row, col].plot(rdata, -idata,
+                                       **{**sty, 'linestyle': '-.'})
                 axs[row, col].plot([-1], [0], 'b+')
                 axs[row, col].grid(True, which='both')
                 # MIMO Labels and gridding
-- 
2.43.0


From d145d20d85ef89142ded679398c0fc93b95269c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:47:55 +0000
Subject: [PATCH 117/126] fix: leave the gridspec_kw argument of the plots
 unchanged

---
 harold/_frequency_domain_plots.py | 6 ++----
 harold/_time_domain_plots.py      | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/harold/_frequency_domain_plots.py b/harold/_frequency_domain_plots.py
index 2b2f467..6dfca52 100644
--- a/harold/_frequency_domain_plots.py
+++ b/harold/_frequency_domain_plots.py
@@ -154,8 +154,7 @@ def bode_plot(sys, w=None, use_db=False, use_hz=True, use_degree=True,
     if gridspec_kw is None:
         gridspec_kw = {'wspace': 0.5}
     else:
-        wspace = gridspec_kw.get('wspace', 0.5)
-        gridspec_kw['wspace'] = wspace
+        gridspec_kw = {'wspace': 0.5, **gridspec_kw}
 
     # MIMO plots needs a bit bigger figure, offer a saner default
     figsize = kwargs.pop('figsize', None)
@@ -314,8 +313,7 @@ def nyquist_plot(sys, w=None, use_hz=True, negative_freqs=True,
     if gridspec_kw is None:
         gridspec_kw = {'wspace': 0.5}
     else:
-        wspace = gridspec_kw.get('wspace', 0.5)
-        gridspec_kw['wspace'] = wspace
+        gridspec_kw = {'wspace': 0.5, **gridspec_kw}
 
     # MIMO plots needs a bit bigger figure, offer a saner default
     figsize = kwargs.pop('figsize', None)
diff --git a/harold/_time_domain_plots.py b/harold/_time_domain_plots.py
index a48f874..fa6405d 100644
--- a/harold/_time_domain_plots.py
+++ b/harold/_time_domain_plots.py
@@ -71,8 +71,7 @@ def step_response_plot(sys, t=None, style=None, **kwargs):
     if gridspec_kw is None:
         gridspec_kw = {'wspace': 0.5}
     else:
-        wspace = gridspec_kw.get('wspace', 0.5)
-        gridspec_kw['wspace'] = wspace
+        gridspec_kw = {'wspace': 0.5, **gridspec_kw}
 
     # MIMO plots needs a bit bigger figure, offer a saner default
     figsize = kwargs.pop('figsize', None)
@@ -165,8 +164,7 @@ def impulse_response_plot(sys, t=None, style=None, **kwargs):
     if gridspec_kw is None:
         gridspec_kw = {'wspace': 0.5}
     else:
-        wspace = gridspec_kw.get('wspace', 0.5)
-        gridspec_kw['wspace'] = wspace
+        gridspec_kw = {'wspace': 0.5, **gridspec_kw}
 
     # MIMO plots needs a bit bigger figure, offer a saner default
     figsize = kwargs.pop('figsize', None)
-- 
2.43.0


From f1f0bf5092d72c498ff5dd79e7c00f9de7408c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:37 +0000
Subject: [PATCH 118/126] fix: keep the Nyquist frequency in given frequency
 grids

Rounding in the conversion from Hz dropped the last point of a grid that
ends at the Nyquist frequency.
---
 harold/_frequency_domain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harold/_frequency_domain.py b/harold/_frequency_domain.py
index b31d94e..72dec9e 100644
--- a/harold/_frequency_domain.py
+++ b/harold/_frequency_domain.py
@@ -210,7 +210,8 @@ def _get_freq_grid(G, w, samples, iu, ou):
 
         # Discrete time behavior doesn't make sense beyond Nyquist freq.
         if isDiscrete:
-            w_out = w_u[w_u <= nyq_freq] if nyq_freq < np.max(w_u) else w_u
+            # but don't lose the Nyquist frequency itself by rounding
+            w_out = w_u[w_u <= nyq_freq*(1 + 10*eps)]
             if w_out.size < 1:
                 raise ValueError('There are no frequency points below the '
                                  'Nyquist frequency: {} Hz.'.format(0.5/dt))
-- 
2.43.0


From b8158abf6e58d0a32077194def5e74bfeed4f5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:29 +0000
Subject: [PATCH 119/126] fix: multiply single input Transfers with 1D arrays
 from the right

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index caf11b0..fd39045 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -904,7 +904,7 @@ class Transfer:
                 for c in range(tm):
                     t_G = Transfer(0, 1, dt=self._dt)
                     for ind in range(self._m):
-                        t_G += self[r, ind] * other[ind, [c]]
+                        t_G += self[r, ind] * arr[ind, [c]]
                     newnum[r][c] = t_G.num
                     newden[r][c] = t_G.den
 
-- 
2.43.0


From 320943625d4e0cd9ec031545112aabde99fd1f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:13:50 +0000
Subject: [PATCH 120/126] fix: make haroldgcd independent of the scaling of its
 arguments

The cleanup threshold is absolute, hence divisors of polynomials with
small coefficients or with small or large roots were wrong or raised
IndexError. Scale the variable and the polynomials beforehand.
---
 harold/_polynomial_ops.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index 5360e5a..c6ef0ad 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -262,6 +262,14 @@ def haroldgcd(*args):
     if p == 0:
         return np.array([1])
 
+    # The cleanup below should neither depend on the scaling of the variable
+    # nor of the polynomials. Hence bring the roots close to the unit circle.
+    mags = [np.trim_zeros(x, 'b') for x in arr_args]
+    mags = [np.log2(abs(x[-1]/x[0]))/(x.size-1) for x in mags if x.size > 1]
+    alpha = 2.**np.round(np.mean(mags)) if mags else 1.
+    arr_args = [x*alpha**-np.arange(x.size) for x in arr_args]
+    arr_args = [x/np.max(np.abs(x)) for x in arr_args]
+
     # pop out the max degree polynomial and zero pad
     # such that we have n+m columns
     S = np.array([np.hstack((
@@ -299,7 +307,7 @@ def haroldgcd(*args):
     # make it monic
     gcdpoly /= gcdpoly[0]
 
-    return gcdpoly
+    return gcdpoly*alpha**np.arange(gcdpoly.size)
 
 
 def haroldcompanion(somearray):
-- 
2.43.0


From 0784b43aa947ffbc1924d9e7b43994cc7795e3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:22:58 +0000
Subject: [PATCH 121/126] fix: find the relevant modes for the default
 simulation times

The left and right eigenvectors are complex, hence their inner product needs
a conjugate and its sign carries no information. Otherwise the slow modes are
mistaken for integrators and the responses are cut off too early. Also undo
the permutation of the balancing properly.
---
 harold/_time_domain.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index e226042..f9b2b72 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -378,13 +378,14 @@ def _compute_tfinal_and_dt(sys, is_step=True):
     p, l, r = eig(b, left=True, right=True)
     # Reciprocal of inner product <w,v> for each λ, (bound the ~infs by 1e12)
     # G = Transfer([1], [1,0,1]) gives zero sensitivity (bound by 1e-12)
-    eig_sens = reciprocal(maximum(1e-12, einsum('ij,ij->j', l, r).real))
+    eig_sens = reciprocal(maximum(1e-12,
+                                  np.abs(einsum('ij,ij->j', l.conj(), r))))
     eig_sens = minimum(1e12, eig_sens)
     # Tolerances
     p[np.abs(p) < 10 * p.size * np.spacing(eig_sens * norm(b, 1))] = 0.
     # Incorporate balancing to outer factors
-    l[perm, :] *= reciprocal(sca)[:, None]
-    r[perm, :] *= sca[:, None]
+    l[perm, :] = l * reciprocal(sca)[:, None]
+    r[perm, :] = r * sca[:, None]
     w, v = sys.c @ r, l.T.conj() @ sys.b
 
     origin = False
-- 
2.43.0


From 16a74a091199ca80f000fc54450d7e20334fa87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:31:54 +0000
Subject: [PATCH 122/126] fix: let transfer_to_state return matrices regardless
 of the case of 'output'

The option is checked after lowering but compared as it is given.
---
 harold/_classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index fd39045..abd757c 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -3031,6 +3031,8 @@ def transfer_to_state(G, output='system'):
         raise ValueError('The output can either be "system" or "polynomials".'
                          '\nI don\'t know any option as "{0}"'.format(output))
 
+    output = output.lower()
+
     # mildly check if we have a transfer,state, or (num,den)
     if isinstance(G, tuple):
         num, den = G
-- 
2.43.0


From b53d7e1775d28a14a4ab2577aa80ea515a75dacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:57:38 +0000
Subject: [PATCH 123/126] fix: use the product when the least common multiple
 is not divisible by its arguments

---
 harold/_polynomial_ops.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index c6ef0ad..dc617a7 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -90,6 +90,10 @@ def haroldlcm(*args, compute_multipliers=True, cleanup_threshold=1e-9):
         else:
             return np.array([1.])
 
+    # The multipliers are needed for assessing the result
+    if not compute_multipliers:
+        return haroldlcm(*args, cleanup_threshold=cleanup_threshold)[0]
+
     # Remove if there are constant polynomials but return their multiplier!
     poppedargs = [x for x in args if x.size > 1]
     # Get the index number of the ones that are popped
@@ -165,6 +169,17 @@ def haroldlcm(*args, compute_multipliers=True, cleanup_threshold=1e-9):
                                                     -lcmpoly[-x-1:n_lcm+1]
             # C*adj(sI-A)*B
             mults = c_lcm @ np.sum(adjA * b_lcm, axis=1)
+
+            # If the roots are almost common or far apart from each other,
+            # the rank decision above can be wrong. Then use the product.
+            tol = 1e-8 + 10*np.spacing(np.max(np.abs(lcmpoly)))
+            for x, y in zip(poppedargs, mults):
+                x, y = x/x[0], y[x.size-2:]
+                if y.size == 0 or np.any(
+                        np.abs(np.convolve(x, y) - lcmpoly) >
+                        1e-8*np.convolve(np.abs(x), np.abs(y)) + tol):
+                    lcmpoly, mults = _product_multiple(poppedargs)
+                    break
         else:
             mults = np.zeros((1, n_lcm))
             mults[0, -1] = 1.
@@ -189,6 +204,18 @@ def haroldlcm(*args, compute_multipliers=True, cleanup_threshold=1e-9):
     return (lcmpoly, mults) if compute_multipliers else lcmpoly
 
 
+def _product_multiple(polys):
+    """Monic product of the polynomials and the multipliers to arrive at it"""
+    monic = [x/x[0] for x in polys]
+    product = haroldpolymul(*monic)
+    mults = np.zeros((len(polys), product.size-1))
+    for ind in range(len(polys)):
+        mult = haroldpolymul(*monic[:ind], *monic[ind+1:])
+        mults[ind, -mult.size:] = mult
+
+    return product, mults
+
+
 def haroldgcd(*args):
     """
     Takes 1D numpy arrays and computes the numerical greatest common
-- 
2.43.0


From a774921f69626e46e84b3d6e1c9a343c16755b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:13:45 +0000
Subject: [PATCH 124/126] fix: keep small numerator coefficients of slow models
 in transfer_to_state

---
 harold/_classes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index abd757c..a1f75b6 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -3086,7 +3086,8 @@ def transfer_to_state(G, output='system'):
             # Watch out for full cancellation !!
             NumOrEmpty, datanum = haroldpolydiv(num, den)
             # Clean up the tiny entries
-            datanum[np.abs(datanum) < spacing(100.)] = 0.
+            noise = spacing(100.)*np.abs(num[num.size-datanum.size:])
+            datanum[np.abs(datanum) < noise] = 0.
 
             # If all cancelled datanum is returned empty
             if datanum.size == 0:
@@ -3123,9 +3124,11 @@ def transfer_to_state(G, output='system'):
                 elif nd > nn:  # Case 2 : D[x,y] is trivially zero
                     pass  # D[x,y] is already 0.
                 else:
+                    noise = spacing(100.)*np.abs(datanum)
                     NumOrEmpty, datanum = haroldpolydiv(datanum, dataden)
                     # Clean up the tiny entries
-                    datanum[np.abs(datanum) < spacing(100.)] = 0.
+                    noise = noise[noise.size-datanum.size:]
+                    datanum[np.abs(datanum) < noise] = 0.
 
                     # Case 3: If all cancelled datanum is returned empty
                     if np.count_nonzero(datanum) == 0:
-- 
2.43.0


From 64913ac1ef5800ee2fdb3a20170db585e2bb6df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:15:00 +0000
Subject: [PATCH 125/126] fix: judge the damping of slow oscillations relative
 to their frequency

The automatic time grid of step and impulse responses treated a complex pole as
undamped when its real part was below an absolute threshold. Slow models then got
a horizon of five cycles instead of one that lasts until the response has decayed.
---
 harold/_time_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index f9b2b72..4446bd3 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -413,7 +413,7 @@ def _compute_tfinal_and_dt(sys, is_step=True):
 
     tfinal, dt = [], []
     ints = wnsub == 0.
-    iw = (psub.imag != 0.) & (np.abs(psub.real) <= sqrt_eps)
+    iw = (psub.imag != 0.) & (np.abs(psub.real) <= sqrt_eps*wnsub)
 
     # Pure imaginary?
     if np.any(iw):
-- 
2.43.0


From c35e4623fe4af341922dafe58f7bfe3b0283c7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:25:28 +0000
Subject: [PATCH 126/126] fix: choose the automatic time grid from all modes
 when none reaches the output

A model whose input or output matrix is zero has no dominant mode. The default
horizon was then used whatever the poles, and a fast unstable pole overflowed.
---
 harold/_time_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index 4446bd3..7e25e47 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -407,7 +407,7 @@ def _compute_tfinal_and_dt(sys, is_step=True):
     dc[p.imag != 0.] *= 2
 
     # Now get rid of noncontributing integrators and simple modes if any
-    relevance = (dc > 0.1*dc.max()) | ~ok
+    relevance = (dc >= 0.1*dc.max()) | ~ok
     psub = p[relevance]
     wnsub = wn[relevance]
 
-- 
2.43.0

