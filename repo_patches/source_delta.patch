From 9d0d98489018e372d8734f853cadb72503f1422c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:24 +0000
Subject: [PATCH 01/17] fix: keep free values of doubly bounded arrays within
 their bounds

Folding a free value above 709 overflowed to nan, and for roughly a quarter
of (lb, ub) pairs rounding put large free values above ub, so the pattern
rejected its own folded value.
---
 paragami/numeric_array_patterns.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/paragami/numeric_array_patterns.py b/paragami/numeric_array_patterns.py
index 83ea445..7754ad6 100644
--- a/paragami/numeric_array_patterns.py
+++ b/paragami/numeric_array_patterns.py
@@ -107,8 +107,11 @@ def _constrain_array(free_array, lb, ub):
         if lb == -float("inf"):
             return ub - np.exp(-1 * free_array)
         else:
-            exp_vec = np.exp(free_array)
-            return (ub - lb) * exp_vec / (1 + exp_vec) + lb
+            # This form of the logistic function does not overflow, and
+            # rounding must not push the result above the upper bound.
+            logistic = np.exp(-1 * np.logaddexp(0.0, -1 * free_array))
+            array = (ub - lb) * logistic + lb
+            return np.where(array > ub, ub, array)
 
 
 class NumericArrayPattern(Pattern):
-- 
2.43.0


From e38f87ac7b61302b6e3de94db228b1c554114970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:24 +0000
Subject: [PATCH 02/17] fix: normalize simplexes accurately for large free
 values

For free values of magnitude 1e5 or more the folded simplex did not sum to
one to within the tolerance that the pattern itself enforces.
---
 paragami/simplex_patterns.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index 78ca980..f085d29 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -29,6 +29,11 @@ def _constrain_simplex_matrix(free_mat):
     reference_col = np.expand_dims(np.full(free_mat.shape[0:-1], 0), axis=-1)
     free_mat_aug = np.concatenate([reference_col, free_mat], axis=-1)
 
+    # Shift the largest entry to zero so that no precision is lost to the
+    # magnitude of the free values in the normalization below.
+    free_mat_aug = \
+        free_mat_aug - np.max(free_mat_aug, axis=-1, keepdims=True)
+
     # Note that autograd needs to update their logsumexp to be in special
     # not misc before this can be changed.  Furthermore, logsumexp is
     # not even available in the pypi version of autograd.
-- 
2.43.0


From a0f6a03df896ac3ce2f2832a0ec6c35019ee5868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:24 +0000
Subject: [PATCH 03/17] fix: report a bad shape from validate_folded instead of
 raising

validate_folded is documented to return a boolean and a message.  The PSD
matrix and simplex patterns raised ValueError for a wrong shape.
---
 paragami/psdmatrix_patterns.py | 2 +-
 paragami/simplex_patterns.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/paragami/psdmatrix_patterns.py b/paragami/psdmatrix_patterns.py
index 43affc4..db2c3ad 100644
--- a/paragami/psdmatrix_patterns.py
+++ b/paragami/psdmatrix_patterns.py
@@ -272,7 +272,7 @@ class PSDSymmetricMatrixPattern(Pattern):
         """
         shape_ok, err_msg = self._validate_folded_shape(folded_val)
         if not shape_ok:
-            raise ValueError(err_msg)
+            return shape_ok, err_msg
 
         if validate_value is None:
             validate_value = self.default_validate
diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index f085d29..4268809 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -152,7 +152,7 @@ class SimplexArrayPattern(Pattern):
     def validate_folded(self, folded_val, validate_value=None):
         shape_ok, err_msg = self._validate_folded_shape(folded_val)
         if not shape_ok:
-            raise ValueError(err_msg)
+            return shape_ok, err_msg
         if validate_value is None:
             validate_value = self.default_validate
         if validate_value:
-- 
2.43.0


From 9c37b30c8b9c527c0c798475bf51a9a50543c7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:24 +0000
Subject: [PATCH 04/17] fix: return an ndarray for dense simplex Jacobians

They were numpy.matrix, for which * and shapes of products differ from the
documented dense 2d array that every other pattern returns.
---
 paragami/simplex_patterns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index 4268809..a6bd997 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -199,7 +199,7 @@ class SimplexArrayPattern(Pattern):
         if sparse:
             return sp_jac
         else:
-            return sp_jac.todense()
+            return np.array(sp_jac.todense())
 
     def unfreeing_jacobian(self, folded_val, sparse=True):
         array_ranges = [ range(i) for i in self.__array_shape ]
@@ -212,7 +212,7 @@ class SimplexArrayPattern(Pattern):
         if sparse:
             return sp_jac
         else:
-            return sp_jac.todense()
+            return np.array(sp_jac.todense())
 
     @classmethod
     def from_json(cls, json_string):
-- 
2.43.0


From 0ab9a10ee57d4bee79fa1dfdd3c989e080da7e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:24 +0000
Subject: [PATCH 05/17] fix: reject flat values of the wrong dimension in
 SimplexArrayPattern.fold

Other patterns require a 1d vector; the simplex pattern silently accepted
(N, 1, ...) arrays and raised TypeError for scalars.
---
 paragami/simplex_patterns.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index a6bd997..00f0bcb 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -166,6 +166,9 @@ class SimplexArrayPattern(Pattern):
     def fold(self, flat_val, free=None, validate_value=None):
         free = self._free_with_default(free)
         flat_size = self.flat_length(free)
+        flat_val = np.atleast_1d(flat_val)
+        if len(flat_val.shape) != 1:
+            raise ValueError('The argument to fold must be a 1d vector.')
         if len(flat_val) != flat_size:
             raise ValueError('flat_val is the wrong length.')
         if free:
-- 
2.43.0


From 3b6192c66d72f405da38f636f18b1ad4632ae8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:24 +0000
Subject: [PATCH 06/17] fix: keep free_default when patterns are converted to
 and from JSON

as_dict is to describe a pattern completely, but only the numeric array
patterns included free_default, so that it was lost on saving and loading
PSD matrices, simplexes, dictionaries and pattern arrays.
---
 paragami/pattern_containers.py | 11 +++++++----
 paragami/psdmatrix_patterns.py |  3 ++-
 paragami/simplex_patterns.py   |  6 ++++--
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 20c06c0..8954a25 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -206,7 +206,8 @@ class PatternDict(Pattern):
         return {
             'pattern': self.json_typename(),
             'keys': keys,
-            'contents': contents}
+            'contents': contents,
+            'free_default': self.free_default}
 
     def _check_lock(self):
         if self.__lock:
@@ -376,7 +377,7 @@ class PatternDict(Pattern):
                  'pattern type was {}.').format(
                     cls.json_typename(), json_dict['pattern'])
             raise ValueError(error_string)
-        pattern_dict = cls()
+        pattern_dict = cls(free_default=json_dict.get('free_default'))
         for pattern_name in json_dict['keys']:
             pattern_dict[pattern_name] = get_pattern_from_json(
                 json_dict['contents'][pattern_name])
@@ -487,7 +488,8 @@ class PatternArray(Pattern):
             'pattern': self.json_typename(),
             'shape': self.__shape,
             'array_shape': self.__array_shape,
-            'base_pattern': self.__base_pattern.to_json() }
+            'base_pattern': self.__base_pattern.to_json(),
+            'free_default': self.free_default }
 
     def array_shape(self):
         """The shape of the array of parameters.
@@ -639,7 +641,8 @@ class PatternArray(Pattern):
             raise ValueError(error_string)
         base_pattern = get_pattern_from_json(json_dict['base_pattern'])
         return cls(
-            array_shape=json_dict['array_shape'], base_pattern=base_pattern)
+            array_shape=json_dict['array_shape'], base_pattern=base_pattern,
+            free_default=json_dict.get('free_default'))
 
     def flat_indices(self, folded_bool, free=None):
         free = self._free_with_default(free)
diff --git a/paragami/psdmatrix_patterns.py b/paragami/psdmatrix_patterns.py
index db2c3ad..45a1efa 100644
--- a/paragami/psdmatrix_patterns.py
+++ b/paragami/psdmatrix_patterns.py
@@ -212,7 +212,8 @@ class PSDSymmetricMatrixPattern(Pattern):
             'pattern': self.json_typename(),
             'size': self.__size,
             'diag_lb': self.__diag_lb,
-            'default_validate': self.default_validate}
+            'default_validate': self.default_validate,
+            'free_default': self.free_default}
 
     def size(self):
         """Returns the matrix size.
diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index 00f0bcb..07bbabb 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -135,7 +135,8 @@ class SimplexArrayPattern(Pattern):
             'pattern': self.json_typename(),
             'simplex_size': self.__simplex_size,
             'array_shape': self.__array_shape,
-            'default_validate': self.default_validate}
+            'default_validate': self.default_validate,
+            'free_default': self.free_default}
 
     def empty(self, valid):
         if valid:
@@ -227,7 +228,8 @@ class SimplexArrayPattern(Pattern):
         return cls(
             simplex_size=json_dict['simplex_size'],
             array_shape=tuple(json_dict['array_shape']),
-            default_validate=json_dict['default_validate'])
+            default_validate=json_dict['default_validate'],
+            free_default=json_dict.get('free_default'))
 
     def flat_indices(self, folded_bool, free=None):
         # If no indices are specified, save time and return an empty array.
-- 
2.43.0


From dd0fcc741cd01736862ea9dc1978923407a5f5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:24 +0000
Subject: [PATCH 07/17] fix: log a copy of the argument of the objective

An optimizer that updates its iterate in place changed every logged x.
---
 paragami/optimization_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paragami/optimization_lib.py b/paragami/optimization_lib.py
index ea2a538..1dbcf1b 100644
--- a/paragami/optimization_lib.py
+++ b/paragami/optimization_lib.py
@@ -458,7 +458,8 @@ class OptimizationObjective():
         f_val:
             The value of the objective at ``x``.
         """
-        self.optimization_log.append((num_f_evals, x, f_val))
+        # The optimizer may go on to change x in place.
+        self.optimization_log.append((num_f_evals, copy.copy(x), f_val))
 
     def f(self, x):
         f_val = self._objective_fun(x)
-- 
2.43.0


From 5e89056acaa5a3996f751af1a18963ca79967801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:24 +0000
Subject: [PATCH 08/17] fix: truncate integer eigenvalues without rounding the
 bounds

truncate_eigenvalues(np.array([1, 2]), ev_min=1.5) returned 1, which is
below ev_min, because the bound was cast to the integer dtype.
---
 paragami/optimization_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paragami/optimization_lib.py b/paragami/optimization_lib.py
index 1dbcf1b..09d7bff 100644
--- a/paragami/optimization_lib.py
+++ b/paragami/optimization_lib.py
@@ -31,7 +31,8 @@ def truncate_eigenvalues(evals, ev_min=None, ev_max=None):
     eig_val_trunc
         A truncated version of ``evals``.
     """
-    eig_val_trunc = copy.deepcopy(evals)
+    # Integers could not represent the truncation values.
+    eig_val_trunc = np.array(evals, dtype=np.result_type(evals, float))
     if not ev_min is None:
         if not np.isreal(ev_min):
             raise ValueError('ev_min must be real-valued.')
-- 
2.43.0


From f285eaa3dbe8e45467dfcfcf70e4f8a03f8499d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:29 +0000
Subject: [PATCH 09/17] fix: do not lose the diagonal of a PSD matrix to
 rounding when it is very large or small

---
 paragami/psdmatrix_patterns.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/paragami/psdmatrix_patterns.py b/paragami/psdmatrix_patterns.py
index 45a1efa..a6b04a0 100644
--- a/paragami/psdmatrix_patterns.py
+++ b/paragami/psdmatrix_patterns.py
@@ -125,8 +125,8 @@ def _exp_matrix_diagonal(mat):
     # NB: make_diagonal() is only defined in the autograd version of numpy
     mat_exp_diag = np.make_diagonal(
         np.exp(np.diag(mat)), offset=0, axis1=-1, axis2=-2)
-    mat_diag = np.make_diagonal(np.diag(mat), offset=0, axis1=-1, axis2=-2)
-    return mat_exp_diag + mat - mat_diag
+    # Adding and subtracting the diagonal would lose it to rounding.
+    return mat_exp_diag + mat * (1 - np.eye(mat.shape[0]))
 
 
 def _log_matrix_diagonal(mat):
@@ -134,8 +134,8 @@ def _log_matrix_diagonal(mat):
     # NB: make_diagonal() is only defined in the autograd version of numpy
     mat_log_diag = np.make_diagonal(
         np.log(np.diag(mat)), offset=0, axis1=-1, axis2=-2)
-    mat_diag = np.make_diagonal(np.diag(mat), offset=0, axis1=-1, axis2=-2)
-    return mat_log_diag + mat - mat_diag
+    # Adding and subtracting the diagonal would lose it to rounding.
+    return mat_log_diag + mat * (1 - np.eye(mat.shape[0]))
 
 
 def _pack_posdef_matrix(mat, diag_lb=0.0):
-- 
2.43.0


From b1319bb221f000fce11248cd1ca1e987abcc6e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:23 +0000
Subject: [PATCH 10/17] fix: evaluate the Jacobian of doubly bounded arrays
 accurately near the bounds

---
 paragami/numeric_array_patterns.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/paragami/numeric_array_patterns.py b/paragami/numeric_array_patterns.py
index 7754ad6..0d786e0 100644
--- a/paragami/numeric_array_patterns.py
+++ b/paragami/numeric_array_patterns.py
@@ -72,9 +72,12 @@ def _constrain_array_jacobian(free_array, lb, ub):
         else:
             # d/dx exp(x) / (1 + exp(x)) =
             #    exp(x) / (1 + exp(x)) - exp(x) ** 2 / (1 + exp(x)) ** 2
-            exp_vec = np.exp(free_array)
-            ratio = exp_vec / (1 + exp_vec)
-            return (ub - lb) * ratio * (1 - ratio)
+            #
+            # The logarithms of the two factors, exp(x) / (1 + exp(x)) and
+            # 1 / (1 + exp(x)), neither overflow nor cancel near the bounds.
+            return (ub - lb) * np.exp(
+                -1 * np.logaddexp(0.0, -1 * free_array)
+                - np.logaddexp(0.0, free_array))
 
 
 def _get_inbounds_value(lb, ub):
-- 
2.43.0


From 6ad6a215d233531aa92e53f67905c1275fd77920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:52 +0000
Subject: [PATCH 11/17] fix: invert one by one sparse preconditioners

---
 paragami/optimization_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paragami/optimization_lib.py b/paragami/optimization_lib.py
index 09d7bff..0f0587c 100644
--- a/paragami/optimization_lib.py
+++ b/paragami/optimization_lib.py
@@ -200,7 +200,8 @@ class PreconditionedFunction():
         """
         if osp.sparse.issparse(a):
             if a_inv is None:
-                a_inv = osp.sparse.linalg.inv(a)
+                # The inverse of a one by one matrix is returned as a vector.
+                a_inv = osp.sparse.csc_matrix(osp.sparse.linalg.inv(a))
             a_times, _ = get_sparse_product(a)
             a_inv_times, _ = get_sparse_product(a_inv)
             self.set_preconditioner_functions(a_times, a_inv_times)
-- 
2.43.0


From af1bdcdca1af653ab442babb4444e03533e01806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:19 +0000
Subject: [PATCH 12/17] fix: do not accept undefined results in
 check_preconditioner

---
 paragami/optimization_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paragami/optimization_lib.py b/paragami/optimization_lib.py
index 0f0587c..2b5b187 100644
--- a/paragami/optimization_lib.py
+++ b/paragami/optimization_lib.py
@@ -231,7 +231,7 @@ class PreconditionedFunction():
 
     def check_preconditioner(self, vec, tol=1e-8):
         err = np.linalg.norm(vec - self._a_times(self._a_inv_times(vec)))
-        if err > tol:
+        if not err <= tol:  # An error of nan is not within the tolerance.
             raise ValueError(
                 ('``a_times`` does not invert ``a_inv_times``.  ' +
                 'Error {} > tol {}').format(err, tol))
-- 
2.43.0


From 6026ee20f27fbdac6099585ff279f16d231b71df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:52 +0000
Subject: [PATCH 13/17] fix: empty dictionaries could not be flattened, named
 or differentiated

An empty dictionary, on its own or as a member, has flat length zero, but
flattening, naming and the Jacobians raised IndexError or ValueError, and
the length of a dictionary whose members were all deleted was a float,
which random and empty_bool cannot use.
---
 paragami/pattern_containers.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 8954a25..43afb1a 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -318,13 +318,15 @@ class PatternDict(Pattern):
                     free=free,
                     validate_value=validate_value))
             #offset += pattern_flat_length
+        if len(flat_vals) == 0:
+            return np.array([])
         return np.hstack(flat_vals)
 
     def _update_flat_length(self, free):
         # This is a little wasteful with the benefit of being less error-prone
         # than adding and subtracting lengths as keys are changed.
         return np.sum([pattern.flat_length(free) for pattern_name, pattern in
-                       self.__pattern_dict.items()])
+                       self.__pattern_dict.items()], dtype=int)
 
     def unfreeing_jacobian(self, folded_val, sparse=True):
         jacobians = []
@@ -333,6 +335,8 @@ class PatternDict(Pattern):
                 folded_val[pattern_name], sparse=True)
             jacobians.append(jac)
 
+        if len(jacobians) == 0:
+            jacobians.append(np.zeros((0, 0)))
         sp_jac = block_diag(jacobians, format='coo')
 
         if sparse:
@@ -347,6 +351,8 @@ class PatternDict(Pattern):
                 folded_val[pattern_name], sparse=True)
             jacobians.append(jac)
 
+        if len(jacobians) == 0:
+            jacobians.append(np.zeros((0, 0)))
         sp_jac = block_diag(jacobians, format='coo')
         if sparse:
             return sp_jac
@@ -414,6 +420,8 @@ class PatternDict(Pattern):
             pattern_flat_names = \
                 [ pattern_name + delim + t for t in pattern_flat_names]
             flat_names_list.append(pattern_flat_names)
+        if len(flat_names_list) == 0:
+            return np.array([], dtype=str)
         return np.hstack(flat_names_list)
 
 
-- 
2.43.0


From ca12add7c055d6caf3829436e3259fc719e2c8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:52 +0000
Subject: [PATCH 14/17] fix: validation accepted nan in bounded arrays and
 simplexes

Comparisons with nan are false, so that a nan was neither beneath nor above
a bound, and a simplex containing one neither negative nor badly
normalized.  Matrices already refuse it, and unbounded arrays still accept
it.
---
 paragami/numeric_array_patterns.py | 4 ++++
 paragami/simplex_patterns.py       | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/paragami/numeric_array_patterns.py b/paragami/numeric_array_patterns.py
index 0d786e0..c1e25cd 100644
--- a/paragami/numeric_array_patterns.py
+++ b/paragami/numeric_array_patterns.py
@@ -207,6 +207,10 @@ class NumericArrayPattern(Pattern):
         if validate_value is None:
             validate_value = self.default_validate
         if validate_value:
+            # Comparing nan with either bound gives false.
+            bounded = self._lb > -float('inf') or self._ub < float('inf')
+            if bounded and (np.array(folded_val != folded_val)).any():
+                return False, 'Value is not a number.'
             if (np.array(folded_val < self._lb)).any():
                 return False, 'Value beneath lower bound.'
             if (np.array(folded_val > self._ub)).any():
diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index 07bbabb..4deb95d 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -157,6 +157,9 @@ class SimplexArrayPattern(Pattern):
         if validate_value is None:
             validate_value = self.default_validate
         if validate_value:
+            # The comparisons below are false for nan.
+            if np.any(folded_val != folded_val):
+                return False, 'Some values are not numbers.'
             if np.any(folded_val < 0):
                 return False, 'Some values are negative.'
             simplex_sums = np.sum(folded_val, axis=-1)
-- 
2.43.0


From c5067bc6a590d41da526153954e28e5b9ff94bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:07 +0000
Subject: [PATCH 15/17] fix: patterns with numpy sizes or bounds could not be
 converted to JSON

Sizes and bounds are often computed with numpy, and json refuses numpy
scalars other than double precision numbers.
---
 paragami/base_patterns.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/paragami/base_patterns.py b/paragami/base_patterns.py
index 482d5c7..bdbef18 100644
--- a/paragami/base_patterns.py
+++ b/paragami/base_patterns.py
@@ -4,6 +4,14 @@ import json
 import numpy as np
 from scipy.sparse import coo_matrix
 
+def _numpy_to_json(obj):
+    # Convert numpy scalars, which json does not know how to serialize.
+    if isinstance(obj, np.generic):
+        return obj.item()
+    raise TypeError('Object of type {} is not JSON serializable'.format(
+        type(obj).__name__))
+
+
 class Pattern(ABC):
     """A abstract class for a parameter pattern.
 
@@ -367,7 +375,7 @@ class Pattern(ABC):
         ------------
         Pattern.from_json
         """
-        return json.dumps(self.as_dict())
+        return json.dumps(self.as_dict(), default=_numpy_to_json)
 
     def flat_names(self, free):
         """Return a tidy named vector for the flat values.
-- 
2.43.0


From 3c9a2eb9ba1e146def333496cc0ada85f185fe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:07 +0000
Subject: [PATCH 16/17] fix: members of types derived from PatternDict were not
 locked

Changing such a member left its parent with outdated flat lengths.
---
 paragami/pattern_containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 43afb1a..2e170a5 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -226,7 +226,7 @@ class PatternDict(Pattern):
         # since we have no way of updating the parent dictionary's size.
         # To avoid unexpected errors, lock any dictionary that is set as
         # a member.
-        if type(self.__pattern_dict[pattern_name]) is PatternDict:
+        if isinstance(self.__pattern_dict[pattern_name], PatternDict):
             self.__pattern_dict[pattern_name].lock()
 
         self._free_flat_length = self._update_flat_length(free=True)
-- 
2.43.0


From 5e8938b1db86f63e00f6d17890ade69a091f7ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:11 +0000
Subject: [PATCH 17/17] fix: raise ValueError for missing return values of
 callables without a name

---
 paragami/function_patterns.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/paragami/function_patterns.py b/paragami/function_patterns.py
index c10a421..0badee7 100644
--- a/paragami/function_patterns.py
+++ b/paragami/function_patterns.py
@@ -222,7 +222,8 @@ class TransformFunctionOutput:
             if not self._retnums == [0]:
                 err_msg = ('{} returned only one value, but multiple' +
                            'retnums were specified: {}'.format(
-                            self._fun.__name__, self._retnums))
+                            getattr(self._fun, '__name__', self._fun),
+                            self._retnums))
                 raise ValueError(err_msg)
             if self._original_is_flat:
                 return self._patterns[0].fold(rets, free=self.free[0])
@@ -237,7 +238,7 @@ class TransformFunctionOutput:
             if len(rets) <= retnum:
                 err_msg = ('Not enough return values in {} ({}) for' +
                            'specified retnums {}.'.format(
-                            self._fun.__name__,
+                            getattr(self._fun, '__name__', self._fun),
                             len(rets),
                             self._retnums))
                 raise ValueError(err_msg)
-- 
2.43.0

