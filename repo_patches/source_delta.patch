From 7c72c66b3840007773c32231cced5f695e52d922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:23 +0000
Subject: [PATCH 01/30] fix: accumulate 2D posterior scores in int64

The score started from a python int, so adding int8 data entries made the
accumulator int8 and wrapped it around beyond +-127 (e.g. -56 instead of 200
for 200 explained entries); the int16 jit return type was too small as well.
---
 lom/_numba/posterior_score_fcts.py | 32 +++++++++++++++---------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/lom/_numba/posterior_score_fcts.py b/lom/_numba/posterior_score_fcts.py
index 51cae44..d47bf13 100644
--- a/lom/_numba/posterior_score_fcts.py
+++ b/lom/_numba/posterior_score_fcts.py
@@ -8,7 +8,7 @@ from numba import jit
 from numba.types import int64
 
 # OR-AND
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_OR_AND_2D(Z_n, U, X_n, l):
     """
     Return count of correct/incorrect explanations
@@ -18,7 +18,7 @@ def posterior_score_OR_AND_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         if U[d, l] != 1:  # AND
             continue
@@ -71,7 +71,7 @@ def posterior_score_OR_AND_3D(Z_n, U, V, X_n, l):
 
 
 # XOR-AND
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_XOR_AND_2D(Z_n, U, X_n, l):
     """
     Return count of correct/incorrect explanations
@@ -81,7 +81,7 @@ def posterior_score_XOR_AND_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         if U[d, l] != 1:  # AND
             continue
@@ -141,7 +141,7 @@ def posterior_score_XOR_AND_3D(Z_n, U, V, X_n, l):
 
 
 # XOR-NAND
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_XOR_NAND_2D(Z_n, U, X_n, l):
     """
     Return count of correct/incorrect explanations
@@ -151,7 +151,7 @@ def posterior_score_XOR_NAND_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         if U[d, l] != 1:  # AND
             continue
@@ -206,7 +206,7 @@ def posterior_score_XOR_NAND_3D(Z_n, U, V, X_n, l):
 
 
 # OR-NAND
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_OR_NAND_2D(Z_n, U, X_n, l):
     """
     Return count of correct/incorrect explanations
@@ -216,7 +216,7 @@ def posterior_score_OR_NAND_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         if U[d, l] == -1:  # NAND
             continue
@@ -262,7 +262,7 @@ def posterior_score_OR_NAND_3D(Z_n, U, V, X_n, l):
 
 
 # OR-XOR
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_OR_XOR_2D(Z_n, U, X_n, l):
     """
     Return count of correct/incorrect explanations
@@ -272,7 +272,7 @@ def posterior_score_OR_XOR_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
 
         explained_away = False
@@ -313,11 +313,11 @@ def posterior_score_OR_XOR_3D(Z_n, U, V, X_n, l):
 
 
 # NAND-XOR
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_NAND_XOR_2D(Z_n, U, X_n, l):
 
     D, L = U.shape
-    score = 0
+    score = int64(0)
     for d in range(D):
 
         explained_away = False
@@ -357,12 +357,12 @@ def posterior_score_NAND_XOR_3D(Z_n, U, V, X_n, l):
 
 
 # XOR-XOR
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_XOR_XOR_2D(Z_n, U, X_n, l):
 
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         num_active = np.int8(0)
         for l_prime in range(L):
@@ -408,11 +408,11 @@ def posterior_score_XOR_XOR_3D(Z_n, U, V, X_n, l):
 
 
 # XOR-NXOR
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_XOR_NXOR_2D(Z_n, U, X_n, l):
 
     D, L = U.shape
-    score = 0
+    score = int64(0)
 
     for d in range(D):
         num_active = np.int8(0)
-- 
2.43.0


From e310a115687bea79dfaa4e007850a973851b0400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:33 +0000
Subject: [PATCH 02/30] fix: pass the current entry to the flip in 3D layers
 with a parent

The closing parenthesis was misplaced: the sampler of a factor with a
three-factor child layer and one parent layer raised a TypeError.
---
 lom/_numba/matrix_updates_numba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 15b7210..4d30e13 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -230,7 +230,7 @@ def make_sampling_fct_onechild_oneparent(model, parent_model):
                         parent_posterior_score_fct(pa1[n, :], pa2[l, :])
 
                     Z[n, l] = flip_metropolised_gibbs_numba(
-                        logit_score + logit_parent_score + logit_prior), Z[n, l]
+                        logit_score + logit_parent_score + logit_prior, Z[n, l])
 
     return sampling_fct
 
-- 
2.43.0


From 9f116473ed3302a490c5bfee87e1f58210699217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:33 +0000
Subject: [PATCH 03/30] fix: use each parent layer's own model in two-parent
 samplers

Both parent contributions were computed with the second parent's model,
because one variable was assigned twice.
---
 lom/_numba/matrix_updates_numba.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 4d30e13..468d88c 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -280,8 +280,8 @@ def make_sampling_fct_nochild_oneparent(parent_model):
 
 def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
 
-    parent_posterior_score_fct = get_parent_score_fct(parent_model_1)
-    parent_posterior_score_fct = get_parent_score_fct(parent_model_2)
+    parent_posterior_score_fct_1 = get_parent_score_fct(parent_model_1)
+    parent_posterior_score_fct_2 = get_parent_score_fct(parent_model_2)
 
     if parent_model_1[-2:] == '2D' and parent_model_2[-2:] == '2D':
         @jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], ' +
@@ -298,10 +298,10 @@ def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
                         continue
 
                     logit_parent_score_1 = lbda_pa1 *\
-                        parent_posterior_score_fct(pa1_1[n, :], pa1_2[l, :])
+                        parent_posterior_score_fct_1(pa1_1[n, :], pa1_2[l, :])
 
                     logit_parent_score_2 = lbda_pa2 *\
-                        parent_posterior_score_fct(pa2_1[n, :], pa2_2[l, :])
+                        parent_posterior_score_fct_2(pa2_1[n, :], pa2_2[l, :])
 
                     Z[n, l] = flip_metropolised_gibbs_numba(
                         logit_parent_score_1 + logit_parent_score_2 + logit_prior,
@@ -323,11 +323,11 @@ def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
                             continue
 
                         logit_parent_score_1 = lbda_pa1 *\
-                            parent_posterior_score_fct(
+                            parent_posterior_score_fct_1(
                                 pa1_1[n, :], pa1_2[d, :], pa1_3[m, :])
 
                         logit_parent_score_2 = lbda_pa2 *\
-                            parent_posterior_score_fct(
+                            parent_posterior_score_fct_2(
                                 pa2_1[n, :], pa2_2[d, :], pa2_3[m, :])
 
                         Z[n, d, m] = flip_metropolised_gibbs_numba(
@@ -342,8 +342,8 @@ def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
 def make_sampling_fct_onechild_twoparents(model, parent_model_1, parent_model_2):
 
     posterior_score_fct = get_posterior_score_fct(model)
-    parent_posterior_score_fct = get_parent_score_fct(parent_model_1)
-    parent_posterior_score_fct = get_parent_score_fct(parent_model_2)
+    parent_posterior_score_fct_1 = get_parent_score_fct(parent_model_1)
+    parent_posterior_score_fct_2 = get_parent_score_fct(parent_model_2)
 
     if model[-2:] == '2D':
         @jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64,' +
@@ -365,10 +365,10 @@ def make_sampling_fct_onechild_twoparents(model, parent_model_1, parent_model_2)
                         posterior_score_fct(Z[n, :], U, X[n, :], l)  # V?
 
                     logit_parent_score_1 = lbda_pa1 *\
-                        parent_posterior_score_fct(pa1_1[n, :], pa1_2[l, :])
+                        parent_posterior_score_fct_1(pa1_1[n, :], pa1_2[l, :])
 
                     logit_parent_score_2 = lbda_pa2 *\
-                        parent_posterior_score_fct(pa2_1[n, :], pa2_2[l, :])
+                        parent_posterior_score_fct_2(pa2_1[n, :], pa2_2[l, :])
 
                     Z[n, l] = flip_metropolised_gibbs_numba(
                         logit_score + logit_parent_score_1 +
-- 
2.43.0


From cb0c18b4c7528ba54733d17f86a41d3779718c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:33 +0000
Subject: [PATCH 04/30] fix: reject matrices with more than two parent layers

The test was unreachable, so a third parent layer was silently left out of
the full conditional.
---
 lom/matrix_update_wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 9237f94..e854728 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -249,7 +249,7 @@ def get_relatives_models(mat):
     if len(mat.parents) > 1:
         assert len(mat.parents[1].factors) == 2
         parent2_model = (mat.parents[1].model + '-2D').replace('-', '_')
-    elif len(mat.parents) > 2:
+    if len(mat.parents) > 2:
         raise NotImplementedError("More than two parents are not supported.")
 
     return model, parent1_model, parent2_model
-- 
2.43.0


From 99a26fb00a7f0f3975597b584cdba06aee5f3018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:33 +0000
Subject: [PATCH 05/30] fix: infer with an unfixed data matrix

Matrices outside a layer have no layer, so allocating their trace raised an
AttributeError.
---
 lom/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/machine.py b/lom/machine.py
index debef3b..ec17265 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -723,7 +723,7 @@ class Machine():
         # allocate memory to save samples
         print('allocating memory to save samples...')
         for mat in mats:
-            if mat.layer.model == 'OR-AND-IBP':
+            if mat.model == 'OR-AND-IBP':
                 mat.allocate_trace_arrays_IBP(no_samples)
             else:
                 mat.allocate_trace_arrays(no_samples)
-- 
2.43.0


From d990843cec1be4f87415b5a9877eaed943e4f6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:33 +0000
Subject: [PATCH 06/30] fix: probability of OR-XOR outputs of three factors

Missing parentheses added two of the three XOR terms to the complement
instead of subtracting them, giving values outside [0,1].
---
 lom/_numba/lom_outputs_fuzzy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lom/_numba/lom_outputs_fuzzy.py b/lom/_numba/lom_outputs_fuzzy.py
index f77e4b4..3a2bfde 100644
--- a/lom/_numba/lom_outputs_fuzzy.py
+++ b/lom/_numba/lom_outputs_fuzzy.py
@@ -97,9 +97,9 @@ def OR_XOR_product_fuzzy_3d(Z_n, U_d, V_m):
     temp = np.float64(1)
     # this is hard to generalise to arbitrary D
     for l in range(Z_n.shape[0]):
-        temp *= 1 - Z_n[l] * (1 - U_d[l]) * (1 - V_m[l]) +\
-            U_d[l] * (1 - V_m[l]) * (1 - Z_n[l]) +\
-            V_m[l] * (1 - Z_n[l]) * (1 - U_d[l])
+        temp *= 1 - (Z_n[l] * (1 - U_d[l]) * (1 - V_m[l]) +
+                     U_d[l] * (1 - V_m[l]) * (1 - Z_n[l]) +
+                     V_m[l] * (1 - Z_n[l]) * (1 - U_d[l]))
     return 1 - temp
 
 
-- 
2.43.0


From a1a7c59f8c9a6681f8567e89c31628cbaa7029ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:27 +0000
Subject: [PATCH 07/30] fix: probabilistic outputs of three-factor models other
 than OR-AND

The fuzzy flag was dropped for them: probabilities were handed to the
deterministic generator, so factor_mean outputs were -1/1 instead of
probabilities.
---
 lom/auxiliary_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index cd2877b..bcd3fb0 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -756,7 +756,7 @@ def lom_generate_data_fast(factors, model='OR-AND', fuzzy=False):
             out2D = lambda_updates_numba.make_output_function_2d_fuzzy(model)
             return out2D(*[np.array(f, dtype=np.float64) for f in factors])
 
-    elif len(factors) == 3 and model == 'OR-AND':
+    elif len(factors) == 3 and (model == 'OR-AND' or fuzzy is True):
         if fuzzy is False:
             out3D = lambda_updates_numba.make_output_function_3d(model)
             return out3D(*[np.array(f, dtype=np.int8) for f in factors])
-- 
2.43.0


From 57b865ae43169e866381c83695eee276f43f6c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:27 +0000
Subject: [PATCH 08/30] fix: np.infty does not exist in current numpy

compute_bp and compute_bbp raised AttributeError.
---
 lom/auxiliary_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index bcd3fb0..aee117e 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -68,10 +68,10 @@ def compute_bp(q, n, N, tau=1):
 
     exp_bp = [(q * (n - k * tau)) / ((1 - q) * (k * tau + 1)) for k in range(n)]
 
-    bp = [np.log(x) if (x > 0) else -np.infty for x in exp_bp]
+    bp = [np.log(x) if (x > 0) else -np.inf for x in exp_bp]
 
     if N != n:
-        bp_new = [-np.infty for i in range(N)]
+        bp_new = [-np.inf for i in range(N)]
         bp_new[:n - 1] = bp
         bp = bp_new
     return np.array(bp, dtype=float)
@@ -84,7 +84,7 @@ def compute_bbp(n, a, b):
     """
     exp_bbp = [(float((n - k) * (k + a)) /
                 float((k + 1) * (n - k + b - 1))) for k in range(n + 1)]
-    bbp = [np.log(x) if (x > 0) else -np.infty for x in exp_bbp]
+    bbp = [np.log(x) if (x > 0) else -np.inf for x in exp_bbp]
     return np.array(bbp, dtype=float)
 
 
-- 
2.43.0


From 7f580730610ab0fada38c7395c13ae8bb62d27d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:27 +0000
Subject: [PATCH 09/30] fix: np.int does not exist in current numpy

split_train_test raised AttributeError on every call.
---
 lom/experiments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/experiments.py b/lom/experiments.py
index 72c282e..659a99a 100644
--- a/lom/experiments.py
+++ b/lom/experiments.py
@@ -170,7 +170,7 @@ def split_train_test(tensor, split=.1, balanced=False):
     def index_generator():
         return tuple([np.random.randint(dim) for dim in tensor.shape])
 
-    rand_tensor_idx = np.zeros([len(tensor.shape), num_split], dtype=np.int)
+    rand_tensor_idx = np.zeros([len(tensor.shape), num_split], dtype=int)
     i = 0
 
     if balanced is False:
-- 
2.43.0


From 8e83318713928a8d429afd642e810ff14b833e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:27 +0000
Subject: [PATCH 10/30] fix: anneal lambda up to its given value

The schedule was read one step ahead (the iteration counter starts at 1), so
annealing skipped its first value and ended above the given lambda.
---
 lom/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/machine.py b/lom/machine.py
index ec17265..6800f1a 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -598,7 +598,7 @@ class Machine():
                             for lbda in lbdas]
 
                     for lbda_idx, lbda in enumerate(lbdas):
-                        lbda.val = annealing_lbdas[lbda_idx][pre_burn_in_iter]
+                        lbda.val = annealing_lbdas[lbda_idx][pre_burn_in_iter - 1]
 
         # allocate array for lambda traces for burn in detection
         for lbda in lbdas:
-- 
2.43.0


From 0d43558c1f67191ab18dfe2c121ba6554f572294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:49 +0000
Subject: [PATCH 11/30] fix: check convergence on complete windows only

At the first check only convergence_window - 1 samples had been recorded, so
the last, uninitialised entry of the trace took part in the decision.
---
 lom/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/machine.py b/lom/machine.py
index 6800f1a..f36fe9a 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -619,7 +619,7 @@ class Machine():
                       end='')
 
             #  check convergence every convergence_window iterations
-            if burn_in_iter % convergence_window == 0:
+            if burn_in_iter > 1 and (burn_in_iter - 1) % convergence_window == 0:
                 # reset trace index
                 for lbda in lbdas:
                     lbda.trace_index = 0
-- 
2.43.0


From 25034d76a3f3c27c95804741a70dabb4b57e72ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:49 +0000
Subject: [PATCH 12/30] fix: clean up consecutive redundant dimensions

After removing a latent dimension the next one moved into its place and was
skipped, so inactive or duplicate dimensions were left in the layer.
---
 lom/auxiliary_functions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index aee117e..0275e7b 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -115,22 +115,26 @@ def clean_up_codes(layer, reset=True, clean=False):
     # remove inactive codes
     l = 0
     while l < layer.size:  # need to use while loop because layer.size changes.
+        size = layer.size
         if np.any([np.all(f()[:, l] == -1) for f in layer.factors]):
             cleaning_action(l, layer)
             reduction_applied = True
-        l += 1
+        if layer.size == size:  # after a removal, l is the next dimension
+            l += 1
 
     # remove duplicates
     l = 0
     while l < layer.size:
         l_prime = l + 1
         while l_prime < layer.size:
+            size = layer.size
             for f in layer.factors:
                 if np.all(f()[:, l] == f()[:, l_prime]):
                     reduction_applied = True
                     cleaning_action(l_prime, layer)
                     break
-            l_prime += 1
+            if layer.size == size:  # after a removal, l_prime is the next dimension
+                l_prime += 1
         l += 1
 
     if reduction_applied is True:
-- 
2.43.0


From 6f9027d5a724967f39f356b55e67830c55f88c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:49 +0000
Subject: [PATCH 13/30] fix: remove latent dimensions from the mask of fixed
 entries as well

The mask kept its old columns, so after a removal the wrong entries were
held fixed.
---
 lom/auxiliary_functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 0275e7b..f51518e 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -156,6 +156,7 @@ def remove_dimension(l_prime, layer):
     # layer.size -= 1
     for f in layer.factors:
         f.val = np.delete(f.val, l_prime, axis=1)
+        f.fixed_entries = np.delete(f.fixed_entries, l_prime, axis=1)
 
 
 def reset_dimension(l_prime, layer):
-- 
2.43.0


From 5fdcbfd340c08c385b5d76a664c01c7f88d995aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:49 +0000
Subject: [PATCH 14/30] fix: do not overwrite fixed entries when resetting a
 latent dimension

---
 lom/auxiliary_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index f51518e..6cb9345 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -161,7 +161,7 @@ def remove_dimension(l_prime, layer):
 
 def reset_dimension(l_prime, layer):
     for f in layer.factors:
-        f.val[:, l_prime] = -1
+        f.val[f.fixed_entries[:, l_prime] != 1, l_prime] = -1
 
 
 def plot_matrix_ax(mat, ax, draw_cbar=True):
-- 
2.43.0


From 434880858659c2a4ad172b9ed561c343858916a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:49 +0000
Subject: [PATCH 15/30] fix: use the seed given to add_bernoulli_noise_2d

The given seed was ignored by add_bernoulli_noise_2d and
add_bernoulli_noise_2d_biased.
---
 lom/auxiliary_functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 6cb9345..7d8cd54 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -544,7 +544,8 @@ def add_bernoulli_noise_2d(X, p, seed=None):
     print('X needs to be in -1, 1 mapping!')
 
     if seed is None:
-        np.random.seed(np.random.randint(1e4))
+        seed = np.random.randint(1e4)
+    np.random.seed(seed)
 
     X_intern = X.copy()
 
@@ -559,7 +560,8 @@ def add_bernoulli_noise_2d(X, p, seed=None):
 def add_bernoulli_noise_2d_biased(X, p_plus, p_minus, seed=None):
 
     if seed is None:
-        np.random.seed(np.random.randint(1e4))
+        seed = np.random.randint(1e4)
+    np.random.seed(seed)
 
     X_intern = X.copy()
 
-- 
2.43.0


From 7872a336dbb0fcedf011d927745de6c59151fc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 16/30] fix: expected density of XOR-XOR models with three or
 more factors

f^K + (1-f)^K is the complement of the probability that exactly one of K
factors is one only for K = 2.
---
 lom/auxiliary_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 7d8cd54..0b2fa16 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -1070,7 +1070,7 @@ def expected_density(model, L, K, f):
     elif model_group == 'XOR-XOR':
         d = Inv[0](L * (
             Inv[1](K * f * (invert(f))**(K - 1) *
-                   (f**K + invert(f)**(K)) ** (L - 1))
+                   invert(K * f * (invert(f))**(K - 1)) ** (L - 1))
         ))
 
     return d
-- 
2.43.0


From bc5a28b4a76bb98afbce80072c2158b6821247a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 17/30] fix: map factor_mean_old outputs to probabilities

lom_generate_data_fuzzy returns values in [-1,1], but layer outputs are
documented to be probabilities.
---
 lom/machine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lom/machine.py b/lom/machine.py
index f36fe9a..bd9c39a 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -425,6 +425,7 @@ class MachineLayer():
                 out = aux.lom_generate_data_fuzzy(
                     [x.mean() for x in self.factors],
                     self.model)
+                out = (1 + out) * .5  # map to probability of emitting a 1
 
             elif technique == 'mc':  # TODO numba
                 out = np.zeros([x().shape[0] for x in self.factors])
-- 
2.43.0


From b875a21048612f12241579c35c1887760a4308ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:55 +0000
Subject: [PATCH 18/30] fix: pass the latent index of posterior scores as int64

The jit signatures declared it int16, so the compiled scores of latent dimensions
beyond 32767 were computed for a wrapped-around index.
---
 lom/_numba/posterior_score_fcts.py | 32 +++++++++++++++---------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/lom/_numba/posterior_score_fcts.py b/lom/_numba/posterior_score_fcts.py
index d47bf13..b1d69b8 100644
--- a/lom/_numba/posterior_score_fcts.py
+++ b/lom/_numba/posterior_score_fcts.py
@@ -8,7 +8,7 @@ from numba import jit
 from numba.types import int64
 
 # OR-AND
-@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int64)', nopython=True, nogil=True)
 def posterior_score_OR_AND_2D(Z_n, U, X_n, l):
     """
     Return count of correct/incorrect explanations
@@ -37,7 +37,7 @@ def posterior_score_OR_AND_2D(Z_n, U, X_n, l):
     return score
 
 
-@jit('int64(int8[:], int8[:,:], int8[:,:], int8[:,:], int16)',
+@jit('int64(int8[:], int8[:,:], int8[:,:], int8[:,:], int64)',
      nopython=True, nogil=True)
 def posterior_score_OR_AND_3D(Z_n, U, V, X_n, l):
     """
@@ -71,7 +71,7 @@ def posterior_score_OR_AND_3D(Z_n, U, V, X_n, l):
 
 
 # XOR-AND
-@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int64)', nopython=True, nogil=True)
 def posterior_score_XOR_AND_2D(Z_n, U, X_n, l):
     """
     Return count of correct/incorrect explanations
@@ -104,7 +104,7 @@ def posterior_score_XOR_AND_2D(Z_n, U, X_n, l):
     return score
 
 
-@jit('int64(int8[:], int8[:,:], int8[:,:], int8[:,:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:,:], int8[:,:], int64)', nopython=True, nogil=True)
 def posterior_score_XOR_AND_3D(Z_n, U, V, X_n, l):
     """
     Return count of correct/incorrect explanations
@@ -141,7 +141,7 @@ def posterior_score_XOR_AND_3D(Z_n, U, V, X_n, l):
 
 
 # XOR-NAND
-@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int64)', nopython=True, nogil=True)
 def posterior_score_XOR_NAND_2D(Z_n, U, X_n, l):
     """
     Return count of correct/incorrect explanations
@@ -173,7 +173,7 @@ def posterior_score_XOR_NAND_2D(Z_n, U, X_n, l):
     return -score
 
 
-@jit('int64(int8[:], int8[:,:], int8[:,:], int8[:,:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:,:], int8[:,:], int64)', nopython=True, nogil=True)
 def posterior_score_XOR_NAND_3D(Z_n, U, V, X_n, l):
 
     D, L = U.shape
@@ -206,7 +206,7 @@ def posterior_score_XOR_NAND_3D(Z_n, U, V, X_n, l):
 
 
 # OR-NAND
-@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int64)', nopython=True, nogil=True)
 def posterior_score_OR_NAND_2D(Z_n, U, X_n, l):
     """
     Return count of correct/incorrect explanations
@@ -234,7 +234,7 @@ def posterior_score_OR_NAND_2D(Z_n, U, X_n, l):
     return -score
 
 
-@jit('int64(int8[:], int8[:,:], int8[:,:], int8[:,:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:,:], int8[:,:], int64)', nopython=True, nogil=True)
 def posterior_score_OR_NAND_3D(Z_n, U, V, X_n, l):
 
     M, _ = V.shape
@@ -262,7 +262,7 @@ def posterior_score_OR_NAND_3D(Z_n, U, V, X_n, l):
 
 
 # OR-XOR
-@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int64)', nopython=True, nogil=True)
 def posterior_score_OR_XOR_2D(Z_n, U, X_n, l):
     """
     Return count of correct/incorrect explanations
@@ -287,7 +287,7 @@ def posterior_score_OR_XOR_2D(Z_n, U, X_n, l):
     return -score
 
 
-@jit('int64(int8[:], int8[:,:], int8[:,:], int8[:,:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:,:], int8[:,:], int64)', nopython=True, nogil=True)
 def posterior_score_OR_XOR_3D(Z_n, U, V, X_n, l):
 
     D, L = U.shape
@@ -313,7 +313,7 @@ def posterior_score_OR_XOR_3D(Z_n, U, V, X_n, l):
 
 
 # NAND-XOR
-@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int64)', nopython=True, nogil=True)
 def posterior_score_NAND_XOR_2D(Z_n, U, X_n, l):
 
     D, L = U.shape
@@ -332,7 +332,7 @@ def posterior_score_NAND_XOR_2D(Z_n, U, X_n, l):
     return score
 
 
-@jit('int64(int8[:], int8[:,:], int8[:,:], int8[:,:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:,:], int8[:,:], int64)', nopython=True, nogil=True)
 def posterior_score_NAND_XOR_3D(Z_n, U, V, X_n, l):
 
     M, _ = V.shape
@@ -357,7 +357,7 @@ def posterior_score_NAND_XOR_3D(Z_n, U, V, X_n, l):
 
 
 # XOR-XOR
-@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int64)', nopython=True, nogil=True)
 def posterior_score_XOR_XOR_2D(Z_n, U, X_n, l):
 
     D, L = U.shape
@@ -379,7 +379,7 @@ def posterior_score_XOR_XOR_2D(Z_n, U, X_n, l):
     return score
 
 
-@jit('int64(int8[:], int8[:,:], int8[:,:], int8[:,:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:,:], int8[:,:], int64)', nopython=True, nogil=True)
 def posterior_score_XOR_XOR_3D(Z_n, U, V, X_n, l):
 
     M, _ = V.shape
@@ -408,7 +408,7 @@ def posterior_score_XOR_XOR_3D(Z_n, U, V, X_n, l):
 
 
 # XOR-NXOR
-@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int64)', nopython=True, nogil=True)
 def posterior_score_XOR_NXOR_2D(Z_n, U, X_n, l):
 
     D, L = U.shape
@@ -430,7 +430,7 @@ def posterior_score_XOR_NXOR_2D(Z_n, U, X_n, l):
     return score
 
 
-@jit('int64(int8[:], int8[:,:], int8[:,:], int8[:,:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:,:], int8[:,:], int64)', nopython=True, nogil=True)
 def posterior_score_XOR_NXOR_3D(Z_n, U, V, X_n, l):
 
     M, _ = V.shape
-- 
2.43.0


From 40b5146c90480e29c5471d1a2b87e5ad5b137b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:40 +0000
Subject: [PATCH 19/30] fix: accumulate qL-AND posterior scores in int64

As in the other scores, the accumulator became int8 with the first data entry
and wrapped around beyond +-127; the jit signatures declared the result and the
latent index int16.
---
 lom/_numba/matrix_updates_numba.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 468d88c..ada7d86 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -563,14 +563,14 @@ def sample_qL_q(Z, U, X, q, lbda, gamma):
         # q[0, d] = np.argmax(logconditional[:, d]) + 1
 
 
-@jit('int16(int8[:], int8[:,:], int8[:], int16, int8[:,:])', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int64, int8[:,:])', nopython=True, nogil=True)
 def posterior_score_fct_qL_Z(Z_n, U, X_n, l, q):
     """
     # TODO: numba
     """
     D, L = U.shape
 
-    score = 0
+    score = np.int64(0)
     # We need q-1 sources active for Z_n to have an effect
     for d in range(D):
         if U[d, l] != 1:
@@ -597,11 +597,11 @@ def posterior_score_fct_qL_Z(Z_n, U, X_n, l, q):
     return score
 
 
-@jit('int16(int8[:], int8[:,:], int8[:], int16, int8)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int64, int8)', nopython=True, nogil=True)
 def posterior_score_fct_qL_U(U_d, Z, X_d, l, q_d):
     N, L = Z.shape
 
-    score = 0
+    score = np.int64(0)
     # We need q-1 sources active for Z_n to have an effect
     for n in range(N):
         if Z[n, l] != 1:
-- 
2.43.0


From bed798e714fbab711cd87681d236ffd5b07e1ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:51 +0000
Subject: [PATCH 20/30] fix: qL-AND factor updates use the dispersion and prior
 and keep fixed entries

The dispersion was passed but ignored, so entries were sampled from the
conditional at dispersion 1, and fixed entries were resampled.
---
 lom/_numba/matrix_updates_numba.py | 22 ++++++++++++++--------
 lom/matrix_update_wrappers.py      | 10 ++++++++--
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index ada7d86..4c7cc18 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -624,8 +624,9 @@ def posterior_score_fct_qL_U(U_d, Z, X_d, l, q_d):
     return score
 
 
-@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64)', nopython=True, nogil=True)
-def sample_qL_factors_Z(Z, U, X, q, lbda):
+@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64, float64)',
+     nopython=True, nogil=True)
+def sample_qL_factors_Z(Z, Z_fixed, U, X, q, lbda, logit_prior):
     """
     Need separate functions for U and Z because we have different q's
     for every Z[n,:], but the same q for every U[d,:]
@@ -634,15 +635,18 @@ def sample_qL_factors_Z(Z, U, X, q, lbda):
     N, L = Z.shape
     for n in prange(N):
         for l in range(L):
-            logit_score = posterior_score_fct_qL_Z(
+            if Z_fixed[n, l] == 1:
+                continue
+            logit_score = lbda * posterior_score_fct_qL_Z(
                 Z[n, :], U, X[n, :], l, q)
             Z[n, l] = flip_metropolised_gibbs_numba(
-                logit_score, Z[n, l])
+                logit_score + logit_prior, Z[n, l])
     return
 
 
-@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64)', nopython=True, nogil=True)
-def sample_qL_factors_U(U, Z, X, q, lbda):
+@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64, float64)',
+     nopython=True, nogil=True)
+def sample_qL_factors_U(U, U_fixed, Z, X, q, lbda, logit_prior):
     """
     Need separate functions for U and Z because we have different q's
     for every Z[n,:], but the same q for every U[d,:]
@@ -652,8 +656,10 @@ def sample_qL_factors_U(U, Z, X, q, lbda):
     D, L = U.shape
     for d in prange(D):
         for l in range(L):
-            logit_score = posterior_score_fct_qL_U(
+            if U_fixed[d, l] == 1:
+                continue
+            logit_score = lbda * posterior_score_fct_qL_U(
                 U[d, :], Z, X[d, :], l, q[0, d])
             U[d, l] = flip_metropolised_gibbs_numba(
-                logit_score, U[d, l])
+                logit_score + logit_prior, U[d, l])
     return
diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index e854728..a361f46 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -71,14 +71,18 @@ def get_sampling_fct(mat):
 
         mat.layer.q.sampling_fct = q_sampler
 
+        logit_bernoulli_prior = np.float64(logit(mat.bernoulli_prior))
+
         if mat.child_axis == 0:
             def qL_sampler_Z(mat):
                 numba_mu.sample_qL_factors_Z(
                     mat(),
+                    mat.fixed_entries,
                     mat.siblings[0](),
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.q(),
-                    mat.layer.lbda())
+                    mat.layer.lbda(),
+                    logit_bernoulli_prior)
 
             return qL_sampler_Z
 
@@ -86,10 +90,12 @@ def get_sampling_fct(mat):
             def qL_sampler_U(mat):
                 numba_mu.sample_qL_factors_U(
                     mat(),
+                    mat.fixed_entries,
                     mat.siblings[0](),
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.q(),
-                    mat.layer.lbda())
+                    mat.layer.lbda(),
+                    logit_bernoulli_prior)
 
             return qL_sampler_U
 
-- 
2.43.0


From cb8fd0624b7427b5a23ac6e3a2904866ea26fa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 21/30] fix: map the output of qL-AND layers to probabilities

MachineLayer.output returned -1 instead of 0 for the entries the model does not
explain, and -3 with map_to_probabilities=False.
---
 lom/machine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lom/machine.py b/lom/machine.py
index bd9c39a..4f1682d 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -401,6 +401,7 @@ class MachineLayer():
                         self.u()[d, :],
                         self.z()[n, :],
                         self.q()[0, d])
+            out = (1 + out) * .5  # map to probability of emitting a 1
 
         else:
             if technique == 'point_estimate':
-- 
2.43.0


From 1510da5a7dee9ca28b94c25b94cf3b5b9a1c0ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:42 +0000
Subject: [PATCH 22/30] fix: remove the dispersion of a removed latent
 dimension of the max machine

---
 lom/auxiliary_functions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 0b2fa16..3c403f2 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -158,6 +158,12 @@ def remove_dimension(l_prime, layer):
         f.val = np.delete(f.val, l_prime, axis=1)
         f.fixed_entries = np.delete(f.fixed_entries, l_prime, axis=1)
 
+    # every latent dimension of the max machine has its own dispersion
+    if layer.model == 'MAX-AND':
+        import lom._numba.max_machine_sampler as mm_sampler
+        layer.lbda.val = np.delete(layer.lbda.val, l_prime)
+        mm_sampler.compute_lbda_ratios(layer)
+
 
 def reset_dimension(l_prime, layer):
     for f in layer.factors:
-- 
2.43.0


From b7e243ff46154589484c228741093b845888eaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:42 +0000
Subject: [PATCH 23/30] fix: output of the max machine is the largest active
 lambda or the clamped one

---
 lom/_numba/lom_outputs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lom/_numba/lom_outputs.py b/lom/_numba/lom_outputs.py
index 2a4a4f2..b135e8c 100644
--- a/lom/_numba/lom_outputs.py
+++ b/lom/_numba/lom_outputs.py
@@ -254,9 +254,13 @@ def XOR_NAND_product_3d(u, z, v):
 def MAX_AND_product_2d(factors, lbdas):
 
     out = np.zeros([f.shape[0] for f in factors])
-    for l_idx in np.argsort(lbdas[:-1]):
+    # the largest active lambda determines the output
+    for l_idx in np.argsort(-lbdas[:-1]):
         temp = lbdas[l_idx] * OR_AND_product_expand(
             *[f[:, l_idx] for f in factors])
         out[out == 0] = temp[out == 0]
 
+    # clamped unit
+    out[out == 0] = lbdas[-1]
+
     return out
-- 
2.43.0


From 6ab718d43e773687e8ac0d2fce76764d680d6d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:53 +0000
Subject: [PATCH 24/30] fix: posterior score of the max machine ranks the
 latent dimension by its lambda and is not truncated

---
 lom/_numba/max_machine_sampler.py | 21 +++++++++++++--------
 lom/matrix_update_wrappers.py     |  2 +-
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/lom/_numba/max_machine_sampler.py b/lom/_numba/max_machine_sampler.py
index 479955f..2ace91f 100644
--- a/lom/_numba/max_machine_sampler.py
+++ b/lom/_numba/max_machine_sampler.py
@@ -21,7 +21,7 @@ def draw_MAX_AND_2D(Z, Z_fixed, U, X, lbda, l_sorted, lbda_ratios):
             Z[n, l] = flip_metropolised_gibbs_numba(logit_p, Z[n, l])
 
 
-@jit('int32(int8[:], int8[:,:], int8[:], int64, int8[:], float32[:, :, :])', 
+@jit('float64(int8[:], int8[:,:], int8[:], int64, int64[:], float32[:, :, :])',
      nopython=True, nogil=True)
 def posterior_score_MAX_AND_2D(Z_n, U, X_n, l, l_sorted, lbda_ratios):
     """
@@ -31,7 +31,12 @@ def posterior_score_MAX_AND_2D(Z_n, U, X_n, l, l_sorted, lbda_ratios):
     """
     D, L = U.shape
 
-    score = np.int32(0)
+    # rank of l among the latent dimensions, sorted by their lambda
+    l_idx = 0
+    while l_sorted[l_idx] != l:
+        l_idx += 1
+
+    score = np.float64(0)
     for d in range(D):
         if U[d, l] != 1:  # AND
             continue
@@ -39,7 +44,7 @@ def posterior_score_MAX_AND_2D(Z_n, U, X_n, l, l_sorted, lbda_ratios):
         alrdy_active = False
 
         # check older siblings
-        for l_prime_idx in range(l):
+        for l_prime_idx in range(l_idx):
             if (Z_n[l_sorted[l_prime_idx]] == 1) and\
                (U[d, l_sorted[l_prime_idx]] == 1):
                 alrdy_active = True  # OR
@@ -49,13 +54,13 @@ def posterior_score_MAX_AND_2D(Z_n, U, X_n, l, l_sorted, lbda_ratios):
             continue
 
         # check younger siblings
-        for l_prime_idx in range(l+1, L):
+        for l_prime_idx in range(l_idx + 1, L):
             if (Z_n[l_sorted[l_prime_idx]] == 1) and\
                 (U[d, l_sorted[l_prime_idx]] == 1):
                 if X_n[d] == 1:
-                    score += lbda_ratios[0, l_sorted[l], l_sorted[l_prime_idx]]
+                    score += lbda_ratios[0, l, l_sorted[l_prime_idx]]
                 elif X_n[d] == -1:
-                    score += lbda_ratios[1, l_sorted[l], l_sorted[l_prime_idx]]
+                    score += lbda_ratios[1, l, l_sorted[l_prime_idx]]
                 alrdy_active = True
                 break
 
@@ -64,9 +69,9 @@ def posterior_score_MAX_AND_2D(Z_n, U, X_n, l, l_sorted, lbda_ratios):
 
         # no siblings explain away -> compare to clamped unit
         if X_n[d] == 1:
-            score += lbda_ratios[0, l_sorted[l], L]
+            score += lbda_ratios[0, l, L]
         elif X_n[d] == -1:
-            score += lbda_ratios[1, l_sorted[l], L]
+            score += lbda_ratios[1, l, L]
 
     return score
 
diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index a361f46..5e1a353 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -46,7 +46,7 @@ def get_sampling_fct(mat):
         from lom._numba.max_machine_sampler import draw_MAX_AND_2D
 
         def MAX_AND_2D(mat):
-            l_order = np.array(np.argsort(-mat.layer.lbda()[:-1]), dtype=np.int8)
+            l_order = np.argsort(-mat.layer.lbda()[:-1])
             draw_MAX_AND_2D(
                 mat(),
                 mat.fixed_entries,
-- 
2.43.0


From eeb8329a3870c19815da77bc35bd38a5e34d1fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:46 +0000
Subject: [PATCH 25/30] fix: fuzzy output of the max machine is the expected
 output

---
 lom/_numba/lom_outputs_fuzzy.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/lom/_numba/lom_outputs_fuzzy.py b/lom/_numba/lom_outputs_fuzzy.py
index 3a2bfde..a7740c6 100644
--- a/lom/_numba/lom_outputs_fuzzy.py
+++ b/lom/_numba/lom_outputs_fuzzy.py
@@ -212,18 +212,20 @@ def MAX_AND_product_fuzzy(Z, U, lbdas):
     out = np.zeros([N, D])  # , dtype=np.float)
     for n in prange(N):
         for d in range(D):
-            acc = 0  # accumulator for sum
+            acc = 0.0  # accumulator for sum
+            clamped = 1.0  # probability that no dimension is active
             for l1 in range(L):
-                temp1 = Z[n, l1] * U[d, l1] * lbdas[l1]
-                # check for explaining away
-                prod = 1
+                # probability that l1 is active
+                temp1 = Z[n, l1] * U[d, l1]
+                clamped *= 1 - temp1
+                # check for explaining away by larger lambdas
+                prod = 1.0
                 for l2 in range(L):
-                    if l1 == l2:
-                        continue
-                    temp2 = Z[n, l2] * U[d, l2]
-                    if temp2 * lbdas[l2] > temp1:
-                        prod *= 1 - temp2
-                acc += temp1 * prod
+                    if lbdas[l2] > lbdas[l1] or\
+                       (lbdas[l2] == lbdas[l1] and l2 < l1):
+                        prod *= 1 - Z[n, l2] * U[d, l2]
+                acc += lbdas[l1] * temp1 * prod
+            acc += lbdas[L] * clamped
             out[n, d] = acc
     return out    
 
-- 
2.43.0


From e2610001c1201975e8923f74ad81b585752b95f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 26/30] fix: keep the masks of fixed entries in step with the
 columns of the IBP factors

---
 lom/_numba/matrix_updates_numba.py | 9 +++++++--
 lom/matrix_update_wrappers.py      | 7 +++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 4c7cc18..f581da2 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -381,11 +381,12 @@ def make_sampling_fct_onechild_twoparents(model, parent_model_1, parent_model_2)
     return sampling_fct
 
 
-def sample_2d_IBP(Z, U, X, lbda, q, alpha):
+def sample_2d_IBP(Z, U, Z_fixed, U_fixed, X, lbda, q, alpha):
     """
     IBP update procedure for 2D OrMachine, drawing U and Z where
     U has flat prior and Z comes from IBP with concentration parameter alpha.
     Z[n,l], U[d,l], X[n,d], q: Bernoulli prior, alpha: IPB concentration parameter.
+    The masks of fixed entries follow the columns of their factors.
     """
 
     # lbda = lr.lbda.val
@@ -435,6 +436,8 @@ def sample_2d_IBP(Z, U, X, lbda, q, alpha):
         # remove marked columns
         Z = Z[:, columns_to_keep]
         U = U[:, columns_to_keep]
+        Z_fixed = Z_fixed[:, columns_to_keep]
+        U_fixed = U_fixed[:, columns_to_keep]
         L = columns_to_keep.sum()
 
         # draw number of new dishes (columns)
@@ -469,6 +472,8 @@ def sample_2d_IBP(Z, U, X, lbda, q, alpha):
             Z = np.hstack([Z, np.full([N, L_new], fill_value=-1, dtype=np.int8)])
             Z[n, -L_new:] = 1
             U = np.hstack([U, 2 * np.zeros([D, L_new], dtype=np.int8) - 1])
+            Z_fixed = np.hstack([Z_fixed, np.zeros([N, L_new], dtype=np.int8)])
+            U_fixed = np.hstack([U_fixed, np.zeros([D, L_new], dtype=np.int8)])
 
             # sample the new hidden causes
             for l in list(range(L, L + L_new)):
@@ -482,7 +487,7 @@ def sample_2d_IBP(Z, U, X, lbda, q, alpha):
         # if L_new > 0:
         #     print(L_new, Z.shape[0])
 
-    return Z, U
+    return Z, U, Z_fixed, U_fixed
 
 # TODO: numba
 
diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 5e1a353..d4b1b68 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -115,9 +115,12 @@ def get_sampling_fct(mat):
                 References are overwritten in the function,
                 need to return arrays.
                 """
-                mat.val, mat.siblings[0].val = numba_mu.sample_2d_IBP(
+                sib = mat.siblings[0]
+                mat.val, sib.val, mat.fixed_entries, sib.fixed_entries = numba_mu.sample_2d_IBP(
                     mat(),
-                    mat.siblings[0](),
+                    sib(),
+                    mat.fixed_entries,
+                    sib.fixed_entries,
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.lbda(),
                     mat.siblings[0].bernoulli_prior,
-- 
2.43.0


From a5ee3dd523f03e863356dfcbd615338e38336c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:42 +0000
Subject: [PATCH 27/30] fix: extend the trace of an IBP factor that outgrew it

---
 lom/machine.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lom/machine.py b/lom/machine.py
index 4f1682d..efc6666 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -124,6 +124,14 @@ class Trace():
                                  dtype=self().dtype, fill_value=-1)
 
     def update_trace_IBP(self):
+        # make room if there are more columns than the trace was allocated for
+        missing = self.val.shape[1] - self.trace.shape[2]
+        if missing > 0:
+            self.trace = np.concatenate(
+                [self.trace,
+                 np.full(list(self.trace.shape[:2]) + [missing],
+                         dtype=self.trace.dtype, fill_value=-1)],
+                axis=2)
         self.trace[self.trace_index,
                    :self.val.shape[0],
                    :self.val.shape[1]] = self.val
-- 
2.43.0


From 5649a35f261c9a51c54eab7ef69830dc4fd8e375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:01 +0000
Subject: [PATCH 28/30] fix: do not invert the training data of the caller in
 LOM_predictive

---
 lom/experiments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lom/experiments.py b/lom/experiments.py
index 659a99a..7a659c3 100644
--- a/lom/experiments.py
+++ b/lom/experiments.py
@@ -265,7 +265,8 @@ def LOM_predictive(experiment, return_machine=True):
     X, X_train, train_mask, machine, L, random_idx, lbda_init, anneal = experiment
 
     orm = lom.Machine()
-    data = orm.add_matrix(X_train, fixed=True)
+    # copy: the data are inverted in place for some models
+    data = orm.add_matrix(np.array(X_train, dtype=np.int8), fixed=True)
     layer = orm.add_layer(latent_size=L, child=data, model=machine)
     layer.lbda.val = lbda_init
 
-- 
2.43.0


From 22b7503d869b7b26bdb1dd0ab8d0d867068205a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:01 +0000
Subject: [PATCH 29/30] fix: default models of the grid search raised NameError

---
 lom/experiments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/experiments.py b/lom/experiments.py
index 7a659c3..e73e239 100644
--- a/lom/experiments.py
+++ b/lom/experiments.py
@@ -323,7 +323,7 @@ def LOM_hyperparms_parallel_gridsearch(X,
     import pandas as pd
 
     if machines is None:
-        machines = aux.canonical_loms()
+        machines = lib.canonical_loms()
 
     # train/test split
     make_split = True
-- 
2.43.0


From 4e8ac0a63e75f7b2bdbe1a540995bc02de5edb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:51 +0000
Subject: [PATCH 30/30] fix: draw the thresholds of qL-AND from their posterior
 given the data

sample_qL_q counted the outputs that are on instead of the observed data
points that agree with the output, so the data were ignored.
---
 lom/_numba/matrix_updates_numba.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index f581da2..2cfc992 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -550,10 +550,19 @@ def sample_qL_q(Z, U, X, q, lbda, gamma):
             logconditional[q_new, d] = (q_new + 1) * np.log(gamma) -\
                 gamma - lgamma(q_new + 2)
 
-            # compute loglikelihoods
-            true_predictions = np.sum(np.dot((Z + 1) / 2, (U[d, :] + 1) / 2) >= q_new + 1)
+            # compute loglikelihoods (missing data do not contribute)
+            true_predictions = 0
+            false_predictions = 0
+            for n in range(N):
+                if X[n, d] == 0:
+                    continue
+                if lom_outputs.qL_AND_product(
+                        U[d, :], Z[n, :], np.int8(q_new + 1)) == X[n, d]:
+                    true_predictions += 1
+                else:
+                    false_predictions += 1
             logconditional[q_new, d] = logconditional[q_new, d] + true_predictions * p_lbda +\
-                (N - true_predictions) * m_lbda
+                false_predictions * m_lbda
 
         # overwrite log-conditional with normalised probability
         # (but avoid allocating new memory)
-- 
2.43.0

