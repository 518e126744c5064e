From 32f320e08a5d2c6e8ab71a447e1aa025475db4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:40 +0000
Subject: [PATCH 01/20] fix: do not modify the ratios dict of the input state
 in mcmcstep.step

---
 src/bartz/mcmcstep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index d98c07e..4d66f83 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -1279,7 +1279,8 @@ def accept_moves_sequential_stage(bart, count_trees, moves, move_counts, prelkv,
 
     bart['resid'] = resid
     bart['leaf_trees'] = leaf_trees
-    bart.get('ratios', {}).update(ratios)
+    if 'ratios' in bart:
+        bart['ratios'] = dict(bart['ratios'], **ratios)
     moves['acc'] = acc
     moves['to_prune'] = to_prune
 
-- 
2.43.0


From 3b8055488dbd50ed493f42c54fe3a1d21d6fa794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:58 +0000
Subject: [PATCH 02/20] fix: integer overflow in split_range when an ancestor
 uses the largest cutpoint of a full-width type

---
 src/bartz/mcmcstep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 4d66f83..788988a 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -642,7 +642,7 @@ def split_range(var_tree, split_tree, max_split, node_index, ref_var):
     """
     max_num_ancestors = grove.tree_depth(var_tree) - 1
     initial_r = 1 + max_split.at[ref_var].get(mode='fill', fill_value=0).astype(jnp.int32)
-    carry = 0, initial_r, node_index
+    carry = jnp.int32(0), initial_r, node_index
     def loop(carry, _):
         l, r, index = carry
         right_child = (index & 1).astype(bool)
-- 
2.43.0


From b7a2b890a025518b3f0c13c82a33a11a714e29cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:16 +0000
Subject: [PATCH 03/20] fix: never use decision rules on predictors without
 available cutpoints

---
 src/bartz/mcmcstep.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 788988a..08bc68d 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -358,7 +358,11 @@ def sample_moves(bart, key):
     right = left + 1
 
     return dict(
-        allowed=grow | prune_moves['allowed'],
+        allowed=jnp.where(
+            grow,
+            grow_moves['var'] < bart['max_split'].size, # there is a rule to use
+            prune_moves['allowed'],
+        ),
         grow=grow,
         num_growable=grow_moves['num_growable'],
         node=node,
@@ -554,7 +558,8 @@ def choose_variable(var_tree, split_tree, max_split, leaf_index, key):
     allowed splits. If no variable has a non-empty range, return `p`.
     """
     var_to_ignore = fully_used_variables(var_tree, split_tree, max_split, leaf_index)
-    return randint_exclude(key, max_split.size, var_to_ignore)
+    available = max_split.astype(bool).at[var_to_ignore].set(False)
+    return randint_masked(key, available)
 
 def fully_used_variables(var_tree, split_tree, max_split, leaf_index):
     """
-- 
2.43.0


From b3bd33862559b59f631825c2782d0b82f304c443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:34 +0000
Subject: [PATCH 04/20] fix: support trees with maximum depth 1 or 2

---
 src/bartz/mcmcstep.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 08bc68d..24f735f 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -610,8 +610,10 @@ def ancestor_variables(var_tree, max_split, node_index):
         The variable indices of the ancestors of the node, from the root to
         the parent. Unused spots are filled with `p`.
     """
-    max_num_ancestors = grove.tree_depth(var_tree) - 1
+    max_num_ancestors = max(0, grove.tree_depth(var_tree) - 1)
     ancestor_vars = jnp.zeros(max_num_ancestors, jaxext.minimal_unsigned_dtype(max_split.size))
+    if not max_num_ancestors:
+        return ancestor_vars # only the root can have children
     carry = ancestor_vars.size - 1, node_index, ancestor_vars
     def loop(carry, _):
         i, index, ancestor_vars = carry
@@ -645,7 +647,7 @@ def split_range(var_tree, split_tree, max_split, node_index, ref_var):
     l, r : int
         The range of allowed splits is [l, r).
     """
-    max_num_ancestors = grove.tree_depth(var_tree) - 1
+    max_num_ancestors = max(0, grove.tree_depth(var_tree) - 1)
     initial_r = 1 + max_split.at[ref_var].get(mode='fill', fill_value=0).astype(jnp.int32)
     carry = jnp.int32(0), initial_r, node_index
     def loop(carry, _):
-- 
2.43.0


From b75a1d4ed169b0d9006fb27d2a05996887066775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:34 +0000
Subject: [PATCH 05/20] fix: return only the documented fields in the traces of
 empty MCMC phases

---
 src/bartz/mcmcloop.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bartz/mcmcloop.py b/src/bartz/mcmcloop.py
index 4510b3d..a8ac553 100644
--- a/src/bartz/mcmcloop.py
+++ b/src/bartz/mcmcloop.py
@@ -107,6 +107,7 @@ def run_mcmc(bart, n_burn, n_save, n_skip, callback, key):
         return (bart, i_total + 1, i_skip + 1, key), output
 
     def empty_trace(bart, tracelist):
+        bart = {key: bart[key] for key in tracelist if key in bart}
         return jax.vmap(lambda x: x, in_axes=None, out_axes=0, axis_size=0)(bart)
 
     if n_burn > 0:
-- 
2.43.0


From ad02fca38565b16b9969b37f0555049f64357878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:49 +0000
Subject: [PATCH 06/20] fix: scan all the values in jaxext.unique when the
 output is shorter than the input

---
 src/bartz/jaxext.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bartz/jaxext.py b/src/bartz/jaxext.py
index 815f2b7..c240789 100644
--- a/src/bartz/jaxext.py
+++ b/src/bartz/jaxext.py
@@ -183,8 +183,10 @@ def unique(x, size, fill_value):
         out = out.at[i_out].set(x)
         return (i_out, i_in + 1, x, out), None
     carry = 0, 0, x[0], jnp.full(size, fill_value, x.dtype)
-    (actual_length, _, _, out), _ = jax.lax.scan(loop, carry, x[:size])
-    return out, actual_length + 1
+    (actual_length, _, _, out), _ = jax.lax.scan(loop, carry, x)
+        # values after the first `size` unique ones are out of bounds, so
+        # they are not written
+    return out, jnp.minimum(actual_length + 1, size)
 
 def autobatch(func, max_io_nbytes, in_axes=0, out_axes=0, return_nbatches=False):
     """
-- 
2.43.0


From 4f1b67313cca890260c9df5e2fd999f3682bb8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:49 +0000
Subject: [PATCH 07/20] fix: overflow in points_per_leaf_distr with at least
 256 leaves

---
 src/bartz/debug.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bartz/debug.py b/src/bartz/debug.py
index 868ab35..4175661 100644
--- a/src/bartz/debug.py
+++ b/src/bartz/debug.py
@@ -86,7 +86,8 @@ def points_per_leaf_distr(var_tree, split_tree, X):
     indices = traverse_tree(X, var_tree, split_tree)
     count_tree = jnp.zeros(2 * split_tree.size, dtype=jaxext.minimal_unsigned_dtype(indices.size))
     count_tree = count_tree.at[indices].add(1)
-    is_leaf = grove.is_actual_leaf(split_tree, add_bottom_level=True).view(jnp.uint8)
+    is_leaf = grove.is_actual_leaf(split_tree, add_bottom_level=True).astype(int)
+        # int weights, because they determine the type of the counts
     return jnp.bincount(count_tree, is_leaf, length=X.shape[1] + 1)
 
 def forest_points_per_leaf_distr(bart, X):
-- 
2.43.0


From ff8be6a9b26c311e2097b4533836f1646b4f4a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:10 +0000
Subject: [PATCH 08/20] fix: no cutpoints in quantilized_splits_from_matrix
 when there are no observations

---
 src/bartz/prepcovars.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bartz/prepcovars.py b/src/bartz/prepcovars.py
index 4319b6b..24239cb 100644
--- a/src/bartz/prepcovars.py
+++ b/src/bartz/prepcovars.py
@@ -53,7 +53,7 @@ def quantilized_splits_from_matrix(X, max_bins):
     max_split : array (p,)
         The number of actually used values in each row of `splits`.
     """
-    out_length = min(max_bins, X.shape[1]) - 1
+    out_length = max(0, min(max_bins, X.shape[1]) - 1)
     # return _quantilized_splits_from_matrix(X, out_length)
     @functools.partial(jaxext.autobatch, max_io_nbytes=2 ** 29)
     def quantilize(X):
@@ -64,7 +64,7 @@ def quantilized_splits_from_matrix(X, max_bins):
 def _quantilized_splits_from_matrix(x, out_length):
     huge = jaxext.huge_value(x)
     u, actual_length = jaxext.unique(x, size=x.size, fill_value=huge)
-    actual_length -= 1
+    actual_length = jnp.maximum(0, actual_length - 1)
     if jnp.issubdtype(x.dtype, jnp.integer):
         midpoints = u[:-1] + jaxext.ensure_unsigned(u[1:] - u[:-1]) // 2
         indices = jnp.arange(midpoints.size, dtype=jaxext.minimal_unsigned_dtype(midpoints.size - 1))
-- 
2.43.0


From eb25d1e104cda42c19ec2366fb1c16397494b3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:04 +0000
Subject: [PATCH 09/20] fix: support empty training data in
 uniform_splits_from_matrix

---
 src/bartz/prepcovars.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bartz/prepcovars.py b/src/bartz/prepcovars.py
index 24239cb..318aeac 100644
--- a/src/bartz/prepcovars.py
+++ b/src/bartz/prepcovars.py
@@ -99,12 +99,15 @@ def uniform_splits_from_matrix(X, num_bins):
     splits : array (p, num_bins - 1)
         A matrix containing, for each predictor, the boundaries between bins.
         The excluded endpoints are the minimum and maximum value in each row of
-        `X`.
+        `X`, or 0 if there are no observations.
     max_split : array (p,)
         The number of cutpoints in each row of `splits`, i.e., ``num_bins - 1``.
     """
-    low = jnp.min(X, axis=1)
-    high = jnp.max(X, axis=1)
+    if X.shape[1]:
+        low = jnp.min(X, axis=1)
+        high = jnp.max(X, axis=1)
+    else:
+        low = high = jnp.zeros(X.shape[0], X.dtype)
     splits = jnp.linspace(low, high, num_bins + 1, axis=1)[:, 1:-1]
     assert splits.shape == (X.shape[0], num_bins - 1)
     max_split = jnp.full(*splits.shape, jaxext.minimal_unsigned_dtype(num_bins - 1))
-- 
2.43.0


From f786295f5975e64782ed2f12bdc08549682c6d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:37 +0000
Subject: [PATCH 10/20] fix: comparison of the columns of pandas dataframes in
 gbart.predict

---
 src/bartz/BART.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/BART.py b/src/bartz/BART.py
index be77301..14df0db 100644
--- a/src/bartz/BART.py
+++ b/src/bartz/BART.py
@@ -256,7 +256,7 @@ class gbart:
     @staticmethod
     def _process_predictor_input(x):
         if hasattr(x, 'columns'):
-            fmt = dict(kind='dataframe', columns=x.columns)
+            fmt = dict(kind='dataframe', columns=list(x.columns))
             x = x.to_numpy().T
         else:
             fmt = dict(kind='array', num_covar=x.shape[0])
-- 
2.43.0


From d13ba149f14707edf08ca478b5b1cf9505e8851f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:42 +0000
Subject: [PATCH 11/20] fix: preserve the dtypes of the state with small_float
 != float32 and with 64 bit types enabled

---
 src/bartz/mcmcstep.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 24f735f..5da955e 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -210,8 +210,8 @@ def init(*,
 
     if save_ratios:
         bart['ratios'] = dict(
-            log_trans_prior=jnp.full(num_trees, jnp.nan),
-            log_likelihood=jnp.full(num_trees, jnp.nan),
+            log_trans_prior=jnp.full(num_trees, jnp.nan, large_float),
+            log_likelihood=jnp.full(num_trees, jnp.nan, large_float),
         )
 
     return bart
@@ -1342,6 +1342,10 @@ def accept_move_and_sample_leaves(X, ntree, resid_batch_size, resid, min_points_
         The acceptance ratios for the moves. Empty if not to be saved.
     """
 
+    # do the calculations with the same precision as the residuals
+    leaf_dtype = leaf_tree.dtype
+    leaf_tree = leaf_tree.astype(resid.dtype)
+
     # sum residuals and count units per leaf, in tree proposed by grow move
     resid_tree = sum_resid(resid, leaf_indices, leaf_tree.size, resid_batch_size)
 
@@ -1382,6 +1386,11 @@ def accept_move_and_sample_leaves(X, ntree, resid_batch_size, resid, min_points_
     mean_post = resid_tree * prelf['mean_factor']
     leaf_tree = mean_post + prelf['centered_leaves']
 
+    # round the leaves to the type they are stored with, such that the residuals
+    # match the stored values
+    leaf_finfo = jnp.finfo(leaf_dtype)
+    leaf_tree = lax.reduce_precision(leaf_tree, leaf_finfo.nexp, leaf_finfo.nmant)
+
     # copy leaves around such that the leaf indices select the right leaf
     to_prune = acc ^ move['grow']
     leaf_tree = (leaf_tree
@@ -1394,7 +1403,7 @@ def accept_move_and_sample_leaves(X, ntree, resid_batch_size, resid, min_points_
     # replace old tree with new tree in function values
     resid += (initial_leaf_tree - leaf_tree)[leaf_indices]
 
-    return resid, leaf_tree, acc, to_prune, ratios
+    return resid, leaf_tree.astype(leaf_dtype), acc, to_prune, ratios
 
 def sum_resid(resid, leaf_indices, tree_size, batch_size):
     """
@@ -1421,7 +1430,7 @@ def sum_resid(resid, leaf_indices, tree_size, batch_size):
         aggr_func = _aggregate_scatter
     else:
         aggr_func = functools.partial(_aggregate_batched_onetree, batch_size=batch_size)
-    return aggr_func(resid, leaf_indices, tree_size, jnp.float32)
+    return aggr_func(resid, leaf_indices, tree_size, resid.dtype)
 
 def _aggregate_batched_onetree(values, indices, size, dtype, batch_size):
     n, = indices.shape
@@ -1569,7 +1578,7 @@ def sample_sigma(bart, key):
     norm2 = jnp.dot(resid, resid, preferred_element_type=bart['opt']['large_float'])
     beta = bart['sigma2_beta'] + norm2 / 2
 
-    sample = random.gamma(key, alpha)
+    sample = random.gamma(key, alpha, dtype=bart['opt']['large_float'])
     bart['sigma2'] = beta / sample
 
     return bart
-- 
2.43.0


From 9477b0843fc39b9bdbffce7ecb606db5103d2737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:26 +0000
Subject: [PATCH 12/20] fix: overflow of the filler in ancestor_variables with
 256 or 65536 predictors

---
 src/bartz/mcmcstep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 5da955e..2c08546 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -618,7 +618,7 @@ def ancestor_variables(var_tree, max_split, node_index):
     def loop(carry, _):
         i, index, ancestor_vars = carry
         index >>= 1
-        var = var_tree[index]
+        var = var_tree[index].astype(ancestor_vars.dtype)
         var = jnp.where(index, var, max_split.size)
         ancestor_vars = ancestor_vars.at[i].set(var)
         return (i - 1, index, ancestor_vars), None
-- 
2.43.0


From e99f2e63bc29d3a32b1ea5ed8ffec74b7a8394b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:39 +0000
Subject: [PATCH 13/20] fix: overflow of the midpoints of large values in
 quantilized_splits_from_matrix

---
 src/bartz/prepcovars.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bartz/prepcovars.py b/src/bartz/prepcovars.py
index 318aeac..3ca98a4 100644
--- a/src/bartz/prepcovars.py
+++ b/src/bartz/prepcovars.py
@@ -70,7 +70,8 @@ def _quantilized_splits_from_matrix(x, out_length):
         indices = jnp.arange(midpoints.size, dtype=jaxext.minimal_unsigned_dtype(midpoints.size - 1))
         midpoints = jnp.where(indices < actual_length, midpoints, huge)
     else:
-        midpoints = (u[1:] + u[:-1]) / 2
+        midpoints = u[1:] / 2 + u[:-1] / 2
+            # divide before adding to avoid overflow
     indices = jnp.linspace(-1, actual_length, out_length + 2)[1:-1]
     indices = jnp.around(indices).astype(jaxext.minimal_unsigned_dtype(midpoints.size - 1))
         # indices calculation with float rather than int to avoid potential
-- 
2.43.0


From edc12fe6507e6304e070be89aee0d47c88354973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:31 +0000
Subject: [PATCH 14/20] fix: overflow in randint_exclude if the range does not
 fit in the type of the excluded values

---
 src/bartz/mcmcstep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 2c08546..1461486 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -683,6 +683,8 @@ def randint_exclude(key, sup, exclude):
         ``u not in exclude``. If all values in the range are excluded, return
         `sup`.
     """
+    exclude = exclude.astype(jnp.promote_types(exclude.dtype, jnp.int32))
+        # because `sup` may not fit in the type of `exclude`
     exclude = jnp.unique(exclude, size=exclude.size, fill_value=sup)
     num_allowed = sup - jnp.count_nonzero(exclude < sup)
     u = random.randint(key, (), 0, num_allowed)
-- 
2.43.0


From 96ef312d2ea249f90c3e6b73d0759ce4c46617af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:46 +0000
Subject: [PATCH 15/20] fix: result of randint_exclude when all the values are
 excluded and some are repeated

---
 src/bartz/mcmcstep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 1461486..b552c9f 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -691,7 +691,7 @@ def randint_exclude(key, sup, exclude):
     def loop(u, i):
         return jnp.where(i <= u, u + 1, u), None
     u, _ = lax.scan(loop, u, exclude)
-    return u
+    return jnp.minimum(u, sup) # if all values are excluded, u may exceed sup
 
 def choose_split(var_tree, split_tree, max_split, leaf_index, key):
     """
-- 
2.43.0


From 637515734fccb7ae772e40ff7b4316ec4716cd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:46 +0000
Subject: [PATCH 16/20] fix: support uint32 predictors in
 quantilized_splits_from_matrix

---
 src/bartz/prepcovars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/prepcovars.py b/src/bartz/prepcovars.py
index 3ca98a4..be3de3b 100644
--- a/src/bartz/prepcovars.py
+++ b/src/bartz/prepcovars.py
@@ -62,7 +62,7 @@ def quantilized_splits_from_matrix(X, max_bins):
 
 @functools.partial(jax.vmap, in_axes=(0, None))
 def _quantilized_splits_from_matrix(x, out_length):
-    huge = jaxext.huge_value(x)
+    huge = jnp.asarray(jaxext.huge_value(x), x.dtype)
     u, actual_length = jaxext.unique(x, size=x.size, fill_value=huge)
     actual_length = jnp.maximum(0, actual_length - 1)
     if jnp.issubdtype(x.dtype, jnp.integer):
-- 
2.43.0


From 4569cc2b073bc413f4f0f41d4e071e57642ce4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:52 +0000
Subject: [PATCH 17/20] fix: loss of all cutpoints in
 quantilized_splits_from_matrix with 257 or 65537 distinct integer values

---
 src/bartz/prepcovars.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bartz/prepcovars.py b/src/bartz/prepcovars.py
index be3de3b..0abef1e 100644
--- a/src/bartz/prepcovars.py
+++ b/src/bartz/prepcovars.py
@@ -67,7 +67,8 @@ def _quantilized_splits_from_matrix(x, out_length):
     actual_length = jnp.maximum(0, actual_length - 1)
     if jnp.issubdtype(x.dtype, jnp.integer):
         midpoints = u[:-1] + jaxext.ensure_unsigned(u[1:] - u[:-1]) // 2
-        indices = jnp.arange(midpoints.size, dtype=jaxext.minimal_unsigned_dtype(midpoints.size - 1))
+        indices = jnp.arange(midpoints.size, dtype=jaxext.minimal_unsigned_dtype(midpoints.size))
+            # the type has to fit actual_length <= midpoints.size
         midpoints = jnp.where(indices < actual_length, midpoints, huge)
     else:
         midpoints = u[1:] / 2 + u[:-1] / 2
-- 
2.43.0


From dc432a5dea18aa7d342b4ef1e8725db7602fd5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:40 +0000
Subject: [PATCH 18/20] fix: division by zero in mcmcstep.init with zero
 degrees of freedom of the error variance prior

---
 src/bartz/mcmcstep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index b552c9f..e4df24a 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -170,7 +170,7 @@ def init(*,
     large_float = jnp.dtype(large_float)
     y = jnp.asarray(y, small_float)
     resid_batch_size, count_batch_size = _choose_suffstat_batch_size(resid_batch_size, count_batch_size, y, 2 ** max_depth * num_trees)
-    sigma2 = jnp.array(sigma2_beta / sigma2_alpha, large_float)
+    sigma2 = jnp.asarray(sigma2_beta, large_float) / jnp.asarray(sigma2_alpha, large_float)
     sigma2 = jnp.where(jnp.isfinite(sigma2) & (sigma2 > 0), sigma2, 1)
 
     bart = dict(
-- 
2.43.0


From 2680a14d7aa1a2ec8e6d0e3f59b84e9af6a7e13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:31 +0000
Subject: [PATCH 19/20] fix: do not drop predictors with small units from the
 regression that sets sigest

---
 src/bartz/BART.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bartz/BART.py b/src/bartz/BART.py
index 14df0db..2751700 100644
--- a/src/bartz/BART.py
+++ b/src/bartz/BART.py
@@ -297,6 +297,9 @@ class gbart:
                 sigest2 = jnp.var(y_train - offset)
             else:
                 x_centered = x_train.T - x_train.mean(axis=1)
+                x_range = x_centered.max(axis=0) - x_centered.min(axis=0)
+                x_centered /= jnp.where(x_range > 0, x_range, jnp.inf)
+                    # lstsq drops the predictors with small scale
                 y_centered = y_train - y_train.mean()
                     # centering is equivalent to adding an intercept column
                 _, chisq, rank, _ = jnp.linalg.lstsq(x_centered, y_centered)
-- 
2.43.0


From 0de029baa4c30a51636d4fa18a89e65ee9453b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:15 +0000
Subject: [PATCH 20/20] fix: nan estimate of the error variance when all the
 predictors are constant

jnp.linalg.lstsq yields nan with a null matrix; in that case the residual sum
of squares is the one around the mean.
---
 src/bartz/BART.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bartz/BART.py b/src/bartz/BART.py
index 2751700..eaa576a 100644
--- a/src/bartz/BART.py
+++ b/src/bartz/BART.py
@@ -304,6 +304,10 @@ class gbart:
                     # centering is equivalent to adding an intercept column
                 _, chisq, rank, _ = jnp.linalg.lstsq(x_centered, y_centered)
                 chisq = chisq.squeeze(0)
+                constant = jnp.all(x_range <= 0)
+                    # lstsq yields nan if all the predictors are constant
+                chisq = jnp.where(constant, jnp.dot(y_centered, y_centered), chisq)
+                rank = jnp.where(constant, 0, rank)
                 dof = len(y_train) - rank
                 sigest2 = chisq / dof
             alpha = sigdf / 2
-- 
2.43.0

