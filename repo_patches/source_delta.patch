From cbf9a284133e42590200b2c20366010c91e24598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:46 +0000
Subject: [PATCH 01/42] fix: SLIM.transform(out=...) crashed when items are not
 strings

---
 skmine/itemsets/slim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 729af50..043ad7a 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -542,7 +542,7 @@ class SLIM(BaseEstimator, TransformerMixin):
         if self.out_ is not None:
             with open(self.out_, 'w') as f:
                 for i, (itemset, usage) in enumerate(zip(itemsets, iusages)):
-                    line = "(" + str(usage) + ") " + " ".join(itemset) + "\n"
+                    line = "(" + str(usage) + ") " + " ".join(map(str, itemset)) + "\n"
                     if self.return_tids_:
                         line += " ".join(map(str, itids[i])) + "\n"
                     f.write(line)
-- 
2.43.0


From d4f47e86fcac594349408ac7337ea830a83d5fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:46 +0000
Subject: [PATCH 02/42] fix: SlimClassifier ignored its pruning parameter

---
 skmine/itemsets/slim_classifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim_classifier.py b/skmine/itemsets/slim_classifier.py
index 5c32764..2903443 100644
--- a/skmine/itemsets/slim_classifier.py
+++ b/skmine/itemsets/slim_classifier.py
@@ -69,7 +69,7 @@ class SlimClassifier(BaseEstimator, ClassifierMixin):
         for c in self.classes_:
             transactions_classes = [transaction for transaction, target in zip(X, y) if target == c]
             self.classes_X_.append(transactions_classes)
-            self.models_.append(SLIM(items=self.items))
+            self.models_.append(SLIM(items=self.items, pruning=self.pruning))
 
         for model, data in zip(self.models_, self.classes_X_):
             model.fit(data)
-- 
2.43.0


From 1f310167cb7d9953fda70032dbf654622218e47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:46 +0000
Subject: [PATCH 03/42] fix: SLIMVectorizer(stop_items=...).fit passed a
 generator where a list is needed

---
 skmine/feature_extraction/slim_vectorizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/feature_extraction/slim_vectorizer.py b/skmine/feature_extraction/slim_vectorizer.py
index 4c4ef0d..f7c0feb 100644
--- a/skmine/feature_extraction/slim_vectorizer.py
+++ b/skmine/feature_extraction/slim_vectorizer.py
@@ -81,7 +81,7 @@ class SLIMVectorizer(SLIM):
 
     def fit(self, D, y=None):
         if self.stop_items is not None:
-            D = _filter_stop_items(D, stop_items=self.stop_items)
+            D = list(_filter_stop_items(D, stop_items=self.stop_items))
         return super().fit(D)
 
     def transform(self, newD, y=None, **tsf_params) -> pd.DataFrame:
-- 
2.43.0


From 2f73bb666cf02844cb89257245872ad38acbeda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:46 +0000
Subject: [PATCH 04/42] fix: make_classification shuffled with an unseeded
 generator

---
 skmine/datasets/_samples_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/datasets/_samples_generator.py b/skmine/datasets/_samples_generator.py
index 51177f6..b564df4 100644
--- a/skmine/datasets/_samples_generator.py
+++ b/skmine/datasets/_samples_generator.py
@@ -175,6 +175,6 @@ def make_classification(
     df = pd.concat(dfs, axis=0)
 
     if shuffle:
-        df = df.sample(frac=1)
+        df = df.sample(frac=1, random_state=random_state)
 
     return df["transaction"], df["class"]
-- 
2.43.0


From 55e64a4c4fddaab36b4cb1254723489180c74551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:24 +0000
Subject: [PATCH 05/42] fix: SLIM.get_support returned supports of the previous
 data after a refit

---
 skmine/itemsets/slim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 043ad7a..b26f637 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -646,6 +646,7 @@ class SLIM(BaseEstimator, TransformerMixin):
 
         # Build Standard Codetable <class 'pandas.core.series.Series'> in usage descending order :
         self.standard_codetable_ = sct
+        SLIM.get_support.cache_clear()  # supports cached on previous data are stale
 
         if self.items is not None:
             # Adds in the standard codetable, the items that do not appear in the transactions. Useful for
-- 
2.43.0


From 90d1dfd61cc58d3f71c4c4a01de051a5dd382e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:24 +0000
Subject: [PATCH 06/42] fix: border_diff crashed on an empty border to subtract

---
 skmine/emerging/mbdldorber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/emerging/mbdldorber.py b/skmine/emerging/mbdldorber.py
index 818ae51..3686ba8 100644
--- a/skmine/emerging/mbdldorber.py
+++ b/skmine/emerging/mbdldorber.py
@@ -39,7 +39,7 @@ def border_diff(U, S):
     See ``BORDER-DIFF`` in section 4.1
     """
     # assert len(R1) < len(U)  # assert we iterate on the smallest ensemble
-    L2 = [{x} for x in U - S[0]]
+    L2 = [{x} for x in U - S[0]] if S else [set()]  # nothing to subtract if S is empty
     for i in range(1, len(S)):
         _L2 = [X | {x} for x in U - S[i] for X in L2]
         L2 = list(filter_minimal(_L2))
-- 
2.43.0


From 565d942c6b7acf3fc3ee34dc717323b9c9e72ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:24 +0000
Subject: [PATCH 07/42] fix: borders_to_patterns emitted patterns that lie
 outside the border

---
 skmine/emerging/mbdldorber.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/skmine/emerging/mbdldorber.py b/skmine/emerging/mbdldorber.py
index 3686ba8..959cf51 100644
--- a/skmine/emerging/mbdldorber.py
+++ b/skmine/emerging/mbdldorber.py
@@ -90,14 +90,13 @@ def borders_to_patterns(left, right, min_size=None):
     -------
     pd.Series
     """
-    min_size = min_size or min(map(len, left))
+    min_size = min_size or min(map(len, left), default=1)
     patterns = list()
     for size in range(len(right) - 1, min_size - 1, -1):  # bigger patterns first
         combs = combinations(right, size)
         for pat in combs:
-            if any((e.issuperset(set(pat)) for e in left)):
-                continue
-            patterns.append(pat)
+            if any((e < set(pat) for e in left)):
+                patterns.append(pat)
 
     return pd.Series(patterns)
 
-- 
2.43.0


From 1c7ee8560c6c9210061d928ee01fbacebf299cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:24 +0000
Subject: [PATCH 08/42] fix: LCM.transform(out=...) deleted a directory named
 TEMP_dir in the working directory

---
 skmine/itemsets/lcm.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/skmine/itemsets/lcm.py b/skmine/itemsets/lcm.py
index ef198f7..3bac82f 100644
--- a/skmine/itemsets/lcm.py
+++ b/skmine/itemsets/lcm.py
@@ -13,6 +13,7 @@ as described in `http://lig-membres.imag.fr/termier/HLCM/hlcm.pdf`
 
 import os
 import shutil
+import tempfile
 from collections import defaultdict
 from itertools import takewhile
 
@@ -164,7 +165,7 @@ class LCM(TransformerMixin, BaseEstimator):
         out : str, default=None
             File where results are written. Discover return None. The 'out' option is usefull 
             to save memory : Instead of store all branch of lcm-tree in memory , each root 
-            branch of lcm is written in a separated file in dir (TEMP_dir), and all files are
+            branch of lcm is written in a separated file in a temporary dir, and all files are
             concatenated in the final 'out' file.
 
         Returns
@@ -218,10 +219,7 @@ class LCM(TransformerMixin, BaseEstimator):
             return df
 
         else:  # store results in files
-            temp_dir = 'TEMP_dir'  # temporary dir where root items branch files are written
-            if os.path.exists(temp_dir):  # remove dir TEMP_dir if it exists
-                shutil.rmtree(temp_dir)
-            os.mkdir(temp_dir)  # create dir TEMP_dir
+            temp_dir = tempfile.mkdtemp()  # temporary dir where root items branch files are written
 
             Parallel(n_jobs=self.n_jobs, prefer="processes")(
                 delayed(self._explore_root)(item, tids, root_file=f"{temp_dir}/root{k}.dat")
-- 
2.43.0


From fa1a33b43e1f3182482b630df5a501a06de6e78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:24 +0000
Subject: [PATCH 09/42] fix: CallBacks could still be modified through
 setdefault, |=, pop, del and clear

---
 skmine/callbacks.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skmine/callbacks.py b/skmine/callbacks.py
index baa9254..3355969 100644
--- a/skmine/callbacks.py
+++ b/skmine/callbacks.py
@@ -96,7 +96,13 @@ class CallBacks(dict):
         raise NotImplementedError(f"{type(self)} is immutable")
 
     __setitem__ = _frozen
+    __delitem__ = _frozen
+    __ior__ = _frozen
     update = _frozen
+    setdefault = _frozen
+    pop = _frozen
+    popitem = _frozen
+    clear = _frozen
 
     def __call__(self, miner):
         # print("dir(miner)", dir(miner))
-- 
2.43.0


From ca91e085be5105452fa0df4379e1458ded2f0c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:48 +0000
Subject: [PATCH 10/42] fix: MDLPDiscretizer.transform applied cut points by
 position when DataFrame columns come in another order

---
 skmine/preprocessing/mdlp_discretizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skmine/preprocessing/mdlp_discretizer.py b/skmine/preprocessing/mdlp_discretizer.py
index 468e419..a9c4ec0 100644
--- a/skmine/preprocessing/mdlp_discretizer.py
+++ b/skmine/preprocessing/mdlp_discretizer.py
@@ -241,10 +241,11 @@ class MDLPDiscretizer(BaseMiner):
         if isinstance(X, pd.DataFrame) and not set(self.cut_points_) == set(X.columns):
             raise ValueError(f"X columns should be {self.cut_points_.keys()}")
         _X = X.values if isinstance(X, pd.DataFrame) else X
+        columns = X.columns if isinstance(X, pd.DataFrame) else self.cut_points_
 
         vects = Parallel(n_jobs=self.n_jobs, prefer="threads")(
-            delayed(np.searchsorted)(cut_points, _X[:, idx])
-            for idx, cut_points in enumerate(self.cut_points_.values())
+            delayed(np.searchsorted)(self.cut_points_[column], _X[:, idx])
+            for idx, column in enumerate(columns)
         )
 
         vects = [v.reshape(len(v), 1) for v in vects]
-- 
2.43.0


From 6dde3a46b1413bbdf47b7586f0d9f83b07bbdc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:54 +0000
Subject: [PATCH 11/42] fix: SlimClassifier.predict ignored code lengths above
 ~517 bits, where scores underflow to 0

---
 skmine/itemsets/slim_classifier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim_classifier.py b/skmine/itemsets/slim_classifier.py
index 2903443..0aab5c3 100644
--- a/skmine/itemsets/slim_classifier.py
+++ b/skmine/itemsets/slim_classifier.py
@@ -89,7 +89,8 @@ class SlimClassifier(BaseEstimator, ClassifierMixin):
             Class labels for samples in X
         """
         check_is_fitted(self, "classes_")
-        self.models_scores = np.vstack([model.decision_function(X).values for model in self.models_]).T
+        # the shortest code wins. Compare code lengths, not `decision_function`, which underflows on long codes
+        self.models_scores = np.vstack([-model.get_code_length(X).values for model in self.models_]).T
 
         return self.classes_[self.models_scores.argmax(axis=1)]
 
-- 
2.43.0


From e3db64b5f93fd32d75616966f5646d74c45fe94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:43 +0000
Subject: [PATCH 12/42] fix: LCMMax.transform(max_length=...) raised KeyError
 when no itemset is frequent

---
 skmine/itemsets/lcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/lcm.py b/skmine/itemsets/lcm.py
index 3bac82f..c9ee17c 100644
--- a/skmine/itemsets/lcm.py
+++ b/skmine/itemsets/lcm.py
@@ -363,7 +363,7 @@ class LCMMax(LCM, TransformerMixin):
 
         # keeps only itemsets smaller than max_length
         if self.max_length_ != -1:
-            length_mask = patterns.itemset.apply(lambda x: len(x) <= self.max_length_)
+            length_mask = patterns.itemset.map(len) <= self.max_length_
             patterns = patterns[length_mask]
             patterns.reset_index(drop=True, inplace=True)
 
-- 
2.43.0


From 89bced4ceeae4aa4902c5125e0a1aac8153b7533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:31 +0000
Subject: [PATCH 13/42] fix: SLIMVectorizer gave NaN features when no itemset
 found in new data was used in training

---
 skmine/feature_extraction/slim_vectorizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/feature_extraction/slim_vectorizer.py b/skmine/feature_extraction/slim_vectorizer.py
index f7c0feb..8f92f8d 100644
--- a/skmine/feature_extraction/slim_vectorizer.py
+++ b/skmine/feature_extraction/slim_vectorizer.py
@@ -116,7 +116,7 @@ class SLIMVectorizer(SLIM):
         mat = pd.DataFrame(mat, columns=list(covers.keys()))
 
         if self.strategy == "codes":
-            ct_codes = code_lengths[isets.index] / code_lengths.sum()
+            ct_codes = code_lengths[isets.index] / max(code_lengths.sum(), 1)  # usages can all be null
             mat = (mat * ct_codes).astype(np.float32)
 
         return mat
-- 
2.43.0


From 91aae19b5e390b75e68219b2db3de2418a779540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:30 +0000
Subject: [PATCH 14/42] fix: rejecting NaN or inf left the pandas option
 mode.use_inf_as_na switched on

---
 skmine/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skmine/utils.py b/skmine/utils.py
index 7e1ac89..a7887ad 100644
--- a/skmine/utils.py
+++ b/skmine/utils.py
@@ -114,10 +114,10 @@ def _check_D_sklearn(D):
     if D.shape[1] == 0:  # SKLEARN : check_empty_data_messages
         raise ValueError("Empty data")
 
-    pd.options.mode.use_inf_as_na = True
-    if D.isnull().values.any():
+    with pd.option_context("mode.use_inf_as_na", True):
+        has_null = D.isnull().values.any()
+    if has_null:
         raise ValueError("esimator does not check for NaN and inf")
-    pd.options.mode.use_inf_as_na = False
 
 
 def _check_D(D):
-- 
2.43.0


From 2dbf09f76af5143eb98c7b41c0ca8a72c40a0fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:30 +0000
Subject: [PATCH 15/42] fix: intersect2d missed common rows whose first value
 is shared with another row

---
 skmine/utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/skmine/utils.py b/skmine/utils.py
index a7887ad..525c852 100644
--- a/skmine/utils.py
+++ b/skmine/utils.py
@@ -180,13 +180,11 @@ def intersect2d(ar1, ar2, return_indices=True):
     """
     ar1, ar2 = np.asanyarray(ar1), np.asanyarray(ar2)
     assert ar1.ndim == ar2.ndim == 2
-    _, x_ind, y_ind = np.intersect1d(ar1[:, 0], ar2[:, 0], return_indices=True)
-    x, y = ar1[x_ind], ar2[y_ind]
-    xy_where = np.argwhere((x == y).all(axis=1)).reshape(-1)
-    x_ind = x_ind[xy_where]
+    # equal rows get equal ids, in the lexicographic order of the rows
+    ids = np.unique(np.concatenate((ar1, ar2)), axis=0, return_inverse=True)[1].reshape(-1)
+    _, x_ind, y_ind = np.intersect1d(ids[:len(ar1)], ids[len(ar1):], return_indices=True)
 
     if return_indices:
-        y_ind = y_ind[xy_where]
         return ar1[x_ind], x_ind, y_ind
     else:
         return ar1[x_ind]
-- 
2.43.0


From 2439b2d225c128b9f422363a4f483ae69feb19f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:59 +0000
Subject: [PATCH 16/42] fix: describe_logs raised TypeError on logs indexed by
 datetimes

---
 skmine/datasets/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/datasets/utils.py b/skmine/datasets/utils.py
index 628609f..ad8c35a 100644
--- a/skmine/datasets/utils.py
+++ b/skmine/datasets/utils.py
@@ -71,6 +71,6 @@ def describe_logs(D):
 
     return dict(
         n_events=len(gb),
-        avg_delta_per_event=a.str[0].mean(),
+        avg_delta_per_event=a.str[0].infer_objects().mean(),
         avg_nb_points_per_event=avg_nb_points,
     )
-- 
2.43.0


From 9df6f803df0b5a5552e1bf8e100741b124d5b6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:13 +0000
Subject: [PATCH 17/42] fix: PeriodicPatternMiner.reconstruct and get_residuals
 raised KeyError when there is no pattern or no residual

---
 skmine/periodic/cycles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 2dcb750..478f661 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -346,7 +346,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
                 reconstruct_list.append(dict_)
 
-        reconstruct_pd = pd.DataFrame(reconstruct_list)
+        reconstruct_pd = pd.DataFrame(reconstruct_list, columns=["time", "event"])
 
         if self.is_datetime_:
             reconstruct_pd['time'] = reconstruct_pd['time'].astype("datetime64[ns]")
@@ -402,7 +402,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
             dict_ = {"time": time0, "event": map_ev[res[1]]}
             residuals_transf_list.append(dict_)
 
-        residuals_transf_pd = pd.DataFrame(residuals_transf_list)
+        residuals_transf_pd = pd.DataFrame(residuals_transf_list, columns=["time", "event"])
 
         if self.auto_time_scale and self.is_datetime_:
             residuals_transf_pd['time'] = residuals_transf_pd['time'].astype("datetime64[ns]")
-- 
2.43.0


From a7e7f01933199941c1f16f976e61e19ca5344f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:22 +0000
Subject: [PATCH 18/42] fix:
 PeriodicPatternMiner(auto_time_scale=False).transform and export_patterns
 used an unset attribute

---
 skmine/periodic/cycles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 478f661..a61e587 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -142,6 +142,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         else:
             serie.index = S_times_nano
             resolution = "nano-second"
+            self.n_zeros_ = 0
             self.div_nb_sec_ = 1
 
         # TODO : merge self.div_nb_sec_ and self.n_zeros_ to just one number, by which nano-seconds are divided
-- 
2.43.0


From 6c557221f14e46c1266070b162f7b7dff4066488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:44 +0000
Subject: [PATCH 19/42] fix: PeriodicPatternMiner.fit crashed when different
 events share a timestamp

---
 skmine/periodic/cycles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index a61e587..0457854 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -125,9 +125,9 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
             len_S = len(serie)
             serie = serie.groupby(by=serie.index).apply(lambda x: x.drop_duplicates())
             # if same time and same event,  create Multi inde names =[timestamp, timestamp]
+            serie = serie.reset_index(level=0, drop=True)
             diff = len_S - len(serie)
             if diff:
-                serie = serie.reset_index(level=0, drop=True)
                 warnings.warn(f"found {diff} duplicates in the input sequence, they have been removed.")
 
         S_times_nano = serie.index.astype("int64")
-- 
2.43.0


From 6496c1bbd62bfccbfc38db6809a10a3bf5b7873f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:54 +0000
Subject: [PATCH 20/42] fix: PeriodicPatternMiner.get_residuals(patterns_id)
 compared rows of different patterns by position

---
 skmine/periodic/cycles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 0457854..d907ef0 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -412,7 +412,8 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
         reconstruct_ = self.reconstruct(patterns_id)
         reconstruct_all = self.reconstruct()
-        complementary_reconstruct = reconstruct_all[~reconstruct_all.isin(reconstruct_)].dropna()
+        complementary_reconstruct = reconstruct_all.merge(reconstruct_, how="left", indicator=True)
+        complementary_reconstruct = complementary_reconstruct[complementary_reconstruct.pop("_merge") == "left_only"]
 
         if pd.merge(reconstruct_all, residuals_transf_pd, how='inner').empty:
             residuals_transf_pd = pd.concat([residuals_transf_pd, complementary_reconstruct], ignore_index=True)
-- 
2.43.0


From 77f88318c7a1491608a941c747282a731829bcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:02 +0000
Subject: [PATCH 21/42] fix:
 PeriodicPatternMiner(auto_time_scale=False).get_residuals failed on logs
 indexed by datetimes

---
 skmine/periodic/cycles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index d907ef0..eda5dc9 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -405,7 +405,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
         residuals_transf_pd = pd.DataFrame(residuals_transf_list, columns=["time", "event"])
 
-        if self.auto_time_scale and self.is_datetime_:
+        if self.is_datetime_:
             residuals_transf_pd['time'] = residuals_transf_pd['time'].astype("datetime64[ns]")
         else:
             residuals_transf_pd['time'] = residuals_transf_pd['time'].astype("int64")
-- 
2.43.0


From 6265bfb9f126becf6d6f4720dce4d99369532223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:27 +0000
Subject: [PATCH 22/42] fix: PeriodicPatternMiner.fit failed on logs that are
 not in chronological order

---
 skmine/periodic/cycles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index eda5dc9..94783f5 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -119,7 +119,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
             raise TypeError(f"S must have an index with a type amongst {INDEX_TYPES}")
 
         self.is_datetime_ = isinstance(S.index, pd.DatetimeIndex)
-        serie = S.copy(deep=True)
+        serie = S.sort_index(kind="stable")  # a copy: cycles are searched in chronological order
         if serie.index.duplicated().any():  # there are potentially duplicates, i.e. occurrences that happened at the
             # same time AND with the same event. At this line, the second condition is not yet verified.
             len_S = len(serie)
-- 
2.43.0


From a9cbefe53fa13fd114739331fbafcd0eb86320d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:22 +0000
Subject: [PATCH 23/42] fix: PeriodicPatternMiner.export_patterns failed, or
 exported patterns of a previous fit, when no pattern is found

---
 skmine/periodic/cycles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 94783f5..34c502c 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -206,6 +206,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
                                                                                is_datetime=self.is_datetime_)
 
         if not patterns_list_of_dict:
+            self.cycles = pd.DataFrame(columns=["pattern_json_tree"])
             return pd.DataFrame()  # FIXME
 
         self.cycles = pd.DataFrame(patterns_list_of_dict)
-- 
2.43.0


From 1dbd230bf7dc0dd13841a4fd9c0eb3d95081797e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:33 +0000
Subject: [PATCH 24/42] fix: exporting imported patterns raised AttributeError

---
 skmine/periodic/cycles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 34c502c..5a7a566 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -278,6 +278,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         self.n_zeros_ = big_dict["n_zeros_"]
         self.div_nb_sec_ = big_dict["div_nb_sec_"]
         self.is_datetime_ = big_dict["is_datetime_"]
+        self.alpha_groups_ = {k: pd.Index(v) for k, v in big_dict["data_details"].items()}
         self.data_details_ = DataSequence(dict(big_dict["data_details"]))
         big_dict_list = big_dict["patterns"]
 
-- 
2.43.0


From 5a47e308d45d7aaa9f934109189fcf30809d121e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:13 +0000
Subject: [PATCH 25/42] fix: patterns imported by a miner with
 auto_time_scale=False were not restored to their time unit

---
 skmine/periodic/cycles.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 5a7a566..2e2fa49 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -340,10 +340,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
             occs = p.getOccs(occsStar, t0, Ed)
 
             for k, occ in enumerate(occs):
-                if self.auto_time_scale:
-                    time0 = occ * 10 ** self.n_zeros_ * self.div_nb_sec_ # restore time in nano-second
-                else:
-                    time0 = occ
+                time0 = occ * 10 ** self.n_zeros_ * self.div_nb_sec_ # restore time in nano-second
                 dict_ = {'time': time0,
                          "event": map_ev[occsStar[k][1]]}
 
@@ -398,10 +395,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         residuals_transf_list = []
 
         for res in residuals:
-            if self.auto_time_scale:
-                time0 = res[0] * 10 ** self.n_zeros_ * self.div_nb_sec_  # restore time in nano-second
-            else:
-                time0 = res[0]
+            time0 = res[0] * 10 ** self.n_zeros_ * self.div_nb_sec_  # restore time in nano-second
             dict_ = {"time": time0, "event": map_ev[res[1]]}
             residuals_transf_list.append(dict_)
 
-- 
2.43.0


From d5626065a0c76ac1f34cb8815fdb5a7f9868c8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:41 +0000
Subject: [PATCH 26/42] fix: combine_splits dropped segments when the next
 block only repeats part of the last one

---
 skmine/periodic/extract_cycles.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skmine/periodic/extract_cycles.py b/skmine/periodic/extract_cycles.py
index 3aa0302..03eddcf 100644
--- a/skmine/periodic/extract_cycles.py
+++ b/skmine/periodic/extract_cycles.py
@@ -122,6 +122,8 @@ def combine_splits(splits, adj_splits):
                         # first adj ends before current splits
                         adj_splits.pop(0)
                         if len(adj_splits) == 0:
+                            # nothing left to append, keep all current splits
+                            prev_i = len(splits)
                             ready = True
                     else:
                         adj_splits[0] = (splits[prev_i][0], adj_splits[0][1])
-- 
2.43.0


From 1a79ffcd5e82475d492b7b4102421ef0d7cd9fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:04 +0000
Subject: [PATCH 27/42] fix: extract_cycles_fold ignored the last occurrences
 of long sequences and misplaced chains

---
 skmine/periodic/extract_cycles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/periodic/extract_cycles.py b/skmine/periodic/extract_cycles.py
index 03eddcf..13e75de 100644
--- a/skmine/periodic/extract_cycles.py
+++ b/skmine/periodic/extract_cycles.py
@@ -219,7 +219,7 @@ def extract_cycles_fold(occs, alpha, data_details, bound_dE, eff_trip, eff_chain
     else:
         chains, triples = extract_cycles_fold_sub(
             occs[:1500], alpha, data_details, bound_dE, eff_trip, eff_chain, max_p=max_p)
-        for i in range(1, int(len(occs) / 1500)):
+        for i in range(1, int(numpy.ceil(len(occs) / 1500))):
             chains_tmp, triples_tmp = extract_cycles_fold_sub(
                 occs[i * 1500:(i + 1) * 1500], alpha, data_details, bound_dE, eff_trip, eff_chain, i * 1500,
                 max_p=max_p)
@@ -325,6 +325,7 @@ def extract_cycles_fold_sub(occs, alpha, data_details, bound_dE, eff_trip, eff_c
         prd = computePeriod(occs_chain)
         cost = computeLengthCycle(
             data_details, {"p": prd, "alpha": alpha, "occs": occs_chain})
+        current = [c + offset for c in current]
         if (eff_chain < 0 and cost < (-eff_chain) * (len(occs_chain) - 1)) or (cost / len(occs_chain) < eff_chain):
             chains.append({"alpha": alpha, "p": prd, "cost": cost,
                            "pos": current, "occs": occs_chain, "uncov": set(current)})
-- 
2.43.0


From 221c58edb5fb5213c5945fcfb6694b4841fe4324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:29 +0000
Subject: [PATCH 28/42] fix: GraphMDL.fit raised TypeError when a candidate had
 already been tested, and would not stop without improvement

---
 skmine/graph/graphmdl/graph_mdl.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 70a4d3b..27cc86e 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -152,7 +152,10 @@ class GraphMDL(BaseMiner):
                             # if the candidate not improve the result, remove it to the code table
                             self._code_table.remove_row(row)
                     else:
-                        utils.MyLogger().debug("Already test")
+                        utils.MyLogger.debug("Already test")
+                else:
+                    # no candidate improves the code table
+                    stop = self._graph_mdl_end()
             else:
                 stop = self._graph_mdl_end()
                 if self._timeout is not None:
-- 
2.43.0


From bd3d98cc46db81446da0dff7b2680dfe5029a9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:29 +0000
Subject: [PATCH 29/42] fix: merged graph patterns carried unhashable label
 lists

---
 skmine/graph/graphmdl/candidate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/graph/graphmdl/candidate.py b/skmine/graph/graphmdl/candidate.py
index 83163b4..d340284 100644
--- a/skmine/graph/graphmdl/candidate.py
+++ b/skmine/graph/graphmdl/candidate.py
@@ -156,7 +156,7 @@ class Candidate:
                 for l in first_label:
                     if l not in label:
                         label.append(l)
-                return label
+                return tuple(label)
         else:
             label = list(second_label)
             if type(first_label) is str:
@@ -166,7 +166,7 @@ class Candidate:
                 for l in first_label:
                     if l not in label:
                         label.append(l)
-            return label
+            return tuple(label)
 
     def _is_ports_equals(self, ports):
         """ Check if the candidate ports list are similar to a given ports list
-- 
2.43.0


From 259785952796765f2c9592c64242063aa6de2d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:52 +0000
Subject: [PATCH 30/42] fix: get_total_label dropped vertex labels that are
 also edge labels

---
 skmine/graph/graphmdl/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/skmine/graph/graphmdl/utils.py b/skmine/graph/graphmdl/utils.py
index 2f5b8fc..0002abd 100644
--- a/skmine/graph/graphmdl/utils.py
+++ b/skmine/graph/graphmdl/utils.py
@@ -107,11 +107,10 @@ def get_total_label(graph: Graph):
          float
     """
 
-    labels = count_edge_label(graph)
-    labels.update(count_vertex_label(graph))
     total = 0.0  # The total number of labels in the graph
-    for i in labels.values():
-        total = total + i
+    for labels in (count_edge_label(graph), count_vertex_label(graph)):
+        for i in labels.values():
+            total = total + i
 
     return total
 
-- 
2.43.0


From cb597ab747f5d535b2baf70ed2ff215c50154d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:52 +0000
Subject: [PATCH 31/42] fix: used embeddings of a code table row accumulated
 over covers

---
 skmine/graph/graphmdl/code_table.py     | 1 +
 skmine/graph/graphmdl/code_table_row.py | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index ac22bdb..2d83fd1 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -762,6 +762,7 @@ class CodeTable:
         """
         cover_usage = 0
         port_usage = dict()
+        row.reset_used_embeddings()
         if not utils.is_without_edge(row.pattern()):
             for embedding in row.embeddings():
                 if not self.is_embedding_marked(embedding, row.pattern(), graph, cover_marker):
diff --git a/skmine/graph/graphmdl/code_table_row.py b/skmine/graph/graphmdl/code_table_row.py
index bedf673..70f6b55 100644
--- a/skmine/graph/graphmdl/code_table_row.py
+++ b/skmine/graph/graphmdl/code_table_row.py
@@ -96,6 +96,9 @@ class CodeTableRow:
     def add_used_embeddings(self, embedding):
         self._used_embeddings.append(embedding)
 
+    def reset_used_embeddings(self):
+        self._used_embeddings = []
+
     def used_embeddings(self):
         return self._used_embeddings
 
-- 
2.43.0


From 044d57890ec9c4c0ab973ff547c881d4a9b411f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:43 +0000
Subject: [PATCH 32/42] fix: matching of multigraph patterns only looked at the
 first of parallel edges

---
 skmine/graph/graphmdl/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/skmine/graph/graphmdl/utils.py b/skmine/graph/graphmdl/utils.py
index 0002abd..c6e76c6 100644
--- a/skmine/graph/graphmdl/utils.py
+++ b/skmine/graph/graphmdl/utils.py
@@ -334,10 +334,9 @@ def _edge_match_for_multigraph(edge1, edge2):
     -------
     bool
     """
-    edge1_values = dict(edge1).values()
-    edge2_values = dict(edge2).values()
-    edge1_labels = [list(edge1_values)[0][i] for i in list(edge1_values)[0].keys() if i == 'label']
-    edge2_labels = [list(edge2_values)[0][i] for i in list(edge2_values)[0].keys() if i == 'label']
+    # all the parallel edges count, not only the first one
+    edge1_labels = [data['label'] for data in dict(edge1).values() if 'label' in data]
+    edge2_labels = [data['label'] for data in dict(edge2).values() if 'label' in data]
     if len(edge2_labels) != 0 and len(edge1_labels) != 0:
         return not (False in [label in edge1_labels for label in edge2_labels])
     else:
-- 
2.43.0


From 8db3283e377a8e131e287e621fc4a76451054a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:43 +0000
Subject: [PATCH 33/42] fix: rewriting a graph took a pattern vertex for the
 port when a label is written like a node number

---
 skmine/graph/graphmdl/code_table.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index 2d83fd1..43ffd44 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -742,8 +742,10 @@ class CodeTable:
         rewritten_node
         data_node : the port node in the initial data graph
         """
-        if str(data_node) in dict(rewritten_graph.nodes(data='label')).values():
-            port_node = utils.get_key_from_value(dict(rewritten_graph.nodes(data='label')), str(data_node))
+        port_nodes = {node: data['label'] for node, data in rewritten_graph.nodes(data=True)
+                      if 'is_Pattern' not in data}
+        if str(data_node) in port_nodes.values():
+            port_node = utils.get_key_from_value(port_nodes, str(data_node))
             rewritten_graph.add_edge(rewritten_node, port_node, label=f"v{kwargs['pattern_port']}")
         else:
             last = len(rewritten_graph.nodes())
-- 
2.43.0


From 99151004edf2b089506e4f1d64d93fd4e7fd0a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:39 +0000
Subject: [PATCH 34/42] fix: edge labels of the rewritten graph were encoded
 from port numbers instead of port usages

---
 skmine/graph/graphmdl/code_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index 43ffd44..153b683 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -174,7 +174,7 @@ class CodeTable:
                  if 'is_Pattern' not in node[1]])
 
             # edges labels
-            edges_label = [utils.prequential_code([v for v in row.pattern_port_usage().keys()])
+            edges_label = [utils.prequential_code([v for v in row.pattern_port_usage().values()])
                            for row in self._rows if row.pattern_usage() != 0]
             # the code for vertex pattern is zero
             edges_label.extend([utils.prequential_code([v, v]) for v in self._edge_singleton_usage.values()])
-- 
2.43.0


From 92b3f5a8fae38436504d24b0f4895c6c76074fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:59 +0000
Subject: [PATCH 35/42] fix: GraphMDL.discover raised AttributeError when a
 pattern was found

---
 skmine/graph/graphmdl/code_table_row.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/code_table_row.py b/skmine/graph/graphmdl/code_table_row.py
index 70f6b55..68487c8 100644
--- a/skmine/graph/graphmdl/code_table_row.py
+++ b/skmine/graph/graphmdl/code_table_row.py
@@ -179,7 +179,7 @@ class CodeTableRow:
         -------
         list
         """
-        return [utils.draw_pattern(self._pattern), self._pattern_usage, self._code_length,
+        return [utils.display_graph(self._pattern), self._pattern_usage, self._code_length,
                 len(self._pattern_port_usage),
                 self._pattern_port_usage, self._port_code_length]
 
-- 
2.43.0


From f2257049a7769eefa0151262e1c2f8483277bc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:59 +0000
Subject: [PATCH 36/42] fix: GraphMDL.patterns left out a pattern that covers
 the whole graph by itself

---
 skmine/graph/graphmdl/graph_mdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 27cc86e..66892bd 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -266,7 +266,7 @@ class GraphMDL(BaseMiner):
         self._patterns = set()
         if self._code_table is not None:
             for r in self._code_table.rows():
-                if r.code_length() != 0:
+                if r.pattern_usage() != 0:
                     self._patterns.add(r.pattern())
 
             for s in self._code_table.singleton_code_length().keys():
-- 
2.43.0


From 8d9950e984a075ad44da6d0462a9c24a02ce2bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:55 +0000
Subject: [PATCH 37/42] fix: pruning of GraphMDL modified the list it iterates
 over

---
 skmine/graph/graphmdl/graph_mdl.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 66892bd..f1ef716 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -228,7 +228,7 @@ class GraphMDL(BaseMiner):
         """
         for r in self._code_table.rows():
             if r.pattern() in self._old_usage.keys():
-                if r.pattern_usage() < self._old_usage[r.pattern()]:
+                if r.pattern_usage() < self._old_usage[r.pattern()] and r not in self._pruning_rows:
                     self._pruning_rows.append(r)
 
     def _pruning(self):
@@ -239,19 +239,20 @@ class GraphMDL(BaseMiner):
             because without them the code table is better.
         """
         utils.MyLogger.info(f"Pruning start ....")
-        self._compute_old_usage()  # compute old pattern usage
-        self._pruning_rows.sort(key=_order_pruning_rows)  # sort the pruning rows
-        for r in self._pruning_rows:
+        while self._pruning_rows:
+            self._pruning_rows.sort(key=_order_pruning_rows)  # sort the pruning rows
+            r = self._pruning_rows.pop(0)
+            self._compute_old_usage()  # compute old pattern usage
             self._code_table.remove_row(r)
             self._code_table.cover()
-            if self._code_table.compute_total_description_length() < self._description_length:
+            description_length = self._code_table.compute_total_description_length()
+            if description_length < self._description_length:
                 self._rewritten_graph = self._code_table.rewritten_graph()
-                self._description_length = self._code_table.compute_total_description_length()
-                self._pruning_rows.remove(r)
+                self._description_length = description_length
                 self._compute_pruning_candidates()  # recompute the pruning candidates
-                self._pruning()
             else:
                 self._code_table.add_row(r)
+                self._code_table.cover()
 
         utils.MyLogger.info("Pruning end ....")
 
-- 
2.43.0


From a837e53458810926303d9a3390cee29078c1fada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:36 +0000
Subject: [PATCH 38/42] fix: rewriting lost the identity of nodes whose labels
 were covered by a pattern without edges

---
 skmine/graph/graphmdl/code_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index 153b683..7f04af2 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -620,7 +620,8 @@ class CodeTable:
         i = 0
         while i <= len(keys) - 1:
             if not self.is_node_edges_marked(graph, keys[i], pattern, values[i]) \
-                    or not self.is_node_all_labels_marked(keys[i], graph, cover_marker):
+                    or not self.is_node_all_labels_marked(keys[i], graph, cover_marker) \
+                    or not utils._node_match(pattern.nodes[values[i]], graph.nodes[keys[i]]):
                 res.append((keys[i], values[i]))
                 if 'port' not in graph.nodes[keys[i]]:  # if the node is not already marked as port
                     graph.nodes[keys[i]]['port'] = True  # mark it
-- 
2.43.0


From 3549915680299345e8ed0ebfa9eadacba7a6dee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:07 +0000
Subject: [PATCH 39/42] fix: SLIM kept itemsets that pruning had made unused

---
 skmine/itemsets/slim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index b26f637..39a92f3 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -763,6 +763,10 @@ class SLIM(BaseEstimator, TransformerMixin):
             # lowest usage in CTc
             prune_set.discard(cand)  # remove cand from prune_set
 
+            if len(CTc[cand]) == 0:  # not used any more after another itemset was pruned
+                del CTc[cand]
+                continue
+
             ct = list(CTc)
             ct.remove(cand)
 
-- 
2.43.0


From 09c36c825aca56bf881f614c4ea8393a7a4402b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:47 +0000
Subject: [PATCH 40/42] fix: SLIM.evaluate lost the data covered by a candidate
 already in the code table

---
 skmine/itemsets/slim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 39a92f3..eca55ac 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -388,7 +388,8 @@ class SLIM(BaseEstimator, TransformerMixin):
         # Get the id (``idx``) of the insertion of ``candidate`` in codetable w.r.t the standard cover order
         idx = self.codetable_.bisect(candidate)
         ct = list(self.codetable_)
-        ct.insert(idx, candidate)  # Insert the candidate to the CT w.r.t the usage order
+        if candidate not in self.codetable_:  # covering with the same itemset twice would lose its usage
+            ct.insert(idx, candidate)  # Insert the candidate to the CT w.r.t the usage order
         D = {k: v.copy() for k, v in self.standard_codetable_.items()}
         # Get the cover a standard codetable D with CT itemsets
         CTc = cover(D, ct)  # CTc is sorted in Standard Cover Order like D
-- 
2.43.0


From 343411a2ce783c661ac88baa4c055fd97504862a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:42 +0000
Subject: [PATCH 41/42] fix: read datetime indexes of any resolution as
 nanoseconds when mining periodic cycles

---
 skmine/periodic/cycles.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 2e2fa49..8bec115 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -130,7 +130,9 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
             if diff:
                 warnings.warn(f"found {diff} duplicates in the input sequence, they have been removed.")
 
-        S_times_nano = serie.index.astype("int64")
+        # datetimes may have a coarser resolution than nano-second
+        times = serie.index.values.astype("datetime64[ns]") if self.is_datetime_ else serie.index
+        S_times_nano = times.astype("int64")
         verbose = False
         if self.auto_time_scale:
             converted_times_res, n_digit_nano_shifted, resolution, div_nb_sec = autoscale_time_unit(S_times_nano,
-- 
2.43.0


From 3e02bb2ea13ee1eb51fa0de5b3ffbc622c9bcfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:42 +0000
Subject: [PATCH 42/42] fix: keep events whose name reads as a missing value in
 the periodic datasets

---
 skmine/datasets/periodic.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/skmine/datasets/periodic.py b/skmine/datasets/periodic.py
index 52ccf74..c82066b 100644
--- a/skmine/datasets/periodic.py
+++ b/skmine/datasets/periodic.py
@@ -38,7 +38,8 @@ def fetch_file(filepath, separator=',', format=None):
         Logs from the custom dataset, as an in-memory pandas Series.
         Events are indexed by timestamps.
     """
-    s = pd.read_csv(filepath, sep=separator, header=None, dtype="string", skipinitialspace=True).squeeze(axis="columns")
+    s = pd.read_csv(filepath, sep=separator, header=None, dtype="string", skipinitialspace=True,
+                    keep_default_na=False).squeeze(axis="columns")  # events can be named NA, null...
     if type(s) == pd.DataFrame:
         s = pd.Series(s[1].values, index=s[0])
         try:
@@ -85,7 +86,7 @@ def fetch_health_app(data_home=None, filename="health_app.csv"):
     """
     data_home = data_home or get_data_home()
     p = os.path.join(data_home, filename)
-    kwargs = dict(header=None, index_col=0, dtype="string")
+    kwargs = dict(header=None, index_col=0, dtype="string", keep_default_na=False)
     if filename in os.listdir(data_home):
         s = pd.read_csv(p, **kwargs).squeeze(axis="columns")
     else:
@@ -141,7 +142,7 @@ def fetch_canadian_tv(data_home=None, filename="canadian_tv.txt"):
     """
     data_home = data_home or get_data_home()
     p = os.path.join(data_home, filename)
-    kwargs = dict(header=None, dtype="string", index_col=0)
+    kwargs = dict(header=None, dtype="string", index_col=0, keep_default_na=False)
 
     if filename not in os.listdir(data_home):
         s = pd.read_csv(canadianTV_url, **kwargs).squeeze(axis="columns")
@@ -235,7 +236,7 @@ def read_ubiq_user(filename: str) -> tuple:
        Events are indexed by timestamps, time unit used is second
     """
     sep = "\t"
-    df = pd.read_csv(filename, sep=sep, header=None, dtype="string")
+    df = pd.read_csv(filename, sep=sep, header=None, dtype="string", keep_default_na=False)
     user_info, start_time_str = df.loc[0]
     datetime_str = start_time_str.split('=')[1]
     user = user_info.split('=')[1]
-- 
2.43.0

