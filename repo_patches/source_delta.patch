From 28c77f104422fd7d62f73fdb4030bd49879a5123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:51 +0000
Subject: [PATCH 01/57] fix: keep fractional values in rowwise train/test split

---
 cpp_source/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index a19e162..0cbc3d7 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -76,7 +76,7 @@ struct SplitFunction {
   split_imple(const CSRMatrix<Real> &X, std::int64_t random_seed,
               Args... args) {
     Derived::check_args(args...);
-    using Triplet = Eigen::Triplet<Integer>;
+    using Triplet = Eigen::Triplet<Real>;
     std::mt19937 random_state(random_seed);
     std::vector<Integer> col_buffer;
     std::vector<Real> data_buffer;
@@ -105,7 +105,7 @@ struct SplitFunction {
       }
     }
     CSRMatrix<Real> X_train(X.rows(), X.cols()), X_test(X.rows(), X.cols());
-    auto dupfunction = [](const Integer &a, const Integer &b) { return a + b; };
+    auto dupfunction = [](const Real &a, const Real &b) { return a + b; };
     X_train.setFromTriplets(train_data.begin(), train_data.end(), dupfunction);
     X_test.setFromTriplets(test_data.begin(), test_data.end(), dupfunction);
     X_train.makeCompressed();
-- 
2.43.0


From 91e5f94d043e79a7786ff147555c135d69695429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:51 +0000
Subject: [PATCH 02/57] fix: SLIM top_k sorts only the coefficients of the
 current column

---
 cpp_source/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index 0cbc3d7..b8d46d4 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -392,7 +392,7 @@ inline CSCMatrix<Real> SLIM(const CSRMatrix<Real> &X, size_t n_threads,
             }
             int64_t n_taken_coeffs = nnz;
             if (nnz > top_k) {
-              std::sort(argsort_buffer.begin(), argsort_buffer.end(),
+              std::sort(argsort_buffer.begin(), argsort_buffer.begin() + nnz,
                         [](RealAndIndex val1, RealAndIndex val2) {
                           return val1.first > val2.first;
                         });
-- 
2.43.0


From 7f99117ae78793e5e47b1c47ab1bc9b50ac28734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:51 +0000
Subject: [PATCH 03/57] fix: rank and return double precision scores without
 rounding to float

---
 cpp_source/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index b8d46d4..268757e 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -424,12 +424,12 @@ inline CSCMatrix<Real> SLIM(const CSRMatrix<Real> &X, size_t n_threads,
 }
 
 template <typename Real>
-inline std::vector<std::vector<std::pair<int64_t, float>>>
+inline std::vector<std::vector<std::pair<int64_t, Real>>>
 retrieve_recommend_from_score(
     const RowMajorMatrix<Real> &score,
     const std::vector<std::vector<int64_t>> &allowed_indices,
     const size_t cutoff, size_t n_threads) {
-  using score_and_index = std::pair<int64_t, float>;
+  using score_and_index = std::pair<int64_t, Real>;
   check_arg(n_threads > 0, "n_threads must not be 0.");
   check_arg(
       (score.rows() == static_cast<int64_t>(allowed_indices.size())) ||
-- 
2.43.0


From 9616ee98814fa0dbb3b00fba256ae6b6cfb49c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:51 +0000
Subject: [PATCH 04/57] fix: honour n_test_user and reject impossible user
 ratios in user holdout

---
 src/irspack/split/userwise.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index 06608a7..9b4d38e 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -298,26 +298,21 @@ def split_dataframe_partial_user_holdout(
     n_users_all = len(uids)
     if n_val_user is None:
         n_val_user = int(n_users_all * val_user_ratio)
-        val_user_ratio = n_val_user / n_users_all
     else:
         if n_val_user > n_users_all:
             raise ValueError("n_val_user exceeds the number of total users.")
 
     if n_test_user is None:
         n_test_user = int(n_users_all * test_user_ratio)
-        test_user_ratio = n_test_user / n_users_all
-    else:
-        if (n_test_user + n_val_user) > n_users_all:
-            raise ValueError(
-                "n_val_user + n_test_users exceeds the number of total users."
-            )
+    if (n_test_user + n_val_user) > n_users_all:
+        raise ValueError("n_val_user + n_test_users exceeds the number of total users.")
 
     df_all = df_all.drop_duplicates([user_column, item_column])
     rns = convert_randomstate(random_state)
 
     train_uids, val_test_uids = _split_list(uids, (n_val_user + n_test_user), rns)
 
-    if (test_user_ratio * len(uids)) >= 1:
+    if n_test_user >= 1:
         val_uids, test_uids = _split_list(
             val_test_uids,
             n_test_user,
-- 
2.43.0


From 3eb1009bb028a9e2b3d127dde191f41c3dd3fd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:51 +0000
Subject: [PATCH 05/57] fix: use the rating column for train users in user
 holdout

---
 src/irspack/split/userwise.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index 9b4d38e..10b6de6 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -327,7 +327,12 @@ def split_dataframe_partial_user_holdout(
     item_all: List[Any] = list(set(df_all[item_column]))
 
     train_user_interactions, _, __ = df_to_sparse(
-        df_train, user_column, item_column, user_ids=train_uids, item_ids=item_all
+        df_train,
+        user_column,
+        item_column,
+        user_ids=train_uids,
+        item_ids=item_all,
+        rating_column=rating_column,
     )
 
     valid_data: Dict[str, UserTrainTestInteractionPair] = dict(
-- 
2.43.0


From 600a3544e3279129bafc19a02a9da66483c13722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:51 +0000
Subject: [PATCH 06/57] fix: keep the rating column in time-based user holdout

---
 src/irspack/split/userwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index 10b6de6..7fa56ae 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -191,7 +191,7 @@ def split_train_test_userwise_time(
 ) -> UserTrainTestInteractionPair:
     unique_user_ids = np.asarray(list(set(df_[user_column])))
     df_train, df_test = split_last_n_interaction_df(
-        df_[[user_column, item_column, time_column]],
+        df_,
         user_column,
         time_column,
         n_heldout=n_heldout,
-- 
2.43.0


From 3fa7f1982a2b97cdf4999b7dbd14ba6af1e76f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:51 +0000
Subject: [PATCH 07/57] fix: do not coerce mixed-type user ids in time-based
 user holdout

---
 src/irspack/split/userwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index 7fa56ae..2367d1d 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -189,7 +189,7 @@ def split_train_test_userwise_time(
     rating_column: Optional[str] = None,
     ceil_n_heldout: bool = False,
 ) -> UserTrainTestInteractionPair:
-    unique_user_ids = np.asarray(list(set(df_[user_column])))
+    unique_user_ids = list(set(df_[user_column]))
     df_train, df_test = split_last_n_interaction_df(
         df_,
         user_column,
-- 
2.43.0


From 48760c5704070822a6dad5d14b55731dd375d885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:51 +0000
Subject: [PATCH 08/57] fix: accept zero validation and test ratios in
 holdout_specific_interactions

---
 src/irspack/split/specified.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/irspack/split/specified.py b/src/irspack/split/specified.py
index 0e0fd8c..9ec222f 100644
--- a/src/irspack/split/specified.py
+++ b/src/irspack/split/specified.py
@@ -95,11 +95,16 @@ def holdout_specific_interactions(
             int(v_user_ratio_train * n_validatable_users),
             rns,
         )
-    v_test_users, v_val_users = _split_list(
-        v_val_test_users,
-        int(len(v_val_test_users) * validatable_user_ratio_val / val_test_ratio),
-        rns,
-    )
+    n_val_users = 0
+    if val_test_ratio > 0:
+        n_val_users = int(
+            len(v_val_test_users)
+            * (
+                validatable_user_ratio_val
+                / (validatable_user_ratio_val + validatable_user_ratio_test)
+            )
+        )
+    v_test_users, v_val_users = _split_list(v_val_test_users, n_val_users, rns)
     df_train = pd.concat(
         [
             df[df[user_column].isin(v_train_users)],
-- 
2.43.0


From daabf1e9c25d7c834e8703c157c047961e2902ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:51 +0000
Subject: [PATCH 09/57] fix: export explicitly stored zeros of a user
 train/test pair

---
 src/irspack/split/userwise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index 2367d1d..41a0fc2 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -83,8 +83,8 @@ class UserTrainTestInteractionPair:
         if self.item_ids is None:
             raise RuntimeError("Setting item_ids is required to use this method.")
         X.sort_indices()
-        row, col = X.nonzero()
-        data = X.data
+        X_coo = X.tocoo()
+        row, col, data = X_coo.row, X_coo.col, X_coo.data
         return pd.DataFrame(
             dict(
                 user_id=[user_ids[r] for r in row],
-- 
2.43.0


From e5992da9afd0977b30f878d4f4df69f129ef7ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:01 +0000
Subject: [PATCH 10/57] fix: do not overwrite the caller's scores when masking
 forbidden items

---
 src/irspack/utils/id_mapping.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/irspack/utils/id_mapping.py b/src/irspack/utils/id_mapping.py
index 8d8e47f..cbeabb0 100644
--- a/src/irspack/utils/id_mapping.py
+++ b/src/irspack/utils/id_mapping.py
@@ -304,6 +304,7 @@ class ItemIDMapper(Generic[ItemIdType]):
         elif allowed_item_ids is not None:
             allowed_item_indices = [self._item_id_list_to_index_list(allowed_item_ids)]
         if forbidden_item_ids is not None:
+            score = score.copy()
             for u, forbidden_ids_per_user in enumerate(forbidden_item_ids):
                 score[
                     u, self._item_id_list_to_index_list(forbidden_ids_per_user)
-- 
2.43.0


From 1518ac6fd358b3e0eb34c27b01c8c4af877af9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:01 +0000
Subject: [PATCH 11/57] fix: recommend items scored +inf for a single user as
 for a batch

---
 src/irspack/utils/id_mapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/utils/id_mapping.py b/src/irspack/utils/id_mapping.py
index cbeabb0..53ba380 100644
--- a/src/irspack/utils/id_mapping.py
+++ b/src/irspack/utils/id_mapping.py
@@ -245,7 +245,7 @@ class ItemIDMapper(Generic[ItemIdType]):
             i_int = int(i)
             score_this = score[i_int]
             item_id = self.item_ids[i_int]
-            if np.isinf(score_this):
+            if np.isneginf(score_this):
                 continue
             if forbidden_item_ids is not None:
                 if item_id in forbidden_item_ids:
-- 
2.43.0


From 578a86cf0cd6acf08660e6db0644a853e74c45a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:01 +0000
Subject: [PATCH 12/57] fix: respect cutoff 0 for a single user

---
 src/irspack/utils/id_mapping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/irspack/utils/id_mapping.py b/src/irspack/utils/id_mapping.py
index 53ba380..c5d03f3 100644
--- a/src/irspack/utils/id_mapping.py
+++ b/src/irspack/utils/id_mapping.py
@@ -242,6 +242,8 @@ class ItemIDMapper(Generic[ItemIdType]):
             high_score_inds = score.argsort()[::-1]
         recommendations: List[Tuple[ItemIdType, float]] = []
         for i in high_score_inds:
+            if len(recommendations) >= cutoff:
+                break
             i_int = int(i)
             score_this = score[i_int]
             item_id = self.item_ids[i_int]
@@ -251,8 +253,6 @@ class ItemIDMapper(Generic[ItemIdType]):
                 if item_id in forbidden_item_ids:
                     continue
             recommendations.append((item_id, float(score_this)))
-            if len(recommendations) >= cutoff:
-                break
         return recommendations
 
     def score_to_recommended_items_batch(
-- 
2.43.0


From 3b9694a0bc4d6d5cf76fbd7f7f2fa0a1ac25f47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:55 +0000
Subject: [PATCH 13/57] fix: honour the row stride of score arrays in the
 evaluator

---
 cpp_source/evaluator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_source/evaluator.cpp b/cpp_source/evaluator.cpp
index 795d8e8..5b00e0c 100644
--- a/cpp_source/evaluator.cpp
+++ b/cpp_source/evaluator.cpp
@@ -309,7 +309,7 @@ private:
       if (u >= score_rows) {
         break;
       }
-      auto buffer = score_begin + n_items * u;
+      auto buffer = score_begin + scores.outerStride() * u;
       int u_orig = u + offset;
 
       const auto &gt_indices = this->X_as_set.at(u_orig);
-- 
2.43.0


From 7d2e6a5b4385a3d8b51825076efe3f29134e7e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:55 +0000
Subject: [PATCH 14/57] fix: reject score arrays with a wrong number of columns
 in the evaluator

---
 cpp_source/evaluator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp_source/evaluator.cpp b/cpp_source/evaluator.cpp
index 5b00e0c..4418242 100644
--- a/cpp_source/evaluator.cpp
+++ b/cpp_source/evaluator.cpp
@@ -264,6 +264,8 @@ struct EvaluatorCore {
     check_arg(n_users > offset, "got offset >= n_users");
     check_arg(static_cast<size_t>(offset + scores.rows()) <= n_users,
               "offset + scores.shape[0] exceeds n_users");
+    check_arg(static_cast<size_t>(scores.cols()) == n_items,
+              "scores.shape[1] must be equal to n_items.");
     check_arg(cutoff > 0, "cutoff must be strictly greather than 0.");
     check_arg(cutoff <= n_items, "cutoff must not exeeed the number of items.");
     std::atomic<size_t> current_index(0);
-- 
2.43.0


From 9fe20d1d0e746f50edefb32acd8fec732121cb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:55 +0000
Subject: [PATCH 15/57] fix: reject merging metrics of different item counts

---
 cpp_source/evaluator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp_source/evaluator.cpp b/cpp_source/evaluator.cpp
index 4418242..f6ff144 100644
--- a/cpp_source/evaluator.cpp
+++ b/cpp_source/evaluator.cpp
@@ -74,6 +74,7 @@ struct Metrics {
   }
 
   inline void merge(const Metrics &other) {
+    check_arg(n_item == other.n_item, "inconsistent n_item.");
     hit += other.hit;
     recall += other.recall;
     ndcg += other.ndcg;
-- 
2.43.0


From dc6acfa26b1a770a077ce5d91e47ae8eb5350d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:55 +0000
Subject: [PATCH 16/57] fix: reject zero threads in evaluate_list_vs_list

---
 cpp_source/evaluator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp_source/evaluator.cpp b/cpp_source/evaluator.cpp
index f6ff144..532c9c0 100644
--- a/cpp_source/evaluator.cpp
+++ b/cpp_source/evaluator.cpp
@@ -381,6 +381,7 @@ Metrics evaluate_list_vs_list(const vector<vector<size_t>> &recommendation,
                               size_t n_items, size_t n_threads) {
   check_arg(recommendation.size() == ground_truth.size(),
             "recommendation array and ground_truth array has different size.");
+  check_arg(n_threads > 0, "n_threads must be strictly positive.");
   size_t n_recommendation_max = 0;
   for (auto &rec : recommendation) {
     n_recommendation_max = std::max(rec.size(), n_recommendation_max);
-- 
2.43.0


From 96c1550cc067bbdd6f0d3d3b93f1f9822cecd7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:55 +0000
Subject: [PATCH 17/57] fix: reject duplicate recommended items instead of
 reading out of bounds

---
 cpp_source/evaluator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp_source/evaluator.cpp b/cpp_source/evaluator.cpp
index 532c9c0..b292602 100644
--- a/cpp_source/evaluator.cpp
+++ b/cpp_source/evaluator.cpp
@@ -385,9 +385,12 @@ Metrics evaluate_list_vs_list(const vector<vector<size_t>> &recommendation,
   size_t n_recommendation_max = 0;
   for (auto &rec : recommendation) {
     n_recommendation_max = std::max(rec.size(), n_recommendation_max);
+    std::unordered_set<size_t> rec_as_set;
     for (auto &rec_index : rec) {
       check_arg(rec_index < n_items,
                 "found recommendation index larger than n_items.");
+      check_arg(rec_as_set.insert(rec_index).second,
+                "found duplicate items in a recommendation.");
     }
   }
   size_t n_gt_max = 0;
-- 
2.43.0


From cbcf7da681d038f1cfca17669299c56be2781535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:55 +0000
Subject: [PATCH 18/57] fix: allow any column names in
 evaluate_recommendation_df

---
 src/irspack/evaluation/evaluate_df_to_df.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/irspack/evaluation/evaluate_df_to_df.py b/src/irspack/evaluation/evaluate_df_to_df.py
index cb24550..14acc3e 100644
--- a/src/irspack/evaluation/evaluate_df_to_df.py
+++ b/src/irspack/evaluation/evaluate_df_to_df.py
@@ -49,16 +49,12 @@ def evaluate_recommendation_df(
     item_id_to_index: Dict[Any, int] = {iid: i for i, iid in enumerate(item_ids)}
     user_index_to_recommendation: Dict[int, List[int]] = {}
     user_index_to_ground_truth: Dict[int, List[int]] = {}
-    for rec_row in df_recommendation.itertuples():
-        uid = getattr(rec_row, user_column)
-        iid = getattr(rec_row, item_column)
+    for uid, iid in zip(df_recommendation[user_column], df_recommendation[item_column]):
         u_index = user_id_to_index[uid]
         i_index = item_id_to_index[iid]
         user_index_to_recommendation.setdefault(u_index, []).append(i_index)
 
-    for gt_row in df_ground_truth.itertuples():
-        uid = getattr(gt_row, user_column)
-        iid = getattr(gt_row, item_column)
+    for uid, iid in zip(df_ground_truth[user_column], df_ground_truth[item_column]):
         u_index = user_id_to_index[uid]
         i_index = item_id_to_index[iid]
         user_index_to_ground_truth.setdefault(u_index, []).append(i_index)
-- 
2.43.0


From e3866580fe24bd13c7e29b623d119f26d957ca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:55 +0000
Subject: [PATCH 19/57] fix: allow ids without an order in
 evaluate_recommendation_df

---
 src/irspack/evaluation/evaluate_df_to_df.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/irspack/evaluation/evaluate_df_to_df.py b/src/irspack/evaluation/evaluate_df_to_df.py
index 14acc3e..ef2f77c 100644
--- a/src/irspack/evaluation/evaluate_df_to_df.py
+++ b/src/irspack/evaluation/evaluate_df_to_df.py
@@ -41,10 +41,10 @@ def evaluate_recommendation_df(
         df_ground_truth[user_column].isin(df_recommendation[user_column])
     ].copy()
 
-    user_ids = sorted(list(set(df_recommendation[user_column])))
+    user_ids = list(set(df_recommendation[user_column]))
     user_id_to_index: Dict[Any, int] = {uid: i for i, uid in enumerate(user_ids)}
-    item_ids = sorted(
-        list(set(df_recommendation[item_column]) | set(df_ground_truth[item_column]))
+    item_ids = list(
+        set(df_recommendation[item_column]) | set(df_ground_truth[item_column])
     )
     item_id_to_index: Dict[Any, int] = {iid: i for i, iid in enumerate(item_ids)}
     user_index_to_recommendation: Dict[int, List[int]] = {}
-- 
2.43.0


From 792a0bbe5f7e039c195243f06e4cb4cf5dfce32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:55 +0000
Subject: [PATCH 20/57] fix: evaluate model scores of any memory layout without
 overwriting them

---
 src/irspack/evaluation/evaluator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/irspack/evaluation/evaluator.py b/src/irspack/evaluation/evaluator.py
index 066b052..43a0fd5 100644
--- a/src/irspack/evaluation/evaluator.py
+++ b/src/irspack/evaluation/evaluator.py
@@ -429,6 +429,8 @@ class Evaluator:
                 mask = self.masked_interactions[
                     chunk_start - self.offset : chunk_end - self.offset
                 ]
+            # Masking scores must not alter an array owned by the model.
+            scores = scores.copy(order="C")
             scores[mask.nonzero()] = -np.inf
             for i, c in enumerate(cutoffs):
                 chunked_metric = self._get_metrics(
@@ -641,14 +643,14 @@ class EvaluatorWithColdUser(Evaluator):
             mask = self._get_score_matrix_mask()
             assert mask is not None
             mask = mask[chunk_start:chunk_end]
-            scores[mask.nonzero()] = -np.inf
-
             if not scores.flags.c_contiguous:
                 warnings.warn(
                     "Found col-major(fortran-style) score values.\n"
                     "Transforming it to row-major score matrix."
                 )
-                scores = np.ascontiguousarray(scores, dtype=np.float64)
+            # Masking scores must not alter an array owned by the model.
+            scores = scores.copy(order="C")
+            scores[mask.nonzero()] = -np.inf
 
             for i, c in enumerate(cutoffs):
                 chunked_metric = self._get_metrics(scores, c, chunk_start)
-- 
2.43.0


From b7dfcd36c2e365a75599ba5788c920a69e1f127d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:22 +0000
Subject: [PATCH 21/57] fix: ignore explicitly stored zeros in random-walk
 models instead of giving NaN weights

---
 cpp_source/knn/similarities.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cpp_source/knn/similarities.hpp b/cpp_source/knn/similarities.hpp
index c896238..d3a1de8 100644
--- a/cpp_source/knn/similarities.hpp
+++ b/cpp_source/knn/similarities.hpp
@@ -207,7 +207,8 @@ public:
     // So the argument should be ItU (rows sum to 1), and X_t should be ItU ^ T
     // (cols sum to 1)
 
-    // this->X_t
+    // explicitly stored zeros are not interactions
+    this->X_t.prune([](int, int, const Real &value) { return value != 0; });
     DenseVector norm_temp(this->X_t.cols()); // n_users
     norm_temp.array() = 0;
 
@@ -229,6 +230,7 @@ public:
     DenseVector norm_temp(arg.cols()); // n_users
     norm_temp.array() = 0;
     CSRMatrix target(arg);
+    target.prune([](int, int, const Real &value) { return value != 0; });
 
     for (int i = 0; i < target.rows(); i++) {
       for (typename CSRMatrix::InnerIterator iter(target, i); iter; ++iter) {
@@ -278,7 +280,8 @@ public:
     // So the argument should be ItU (rows sum to 1), and X_t should be ItU ^ T
     // (cols sum to 1)
 
-    // this->X_t
+    // explicitly stored zeros are not interactions
+    this->X_t.prune([](int, int, const Real &value) { return value != 0; });
     DenseVector norm_temp(this->X_t.cols()); // n_users
 
     norm_temp.array() = 0;
@@ -299,6 +302,7 @@ public:
     // arg has n_item x n_user shape
 
     CSRMatrix target(arg);
+    target.prune([](int, int, const Real &value) { return value != 0; });
     target.makeCompressed();
 
     DenseVector popularity_temp(arg.rows()); // n_items
-- 
2.43.0


From 20d8a43b8dd0f374561e16b647d966b2b39b4228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:22 +0000
Subject: [PATCH 22/57] fix: reject NaN for bounded parameters

---
 cpp_source/argcheck.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp_source/argcheck.hpp b/cpp_source/argcheck.hpp
index 262c36b..37ab3e7 100644
--- a/cpp_source/argcheck.hpp
+++ b/cpp_source/argcheck.hpp
@@ -11,7 +11,7 @@ inline void check_arg(bool condition, const std::string &failure_message) {
 }
 template <typename Field>
 void check_arg_lower_bounded(Field x, Field low, const std::string &varname) {
-  if ((x < low)) {
+  if (!(x >= low)) {
     std::stringstream ss;
     ss << varname << " must be greater than or equal to  " << low;
     throw std::invalid_argument(ss.str());
@@ -20,7 +20,7 @@ void check_arg_lower_bounded(Field x, Field low, const std::string &varname) {
 
 template <typename Field>
 void check_arg_upper_bounded(Field x, Field up, const std::string &varname) {
-  if ((x > up)) {
+  if (!(x <= up)) {
     std::stringstream ss;
     ss << varname << " must be less than or equal to  " << up;
     throw std::invalid_argument(ss.str());
-- 
2.43.0


From b509db87261cd96ac2cc7d4d874f2b826ef057d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:04 +0000
Subject: [PATCH 23/57] fix: every iALS solver gives interaction-free rows the
 zero vector

---
 cpp_source/als/IALSTrainer.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cpp_source/als/IALSTrainer.hpp b/cpp_source/als/IALSTrainer.hpp
index c18aa0f..207e878 100644
--- a/cpp_source/als/IALSTrainer.hpp
+++ b/cpp_source/als/IALSTrainer.hpp
@@ -306,6 +306,10 @@ private:
             nnz++;
           }
           bupdater.consume(P_adjoint);
+          if (nnz == 0) {
+            target_factor.row(cursor_local).setZero();
+            continue;
+          }
           const Real regularization_this =
               this->compute_reg(nnz, other_factor.rows(), config);
 
@@ -467,6 +471,10 @@ private:
           auto inner_cursor_end =
               X_compressed.outerIndexPtr()[cursor_local + 1];
           auto nnz = inner_cursor_end - inner_cursor_start;
+          if (nnz == 0) {
+            target_factor_subspaced.row(cursor_local).setZero();
+            continue;
+          }
           auto reg =
               this->compute_reg(nnz, other_factor_subspaced.rows(), config);
 
@@ -590,6 +598,10 @@ private:
           auto inner_cursor_end =
               X_compressed.outerIndexPtr()[cursor_local + 1];
           auto nnz = inner_cursor_end - inner_cursor_start;
+          if (nnz == 0) {
+            target_factor_subspaced(cursor_local) = 0;
+            continue;
+          }
           auto reg =
               this->compute_reg(nnz, other_factor_subspaced.rows(), config);
 
-- 
2.43.0


From 84ff2204ff5be289e56b6c6412770bb3270a4d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:04 +0000
Subject: [PATCH 24/57] fix: do not leave iALS factors uninitialised when
 init_stdev is not positive

---
 cpp_source/als/IALSTrainer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp_source/als/IALSTrainer.hpp b/cpp_source/als/IALSTrainer.hpp
index 207e878..8ff75c4 100644
--- a/cpp_source/als/IALSTrainer.hpp
+++ b/cpp_source/als/IALSTrainer.hpp
@@ -72,6 +72,8 @@ struct Solver {
           factor(i, k) = dist(gen);
         }
       }
+    } else {
+      factor.setZero();
     }
   }
 
-- 
2.43.0


From f13b2dd8d1f925024f8bb13653813dfb43ca831c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:21 +0000
Subject: [PATCH 25/57] fix: reject iALS training without interactions or with
 factors of wrong shapes

---
 cpp_source/als/IALSTrainer.hpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/cpp_source/als/IALSTrainer.hpp b/cpp_source/als/IALSTrainer.hpp
index 8ff75c4..db097fd 100644
--- a/cpp_source/als/IALSTrainer.hpp
+++ b/cpp_source/als/IALSTrainer.hpp
@@ -770,6 +770,8 @@ struct IALSTrainer {
   }
 
   inline void step(const SolverConfig &solver_config) {
+    validate_factors();
+    validate_interaction();
     if (feature_aware_ && solver_config.solver_type == SolverType::IALSPP)
       throw std::invalid_argument(
           "Feature-aware iALS does not support IALSPP.");
@@ -804,12 +806,14 @@ struct IALSTrainer {
 
   inline DenseMatrix transform_user(const SparseMatrix &X,
                                     const SolverConfig &solver_config) {
+    validate_factors();
     this->user_solver.prepare_p(item, config_, solver_config);
     return this->user_solver.X_to_vector(X, item, config_, solver_config);
   }
 
   inline DenseMatrix transform_item(const SparseMatrix &X,
                                     const SolverConfig &solver_config) {
+    validate_factors();
     this->item_solver.prepare_p(user, config_, solver_config);
     return this->item_solver.X_to_vector(X.transpose(), user, config_,
                                          solver_config);
@@ -819,6 +823,7 @@ struct IALSTrainer {
   transform_user_with_feature(const SparseMatrix &X,
                               const FeatureMatrix &features,
                               const SolverConfig &solver_config) {
+    validate_factors();
     this->user_solver.prepare_p(item, config_, solver_config);
     DenseMatrix prior = transform_user_feature(features);
     return this->user_solver.X_to_vector_with_prior(X, item, prior, config_,
@@ -829,6 +834,7 @@ struct IALSTrainer {
   transform_item_with_feature(const SparseMatrix &X,
                               const FeatureMatrix &features,
                               const SolverConfig &solver_config) {
+    validate_factors();
     this->item_solver.prepare_p(user, config_, solver_config);
     DenseMatrix prior = transform_item_feature(features);
     return this->item_solver.X_to_vector_with_prior(
@@ -848,6 +854,8 @@ struct IALSTrainer {
   }
 
   inline Real compute_loss(const SolverConfig &solver_config) {
+    validate_factors();
+    validate_interaction();
     this->user_solver.prepare_p(item, config_, solver_config);
     this->item_solver.prepare_p(user, config_, solver_config);
     Real loss = 0;
@@ -955,6 +963,7 @@ struct IALSTrainer {
 
   DenseMatrix user_scores(size_t userblock_begin, size_t userblock_end,
                           const SolverConfig &solver_config) {
+    validate_factors();
     irspack::check_arg(solver_config.n_threads > 0,
                        "n_threads must be strictly positive.");
     irspack::check_arg(
@@ -1012,6 +1021,31 @@ private:
   bool feature_aware_ = false;
   size_t epoch_ = 0;
 
+  // the factors are assignable from outside
+  inline void validate_factors() const {
+    const int64_t dim = static_cast<int64_t>(K);
+    irspack::check_arg(user.rows() == static_cast<int64_t>(n_users) &&
+                           item.rows() == static_cast<int64_t>(n_items) &&
+                           user.cols() == dim && item.cols() == dim,
+                       "user/item factors have inconsistent shapes.");
+  }
+
+  // a deserialized trainer has no interaction matrix
+  inline void validate_interaction() const {
+    irspack::check_arg(X.rows() == static_cast<int64_t>(n_users) &&
+                           X.cols() == static_cast<int64_t>(n_items),
+                       "The trainer has no interaction matrix.");
+    irspack::check_arg(
+        !feature_aware_ ||
+            ((user_feature_weight.rows() == 0 ||
+              (user_feature_weight.rows() == feature_cols(user_features) &&
+               user_feature_weight.cols() == user.cols())) &&
+             (item_feature_weight.rows() == 0 ||
+              (item_feature_weight.rows() == feature_cols(item_features) &&
+               item_feature_weight.cols() == item.cols()))),
+        "Feature weights have inconsistent shapes.");
+  }
+
   inline void initialize_feature_aware(size_t user_feature_rows,
                                        size_t user_feature_cols,
                                        size_t item_feature_rows,
-- 
2.43.0


From 7ab0e56c6fe25dc64b268bca3a112fec14bd63ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:21 +0000
Subject: [PATCH 26/57] fix: reject sparse products of incompatible shapes

---
 cpp_source/util.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index 268757e..2c3e2c1 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -45,6 +45,7 @@ parallel_sparse_product(const CSRMatrix<Real> &left,
   RowMajorMatrix<Real> result(left.rows(), right.cols());
   result.array() = 0;
   check_arg(n_threads > 0, "n_thraed must be > 0");
+  check_arg(left.cols() == right.rows(), "inner dimensions do not match.");
   const int64_t n_row = left.rows();
   std::atomic<int64_t> cursor(0);
   std::vector<std::thread> workers;
-- 
2.43.0


From 6d134a3f3545e91d0380e103a27f43fe190bc7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:38 +0000
Subject: [PATCH 27/57] fix: SLIM updates the residual for coefficient changes
 of any size

---
 cpp_source/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index 2c3e2c1..c2d8117 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -349,7 +349,7 @@ inline CSCMatrix<Real> SLIM(const CSRMatrix<Real> &X, size_t n_threads,
             coeff_temp.noalias() =
                 coeffs.col(shuffled_feature_index) - coeff_temp;
 
-            if (!coeff_temp.isZero()) {
+            if ((coeff_temp.array() != static_cast<Real>(0)).any()) {
               for (CSCIter nnz_iter(X_csc, shuffled_feature_index); nnz_iter;
                    ++nnz_iter) {
                 const int64_t row = nnz_iter.row();
-- 
2.43.0


From 59ee3aa7f9294c3fc17a1432ff8977cc9047c599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:42 +0000
Subject: [PATCH 28/57] fix: iALS++ solvers report singular systems instead of
 giving NaN factors

---
 cpp_source/als/IALSTrainer.hpp | 41 +++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/cpp_source/als/IALSTrainer.hpp b/cpp_source/als/IALSTrainer.hpp
index db097fd..55e06f3 100644
--- a/cpp_source/als/IALSTrainer.hpp
+++ b/cpp_source/als/IALSTrainer.hpp
@@ -435,7 +435,6 @@ private:
                              const SolverConfig &solver_config) const {
 
     int subspace_dim = dim_end - dim_start;
-    std::vector<std::thread> workers;
     std::atomic<int> cursor(0);
     DenseMatrix target_factor_subspaced =
         target_factor.middleCols(dim_start, subspace_dim);
@@ -445,13 +444,14 @@ private:
     const DenseMatrix P_quadratic =
         P.block(dim_start, dim_start, subspace_dim, subspace_dim);
     const DenseMatrix P_subspaced = P.middleRows(dim_start, subspace_dim);
+    std::vector<std::future<void>> workers;
 
     for (size_t ind = 0; ind < solver_config.n_threads; ind++) {
-      workers.emplace_back([this, subspace_dim, dim_start, dim_end, P_quadratic,
-                            P_subspaced, &target_factor_subspaced,
-                            &target_factor, &other_factor_subspaced, &cursor,
-                            &X_compressed, &config, solver_config,
-                            &predictions]() {
+      workers.emplace_back(std::async(
+          std::launch::async,
+          [this, subspace_dim, dim_start, dim_end, P_quadratic, P_subspaced,
+           &target_factor_subspaced, &target_factor, &other_factor_subspaced,
+           &cursor, &X_compressed, &config, solver_config, &predictions]() {
         DenseMatrix P_local(subspace_dim, subspace_dim);
         DenseVector vcache(subspace_dim);
         DenseVector B(subspace_dim);
@@ -503,8 +503,14 @@ private:
           }
 
           Eigen::LLT<Eigen::Ref<DenseMatrix>, Eigen::Upper> llt(P_local);
+          if (llt.info() != Eigen::Success) {
+            throw std::runtime_error("Cholesky decomposition failed.");
+          }
           // difference. Current - vcache = newvector
           vcache = llt.solve(B);
+          if (!vcache.allFinite()) {
+            throw std::runtime_error("Cholesky solve failed.");
+          }
           target_factor_subspaced.row(cursor_local) -= vcache;
 
           inner_cursor = inner_cursor_start;
@@ -515,10 +521,10 @@ private:
                 vcache.dot(other_factor_subspaced.row(other_index).transpose());
           }
         }
-      });
+      }));
     }
     for (auto &worker : workers) {
-      worker.join();
+      worker.get();
     }
     target_factor.middleCols(dim_start, subspace_dim) = target_factor_subspaced;
   }
@@ -568,19 +574,20 @@ private:
                         const IALSModelConfig &config,
                         const SolverConfig &solver_config) const {
 
-    std::vector<std::thread> workers;
     std::atomic<int> cursor(0);
     DenseVector target_factor_subspaced = target_factor.col(dim_start);
     const DenseVector other_factor_subspaced = other_factor.col(dim_start);
 
     const Real P_quadratic = P(dim_start, dim_start);
     const DenseVector P_subspaced = P.row(dim_start);
+    std::vector<std::future<void>> workers;
 
     for (size_t ind = 0; ind < solver_config.n_threads; ind++) {
-      workers.emplace_back([this, dim_start, P_quadratic, P_subspaced,
-                            &target_factor_subspaced, &target_factor,
-                            &other_factor_subspaced, &cursor, &X_compressed,
-                            &config, solver_config, &predictions]() {
+      workers.emplace_back(std::async(
+          std::launch::async,
+          [this, dim_start, P_quadratic, P_subspaced, &target_factor_subspaced,
+           &target_factor, &other_factor_subspaced, &cursor, &X_compressed,
+           &config, solver_config, &predictions]() {
         Real P_local;
         Real vcache;
         Real B;
@@ -625,6 +632,10 @@ private:
 
           // difference. Current - vcache = newvector
           vcache = B / P_local;
+          if (!std::isfinite(vcache)) {
+            throw std::runtime_error(
+                "Coordinate-descent solver encountered a singular system.");
+          }
           target_factor_subspaced(cursor_local) -= vcache;
 
           inner_cursor = inner_cursor_start;
@@ -635,10 +646,10 @@ private:
                 vcache * (other_factor_subspaced(other_index));
           }
         }
-      });
+      }));
     }
     for (auto &worker : workers) {
-      worker.join();
+      worker.get();
     }
     target_factor.col(dim_start) = target_factor_subspaced;
   }
-- 
2.43.0


From 7a6be43e90e745c74df381f5aac0f2594a419448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:11 +0000
Subject: [PATCH 29/57] fix: reject long invalid parameter names without
 exponential backtracking

---
 src/irspack/optimization/parameter_range.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/irspack/optimization/parameter_range.py b/src/irspack/optimization/parameter_range.py
index b416157..bf0393f 100644
--- a/src/irspack/optimization/parameter_range.py
+++ b/src/irspack/optimization/parameter_range.py
@@ -5,7 +5,8 @@ from typing import TYPE_CHECKING, Any, List
 if TYPE_CHECKING:
     from optuna import Trial
 
-NAME_CHECKER = re.compile(r"^([a-zA-Z\d]+[\-_]*)+$")
+# equivalent to r"^([a-zA-Z\d]+[\-_]*)+$", but without its exponential backtracking
+NAME_CHECKER = re.compile(r"^[a-zA-Z\d][a-zA-Z\d\-_]*$")
 
 
 def is_valid_param_name(name: str) -> bool:
-- 
2.43.0


From 41ae3fb385ce9458cd6f24ab2b384dc12324ae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:11 +0000
Subject: [PATCH 30/57] fix: do not return suggested values of parameters that
 were fixed or learnt

---
 src/irspack/optimization/optimizer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/irspack/optimization/optimizer.py b/src/irspack/optimization/optimizer.py
index 3fd1676..19888aa 100644
--- a/src/irspack/optimization/optimizer.py
+++ b/src/irspack/optimization/optimizer.py
@@ -191,13 +191,18 @@ class Optimizer:
         )
 
         study.optimize(objective_func, n_trials=n_trials, timeout=timeout)
-        best_params = dict(
-            **study.best_trial.params,
+        best_params = {
+            # a fixed parameter takes precedence over a suggested one
+            **{
+                key: val
+                for key, val in study.best_trial.params.items()
+                if key not in self.recommender_params
+            },
             **{
                 key: val
                 for key, val in study.best_trial.user_attrs.items()
                 if is_valid_param_name(key)
             },
-        )
+        }
         trials_df = study_to_dataframe(study)
         return (best_params, trials_df)
-- 
2.43.0


From 812dcf351385d802154bd973c1712d8dca7e8394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:11 +0000
Subject: [PATCH 31/57] fix: keep the metrics of every trial when workers share
 a study

---
 src/irspack/optimization/optimizer.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/irspack/optimization/optimizer.py b/src/irspack/optimization/optimizer.py
index 19888aa..439219d 100644
--- a/src/irspack/optimization/optimizer.py
+++ b/src/irspack/optimization/optimizer.py
@@ -19,19 +19,10 @@ ParameterSuggestFunction = Callable[["Trial"], Dict[str, Any]]
 
 
 def add_score_to_trial(trial: "Trial", score: Dict[str, float], cutoff: int) -> None:
-    score_history: List[Tuple[int, Dict[str, float]]] = trial.study.user_attrs.get(
-        "scores", []
-    )
-    score_history.append(
-        (
-            trial.number,
-            {
-                f"{score_name}@{cutoff}": score_value
-                for score_name, score_value in score.items()
-            },
-        )
-    )
-    trial.study.set_user_attr("scores", score_history)
+    # stored with the trial: an attribute of the study would have to be read and
+    # written back, which loses scores when several workers share the study.
+    for score_name, score_value in score.items():
+        trial.set_user_attr(f"{score_name}@{cutoff}", score_value)
 
 
 def study_to_dataframe(study: "Study") -> pd.DataFrame:
@@ -42,6 +33,7 @@ def study_to_dataframe(study: "Study") -> pd.DataFrame:
         re.sub(r"^(user_attrs|params)_", "", colname) for colname in result_df.columns
     ]
 
+    # studies created by earlier versions keep the scores in an attribute of the study
     trial_and_scores: List[Tuple[float, Dict[str, float]]] = study.user_attrs.get(
         "scores", []
     )
@@ -50,7 +42,11 @@ def study_to_dataframe(study: "Study") -> pd.DataFrame:
         index=[x[0] for x in trial_and_scores],
     )
     score_df.index.name = "number"
-    result_df = result_df.join(score_df, how="left")
+    for column in score_df.columns:
+        if column in result_df.columns:
+            result_df[column] = result_df[column].fillna(score_df[column])
+        else:
+            result_df = result_df.join(score_df[[column]], how="left")
     return result_df
 
 
-- 
2.43.0


From d1b285f3ed1e8d7a25dc7dd2769f695a88f20c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:11 +0000
Subject: [PATCH 32/57] fix: dimension-doubling tuning survives equally good
 dimensions

---
 src/irspack/recommenders/ials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/recommenders/ials.py b/src/irspack/recommenders/ials.py
index c26f3dc..6a4e198 100644
--- a/src/irspack/recommenders/ials.py
+++ b/src/irspack/recommenders/ials.py
@@ -751,7 +751,7 @@ class IALSRecommender(
             prev_params = study.best_params.copy()
             dimension *= 2
         final_result_df = pd.concat([x[2] for x in results])
-        final_bp = sorted(results)[0][1]
+        final_bp = min(results, key=lambda x: x[0])[1]
 
         return final_bp, final_result_df
 
-- 
2.43.0


From c8b4ef540fe53109ac77894e0f5d302c7111a7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:11 +0000
Subject: [PATCH 33/57] fix: early stopping never restores the state of an
 earlier training

---
 src/irspack/recommenders/base_earlystop.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/irspack/recommenders/base_earlystop.py b/src/irspack/recommenders/base_earlystop.py
index 90d3bf0..c8a1dbb 100644
--- a/src/irspack/recommenders/base_earlystop.py
+++ b/src/irspack/recommenders/base_earlystop.py
@@ -113,6 +113,9 @@ class BaseRecommenderWithEarlyStopping(BaseRecommender):
     ) -> None:
         from optuna.exceptions import TrialPruned
 
+        if evaluator is not None:
+            # do not fall back on the state of an earlier training
+            self.best_state = None
         self.start_learning()
         best_score = -float("inf")
         n_score_degradation = 0
-- 
2.43.0


From 46118dfd2ae1f7fe62a736f38143b80f502f5a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:57 +0000
Subject: [PATCH 34/57] fix: a failed dataset download leaves no partial
 archive behind

---
 src/irspack/dataset/downloader.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/irspack/dataset/downloader.py b/src/irspack/dataset/downloader.py
index 653cf89..dbcaab6 100644
--- a/src/irspack/dataset/downloader.py
+++ b/src/irspack/dataset/downloader.py
@@ -3,7 +3,8 @@ from abc import ABCMeta, abstractmethod
 from io import BytesIO
 from pathlib import Path
 from typing import Optional, Union
-from zipfile import ZipFile
+from uuid import uuid4
+from zipfile import ZipFile, is_zipfile
 
 
 class BaseDownloader(metaclass=ABCMeta):
@@ -43,13 +44,25 @@ class BaseDownloader(metaclass=ABCMeta):
                 download = True
             if download:
                 print("start download...")
-                self._save_to_zippath(zippath)
+                self._download(zippath)
                 print("complete")
             else:
                 raise RuntimeError("could not read zipFile")
 
         self.zf = ZipFile(zippath)
 
+    def _download(self, zippath: Path) -> None:
+        # ``zippath`` must not exist before the archive is complete, because
+        # an existing file will be used without downloading it again.
+        temporary_path = zippath.with_name(f".{zippath.name}.{uuid4().hex}")
+        try:
+            self._save_to_zippath(temporary_path)
+            if not is_zipfile(temporary_path):
+                raise RuntimeError("The downloaded file is not a complete zip archive.")
+            temporary_path.replace(zippath)
+        finally:
+            temporary_path.unlink(missing_ok=True)
+
     def _read_as_istream(self, path: str) -> BytesIO:
         bytes_array = self.zf.read(path)
         return BytesIO(bytes_array)
-- 
2.43.0


From 351f98a460fffcfb7f838410d10cb992db6b00bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:57 +0000
Subject: [PATCH 35/57] fix: do not accept an incomplete download of a MIND
 archive

---
 src/irspack/dataset/mind.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/irspack/dataset/mind.py b/src/irspack/dataset/mind.py
index 2056cfb..26c4c5e 100644
--- a/src/irspack/dataset/mind.py
+++ b/src/irspack/dataset/mind.py
@@ -7,7 +7,7 @@ from pathlib import Path
 from tempfile import NamedTemporaryFile
 from typing import Dict, Iterable, List, Optional, Union
 from urllib.error import HTTPError
-from zipfile import ZipFile
+from zipfile import ZipFile, is_zipfile
 
 import pandas as pd
 
@@ -130,6 +130,8 @@ class MINDDataManager:
                 ) as output:
                     temporary_path = Path(output.name)
                     shutil.copyfileobj(response, output)
+            if not is_zipfile(temporary_path):
+                raise RuntimeError(f"The download of {url} is incomplete.")
             temporary_path.replace(path)
         except HTTPError as err:
             if err.code in (401, 403):
-- 
2.43.0


From 48b31deff32472def58f0cebdc1bad9802ffd510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:57 +0000
Subject: [PATCH 36/57] fix: send the Hugging Face token to Hugging Face only

---
 src/irspack/dataset/mind.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/irspack/dataset/mind.py b/src/irspack/dataset/mind.py
index 26c4c5e..834a393 100644
--- a/src/irspack/dataset/mind.py
+++ b/src/irspack/dataset/mind.py
@@ -92,6 +92,14 @@ class MINDDataManager:
                 should_download = answer.lower() == "y"
             if not should_download:
                 raise RuntimeError("could not read the MIND archives")
+            # the token must not be sent to any other host than Hugging Face.
+            token: Optional[str] = None
+            if download_source == "huggingface":
+                token = (
+                    hf_token
+                    or os.environ.get("HF_TOKEN")
+                    or os.environ.get("HUGGING_FACE_HUB_TOKEN")
+                )
             for split in missing:
                 path = paths[split]
                 path.parent.mkdir(parents=True, exist_ok=True)
@@ -103,11 +111,7 @@ class MINDDataManager:
                 )
                 url = f"{base_url}/{filename}"
                 print(f"downloading {url}...")
-                self._download(
-                    url,
-                    path,
-                    hf_token=hf_token if download_source == "huggingface" else None,
-                )
+                self._download(url, path, hf_token=token)
 
         self.size = size
         self.paths = paths
@@ -115,13 +119,10 @@ class MINDDataManager:
 
     @staticmethod
     def _download(url: str, path: Path, hf_token: Optional[str] = None) -> None:
-        token = (
-            hf_token
-            or os.environ.get("HF_TOKEN")
-            or os.environ.get("HUGGING_FACE_HUB_TOKEN")
-        )
-        headers = {"Authorization": f"Bearer {token}"} if token else {}
-        request = urllib.request.Request(url, headers=headers)
+        request = urllib.request.Request(url)
+        if hf_token:
+            # not to be forwarded to the storage host the mirror redirects to
+            request.add_unredirected_header("Authorization", f"Bearer {hf_token}")
         temporary_path: Optional[Path] = None
         try:
             with urllib.request.urlopen(request) as response:
-- 
2.43.0


From 21fc9166607395b15780ff111ec8bdfe412adf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:57 +0000
Subject: [PATCH 37/57] fix: never execute the content of the Amazon music
 archive

---
 src/irspack/dataset/amazon_music.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/irspack/dataset/amazon_music.py b/src/irspack/dataset/amazon_music.py
index e88c6c0..0be72fb 100644
--- a/src/irspack/dataset/amazon_music.py
+++ b/src/irspack/dataset/amazon_music.py
@@ -1,3 +1,4 @@
+import ast
 import urllib.request
 from gzip import GzipFile
 from pathlib import Path
@@ -39,7 +40,7 @@ class AmazonMusicDataManager(BaseDownloader):
     def read_metadata(self) -> pd.DataFrame:
         results = []
         for l in self._read_as_istream("amazon-music/music-meta.json"):
-            meta = eval(l.decode("utf-8"))
+            meta = ast.literal_eval(l.decode("utf-8"))
             results.append(
                 (
                     meta["asin"],
-- 
2.43.0


From a7c3751f81d52985aaa6ad3c7e8066aabeac45a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:57 +0000
Subject: [PATCH 38/57] fix: keep Amazon music ids with leading zeros as they
 are

---
 src/irspack/dataset/amazon_music.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/irspack/dataset/amazon_music.py b/src/irspack/dataset/amazon_music.py
index 0be72fb..dcb5fce 100644
--- a/src/irspack/dataset/amazon_music.py
+++ b/src/irspack/dataset/amazon_music.py
@@ -35,6 +35,8 @@ class AmazonMusicDataManager(BaseDownloader):
             self._read_as_istream("amazon-music/ratings.csv"),
             header=None,
             names=["user_id", "music_id", "rating", "timestamp"],
+            # item ids may consist of digits only and have leading zeros
+            dtype={"user_id": str, "music_id": str},
         )
 
     def read_metadata(self) -> pd.DataFrame:
-- 
2.43.0


From e9046ff6f315bc886bac16d644556448765db8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:18 +0000
Subject: [PATCH 39/57] fix: read the text of MIND as it is, quotes and words
 like None included

---
 src/irspack/dataset/mind.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/irspack/dataset/mind.py b/src/irspack/dataset/mind.py
index 834a393..f20c79c 100644
--- a/src/irspack/dataset/mind.py
+++ b/src/irspack/dataset/mind.py
@@ -1,3 +1,4 @@
+import csv
 import json
 import os
 import shutil
@@ -5,7 +6,7 @@ import urllib.request
 from io import BytesIO
 from pathlib import Path
 from tempfile import NamedTemporaryFile
-from typing import Dict, Iterable, List, Optional, Union
+from typing import Any, Dict, Iterable, List, Optional, Union
 from urllib.error import HTTPError
 from zipfile import ZipFile, is_zipfile
 
@@ -58,6 +59,11 @@ class MINDDataManager:
     DEFAULT_DIR = Path("~/.mind").expanduser()
     _VALID_SPLITS = ("train", "dev")
     _VALID_SIZES = ("small", "large")
+    # the files contain raw text: quotes are not special and only an empty
+    # field is missing.
+    _TSV_FORMAT: Dict[str, Any] = dict(
+        quoting=csv.QUOTE_NONE, keep_default_na=False, na_values=[""]
+    )
 
     def __init__(
         self,
@@ -202,6 +208,8 @@ class MINDDataManager:
                     "history",
                     "impressions",
                 ],
+                dtype={"user_id": str, "history": str, "impressions": str},
+                **self._TSV_FORMAT,
             )
         result["timestamp"] = pd.to_datetime(
             result["timestamp"], format="%m/%d/%Y %I:%M:%S %p"
@@ -280,7 +288,16 @@ class MINDDataManager:
         ]
         for split_name in self._iter_splits(split):
             with self._read_as_istream(split_name, "news.tsv") as ifs:
-                frames.append(pd.read_csv(ifs, sep="\t", header=None, names=columns))
+                frames.append(
+                    pd.read_csv(
+                        ifs,
+                        sep="\t",
+                        header=None,
+                        names=columns,
+                        dtype=str,
+                        **self._TSV_FORMAT,
+                    )
+                )
         result = pd.concat(frames, ignore_index=True).drop_duplicates(
             "item_id", keep="first"
         )
-- 
2.43.0


From a266f6bed9a76ea135924cf05d65c1d93b831e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:18 +0000
Subject: [PATCH 40/57] fix: MIND impressions without candidates or labels do
 not become records

---
 src/irspack/dataset/mind.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/irspack/dataset/mind.py b/src/irspack/dataset/mind.py
index f20c79c..1beb2a5 100644
--- a/src/irspack/dataset/mind.py
+++ b/src/irspack/dataset/mind.py
@@ -234,14 +234,16 @@ class MINDDataManager:
         frames: List[pd.DataFrame] = []
         for split_name in self._iter_splits(split):
             behaviors = self.read_behaviors(split_name)
-            candidates = behaviors["impressions"].str.split().explode()
-            labels = candidates.str.rsplit("-", n=1, expand=True)
+            candidates = behaviors["impressions"].str.split().explode().dropna()
+            labels = candidates.str.extract(r"^(.+)-([01])$")
+            if labels.isna().to_numpy().any():
+                raise ValueError("MIND impressions must be labeled with 0 or 1.")
             frame = behaviors.loc[
                 candidates.index, ["impression_id", "user_id", "timestamp"]
             ].copy()
             frame["item_id"] = labels[0].to_numpy()
             frame["clicked"] = labels[1].eq("1").to_numpy()
-            frame["position"] = frame.groupby("impression_id", sort=False).cumcount()
+            frame["position"] = frame.groupby(level=0, sort=False).cumcount()
             frame["split"] = split_name
             if clicked_only:
                 frame = frame[frame["clicked"]]
-- 
2.43.0


From 37b7c41e352b221e3c31d921f3599a0d318754dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:18 +0000
Subject: [PATCH 41/57] fix: keep leading zeros of zip codes in MovieLens

---
 src/irspack/dataset/movielens/ML100K.py | 1 +
 src/irspack/dataset/movielens/ML1M.py   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/irspack/dataset/movielens/ML100K.py b/src/irspack/dataset/movielens/ML100K.py
index 80b0e0a..a2e0d5c 100644
--- a/src/irspack/dataset/movielens/ML100K.py
+++ b/src/irspack/dataset/movielens/ML100K.py
@@ -45,6 +45,7 @@ class MovieLens100KDataManager(BaseMovieLenstDataLoader):
                 sep="|",
                 header=None,
                 names=["userId", "age", "gender", "occupation", "zipcode"],
+                dtype={"zipcode": str},
             ).set_index("userId")
 
     def _read_genre(self) -> List[str]:
diff --git a/src/irspack/dataset/movielens/ML1M.py b/src/irspack/dataset/movielens/ML1M.py
index 7529177..311e4f1 100644
--- a/src/irspack/dataset/movielens/ML1M.py
+++ b/src/irspack/dataset/movielens/ML1M.py
@@ -62,5 +62,6 @@ class MovieLens1MDataManager(BaseMovieLenstDataLoader):
                 sep="::",
                 header=None,
                 names=["userId", "gender", "age", "occupation", "zipcode"],
+                dtype={"zipcode": str},
                 engine="python",
             ).set_index("userId")
-- 
2.43.0


From 52f576f05e2aaf039603b31b6e07855343421b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:42 +0000
Subject: [PATCH 42/57] fix: a MIND archive shorter than announced is
 incomplete

The end of a truncated file may look like a complete zip archive (a cut
archive comment, or an archive inside of the archive).
---
 src/irspack/dataset/mind.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/irspack/dataset/mind.py b/src/irspack/dataset/mind.py
index 1beb2a5..20aa6d7 100644
--- a/src/irspack/dataset/mind.py
+++ b/src/irspack/dataset/mind.py
@@ -137,7 +137,9 @@ class MINDDataManager:
                 ) as output:
                     temporary_path = Path(output.name)
                     shutil.copyfileobj(response, output)
-            if not is_zipfile(temporary_path):
+                    size = str(output.tell())
+                expected_size = response.headers.get("Content-Length", size)
+            if size != expected_size or not is_zipfile(temporary_path):
                 raise RuntimeError(f"The download of {url} is incomplete.")
             temporary_path.replace(path)
         except HTTPError as err:
-- 
2.43.0


From acc2b8f4cf9e3058e68ba2353f9b69d383fceadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:42 +0000
Subject: [PATCH 43/57] fix: do not disclose a malformed Hugging Face token in
 an error message

Surrounding white space (HF_TOKEN read from a file) is dropped, as
huggingface_hub does; http.client quotes the header it refuses to send.
---
 src/irspack/dataset/mind.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/irspack/dataset/mind.py b/src/irspack/dataset/mind.py
index 20aa6d7..b34d5e1 100644
--- a/src/irspack/dataset/mind.py
+++ b/src/irspack/dataset/mind.py
@@ -127,6 +127,10 @@ class MINDDataManager:
     def _download(url: str, path: Path, hf_token: Optional[str] = None) -> None:
         request = urllib.request.Request(url)
         if hf_token:
+            hf_token = hf_token.strip()
+            if not (hf_token.isascii() and hf_token.isprintable()):
+                # otherwise the token would appear in the error of http.client
+                raise ValueError("The Hugging Face token has invalid characters.")
             # not to be forwarded to the storage host the mirror redirects to
             request.add_unredirected_header("Authorization", f"Bearer {hf_token}")
         temporary_path: Optional[Path] = None
-- 
2.43.0


From 4cef07c04211a997a9f8733c556656eef3e1287f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:06 +0000
Subject: [PATCH 44/57] fix: read the text of MovieLens 100K as it is

Titles that begin with a quote lost it or swallowed the lines up to the
next quote, and titles like "None" or "NA" became missing.
---
 src/irspack/dataset/movielens/ML100K.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/irspack/dataset/movielens/ML100K.py b/src/irspack/dataset/movielens/ML100K.py
index a2e0d5c..172c71b 100644
--- a/src/irspack/dataset/movielens/ML100K.py
+++ b/src/irspack/dataset/movielens/ML100K.py
@@ -1,6 +1,7 @@
+import csv
 import re
 from pathlib import Path
-from typing import List, Tuple
+from typing import Any, Dict, List, Tuple
 
 import pandas as pd
 
@@ -27,6 +28,11 @@ class MovieLens100KDataManager(BaseMovieLenstDataLoader):
     ITEM_INFO_PATH = "ml-100k/u.item"
     GENRE_PATH = "ml-100k/u.genre"
 
+    # quotes are not special and only an empty field is missing.
+    _TEXT_FORMAT: Dict[str, Any] = dict(
+        quoting=csv.QUOTE_NONE, keep_default_na=False, na_values=[""]
+    )
+
     def read_interaction(self) -> pd.DataFrame:
         with self._read_as_istream(self.INTERACTION_PATH) as ifs:
             data = pd.read_csv(
@@ -46,6 +52,7 @@ class MovieLens100KDataManager(BaseMovieLenstDataLoader):
                 header=None,
                 names=["userId", "age", "gender", "occupation", "zipcode"],
                 dtype={"zipcode": str},
+                **self._TEXT_FORMAT,
             ).set_index("userId")
 
     def _read_genre(self) -> List[str]:
@@ -55,7 +62,9 @@ class MovieLens100KDataManager(BaseMovieLenstDataLoader):
 
     def read_item_info(self) -> Tuple[pd.DataFrame, pd.DataFrame]:
         with self._read_as_istream(self.ITEM_INFO_PATH) as ifs:
-            df = pd.read_csv(ifs, sep="|", header=None, encoding="latin-1")
+            df = pd.read_csv(
+                ifs, sep="|", header=None, encoding="latin-1", **self._TEXT_FORMAT
+            )
 
         genres = self._read_genre()
         df.columns = [
-- 
2.43.0


From 6113280ac98dd9870470bb0f4dd5b494a2bc06e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:06 +0000
Subject: [PATCH 45/57] fix: titles of MovieLens 1M like "None" or "NA" are not
 missing

---
 src/irspack/dataset/movielens/ML1M.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/irspack/dataset/movielens/ML1M.py b/src/irspack/dataset/movielens/ML1M.py
index 311e4f1..9d61053 100644
--- a/src/irspack/dataset/movielens/ML1M.py
+++ b/src/irspack/dataset/movielens/ML1M.py
@@ -48,6 +48,8 @@ class MovieLens1MDataManager(BaseMovieLenstDataLoader):
                 encoding="latin-1",
                 names=["movieId", "title", "genres"],
                 engine="python",
+                keep_default_na=False,
+                na_values=[""],
             )
             release_year = pd.to_numeric(
                 data.title.str.extract(r"^.*\((?P<release_year>\d+)\)\s*$").release_year
-- 
2.43.0


From c55f9ef4b59ebd535cd11c8e6677830b78071b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:06 +0000
Subject: [PATCH 46/57] fix: ids of Amazon music like "NA" are not missing

---
 src/irspack/dataset/amazon_music.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/irspack/dataset/amazon_music.py b/src/irspack/dataset/amazon_music.py
index dcb5fce..602b5eb 100644
--- a/src/irspack/dataset/amazon_music.py
+++ b/src/irspack/dataset/amazon_music.py
@@ -37,6 +37,8 @@ class AmazonMusicDataManager(BaseDownloader):
             names=["user_id", "music_id", "rating", "timestamp"],
             # item ids may consist of digits only and have leading zeros
             dtype={"user_id": str, "music_id": str},
+            keep_default_na=False,
+            na_values=[""],
         )
 
     def read_metadata(self) -> pd.DataFrame:
-- 
2.43.0


From cc9ab58daa9a4949ea0082d789d136062c63b5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:33 +0000
Subject: [PATCH 47/57] fix: MIND splits without any candidate have no
 impressions

---
 src/irspack/dataset/mind.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/irspack/dataset/mind.py b/src/irspack/dataset/mind.py
index b34d5e1..daa9372 100644
--- a/src/irspack/dataset/mind.py
+++ b/src/irspack/dataset/mind.py
@@ -240,7 +240,9 @@ class MINDDataManager:
         frames: List[pd.DataFrame] = []
         for split_name in self._iter_splits(split):
             behaviors = self.read_behaviors(split_name)
-            candidates = behaviors["impressions"].str.split().explode().dropna()
+            candidates = (
+                behaviors["impressions"].str.split().explode().dropna().astype(str)
+            )
             labels = candidates.str.extract(r"^(.+)-([01])$")
             if labels.isna().to_numpy().any():
                 raise ValueError("MIND impressions must be labeled with 0 or 1.")
-- 
2.43.0


From 0d527e28dc31fd842ee2b3a5ed54298fc6a0ea91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:33 +0000
Subject: [PATCH 48/57] fix: read the release dates of MovieLens 100K whatever
 the first month is

The format was guessed from the first date; May is also a full month name.
---
 src/irspack/dataset/movielens/ML100K.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/dataset/movielens/ML100K.py b/src/irspack/dataset/movielens/ML100K.py
index 172c71b..ad39003 100644
--- a/src/irspack/dataset/movielens/ML100K.py
+++ b/src/irspack/dataset/movielens/ML100K.py
@@ -75,7 +75,7 @@ class MovieLens100KDataManager(BaseMovieLenstDataLoader):
             "URL",
         ] + genres
         movie_ids = df.movieId.values
-        df["release_date"] = pd.to_datetime(df.release_date)
+        df["release_date"] = pd.to_datetime(df.release_date, format="mixed")
         genre_df = pd.DataFrame(
             [
                 dict(movieId=movie_ids[row], genre=genres[col])
-- 
2.43.0


From ebbd92ee0f8caa7f16770e6ca01fa7c27963f36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:59 +0000
Subject: [PATCH 49/57] fix: a large max_chunk_size must not overflow the row
 cursor of the similarity computers

cursor + max_chunk_size wrapped around for chunk sizes close to 2**64 when a
worker thread did not begin at row 0, which yielded a block of negative size.
---
 cpp_source/knn/knn.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp_source/knn/knn.hpp b/cpp_source/knn/knn.hpp
index fc4a604..3435e4b 100644
--- a/cpp_source/knn/knn.hpp
+++ b/cpp_source/knn/knn.hpp
@@ -98,8 +98,8 @@ template <typename Real, class SimilarityType> struct KNNComputer {
     std::vector<Triplet> triples;
     std::vector<IndexType> buffer(this->N);
 
-    for (size_t cursor = start; cursor < end; cursor += this->max_chunk_size) {
-      size_t end_local = std::min(cursor + this->max_chunk_size, end);
+    for (size_t cursor = start, end_local; cursor < end; cursor = end_local) {
+      end_local = cursor + std::min(this->max_chunk_size, end - cursor);
       CSRMatrix block_result_row =
           this->compute_sim_block(target, cursor, end_local);
       block_result_row.makeCompressed();
-- 
2.43.0


From 244bbf403f93c46d80edeb599e07a93997442729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:52 +0000
Subject: [PATCH 50/57] fix: report failed workers of
 retrieve_recommend_from_score

The futures were dropped without get(): an exception inside a worker (out of
memory) was swallowed, and when no thread could be started std::async fell back
to a deferred task that never ran. Both returned empty recommendations.
---
 cpp_source/util.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index c2d8117..5117fc9 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -500,7 +500,9 @@ retrieve_recommend_from_score(
           }
         }));
   }
-  workers.clear();
+  for (auto &worker : workers) {
+    worker.get();
+  }
   return result;
 }
 
-- 
2.43.0


From b43282d5be23f578727ce5af4908da5c01304219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:52 +0000
Subject: [PATCH 51/57] fix: do not evaluate against an incomplete cache of the
 ground truth

The workers of cache_X_map were never asked for their outcome: out of memory in
a worker, or a thread that could not be started (std::async then defers the task,
which never ran), left users without ground truth, and the metrics of this and
all later calls were silently wrong.
---
 cpp_source/evaluator.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cpp_source/evaluator.cpp b/cpp_source/evaluator.cpp
index b292602..d1fb22e 100644
--- a/cpp_source/evaluator.cpp
+++ b/cpp_source/evaluator.cpp
@@ -213,18 +213,18 @@ struct EvaluatorCore {
     }
 
     const size_t n_rows = this->X_.rows();
-    this->X_as_set.resize(this->X_.rows());
+    vector<std::unordered_set<size_t>> sets(n_rows);
     std::atomic<std::size_t> cursor(0);
     vector<std::future<void>> workers;
     for (size_t th = 0; th < n_threads; th++) {
-      workers.emplace_back(std::async([this, &cursor, n_rows]() {
+      workers.emplace_back(std::async([this, &cursor, &sets, n_rows]() {
         std::vector<size_t> indices(this->X_.cols());
         while (true) {
           size_t current = cursor.fetch_add(1);
           if (current >= n_rows) {
             break;
           }
-          auto &target = this->X_as_set[current];
+          auto &target = sets[current];
           target.clear();
           if (this->recommendable_items.empty()) {
             for (SparseMatrix::InnerIterator iter(this->X_, current); iter;
@@ -252,6 +252,10 @@ struct EvaluatorCore {
         }
       }));
     }
+    for (auto &worker : workers) {
+      worker.get();
+    }
+    this->X_as_set = std::move(sets);
   }
 
   template <typename ScoreFloatType>
-- 
2.43.0


From 4ae2e4c2050b6d6415f3d0ff1bc5ac420daab203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:26 +0000
Subject: [PATCH 52/57] fix: a failing thread of the sparse product must not
 end the process

With std::thread a thread that could not be started (or ran out of memory) ended
in std::terminate; std::async hands the failure to the caller.
---
 cpp_source/util.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index 5117fc9..06411ca 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -48,9 +48,10 @@ parallel_sparse_product(const CSRMatrix<Real> &left,
   check_arg(left.cols() == right.rows(), "inner dimensions do not match.");
   const int64_t n_row = left.rows();
   std::atomic<int64_t> cursor(0);
-  std::vector<std::thread> workers;
+  std::vector<std::future<void>> workers;
   for (int i = 0; i < static_cast<int>(n_threads); i++) {
-    workers.emplace_back([&left, &right, &cursor, n_row, &result]() {
+    workers.emplace_back(std::async(std::launch::async, [&left, &right, &cursor,
+                                                         n_row, &result]() {
       const int64_t chunk_size = 16;
       while (true) {
         auto current_position = cursor.fetch_add(chunk_size);
@@ -62,10 +63,10 @@ parallel_sparse_product(const CSRMatrix<Real> &left,
         result.middleRows(current_position, block_size) +=
             left.middleRows(current_position, block_size) * right;
       }
-    });
+    }));
   }
   for (auto &worker : workers) {
-    worker.join();
+    worker.get();
   }
   return result;
 }
@@ -437,8 +438,8 @@ retrieve_recommend_from_score(
           (allowed_indices.size() == 1u) || allowed_indices.empty(),
       "allowed_indices, if not empty, must have a size equal to X.rows()");
   std::vector<std::vector<score_and_index>> result(score.rows());
-  std::vector<std::future<void>> workers;
   std::atomic<size_t> cursor(0);
+  std::vector<std::future<void>> workers;
   const size_t n_users = static_cast<size_t>(score.rows());
   for (size_t thread = 0; thread < std::min(n_threads, n_users); thread++) {
     workers.emplace_back(
-- 
2.43.0


From a196c00f2bd0c95bb0491ac930bb323e4dd23519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:26 +0000
Subject: [PATCH 53/57] fix: a failing thread of the iALS scoring must not end
 the process

user_scores and the predictions of the iALS++ solver used std::thread, where a
thread that cannot be started ends in std::terminate; std::async hands the
failure to the caller, as in the other parallel steps.
---
 cpp_source/als/IALSTrainer.hpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/cpp_source/als/IALSTrainer.hpp b/cpp_source/als/IALSTrainer.hpp
index 55e06f3..059dc9d 100644
--- a/cpp_source/als/IALSTrainer.hpp
+++ b/cpp_source/als/IALSTrainer.hpp
@@ -396,11 +396,15 @@ private:
                                  const SolverConfig &solver_config) const {
     size_t NNZ = X_compressed.nonZeros();
     DenseVector predictions(NNZ);
-    std::vector<std::thread> workers;
     std::atomic<int> cursor(0);
+    std::vector<std::future<void>> workers;
     for (size_t ind = 0; ind < solver_config.n_threads; ind++) {
-      workers.emplace_back([this, &target_factor, &cursor, &X_compressed,
-                            &other_factor, &solver_config, &predictions]() {
+      workers.emplace_back(std::async(std::launch::async, [this, &target_factor,
+                                                           &cursor,
+                                                           &X_compressed,
+                                                           &other_factor,
+                                                           &solver_config,
+                                                           &predictions]() {
         while (true) {
           int cursor_local = cursor.fetch_add(1);
           if (cursor_local >= target_factor.rows()) {
@@ -416,11 +420,11 @@ private:
             inner_index_ptr++;
           }
         }
-      });
+      }));
     }
 
     for (auto &worker : workers) {
-      worker.join();
+      worker.get();
     }
 
     return predictions;
@@ -986,8 +990,8 @@ struct IALSTrainer {
 
     int64_t result_size = userblock_end - userblock_begin;
     DenseMatrix result(result_size, n_items);
-    std::vector<std::thread> workers;
     std::atomic<int64_t> cursor(0);
+    std::vector<std::future<void>> workers;
     const int64_t chunks_per_thread = 4;
     const int64_t target_chunk_count =
         static_cast<int64_t>(solver_config.n_threads) * chunks_per_thread;
@@ -996,8 +1000,11 @@ struct IALSTrainer {
     const int64_t chunk_size =
         std::clamp<int64_t>(ideal_chunk_size, 16, 128);
     for (size_t ind = 0; ind < solver_config.n_threads; ind++) {
-      workers.emplace_back([this, userblock_begin, &cursor, result_size,
-                            chunk_size, &result]() {
+      workers.emplace_back(std::async(std::launch::async, [this,
+                                                           userblock_begin,
+                                                           &cursor, result_size,
+                                                           chunk_size,
+                                                           &result]() {
         while (true) {
           auto block_begin = cursor.fetch_add(chunk_size);
           if (block_begin >= result_size) {
@@ -1009,10 +1016,10 @@ struct IALSTrainer {
               this->user.middleRows(block_begin + userblock_begin, block_size) *
               this->item.transpose();
         }
-      });
+      }));
     }
     for (auto &worker : workers) {
-      worker.join();
+      worker.get();
     }
     return result;
   }
-- 
2.43.0


From 43c2948df03af8edaa29ce6ae1bec8a7e4e8f235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:02 +0000
Subject: [PATCH 54/57] fix: a split with a fixed random state must repeat in
 another process

The order of the item (and user) lists came from iterating a set, which for
string ids changes with the interpreter's hash seed, so that the same random
state held out other interactions in every run.
---
 src/irspack/split/userwise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index 41a0fc2..6f4d93f 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -189,7 +189,7 @@ def split_train_test_userwise_time(
     rating_column: Optional[str] = None,
     ceil_n_heldout: bool = False,
 ) -> UserTrainTestInteractionPair:
-    unique_user_ids = list(set(df_[user_column]))
+    unique_user_ids = list(df_[user_column].unique())
     df_train, df_test = split_last_n_interaction_df(
         df_,
         user_column,
@@ -324,7 +324,7 @@ def split_dataframe_partial_user_holdout(
     df_train = df_all[df_all[user_column].isin(train_uids)].copy()
     df_val = df_all[df_all[user_column].isin(val_uids)].copy()
     df_test = df_all[df_all[user_column].isin(test_uids)].copy()
-    item_all: List[Any] = list(set(df_all[item_column]))
+    item_all: List[Any] = list(df_all[item_column].unique())
 
     train_user_interactions, _, __ = df_to_sparse(
         df_train,
-- 
2.43.0


From 0a0be8115478aabb728ec77560491bd41a363345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:40 +0000
Subject: [PATCH 55/57] fix: the iALS configuration has the constructor's
 settings and defaults

---
 src/irspack/recommenders/ials.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/irspack/recommenders/ials.py b/src/irspack/recommenders/ials.py
index 6a4e198..8d1ed31 100644
--- a/src/irspack/recommenders/ials.py
+++ b/src/irspack/recommenders/ials.py
@@ -210,20 +210,22 @@ class IALSConfigScaling(enum.Enum):
 
 class IALSConfig(BaseEarlyStoppingRecommenderConfig):
     n_components: int = 20
-    alpha0: float = 1.0
+    alpha0: float = 0.0
     reg: float = 1e-3
     nu: float = 1.0
     confidence_scaling: str = "none"
     epsilon: float = 1.0
     init_std: float = 0.1
-    solver_type: Literal["CG", "CHOLESKY"] = "CG"
+    solver_type: Literal["CG", "CHOLESKY", "IALSPP"] = "CG"
     max_cg_steps: int = 3
+    ialspp_subspace_dimension: int = 64
     loss_type: Literal["IALSPP", "ORIGINAL"] = "IALSPP"
     nu_star: Optional[float] = None
     random_seed: int = 42
     n_threads: Optional[int] = None
     train_epochs: int = 16
     prediction_time_max_cg_steps: int = 5
+    prediction_time_ialspp_iteration: int = 7
     lambda_user_feature: float = 0.0
     lambda_item_feature: float = 0.0
     feature_warmup_epochs: int = 0
-- 
2.43.0


From 4d3bae6fcbb28b526cf98391b247479ca6c3a7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:40 +0000
Subject: [PATCH 56/57] fix: configurations default to the constructors' number
 of epochs

---
 src/irspack/recommenders/base_earlystop.py | 2 +-
 src/irspack/recommenders/multvae.py        | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/irspack/recommenders/base_earlystop.py b/src/irspack/recommenders/base_earlystop.py
index c8a1dbb..d01d464 100644
--- a/src/irspack/recommenders/base_earlystop.py
+++ b/src/irspack/recommenders/base_earlystop.py
@@ -46,7 +46,7 @@ class TrainerBase(ABC):
 
 
 class BaseEarlyStoppingRecommenderConfig(RecommenderConfig):
-    train_epochs: int = 512
+    train_epochs: int = 128
 
 
 class BaseRecommenderWithEarlyStopping(BaseRecommender):
diff --git a/src/irspack/recommenders/multvae.py b/src/irspack/recommenders/multvae.py
index 9f75ffa..fefdbaf 100644
--- a/src/irspack/recommenders/multvae.py
+++ b/src/irspack/recommenders/multvae.py
@@ -287,6 +287,7 @@ class MultVAEConfig(BaseEarlyStoppingRecommenderConfig):
     kl_anneal_goal: float = 0.2
     anneal_end_epoch: int = 50
     minibatch_size: int = 512
+    train_epochs: int = 300
     learning_rate: float = 1e-3
 
 
-- 
2.43.0


From 7fe0c3138d4629a9006cf10a6cd91351560f6759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:10 +0000
Subject: [PATCH 57/57] fix: NMF of a matrix of low rank does not give NaN
 scores

---
 src/irspack/recommenders/nmf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/irspack/recommenders/nmf.py b/src/irspack/recommenders/nmf.py
index 96b8e0d..e38ca30 100644
--- a/src/irspack/recommenders/nmf.py
+++ b/src/irspack/recommenders/nmf.py
@@ -1,5 +1,6 @@
 from typing import Optional
 
+import numpy as np
 import sklearn
 from packaging import version
 from sklearn.decomposition import NMF
@@ -60,6 +61,10 @@ class NMFRecommender(BaseRecommender):
         nmf_model = NMF(**params)
         self.nmf_model = nmf_model
         self.nmf_model.fit(self.X_train_all)
+        if not np.isfinite(self.nmf_model.components_).all():
+            # the SVD-based initialization of scikit-learn divides zero by zero
+            # for some matrices with a rank lower than n_components
+            self.nmf_model.set_params(init="random")
         self.W = self.nmf_model.fit_transform(self.X_train_all.tocsr())
         self.H = self.nmf_model.components_
 
-- 
2.43.0

