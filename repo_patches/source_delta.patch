From decd0d293f576e80ea901373d18ad9a2f583f029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:56 +0000
Subject: [PATCH 01/22] fix: keep inherited monotone bounds on splits over
 unconstrained features

The bounds created by a constrained split were only applied to splits on
constrained features, so a deeper split on an unconstrained feature could push
a leaf past them and break the requested monotone relationship (and trip the
bounds assertion when force_children_to_bound_parent is set).
---
 src/utils.rs | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index fe39c58..b8d839e 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -108,8 +108,7 @@ pub fn is_missing(value: &f64, missing: &f64) -> bool {
     }
 }
 
-/// Calculate the constraint weight given bounds
-/// and a constraint.
+/// Calculate the constraint weight given bounds.
 #[allow(clippy::too_many_arguments)]
 #[inline]
 pub fn constrained_weight(
@@ -120,20 +119,18 @@ pub fn constrained_weight(
     hessian_sum: f32,
     lower_bound: f32,
     upper_bound: f32,
-    constraint: Option<&Constraint>,
+    _constraint: Option<&Constraint>,
 ) -> f32 {
     let weight = weight(l1, l2, max_delta_step, gradient_sum, hessian_sum);
-    match constraint {
-        None | Some(Constraint::Unconstrained) => weight,
-        _ => {
-            if weight > upper_bound {
-                upper_bound
-            } else if weight < lower_bound {
-                lower_bound
-            } else {
-                weight
-            }
-        }
+    // The bounds are inherited from every constrained split above this node,
+    // so they have to hold even if this split is on an unconstrained feature.
+    // They are infinite if there is no such split.
+    if weight > upper_bound {
+        upper_bound
+    } else if weight < lower_bound {
+        lower_bound
+    } else {
+        weight
     }
 }
 
-- 
2.43.0


From f3840ed99b7aa121b81287b45c6b5431b1e184ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:59 +0000
Subject: [PATCH 02/22] fix: count ternary splits as two new leaves when
 enforcing max_leaves

The override was an inherent method, so growing a tree through the Splitter
trait used the default of one and trees with a missing branch could exceed
max_leaves by one.
---
 src/splitter.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/splitter.rs b/src/splitter.rs
index c65f4c4..b54a76c 100644
--- a/src/splitter.rs
+++ b/src/splitter.rs
@@ -260,9 +260,6 @@ pub struct MissingBranchSplitter {
 }
 
 impl MissingBranchSplitter {
-    pub fn new_leaves_added(&self) -> usize {
-        2
-    }
     pub fn update_average_missing_nodes(tree: &mut Tree, node_idx: usize) -> f64 {
         let node = &tree.nodes[node_idx];
 
@@ -315,6 +312,10 @@ impl MissingBranchSplitter {
 }
 
 impl Splitter for MissingBranchSplitter {
+    fn new_leaves_added(&self) -> usize {
+        2
+    }
+
     fn clean_up_splits(&self, tree: &mut Tree) {
         if let MissingNodeTreatment::AverageLeafWeight = self.missing_node_treatment {
             MissingBranchSplitter::update_average_missing_nodes(tree, 0);
-- 
2.43.0


From 3f401f8c890ed5fe84daeb9aedcf721ba5fe96bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:26 +0000
Subject: [PATCH 03/22] fix: weight of a missing node whose gradients cancel is
 its own optimum

A missing branch that does hold records, but whose gradient sum is exactly
zero, was treated as if it held none and given the weight of its parent.
---
 src/splitter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/splitter.rs b/src/splitter.rs
index b54a76c..6defc28 100644
--- a/src/splitter.rs
+++ b/src/splitter.rs
@@ -429,7 +429,7 @@ impl Splitter for MissingBranchSplitter {
             MissingNodeTreatment::None => {
                 // If there are no missing records, just default
                 // to the parent weight.
-                if missing_hessian == 0. || missing_gradient == 0. {
+                if missing_hessian == 0. && missing_gradient == 0. {
                     parent_weight
                 } else {
                     constrained_weight(
-- 
2.43.0


From 2217ef6955ad67712a8f5de0ec9cdcab9ae04a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:48 +0000
Subject: [PATCH 04/22] fix: check min_leaf_weight before bounding the children
 of a ternary split

With force_children_to_bound_parent a side that holds next to no hessian
could end up with a weight that fails the bounds assertion, so that
training panicked on a split that would have been rejected anyway.
---
 src/splitter.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/splitter.rs b/src/splitter.rs
index 6defc28..3432d38 100644
--- a/src/splitter.rs
+++ b/src/splitter.rs
@@ -367,6 +367,13 @@ impl Splitter for MissingBranchSplitter {
             return None;
         }
 
+        // Check the min_hessian constraint first, there is not a meaningful
+        // weight for a side that holds next to nothing.
+        if (right_hessian < self.min_leaf_weight) || (left_hessian < self.min_leaf_weight) {
+            // Update for new value
+            return None;
+        }
+
         let mut left_weight = constrained_weight(
             &self.l1,
             &self.l2,
@@ -397,12 +404,6 @@ impl Splitter for MissingBranchSplitter {
         let left_gain = gain_given_weight(&self.l2, left_gradient, left_hessian, left_weight);
         let right_gain = gain_given_weight(&self.l2, right_gradient, right_hessian, right_weight);
 
-        // Check the min_hessian constraint first
-        if (right_hessian < self.min_leaf_weight) || (left_hessian < self.min_leaf_weight) {
-            // Update for new value
-            return None;
-        }
-
         // We have not considered missing at all up until this point, we could if we wanted
         // to give more predictive power probably to missing.
         // If we don't want to allow the missing branch to be split further,
-- 
2.43.0


From 961274e07fc2532f4b2b71e1188d826b7599afb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:26 +0000
Subject: [PATCH 05/22] fix: keep the averaged weight of a missing node inside
 the inherited bounds

Rounding could put the average one ulp outside, and a later split of that
node with force_children_to_bound_parent then failed the bounds assertion.
---
 src/splitter.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/splitter.rs b/src/splitter.rs
index 3432d38..6cd1111 100644
--- a/src/splitter.rs
+++ b/src/splitter.rs
@@ -424,8 +424,17 @@ impl Splitter for MissingBranchSplitter {
             // Calculate the local leaf average for now, after training the tree.
             // Recursively assign to the leaf weights underneath.
             MissingNodeTreatment::AverageLeafWeight | MissingNodeTreatment::AverageNodeWeight => {
-                (right_weight * right_hessian + left_weight * left_hessian)
-                    / (right_hessian + left_hessian)
+                let average = (right_weight * right_hessian + left_weight * left_hessian)
+                    / (right_hessian + left_hessian);
+                // Rounding must not push the average of two weights that
+                // are in bounds out of them.
+                if average > upper_bound {
+                    upper_bound
+                } else if average < lower_bound {
+                    lower_bound
+                } else {
+                    average
+                }
             }
             MissingNodeTreatment::None => {
                 // If there are no missing records, just default
-- 
2.43.0


From 59301df5ff8e896af5446750a076aa79b86f657b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:02 +0000
Subject: [PATCH 06/22] fix: gain of the root is that of the weight it has

The gain of the root was always that of the unconstrained optimum, so with
l1 or max_delta_step the root's splits were compared against, and reported
relative to, a loss reduction the root does not achieve.
---
 src/tree.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index e5a0630..8f2430e 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -7,7 +7,7 @@ use crate::partial_dependence::tree_partial_dependence;
 use crate::sampler::SampleMethod;
 use crate::splitter::Splitter;
 use crate::utils::fast_f64_sum;
-use crate::utils::{gain, odds, weight};
+use crate::utils::{gain_given_weight, odds, weight};
 use rayon::prelude::*;
 use serde::{Deserialize, Serialize};
 use std::collections::{BinaryHeap, HashMap, VecDeque};
@@ -66,7 +66,6 @@ impl Tree {
         };
 
         let mut n_nodes = 1;
-        let root_gain = gain(&splitter.get_l2(), gradient_sum, hessian_sum);
         let root_weight = weight(
             &splitter.get_l1(),
             &splitter.get_l2(),
@@ -74,6 +73,10 @@ impl Tree {
             gradient_sum,
             hessian_sum,
         );
+        // The gain has to be that of the weight the root really has, as it is
+        // for every other node, l1 or max_delta_step may have limited it.
+        let root_gain =
+            gain_given_weight(&splitter.get_l2(), gradient_sum, hessian_sum, root_weight);
         // Calculate the histograms for the root node.
         let root_hists =
             HistogramMatrix::new(data, cuts, grad, hess, &index, col_index, parallel, sort);
-- 
2.43.0


From 30048874af6ed5606a7726df103db0f548efeec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:02 +0000
Subject: [PATCH 07/22] fix: evaluate splits of missing nodes with the weight
 their missing branch gets

With missing_node_treatment AssignToParent the candidate's missing branch was
evaluated with the optimum of all records of the node, but is assigned the
weight of the node, which differs when the node is itself a missing node.
---
 src/splitter.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/splitter.rs b/src/splitter.rs
index 6cd1111..4e4e58c 100644
--- a/src/splitter.rs
+++ b/src/splitter.rs
@@ -411,16 +411,10 @@ impl Splitter for MissingBranchSplitter {
 
         // Set weight based on the missing node treatment.
         let missing_weight = match self.missing_node_treatment {
-            MissingNodeTreatment::AssignToParent => constrained_weight(
-                &self.get_l1(),
-                &self.get_l2(),
-                &self.max_delta_step,
-                missing_gradient + left_gradient + right_gradient,
-                missing_hessian + left_hessian + right_hessian,
-                lower_bound,
-                upper_bound,
-                constraint,
-            ),
+            // This is the weight the node will get, so the gain has to be
+            // evaluated with it, a parent that is itself a missing node does
+            // not have the optimal weight of its records.
+            MissingNodeTreatment::AssignToParent => parent_weight,
             // Calculate the local leaf average for now, after training the tree.
             // Recursively assign to the leaf weights underneath.
             MissingNodeTreatment::AverageLeafWeight | MissingNodeTreatment::AverageNodeWeight => {
-- 
2.43.0


From 1d3696ca0a9365c2fe783f1e9196a12d28e3e55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:18 +0000
Subject: [PATCH 08/22] fix: missing node without records gets the parent
 weight

With missing_node_treatment None, a node without missing records could still
have rounding residue of the histogram subtraction in its missing bin, and
then got a weight and cover computed from that residue.
---
 src/splitter.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/splitter.rs b/src/splitter.rs
index 4e4e58c..030ba2e 100644
--- a/src/splitter.rs
+++ b/src/splitter.rs
@@ -578,6 +578,13 @@ impl Splitter for MissingBranchSplitter {
             // If there are no missing records, we know the missing value
             // will be a leaf, assign this node as a leaf.
             missing_is_leaf = true;
+            // Anything in the missing bin is what was left over from
+            // subtracting histograms, not the gradients of any record.
+            missing_info.grad = 0.;
+            missing_info.cover = 0.;
+            if let MissingNodeTreatment::None = self.missing_node_treatment {
+                missing_info.weight = node.weight_value;
+            }
             if max_ == 1 {
                 missing_histograms = HistogramMatrix::empty();
                 right_histograms = HistogramMatrix::new(
-- 
2.43.0


From 5a3722f5c76ab19b1860d7f034f1e6caf2c69405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:18 +0000
Subject: [PATCH 09/22] fix: log loss is finite for confident predictions

The metric took the log of the rounded probability, so a log odds above about
37 gave NaN or an infinite loss (also for correct predictions), which then
decided early stopping.
---
 src/metric.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/metric.rs b/src/metric.rs
index 45f61cb..e021676 100644
--- a/src/metric.rs
+++ b/src/metric.rs
@@ -131,8 +131,9 @@ pub fn log_loss(y: &[f64], yhat: &[f64], sample_weight: &[f64]) -> f64 {
         .zip(sample_weight)
         .map(|((y_, yhat_), w_)| {
             w_sum += *w_;
-            let yhat_ = f64::ONE / (f64::ONE + (-*yhat_).exp());
-            -(*y_ * yhat_.ln() + (f64::ONE - *y_) * ((f64::ONE - yhat_).ln())) * *w_
+            // Calculated on the log odds, the probability of a confident
+            // prediction rounds to 0 or 1, for which the log is infinite.
+            (yhat_.max(f64::ZERO) - *yhat_ * *y_ + (-yhat_.abs()).exp().ln_1p()) * *w_
         })
         .sum::<f64>();
     res / w_sum
-- 
2.43.0


From bdc9599fb18b67832d85d4fa19997898381d1948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:04 +0000
Subject: [PATCH 10/22] fix: models with non-finite metrics, base score or
 missing marker can be loaded again

---
 src/gradientbooster.rs | 86 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 78 insertions(+), 8 deletions(-)

diff --git a/src/gradientbooster.rs b/src/gradientbooster.rs
index a61592e..18e7a06 100644
--- a/src/gradientbooster.rs
+++ b/src/gradientbooster.rs
@@ -20,7 +20,8 @@ use rand::rngs::StdRng;
 use rand::seq::IteratorRandom;
 use rand::SeedableRng;
 use rayon::prelude::*;
-use serde::{Deserialize, Deserializer, Serialize};
+use serde::de::Error;
+use serde::{Deserialize, Deserializer, Serialize, Serializer};
 use std::collections::{HashMap, HashSet};
 use std::fs;
 
@@ -114,6 +115,10 @@ pub struct GradientBooster {
     /// required to be in a node.
     pub min_leaf_weight: f32,
     /// The initial prediction value of the model.
+    #[serde(
+        serialize_with = "serialize_float",
+        deserialize_with = "deserialize_float"
+    )]
     pub base_score: f64,
     /// Number of bins to calculate to partition the data. Setting this to
     /// a smaller number, will result in faster training time, while potentially sacrificing
@@ -142,7 +147,10 @@ pub struct GradientBooster {
     /// Integer value used to seed any randomness used in the algorithm.
     pub seed: u64,
     /// Value to consider missing.
-    #[serde(deserialize_with = "parse_missing")]
+    #[serde(
+        serialize_with = "serialize_float",
+        deserialize_with = "deserialize_float"
+    )]
     pub missing: f64,
     /// Should missing be split out it's own separate branch?
     pub create_missing_branch: bool,
@@ -168,7 +176,11 @@ pub struct GradientBooster {
     #[serde(default = "default_terminate_missing_features")]
     pub terminate_missing_features: HashSet<usize>,
     /// A matrix of the evaluation history on the evaluation datasets.
-    #[serde(default = "default_evaluation_history")]
+    #[serde(
+        default = "default_evaluation_history",
+        serialize_with = "serialize_history",
+        deserialize_with = "deserialize_history"
+    )]
     pub evaluation_history: Option<RowMajorMatrix<f64>>,
     #[serde(default = "default_best_iteration")]
     pub best_iteration: Option<usize>,
@@ -247,11 +259,69 @@ fn default_force_children_to_bound_parent() -> bool {
     false
 }
 
-fn parse_missing<'de, D>(d: D) -> Result<f64, D::Error>
-where
-    D: Deserializer<'de>,
-{
-    Deserialize::deserialize(d).map(|x: Option<_>| x.unwrap_or(f64::NAN))
+/// Json has no non-finite numbers, serde_json writes all of them as null. This
+/// keeps null for NaN, and uses the strings "inf" and "-inf" for the others, so
+/// that what is read back is what has been written.
+#[derive(Clone, Copy)]
+struct JsonFloat(f64);
+
+impl Serialize for JsonFloat {
+    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
+        if self.0.is_infinite() {
+            s.serialize_str(&self.0.to_string())
+        } else {
+            s.serialize_f64(self.0)
+        }
+    }
+}
+
+impl<'de> Deserialize<'de> for JsonFloat {
+    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
+        #[derive(Deserialize)]
+        #[serde(untagged)]
+        enum Repr {
+            Number(Option<f64>),
+            Text(String),
+        }
+        match Repr::deserialize(d)? {
+            Repr::Number(v) => Ok(JsonFloat(v.unwrap_or(f64::NAN))),
+            Repr::Text(v) => match v.as_str() {
+                "inf" => Ok(JsonFloat(f64::INFINITY)),
+                "-inf" => Ok(JsonFloat(f64::NEG_INFINITY)),
+                _ => Err(D::Error::custom(format!("invalid number {}", v))),
+            },
+        }
+    }
+}
+
+fn serialize_float<S: Serializer>(v: &f64, s: S) -> Result<S::Ok, S::Error> {
+    JsonFloat(*v).serialize(s)
+}
+
+fn deserialize_float<'de, D: Deserializer<'de>>(d: D) -> Result<f64, D::Error> {
+    JsonFloat::deserialize(d).map(|v| v.0)
+}
+
+fn serialize_history<S: Serializer>(
+    v: &Option<RowMajorMatrix<f64>>,
+    s: S,
+) -> Result<S::Ok, S::Error> {
+    v.as_ref()
+        .map(|m| {
+            RowMajorMatrix::new(
+                m.data.iter().map(|x| JsonFloat(*x)).collect(),
+                m.rows,
+                m.cols,
+            )
+        })
+        .serialize(s)
+}
+
+fn deserialize_history<'de, D: Deserializer<'de>>(
+    d: D,
+) -> Result<Option<RowMajorMatrix<f64>>, D::Error> {
+    Ok(Option::<RowMajorMatrix<JsonFloat>>::deserialize(d)?
+        .map(|m| RowMajorMatrix::new(m.data.iter().map(|x| x.0).collect(), m.rows, m.cols)))
 }
 
 impl Default for GradientBooster {
-- 
2.43.0


From d55f6e89a6ae5955e8e16f3f8707e2b2a4f4b2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:31 +0000
Subject: [PATCH 11/22] fix: columns with 65536 distinct values fit in the bins
 again

With nbins 65535 a column with exactly 65536 distinct values used all of them
as cuts, so the last bin number did not fit in u16 and training panicked.
---
 src/binning.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/binning.rs b/src/binning.rs
index 6ae1d91..7239969 100644
--- a/src/binning.rs
+++ b/src/binning.rs
@@ -15,7 +15,9 @@ where
     let mut v_u = v.to_owned();
     v_u.sort_unstable_by(|a, b| a.partial_cmp(b).unwrap());
     v_u.dedup();
-    if v_u.len() <= pcts.len() + 1 {
+    // Every value gets a bin of its own, next to the one for missing values, and
+    // bins are numbered with u16.
+    if v_u.len() <= (pcts.len() + 1).min(usize::from(u16::MAX)) {
         v_u
     } else {
         percentiles(v, sample_weight, pcts)
-- 
2.43.0


From 16bc399931fc7d794fa52643a85a4a56334de0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:31 +0000
Subject: [PATCH 12/22] fix: shapley contributions of trees with branches
 without cover

Unwinding the path of a branch without cover divided zero by zero and then
panicked.
---
 src/shapley.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/shapley.rs b/src/shapley.rs
index 6fa6a68..8214fd1 100644
--- a/src/shapley.rs
+++ b/src/shapley.rs
@@ -191,9 +191,19 @@ fn tree_shap(
         }
 
         for (i, n_idx) in hot_cold_children.into_iter().enumerate() {
-            let zero_fraction =
-                (tree.nodes[n_idx].hessian_sum / node.hessian_sum) * incoming_zero_fraction;
+            let cover = tree.nodes[n_idx].hessian_sum;
+            // Avoid 0 / 0 in nodes without any cover.
+            let zero_fraction = if cover == 0. {
+                0.
+            } else {
+                (cover / node.hessian_sum) * incoming_zero_fraction
+            };
             let onf = if i == 0 { incoming_one_fraction } else { 0. };
+            // This branch is never taken, whichever features are known, it does
+            // not contribute, and its path can not be unwound again.
+            if zero_fraction == 0. && onf == 0. {
+                continue;
+            }
             tree_shap(
                 tree,
                 row,
-- 
2.43.0


From 0794cf1480fb62d3daa3623ed86f5dd2d2f98073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:26 +0000
Subject: [PATCH 13/22] fix: a split has to have records on both sides

The gradient and hessian sums of a bin without records can be left with
a rounding residue by the histogram subtraction. With min_leaf_weight 0,
or large sample weights, that residue looked like a populated side, so a
node was split without separating anything, endlessly if max_depth is
not limiting.
---
 src/histogram.rs |  8 ++++++++
 src/splitter.rs  | 16 ++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/histogram.rs b/src/histogram.rs
index bf1080f..8d272d7 100644
--- a/src/histogram.rs
+++ b/src/histogram.rs
@@ -13,6 +13,8 @@ pub struct Bin<T> {
     /// the split value for non-binned values.
     /// This value will be missing for the missing bin.
     pub cut_value: f64,
+    /// The number of records in this bin.
+    pub count: u32,
 }
 
 impl Bin<f32> {
@@ -21,6 +23,7 @@ impl Bin<f32> {
             gradient_sum: f32::ZERO,
             hessian_sum: f32::ZERO,
             cut_value,
+            count: 0,
         }
     }
 
@@ -31,6 +34,7 @@ impl Bin<f32> {
             gradient_sum: root_bin.gradient_sum - child_bin.gradient_sum,
             hessian_sum: root_bin.hessian_sum - child_bin.hessian_sum,
             cut_value: root_bin.cut_value,
+            count: root_bin.count - child_bin.count,
         }
     }
 
@@ -47,6 +51,7 @@ impl Bin<f32> {
             hessian_sum: root_bin.hessian_sum
                 - (first_child_bin.hessian_sum + second_child_bin.hessian_sum),
             cut_value: root_bin.cut_value,
+            count: root_bin.count - (first_child_bin.count + second_child_bin.count),
         }
     }
 }
@@ -57,6 +62,7 @@ impl Bin<f64> {
             gradient_sum: f64::ZERO,
             hessian_sum: f64::ZERO,
             cut_value,
+            count: 0,
         }
     }
 
@@ -65,6 +71,7 @@ impl Bin<f64> {
             gradient_sum: self.gradient_sum as f32,
             hessian_sum: self.hessian_sum as f32,
             cut_value: self.cut_value,
+            count: self.count,
         }
     }
 }
@@ -101,6 +108,7 @@ pub fn create_feature_histogram(
             if let Some(v) = histogram.get_mut(feature[*i] as usize) {
                 v.gradient_sum += f64::from(*g);
                 v.hessian_sum += f64::from(*h);
+                v.count += 1;
             }
         });
     histogram.iter().map(|b| b.as_f32_bin()).collect()
diff --git a/src/splitter.rs b/src/splitter.rs
index 030ba2e..1379509 100644
--- a/src/splitter.rs
+++ b/src/splitter.rs
@@ -117,6 +117,8 @@ pub trait Splitter {
         let missing = &histogram[0];
         let mut cuml_grad = 0.0; // first_bin.gradient_sum;
         let mut cuml_hess = 0.0; // first_bin.hessian_sum;
+        let mut cuml_count = 0;
+        let total_count: u32 = histogram[1..].iter().map(|b| b.count).sum();
         let constraint = self.get_constraint(&feature);
 
         let elements = histogram.len();
@@ -129,6 +131,9 @@ pub trait Splitter {
             let right_hessian = node.hessian_sum - cuml_hess - missing.hessian_sum;
             cuml_grad += bin.gradient_sum;
             cuml_hess += bin.hessian_sum;
+            let left_count = cuml_count;
+            let right_count = total_count - cuml_count;
+            cuml_count += bin.count;
 
             let (mut left_node_info, mut right_node_info, missing_info) = match self.evaluate_split(
                 left_gradient,
@@ -148,6 +153,17 @@ pub trait Splitter {
                 Some(v) => v,
             };
 
+            // Rounding errors can make a side look populated, that does not
+            // have any records, do not allow this split.
+            let (left_count, right_count) = match missing_info {
+                MissingInfo::Left => (left_count + missing.count, right_count),
+                MissingInfo::Right => (left_count, right_count + missing.count),
+                _ => (left_count, right_count),
+            };
+            if left_count == 0 || right_count == 0 {
+                continue;
+            }
+
             let split_gain = node.get_split_gain(
                 &left_node_info,
                 &right_node_info,
-- 
2.43.0


From 38230a09aedaafe412147971c0392495327de61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:01 +0000
Subject: [PATCH 14/22] fix: y and sample_weight in any layout, no unaligned or
 byte-swapped buffers

---
 py-forust/forust/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index 5b7a258..008eb65 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -260,7 +260,8 @@ def _convert_input_frame(X: FrameLike) -> tuple[list[str], np.ndarray, int, int]
         features_ = []
     if not np.issubdtype(X_.dtype, "float64"):
         X_ = X_.astype(dtype="float64", copy=False)
-    flat_data = X_.ravel(order="F")
+    # The crate needs memory that is aligned and in native byte order.
+    flat_data = np.require(X_.ravel(order="F"), dtype="float64", requirements="A")
     rows, cols = X_.shape
     return features_, flat_data, rows, cols
 
@@ -272,7 +273,8 @@ def _convert_input_array(x: ArrayLike) -> np.ndarray:
         x_ = x
     if not np.issubdtype(x_.dtype, "float64"):
         x_ = x_.astype(dtype="float64", copy=False)
-    return x_
+    # The crate needs memory that is contiguous, aligned and in native byte order.
+    return np.require(x_, dtype="float64", requirements=["C", "A"])
 
 
 class GradientBooster:
-- 
2.43.0


From 90c8da37af1ce65a57ded1dececf6b924886bdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:01 +0000
Subject: [PATCH 15/22] fix: a loaded booster names its constraints and
 terminate_missing_features

---
 py-forust/forust/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index 008eb65..f41b8d3 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -978,7 +978,13 @@ class GradientBooster:
                         c.monotone_constraints = {
                             ft: c.monotone_constraints[i]
                             for i, ft in enumerate(c.feature_names_in_)
+                            if i in c.monotone_constraints
                         }
+                    c.terminate_missing_features = {
+                        ft
+                        for i, ft in enumerate(c.feature_names_in_)
+                        if i in c.terminate_missing_features
+                    }
             except KeyError:
                 pass
         return c
-- 
2.43.0


From 62da24b0a1be216f078d96458e850983c276da82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:28 +0000
Subject: [PATCH 16/22] fix: feature names of an earlier fit do not outlive a
 fit without names

---
 py-forust/forust/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index f41b8d3..ca1f44c 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -582,6 +582,10 @@ class GradientBooster:
         if len(features_) > 0:
             self.feature_names_in_ = features_
             self._set_metadata_attributes("feature_names_in_", self.feature_names_in_)
+        elif hasattr(self, "feature_names_in_"):
+            # Names of an earlier fit say nothing about this data.
+            del self.feature_names_in_
+            self._set_metadata_attributes("feature_names_in_", None)
 
         y_ = _convert_input_array(y)
 
@@ -968,6 +972,8 @@ class GradientBooster:
         for m in c.meta_data_attributes:
             try:
                 m_ = c._get_metadata_attributes(m)
+                if m_ is None:
+                    continue
                 setattr(c, m, m_)
                 # If "feature_names_in_" is present, we know a
                 # pandas dataframe was used for fitting, in this case
-- 
2.43.0


From 8710c88a06a578ca3f46cb686f4227a27a0955db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:54 +0000
Subject: [PATCH 17/22] fix: scalar serialiser for text with quotes,
 backslashes or line breaks

---
 py-forust/forust/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py-forust/forust/serialize.py b/py-forust/forust/serialize.py
index 03f4d6e..c9ca504 100644
--- a/py-forust/forust/serialize.py
+++ b/py-forust/forust/serialize.py
@@ -28,7 +28,7 @@ Scaler = Union[int, float, str]
 class ScalerSerializer(BaseSerializer[Scaler]):
     def serialize(self, obj: Scaler) -> str:
         if isinstance(obj, str):
-            obj_ = f"'{obj}'"
+            obj_ = repr(obj)
         else:
             obj_ = str(obj)
         return obj_
-- 
2.43.0


From e50d87c2625f77b8ae2a8f789fdc3681aba9a884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:08 +0000
Subject: [PATCH 18/22] fix: a fit refused in Python leaves the fitted model as
 it was

---
 py-forust/forust/__init__.py | 61 +++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 25 deletions(-)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index ca1f44c..9c6e34a 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -577,16 +577,6 @@ class GradientBooster:
         """
 
         features_, flat_data, rows, cols = _convert_input_frame(X)
-        self.n_features_ = cols
-        self._set_metadata_attributes("n_features_", self.n_features_)
-        if len(features_) > 0:
-            self.feature_names_in_ = features_
-            self._set_metadata_attributes("feature_names_in_", self.feature_names_in_)
-        elif hasattr(self, "feature_names_in_"):
-            # Names of an earlier fit say nothing about this data.
-            del self.feature_names_in_
-            self._set_metadata_attributes("feature_names_in_", None)
-
         y_ = _convert_input_array(y)
 
         if sample_weight is None:
@@ -596,10 +586,7 @@ class GradientBooster:
         # Convert the monotone constraints into the form needed
         # by the rust code.
         monotone_constraints_ = self._standardize_monotonicity_map(X)
-        self.booster.monotone_constraints = monotone_constraints_
-        self.booster.terminate_missing_features = (
-            self._standardize_terminate_missing_features(X)
-        )
+        terminate_missing_features_ = self._standardize_terminate_missing_features(X)
 
         # Create evaluation data
         if evaluation_data is not None:
@@ -612,10 +599,13 @@ class GradientBooster:
                     eval_X, eval_y = eval_  # type: ignore
                     eval_w_ = np.ones(eval_X.shape[0], dtype="float64")
 
-                features_, eval_flat_data, eval_rows, eval_cols = _convert_input_frame(
-                    eval_X
+                eval_features_, eval_flat_data, eval_rows, eval_cols = (
+                    _convert_input_frame(eval_X)
                 )
-                self._validate_features(features_)
+                if features_ and eval_features_ and eval_features_ != features_:
+                    raise ValueError(
+                        "Columns mismatch between data passed, and data used at fit."
+                    )
                 evaluation_data_.append(
                     (
                         eval_flat_data,
@@ -632,14 +622,35 @@ class GradientBooster:
         else:
             evaluation_data_ = None
 
-        self.booster.fit(
-            flat_data=flat_data,
-            rows=rows,
-            cols=cols,
-            y=y_,
-            sample_weight=sample_weight_,
-            evaluation_data=evaluation_data_,  # type: ignore
-        )
+        previous = self.booster.get_params()
+        try:
+            self.booster.monotone_constraints = monotone_constraints_
+            self.booster.terminate_missing_features = terminate_missing_features_
+            self.booster.fit(
+                flat_data=flat_data,
+                rows=rows,
+                cols=cols,
+                y=y_,
+                sample_weight=sample_weight_,
+                evaluation_data=evaluation_data_,  # type: ignore
+            )
+        except BaseException:
+            # A fit that is refused leaves the booster as it was.
+            self.booster.monotone_constraints = previous["monotone_constraints"]
+            self.booster.terminate_missing_features = previous[
+                "terminate_missing_features"
+            ]
+            raise
+
+        self.n_features_ = cols
+        self._set_metadata_attributes("n_features_", self.n_features_)
+        if len(features_) > 0:
+            self.feature_names_in_ = features_
+            self._set_metadata_attributes("feature_names_in_", self.feature_names_in_)
+        elif hasattr(self, "feature_names_in_"):
+            # Names of an earlier fit say nothing about this data.
+            del self.feature_names_in_
+            self._set_metadata_attributes("feature_names_in_", None)
 
         # Once it's been fit, reset the `base_score`
         # this will account for the fact that's it's adjusted after fit.
-- 
2.43.0


From 20ffa23702080c712c40273f689edc83786865b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:24 +0000
Subject: [PATCH 19/22] fix: take over plain xgboost Boosters

_from_xgboost_model accepts a Booster, but then called get_booster() on it.
---
 py-forust/forust/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index 9c6e34a..c96941f 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -133,7 +133,7 @@ def _from_xgboost_model(model: Any) -> GradientBooster:
     # because the base score is modified prior to predictions.
     # We would need to modify prior to handing it to the forust
     # model.
-    learner_config = json.loads(model.get_booster().save_config())["learner"]
+    learner_config = json.loads(booster.save_config())["learner"]
     base_score = float(learner_config["learner_model_param"]["base_score"])
     if learner_config["objective"]["name"] == "binary:logistic":
         base_score = np.log(base_score / (1 - base_score))
-- 
2.43.0


From 53293cfafd1b2dc2911a52d1452ec391915b0e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:24 +0000
Subject: [PATCH 20/22] fix: take over xgboost models trained without feature
 names

Without names the feature map was empty, so every split was put on the first
feature, and the number of features was not set.
---
 py-forust/forust/__init__.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index c96941f..7bee652 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -118,10 +118,12 @@ def _from_xgboost_model(model: Any) -> GradientBooster:
     # Get the model dump...
     model_dump = booster.get_dump(dump_format="json", with_stats=True)
     features = booster.feature_names
-    if features is None:
-        feature_map = {}
-    else:
-        feature_map = {v: i for i, v in enumerate(features)}
+    # Without names, the dump calls the features "f0", "f1", ...
+    n_features = booster.num_features()
+    feature_map = {
+        v: i
+        for i, v in enumerate(features or [f"f{i}" for i in range(n_features)])
+    }
 
     # Get the nodes
     trees = []
@@ -146,9 +148,9 @@ def _from_xgboost_model(model: Any) -> GradientBooster:
     # Populate booster from json
     final_model = GradientBooster()
     final_model.booster = CrateGradientBooster.from_json(json.dumps(model_json))
+    final_model.n_features_ = n_features
     if features is not None:
         final_model.feature_names_in_ = features
-        final_model.n_features_ = len(features)
     return final_model
 
 
-- 
2.43.0


From a901238a9e13f289d3dc8e8a94f878df1190c900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:28 +0000
Subject: [PATCH 21/22] fix: models taken over from xgboost keep their names
 and base score when saved

---
 py-forust/forust/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index 7bee652..eb75c6a 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -148,9 +148,12 @@ def _from_xgboost_model(model: Any) -> GradientBooster:
     # Populate booster from json
     final_model = GradientBooster()
     final_model.booster = CrateGradientBooster.from_json(json.dumps(model_json))
+    final_model.base_score = final_model.booster.base_score
     final_model.n_features_ = n_features
+    final_model._set_metadata_attributes("n_features_", n_features)
     if features is not None:
         final_model.feature_names_in_ = features
+        final_model._set_metadata_attributes("feature_names_in_", features)
     return final_model
 
 
-- 
2.43.0


From 20d07f5103945f2bee4b52b0fd80ca8ba2f1bfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:17 +0000
Subject: [PATCH 22/22] fix: no split that only separates missing records when
 allow_missing_splits is off

Rounding residue in an empty histogram bin made a side without any non-missing
record look populated, with min_leaf_weight 0 such splits were made.
---
 src/splitter.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/splitter.rs b/src/splitter.rs
index 1379509..4b764cc 100644
--- a/src/splitter.rs
+++ b/src/splitter.rs
@@ -48,7 +48,7 @@ pub trait Splitter {
         1
     }
     fn get_constraint(&self, feature: &usize) -> Option<&Constraint>;
-    // fn get_allow_missing_splits(&self) -> bool;
+    fn get_allow_missing_splits(&self) -> bool;
     fn get_gamma(&self) -> f32;
     fn get_l1(&self) -> f32;
     fn get_l2(&self) -> f32;
@@ -156,8 +156,13 @@ pub trait Splitter {
             // Rounding errors can make a side look populated, that does not
             // have any records, do not allow this split.
             let (left_count, right_count) = match missing_info {
-                MissingInfo::Left => (left_count + missing.count, right_count),
-                MissingInfo::Right => (left_count, right_count + missing.count),
+                MissingInfo::Left if self.get_allow_missing_splits() => {
+                    (left_count + missing.count, right_count)
+                }
+                MissingInfo::Right if self.get_allow_missing_splits() => {
+                    (left_count, right_count + missing.count)
+                }
+                // A side may not hold missing records alone.
                 _ => (left_count, right_count),
             };
             if left_count == 0 || right_count == 0 {
@@ -342,6 +347,10 @@ impl Splitter for MissingBranchSplitter {
         self.constraints_map.get(feature)
     }
 
+    fn get_allow_missing_splits(&self) -> bool {
+        self.allow_missing_splits
+    }
+
     fn get_gamma(&self) -> f32 {
         self.gamma
     }
@@ -788,6 +797,10 @@ impl Splitter for MissingImputerSplitter {
         self.constraints_map.get(feature)
     }
 
+    fn get_allow_missing_splits(&self) -> bool {
+        self.allow_missing_splits
+    }
+
     fn get_gamma(&self) -> f32 {
         self.gamma
     }
-- 
2.43.0

