From f7db9819bb5e279e6d7c583da41b9bf29c13ab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:55 +0000
Subject: [PATCH 001/107] fix: remaining-sample count of finite streams never
 goes below zero

After a final, shorter batch the cursor lies past the end of the data and
n_remaining_samples() was negative (-1 means 'infinite' elsewhere).
---
 src/skmultiflow/data/data_stream.py | 2 +-
 src/skmultiflow/data/file_stream.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/data/data_stream.py b/src/skmultiflow/data/data_stream.py
index 0e6bae0..cc506ec 100755
--- a/src/skmultiflow/data/data_stream.py
+++ b/src/skmultiflow/data/data_stream.py
@@ -388,7 +388,7 @@ class DataStream(Stream):
             Remaining number of samples.
 
         """
-        return self.n_samples - self.sample_idx
+        return max(self.n_samples - self.sample_idx, 0)
 
     def print_df(self):
         """
diff --git a/src/skmultiflow/data/file_stream.py b/src/skmultiflow/data/file_stream.py
index eb52215..f547f41 100644
--- a/src/skmultiflow/data/file_stream.py
+++ b/src/skmultiflow/data/file_stream.py
@@ -283,7 +283,7 @@ class FileStream(Stream):
             Remaining number of samples.
 
         """
-        return self.n_samples - self.sample_idx
+        return max(self.n_samples - self.sample_idx, 0)
 
     def get_all_samples(self):
         """
-- 
2.43.0


From 9eab293e71f717f939c8b8098cb4b76890d78f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:07 +0000
Subject: [PATCH 002/107] fix: DataStream with several targets and the default
 target_idx delivers the targets

target_idx=-1 with n_targets>1 selected an empty slice, so every target column
was delivered as a feature. FileStream already handles this default.
---
 src/skmultiflow/data/data_stream.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skmultiflow/data/data_stream.py b/src/skmultiflow/data/data_stream.py
index cc506ec..1133284 100755
--- a/src/skmultiflow/data/data_stream.py
+++ b/src/skmultiflow/data/data_stream.py
@@ -71,6 +71,9 @@ class DataStream(Stream):
                 self.X = pd.DataFrame(self.data)
                 self.target_idx = -self.y.shape[1]
                 self.n_targets = self.y.shape[1]
+        elif self.n_targets > 1 and self.target_idx == -1:
+            # Default target_idx: the targets are the last n_targets columns
+            self.target_idx = -self.n_targets
 
         self._prepare_for_use()
 
-- 
2.43.0


From 8deaad2e74d8a44db5c6fd216360e1142c477b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:26 +0000
Subject: [PATCH 003/107] fix: multi-label Hamming score counts correctly
 predicted absent labels

The documented score is the fraction of labels that are correctly predicted;
only true positives were counted, so a perfect prediction of an all-zero label
vector scored 0.
---
 .../metrics/_classification_performance_evaluator.pyx           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
index c37cbca..d721db3 100644
--- a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
+++ b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
@@ -666,7 +666,7 @@ cdef class MultiLabelClassificationPerformanceEvaluator:
 
         """
         try:
-            return np.sum(self.confusion_matrix.data[:,1,1]) / \
+            return (np.sum(self.confusion_matrix.data[:,0,0]) + np.sum(self.confusion_matrix.data[:,1,1])) / \
                    (self.n_samples * self.confusion_matrix.n_labels)
         except ZeroDivisionError:
             return 0.0   # ill-defined, return 0.0
-- 
2.43.0


From 33e90ccfd232c7f4f4b967f6ce9317a3084ea939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:26 +0000
Subject: [PATCH 004/107] fix: f1_score honours class_value for two-class
 problems

precision_score and recall_score already do; f1_score always returned the F1 of class 1.
---
 .../metrics/_classification_performance_evaluator.pyx         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
index d721db3..223961e 100644
--- a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
+++ b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
@@ -358,10 +358,10 @@ cdef class ClassificationPerformanceEvaluator:
         cdef double total
         cdef int n_classes = self.confusion_matrix.n_classes
         cdef double sum_f1
-        if n_classes == 2:
+        if n_classes == 2 and class_value == -1:
             # Binary case
             return self._f1_per_class(1)
-        if class_value == -1 and class_value == -1:
+        if class_value == -1:
             # Multi-class case, calculate 'macro' average
             sum_f1 = 0.0
             for i in self.confusion_matrix.classes:
-- 
2.43.0


From 299e6f1887a207f7ddfce2aca5e16b45ec2202f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:26 +0000
Subject: [PATCH 005/107] fix: resetting a performance evaluator keeps its
 configured number of classes/labels

reset() rebuilt the object with the default of 2, so macro-averaged scores after
a reset differed from those of a new evaluator with the same arguments.
---
 .../metrics/_classification_performance_evaluator.pyx       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
index 223961e..e612add 100644
--- a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
+++ b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
@@ -566,7 +566,7 @@ cdef class WindowClassificationPerformanceEvaluator(ClassificationPerformanceEva
     def reset(self):
         """ Reset the evaluator to its initial state.
         """
-        self.__init__(window_size=self.window_size)
+        self.__init__(n_classes=self._init_n_classes, window_size=self.window_size)
 
     def get_info(self):
         """ Get (current) information about the performance evaluator.
@@ -741,7 +741,7 @@ cdef class MultiLabelClassificationPerformanceEvaluator:
     def reset(self):
         """ Reset the evaluator to its initial state.
         """
-        self.__init__()
+        self.__init__(n_labels=self._init_n_labels)
 
     def get_info(self):
         """ Get (current) information about the performance evaluator.
@@ -874,7 +874,7 @@ cdef class WindowMultiLabelClassificationPerformanceEvaluator(MultiLabelClassifi
     def reset(self):
         """ Reset the evaluator to its initial state.
         """
-        self.__init__(window_size=self.window_size)
+        self.__init__(n_labels=self._init_n_labels, window_size=self.window_size)
 
     def get_info(self):
         """ Get (current) information about the performance evaluator.
-- 
2.43.0


From 50265d72fd9a7a7361b3d0574a08aa2c18163970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:57 +0000
Subject: [PATCH 006/107] fix: weighted classification scores are normalised by
 the observed weight

accuracy, kappa, kappa_t and kappa_m divided weighted sums by the number of
samples, so e.g. a perfect run with weight 2 reported accuracy 2.0; the window
evaluator also never subtracted the weight of evicted results.
---
 .../_classification_performance_evaluator.pyx | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
index e612add..ce79d19 100644
--- a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
+++ b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
@@ -93,7 +93,7 @@ cdef class ClassificationPerformanceEvaluator:
         cdef double max_prob = 0.0
         cdef double sum_value
         for i in sorted(self.confusion_matrix.classes):
-            sum_value = self.confusion_matrix.sum_row[i] / self.n_samples
+            sum_value = self.confusion_matrix.sum_row[i] / self._total_weight_observed
             if sum_value > max_prob:
                 max_prob = sum_value
                 majority_idx = i
@@ -111,8 +111,8 @@ cdef class ClassificationPerformanceEvaluator:
             Accuracy.
 
         """
-        return (self.confusion_matrix.sum_diag / self.n_samples)\
-            if self.n_samples > 0 else 0.0
+        return (self.confusion_matrix.sum_diag / self._total_weight_observed)\
+            if self._total_weight_observed > 0.0 else 0.0
 
     @property
     def total_weight_observed(self):
@@ -154,8 +154,8 @@ cdef class ClassificationPerformanceEvaluator:
 
         if self._total_weight_observed > 0.0:
             for i in self.confusion_matrix.classes:
-                estimation_row = self.confusion_matrix.sum_row[i] / self.n_samples
-                estimation_col = self.confusion_matrix.sum_col[i] / self.n_samples
+                estimation_row = self.confusion_matrix.sum_row[i] / self._total_weight_observed
+                estimation_col = self.confusion_matrix.sum_col[i] / self._total_weight_observed
                 pe += estimation_row * estimation_col
             # if ill-defined, return 0.0
             return (p0 - pe) / (1.0 - pe) if pe != 1.0 else 0.0
@@ -191,8 +191,7 @@ cdef class ClassificationPerformanceEvaluator:
         cdef double p0 = self.accuracy_score()
         cdef double pe = 0.0
         if self._total_weight_observed > 0.0:
-            if self.n_samples > 0:
-                pe = self.weight_correct_no_change_classifier / self.n_samples
+            pe = self.weight_correct_no_change_classifier / self._total_weight_observed
             # if ill-defined, return 0.0
             return (p0 - pe) / (1.0 - pe) if pe != 1.0 else 0.0
         return 0.0
@@ -225,8 +224,7 @@ cdef class ClassificationPerformanceEvaluator:
         cdef double p0 = self.accuracy_score()
         cdef double pe = 0.0
         if self._total_weight_observed > 0.0:
-            if self.n_samples > 0:
-                pe = self.weight_majority_classifier / self.n_samples
+            pe = self.weight_majority_classifier / self._total_weight_observed
             # if ill-defined, return 0.0
             return (p0 - pe) / (1.0 - pe) if pe != 1.0 else 0.0
         return 0.0
@@ -533,8 +531,9 @@ cdef class WindowClassificationPerformanceEvaluator(ClassificationPerformanceEva
             self.weight_majority_classifier -= weight_remove if majority_classifier_correction == 1 else 0.0
             self.weight_correct_no_change_classifier -= \
                 weight_remove if correct_no_change_classifier_correction == 1 else 0.0
-            # Update sample count
+            # Update sample count and weight
             self.n_samples -= 1
+            self._total_weight_observed -= weight_remove
 
         self.n_samples += 1
 
-- 
2.43.0


From fd040ff751d1bd38ff7e6ad273352a5cbfd9fe1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:59 +0000
Subject: [PATCH 007/107] fix: Hamming score of an empty multi-label evaluator
 is 0.0, not NaN

numpy division by zero does not raise ZeroDivisionError, so the documented
fallback was never taken.
---
 .../metrics/_classification_performance_evaluator.pyx           | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
index ce79d19..7294f84 100644
--- a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
+++ b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
@@ -664,6 +664,8 @@ cdef class MultiLabelClassificationPerformanceEvaluator:
             Hamming score.
 
         """
+        if self.n_samples == 0:
+            return 0.0   # ill-defined, return 0.0
         try:
             return (np.sum(self.confusion_matrix.data[:,0,0]) + np.sum(self.confusion_matrix.data[:,1,1])) / \
                    (self.n_samples * self.confusion_matrix.n_labels)
-- 
2.43.0


From ecc6e8cce2c40804dc58b03a0d8df18518daed61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:26 +0000
Subject: [PATCH 008/107] fix: evicting a zero-weight result does not add its
 class to the confusion matrix

A zero-weight result is not counted when it arrives, but leaving the window
registered its class, which changed every macro-averaged score.
---
 .../metrics/_classification_performance_evaluator.pyx          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
index 7294f84..08c67de 100644
--- a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
+++ b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
@@ -526,7 +526,8 @@ cdef class WindowClassificationPerformanceEvaluator(ClassificationPerformanceEva
             majority_classifier_correction = remove_tuple[3]
             correct_no_change_classifier_correction = remove_tuple[4]
             # Update confusion matrix by removing the oldest samples
-            self.confusion_matrix[(y_true_remove, y_pred_remove)] = -weight_remove
+            if weight_remove > 0.0:
+                self.confusion_matrix[(y_true_remove, y_pred_remove)] = -weight_remove
             # Update the majority and correct-no-change classifiers' statistics
             self.weight_majority_classifier -= weight_remove if majority_classifier_correction == 1 else 0.0
             self.weight_correct_no_change_classifier -= \
-- 
2.43.0


From 9da48dc4060a5b89c07e89097c47a4efbf0f88c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:13 +0000
Subject: [PATCH 009/107] fix: ConfusionMatrix grows when an index lies outside
 the table

np.max(i, j) takes j as an axis and raised instead of giving the larger index.
---
 src/skmultiflow/utils/data_structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/utils/data_structures.py b/src/skmultiflow/utils/data_structures.py
index 9d64e2d..9ac87b7 100644
--- a/src/skmultiflow/utils/data_structures.py
+++ b/src/skmultiflow/utils/data_structures.py
@@ -430,7 +430,7 @@ class ConfusionMatrix(object):
             if (0 <= i < m) and (0 <= j < n):
                 return self._update(i, j, weight)
             else:
-                new_size = np.max(i, j) + 1
+                new_size = max(i, j) + 1
                 if new_size <= m:
                     return False
                 else:
-- 
2.43.0


From 30b0ff9d31f5ced715fdc0d344e4c431d9ee7c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:13 +0000
Subject: [PATCH 010/107] fix: removing from a confusion matrix just past its
 bounds is refused

The bounds test was off by one and raised IndexError instead of returning the
documented False.
---
 src/skmultiflow/utils/data_structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/utils/data_structures.py b/src/skmultiflow/utils/data_structures.py
index 9ac87b7..1505939 100644
--- a/src/skmultiflow/utils/data_structures.py
+++ b/src/skmultiflow/utils/data_structures.py
@@ -465,7 +465,7 @@ class ConfusionMatrix(object):
             return False
 
         m, n = self.confusion_matrix.shape
-        if (i <= m) and (i >= 0) and (j <= n) and (j >= 0):
+        if (i < m) and (i >= 0) and (j < n) and (j >= 0):
             return self._remove(i, j)
 
         else:
@@ -715,7 +715,7 @@ class MOLConfusionMatrix(object):
         if true is None or pred is None or target is None:
             return False
         m, n, p = self.confusion_matrix.shape
-        if (target <= m) and (target >= 0) and (true <= n) and (true >= 0) and (pred >= 0) and (pred <= p):
+        if (target < m) and (target >= 0) and (true < n) and (true >= 0) and (pred >= 0) and (pred < p):
             return self._remove(target, true, pred)
         else:
             return False
-- 
2.43.0


From e245d0fa957c25322171171e88075d5b5be2718b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:39 +0000
Subject: [PATCH 011/107] fix: FastComplexBuffer stores a one-row batch as one
 entry

A batch of exactly one row was nested one level too deep, unlike larger batches.
---
 src/skmultiflow/utils/data_structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/utils/data_structures.py b/src/skmultiflow/utils/data_structures.py
index 1505939..82804a8 100644
--- a/src/skmultiflow/utils/data_structures.py
+++ b/src/skmultiflow/utils/data_structures.py
@@ -253,12 +253,12 @@ class FastComplexBuffer(object):
                 return None
 
         if not is_list:
-            if size == 1:
+            if dim == 1:
                 items = [element_list.tolist()]
             else:
                 items = element_list.tolist()
         else:
-            if size == 1:
+            if not hasattr(element_list[0], 'append'):
                 items = [element_list]
             else:
                 items = element_list
-- 
2.43.0


From e83ef01d6224eb0a8ab88ae61053033a9de271bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:19 +0000
Subject: [PATCH 012/107] fix: prequential evaluation without pre-training
 declares multi-label classes the way pre-training does

---
 src/skmultiflow/evaluation/evaluate_prequential.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/evaluation/evaluate_prequential.py b/src/skmultiflow/evaluation/evaluate_prequential.py
index f5db596..d3b4a7e 100644
--- a/src/skmultiflow/evaluation/evaluate_prequential.py
+++ b/src/skmultiflow/evaluation/evaluate_prequential.py
@@ -346,7 +346,10 @@ class EvaluatePrequential(StreamEvaluator):
                                self._task_type != constants.MULTI_TARGET_REGRESSION:
                                 # Accounts for the moment of training beginning
                                 self.running_time_measurements[i].compute_training_time_begin()
-                                self.model[i].partial_fit(X, y, self.stream.target_values)
+                                classes = self.stream.target_values
+                                if self._task_type == constants.MULTI_TARGET_CLASSIFICATION:
+                                    classes = unique(classes)
+                                self.model[i].partial_fit(X, y, classes)
                                 # Accounts the ending of training
                                 self.running_time_measurements[i].compute_training_time_end()
                             else:
-- 
2.43.0


From da379a804e3d72969f06122599729ef0d1b82c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:27 +0000
Subject: [PATCH 013/107] fix: delayed labels keep the weight of their own
 sample

---
 src/skmultiflow/data/time_manager.py          | 20 +++++++++++--------
 .../evaluate_prequential_delayed.py           |  6 +++---
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/skmultiflow/data/time_manager.py b/src/skmultiflow/data/time_manager.py
index da38ba5..ccd11f3 100644
--- a/src/skmultiflow/data/time_manager.py
+++ b/src/skmultiflow/data/time_manager.py
@@ -75,7 +75,8 @@ class TimeManager(object):
         Returns
         -------
         tuple
-            A tuple containing the data, their true labels and predictions.
+            A tuple containing the data, their true labels, predictions and
+            sample weights (None if weights are not used).
 
         """
 
@@ -87,8 +88,14 @@ class TimeManager(object):
         X = np.array(samples["X"].values.tolist())
         y_true = np.array(samples["y_true"].values.tolist())
         y_pred = np.array(samples["y_pred"].values.tolist())
-        # return X, y_true and y_pred for the dequeued samples
-        return X, y_true, y_pred
+        # return X, y_true, y_pred and weight for the dequeued samples
+        return X, y_true, y_pred, self._get_sample_weight(samples)
+
+    def _get_sample_weight(self, samples):
+        # check if sample_weight are being used
+        if self._USE_SAMPLE_WEIGHT:
+            return np.array(samples["sample_weight"].values.tolist())
+        return None
 
     def update_queue(self, X, y_true, y_pred, sample_weight, arrival_time, available_time):
         # check if weight is None to create a list
@@ -145,11 +152,8 @@ class TimeManager(object):
         y_true = np.array(samples["y_true"].values.tolist())
         # get y_pred
         y_pred = np.array(samples["y_pred"].values.tolist())
-        # check if sample_weight are being used
-        if self._USE_SAMPLE_WEIGHT:
-            sample_weight = np.array(samples["weight"].values.tolist())
-        else:
-            sample_weight = None
+        # get sample_weight
+        sample_weight = self._get_sample_weight(samples)
         # remove samples from queue
         self._cleanup_samples(batch_size)
         # return X, y_true, y_pred, and weight for the dequeued samples
diff --git a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
index 0488b8c..a1c6a13 100644
--- a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
+++ b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
@@ -437,8 +437,8 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
                 self.time_manager.update_timestamp(arrival_time[-1])
 
                 # get delayed samples to update model before predicting a new batch
-                X_delayed, y_true_delayed, y_pred_delayed = self.time_manager.\
-                    get_available_samples()
+                X_delayed, y_true_delayed, y_pred_delayed, sample_weight_delayed = \
+                    self.time_manager.get_available_samples()
 
                 # transpose prediction matrix to model-sample again
                 y_pred_delayed = self._transform_predictions_model(y_pred_delayed)
@@ -449,7 +449,7 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
                 # before getting new samples, update classifiers with samples
                 # that are already available
                 self._update_classifiers(X=X_delayed, y=y_true_delayed,
-                                         sample_weight=sample_weight)
+                                         sample_weight=sample_weight_delayed)
 
                 # predict samples and get predictions
                 y_pred = self._predict_samples(X)
-- 
2.43.0


From c5e6fbbd1dc2cae85fd275bf05af0bfc606afe0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:38 +0000
Subject: [PATCH 014/107] fix: delayed prequential evaluation works without
 pre-training

---
 .../evaluation/evaluate_prequential_delayed.py        | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
index a1c6a13..75f81ad 100644
--- a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
+++ b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
@@ -297,7 +297,10 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
                             self._task_type != constants.MULTI_TARGET_REGRESSION:
                         # Accounts for the moment of training beginning
                         self.running_time_measurements[i].compute_training_time_begin()
-                        self.model[i].partial_fit(X=X, y=y, classes=self.stream.target_values,
+                        classes = self.stream.target_values
+                        if self._task_type == constants.MULTI_TARGET_CLASSIFICATION:
+                            classes = unique(classes)
+                        self.model[i].partial_fit(X=X, y=y, classes=classes,
                                                   sample_weight=sample_weight)
                         # Accounts the ending of training
                         self.running_time_measurements[i].compute_training_time_end()
@@ -381,6 +384,7 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
             The trained classifiers.
 
         """
+        self.time_manager = None
         self._start_time = timer()
         self._end_time = timer()
         print('Prequential Evaluation Delayed')
@@ -434,6 +438,9 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
                     next_sample(self.batch_size)
 
                 # update current timestamp
+                if self.time_manager is None:
+                    # no pre-training: the clock starts with the first arrival
+                    self.time_manager = TimeManager(arrival_time[-1])
                 self.time_manager.update_timestamp(arrival_time[-1])
 
                 # get delayed samples to update model before predicting a new batch
@@ -469,7 +476,7 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
 
         # evaluate remaining samples in the delayed_queue
         # iterate over delay_queue while it has samples according to batch_size
-        while self.time_manager.has_more_samples():
+        while self.time_manager is not None and self.time_manager.has_more_samples():
             # get current samples to process
             X_delayed, y_true_delayed, y_pred_delayed, sample_weight = self.time_manager.\
                 next_sample(self.batch_size)
-- 
2.43.0


From 4cd07ac17ac5048920e9555cb9bc4b2ab600760b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:48 +0000
Subject: [PATCH 015/107] fix: TemporalDataStream orders data frames, single
 tables and weight series by time

---
 src/skmultiflow/data/temporal_data_stream.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/skmultiflow/data/temporal_data_stream.py b/src/skmultiflow/data/temporal_data_stream.py
index 5ebdebc..c703f7e 100644
--- a/src/skmultiflow/data/temporal_data_stream.py
+++ b/src/skmultiflow/data/temporal_data_stream.py
@@ -125,25 +125,27 @@ class TemporalDataStream(DataStream):
 
         # save sample weights if available
         if sample_weight is not None:
-            self.sample_weight = sample_weight
+            self.sample_weight = np.asarray(sample_weight)
         else:
             self.sample_weight = None
         # if data is not ordered, order it by time
         if not ordered:
             if time is not None:
+                order = np.argsort(pd.to_datetime(time).values, kind='mergesort')
                 # order data based on time
-                data = data[np.argsort(time)]
+                data = data.iloc[order] if isinstance(data, pd.DataFrame) else data[order]
                 # order y based on time
-                y = y[np.argsort(time)]
+                if y is not None:
+                    y = y.iloc[order] if isinstance(y, pd.DataFrame) else y[order]
                 # order sample_weight if available
                 if self.sample_weight is not None:
-                    self.sample_weight = self.sample_weight[np.argsort(time)]
+                    self.sample_weight = self.sample_weight[order]
                 # if delay is not by time, order time and delay
                 if not isinstance(sample_delay, int):
                     # order sample_delay, check if not single delay
-                    self.sample_delay = self.sample_delay[np.argsort(time)]
+                    self.sample_delay = self.sample_delay[order]
                     # order time
-                    self.time.sort()
+                    self.time = self.time[order]
             else:
                 raise TypeError("'time' is None, data cannot be ordered.")
         super().__init__(data, y, target_idx, n_targets, cat_features, name, allow_nan)
-- 
2.43.0


From 78827542b7134a666b55158bca7304066fc75b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:06 +0000
Subject: [PATCH 016/107] fix: a fixed delay is added to the converted
 timestamps of TemporalDataStream

---
 src/skmultiflow/data/temporal_data_stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/data/temporal_data_stream.py b/src/skmultiflow/data/temporal_data_stream.py
index c703f7e..758e62d 100644
--- a/src/skmultiflow/data/temporal_data_stream.py
+++ b/src/skmultiflow/data/temporal_data_stream.py
@@ -104,7 +104,7 @@ class TemporalDataStream(DataStream):
         # check if its a single delay or a delay for instance and save delay
         if isinstance(sample_delay, np.timedelta64):
             # create delays array by adding a time delay to each timestamp
-            self.sample_delay = add_delay_to_timestamps(time, sample_delay)
+            self.sample_delay = add_delay_to_timestamps(self.time, sample_delay)
         elif isinstance(sample_delay, pd.Series):
             # Convert argument to datetime
             self.sample_delay = pd.to_datetime(sample_delay.values).values
-- 
2.43.0


From f5f3f340615d6a67af7cf5c1be7e56ba95773d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:44 +0000
Subject: [PATCH 017/107] fix: TimeManager accepts integer clocks

---
 src/skmultiflow/data/time_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/data/time_manager.py b/src/skmultiflow/data/time_manager.py
index ccd11f3..247f04a 100644
--- a/src/skmultiflow/data/time_manager.py
+++ b/src/skmultiflow/data/time_manager.py
@@ -30,7 +30,7 @@ class TimeManager(object):
         # available_time = timestamp when the sample label will be available
         self.queue = pd.DataFrame(columns=self._COLUMN_NAMES)
         # transform queue into datetime if timestamps are not int
-        if isinstance(self.timestamp, int):
+        if not isinstance(self.timestamp, (int, np.integer)):
             self.queue['arrival_time'] = pd.to_datetime(self.queue['arrival_time'])
             self.queue['available_time'] = pd.to_datetime(self.queue['available_time'])
 
-- 
2.43.0


From fd8a1f9f3541899f29492c1625e0a145b636bf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:39 +0000
Subject: [PATCH 018/107] fix: RegressionGenerator delivers as many target rows
 as feature rows and never a negative remaining count

---
 src/skmultiflow/data/regression_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/data/regression_generator.py b/src/skmultiflow/data/regression_generator.py
index 754f3e8..762e256 100644
--- a/src/skmultiflow/data/regression_generator.py
+++ b/src/skmultiflow/data/regression_generator.py
@@ -135,7 +135,7 @@ class RegressionGenerator(Stream):
                                          n_informative=self.n_informative,
                                          n_targets=self.n_targets,
                                          random_state=self._random_state)
-        self.y = np.resize(self.y, (self.y.size, self.n_targets))
+        self.y = self.y.reshape((self.n_samples, self.n_targets))
 
         self.target_names = ["target_" + str(i) for i in range(self.n_targets)]
         self.feature_names = ["att_num_" + str(i) for i in range(self.n_num_features)]
@@ -148,7 +148,7 @@ class RegressionGenerator(Stream):
         int
             Number of samples remaining.
         """
-        return self.n_samples - self.sample_idx
+        return max(0, self.n_samples - self.sample_idx)
 
     def has_more_samples(self):
         """
-- 
2.43.0


From 85cf8a12e3097cf78fab8c39dec94cbaad1b7351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:39 +0000
Subject: [PATCH 019/107] fix: finite generators report when they have no more
 samples

---
 src/skmultiflow/data/anomaly_sine_generator.py |  9 +++++++++
 src/skmultiflow/data/multilabel_generator.py   | 11 ++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/data/anomaly_sine_generator.py b/src/skmultiflow/data/anomaly_sine_generator.py
index cba101a..cbba162 100644
--- a/src/skmultiflow/data/anomaly_sine_generator.py
+++ b/src/skmultiflow/data/anomaly_sine_generator.py
@@ -141,6 +141,15 @@ class AnomalySineGenerator(Stream):
         """
         return self.n_samples - self.sample_idx
 
+    def has_more_samples(self):
+        """
+        Returns
+        -------
+        Boolean
+            True if stream has more samples.
+        """
+        return self.n_remaining_samples() > 0
+
     def get_data_info(self):
         """ Retrieves minimum information from the stream
 
diff --git a/src/skmultiflow/data/multilabel_generator.py b/src/skmultiflow/data/multilabel_generator.py
index d8446f3..1973650 100644
--- a/src/skmultiflow/data/multilabel_generator.py
+++ b/src/skmultiflow/data/multilabel_generator.py
@@ -156,4 +156,13 @@ class MultilabelGenerator(Stream):
         int
             Number of remaining samples.
         """
-        return self.n_samples - self.sample_idx
+        return max(0, self.n_samples - self.sample_idx)
+
+    def has_more_samples(self):
+        """
+        Returns
+        -------
+        Boolean
+            True if stream has more samples.
+        """
+        return self.n_remaining_samples() > 0
-- 
2.43.0


From df6a2b8aafb3ec53130b19d5794913b4acf3e407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:39 +0000
Subject: [PATCH 020/107] fix: LEDGeneratorDrift instances do not share their
 attribute permutation

---
 src/skmultiflow/data/led_generator_drift.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/skmultiflow/data/led_generator_drift.py b/src/skmultiflow/data/led_generator_drift.py
index b63222f..fa2f7a7 100644
--- a/src/skmultiflow/data/led_generator_drift.py
+++ b/src/skmultiflow/data/led_generator_drift.py
@@ -71,7 +71,6 @@ class LEDGeneratorDrift(LEDGenerator):
 
     """
 
-    _numberAttribute = np.zeros((24,), dtype=int)
     _NUM_IRRELEVANT_ATTRIBUTES = 17
 
     def __init__(self, random_state=None, noise_percentage=0.0, has_noise=False,
@@ -81,8 +80,7 @@ class LEDGeneratorDrift(LEDGenerator):
         self.n_drift_features = n_drift_features
         self.name = "Led Generator with drift"
 
-        for i in range(self._TOTAL_ATTRIBUTES_INCLUDING_NOISE):
-            self._numberAttribute[i] = i
+        self._numberAttribute = np.arange(self._TOTAL_ATTRIBUTES_INCLUDING_NOISE)
 
         if self.has_noise and self.n_drift_features > 0:
             random_int = self._random_state.randint(7)
-- 
2.43.0


From 9ab8fa3bc71ec7db830ed29f5065bcd608bc0883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:55 +0000
Subject: [PATCH 021/107] fix: ConceptDriftStream keeps multi-target rows and
 reports the last sample as delivered

---
 src/skmultiflow/data/concept_drift_stream.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/data/concept_drift_stream.py b/src/skmultiflow/data/concept_drift_stream.py
index 5ee8018..782d387 100644
--- a/src/skmultiflow/data/concept_drift_stream.py
+++ b/src/skmultiflow/data/concept_drift_stream.py
@@ -165,10 +165,14 @@ class ConceptDriftStream(Stream):
             self.current_sample_x[j, :] = X
             self.current_sample_y[j, :] = y
 
-        return self.current_sample_x, self.current_sample_y.flatten()
+        if self.n_targets == 1:
+            self.current_sample_y = self.current_sample_y.flatten()
+        return self.current_sample_x, self.current_sample_y
 
     def restart(self):
         self._random_state = check_random_state(self.random_state)
         self.sample_idx = 0
+        self.current_sample_x = None
+        self.current_sample_y = None
         self.stream.restart()
         self.drift_stream.restart()
-- 
2.43.0


From c0c94d3e90400a45bfe9df6066a2f3477e036715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:55 +0000
Subject: [PATCH 022/107] fix: ConceptDriftStream instances do not share their
 default streams

---
 src/skmultiflow/data/concept_drift_stream.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/data/concept_drift_stream.py b/src/skmultiflow/data/concept_drift_stream.py
index 782d387..49abd8a 100644
--- a/src/skmultiflow/data/concept_drift_stream.py
+++ b/src/skmultiflow/data/concept_drift_stream.py
@@ -58,14 +58,19 @@ class ConceptDriftStream(Stream):
 
     """
 
-    def __init__(self, stream=AGRAWALGenerator(random_state=112),
-                 drift_stream=AGRAWALGenerator(random_state=112, classification_function=2),
+    def __init__(self, stream=None,
+                 drift_stream=None,
                  position=5000,
                  width=1000,
                  random_state=None,
                  alpha=None):
         super(ConceptDriftStream, self).__init__()
 
+        if stream is None:
+            stream = AGRAWALGenerator(random_state=112)
+        if drift_stream is None:
+            drift_stream = AGRAWALGenerator(random_state=112, classification_function=2)
+
         self.n_samples = stream.n_samples
         self.n_targets = stream.n_targets
         self.n_features = stream.n_features
-- 
2.43.0


From 3a7619323602d4bb8d4a4cab6be22ec559fdabb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:00 +0000
Subject: [PATCH 023/107] fix: MissingValuesCleaner leaves the input untouched
 and ignores missing values in its window

---
 .../transform/missing_values_cleaner.py       | 38 ++++++++++---------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/skmultiflow/transform/missing_values_cleaner.py b/src/skmultiflow/transform/missing_values_cleaner.py
index bcb9cae..ffd7966 100644
--- a/src/skmultiflow/transform/missing_values_cleaner.py
+++ b/src/skmultiflow/transform/missing_values_cleaner.py
@@ -97,16 +97,22 @@ class MissingValuesCleaner(StreamTransform):
             The sample or set of samples that should be transformed.
         
         """
+        X = np.array(X, dtype=float)
         r, c = get_dimensions(X)
         for i in range(r):
+            missing = self._is_missing(X[i])
             if self.strategy in ['mean', 'median', 'mode']:
-                self.window.add_element([X[i][:]])
+                self.window.add_element([np.where(missing, np.nan, X[i])])
             for j in range(c):
-                if X[i][j] in self.missing_value or np.isnan(X[i][j]):
+                if missing[j]:
                     X[i][j] = self._get_substitute(j)
 
         return X
 
+    def _is_missing(self, X):
+        """ Flags the missing values in X, NaN is always a missing value. """
+        return np.isin(X, self.missing_value) | np.isnan(X)
+
     def _get_substitute(self, column_index):
         """ _get_substitute
         
@@ -125,22 +131,18 @@ class MissingValuesCleaner(StreamTransform):
         """
         if self.strategy == 'zero':
             return 0
-        elif self.strategy == 'mean':
-            if not self.window.is_empty():
-                return np.nanmean(np.array(self.window.get_queue())[:, column_index])
-            else:
+        elif self.strategy in ['mean', 'median', 'mode']:
+            # Only the observed (not missing) values in the window are considered
+            observed = np.array(self.window.get_queue())[:, column_index]
+            observed = observed[~np.isnan(observed)]
+            if observed.size == 0:
                 return self.new_value
-        elif self.strategy == 'median':
-            if not self.window.is_empty():
-                return np.nanmedian(np.array(self.window.get_queue())[:, column_index])
+            elif self.strategy == 'mean':
+                return np.mean(observed)
+            elif self.strategy == 'median':
+                return np.median(observed)
             else:
-                return self.new_value
-        elif self.strategy == 'mode':
-            if not self.window.is_empty():
-                return stats.mode(np.array(self.window.get_queue())[:, column_index],
-                                  nan_policy='omit')[0]
-            else:
-                return self.new_value
+                return np.ravel(stats.mode(observed)[0])[0]
         elif self.strategy == 'custom':
             return self.new_value
 
@@ -186,7 +188,7 @@ class MissingValuesCleaner(StreamTransform):
             self
         
         """
-        X = np.asarray(X)
+        X = np.array(X, dtype=float)
         if self.strategy in ['mean', 'median', 'mode']:
-            self.window.add_element(X)
+            self.window.add_element(np.where(self._is_missing(X), np.nan, X))
         return self
-- 
2.43.0


From 157be4ced83833c68eaa8ea8410d1f61b5cb35b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:00 +0000
Subject: [PATCH 024/107] fix: windowed scalers do not overwrite the input nor
 alias it in the window

---
 src/skmultiflow/transform/windowed_minmax_scaler.py   | 3 ++-
 src/skmultiflow/transform/windowed_standard_scaler.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/transform/windowed_minmax_scaler.py b/src/skmultiflow/transform/windowed_minmax_scaler.py
index d6cad88..ca59a51 100644
--- a/src/skmultiflow/transform/windowed_minmax_scaler.py
+++ b/src/skmultiflow/transform/windowed_minmax_scaler.py
@@ -38,6 +38,7 @@ class WindowedMinmaxScaler(StreamTransform):
             The sample or set of samples that should be transformed.
 
         """
+        X = np.array(X, dtype=float)
         r, c = get_dimensions(X)
         for i in range(r):
             row = np.copy([X[i][:]])
@@ -104,5 +105,5 @@ class WindowedMinmaxScaler(StreamTransform):
             self
 
         """
-        self.window.add_element(X)
+        self.window.add_element(np.array(X, dtype=float))
         return self
diff --git a/src/skmultiflow/transform/windowed_standard_scaler.py b/src/skmultiflow/transform/windowed_standard_scaler.py
index 33910f5..c306bea 100644
--- a/src/skmultiflow/transform/windowed_standard_scaler.py
+++ b/src/skmultiflow/transform/windowed_standard_scaler.py
@@ -36,6 +36,7 @@ class WindowedStandardScaler(StreamTransform):
             The sample or set of samples that should be transformed.
 
         """
+        X = np.array(X, dtype=float)
         r, c = get_dimensions(X)
         for i in range(r):
             row = np.copy([X[i][:]])
@@ -100,5 +101,5 @@ class WindowedStandardScaler(StreamTransform):
             self
 
         """
-        self.window.add_element(X)
+        self.window.add_element(np.array(X, dtype=float))
         return self
-- 
2.43.0


From d8dcb01a17c953528d5546f0a0d4868afd6038c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:14 +0000
Subject: [PATCH 025/107] fix: OneHotToCategorical handles attributes after the
 last group and any group order

---
 .../transform/one_hot_to_categorical.py       | 27 ++++++++-----------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/skmultiflow/transform/one_hot_to_categorical.py b/src/skmultiflow/transform/one_hot_to_categorical.py
index 3ffcb29..1ea1a0e 100644
--- a/src/skmultiflow/transform/one_hot_to_categorical.py
+++ b/src/skmultiflow/transform/one_hot_to_categorical.py
@@ -52,28 +52,23 @@ class OneHotToCategorical(StreamTransform):
         return ret
 
     def _transform(self, X, new_size):
-        ret = np.zeros((1,new_size), dtype=X.dtype)
-        list_index = 0
-        i = 0
+        ret = np.zeros((1, new_size), dtype=X.dtype)
+        # Each group takes the place of its first attribute
+        groups = {min(group): group for group in self.categorical_list}
+        merged = {i for group in self.categorical_list for i in group}
         new_i = 0
-        while i < X.size:
-            if i in self.categorical_list[list_index]:
+        for i in range(X.size):
+            if i in groups:
                 c = 0
-                found = False
-                for j in range(len(self.categorical_list[list_index])):
-                    if X[i+j] == 1:
-                        found = True
-                    if not found:
-                        c += 1
-                i += len(self.categorical_list[list_index])
-                list_index += 1
+                for j in groups[i]:
+                    if X[j] == 1:
+                        break
+                    c += 1
                 ret[0][new_i] = c
                 new_i += 1
-            else:
+            elif i not in merged:
                 ret[0][new_i] = X[i]
                 new_i += 1
-                i += 1
-
         return ret
 
     def fit(self, X, y):
-- 
2.43.0


From 3d8c4db5bec302553419f0b5c46f862f50dc2758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:33 +0000
Subject: [PATCH 026/107] fix: Pipeline skips None steps

---
 src/skmultiflow/core/pipeline.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/core/pipeline.py b/src/skmultiflow/core/pipeline.py
index cbe19c7..e7af4e2 100644
--- a/src/skmultiflow/core/pipeline.py
+++ b/src/skmultiflow/core/pipeline.py
@@ -128,7 +128,7 @@ class Pipeline(BaseSKMObject):
         Xt = X
         for name, transform in self.steps[:-1]:
             if transform is None:
-                pass
+                continue
             if hasattr(transform, "fit_transform"):
                 Xt = transform.fit_transform(Xt, y)
             else:
@@ -166,7 +166,7 @@ class Pipeline(BaseSKMObject):
         Xt = X
         for name, transform in self.steps[:-1]:
             if transform is None:
-                pass
+                continue
             if hasattr(transform, 'fit_transform'):
                 Xt = transform.partial_fit_transform(Xt, y, classes=classes)
             else:
@@ -202,7 +202,7 @@ class Pipeline(BaseSKMObject):
         Xt = X
         for name, transform in self.steps[:-1]:
             if transform is None:
-                pass
+                continue
             if hasattr(transform, "partial_fit_transform"):
                 Xt = transform.partial_fit_transform(Xt, y)
             else:
@@ -289,6 +289,8 @@ class Pipeline(BaseSKMObject):
         transforms = estimators[:-1]
         i = 0
         for t in transforms:
+            if t is None:
+                continue
             try:
                 if t.get_info() is not None:
                     info += t.get_info()
-- 
2.43.0


From 4876d67346454e8c92d2b4de74c84c51b2af919c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:33 +0000
Subject: [PATCH 027/107] fix: Pipeline accepts every stream transform as a
 step

---
 src/skmultiflow/core/pipeline.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/skmultiflow/core/pipeline.py b/src/skmultiflow/core/pipeline.py
index e7af4e2..f842e20 100644
--- a/src/skmultiflow/core/pipeline.py
+++ b/src/skmultiflow/core/pipeline.py
@@ -131,6 +131,8 @@ class Pipeline(BaseSKMObject):
                 continue
             if hasattr(transform, "fit_transform"):
                 Xt = transform.fit_transform(Xt, y)
+            elif not hasattr(transform, "fit"):
+                Xt = transform.partial_fit_transform(Xt, y)
             else:
                 Xt = transform.fit(Xt, y).transform(Xt)
 
@@ -167,10 +169,15 @@ class Pipeline(BaseSKMObject):
         for name, transform in self.steps[:-1]:
             if transform is None:
                 continue
-            if hasattr(transform, 'fit_transform'):
-                Xt = transform.partial_fit_transform(Xt, y, classes=classes)
-            else:
+            if hasattr(transform, 'partial_fit_transform'):
+                if "classes" in transform.partial_fit_transform.__code__.co_varnames:
+                    Xt = transform.partial_fit_transform(Xt, y, classes=classes)
+                else:
+                    Xt = transform.partial_fit_transform(Xt, y)
+            elif "classes" in transform.partial_fit.__code__.co_varnames:
                 Xt = transform.partial_fit(Xt, y, classes=classes).transform(Xt)
+            else:
+                Xt = transform.partial_fit(Xt, y).transform(Xt)
 
         if self._final_estimator is not None:
             if "classes" in self._final_estimator.partial_fit.__code__.co_varnames:
@@ -260,8 +267,8 @@ class Pipeline(BaseSKMObject):
             if t is None:
                 continue
             else:
-                if not (hasattr(t, "fit") or hasattr(t, "fit_transform")) \
-                        or not hasattr(t, "transform"):
+                if not (hasattr(t, "fit") or hasattr(t, "fit_transform")
+                        or hasattr(t, "partial_fit_transform")) or not hasattr(t, "transform"):
                     self.active = False
                     raise TypeError("All intermediate steps, including an evaluator, "
                                     "should implement fit and transform.")
-- 
2.43.0


From 01191ef6efb3b0cd3445e5ba70987af70a40edeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:07 +0000
Subject: [PATCH 028/107] fix: KNNRegressor predicts each row from its own
 neighbors

---
 src/skmultiflow/lazy/knn_regressor.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/skmultiflow/lazy/knn_regressor.py b/src/skmultiflow/lazy/knn_regressor.py
index 0d999d4..941c7d3 100644
--- a/src/skmultiflow/lazy/knn_regressor.py
+++ b/src/skmultiflow/lazy/knn_regressor.py
@@ -148,11 +148,7 @@ class KNNRegressor(BaseNeighbors, RegressorMixin):
             sample in X.
 
         """
-        r, c = get_dimensions(X)
-        predictions = np.zeros(r)
-        for i in range(r):
-            predictions[i] = self._predict(X)
-        return predictions
+        return self._predict(X)
 
     def _predict(self, X):
         r, c = get_dimensions(X)
@@ -162,11 +158,11 @@ class KNNRegressor(BaseNeighbors, RegressorMixin):
             return y_pred
 
         _, neighbors_idx = self._get_neighbors(X)
-        neighbors_val = self.data_window.targets_buffer[neighbors_idx]
+        neighbors_val = self.data_window.targets_buffer[neighbors_idx].reshape(r, -1)
         if self.aggregation_method == self._MEAN:
-            y_pred = np.mean(neighbors_val)
+            y_pred = np.mean(neighbors_val, axis=1)
         else:   # self.aggregation_method == self._MEDIAN
-            y_pred = np.median(neighbors_val)
+            y_pred = np.median(neighbors_val, axis=1)
 
         return y_pred
 
-- 
2.43.0


From ca9588592ac8ab7324d7598c757772d8a9a70708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:20 +0000
Subject: [PATCH 029/107] fix: KNNClassifier learns the observed classes when
 fitting, not when predicting, and forgets them on reset

---
 src/skmultiflow/lazy/knn_adwin.py      |  1 +
 src/skmultiflow/lazy/knn_classifier.py | 11 ++++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/lazy/knn_adwin.py b/src/skmultiflow/lazy/knn_adwin.py
index e0d61b7..bc95ff5 100644
--- a/src/skmultiflow/lazy/knn_adwin.py
+++ b/src/skmultiflow/lazy/knn_adwin.py
@@ -144,6 +144,7 @@ class KNNADWINClassifier(KNNClassifier):
         r, c = get_dimensions(X)
         if classes is not None:
             self.classes = list(set().union(self.classes, classes))
+        self.classes = list(set().union(self.classes, np.unique(np.asarray(y).astype(int))))
 
         for i in range(r):
             self.data_window.add_sample(X[i], y[i])
diff --git a/src/skmultiflow/lazy/knn_classifier.py b/src/skmultiflow/lazy/knn_classifier.py
index bfe8727..7719a88 100644
--- a/src/skmultiflow/lazy/knn_classifier.py
+++ b/src/skmultiflow/lazy/knn_classifier.py
@@ -127,11 +127,19 @@ class KNNClassifier(BaseNeighbors, ClassifierMixin):
 
         if classes is not None:
             self.classes = list(set().union(self.classes, classes))
+        self.classes = list(set().union(self.classes, np.unique(np.asarray(y).astype(int))))
 
         for i in range(r):
             self.data_window.add_sample(X[i], y[i])
         return self
 
+    def reset(self):
+        """ Reset estimator.
+
+        """
+        self.classes = []
+        return super().reset()
+
     def predict(self, X):
         """ Predict the class label for sample X
 
@@ -173,9 +181,6 @@ class KNNClassifier(BaseNeighbors, ClassifierMixin):
             return np.zeros(shape=(r, 1))
         proba = []
 
-        self.classes = list(set().union(self.classes,
-                                        np.unique(self.data_window.targets_buffer.astype(np.int))))
-
         new_dist, new_ind = self._get_neighbors(X)
         for i in range(r):
             votes = [0.0 for _ in range(int(max(self.classes) + 1))]
-- 
2.43.0


From d7e6564a94255ce38eb389ff34b1a801990e9f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:30 +0000
Subject: [PATCH 030/107] fix: NaiveBayes accepts class labels given as an
 array in more than one call

---
 src/skmultiflow/bayes/naive_bayes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/bayes/naive_bayes.py b/src/skmultiflow/bayes/naive_bayes.py
index 799bf03..9f71111 100644
--- a/src/skmultiflow/bayes/naive_bayes.py
+++ b/src/skmultiflow/bayes/naive_bayes.py
@@ -95,7 +95,7 @@ class NaiveBayes(BaseSKMObject, ClassifierMixin):
             self
 
         """
-        if not self._classes and classes is not None:
+        if self._classes is None and classes is not None:
             self._classes = classes
 
         if y is not None:
-- 
2.43.0


From c7117c75b65970439380bcefae1b38edfec8dfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:54 +0000
Subject: [PATCH 031/107] fix: remove_poor_atts copes with the null split

---
 src/skmultiflow/trees/hoeffding_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/hoeffding_tree.py b/src/skmultiflow/trees/hoeffding_tree.py
index eac6137..d7aa38f 100755
--- a/src/skmultiflow/trees/hoeffding_tree.py
+++ b/src/skmultiflow/trees/hoeffding_tree.py
@@ -599,7 +599,7 @@ class HoeffdingTreeClassifier(BaseSKMObject, ClassifierMixin):
                     poor_atts = set()
                     # Add any poor attribute to set
                     for i in range(len(best_split_suggestions)):
-                        if best_split_suggestions[i] is not None:
+                        if best_split_suggestions[i].split_test is not None:
                             split_atts = best_split_suggestions[i].split_test.\
                                 get_atts_test_depends_on()
                             if len(split_atts) == 1:
-- 
2.43.0


From 84f20539d14c922f8feaf2c6f40196cc0c8d4e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:43 +0000
Subject: [PATCH 032/107] fix: HoeffdingTreeClassifier.predict_proba copes with
 leaves that have seen no sample

---
 src/skmultiflow/trees/hoeffding_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/hoeffding_tree.py b/src/skmultiflow/trees/hoeffding_tree.py
index d7aa38f..9bd7a7d 100755
--- a/src/skmultiflow/trees/hoeffding_tree.py
+++ b/src/skmultiflow/trees/hoeffding_tree.py
@@ -417,7 +417,8 @@ class HoeffdingTreeClassifier(BaseSKMObject, ClassifierMixin):
             votes = copy.deepcopy(self._get_votes_for_instance(X[i]))
             if votes == {}:
                 # Tree is empty, all classes equal, default to zero
-                predictions.append([0])
+                predictions.append([0] if self.classes is None
+                                   else np.zeros(int(max(self.classes)) + 1))
             else:
                 if sum(votes.values()) != 0:
                     votes = normalize_values_in_dict(votes, inplace=False)
-- 
2.43.0


From 90d1f2743c1f56353ff29b5f090033c2804c0e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:58 +0000
Subject: [PATCH 033/107] fix: AccuracyWeightedEnsembleClassifier.predict keeps
 the votes of each row apart

---
 src/skmultiflow/meta/accuracy_weighted_ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/accuracy_weighted_ensemble.py b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
index a73382a..4172e0a 100644
--- a/src/skmultiflow/meta/accuracy_weighted_ensemble.py
+++ b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
@@ -287,7 +287,7 @@ class AccuracyWeightedEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEst
         if sum_weights == 0:
             sum_weights = 1  # safety check: if sum_weights = 0, do as if sum_weights = 1
 
-        weighted_votes = [dict()] * N
+        weighted_votes = [dict() for _ in range(N)]
         for model in ensemble:
             classifier = model.estimator
             prediction = classifier.predict(X)
-- 
2.43.0


From f0d85ccbf3bbe9dc67727e460fbefdf57c18caae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:10 +0000
Subject: [PATCH 034/107] fix: HalfSpaceTrees.predict judges every row by its
 own score

---
 src/skmultiflow/anomaly_detection/half_space_trees.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/anomaly_detection/half_space_trees.py b/src/skmultiflow/anomaly_detection/half_space_trees.py
index a24fe53..e011e7a 100644
--- a/src/skmultiflow/anomaly_detection/half_space_trees.py
+++ b/src/skmultiflow/anomaly_detection/half_space_trees.py
@@ -185,15 +185,15 @@ class HalfSpaceTrees(BaseSKMObject, ClassifierMixin):
         """
         r, _ = get_dimensions(X)
         predictions = []
+        y_proba = self.predict_proba(X)
         for i in range(r):
-            y_proba = self.predict_proba(X)
             if y_proba is None:
                 # Ensemble is empty, all classes equal, default to zero
                 predictions.append(0)
             else:
                 # if prediction of this instance is greater than the threshold
                 # defined, then this instance is classified as an anomaly.
-                if y_proba[0][1] > self.anomaly_threshold:
+                if y_proba[i][1] > self.anomaly_threshold:
                     predictions.append(1)
                 else:
                     predictions.append(0)
-- 
2.43.0


From 1b19fc2b82a57280b4708b181be5f30853f4309c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:34 +0000
Subject: [PATCH 035/107] fix: BaseSKMObject.reset rebuilds the object from its
 parameters instead of executing its repr

---
 src/skmultiflow/core/base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/core/base.py b/src/skmultiflow/core/base.py
index b9e1d3a..824eac1 100644
--- a/src/skmultiflow/core/base.py
+++ b/src/skmultiflow/core/base.py
@@ -351,9 +351,8 @@ class BaseSKMObject(BaseEstimator):
         """
         # non-optimized default implementation; override if a better
         # method is possible for a given object
-        command = ''.join([line.strip() for line in self.__repr__().split()])
-        command = command.replace(str(self.__class__.__name__), 'self.__init__')
-        exec(command)
+        self.__init__(**self.get_params(deep=False))
+        return self
 
     def get_info(self):
         """ Collects and returns the information about the configuration of the estimator
-- 
2.43.0


From 2022c184d67dfeb3af4e821c799ae79e8d8ddfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:52 +0000
Subject: [PATCH 036/107] fix: RobustSoftLearningVectorQuantization never uses
 prototypes of classes it has not observed

---
 ...obust_soft_learning_vector_quantization.py | 27 +++++++++++++------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py b/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
index 3ee403a..b3c2632 100644
--- a/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
+++ b/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
@@ -224,9 +224,12 @@ class RobustSoftLearningVectorQuantization(ClassifierMixin, BaseSKMObject):
         # initialize prototypes
         if self.initial_prototypes is None:
             if self.initial_fit:
-                self.w_ = np.empty([np.sum(nb_ppc), nb_features],
-                                   dtype=np.double)
-                self.c_w_ = np.empty([nb_ppc.sum()], dtype=self.classes_.dtype)
+                # Classes get their prototypes when they are first observed
+                self.w_ = np.empty([0, nb_features], dtype=np.double)
+                self.c_w_ = np.empty([0], dtype=self.classes_.dtype)
+                if self.gradient_descent == 'adadelta':
+                    self.squared_mean_gradient = np.zeros_like(self.w_)
+                    self.squared_mean_step = np.zeros_like(self.w_)
             pos = 0
             for actClassIdx in range(len(self.classes_)):
                 actClass = self.classes_[actClassIdx]
@@ -238,21 +241,29 @@ class RobustSoftLearningVectorQuantization(ClassifierMixin, BaseSKMObject):
 
                     if self.prototypes_per_class == 1:
                         # If only one prototype we init it to mean
-                        self.w_[pos:pos + nb_prot] = mean
+                        w_new = np.tile(mean, (nb_prot, 1))
                     else:
                         # else we add some random noise to distribute them
-                        self.w_[pos:pos + nb_prot] = mean + (
+                        w_new = mean + (
                             random_state.rand(nb_prot, nb_features) * 2 - 1)
 
-                    if math.isnan(self.w_[pos, 0]):
+                    if math.isnan(w_new[0, 0]):
                         raise ValueError('Prototype on position {} for class\
                                          {} is NaN.'
                                          .format(pos, actClass))
                     else:
                         self.protos_initialized[actClassIdx] = 1
 
-                    self.c_w_[pos:pos + nb_prot] = actClass
-                pos += nb_prot
+                    self.w_ = np.insert(self.w_, pos, w_new, axis=0)
+                    self.c_w_ = np.insert(self.c_w_, pos, [actClass] * nb_prot)
+                    if self.gradient_descent == 'adadelta':
+                        new = np.zeros_like(w_new)
+                        self.squared_mean_gradient = np.insert(
+                            self.squared_mean_gradient, pos, new, axis=0)
+                        self.squared_mean_step = np.insert(
+                            self.squared_mean_step, pos, new, axis=0)
+                if self.protos_initialized[actClassIdx] == 1:
+                    pos += nb_prot
         else:
             x = validation.check_array(self.initial_prototypes)
             self.w_ = x[:, :-1]
-- 
2.43.0


From 8b601f6d52de06b45e8f5d3d117be27c21e469ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:53 +0000
Subject: [PATCH 037/107] fix: RobustSoftLearningVectorQuantization accepts the
 classes as an array

---
 .../prototype/robust_soft_learning_vector_quantization.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py b/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
index b3c2632..5c1c269 100644
--- a/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
+++ b/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
@@ -177,7 +177,7 @@ class RobustSoftLearningVectorQuantization(ClassifierMixin, BaseSKMObject):
                                                     train_lab.ravel())
 
         if self.initial_fit:
-            if classes:
+            if classes is not None:
                 self.classes_ = np.asarray(classes)
                 self.protos_initialized = np.zeros(self.classes_.size)
             else:
-- 
2.43.0


From 5a545a9ec89811b488274f43e19f13c9ff82aa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:53 +0000
Subject: [PATCH 038/107] fix: RobustSoftLearningVectorQuantization starts from
 the initial prototypes once and leaves them unchanged

---
 .../prototype/robust_soft_learning_vector_quantization.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py b/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
index 5c1c269..2eafb3b 100644
--- a/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
+++ b/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
@@ -264,8 +264,9 @@ class RobustSoftLearningVectorQuantization(ClassifierMixin, BaseSKMObject):
                             self.squared_mean_step, pos, new, axis=0)
                 if self.protos_initialized[actClassIdx] == 1:
                     pos += nb_prot
-        else:
-            x = validation.check_array(self.initial_prototypes)
+        elif self.initial_fit:
+            x = validation.check_array(self.initial_prototypes, dtype=np.double,
+                                       copy=True)
             self.w_ = x[:, :-1]
             self.c_w_ = x[:, -1]
             if self.w_.shape != (np.sum(nb_ppc), nb_features):
@@ -279,11 +280,10 @@ class RobustSoftLearningVectorQuantization(ClassifierMixin, BaseSKMObject):
                     "prototype labels and test data classes do not match\n"
                     "classes={}\n"
                     "prototype labels={}\n".format(self.classes_, self.c_w_))
-        if self.initial_fit:
             if self.gradient_descent == 'adadelta':
                 self.squared_mean_gradient = np.zeros_like(self.w_)
                 self.squared_mean_step = np.zeros_like(self.w_)
-            self.initial_fit = False
+        self.initial_fit = False
 
         return train_set, train_lab
 
-- 
2.43.0


From ec0928c1744987ee526bea17274f4491244d0451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:28 +0000
Subject: [PATCH 039/107] fix: StreamingRandomPatchesClassifier with fewer
 feature subspaces than members no longer loops forever

---
 src/skmultiflow/meta/streaming_random_patches.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index c478389..4a9badf 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -360,7 +360,8 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
                     i = 0
                     while len(self._subspaces) < self.n_estimators:
                         i = 0 if i == len(self._subspaces) else i
-                        np.vstack((self._subspaces, self._subspaces[i]))
+                        self._subspaces = np.vstack((self._subspaces,
+                                                     self._subspaces[i]))
                         i += 1
                 # For high dimensionality we can't generate all combinations
                 # as it is too expensive (memory). On top of that, the chance
-- 
2.43.0


From 200e31eb133cbd0787fd516fdbc56e5d2c548b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:28 +0000
Subject: [PATCH 040/107] fix: StreamingRandomPatchesClassifier.predict_proba
 returns one probability distribution per row

---
 src/skmultiflow/meta/streaming_random_patches.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index 4a9badf..fa923cf 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -291,11 +291,14 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
 
         if self.ensemble is None:
             self._init_ensemble(n_features=n_features)
-            return np.zeros(n_samples)
+            return np.zeros((n_samples, 1))
 
         for i in range(n_samples):
             y_proba.append(self._predict_proba(np.asarray([X[i]])))
-        return np.asarray(y_proba)
+        # Members may know different numbers of classes
+        n_classes = max(len(votes) for votes in y_proba)
+        y_proba = [np.pad(votes, (0, n_classes - len(votes))) for votes in y_proba]
+        return normalize(np.asarray(y_proba), norm='l1')
 
     def _predict_proba(self, X):
         y_proba = np.asarray([0.])
-- 
2.43.0


From b95b70394e1364e1ac47c32fd4783711daa169f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:07 +0000
Subject: [PATCH 041/107] fix: classifier chains with a random order return
 probabilities and PCC predictions in the order of the labels

---
 src/skmultiflow/meta/classifier_chains.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/meta/classifier_chains.py b/src/skmultiflow/meta/classifier_chains.py
index c221c61..b843548 100644
--- a/src/skmultiflow/meta/classifier_chains.py
+++ b/src/skmultiflow/meta/classifier_chains.py
@@ -234,7 +234,9 @@ class ClassifierChain(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin, MultiO
             if j > 0:
                 X = np.column_stack([X, Y[:, j - 1]])
             Y[:, j] = self.ensemble[j].predict_proba(X)[:, 1]
-        return Y
+
+        # Unset the chain order (back to default)
+        return Y[:, np.argsort(self.chain)]
 
     def reset(self):
         self.__configure()
@@ -358,7 +360,8 @@ class ProbabilisticClassifierChain(ClassifierChain):
                     Yp[n, :] = y_[:].copy()
                     w_max = w_
 
-        return Yp
+        # Unset the chain order (back to default)
+        return Yp[:, np.argsort(self.chain)]
 
 
 class MonteCarloClassifierChain(ProbabilisticClassifierChain):
-- 
2.43.0


From 464227852e64256eb2e2acf80d066dc1bef60c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:07 +0000
Subject: [PATCH 042/107] fix: probabilistic classifier chains can predict
 while a label has only been observed as 0

---
 src/skmultiflow/meta/classifier_chains.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/meta/classifier_chains.py b/src/skmultiflow/meta/classifier_chains.py
index b843548..0b6d721 100644
--- a/src/skmultiflow/meta/classifier_chains.py
+++ b/src/skmultiflow/meta/classifier_chains.py
@@ -247,6 +247,12 @@ class ClassifierChain(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin, MultiO
                 'multioutput_only': True}
 
 
+def _label_proba(estimator, xy):
+    """ P(y_j=0|xy) and P(y_j=1|xy), also if the estimator has only observed y_j=0 so far. """
+    p = estimator.predict_proba(xy)[0]
+    return np.pad(p, (0, max(0, 2 - len(p))))
+
+
 def P(y, x, cc, payoff=np.prod):
     """ Payoff function, P(Y=y|X=x)
 
@@ -270,8 +276,8 @@ def P(y, x, cc, payoff=np.prod):
     xy = np.zeros(D + L)
     xy[0:D] = x.copy()
     for j in range(L):
-        P_j = cc.ensemble[j].predict_proba(
-            xy[0:D + j].reshape(1, -1))[0]  # e.g., [0.9, 0.1] wrt 0, 1
+        P_j = _label_proba(cc.ensemble[j],
+                           xy[0:D + j].reshape(1, -1))  # e.g., [0.9, 0.1] wrt 0, 1
         xy[D + j] = y[j]  # e.g., 1
         p[j] = P_j[y[j]]  # e.g., 0.1 or, y[j] = 0 is predicted with probability p[j] = 0.9
     return payoff(p)
@@ -448,7 +454,7 @@ class MonteCarloClassifierChain(ProbabilisticClassifierChain):
         xy[0:D] = x.copy()
 
         for j in range(self.L):
-            P_j = self.ensemble[j].predict_proba(xy[0:D + j].reshape(1, -1))[0]
+            P_j = _label_proba(self.ensemble[j], xy[0:D + j].reshape(1, -1))
             y_j = self._random_state.choice(2, 1, p=P_j)
             xy[D + j] = y_j
             y[j] = y_j
-- 
2.43.0


From 9f6102a9dc2e1463a4c42e6b5221b4daadda5cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:31 +0000
Subject: [PATCH 043/107] fix: MultiOutputLearner passes classes to base
 estimators that take classes but no weights

---
 src/skmultiflow/meta/multi_output_learner.py | 21 ++++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/skmultiflow/meta/multi_output_learner.py b/src/skmultiflow/meta/multi_output_learner.py
index dc596ff..c599245 100644
--- a/src/skmultiflow/meta/multi_output_learner.py
+++ b/src/skmultiflow/meta/multi_output_learner.py
@@ -120,12 +120,10 @@ class MultiOutputLearner(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin, Mul
         self.__configure()
 
         for j in range(self.n_targets):
-            if 'sample_weight' and 'classes' in signature(self.ensemble[j].fit).parameters:
-                self.ensemble[j].fit(X, y[:, j], classes=classes, sample_weight=sample_weight)
-            elif 'sample_weight' in signature(self.ensemble[j].fit).parameters:
-                self.ensemble[j].fit(X, y[:, j], sample_weight=sample_weight)
-            else:
-                self.ensemble[j].fit(X, y[:, j])
+            parameters = signature(self.ensemble[j].fit).parameters
+            kwargs = {'classes': classes, 'sample_weight': sample_weight}
+            self.ensemble[j].fit(X, y[:, j],
+                                 **{k: v for k, v in kwargs.items() if k in parameters})
         return self
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
@@ -168,13 +166,10 @@ class MultiOutputLearner(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin, Mul
             self.__configure()
 
         for j in range(self.n_targets):
-            if 'sample_weight' and 'classes' in signature(self.ensemble[j].partial_fit).parameters:
-                self.ensemble[j].partial_fit(
-                    X, y[:, j], classes=classes, sample_weight=sample_weight)
-            elif 'sample_weight' in signature(self.ensemble[j].partial_fit).parameters:
-                self.ensemble[j].partial_fit(X, y[:, j], sample_weight=sample_weight)
-            else:
-                self.ensemble[j].partial_fit(X, y[:, j])
+            parameters = signature(self.ensemble[j].partial_fit).parameters
+            kwargs = {'classes': classes, 'sample_weight': sample_weight}
+            self.ensemble[j].partial_fit(X, y[:, j],
+                                         **{k: v for k, v in kwargs.items() if k in parameters})
 
         return self
 
-- 
2.43.0


From 67e0a262aa640f57928098aa94797a58a80bbfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:47 +0000
Subject: [PATCH 044/107] fix: LearnPPNSEClassifier counts the votes of members
 that have not observed all classes for the right classes

---
 src/skmultiflow/meta/learn_nse.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/skmultiflow/meta/learn_nse.py b/src/skmultiflow/meta/learn_nse.py
index 4d93004..02a04c2 100644
--- a/src/skmultiflow/meta/learn_nse.py
+++ b/src/skmultiflow/meta/learn_nse.py
@@ -271,9 +271,9 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                     h = self.ensemble[i]
                     y_predicts = h.predict_proba(X[m].reshape(1, -1))
                     y_predicts /= np.linalg.norm(y_predicts, ord=1, axis=1, keepdims=True)
-                    try:
+                    if y_predicts.shape == votes.shape:
                         votes += self.ensemble_weights[i] * y_predicts
-                    except ValueError:
+                    else:
                         if hasattr(h, 'classes_'):  # sklearn learner
                             obs_classes = h.classes_
                         elif hasattr(h, 'classes'):  # skmultiflow learner
@@ -294,9 +294,8 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         return np.array(res)
 
     def _fill_missing_probs(self, probs, obs_classes, all_classes):
-        proba_ordered = np.zeros(
-            (probs.shape[0], all_classes.size), dtype=np.float
-        )
+        all_classes = np.asarray(all_classes)
+        proba_ordered = np.zeros((probs.shape[0], all_classes.size), dtype=float)
         sorted_classes = np.argsort(all_classes)
         # Find positions to insert existing classes' probs to the complete set
         # of classes
-- 
2.43.0


From 6cf0918bbd1ba24a3d50ef16f8fbecef7d8b8728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:47 +0000
Subject: [PATCH 045/107] fix: LearnPPNSEClassifier.predict returns class
 labels, not their positions

---
 src/skmultiflow/meta/learn_nse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/learn_nse.py b/src/skmultiflow/meta/learn_nse.py
index 02a04c2..3193828 100644
--- a/src/skmultiflow/meta/learn_nse.py
+++ b/src/skmultiflow/meta/learn_nse.py
@@ -341,7 +341,8 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         """
 
         votes = self.predict_proba(X)
-        return np.argmax(votes, axis=1)
+        indices = np.argmax(votes, axis=1)
+        return indices if self.classes is None else np.asarray(self.classes)[indices]
 
     def reset(self):
         self.ensemble = []
-- 
2.43.0


From d8fbf6e9c6188e66f3c270dfe9abeaeb44810bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:27 +0000
Subject: [PATCH 046/107] fix: OzaBaggingADWINClassifier tracks the members'
 errors, so that the worst member is the one reset

---
 src/skmultiflow/meta/oza_bagging_adwin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/meta/oza_bagging_adwin.py b/src/skmultiflow/meta/oza_bagging_adwin.py
index 7bc0bde..2a2d595 100644
--- a/src/skmultiflow/meta/oza_bagging_adwin.py
+++ b/src/skmultiflow/meta/oza_bagging_adwin.py
@@ -178,9 +178,9 @@ class OzaBaggingADWINClassifier(OzaBaggingClassifier):
                 for j in range(r):
                     if pred[j] is not None:
                         if pred[j] == y[j]:
-                            self.adwin_ensemble[i].add_element(1)
-                        else:
                             self.adwin_ensemble[i].add_element(0)
+                        else:
+                            self.adwin_ensemble[i].add_element(1)
                 if self.adwin_ensemble[i].detected_change():
                     if self.adwin_ensemble[i].estimation > error_estimation:
                         change_detected = True
-- 
2.43.0


From c8b26407ceeb2e209147cf9e80066956df3d64a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:27 +0000
Subject: [PATCH 047/107] fix: OzaBaggingADWINClassifier trains one sample at a
 time, as documented

---
 src/skmultiflow/meta/oza_bagging_adwin.py | 26 ++++++++++++++---------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/skmultiflow/meta/oza_bagging_adwin.py b/src/skmultiflow/meta/oza_bagging_adwin.py
index 2a2d595..90bb803 100644
--- a/src/skmultiflow/meta/oza_bagging_adwin.py
+++ b/src/skmultiflow/meta/oza_bagging_adwin.py
@@ -6,6 +6,8 @@ from skmultiflow.drift_detection import ADWIN
 
 import warnings
 
+import numpy as np
+
 from skmultiflow.utils import get_dimensions
 
 
@@ -165,22 +167,28 @@ class OzaBaggingADWINClassifier(OzaBaggingClassifier):
                                  "from those passed in an earlier moment.")
 
         self.__adjust_ensemble_size()
+        for j in range(r):
+            self.__partial_fit([X[j]], [y[j]],
+                               None if sample_weight is None else [sample_weight[j]])
+        return self
+
+    def __partial_fit(self, X, y, sample_weight):
         change_detected = False
         for i in range(self.actual_n_estimators):
             k = self._random_state.poisson()
             if k > 0:
                 for b in range(k):
-                    self.ensemble[i].partial_fit(X, y, classes, sample_weight)
+                    self.ensemble[i].partial_fit(np.asarray(X), np.asarray(y), self.classes,
+                                                 sample_weight)
 
             try:
-                pred = self.ensemble[i].predict(X)
+                pred = self.ensemble[i].predict(np.asarray(X))
                 error_estimation = self.adwin_ensemble[i].estimation
-                for j in range(r):
-                    if pred[j] is not None:
-                        if pred[j] == y[j]:
-                            self.adwin_ensemble[i].add_element(0)
-                        else:
-                            self.adwin_ensemble[i].add_element(1)
+                if pred[0] is not None:
+                    if pred[0] == y[0]:
+                        self.adwin_ensemble[i].add_element(0)
+                    else:
+                        self.adwin_ensemble[i].add_element(1)
                 if self.adwin_ensemble[i].detected_change():
                     if self.adwin_ensemble[i].estimation > error_estimation:
                         change_detected = True
@@ -199,8 +207,6 @@ class OzaBaggingADWINClassifier(OzaBaggingClassifier):
                 self.ensemble[i_max].reset()
                 self.adwin_ensemble[i_max] = ADWIN()
 
-        return self
-
     def __adjust_ensemble_size(self):
         if len(self.classes) != len(self.ensemble):
             if len(self.classes) > len(self.ensemble):
-- 
2.43.0


From c923e7a8b782893ae2df09ff9794fff0fd2dde34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:27 +0000
Subject: [PATCH 048/107] fix: OzaBaggingClassifier gives members the sample's
 own weight and always the declared classes

---
 src/skmultiflow/meta/oza_bagging.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/oza_bagging.py b/src/skmultiflow/meta/oza_bagging.py
index eb634a6..5f1d2f5 100644
--- a/src/skmultiflow/meta/oza_bagging.py
+++ b/src/skmultiflow/meta/oza_bagging.py
@@ -183,7 +183,9 @@ class OzaBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 k = self._random_state.poisson()
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit(
+                            [X[j]], [y[j]], self.classes,
+                            None if sample_weight is None else [sample_weight[j]])
         return self
 
     def __adjust_ensemble_size(self):
-- 
2.43.0


From 162396baee4b290f1bb6fa12ed884013dd282fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:42 +0000
Subject: [PATCH 049/107] fix: OzaBaggingClassifier and
 OzaBaggingADWINClassifier resets also forget the classes and the trained
 members

---
 src/skmultiflow/meta/oza_bagging.py       | 1 +
 src/skmultiflow/meta/oza_bagging_adwin.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/skmultiflow/meta/oza_bagging.py b/src/skmultiflow/meta/oza_bagging.py
index 5f1d2f5..72b70ef 100644
--- a/src/skmultiflow/meta/oza_bagging.py
+++ b/src/skmultiflow/meta/oza_bagging.py
@@ -116,6 +116,7 @@ class OzaBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self.actual_n_estimators = self.n_estimators
         self.ensemble = [cp.deepcopy(self.base_estimator) for _ in range(self.actual_n_estimators)]
         self._random_state = check_random_state(self.random_state)
+        self.classes = None
 
     def reset(self):
         self.__configure()
diff --git a/src/skmultiflow/meta/oza_bagging_adwin.py b/src/skmultiflow/meta/oza_bagging_adwin.py
index 90bb803..733c733 100644
--- a/src/skmultiflow/meta/oza_bagging_adwin.py
+++ b/src/skmultiflow/meta/oza_bagging_adwin.py
@@ -102,6 +102,7 @@ class OzaBaggingADWINClassifier(OzaBaggingClassifier):
         self.adwin_ensemble = [cp.deepcopy(ADWIN()) for _ in range(self.actual_n_estimators)]
 
     def reset(self):
+        super().reset()
         self.__configure()
         return self
 
-- 
2.43.0


From d3df66c992f6e0ca239ed6b5a72f8354c22e070b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:42 +0000
Subject: [PATCH 050/107] fix: BatchIncrementalClassifier accepts weights and
 trains each batch with the weights of its own samples

---
 src/skmultiflow/meta/batch_incremental.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/meta/batch_incremental.py b/src/skmultiflow/meta/batch_incremental.py
index bcf7023..766c4ec 100644
--- a/src/skmultiflow/meta/batch_incremental.py
+++ b/src/skmultiflow/meta/batch_incremental.py
@@ -120,7 +120,7 @@ class BatchIncrementalClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMi
             # TODO not very pythonic at the moment
             self.X_batch[self.i] = X[n]
             self.y_batch[self.i] = y[n]
-            self.sample_weight[self.i] = sample_weight[n] if sample_weight else 1.0
+            self.sample_weight[self.i] = 1.0 if sample_weight is None else sample_weight[n]
 
             self.i = self.i + 1
             if self.i == self.window_size:
@@ -131,7 +131,7 @@ class BatchIncrementalClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMi
                 h = cp.deepcopy(self.base_estimator)
                 # Train it
                 if 'sample_weight' in signature(h.fit).parameters:
-                    h.fit(X=self.X_batch, y=self.y_batch.astype(int), sample_weight=sample_weight)
+                    h.fit(X=self.X_batch, y=self.y_batch.astype(int), sample_weight=self.sample_weight)
                 else:
                     h.fit(X=self.X_batch, y=self.y_batch.astype(int))
                 # Add it
-- 
2.43.0


From 15b3bdd014a9cd3cd255aac9015cad00d268dbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:42 +0000
Subject: [PATCH 051/107] fix: LeveragingBaggingClassifier.predict_proba with a
 code matrix is two-dimensional before training

---
 src/skmultiflow/meta/leverage_bagging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/leverage_bagging.py b/src/skmultiflow/meta/leverage_bagging.py
index 9d019e1..e17d73d 100644
--- a/src/skmultiflow/meta/leverage_bagging.py
+++ b/src/skmultiflow/meta/leverage_bagging.py
@@ -428,7 +428,7 @@ class LeveragingBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorM
         """
         r, c = get_dimensions(X)
         if self.classes is None:
-            return np.zeros(r)
+            return np.zeros((r, 1))
         proba = np.zeros((r, len(self.classes)))
         if not self.init_matrix_codes:
             for row_idx in range(r):
-- 
2.43.0


From e942210abc94f7bd6d9f231004e0a7e4cf072220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:42 +0000
Subject: [PATCH 052/107] fix: LearnPPClassifier.reset forgets the declared
 classes

---
 src/skmultiflow/meta/learn_pp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skmultiflow/meta/learn_pp.py b/src/skmultiflow/meta/learn_pp.py
index 2975e8e..d501f0f 100644
--- a/src/skmultiflow/meta/learn_pp.py
+++ b/src/skmultiflow/meta/learn_pp.py
@@ -132,7 +132,9 @@ class LearnPPClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self.ensemble_weights = []
         self.X_batch = []
         self.y_batch = []
+        self.classes = None
         self.random = check_random_state(self.random_state)
+        return self
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially (incrementally) fit the model.
-- 
2.43.0


From 762f890b3783759b14dfd36864587df1638e00fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:59 +0000
Subject: [PATCH 053/107] fix: LearnPPNSEClassifier.reset forgets the declared
 classes

---
 src/skmultiflow/meta/learn_nse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skmultiflow/meta/learn_nse.py b/src/skmultiflow/meta/learn_nse.py
index 3193828..d2ecaf6 100644
--- a/src/skmultiflow/meta/learn_nse.py
+++ b/src/skmultiflow/meta/learn_nse.py
@@ -345,6 +345,7 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         return indices if self.classes is None else np.asarray(self.classes)[indices]
 
     def reset(self):
+        self.classes = None
         self.ensemble = []
         self.ensemble_weights = []
         self.bkts = []
-- 
2.43.0


From 670e5cf38ab9c29c13e1df249cd4a75218ddebf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:59 +0000
Subject: [PATCH 054/107] fix: BatchIncrementalClassifier members keep the
 batch they were trained on

---
 src/skmultiflow/meta/batch_incremental.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/meta/batch_incremental.py b/src/skmultiflow/meta/batch_incremental.py
index 766c4ec..da629ca 100644
--- a/src/skmultiflow/meta/batch_incremental.py
+++ b/src/skmultiflow/meta/batch_incremental.py
@@ -129,11 +129,13 @@ class BatchIncrementalClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMi
                     self.ensemble.pop(0)
                 # A new model
                 h = cp.deepcopy(self.base_estimator)
+                # The buffers are reused, members may keep their training data
+                X_batch, y_batch = self.X_batch.copy(), self.y_batch.astype(int)
                 # Train it
                 if 'sample_weight' in signature(h.fit).parameters:
-                    h.fit(X=self.X_batch, y=self.y_batch.astype(int), sample_weight=self.sample_weight)
+                    h.fit(X=X_batch, y=y_batch, sample_weight=self.sample_weight.copy())
                 else:
-                    h.fit(X=self.X_batch, y=self.y_batch.astype(int))
+                    h.fit(X=X_batch, y=y_batch)
                 # Add it
                 self.ensemble.append(h)
                 # Reset the window
-- 
2.43.0


From 41f1d4e74f064b448f9143a784528775f42fd6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:56 +0000
Subject: [PATCH 055/107] fix: the online ensembles feed the change detectors
 one sample at a time

---
 src/skmultiflow/meta/online_adac2.py              | 7 +++----
 src/skmultiflow/meta/online_boosting.py           | 7 +++----
 src/skmultiflow/meta/online_csb2.py               | 7 +++----
 src/skmultiflow/meta/online_rus_boost.py          | 7 +++----
 src/skmultiflow/meta/online_smote_bagging.py      | 7 +++----
 src/skmultiflow/meta/online_under_over_bagging.py | 7 +++----
 6 files changed, 18 insertions(+), 24 deletions(-)

diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index a75a0c2..a1c358f 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -250,11 +250,10 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
 
                 if self.drift_detection:
                     try:
-                        pred = self.ensemble[i].predict(X)
+                        pred = self.ensemble[i].predict([X[j]])
                         error_estimation = self.adwin_ensemble[i].estimation
-                        for k in range(r):
-                            if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] == y[k]))
+                        if pred[0] is not None:
+                            self.adwin_ensemble[i].add_element(int(pred[0] == y[j]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index bb7fa18..c32e740 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -226,11 +226,10 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
 
                 if self.drift_detection:
                     try:
-                        pred = self.ensemble[i].predict(X)
+                        pred = self.ensemble[i].predict([X[j]])
                         error_estimation = self.adwin_ensemble[i].estimation
-                        for k in range(r):
-                            if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] == y[k]))
+                        if pred[0] is not None:
+                            self.adwin_ensemble[i].add_element(int(pred[0] == y[j]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_csb2.py b/src/skmultiflow/meta/online_csb2.py
index ea59584..3c4bab2 100644
--- a/src/skmultiflow/meta/online_csb2.py
+++ b/src/skmultiflow/meta/online_csb2.py
@@ -242,11 +242,10 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
 
                 if self.drift_detection:
                     try:
-                        pred = self.ensemble[i].predict(X)
+                        pred = self.ensemble[i].predict([X[j]])
                         error_estimation = self.adwin_ensemble[i].estimation
-                        for k in range(r):
-                            if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] == y[k]))
+                        if pred[0] is not None:
+                            self.adwin_ensemble[i].add_element(int(pred[0] == y[j]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_rus_boost.py b/src/skmultiflow/meta/online_rus_boost.py
index 5ebbf73..b3496b5 100644
--- a/src/skmultiflow/meta/online_rus_boost.py
+++ b/src/skmultiflow/meta/online_rus_boost.py
@@ -271,11 +271,10 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
 
                 if self.drift_detection:
                     try:
-                        pred = self.ensemble[i].predict(X)
+                        pred = self.ensemble[i].predict([X[j]])
                         error_estimation = self.adwin_ensemble[i].estimation
-                        for k in range(r):
-                            if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] == y[k]))
+                        if pred[0] is not None:
+                            self.adwin_ensemble[i].add_element(int(pred[0] == y[j]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index 3c0fae5..95d6dc6 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -225,11 +225,10 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
 
                 if self.drift_detection:
                     try:
-                        pred = self.ensemble[i].predict(X)
+                        pred = self.ensemble[i].predict([X[j]])
                         error_estimation = self.adwin_ensemble[i].estimation
-                        for k in range(r):
-                            if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] == y[k]))
+                        if pred[0] is not None:
+                            self.adwin_ensemble[i].add_element(int(pred[0] == y[j]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_under_over_bagging.py b/src/skmultiflow/meta/online_under_over_bagging.py
index 7952955..67b246f 100644
--- a/src/skmultiflow/meta/online_under_over_bagging.py
+++ b/src/skmultiflow/meta/online_under_over_bagging.py
@@ -212,11 +212,10 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
 
                 if self.drift_detection:
                     try:
-                        pred = self.ensemble[i].predict(X)
+                        pred = self.ensemble[i].predict([X[j]])
                         error_estimation = self.adwin_ensemble[i].estimation
-                        for k in range(r):
-                            if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] == y[k]))
+                        if pred[0] is not None:
+                            self.adwin_ensemble[i].add_element(int(pred[0] == y[j]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
-- 
2.43.0


From e7ace733821d8a56e149360779d7b82e1145dff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:18 +0000
Subject: [PATCH 056/107] fix: the online boosting and bagging ensembles track
 the members' errors, so that the worst member is the one reset

---
 src/skmultiflow/meta/online_adac2.py              | 2 +-
 src/skmultiflow/meta/online_boosting.py           | 2 +-
 src/skmultiflow/meta/online_smote_bagging.py      | 2 +-
 src/skmultiflow/meta/online_under_over_bagging.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index a1c358f..1d58bcf 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -253,7 +253,7 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                         pred = self.ensemble[i].predict([X[j]])
                         error_estimation = self.adwin_ensemble[i].estimation
                         if pred[0] is not None:
-                            self.adwin_ensemble[i].add_element(int(pred[0] == y[j]))
+                            self.adwin_ensemble[i].add_element(int(pred[0] != y[j]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index c32e740..ed53690 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -229,7 +229,7 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
                         pred = self.ensemble[i].predict([X[j]])
                         error_estimation = self.adwin_ensemble[i].estimation
                         if pred[0] is not None:
-                            self.adwin_ensemble[i].add_element(int(pred[0] == y[j]))
+                            self.adwin_ensemble[i].add_element(int(pred[0] != y[j]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index 95d6dc6..c88473f 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -228,7 +228,7 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
                         pred = self.ensemble[i].predict([X[j]])
                         error_estimation = self.adwin_ensemble[i].estimation
                         if pred[0] is not None:
-                            self.adwin_ensemble[i].add_element(int(pred[0] == y[j]))
+                            self.adwin_ensemble[i].add_element(int(pred[0] != y[j]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_under_over_bagging.py b/src/skmultiflow/meta/online_under_over_bagging.py
index 67b246f..e7515c9 100644
--- a/src/skmultiflow/meta/online_under_over_bagging.py
+++ b/src/skmultiflow/meta/online_under_over_bagging.py
@@ -215,7 +215,7 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
                         pred = self.ensemble[i].predict([X[j]])
                         error_estimation = self.adwin_ensemble[i].estimation
                         if pred[0] is not None:
-                            self.adwin_ensemble[i].add_element(int(pred[0] == y[j]))
+                            self.adwin_ensemble[i].add_element(int(pred[0] != y[j]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
-- 
2.43.0


From de78584367cc9643c7bef4984a1b7891599f95c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:42 +0000
Subject: [PATCH 057/107] fix: the online ensembles give members the sample's
 own weight and always the declared classes

---
 src/skmultiflow/meta/online_adac2.py              | 3 ++-
 src/skmultiflow/meta/online_boosting.py           | 3 ++-
 src/skmultiflow/meta/online_csb2.py               | 3 ++-
 src/skmultiflow/meta/online_rus_boost.py          | 3 ++-
 src/skmultiflow/meta/online_smote_bagging.py      | 7 ++++---
 src/skmultiflow/meta/online_under_over_bagging.py | 3 ++-
 6 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index 1d58bcf..4ef35c8 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -219,6 +219,7 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
 
         r, _ = get_dimensions(X)
         for j in range(r):
+            weight = None if sample_weight is None else [sample_weight[j]]
             change_detected = False
             lam = 1
             for i in range(self.actual_n_estimators):
@@ -226,7 +227,7 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 k = self._random_state.poisson(lam)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit([X[j]], [y[j]], self.classes, weight)
                     if self.ensemble[i].predict([X[j]])[0] == 1 and y[j] == 1:
                         self.lam_tp[i] += self.cost_positive * lam
                         self.wacc[i] = (self.lam_tp[i] + self.lam_tn[i]) / self.lam_sum[i]
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index ed53690..bf17e63 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -206,13 +206,14 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
 
         r, _ = get_dimensions(X)
         for j in range(r):
+            weight = None if sample_weight is None else [sample_weight[j]]
             change_detected = False
             lam = 1
             for i in range(self.actual_n_estimators):
                 k = self._random_state.poisson(lam)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit([X[j]], [y[j]], self.classes, weight)
                     if self.ensemble[i].predict([X[j]])[0] == y[j]:
                         self.lam_sc[i] += lam
                         self.epsilon[i] = self.lam_sw[i] / (self.lam_sw[i] + self.lam_sc[i])
diff --git a/src/skmultiflow/meta/online_csb2.py b/src/skmultiflow/meta/online_csb2.py
index 3c4bab2..3e47ef9 100644
--- a/src/skmultiflow/meta/online_csb2.py
+++ b/src/skmultiflow/meta/online_csb2.py
@@ -212,6 +212,7 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self.__adjust_ensemble_size()
         r, _ = get_dimensions(X)
         for j in range(r):
+            weight = None if sample_weight is None else [sample_weight[j]]
             change_detected = False
             lam = 1
             for i in range(self.actual_n_estimators):
@@ -219,7 +220,7 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 k = self._random_state.poisson(lam)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit([X[j]], [y[j]], self.classes, weight)
                     if self.ensemble[i].predict([X[j]])[0] == y[j]:
                         self.epsilon[i] = self.lam_sw[i] / self.lam_sum[i]
                         self.werr[i] = (self.lam_fp[i] + self.lam_fn[i]) / self.lam_sum[i]
diff --git a/src/skmultiflow/meta/online_rus_boost.py b/src/skmultiflow/meta/online_rus_boost.py
index b3496b5..5359587 100644
--- a/src/skmultiflow/meta/online_rus_boost.py
+++ b/src/skmultiflow/meta/online_rus_boost.py
@@ -216,6 +216,7 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
         self.__adjust_ensemble_size()
         r, _ = get_dimensions(X)
         for j in range(r):
+            weight = None if sample_weight is None else [sample_weight[j]]
             change_detected = False
             lam = 1
             for i in range(self.actual_n_estimators):
@@ -257,7 +258,7 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
                 k = self._random_state.poisson(lam_rus)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit([X[j]], [y[j]], self.classes, weight)
                 if self.ensemble[i].predict([X[j]])[0] == y[j]:
                     self.lam_sc[i] += lam
                     self.epsilon[i] = (self.lam_sw[i]) / (self.lam_sc[i] + self.lam_sw[i])
diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index c88473f..a0003fd 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -199,6 +199,7 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
 
         r, _ = get_dimensions(X)
         for j in range(r):
+            weight = None if sample_weight is None else [sample_weight[j]]
             change_detected = False
             lam = 1
             for i in range(self.actual_n_estimators):
@@ -210,18 +211,18 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
                     k = self._random_state.poisson(lam)
                     if k > 0:
                         for b in range(k):
-                            self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                            self.ensemble[i].partial_fit([X[j]], [y[j]], self.classes, weight)
                     k_smote = self._random_state.poisson(lam_smote)
 
                     if k_smote > 0:
                         for b in range(k_smote):
                             x_smote = self.online_smote()
-                            self.ensemble[i].partial_fit([x_smote], [y[j]], classes, sample_weight)
+                            self.ensemble[i].partial_fit([x_smote], [y[j]], self.classes, weight)
                 else:
                     k = self._random_state.poisson(lam)
                     if k > 0:
                         for b in range(k):
-                            self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                            self.ensemble[i].partial_fit([X[j]], [y[j]], self.classes, weight)
 
                 if self.drift_detection:
                     try:
diff --git a/src/skmultiflow/meta/online_under_over_bagging.py b/src/skmultiflow/meta/online_under_over_bagging.py
index e7515c9..17aec13 100644
--- a/src/skmultiflow/meta/online_under_over_bagging.py
+++ b/src/skmultiflow/meta/online_under_over_bagging.py
@@ -198,6 +198,7 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
 
         r, _ = get_dimensions(X)
         for j in range(r):
+            weight = None if sample_weight is None else [sample_weight[j]]
             change_detected = False
             for i in range(self.actual_n_estimators):
                 a = (i + 1) / self.actual_n_estimators
@@ -208,7 +209,7 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
                 k = self._random_state.poisson(lam)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit([X[j]], [y[j]], self.classes, weight)
 
                 if self.drift_detection:
                     try:
-- 
2.43.0


From c5618ab71a9978f12e12717ea41470fefa82e72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:43 +0000
Subject: [PATCH 058/107] fix: resetting the online ensembles forgets the
 declared classes

---
 src/skmultiflow/meta/online_adac2.py              | 2 ++
 src/skmultiflow/meta/online_boosting.py           | 2 ++
 src/skmultiflow/meta/online_csb2.py               | 2 ++
 src/skmultiflow/meta/online_rus_boost.py          | 2 ++
 src/skmultiflow/meta/online_smote_bagging.py      | 2 ++
 src/skmultiflow/meta/online_under_over_bagging.py | 2 ++
 6 files changed, 12 insertions(+)

diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index 4ef35c8..9f4d44d 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -159,6 +159,8 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
 
     def reset(self):
         self.__configure()
+        self.classes = None
+        return self
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially fits the model, based on the X and y matrix.
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index bf17e63..54c8e52 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -148,6 +148,8 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
 
     def reset(self):
         self.__configure()
+        self.classes = None
+        return self
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially fits the model, based on the X and y matrix.
diff --git a/src/skmultiflow/meta/online_csb2.py b/src/skmultiflow/meta/online_csb2.py
index 3e47ef9..550de92 100644
--- a/src/skmultiflow/meta/online_csb2.py
+++ b/src/skmultiflow/meta/online_csb2.py
@@ -153,6 +153,8 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
 
     def reset(self):
         self.__configure()
+        self.classes = None
+        return self
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially fits the model, based on the X and y matrix.
diff --git a/src/skmultiflow/meta/online_rus_boost.py b/src/skmultiflow/meta/online_rus_boost.py
index 5359587..9b3d15e 100644
--- a/src/skmultiflow/meta/online_rus_boost.py
+++ b/src/skmultiflow/meta/online_rus_boost.py
@@ -157,6 +157,8 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
 
     def reset(self):
         self.__configure()
+        self.classes = None
+        return self
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially fits the model, based on the X and y matrix.
diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index a0003fd..56c9613 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -139,6 +139,8 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
 
     def reset(self):
         self.__configure()
+        self.classes = None
+        return self
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially fits the model, based on the X and y matrix.
diff --git a/src/skmultiflow/meta/online_under_over_bagging.py b/src/skmultiflow/meta/online_under_over_bagging.py
index 17aec13..276d558 100644
--- a/src/skmultiflow/meta/online_under_over_bagging.py
+++ b/src/skmultiflow/meta/online_under_over_bagging.py
@@ -143,6 +143,8 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
 
     def reset(self):
         self.__configure()
+        self.classes = None
+        return self
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially fits the model, based on the X and y matrix.
-- 
2.43.0


From 3644cef84e77369a53244c4bdfa5bda49ab2bf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:38 +0000
Subject: [PATCH 059/107] fix: DynamicWeightedMajority and
 AdditiveExpertEnsemble return the class with the most weight, not the rounded
 mean label

---
 src/skmultiflow/meta/additive_expert_ensemble.py  | 10 +++++-----
 src/skmultiflow/meta/dynamic_weighted_majority.py | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/skmultiflow/meta/additive_expert_ensemble.py b/src/skmultiflow/meta/additive_expert_ensemble.py
index 8d35156..26c8abe 100644
--- a/src/skmultiflow/meta/additive_expert_ensemble.py
+++ b/src/skmultiflow/meta/additive_expert_ensemble.py
@@ -171,11 +171,11 @@ class AdditiveExpertEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         numpy.ndarray
             A numpy.ndarray with the label prediction for all the samples in X.
         """
-        preds = np.array([np.array(exp.estimator.predict(X)) * exp.weight
-                          for exp in self.experts])
-        sum_weights = sum(exp.weight for exp in self.experts)
-        aggregate = np.sum(preds / sum_weights, axis=0)
-        return (aggregate + 0.5).astype(int)    # Round to nearest int
+        preds = np.array([exp.estimator.predict(X) for exp in self.experts])
+        weights = np.array([exp.weight for exp in self.experts])
+        labels = np.unique(preds)[::-1]
+        votes = [np.sum(weights[:, np.newaxis] * (preds == label), axis=0) for label in labels]
+        return labels[np.argmax(votes, axis=0)].astype(int)
 
     def predict_proba(self, X):
         """ Not implemented for this method.
diff --git a/src/skmultiflow/meta/dynamic_weighted_majority.py b/src/skmultiflow/meta/dynamic_weighted_majority.py
index b2db81a..a5d192d 100644
--- a/src/skmultiflow/meta/dynamic_weighted_majority.py
+++ b/src/skmultiflow/meta/dynamic_weighted_majority.py
@@ -169,11 +169,11 @@ class DynamicWeightedMajorityClassifier(BaseSKMObject, ClassifierMixin, MetaEsti
         numpy.ndarray
             A numpy.ndarray with the label prediction for all the samples in X.
         """
-        preds = np.array([np.array(exp.estimator.predict(X)) * exp.weight
-                          for exp in self.experts])
-        sum_weights = sum(exp.weight for exp in self.experts)
-        aggregate = np.sum(preds / sum_weights, axis=0)
-        return (aggregate + 0.5).astype(int)    # Round to nearest int
+        preds = np.array([exp.estimator.predict(X) for exp in self.experts])
+        weights = np.array([exp.weight for exp in self.experts])
+        labels = np.unique(preds)[::-1]
+        votes = [np.sum(weights[:, np.newaxis] * (preds == label), axis=0) for label in labels]
+        return labels[np.argmax(votes, axis=0)].astype(int)
 
     def predict_proba(self, X):
         raise NotImplementedError
-- 
2.43.0


From 7a22d6522ec517bff0349d2e9fa10733c8e6307b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:38 +0000
Subject: [PATCH 060/107] fix: DynamicWeightedMajority and
 AdditiveExpertEnsemble train experts with the sample's own weight

---
 src/skmultiflow/meta/additive_expert_ensemble.py  | 5 ++++-
 src/skmultiflow/meta/dynamic_weighted_majority.py | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/meta/additive_expert_ensemble.py b/src/skmultiflow/meta/additive_expert_ensemble.py
index 26c8abe..7f8aaad 100644
--- a/src/skmultiflow/meta/additive_expert_ensemble.py
+++ b/src/skmultiflow/meta/additive_expert_ensemble.py
@@ -151,7 +151,10 @@ class AdditiveExpertEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
             self
         """
         for i in range(len(X)):
-            self.fit_single_sample(X[i:i + 1, :], y[i:i + 1], classes, sample_weight)
+            self.fit_single_sample(
+                X[i:i + 1, :], y[i:i + 1], classes,
+                None if sample_weight is None else sample_weight[i:i + 1]
+            )
         return self
 
     def predict(self, X):
diff --git a/src/skmultiflow/meta/dynamic_weighted_majority.py b/src/skmultiflow/meta/dynamic_weighted_majority.py
index a5d192d..7809c76 100644
--- a/src/skmultiflow/meta/dynamic_weighted_majority.py
+++ b/src/skmultiflow/meta/dynamic_weighted_majority.py
@@ -148,7 +148,8 @@ class DynamicWeightedMajorityClassifier(BaseSKMObject, ClassifierMixin, MetaEsti
         """
         for i in range(len(X)):
             self.fit_single_sample(
-                X[i:i + 1, :], y[i:i + 1], classes, sample_weight
+                X[i:i + 1, :], y[i:i + 1], classes,
+                None if sample_weight is None else sample_weight[i:i + 1]
             )
         return self
 
-- 
2.43.0


From ff5ca80061d08e7b1e601298424f520151ee5ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:24 +0000
Subject: [PATCH 061/107] fix: AdditiveExpertEnsembleClassifier with 'weakest'
 pruning always removes the weakest previous expert

---
 src/skmultiflow/meta/additive_expert_ensemble.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/skmultiflow/meta/additive_expert_ensemble.py b/src/skmultiflow/meta/additive_expert_ensemble.py
index 7f8aaad..39a6e10 100644
--- a/src/skmultiflow/meta/additive_expert_ensemble.py
+++ b/src/skmultiflow/meta/additive_expert_ensemble.py
@@ -239,17 +239,10 @@ class AdditiveExpertEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
 
     def _add_expert(self, new_exp):
         """
-        Inserts the new expert on the sorted self.experts list.
+        Appends the new expert, so that pruning removes one of the previous experts: the oldest
+        or, as the experts are sorted by weight for that strategy, the weakest one.
         """
-        if self.pruning == 'oldest':
-            self.experts.append(new_exp)
-        elif self.pruning == 'weakest':
-            idx = 0
-            for exp in self.experts:
-                if exp.weight < new_exp.weight:
-                    break
-                idx += 1
-            self.experts.insert(idx, new_exp)
+        self.experts.append(new_exp)
 
     def _construct_new_expert(self, weight=1):
         """
-- 
2.43.0


From 8a57e00d11dd51bd828274ef6269da9597986af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:24 +0000
Subject: [PATCH 062/107] fix: AccuracyWeightedEnsembleClassifier members keep
 the chunk they were trained on

---
 src/skmultiflow/meta/accuracy_weighted_ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/accuracy_weighted_ensemble.py b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
index 4172e0a..078eb78 100644
--- a/src/skmultiflow/meta/accuracy_weighted_ensemble.py
+++ b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
@@ -190,7 +190,7 @@ class AccuracyWeightedEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEst
 
                 # (1) train classifier C' from X
                 C_new = self.train_model(model=cp.deepcopy(self.base_estimator),
-                                         X=self.X_chunk, y=self.y_chunk,
+                                         X=self.X_chunk.copy(), y=self.y_chunk.copy(),
                                          classes=classes, sample_weight=sample_weight)
 
                 # compute the baseline error rate given by a random classifier
-- 
2.43.0


From 52aab3ce0a38bfd00350bd127d5695bff1b3e344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:49 +0000
Subject: [PATCH 063/107] fix: AccuracyWeightedEnsembleClassifier scores
 members on the probability of the true class

---
 src/skmultiflow/meta/accuracy_weighted_ensemble.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/meta/accuracy_weighted_ensemble.py b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
index 078eb78..fbe88cf 100644
--- a/src/skmultiflow/meta/accuracy_weighted_ensemble.py
+++ b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
@@ -343,9 +343,10 @@ class AccuracyWeightedEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEst
         sum_error = 0
         for i, c in enumerate(y):
             if c in labels:
-                # find the index of this label c in probabs[i]
-                index_label_c = np.where(labels == c)[0][0]
-                probab_ic = probabs[i][index_label_c]
+                # find the index of this label c in probabs[i]: scikit-learn models have
+                # a column per observed class, ours have one per label value
+                classes = getattr(model.estimator, 'classes_', np.arange(len(probabs[i])))
+                probab_ic = np.sum(probabs[i][classes == c])
                 sum_error += (1.0 - probab_ic) * (1.0 - probab_ic)
             else:
                 sum_error += 1.0
-- 
2.43.0


From 8a7a3a2cee93cd59f10d1401ac380fa6cf95df21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:57 +0000
Subject: [PATCH 064/107] fix: ExtremelyFastDecisionTreeClassifier gives every
 sample of a batch its own weight

---
 src/skmultiflow/trees/extremely_fast_decision_tree.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/skmultiflow/trees/extremely_fast_decision_tree.py b/src/skmultiflow/trees/extremely_fast_decision_tree.py
index 241684e..f64efdc 100755
--- a/src/skmultiflow/trees/extremely_fast_decision_tree.py
+++ b/src/skmultiflow/trees/extremely_fast_decision_tree.py
@@ -212,12 +212,12 @@ class ExtremelyFastDecisionTreeClassifier(HoeffdingTreeClassifier):
         if self.classes is None and classes is not None:
             self.classes = classes
         if y is not None:
-            if sample_weight is None:
-                sample_weight = np.array([1.0])
             row_cnt, _ = get_dimensions(X)
-            wrow_cnt, _ = get_dimensions(sample_weight)
-            if row_cnt != wrow_cnt:
-                sample_weight = [sample_weight[0]] * row_cnt
+            if sample_weight is None:
+                sample_weight = np.ones(row_cnt)
+            if row_cnt != len(sample_weight):
+                raise ValueError('Inconsistent number of instances ({}) and weights ({}).'.
+                                 format(row_cnt, len(sample_weight)))
             for i in range(row_cnt):
                 if sample_weight[i] != 0.0:
                     self._train_weight_seen_by_model += sample_weight[i]
-- 
2.43.0


From 3a9bdf3000ca54d71cf0b7b5ebdedd251ab2fc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:14 +0000
Subject: [PATCH 065/107] fix: partial_fit of all Hoeffding trees returns the
 tree, as documented

---
 src/skmultiflow/trees/extremely_fast_decision_tree.py     | 1 +
 src/skmultiflow/trees/hoeffding_tree_regressor.py         | 1 +
 src/skmultiflow/trees/isoup_tree.py                       | 1 +
 src/skmultiflow/trees/label_combination_hoeffding_tree.py | 2 +-
 4 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/extremely_fast_decision_tree.py b/src/skmultiflow/trees/extremely_fast_decision_tree.py
index f64efdc..38a013a 100755
--- a/src/skmultiflow/trees/extremely_fast_decision_tree.py
+++ b/src/skmultiflow/trees/extremely_fast_decision_tree.py
@@ -222,6 +222,7 @@ class ExtremelyFastDecisionTreeClassifier(HoeffdingTreeClassifier):
                 if sample_weight[i] != 0.0:
                     self._train_weight_seen_by_model += sample_weight[i]
                     self._partial_fit(X[i], y[i], sample_weight[i])
+        return self
 
     #  Override _partial_fit
     def _partial_fit(self, X, y, sample_weight):
diff --git a/src/skmultiflow/trees/hoeffding_tree_regressor.py b/src/skmultiflow/trees/hoeffding_tree_regressor.py
index fb3a5e1..7f80ca7 100644
--- a/src/skmultiflow/trees/hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_tree_regressor.py
@@ -331,6 +331,7 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
                 if sample_weight[i] != 0.0:
                     self._train_weight_seen_by_model += sample_weight[i]
                     self._partial_fit(X[i], y[i], sample_weight[i])
+        return self
 
     def _partial_fit(self, X, y, sample_weight):
         """Trains the model on samples X and corresponding targets y.
diff --git a/src/skmultiflow/trees/isoup_tree.py b/src/skmultiflow/trees/isoup_tree.py
index 89e442f..10315a1 100644
--- a/src/skmultiflow/trees/isoup_tree.py
+++ b/src/skmultiflow/trees/isoup_tree.py
@@ -366,6 +366,7 @@ class iSOUPTreeRegressor(HoeffdingTreeRegressor, MultiOutputMixin):
                 if sample_weight[i] != 0.0:
                     self._train_weight_seen_by_model += sample_weight[i]
                     self._partial_fit(X[i], y[i], sample_weight[i])
+        return self
 
     def _partial_fit(self, X, y, sample_weight):
         """Trains the model on samples X and corresponding targets y.
diff --git a/src/skmultiflow/trees/label_combination_hoeffding_tree.py b/src/skmultiflow/trees/label_combination_hoeffding_tree.py
index a02e0d6..bd22d70 100644
--- a/src/skmultiflow/trees/label_combination_hoeffding_tree.py
+++ b/src/skmultiflow/trees/label_combination_hoeffding_tree.py
@@ -177,7 +177,7 @@ class LabelCombinationHoeffdingTreeClassifier(HoeffdingTreeClassifier, MultiOutp
         -------
             self
             """
-        super().partial_fit(X, y, sample_weight=sample_weight)    # Override HT, infer the classes
+        return super().partial_fit(X, y, sample_weight=sample_weight)  # Override HT, infer the classes
 
     def predict(self, X):
         """Predicts the label of the X instance(s)
-- 
2.43.0


From cd11956df2d24ef3372df3c56b5597f700050efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:14 +0000
Subject: [PATCH 066/107] fix: HoeffdingTreeRegressor.predict of an empty tree
 returns one value per row

---
 src/skmultiflow/trees/hoeffding_tree_regressor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/hoeffding_tree_regressor.py b/src/skmultiflow/trees/hoeffding_tree_regressor.py
index 7f80ca7..65d00f9 100644
--- a/src/skmultiflow/trees/hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_tree_regressor.py
@@ -423,7 +423,7 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
                     predictions.append(node.stats[1] / node.stats[0])
         else:
             # Model is empty
-            predictions.append(0.0)
+            predictions = [0.0] * get_dimensions(X)[0]
         return np.asarray(predictions)
 
     def predict_proba(self, X):
-- 
2.43.0


From 0bb68bb27d474214f708741ad32bf00014c80dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:14 +0000
Subject: [PATCH 067/107] fix: HoeffdingTreeRegressor with perceptron leaves
 accepts streams with a single attribute

---
 src/skmultiflow/trees/hoeffding_tree_regressor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/trees/hoeffding_tree_regressor.py b/src/skmultiflow/trees/hoeffding_tree_regressor.py
index 65d00f9..d84060f 100644
--- a/src/skmultiflow/trees/hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_tree_regressor.py
@@ -186,8 +186,8 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
         self.samples_seen = 0
         self.sum_of_values = 0.0
         self.sum_of_squares = 0.0
-        self.sum_of_attribute_values = []
-        self.sum_of_attribute_squares = []
+        self.sum_of_attribute_values = 0.0
+        self.sum_of_attribute_squares = 0.0
         self.random_state = random_state
 
     @property
-- 
2.43.0


From 9b88ccf11e976ad5b9e8389bd1ca161091f5cb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:36 +0000
Subject: [PATCH 068/107] fix: resetting any Hoeffding tree forgets everything
 it has learned, including its classes and scaling statistics

---
 .../trees/arf_hoeffding_tree_regressor.py            |  7 +++++++
 src/skmultiflow/trees/hoeffding_adaptive_tree.py     |  2 ++
 .../trees/hoeffding_adaptive_tree_regressor.py       |  7 +++++++
 src/skmultiflow/trees/hoeffding_tree.py              |  1 +
 src/skmultiflow/trees/hoeffding_tree_regressor.py    | 10 ++++++++++
 src/skmultiflow/trees/isoup_tree.py                  | 12 +++++++++---
 6 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/trees/arf_hoeffding_tree_regressor.py b/src/skmultiflow/trees/arf_hoeffding_tree_regressor.py
index 4c49d0b..5a4588c 100644
--- a/src/skmultiflow/trees/arf_hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/arf_hoeffding_tree_regressor.py
@@ -118,8 +118,15 @@ class ARFHoeffdingTreeRegressor(HoeffdingTreeRegressor):
                                                       random_state=random_state)
 
     def reset(self):
+        # A member of a forest that is reset after a drift grows a new tree but keeps scaling
+        # its inputs by everything it has observed
+        scaling = (self.samples_seen, self.sum_of_values, self.sum_of_squares,
+                   self.sum_of_attribute_values, self.sum_of_attribute_squares)
         super().reset()
+        (self.samples_seen, self.sum_of_values, self.sum_of_squares,
+         self.sum_of_attribute_values, self.sum_of_attribute_squares) = scaling
         self._random_state = check_random_state(self.random_state)
+        return self
 
     def new_instance(self):
         return ARFHoeffdingTreeRegressor(max_byte_size=self.max_byte_size,
diff --git a/src/skmultiflow/trees/hoeffding_adaptive_tree.py b/src/skmultiflow/trees/hoeffding_adaptive_tree.py
index bd39fe0..18de40c 100644
--- a/src/skmultiflow/trees/hoeffding_adaptive_tree.py
+++ b/src/skmultiflow/trees/hoeffding_adaptive_tree.py
@@ -172,10 +172,12 @@ class HoeffdingAdaptiveTreeClassifier(HoeffdingTreeClassifier):
         self._tree_root = None
 
     def reset(self):
+        super().reset()
         self.alternate_trees_cnt = 0
         self.pruned_alternate_trees_cnt = 0
         self.switch_alternate_trees_cnt = 0
         self._tree_root = None
+        return self
 
     # Override HoeffdingTreeClassifier
     def _partial_fit(self, X, y, sample_weight):
diff --git a/src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py b/src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py
index fa035e0..278d93a 100644
--- a/src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py
@@ -159,6 +159,13 @@ class HoeffdingAdaptiveTreeRegressor(HoeffdingTreeRegressor):
         self.switch_alternate_trees_cnt = 0
         self.pruned_alternate_trees_cnt = 0
 
+    def reset(self):
+        super().reset()
+        self.alternate_trees_cnt = 0
+        self.switch_alternate_trees_cnt = 0
+        self.pruned_alternate_trees_cnt = 0
+        return self
+
     def _new_learning_node(self, initial_stats=None, parent_node=None,
                            is_active=True):
         """Create a new learning node.
diff --git a/src/skmultiflow/trees/hoeffding_tree.py b/src/skmultiflow/trees/hoeffding_tree.py
index 9bd7a7d..25a3240 100755
--- a/src/skmultiflow/trees/hoeffding_tree.py
+++ b/src/skmultiflow/trees/hoeffding_tree.py
@@ -243,6 +243,7 @@ class HoeffdingTreeClassifier(BaseSKMObject, ClassifierMixin):
         self._byte_size_estimate_overhead_fraction = 1.0
         self._growth_allowed = True
         self._train_weight_seen_by_model = 0.0
+        self.classes = None
 
         return self
 
diff --git a/src/skmultiflow/trees/hoeffding_tree_regressor.py b/src/skmultiflow/trees/hoeffding_tree_regressor.py
index d84060f..5dc7302 100644
--- a/src/skmultiflow/trees/hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_tree_regressor.py
@@ -291,6 +291,16 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
                 return InactiveLearningNodePerceptron(initial_stats, parent_node,
                                                       random_state=self.random_state)
 
+    def reset(self):
+        """ Reset the Hoeffding Tree to default values."""
+        super().reset()
+        self.samples_seen = 0
+        self.sum_of_values = 0.0
+        self.sum_of_squares = 0.0
+        self.sum_of_attribute_values = 0.0
+        self.sum_of_attribute_squares = 0.0
+        return self
+
     def partial_fit(self, X, y, sample_weight=None):
         """ Incrementally trains the model.
 
diff --git a/src/skmultiflow/trees/isoup_tree.py b/src/skmultiflow/trees/isoup_tree.py
index 10315a1..45532d9 100644
--- a/src/skmultiflow/trees/isoup_tree.py
+++ b/src/skmultiflow/trees/isoup_tree.py
@@ -320,6 +320,13 @@ class iSOUPTreeRegressor(HoeffdingTreeRegressor, MultiOutputMixin):
                 new_node.fMAE_P = parent_node.fMAE_P
                 return new_node
 
+    def reset(self):
+        """ Reset the tree to default values."""
+        super().reset()
+        self.examples_seen = 0
+        self._n_targets_set = False
+        return self
+
     def partial_fit(self, X, y, sample_weight=None):
         """Incrementally trains the model. Train samples (instances) are
         composed of X attributes and their corresponding targets y.
@@ -453,12 +460,11 @@ class iSOUPTreeRegressor(HoeffdingTreeRegressor, MultiOutputMixin):
         """
 
         r, _ = get_dimensions(X)
-        try:
-            predictions = np.zeros((r, self._n_targets), dtype=np.float64)
-        except AttributeError:
+        if self._tree_root is None:
             warnings.warn("Calling predict without previously fitting the model at least once.\n"
                           "Predictions will default to a column array filled with zeros.")
             return np.zeros((r, 1))
+        predictions = np.zeros((r, self._n_targets), dtype=np.float64)
         for i in range(r):
             node = self._tree_root.filter_instance_to_leaf(X[i], None, -1).node
 
-- 
2.43.0


From f71b2eebb051274f31bba05452b4698c454aa5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:21 +0000
Subject: [PATCH 069/107] fix: SAMKNNClassifier predicts class labels above 127

---
 src/skmultiflow/lazy/sam_knn.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/skmultiflow/lazy/sam_knn.py b/src/skmultiflow/lazy/sam_knn.py
index cdfc9cc..ce35c85 100644
--- a/src/skmultiflow/lazy/sam_knn.py
+++ b/src/skmultiflow/lazy/sam_knn.py
@@ -467,10 +467,7 @@ class SAMKNNClassifier(BaseSKMObject, ClassifierMixin):
 
         nnIndices = libNearestNeighbor.nArgMin(numNeighbours, distances)
 
-        if not isinstance(labels, type(np.array([]))):
-            labels = np.asarray(labels, dtype=np.int8)
-        else:
-            labels = np.int8(labels)
+        labels = np.asarray(labels).astype(np.int32)
 
         predLabels = libNearestNeighbor.mostCommon(labels[nnIndices])
 
@@ -481,10 +478,7 @@ class SAMKNNClassifier(BaseSKMObject, ClassifierMixin):
         """Returns the the distance weighted label of the k nearest neighbors."""
         nnIndices = libNearestNeighbor.nArgMin(numNeighbours, distances)
         sqrtDistances = np.sqrt(distances[nnIndices])
-        if not isinstance(labels, type(np.array([]))):
-            labels = np.asarray(labels, dtype=np.int8)
-        else:
-            labels = np.int8(labels)
+        labels = np.asarray(labels).astype(np.int32)
 
         predLabels = libNearestNeighbor.getLinearWeightedLabels(labels[nnIndices], sqrtDistances)
         return predLabels
-- 
2.43.0


From 0880691ec519af6e2fd6f4762889d6465284c2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:22 +0000
Subject: [PATCH 070/107] fix: SAMKNNClassifier without STM size adaption can
 fill its window

---
 src/skmultiflow/lazy/sam_knn.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/skmultiflow/lazy/sam_knn.py b/src/skmultiflow/lazy/sam_knn.py
index ce35c85..e149262 100644
--- a/src/skmultiflow/lazy/sam_knn.py
+++ b/src/skmultiflow/lazy/sam_knn.py
@@ -126,8 +126,7 @@ class SAMKNNClassifier(BaseSKMObject, ClassifierMixin):
         self.maxSTMSize = self.max_wind_size - self.maxLTMSize
         self.minSTMSize = self.min_stm_size
 
-        if self.stm_size_option is not None:
-            self.STMDistances = np.zeros(shape=(max_window_size + 1, max_window_size + 1))
+        self.STMDistances = np.zeros(shape=(max_window_size + 1, max_window_size + 1))
         if self.weighting == 'distance':
             self.getLabelsFct = SAMKNNClassifier.get_distance_weighted_label
         elif self.weighting == 'uniform':
-- 
2.43.0


From ad166b86b5ac23ef1f4db43720bfd1eea9c0561c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:22 +0000
Subject: [PATCH 071/107] fix: SAMKNNClassifier can be reset

---
 src/skmultiflow/lazy/sam_knn.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/skmultiflow/lazy/sam_knn.py b/src/skmultiflow/lazy/sam_knn.py
index e149262..6f2710d 100644
--- a/src/skmultiflow/lazy/sam_knn.py
+++ b/src/skmultiflow/lazy/sam_knn.py
@@ -460,6 +460,13 @@ class SAMKNNClassifier(BaseSKMObject, ClassifierMixin):
     def predict_proba(self, X):
         raise NotImplementedError
 
+    def reset(self):
+        """ Reset the classifier: forget all samples and start anew with the same parameters."""
+        params = self.get_params(deep=False)
+        params['max_window_size'] = self.max_wind_size
+        self.__init__(**params)
+        return self
+
     @staticmethod
     def get_maj_label(distances, labels, numNeighbours):
         """Returns the majority label of the k nearest neighbors."""
-- 
2.43.0


From edabd6619e5382666ff25a9cb38c79872a460279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:04 +0000
Subject: [PATCH 072/107] fix: RobustSoftLearningVectorQuantization.reset
 forgets the prototypes

---
 .../prototype/robust_soft_learning_vector_quantization.py  | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py b/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
index 2eafb3b..65ca34d 100644
--- a/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
+++ b/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
@@ -396,6 +396,13 @@ class RobustSoftLearningVectorQuantization(ClassifierMixin, BaseSKMObject):
             self._costf(e, prototypes[j]) - fs_max) / s
         return o
 
+    def reset(self):
+        """ Forget the prototypes and start anew with the same parameters."""
+        super().reset()
+        for fitted in ('w_', 'c_w_'):
+            vars(self).pop(fitted, None)
+        return self
+
     def predict_proba(self, X):
         """ Not implemented for this  method.
         """
-- 
2.43.0


From a252e2d6e95a6656b4f2f371ad8516a9754bb005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:04 +0000
Subject: [PATCH 073/107] fix: AdaptiveRandomForestRegressor.reset keeps the
 max_features parameter

---
 src/skmultiflow/meta/adaptive_random_forest_regressor.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/skmultiflow/meta/adaptive_random_forest_regressor.py b/src/skmultiflow/meta/adaptive_random_forest_regressor.py
index 1a1dd24..39762b8 100644
--- a/src/skmultiflow/meta/adaptive_random_forest_regressor.py
+++ b/src/skmultiflow/meta/adaptive_random_forest_regressor.py
@@ -348,7 +348,6 @@ class AdaptiveRandomForestRegressor(RegressorMixin, AdaptiveRandomForestClassifi
         # TODO: check whether this is enough
 
         self.ensemble = None
-        self.max_features = 0
         self.instances_seen = 0
         self._random_state = check_random_state(self.random_state)
 
-- 
2.43.0


From 9e982757fc96fffbcd35b7b16f35d4692fc5c104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:28 +0000
Subject: [PATCH 074/107] fix: ClassifierChain.predict_proba works while a
 label has only been observed as 0

---
 src/skmultiflow/meta/classifier_chains.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/classifier_chains.py b/src/skmultiflow/meta/classifier_chains.py
index 0b6d721..bc7b6cc 100644
--- a/src/skmultiflow/meta/classifier_chains.py
+++ b/src/skmultiflow/meta/classifier_chains.py
@@ -233,7 +233,9 @@ class ClassifierChain(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin, MultiO
         for j in range(self.L):
             if j > 0:
                 X = np.column_stack([X, Y[:, j - 1]])
-            Y[:, j] = self.ensemble[j].predict_proba(X)[:, 1]
+            # A label that was only observed as 0 has no column of its own
+            P_j = self.ensemble[j].predict_proba(X)
+            Y[:, j] = P_j[:, 1] if P_j.shape[1] > 1 else 0.
 
         # Unset the chain order (back to default)
         return Y[:, np.argsort(self.chain)]
-- 
2.43.0


From 105957f4b051245cbd893d16338d0ab2d2ae7952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:45 +0000
Subject: [PATCH 075/107] fix: AdaptiveRandomForestClassifier accepts one
 weight per sample of a batch

---
 src/skmultiflow/meta/adaptive_random_forests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/adaptive_random_forests.py b/src/skmultiflow/meta/adaptive_random_forests.py
index 9c1be79..215f687 100644
--- a/src/skmultiflow/meta/adaptive_random_forests.py
+++ b/src/skmultiflow/meta/adaptive_random_forests.py
@@ -306,7 +306,7 @@ class AdaptiveRandomForestClassifier(BaseSKMObject, ClassifierMixin, MetaEstimat
 
         if y is not None:
             row_cnt, _ = get_dimensions(X)
-            weight = check_weights(weight, expand_length=row_cnt)
+            weight = check_weights(weight, expand_length=row_cnt if np.ndim(weight) == 0 else 1)
             for i in range(row_cnt):
                 if weight[i] != 0.0:
                     self._train_weight_seen_by_model += weight[i]
-- 
2.43.0


From 87a52489721ef9faaf961238a5d1187ef00987bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:30 +0000
Subject: [PATCH 076/107] fix: AdaptiveRandomForestClassifier.predict_proba has
 one column per declared class also for rows without votes

---
 src/skmultiflow/meta/adaptive_random_forests.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/adaptive_random_forests.py b/src/skmultiflow/meta/adaptive_random_forests.py
index 215f687..83727d9 100644
--- a/src/skmultiflow/meta/adaptive_random_forests.py
+++ b/src/skmultiflow/meta/adaptive_random_forests.py
@@ -382,7 +382,10 @@ class AdaptiveRandomForestClassifier(BaseSKMObject, ClassifierMixin, MetaEstimat
             votes = deepcopy(self._get_votes_for_instance(X[i]))
             if votes == {}:
                 # Estimator is empty, all classes equal, default to zero
-                y_proba.append([0])
+                if self.classes is not None:
+                    y_proba.append(np.zeros(int(max(self.classes)) + 1))
+                else:
+                    y_proba.append([0])
             else:
                 if sum(votes.values()) != 0:
                     votes = normalize_values_in_dict(votes)
-- 
2.43.0


From d352b63fcad82498eba0b2e1e6f656814802ac9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:30 +0000
Subject: [PATCH 077/107] fix: LearnPPNSEClassifier.predict_proba returns
 probabilities

---
 src/skmultiflow/meta/learn_nse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/learn_nse.py b/src/skmultiflow/meta/learn_nse.py
index d2ecaf6..952e460 100644
--- a/src/skmultiflow/meta/learn_nse.py
+++ b/src/skmultiflow/meta/learn_nse.py
@@ -324,7 +324,9 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         if not self.ensemble:
             return np.zeros((len(X), 1))
 
-        return self.__vote_proba(X, len(self.ensemble), self.classes)
+        votes = self.__vote_proba(X, len(self.ensemble), self.classes)
+        total = votes.sum(axis=1, keepdims=True)
+        return np.divide(votes, total, out=np.zeros_like(votes), where=total > 0)
 
     def predict(self, X):
         """ Predicts the class for a given sample by majority vote from all
-- 
2.43.0


From 33360cb0aa068ca1e8dab6b94bdf78d42a84984e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:30 +0000
Subject: [PATCH 078/107] fix: LearnPPClassifier.predict_proba returns
 probabilities

---
 src/skmultiflow/meta/learn_pp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/learn_pp.py b/src/skmultiflow/meta/learn_pp.py
index d501f0f..283b199 100644
--- a/src/skmultiflow/meta/learn_pp.py
+++ b/src/skmultiflow/meta/learn_pp.py
@@ -320,7 +320,8 @@ class LearnPPClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
             ensemble = self.ensembles[i]
             ensemble_weight = self.ensemble_weights[i]
             votes += np.array(self.__vote_proba(X, len(ensemble), ensemble, ensemble_weight))
-        return votes
+        total = votes.sum(axis=1, keepdims=True)
+        return np.divide(votes, total, out=votes.copy(), where=total > 0)
 
     def predict(self, X):
         """ Predict classes for the passed data.
-- 
2.43.0


From 101abb7a24eb8db162a691a92f757329b004fa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:30 +0000
Subject: [PATCH 079/107] fix: VeryFastDecisionRulesClassifier updates every
 covering rule when another rule is removed or added

---
 src/skmultiflow/rules/very_fast_decision_rules.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/rules/very_fast_decision_rules.py b/src/skmultiflow/rules/very_fast_decision_rules.py
index 289e33b..e77efb7 100644
--- a/src/skmultiflow/rules/very_fast_decision_rules.py
+++ b/src/skmultiflow/rules/very_fast_decision_rules.py
@@ -514,14 +514,15 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
         """
         rule_fired = False
         if self.rule_set:
-            for i, rule in enumerate(self.rule_set):
+            # Rules may be removed or added while the current rules learn the sample
+            for rule in list(self.rule_set):
                 if rule.covers_instance(X):
                     rule_fired = True
                     if self.drift_detector is not None:
                         prediction = rule.predict(y)
                         rule.drift_detector.add_element(prediction)
                         if rule.drift_detector.detected_change() and rule.get_weight_seen() > self.min_weight:
-                            self.rule_set.pop(i)
+                            self.rule_set = [other for other in self.rule_set if other is not rule]
                             continue
                     rule.learn_from_instance(X, y, weight, self)
                     if rule.get_weight_seen() - rule.weight_seen_at_last_expand >= self.grace_period:
-- 
2.43.0


From 297448cc9ff97ae2205b8eb65ff8104af34a5893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:30 +0000
Subject: [PATCH 080/107] fix: VeryFastDecisionRulesClassifier feeds the errors
 of a rule to its drift detector

---
 src/skmultiflow/rules/very_fast_decision_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/rules/very_fast_decision_rules.py b/src/skmultiflow/rules/very_fast_decision_rules.py
index e77efb7..f4c748e 100644
--- a/src/skmultiflow/rules/very_fast_decision_rules.py
+++ b/src/skmultiflow/rules/very_fast_decision_rules.py
@@ -519,8 +519,8 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
                 if rule.covers_instance(X):
                     rule_fired = True
                     if self.drift_detector is not None:
-                        prediction = rule.predict(y)
-                        rule.drift_detector.add_element(prediction)
+                        error = 1 - rule.predict(y)
+                        rule.drift_detector.add_element(error)
                         if rule.drift_detector.detected_change() and rule.get_weight_seen() > self.min_weight:
                             self.rule_set = [other for other in self.rule_set if other is not rule]
                             continue
-- 
2.43.0


From bab84c75c0c2a496a6311d31113976dedfa8a461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:30 +0000
Subject: [PATCH 081/107] fix: VeryFastDecisionRulesClassifier.predict_proba
 returns rows of equal length

---
 .../rules/very_fast_decision_rules.py         | 27 +++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/skmultiflow/rules/very_fast_decision_rules.py b/src/skmultiflow/rules/very_fast_decision_rules.py
index f4c748e..9ca37e7 100644
--- a/src/skmultiflow/rules/very_fast_decision_rules.py
+++ b/src/skmultiflow/rules/very_fast_decision_rules.py
@@ -822,20 +822,19 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
         predictions = []
         for i in range(r):
             votes = copy.deepcopy(self.get_votes_for_instance(X[i]))
-            if votes == {}:
-                # Tree is empty, all classes equal, default to zero
-                predictions.append([0])
-            else:
-                if sum(votes.values()) != 0:
-                    votes = normalize_values_in_dict(votes, inplace=False)
-                if self.classes is not None:
-                    y_proba = np.zeros(int(max(self.classes)) + 1)
-                else:
-                    y_proba = np.zeros(int(max(votes.keys())) + 1)
-                for key, value in votes.items():
-                    y_proba[int(key)] = value
-                predictions.append(y_proba)
-        return np.array(predictions)
+            if sum(votes.values()) != 0:
+                votes = normalize_values_in_dict(votes, inplace=False)
+            predictions.append(votes)
+        # One column per label for all rows; no votes, all classes equal, default to zero
+        if self.classes is not None:
+            n_labels = int(max(self.classes)) + 1
+        else:
+            n_labels = max([int(max(votes.keys())) + 1 for votes in predictions if votes != {}], default=1)
+        y_proba = np.zeros((r, n_labels))
+        for i, votes in enumerate(predictions):
+            for key, value in votes.items():
+                y_proba[i, int(key)] = value
+        return y_proba
 
     def get_model_measurements(self):
         """Collect metrics corresponding to the current status of the model.
-- 
2.43.0


From 6dc256b4456c44da4163623ff98b0fef5edab6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:35 +0000
Subject: [PATCH 082/107] fix: AdaptiveRandomForestClassifier never turns votes
 into negative probabilities

---
 src/skmultiflow/meta/adaptive_random_forests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/adaptive_random_forests.py b/src/skmultiflow/meta/adaptive_random_forests.py
index 83727d9..853b970 100644
--- a/src/skmultiflow/meta/adaptive_random_forests.py
+++ b/src/skmultiflow/meta/adaptive_random_forests.py
@@ -424,7 +424,7 @@ class AdaptiveRandomForestClassifier(BaseSKMObject, ClassifierMixin, MetaEstimat
                     performance = self.ensemble[i].evaluator.accuracy_score()\
                         if self.performance_metric == 'acc'\
                         else self.ensemble[i].evaluator.kappa_score()
-                    if performance != 0.0:  # CHECK How to handle negative (kappa) values?
+                    if performance > 0.0:  # As in MOA, other (e.g. negative kappa) values are no weights
                         for k in vote:
                             vote[k] = vote[k] * performance
                 # Add values
-- 
2.43.0


From 3370ab0762dfedce5f32656c725900503ed35044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:48 +0000
Subject: [PATCH 083/107] fix: AdaptiveRandomForestClassifier.reset forgets the
 declared classes

---
 src/skmultiflow/meta/adaptive_random_forests.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skmultiflow/meta/adaptive_random_forests.py b/src/skmultiflow/meta/adaptive_random_forests.py
index 853b970..0e51a8e 100644
--- a/src/skmultiflow/meta/adaptive_random_forests.py
+++ b/src/skmultiflow/meta/adaptive_random_forests.py
@@ -410,6 +410,7 @@ class AdaptiveRandomForestClassifier(BaseSKMObject, ClassifierMixin, MetaEstimat
         self.instances_seen = 0
         self._train_weight_seen_by_model = 0.0
         self._random_state = check_random_state(self.random_state)
+        self.classes = None
 
     def _get_votes_for_instance(self, X):
         if self.ensemble is None:
-- 
2.43.0


From b828c7bf10c8207a915ccc9dd2e71663079339eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:18 +0000
Subject: [PATCH 084/107] fix: LearnPPClassifier gives up also when the error
 stays exactly at the threshold

---
 src/skmultiflow/meta/learn_pp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/learn_pp.py b/src/skmultiflow/meta/learn_pp.py
index 283b199..bc43f1c 100644
--- a/src/skmultiflow/meta/learn_pp.py
+++ b/src/skmultiflow/meta/learn_pp.py
@@ -257,7 +257,7 @@ class LearnPPClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                             Dt[y_predict_composite == y] = Dt[y_predict_composite == y] * \
                                 normalize_composite_error
 
-                if total_error > self.error_threshold:
+                if total_error >= self.error_threshold:
                     patience += 1
                 else:
                     patience = 0
-- 
2.43.0


From 91ce88f47591bb7dcd8b1fef43e04f2ad8e841a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:53 +0000
Subject: [PATCH 085/107] fix: MultiOutputLearner.predict_proba works while a
 target has only been observed as 0

---
 src/skmultiflow/meta/multi_output_learner.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/multi_output_learner.py b/src/skmultiflow/meta/multi_output_learner.py
index c599245..133f195 100644
--- a/src/skmultiflow/meta/multi_output_learner.py
+++ b/src/skmultiflow/meta/multi_output_learner.py
@@ -223,7 +223,9 @@ class MultiOutputLearner(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin, Mul
         proba = np.zeros((N, self.n_targets))
         for j in range(self.n_targets):
             try:
-                proba[:, j] = self.ensemble[j].predict_proba(X)[:, 1]
+                proba_j = self.ensemble[j].predict_proba(X)
+                # Only one column as long as this target has only been observed as 0
+                proba[:, j] = proba_j[:, 1] if proba_j.shape[1] > 1 else 0.0
             except NotImplementedError or AttributeError:
                 raise AttributeError("Estimator {} has no predict_proba method".format(
                     type(self.base_estimator)))
-- 
2.43.0


From 0f2127528b33c98034646977914f8521f61286fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:02 +0000
Subject: [PATCH 086/107] fix: OnlineAdaC2Classifier can grow to one member per
 class

---
 src/skmultiflow/meta/online_adac2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index 9f4d44d..a0ccd69 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -289,6 +289,8 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 self.lam_tn = np.zeros(self.actual_n_estimators)
                 self.lam_fp = np.zeros(self.actual_n_estimators)
                 self.lam_sum = np.zeros(self.actual_n_estimators)
+                self.wacc = np.zeros(self.actual_n_estimators)
+                self.werr = np.zeros(self.actual_n_estimators)
 
     def predict(self, X):
         """ predict
-- 
2.43.0


From 0c195c2023ef91469e49794abc2ce53211fdb39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:18 +0000
Subject: [PATCH 087/107] fix: OnlineSMOTEBaggingClassifier remembers every
 positive sample once

---
 src/skmultiflow/meta/online_smote_bagging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index 56c9613..22aaa4e 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -204,10 +204,11 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
             weight = None if sample_weight is None else [sample_weight[j]]
             change_detected = False
             lam = 1
+            if y[j] == 1:
+                self.pos_samples.append(X[j])
             for i in range(self.actual_n_estimators):
                 a = (i + 1) / self.actual_n_estimators
                 if y[j] == 1:
-                    self.pos_samples.append(X[j])
                     lam = a * self.sampling_rate
                     lam_smote = (1 - a) * self.sampling_rate
                     k = self._random_state.poisson(lam)
-- 
2.43.0


From 4278e79941b76a1c1dc3b15f21a9b63c27dadb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:25 +0000
Subject: [PATCH 088/107] fix: LeveragingBaggingClassifier with a code matrix
 no longer loops forever for an odd number of classes

---
 src/skmultiflow/meta/leverage_bagging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/leverage_bagging.py b/src/skmultiflow/meta/leverage_bagging.py
index e17d73d..e074b48 100644
--- a/src/skmultiflow/meta/leverage_bagging.py
+++ b/src/skmultiflow/meta/leverage_bagging.py
@@ -322,7 +322,7 @@ class LeveragingBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorM
                     else:
                         n_zeros += 1
                 condition = ((n_ones - n_zeros) * (n_ones - n_zeros) >
-                             (self.actual_n_estimators % 2))
+                             (len(self.classes) % 2))
         self.init_matrix_codes = False
 
     def predict(self, X):
-- 
2.43.0


From a9a1f372023afa3783a707545e9524ed7a7fa189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:06 +0000
Subject: [PATCH 089/107] fix: asking VeryFastDecisionRulesClassifier for its
 rules leaves the rules as they are

---
 src/skmultiflow/rules/very_fast_decision_rules.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/rules/very_fast_decision_rules.py b/src/skmultiflow/rules/very_fast_decision_rules.py
index 9ca37e7..bbeaf10 100644
--- a/src/skmultiflow/rules/very_fast_decision_rules.py
+++ b/src/skmultiflow/rules/very_fast_decision_rules.py
@@ -872,10 +872,11 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
         -------
         list (rule)
         """
-        for rule in self.rule_set:
+        rules = copy.deepcopy(self.rule_set)
+        for rule in rules:
             class_idx = max(rule.observed_class_distribution.items(), key=itemgetter(1))[0]
             rule.class_idx = class_idx
-        return self.rule_set
+        return rules
 
     def get_model_description(self):
         """ Returns the rules of the model
-- 
2.43.0


From 3c9fd6ad05178904749044529ac0922e9fa100ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:01 +0000
Subject: [PATCH 090/107] fix: VeryFastDecisionRulesClassifier can be described
 while its default rule has no statistics

---
 src/skmultiflow/rules/very_fast_decision_rules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/rules/very_fast_decision_rules.py b/src/skmultiflow/rules/very_fast_decision_rules.py
index bbeaf10..c7d64aa 100644
--- a/src/skmultiflow/rules/very_fast_decision_rules.py
+++ b/src/skmultiflow/rules/very_fast_decision_rules.py
@@ -891,7 +891,8 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
             class_idx = max(rule.observed_class_distribution.items(), key=itemgetter(1))[0]
             description += 'Rule ' + str(i) + ' :' + str(rule.get_rule()) + '| class :' + str(class_idx) + '  ' + \
                            str(rule.observed_class_distribution) + '\n'
-        class_idx = max(self.default_rule.observed_class_distribution.items(), key=itemgetter(1))[0]
+        class_idx = max(self.default_rule.observed_class_distribution.items(), key=itemgetter(1),
+                        default=(0, 0))[0]
         description += 'Default Rule :' + str(self.default_rule.get_rule()) + '| class :' + str(class_idx) + '  ' + \
                        str(self.default_rule.observed_class_distribution)
         return description
-- 
2.43.0


From 005f777364459316257f7605bc33d2d780b2dda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:08 +0000
Subject: [PATCH 091/107] fix: the variance reduction of a regression split
 uses the whole sample weight, not its integer part

---
 .../_split_criterion/variance_reduction_split_criterion.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/_split_criterion/variance_reduction_split_criterion.py b/src/skmultiflow/trees/_split_criterion/variance_reduction_split_criterion.py
index 7abfdd2..084c33a 100644
--- a/src/skmultiflow/trees/_split_criterion/variance_reduction_split_criterion.py
+++ b/src/skmultiflow/trees/_split_criterion/variance_reduction_split_criterion.py
@@ -36,7 +36,7 @@ class VarianceReductionSplitCriterion(SplitCriterion):
     @staticmethod
     def compute_SD(dist):
 
-        N = int(dist[0])
+        N = dist[0]
         sum_ = dist[1]
         sum_sq = dist[2]
 
-- 
2.43.0


From 8ddb0f84a7c28d958acc2ec46af7667a11087b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:39 +0000
Subject: [PATCH 092/107] fix: regression trees removing poor attributes accept
 a split attempt in which no candidate has merit

---
 src/skmultiflow/trees/hoeffding_tree_regressor.py | 2 +-
 src/skmultiflow/trees/isoup_tree.py               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/trees/hoeffding_tree_regressor.py b/src/skmultiflow/trees/hoeffding_tree_regressor.py
index 5dc7302..f438953 100644
--- a/src/skmultiflow/trees/hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_tree_regressor.py
@@ -481,7 +481,7 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
                     (second_best_suggestion.merit / best_suggestion.merit < 1 - hoeffding_bound
                         or hoeffding_bound < self.tie_threshold):
                 should_split = True
-            if self.remove_poor_atts:
+            if self.remove_poor_atts and best_suggestion.merit > 0.0:
                 poor_atts = set()
                 best_ratio = second_best_suggestion.merit / best_suggestion.merit
 
diff --git a/src/skmultiflow/trees/isoup_tree.py b/src/skmultiflow/trees/isoup_tree.py
index 45532d9..d6410a6 100644
--- a/src/skmultiflow/trees/isoup_tree.py
+++ b/src/skmultiflow/trees/isoup_tree.py
@@ -527,7 +527,7 @@ class iSOUPTreeRegressor(HoeffdingTreeRegressor, MultiOutputMixin):
                                                < 1 - hoeffding_bound or hoeffding_bound
                                                < self.tie_threshold)):
                 should_split = True
-            if self.remove_poor_atts and not should_split:
+            if self.remove_poor_atts and not should_split and best_suggestion.merit > 0.0:
                 poor_atts = set()
                 best_ratio = second_best_suggestion.merit / best_suggestion.merit
 
-- 
2.43.0


From 73fbd321ecd04f49de4da76c99587dac38f4da6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:57 +0000
Subject: [PATCH 093/107] fix: a weighted AdaptiveRandomForestRegressor of one
 tree predicts numbers, not NaN

---
 src/skmultiflow/meta/adaptive_random_forest_regressor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/adaptive_random_forest_regressor.py b/src/skmultiflow/meta/adaptive_random_forest_regressor.py
index 39762b8..34bf0a0 100644
--- a/src/skmultiflow/meta/adaptive_random_forest_regressor.py
+++ b/src/skmultiflow/meta/adaptive_random_forest_regressor.py
@@ -325,7 +325,7 @@ class AdaptiveRandomForestRegressor(RegressorMixin, AdaptiveRandomForestClassifi
                 weights = np.asarray([learner.get_error() for learner in self.ensemble])
                 sum_weights = weights.sum()
 
-                if sum_weights != 0:
+                if sum_weights != 0 and self.n_estimators > 1:
                     # The higher the error, the worse is the tree
                     weights = sum_weights - weights
                     # Normalize weights to sum up to 1
-- 
2.43.0


From a970dafe85c0f9632d2b8c20b2503d8d6fab513e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:21 +0000
Subject: [PATCH 094/107] fix: StreamingRandomPatchesClassifier keeps the
 nominal attributes right when an untrained background learner takes over

---
 src/skmultiflow/meta/streaming_random_patches.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index fa923cf..a8c6ec7 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -584,6 +584,7 @@ class StreamingRandomPatchesBaseLearner:
             self.performance_evaluator.reset()
             self.created_on = self._background_learner.created_on
             self.feature_indexes = self._background_learner.feature_indexes
+            self._set_nominal_attributes = self._background_learner._set_nominal_attributes
             self._background_learner = None
         else:
             self.base_estimator.reset()
-- 
2.43.0


From c715b97c7b2a1162fe2d38807ef53b3255d807d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:33 +0000
Subject: [PATCH 095/107] fix: LearnPPNSEClassifier can be cloned: it keeps the
 base_estimator it was given

---
 src/skmultiflow/meta/learn_nse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/learn_nse.py b/src/skmultiflow/meta/learn_nse.py
index 952e460..e6230e6 100644
--- a/src/skmultiflow/meta/learn_nse.py
+++ b/src/skmultiflow/meta/learn_nse.py
@@ -108,7 +108,7 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self.X_batch = []
         self.y_batch = []
         self.instance_weights = []
-        self.base_estimator = cp.deepcopy(base_estimator)
+        self.base_estimator = base_estimator
         self.classes = None
 
     @staticmethod
-- 
2.43.0


From b0c881e7e4e1e8b1baaeb24e1ed010935318c7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:33 +0000
Subject: [PATCH 096/107] fix: StreamingRandomPatchesClassifier can be cloned:
 nominal_attributes reads back as given

---
 src/skmultiflow/meta/streaming_random_patches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index a8c6ec7..2c0ad02 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -168,7 +168,7 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         self.disable_background_learner = disable_background_learner
         # Single option (accuracy) for drift detection criteria. Could be extended in the future.
         self.drift_detection_criteria = 'accuracy'
-        self.nominal_attributes = nominal_attributes if nominal_attributes else []
+        self.nominal_attributes = nominal_attributes
         self.random_state = random_state
         # self._random_state is the actual object used internally
         self._random_state = check_random_state(self.random_state)
-- 
2.43.0


From 2c2f3433c94f96ae5c3b08979b5b6abd8abcf086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:03 +0000
Subject: [PATCH 097/107] fix: StreamingRandomPatchesClassifier keeps its
 training_method parameter when it falls back to resampling

---
 .../meta/streaming_random_patches.py          | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index 2c0ad02..461cffe 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -231,7 +231,7 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
 
             # Train using random subspaces without resampling,
             # i.e. all instances are used for training.
-            if self.training_method == self._TRAIN_RANDOM_SUBSPACES:
+            if self._training_method == self._TRAIN_RANDOM_SUBSPACES:
                 self.ensemble[i].partial_fit(X=X, y=y, classes=classes,
                                              sample_weight=np.asarray([1.]),
                                              n_samples_seen=self._n_samples_seen,
@@ -324,8 +324,9 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         # Select the size of k, which depends on 2 parameters:
         # subspace_size and subspace_mode
         k = self.subspace_size
+        self._training_method = self.training_method
 
-        if self.training_method != self._TRAIN_RESAMPLING:
+        if self._training_method != self._TRAIN_RESAMPLING:
             # This only applies to subspaces and random patches options
             if self.subspace_mode == self._FEATURES_SQRT:
                 k = int(np.round(np.sqrt(n_features)) + 1)
@@ -344,8 +345,8 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         # Generate subspaces. The subspaces is a 2D matrix of shape
         # (n_estimators, k) where each row contains the k feature indices
         # to be used by each estimator.
-        if self.training_method == self._TRAIN_RANDOM_SUBSPACES or \
-                self.training_method == self._TRAIN_RANDOM_PATCHES:
+        if self._training_method == self._TRAIN_RANDOM_SUBSPACES or \
+                self._training_method == self._TRAIN_RANDOM_PATCHES:
             if k != 0 and k < n_features:
                 # For low dimensionality it is better to avoid more than
                 # 1 classifier with the same subspace, thus we generate all
@@ -378,7 +379,7 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
             # k == 0 or k > n_features (subspace size is larger than the
             # number of features), then default to re-sampling
             else:
-                self.training_method = self._TRAIN_RESAMPLING
+                self._training_method = self._TRAIN_RESAMPLING
 
         # Reset the base estimator for safety.
         self.base_estimator.reset()
@@ -394,16 +395,16 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         performance_evaluator = self._base_performance_evaluator
 
         subspace_indexes = np.arange(self.n_estimators)
-        if self.training_method == self._TRAIN_RANDOM_PATCHES or \
-                self.training_method == self._TRAIN_RANDOM_SUBSPACES:
+        if self._training_method == self._TRAIN_RANDOM_PATCHES or \
+                self._training_method == self._TRAIN_RANDOM_SUBSPACES:
             # Shuffle indexes that match subspaces with members of the ensemble
             self._random_state.shuffle(subspace_indexes)
         for i in range(self.n_estimators):
             # When self.training_method == self._TRAIN_RESAMPLING
             features_indexes = None
             # Otherwise set feature indexes
-            if self.training_method == self._TRAIN_RANDOM_PATCHES or \
-                    self.training_method == self._TRAIN_RANDOM_SUBSPACES:
+            if self._training_method == self._TRAIN_RANDOM_PATCHES or \
+                    self._training_method == self._TRAIN_RANDOM_SUBSPACES:
                 features_indexes = self._subspaces[subspace_indexes[i]]
             self.ensemble.append(base_learner_class(
                 idx_original=i,
-- 
2.43.0


From eb0dd89e4f9452020a20db1850340c632fa54c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:56 +0000
Subject: [PATCH 098/107] fix: WindowedStandardScaler treats a constant column
 as constant despite rounding

---
 src/skmultiflow/transform/windowed_standard_scaler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/transform/windowed_standard_scaler.py b/src/skmultiflow/transform/windowed_standard_scaler.py
index c306bea..b21be40 100644
--- a/src/skmultiflow/transform/windowed_standard_scaler.py
+++ b/src/skmultiflow/transform/windowed_standard_scaler.py
@@ -58,7 +58,9 @@ class WindowedStandardScaler(StreamTransform):
     def _get_std(self, column_index):
         std = 1.
         if not self.window.is_empty():
-            std = np.nanstd(np.array(self.window.get_queue())[:, column_index])
+            column = np.array(self.window.get_queue())[:, column_index]
+            # The deviation of a constant column may be a rounding error instead of 0
+            std = np.nanstd(column) if np.nanmin(column) != np.nanmax(column) else 0.
         if(std == 0.):
             std = 1.
         return std
-- 
2.43.0


From cfcd5eed9b8e20eaf46aa5f6fa239784c6e430b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:48 +0000
Subject: [PATCH 099/107] fix: HoeffdingAdaptiveTreeClassifier keeps working
 with deactivated leaves below a split

---
 src/skmultiflow/trees/_nodes/__init__.py      |  4 +-
 src/skmultiflow/trees/_nodes/hatc_nodes.py    | 48 ++++++++++++++++++-
 .../trees/hoeffding_adaptive_tree.py          |  4 +-
 3 files changed, 52 insertions(+), 4 deletions(-)

diff --git a/src/skmultiflow/trees/_nodes/__init__.py b/src/skmultiflow/trees/_nodes/__init__.py
index 5cf71d8..ceffd0e 100644
--- a/src/skmultiflow/trees/_nodes/__init__.py
+++ b/src/skmultiflow/trees/_nodes/__init__.py
@@ -19,6 +19,7 @@ from .htc_nodes import ActiveLearningNodeNBA
 from .hatc_nodes import AdaNode
 from .hatc_nodes import AdaSplitNode
 from .hatc_nodes import AdaLearningNode
+from .hatc_nodes import InactiveAdaLearningNode
 # Adaptive Random Forest classifier nodes
 from .arf_htc_nodes import RandomActiveLearningNodeMC
 from .arf_htc_nodes import RandomActiveLearningNodeNB
@@ -60,7 +61,8 @@ from .sst_htr_nodes import SSTInactiveLearningNodeAdaptive
 __all__ = ["FoundNode", "Node", "SplitNode", "LearningNode", "ActiveLeaf", "InactiveLeaf",
            "AdaNode", "ActiveLearningNodeMC", "InactiveLearningNodeMC", "ActiveLearningNodeNB",
            "ActiveLearningNodeNBA", "RandomActiveLearningNodeMC", "RandomActiveLearningNodeNB",
-           "RandomActiveLearningNodeNBA", "AdaSplitNode", "AdaLearningNode", "EFDTSplitNode",
+           "RandomActiveLearningNodeNBA", "AdaSplitNode", "AdaLearningNode",
+           "InactiveAdaLearningNode", "EFDTSplitNode",
            "EFDTActiveLearningNodeMC", "EFDTInactiveLearningNodeMC", "EFDTActiveLearningNodeNB",
            "EFDTActiveLearningNodeNBA", "LCActiveLearningNodeMC", "LCInactiveLearningNodeMC",
            "LCActiveLearningNodeNB", "LCActiveLearningNodeNBA", "ActiveLearningNodeMean",
diff --git a/src/skmultiflow/trees/_nodes/hatc_nodes.py b/src/skmultiflow/trees/_nodes/hatc_nodes.py
index 262510a..8cc9e11 100644
--- a/src/skmultiflow/trees/_nodes/hatc_nodes.py
+++ b/src/skmultiflow/trees/_nodes/hatc_nodes.py
@@ -9,7 +9,7 @@ from skmultiflow.trees._attribute_test import NominalAttributeMultiwayTest
 from .base import FoundNode
 from .base import SplitNode
 from .base import ActiveLeaf, InactiveLeaf
-from .htc_nodes import ActiveLearningNodeNBA
+from .htc_nodes import ActiveLearningNodeNBA, InactiveLearningNodeMC
 
 
 class AdaNode(metaclass=ABCMeta):
@@ -147,6 +147,52 @@ class AdaLearningNode(ActiveLearningNodeNBA, AdaNode):
         found_nodes.append(FoundNode(self, parent, parent_branch))
 
 
+class InactiveAdaLearningNode(InactiveLearningNodeMC, AdaNode):
+    """ Inactive learning node for Hoeffding Adaptive Tree.
+
+    Only tracks the class observations and the error, it never splits.
+
+    Parameters
+    ----------
+    initial_stats: dict (class_value, weight) or None
+        Initial class observations
+
+    """
+    def __init__(self, initial_stats=None):
+        super().__init__(initial_stats)
+        self._adwin = ADWIN()
+
+    @property
+    def n_leaves(self):
+        return 1
+
+    @property
+    def error_estimation(self):
+        return self._adwin.estimation
+
+    @property
+    def error_width(self):
+        return self._adwin.width
+
+    def error_is_null(self):
+        return self._adwin is None
+
+    def kill_tree_children(self, hat):
+        pass
+
+    def learn_one(self, X, y, weight=1.0, tree=None, parent=None, parent_branch=-1):
+        is_correct = (y == get_max_value_key(self.predict_one(X, tree=tree)))
+        self._adwin.add_element(0.0 if is_correct else 1.0)
+        super().learn_one(X, y, weight=weight, tree=tree)
+
+    # Override AdaNode
+    def filter_instance_to_leaves(self, X, y, weight, parent, parent_branch,
+                                  update_splitter_counts, found_nodes=None):
+        if found_nodes is None:
+            found_nodes = []
+        found_nodes.append(FoundNode(self, parent, parent_branch))
+
+
 class AdaSplitNode(SplitNode, AdaNode):
     """ Node that splits the data in a Hoeffding Adaptive Tree.
 
diff --git a/src/skmultiflow/trees/hoeffding_adaptive_tree.py b/src/skmultiflow/trees/hoeffding_adaptive_tree.py
index 18de40c..536f34c 100644
--- a/src/skmultiflow/trees/hoeffding_adaptive_tree.py
+++ b/src/skmultiflow/trees/hoeffding_adaptive_tree.py
@@ -4,8 +4,8 @@ from skmultiflow.trees import HoeffdingTreeClassifier
 from skmultiflow.utils import add_dict_values
 
 from ._nodes import InactiveLeaf
-from ._nodes import InactiveLearningNodeMC
 from ._nodes import AdaLearningNode
+from ._nodes import InactiveAdaLearningNode
 from ._nodes import AdaSplitNode
 
 import warnings
@@ -219,7 +219,7 @@ class HoeffdingAdaptiveTreeClassifier(HoeffdingTreeClassifier):
         if is_active:
             return AdaLearningNode(initial_class_observations, self.random_state)
         else:
-            return InactiveLearningNodeMC(initial_class_observations)
+            return InactiveAdaLearningNode(initial_class_observations)
 
     # Override HoeffdingTreeClassifier
     def _new_split_node(self, split_test, class_observations):
-- 
2.43.0


From 71b16854699640d664a67e29072d800c8756a346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:48 +0000
Subject: [PATCH 100/107] fix: HoeffdingAdaptiveTreeClassifier alternate tree
 grows aside until it is better

---
 src/skmultiflow/trees/_nodes/hatc_nodes.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/skmultiflow/trees/_nodes/hatc_nodes.py b/src/skmultiflow/trees/_nodes/hatc_nodes.py
index 8cc9e11..10fc5f1 100644
--- a/src/skmultiflow/trees/_nodes/hatc_nodes.py
+++ b/src/skmultiflow/trees/_nodes/hatc_nodes.py
@@ -288,16 +288,18 @@ class AdaSplitNode(SplitNode, AdaNode):
                         # Switch tree root
                         tree._tree_root = tree._tree_root._alternate_tree
                     tree.switch_alternate_trees_cnt += 1
+                    # This node is no longer part of the tree
+                    self._alternate_tree.learn_one(X, y, weight, tree, parent, parent_branch)
+                    return
                 elif bound < alt_error_rate - old_error_rate:
                     if isinstance(self._alternate_tree, SplitNode):
                         self._alternate_tree.kill_tree_children(tree)
-                    else:
-                        self._alternate_tree = None
+                    self._alternate_tree = None
                     tree.pruned_alternate_trees_cnt += 1  # hat.pruned_alternate_trees_cnt to check
 
         # Learn one sample in alternate tree and child nodes
         if self._alternate_tree is not None:
-            self._alternate_tree.learn_one(X, y, weight, tree, parent, parent_branch)
+            self._alternate_tree.learn_one(X, y, weight, tree, self, -999)
         child_branch = self.instance_child_index(X)
         child = self.get_child(child_branch)
         if child is not None:
@@ -314,11 +316,19 @@ class AdaSplitNode(SplitNode, AdaNode):
             )
             self.set_child(branch_id, leaf_node)
             tree._active_leaf_node_cnt += 1
-            leaf_node.learn_one(X, y, weight, tree, parent, parent_branch)
+            leaf_node.learn_one(X, y, weight, tree, self, branch_id)
 
     def predict_one(self, X, *, tree=None):
         return self.stats
 
+    # Override SplitNode
+    def set_child(self, index, node):
+        if index == -999:
+            # The alternate tree hangs on this node but it is not one of its branches
+            self._alternate_tree = node
+        else:
+            super().set_child(index, node)
+
     # Override AdaNode
     def kill_tree_children(self, tree):
         for child in self._children.values():
-- 
2.43.0


From 6af622fdb4b548f831bb6f247f84898c42b52028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:13 +0000
Subject: [PATCH 101/107] fix: HoeffdingAdaptiveTreeClassifier answers from the
 split node for unseen nominal values

---
 src/skmultiflow/trees/_nodes/hatc_nodes.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/skmultiflow/trees/_nodes/hatc_nodes.py b/src/skmultiflow/trees/_nodes/hatc_nodes.py
index 10fc5f1..a43f56d 100644
--- a/src/skmultiflow/trees/_nodes/hatc_nodes.py
+++ b/src/skmultiflow/trees/_nodes/hatc_nodes.py
@@ -359,13 +359,13 @@ class AdaSplitNode(SplitNode, AdaNode):
             except KeyError:
                 self.stats[y] = weight
         child_index = self.instance_child_index(X)
-        if child_index >= 0:
-            child = self.get_child(child_index)
-            if child is not None:
-                child.filter_instance_to_leaves(X, y, weight, parent, parent_branch,
-                                                update_splitter_counts, found_nodes)
-            else:
-                found_nodes.append(FoundNode(None, self, child_index))
+        child = self.get_child(child_index)
+        if child is not None:
+            child.filter_instance_to_leaves(X, y, weight, parent, parent_branch,
+                                            update_splitter_counts, found_nodes)
+        else:
+            # Categorical value previously unseen by this split node
+            found_nodes.append(FoundNode(None, self, parent_branch))
         if self._alternate_tree is not None:
             self._alternate_tree.filter_instance_to_leaves(X, y, weight, self, -999,
                                                            update_splitter_counts, found_nodes)
-- 
2.43.0


From be223a1273114d5f796b40afbcdeff10287a77a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:36 +0000
Subject: [PATCH 102/107] fix: BatchIncremental forwards the parameters its
 replacement has

---
 src/skmultiflow/meta/batch_incremental.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/meta/batch_incremental.py b/src/skmultiflow/meta/batch_incremental.py
index da629ca..688b87a 100644
--- a/src/skmultiflow/meta/batch_incremental.py
+++ b/src/skmultiflow/meta/batch_incremental.py
@@ -9,12 +9,15 @@ from sklearn.tree import DecisionTreeClassifier
 import warnings
 
 
-def BatchIncremental(nominal_attributes=None):     # pragma: no cover
+def BatchIncremental(base_estimator=DecisionTreeClassifier(), window_size=100,
+                     n_estimators=100):     # pragma: no cover
     warnings.warn(
         "'BatchIncremental' has been renamed to 'BatchIncrementalClassifier' in v0.5.0.\n"
         "The old name will be removed in v0.7.0",
         category=FutureWarning)
-    return BatchIncrementalClassifier(nominal_attributes=nominal_attributes)
+    return BatchIncrementalClassifier(base_estimator=base_estimator,
+                                      window_size=window_size,
+                                      n_estimators=n_estimators)
 
 
 class BatchIncrementalClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
-- 
2.43.0


From 76e96e53313c7794a12daa4fa9a819a50b1c4902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:57 +0000
Subject: [PATCH 103/107] fix: RegressorMixin.score does not need a private
 module sklearn has dropped

---
 src/skmultiflow/core/base.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/skmultiflow/core/base.py b/src/skmultiflow/core/base.py
index 824eac1..e7e5fa1 100644
--- a/src/skmultiflow/core/base.py
+++ b/src/skmultiflow/core/base.py
@@ -617,11 +617,9 @@ class RegressorMixin(metaclass=ABCMeta):
         """
 
         from sklearn.metrics import r2_score
-        from sklearn.metrics.regression import _check_reg_targets
         y_pred = self.predict(X)
         # XXX: Remove the check in 0.23
-        y_type, _, _, _ = _check_reg_targets(y, y_pred, None)
-        if y_type == 'continuous-multioutput':
+        if np.ndim(y) == 2 and np.shape(y)[1] > 1:
             warnings.warn("The default value of multioutput (not exposed in "
                           "score method) will change from 'variance_weighted' "
                           "to 'uniform_average' in 0.23 to keep consistent "
-- 
2.43.0


From 5158cb63d56928c5ecb9a216c8ff8b5c5916a900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:55 +0000
Subject: [PATCH 104/107] fix: VeryFastDecisionRulesClassifier with FOIL gain
 never exceeds max_rules

---
 src/skmultiflow/rules/very_fast_decision_rules.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skmultiflow/rules/very_fast_decision_rules.py b/src/skmultiflow/rules/very_fast_decision_rules.py
index c7d64aa..29d1d4c 100644
--- a/src/skmultiflow/rules/very_fast_decision_rules.py
+++ b/src/skmultiflow/rules/very_fast_decision_rules.py
@@ -590,6 +590,8 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
                 expand_criterion = FoilGainExpandCriterion()
                 should_expand = False
                 for class_idx in self.default_rule.observed_class_distribution.keys():
+                    if len(self.rule_set) >= self.max_rules:
+                        break
                     best_expand_suggestions = self.default_rule.get_best_expand_suggestion(expand_criterion, class_idx)
                     best_expand_suggestions.sort(key=attrgetter('merit'))
                     if len(best_expand_suggestions) < 2:
-- 
2.43.0


From 70c786b02cba430102cf9353c3a163cabc55a2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:26 +0000
Subject: [PATCH 105/107] fix: GaussianEstimator without spread reports its
 weight below and above a value the right way round

---
 src/skmultiflow/trees/gaussian_estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/gaussian_estimator.py b/src/skmultiflow/trees/gaussian_estimator.py
index 1b6c286..62c6d22 100644
--- a/src/skmultiflow/trees/gaussian_estimator.py
+++ b/src/skmultiflow/trees/gaussian_estimator.py
@@ -86,7 +86,7 @@ class GaussianEstimator(object):
             lessthan_weight = normal_probability((value - mean) / std_dev) * self._weight_sum \
                 - equalto_weight
         else:
-            if value < mean:
+            if value > mean:
                 lessthan_weight = self._weight_sum - equalto_weight
             else:
                 lessthan_weight = 0.0
-- 
2.43.0


From 5d6162b81e70e259182923cf43da8a88893e2bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:39 +0000
Subject: [PATCH 106/107] fix: EvaluatePrequentialDelayed reports its results
 when fewer labels than n_wait arrive

---
 src/skmultiflow/evaluation/evaluate_prequential_delayed.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
index 75f81ad..5f387ad 100644
--- a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
+++ b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
@@ -331,7 +331,7 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
                                                                  y_pred_delayed[j][i])
             self._check_progress(self.actual_max_samples)
             if ((self.global_sample_count % self.n_wait) == 0 or
-                    (self.global_sample_count >= self.max_samples) or
+                    (self.global_sample_count >= self.actual_max_samples) or
                     (self.global_sample_count / self.n_wait > self.update_count + 1)):
                 if y_pred_delayed is not None:
                     self._update_metrics()
@@ -489,6 +489,10 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
 
             self._end_time = timer()
 
+        if self.update_count == 0:
+            # fewer labels than n_wait: report the results before the summary
+            self._update_metrics()
+
         # Flush file buffer, in case it contains data
         self._flush_file_buffer()
 
-- 
2.43.0


From b471cb41b5b064e8ff71472e4e9824f0d2d662ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:43 +0000
Subject: [PATCH 107/107] fix: ExtremelyFastDecisionTreeClassifier learns from
 samples with a nominal value not seen at the split

---
 src/skmultiflow/trees/extremely_fast_decision_tree.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/skmultiflow/trees/extremely_fast_decision_tree.py b/src/skmultiflow/trees/extremely_fast_decision_tree.py
index 38a013a..741115f 100755
--- a/src/skmultiflow/trees/extremely_fast_decision_tree.py
+++ b/src/skmultiflow/trees/extremely_fast_decision_tree.py
@@ -6,6 +6,7 @@ from skmultiflow.utils import get_dimensions
 
 from ._split_criterion import GiniSplitCriterion
 from ._split_criterion import InfoGainSplitCriterion
+from ._attribute_test import NominalAttributeMultiwayTest
 from ._nodes import ActiveLeaf
 from ._nodes import LearningNode
 from ._nodes import EFDTSplitNode
@@ -341,6 +342,16 @@ class ExtremelyFastDecisionTreeClassifier(HoeffdingTreeClassifier):
         if isinstance(leaf_node, LearningNode):
             learning_node = leaf_node
             learning_node.learn_one(X, y, weight=weight, tree=self)
+        # Split node encountered a previously unseen categorical value
+        # (in a multi-way test)
+        elif isinstance(leaf_node.split_test, NominalAttributeMultiwayTest):
+            learning_node = self._new_learning_node()
+            branch_id = leaf_node.split_test.add_new_branch(
+                X[leaf_node.split_test.get_atts_test_depends_on()[0]]
+            )
+            leaf_node.set_child(branch_id, learning_node)
+            self._active_leaf_node_cnt += 1
+            learning_node.learn_one(X, y, weight=weight, tree=self)
 
         if self._train_weight_seen_by_model % self.memory_estimate_period == 0:
             self._estimate_model_byte_size()
-- 
2.43.0

