From 31ad1759b0eb207ef852d209d978cf63d9634665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:46 +0000
Subject: [PATCH 01/68] fix: ADWIN.get_change reports the outcome of the last
 check

detected_change stored the flag in a local variable, so get_change always returned False.
---
 src/skmultiflow/drift_detection/adwin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/drift_detection/adwin.py b/src/skmultiflow/drift_detection/adwin.py
index 9ca59db..0819ef2 100644
--- a/src/skmultiflow/drift_detection/adwin.py
+++ b/src/skmultiflow/drift_detection/adwin.py
@@ -293,7 +293,7 @@ class ADWIN(BaseDriftDetector):
         """
         bln_change = False
         bln_exit = False
-        bln_bucket_deleted = False
+        self.bln_bucket_deleted = False
         self.mint_time += 1
         n0 = 0
         if (self.mint_time % self.mint_clock == 0) and (
@@ -341,7 +341,7 @@ class ADWIN(BaseDriftDetector):
                                 and (
                                 self.__bln_cut_expression(n0, n1, u0, u1, v0, v1, abs_value,
                                                           self.delta)):
-                            bln_bucket_deleted = True  # noqa: F841
+                            self.bln_bucket_deleted = True
                             self.detect = self.mint_time
                             if self.detect == 0:
                                 self.detect = self.mint_time
-- 
2.43.0


From 6698f5edb3c1138b3e4d24544f2ae6544a654ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:33 +0000
Subject: [PATCH 02/68] fix: TemporalDataStream orders data without y, data
 frames and label-indexed weights by time

Sorting indexed DataFrames by column, failed when the target is part of the data, and
sorted the caller's timestamp buffer in place.
---
 src/skmultiflow/data/temporal_data_stream.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/skmultiflow/data/temporal_data_stream.py b/src/skmultiflow/data/temporal_data_stream.py
index 5ebdebc..291c2eb 100644
--- a/src/skmultiflow/data/temporal_data_stream.py
+++ b/src/skmultiflow/data/temporal_data_stream.py
@@ -131,19 +131,21 @@ class TemporalDataStream(DataStream):
         # if data is not ordered, order it by time
         if not ordered:
             if time is not None:
+                order = np.argsort(np.asarray(time), kind='mergesort')
                 # order data based on time
-                data = data[np.argsort(time)]
+                data = data.iloc[order] if isinstance(data, pd.DataFrame) else data[order]
                 # order y based on time
-                y = y[np.argsort(time)]
+                if y is not None:
+                    y = y.iloc[order] if isinstance(y, pd.DataFrame) else y[order]
                 # order sample_weight if available
                 if self.sample_weight is not None:
-                    self.sample_weight = self.sample_weight[np.argsort(time)]
+                    self.sample_weight = np.asarray(self.sample_weight)[order]
                 # if delay is not by time, order time and delay
                 if not isinstance(sample_delay, int):
                     # order sample_delay, check if not single delay
-                    self.sample_delay = self.sample_delay[np.argsort(time)]
+                    self.sample_delay = self.sample_delay[order]
                     # order time
-                    self.time.sort()
+                    self.time = self.time[order]
             else:
                 raise TypeError("'time' is None, data cannot be ordered.")
         super().__init__(data, y, target_idx, n_targets, cat_features, name, allow_nan)
-- 
2.43.0


From a676b10187d49a3e6379139eb14baf4d53cbd4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:47 +0000
Subject: [PATCH 03/68] fix: delayed samples keep their own weights in
 prequential delayed evaluation

TimeManager.next_sample read a column that does not exist, and samples whose label became
available were trained with the weights of the batch that had just arrived.
---
 src/skmultiflow/data/time_manager.py               | 14 ++++++++++----
 .../evaluation/evaluate_prequential_delayed.py     |  6 +++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/skmultiflow/data/time_manager.py b/src/skmultiflow/data/time_manager.py
index da38ba5..e93ca7b 100644
--- a/src/skmultiflow/data/time_manager.py
+++ b/src/skmultiflow/data/time_manager.py
@@ -75,7 +75,8 @@ class TimeManager(object):
         Returns
         -------
         tuple
-            A tuple containing the data, their true labels and predictions.
+            A tuple containing the data, their true labels, predictions and
+            weights (None if samples are not weighted).
 
         """
 
@@ -87,8 +88,13 @@ class TimeManager(object):
         X = np.array(samples["X"].values.tolist())
         y_true = np.array(samples["y_true"].values.tolist())
         y_pred = np.array(samples["y_pred"].values.tolist())
-        # return X, y_true and y_pred for the dequeued samples
-        return X, y_true, y_pred
+        # check if sample_weight are being used
+        if self._USE_SAMPLE_WEIGHT:
+            sample_weight = np.array(samples["sample_weight"].values.tolist())
+        else:
+            sample_weight = None
+        # return X, y_true, y_pred and weight for the dequeued samples
+        return X, y_true, y_pred, sample_weight
 
     def update_queue(self, X, y_true, y_pred, sample_weight, arrival_time, available_time):
         # check if weight is None to create a list
@@ -147,7 +153,7 @@ class TimeManager(object):
         y_pred = np.array(samples["y_pred"].values.tolist())
         # check if sample_weight are being used
         if self._USE_SAMPLE_WEIGHT:
-            sample_weight = np.array(samples["weight"].values.tolist())
+            sample_weight = np.array(samples["sample_weight"].values.tolist())
         else:
             sample_weight = None
         # remove samples from queue
diff --git a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
index 0488b8c..a1c6a13 100644
--- a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
+++ b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
@@ -437,8 +437,8 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
                 self.time_manager.update_timestamp(arrival_time[-1])
 
                 # get delayed samples to update model before predicting a new batch
-                X_delayed, y_true_delayed, y_pred_delayed = self.time_manager.\
-                    get_available_samples()
+                X_delayed, y_true_delayed, y_pred_delayed, sample_weight_delayed = \
+                    self.time_manager.get_available_samples()
 
                 # transpose prediction matrix to model-sample again
                 y_pred_delayed = self._transform_predictions_model(y_pred_delayed)
@@ -449,7 +449,7 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
                 # before getting new samples, update classifiers with samples
                 # that are already available
                 self._update_classifiers(X=X_delayed, y=y_true_delayed,
-                                         sample_weight=sample_weight)
+                                         sample_weight=sample_weight_delayed)
 
                 # predict samples and get predictions
                 y_pred = self._predict_samples(X)
-- 
2.43.0


From 819e8d2b7b26e1d729411b41d5f7b5e285d3d5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:31 +0000
Subject: [PATCH 04/68] fix: EvaluatePrequentialDelayed works with
 pretrain_size=0

---
 src/skmultiflow/evaluation/evaluate_prequential_delayed.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
index a1c6a13..308d73b 100644
--- a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
+++ b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
@@ -391,6 +391,7 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
             self.actual_max_samples = self.max_samples
 
         self.first_run = True
+        self.time_manager = None
         if self.pretrain_size > 0:
             print('Pre-training on {} sample(s).'.format(self.pretrain_size))
 
@@ -433,6 +434,10 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
                 X, y_true, arrival_time, available_time, sample_weight = self.stream.\
                     next_sample(self.batch_size)
 
+                # without pre-training, start at the first timestamp available
+                if self.time_manager is None:
+                    self.time_manager = TimeManager(arrival_time[-1])
+
                 # update current timestamp
                 self.time_manager.update_timestamp(arrival_time[-1])
 
@@ -469,7 +474,7 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
 
         # evaluate remaining samples in the delayed_queue
         # iterate over delay_queue while it has samples according to batch_size
-        while self.time_manager.has_more_samples():
+        while self.time_manager is not None and self.time_manager.has_more_samples():
             # get current samples to process
             X_delayed, y_true_delayed, y_pred_delayed, sample_weight = self.time_manager.\
                 next_sample(self.batch_size)
-- 
2.43.0


From 919a7e2b6dceec5390ccba1a7bb3f21bcc8873a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:32 +0000
Subject: [PATCH 05/68] fix: ConceptDriftStream keeps multi-target shape and
 its last sample matches what it delivered

---
 src/skmultiflow/data/concept_drift_stream.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/data/concept_drift_stream.py b/src/skmultiflow/data/concept_drift_stream.py
index 5ee8018..97a0a43 100644
--- a/src/skmultiflow/data/concept_drift_stream.py
+++ b/src/skmultiflow/data/concept_drift_stream.py
@@ -165,10 +165,15 @@ class ConceptDriftStream(Stream):
             self.current_sample_x[j, :] = X
             self.current_sample_y[j, :] = y
 
-        return self.current_sample_x, self.current_sample_y.flatten()
+        if self.n_targets == 1:
+            self.current_sample_y = self.current_sample_y.flatten()
+
+        return self.current_sample_x, self.current_sample_y
 
     def restart(self):
         self._random_state = check_random_state(self.random_state)
         self.sample_idx = 0
+        self.current_sample_x = None
+        self.current_sample_y = None
         self.stream.restart()
         self.drift_stream.restart()
-- 
2.43.0


From 87e72ff7fc50da9f8caa65a20bcba6ae4953cb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:12 +0000
Subject: [PATCH 06/68] fix: RegressionGenerator keeps one target row per
 sample with several targets

---
 src/skmultiflow/data/regression_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/data/regression_generator.py b/src/skmultiflow/data/regression_generator.py
index 754f3e8..fd56f7a 100644
--- a/src/skmultiflow/data/regression_generator.py
+++ b/src/skmultiflow/data/regression_generator.py
@@ -135,7 +135,7 @@ class RegressionGenerator(Stream):
                                          n_informative=self.n_informative,
                                          n_targets=self.n_targets,
                                          random_state=self._random_state)
-        self.y = np.resize(self.y, (self.y.size, self.n_targets))
+        self.y = np.resize(self.y, (self.n_samples, self.n_targets))
 
         self.target_names = ["target_" + str(i) for i in range(self.n_targets)]
         self.feature_names = ["att_num_" + str(i) for i in range(self.n_num_features)]
-- 
2.43.0


From cc5e7d27936592b2e7b733e2db8ea32be1f7f63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:12 +0000
Subject: [PATCH 07/68] fix: LEDGeneratorDrift instances do not share their
 attribute permutation

---
 src/skmultiflow/data/led_generator_drift.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skmultiflow/data/led_generator_drift.py b/src/skmultiflow/data/led_generator_drift.py
index b63222f..c70ccc0 100644
--- a/src/skmultiflow/data/led_generator_drift.py
+++ b/src/skmultiflow/data/led_generator_drift.py
@@ -81,6 +81,7 @@ class LEDGeneratorDrift(LEDGenerator):
         self.n_drift_features = n_drift_features
         self.name = "Led Generator with drift"
 
+        self._numberAttribute = np.zeros((self._TOTAL_ATTRIBUTES_INCLUDING_NOISE,), dtype=int)
         for i in range(self._TOTAL_ATTRIBUTES_INCLUDING_NOISE):
             self._numberAttribute[i] = i
 
-- 
2.43.0


From 116f9b3bc6bad86586b02f3c6339e645f4bed1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:50 +0000
Subject: [PATCH 08/68] fix: finite generators (multilabel, anomaly sine)
 report when they are exhausted

---
 src/skmultiflow/data/anomaly_sine_generator.py | 9 +++++++++
 src/skmultiflow/data/multilabel_generator.py   | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/skmultiflow/data/anomaly_sine_generator.py b/src/skmultiflow/data/anomaly_sine_generator.py
index cba101a..2866ade 100644
--- a/src/skmultiflow/data/anomaly_sine_generator.py
+++ b/src/skmultiflow/data/anomaly_sine_generator.py
@@ -141,6 +141,15 @@ class AnomalySineGenerator(Stream):
         """
         return self.n_samples - self.sample_idx
 
+    def has_more_samples(self):
+        """
+        Returns
+        -------
+        bool
+            True if there are samples remaining.
+        """
+        return self.n_remaining_samples() > 0
+
     def get_data_info(self):
         """ Retrieves minimum information from the stream
 
diff --git a/src/skmultiflow/data/multilabel_generator.py b/src/skmultiflow/data/multilabel_generator.py
index d8446f3..abdda32 100644
--- a/src/skmultiflow/data/multilabel_generator.py
+++ b/src/skmultiflow/data/multilabel_generator.py
@@ -157,3 +157,12 @@ class MultilabelGenerator(Stream):
             Number of remaining samples.
         """
         return self.n_samples - self.sample_idx
+
+    def has_more_samples(self):
+        """
+        Returns
+        -------
+        bool
+            True if there are samples remaining.
+        """
+        return self.n_remaining_samples() > 0
-- 
2.43.0


From 03b0c3fd80d129ce3aec5846752004b891c57d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:54 +0000
Subject: [PATCH 09/68] fix: classification metrics are weighted averages over
 the observed weight

---
 .../_classification_performance_evaluator.pyx   | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
index c37cbca..af785da 100644
--- a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
+++ b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
@@ -111,8 +111,8 @@ cdef class ClassificationPerformanceEvaluator:
             Accuracy.
 
         """
-        return (self.confusion_matrix.sum_diag / self.n_samples)\
-            if self.n_samples > 0 else 0.0
+        return (self.confusion_matrix.sum_diag / self._total_weight_observed)\
+            if self._total_weight_observed > 0.0 else 0.0
 
     @property
     def total_weight_observed(self):
@@ -154,8 +154,8 @@ cdef class ClassificationPerformanceEvaluator:
 
         if self._total_weight_observed > 0.0:
             for i in self.confusion_matrix.classes:
-                estimation_row = self.confusion_matrix.sum_row[i] / self.n_samples
-                estimation_col = self.confusion_matrix.sum_col[i] / self.n_samples
+                estimation_row = self.confusion_matrix.sum_row[i] / self._total_weight_observed
+                estimation_col = self.confusion_matrix.sum_col[i] / self._total_weight_observed
                 pe += estimation_row * estimation_col
             # if ill-defined, return 0.0
             return (p0 - pe) / (1.0 - pe) if pe != 1.0 else 0.0
@@ -191,8 +191,7 @@ cdef class ClassificationPerformanceEvaluator:
         cdef double p0 = self.accuracy_score()
         cdef double pe = 0.0
         if self._total_weight_observed > 0.0:
-            if self.n_samples > 0:
-                pe = self.weight_correct_no_change_classifier / self.n_samples
+            pe = self.weight_correct_no_change_classifier / self._total_weight_observed
             # if ill-defined, return 0.0
             return (p0 - pe) / (1.0 - pe) if pe != 1.0 else 0.0
         return 0.0
@@ -225,8 +224,7 @@ cdef class ClassificationPerformanceEvaluator:
         cdef double p0 = self.accuracy_score()
         cdef double pe = 0.0
         if self._total_weight_observed > 0.0:
-            if self.n_samples > 0:
-                pe = self.weight_majority_classifier / self.n_samples
+            pe = self.weight_majority_classifier / self._total_weight_observed
             # if ill-defined, return 0.0
             return (p0 - pe) / (1.0 - pe) if pe != 1.0 else 0.0
         return 0.0
@@ -533,8 +531,9 @@ cdef class WindowClassificationPerformanceEvaluator(ClassificationPerformanceEva
             self.weight_majority_classifier -= weight_remove if majority_classifier_correction == 1 else 0.0
             self.weight_correct_no_change_classifier -= \
                 weight_remove if correct_no_change_classifier_correction == 1 else 0.0
-            # Update sample count
+            # Update sample count and weight
             self.n_samples -= 1
+            self._total_weight_observed -= weight_remove
 
         self.n_samples += 1
 
-- 
2.43.0


From f409cb92a70cc02ab9588c26478af3f5ec275c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:15 +0000
Subject: [PATCH 10/68] fix: f1_score honours class_value in binary problems,
 window reset keeps n_classes

---
 .../metrics/_classification_performance_evaluator.pyx       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
index af785da..1fcf89c 100644
--- a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
+++ b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
@@ -356,10 +356,10 @@ cdef class ClassificationPerformanceEvaluator:
         cdef double total
         cdef int n_classes = self.confusion_matrix.n_classes
         cdef double sum_f1
-        if n_classes == 2:
+        if n_classes == 2 and class_value == -1:
             # Binary case
             return self._f1_per_class(1)
-        if class_value == -1 and class_value == -1:
+        elif class_value == -1:
             # Multi-class case, calculate 'macro' average
             sum_f1 = 0.0
             for i in self.confusion_matrix.classes:
@@ -565,7 +565,7 @@ cdef class WindowClassificationPerformanceEvaluator(ClassificationPerformanceEva
     def reset(self):
         """ Reset the evaluator to its initial state.
         """
-        self.__init__(window_size=self.window_size)
+        self.__init__(n_classes=self._init_n_classes, window_size=self.window_size)
 
     def get_info(self):
         """ Get (current) information about the performance evaluator.
-- 
2.43.0


From 371c26ec8bcaf1c1c36326a8a6b85115691ca537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:13 +0000
Subject: [PATCH 11/68] fix: multi-label Hamming score counts correctly
 predicted negatives, reset keeps n_labels

---
 .../_classification_performance_evaluator.pyx        | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
index 1fcf89c..0be074b 100644
--- a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
+++ b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
@@ -664,11 +664,11 @@ cdef class MultiLabelClassificationPerformanceEvaluator:
             Hamming score.
 
         """
-        try:
-            return np.sum(self.confusion_matrix.data[:,1,1]) / \
-                   (self.n_samples * self.confusion_matrix.n_labels)
-        except ZeroDivisionError:
+        if self.n_samples == 0:
             return 0.0   # ill-defined, return 0.0
+        return (np.sum(self.confusion_matrix.data[:, 0, 0])
+                + np.sum(self.confusion_matrix.data[:, 1, 1])) / \
+               (self.n_samples * self.confusion_matrix.n_labels)
 
     cpdef double hamming_loss_score(self):
         """ Hamming loss score.
@@ -740,7 +740,7 @@ cdef class MultiLabelClassificationPerformanceEvaluator:
     def reset(self):
         """ Reset the evaluator to its initial state.
         """
-        self.__init__()
+        self.__init__(n_labels=self._init_n_labels)
 
     def get_info(self):
         """ Get (current) information about the performance evaluator.
@@ -873,7 +873,7 @@ cdef class WindowMultiLabelClassificationPerformanceEvaluator(MultiLabelClassifi
     def reset(self):
         """ Reset the evaluator to its initial state.
         """
-        self.__init__(window_size=self.window_size)
+        self.__init__(n_labels=self._init_n_labels, window_size=self.window_size)
 
     def get_info(self):
         """ Get (current) information about the performance evaluator.
-- 
2.43.0


From a0bb44491a8312e3bc44064ab6dfbb0671f28f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:40 +0000
Subject: [PATCH 12/68] fix: evaluators pass the flat set of label values to
 multi-label models

---
 src/skmultiflow/evaluation/evaluate_holdout.py           | 6 +++---
 src/skmultiflow/evaluation/evaluate_prequential.py       | 9 ++++++---
 .../evaluation/evaluate_prequential_delayed.py           | 9 ++++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/skmultiflow/evaluation/evaluate_holdout.py b/src/skmultiflow/evaluation/evaluate_holdout.py
index 3814175..c18e07a 100644
--- a/src/skmultiflow/evaluation/evaluate_holdout.py
+++ b/src/skmultiflow/evaluation/evaluate_holdout.py
@@ -3,7 +3,7 @@ import warnings
 import re
 from timeit import default_timer as timer
 
-from numpy import unique
+from numpy import hstack, unique
 
 from skmultiflow.evaluation.base_evaluator import StreamEvaluator
 from skmultiflow.utils import constants, get_dimensions
@@ -266,8 +266,8 @@ class EvaluateHoldout(StreamEvaluator):
                             elif self._task_type == constants.MULTI_TARGET_CLASSIFICATION:
                                 self.running_time_measurements[i].compute_training_time_begin()
                                 self.model[i].partial_fit(
-                                    X=X, y=y, classes=unique(
-                                        self.stream.target_values))
+                                    X=X, y=y, classes=unique(hstack(
+                                        self.stream.target_values)))
                                 self.running_time_measurements[i].compute_training_time_end()
                             else:
                                 self.running_time_measurements[i].compute_training_time_begin()
diff --git a/src/skmultiflow/evaluation/evaluate_prequential.py b/src/skmultiflow/evaluation/evaluate_prequential.py
index f5db596..e621331 100644
--- a/src/skmultiflow/evaluation/evaluate_prequential.py
+++ b/src/skmultiflow/evaluation/evaluate_prequential.py
@@ -3,7 +3,7 @@ import warnings
 import re
 from timeit import default_timer as timer
 
-from numpy import unique
+from numpy import hstack, unique
 
 from skmultiflow.evaluation.base_evaluator import StreamEvaluator
 from skmultiflow.utils import constants
@@ -301,7 +301,7 @@ class EvaluatePrequential(StreamEvaluator):
                     self.running_time_measurements[i].compute_training_time_end()
                 elif self._task_type == constants.MULTI_TARGET_CLASSIFICATION:
                     self.running_time_measurements[i].compute_training_time_begin()
-                    self.model[i].partial_fit(X=X, y=y, classes=unique(self.stream.target_values))
+                    self.model[i].partial_fit(X=X, y=y, classes=unique(hstack(self.stream.target_values)))
                     self.running_time_measurements[i].compute_training_time_end()
                 else:
                     self.running_time_measurements[i].compute_training_time_begin()
@@ -346,7 +346,10 @@ class EvaluatePrequential(StreamEvaluator):
                                self._task_type != constants.MULTI_TARGET_REGRESSION:
                                 # Accounts for the moment of training beginning
                                 self.running_time_measurements[i].compute_training_time_begin()
-                                self.model[i].partial_fit(X, y, self.stream.target_values)
+                                classes = self.stream.target_values
+                                if self._task_type == constants.MULTI_TARGET_CLASSIFICATION:
+                                    classes = unique(hstack(classes))
+                                self.model[i].partial_fit(X, y, classes)
                                 # Accounts the ending of training
                                 self.running_time_measurements[i].compute_training_time_end()
                             else:
diff --git a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
index 308d73b..3bdc352 100644
--- a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
+++ b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
@@ -4,7 +4,7 @@ import re
 import numpy as np
 from timeit import default_timer as timer
 
-from numpy import unique
+from numpy import hstack, unique
 
 from skmultiflow.evaluation.base_evaluator import StreamEvaluator
 from skmultiflow.utils import constants
@@ -297,7 +297,10 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
                             self._task_type != constants.MULTI_TARGET_REGRESSION:
                         # Accounts for the moment of training beginning
                         self.running_time_measurements[i].compute_training_time_begin()
-                        self.model[i].partial_fit(X=X, y=y, classes=self.stream.target_values,
+                        classes = self.stream.target_values
+                        if self._task_type == constants.MULTI_TARGET_CLASSIFICATION:
+                            classes = unique(hstack(classes))
+                        self.model[i].partial_fit(X=X, y=y, classes=classes,
                                                   sample_weight=sample_weight)
                         # Accounts the ending of training
                         self.running_time_measurements[i].compute_training_time_end()
@@ -410,7 +413,7 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
                 elif self._task_type == constants.MULTI_TARGET_CLASSIFICATION:
                     self.running_time_measurements[i].compute_training_time_begin()
                     self.model[i].partial_fit(X=X, y=y_true,
-                                              classes=unique(self.stream.target_values),
+                                              classes=unique(hstack(self.stream.target_values)),
                                               sample_weight=sample_weight)
                     self.running_time_measurements[i].compute_training_time_end()
                 else:
-- 
2.43.0


From 0772428726a1c8c47b2f4edbd0b1571b6707fab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:36 +0000
Subject: [PATCH 13/68] fix: delayed evaluation of fewer than n_wait samples
 reports its measurements

---
 src/skmultiflow/evaluation/evaluate_prequential_delayed.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
index 3bdc352..3de129e 100644
--- a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
+++ b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
@@ -490,6 +490,10 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
 
             self._end_time = timer()
 
+        # Short evaluations end before the first periodic measurement
+        if self.update_count == 0:
+            self._update_metrics()
+
         # Flush file buffer, in case it contains data
         self._flush_file_buffer()
 
-- 
2.43.0


From a5a80840da9e67d96a75af9a251b5e84fc99d8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:27 +0000
Subject: [PATCH 14/68] fix: confusion matrices grow for new classes and refuse
 to remove unknown cells

---
 src/skmultiflow/utils/data_structures.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/utils/data_structures.py b/src/skmultiflow/utils/data_structures.py
index 9d64e2d..1505939 100644
--- a/src/skmultiflow/utils/data_structures.py
+++ b/src/skmultiflow/utils/data_structures.py
@@ -430,7 +430,7 @@ class ConfusionMatrix(object):
             if (0 <= i < m) and (0 <= j < n):
                 return self._update(i, j, weight)
             else:
-                new_size = np.max(i, j) + 1
+                new_size = max(i, j) + 1
                 if new_size <= m:
                     return False
                 else:
@@ -465,7 +465,7 @@ class ConfusionMatrix(object):
             return False
 
         m, n = self.confusion_matrix.shape
-        if (i <= m) and (i >= 0) and (j <= n) and (j >= 0):
+        if (i < m) and (i >= 0) and (j < n) and (j >= 0):
             return self._remove(i, j)
 
         else:
@@ -715,7 +715,7 @@ class MOLConfusionMatrix(object):
         if true is None or pred is None or target is None:
             return False
         m, n, p = self.confusion_matrix.shape
-        if (target <= m) and (target >= 0) and (true <= n) and (true >= 0) and (pred >= 0) and (pred <= p):
+        if (target < m) and (target >= 0) and (true < n) and (true >= 0) and (pred >= 0) and (pred < p):
             return self._remove(target, true, pred)
         else:
             return False
-- 
2.43.0


From bf5edf7781aa7b62a8e4d0320a1a46c489d5e125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:24 +0000
Subject: [PATCH 15/68] fix: header removal keeps directories and dots of the
 file name

---
 src/skmultiflow/utils/file_scripts.py | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/skmultiflow/utils/file_scripts.py b/src/skmultiflow/utils/file_scripts.py
index 3f012e8..a12321a 100644
--- a/src/skmultiflow/utils/file_scripts.py
+++ b/src/skmultiflow/utils/file_scripts.py
@@ -1,3 +1,6 @@
+import os
+
+
 def clean_header(base_file, new_file=None, ignore_char='#'):
     """ clean_header
     
@@ -25,14 +28,8 @@ def clean_header(base_file, new_file=None, ignore_char='#'):
     if new_file is not None:
         nf = new_file
     else:
-        path = base_file.split(".")
-        base_path = path[0]
-        if len(path) > 1:
-            file_type = path[1]
-        else:
-            file_type = None
-        base_path += '_no_header'
-        nf = base_path + '.' + file_type if file_type is not None else base_path
+        base_path, file_type = os.path.splitext(base_file)
+        nf = base_path + '_no_header' + file_type
 
     # Clean the file
     with open(base_file, 'r') as in_file:
@@ -85,14 +82,8 @@ class RemoveHeader(object):
         if new_file is not None:
             self.new_file = new_file
         else:
-            path = self.base_file.split(".")
-            base_path = path[0]
-            if len(path) > 1:
-                file_type = path[1]
-            else:
-                file_type = None
-            base_path += '_no_header'
-            self.new_file = base_path + '.' + file_type if file_type is not None else base_path
+            base_path, file_type = os.path.splitext(self.base_file)
+            self.new_file = base_path + '_no_header' + file_type
 
     def get_info(self):
         info = type(self).__name__ + ':'
-- 
2.43.0


From cc6eabbe9eca4c26ec3ddf906d75a0aa3dac80f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:35 +0000
Subject: [PATCH 16/68] fix: OneHotToCategorical keeps the columns after the
 last categorical group

---
 src/skmultiflow/transform/one_hot_to_categorical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/transform/one_hot_to_categorical.py b/src/skmultiflow/transform/one_hot_to_categorical.py
index 3ffcb29..43892d6 100644
--- a/src/skmultiflow/transform/one_hot_to_categorical.py
+++ b/src/skmultiflow/transform/one_hot_to_categorical.py
@@ -57,7 +57,8 @@ class OneHotToCategorical(StreamTransform):
         i = 0
         new_i = 0
         while i < X.size:
-            if i in self.categorical_list[list_index]:
+            if list_index < len(self.categorical_list) \
+                    and i in self.categorical_list[list_index]:
                 c = 0
                 found = False
                 for j in range(len(self.categorical_list[list_index])):
-- 
2.43.0


From 3958a687b0309465d94ff0e5455cdb95b40eae5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:15 +0000
Subject: [PATCH 17/68] fix: windowed scalers transform a copy and leave the
 caller's data alone

---
 src/skmultiflow/transform/windowed_minmax_scaler.py   | 1 +
 src/skmultiflow/transform/windowed_standard_scaler.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/skmultiflow/transform/windowed_minmax_scaler.py b/src/skmultiflow/transform/windowed_minmax_scaler.py
index d6cad88..86e965f 100644
--- a/src/skmultiflow/transform/windowed_minmax_scaler.py
+++ b/src/skmultiflow/transform/windowed_minmax_scaler.py
@@ -38,6 +38,7 @@ class WindowedMinmaxScaler(StreamTransform):
             The sample or set of samples that should be transformed.
 
         """
+        X = np.array(X, dtype=float)
         r, c = get_dimensions(X)
         for i in range(r):
             row = np.copy([X[i][:]])
diff --git a/src/skmultiflow/transform/windowed_standard_scaler.py b/src/skmultiflow/transform/windowed_standard_scaler.py
index 33910f5..748cdd0 100644
--- a/src/skmultiflow/transform/windowed_standard_scaler.py
+++ b/src/skmultiflow/transform/windowed_standard_scaler.py
@@ -36,6 +36,7 @@ class WindowedStandardScaler(StreamTransform):
             The sample or set of samples that should be transformed.
 
         """
+        X = np.array(X, dtype=float)
         r, c = get_dimensions(X)
         for i in range(r):
             row = np.copy([X[i][:]])
-- 
2.43.0


From 52cd2757d9b16b7e4d1b0533347e6354e04c38a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:58 +0000
Subject: [PATCH 18/68] fix: Pipeline skips None steps and accepts the stream
 transforms

---
 src/skmultiflow/core/pipeline.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/skmultiflow/core/pipeline.py b/src/skmultiflow/core/pipeline.py
index cbe19c7..63cbbf1 100644
--- a/src/skmultiflow/core/pipeline.py
+++ b/src/skmultiflow/core/pipeline.py
@@ -128,7 +128,7 @@ class Pipeline(BaseSKMObject):
         Xt = X
         for name, transform in self.steps[:-1]:
             if transform is None:
-                pass
+                continue
             if hasattr(transform, "fit_transform"):
                 Xt = transform.fit_transform(Xt, y)
             else:
@@ -166,11 +166,11 @@ class Pipeline(BaseSKMObject):
         Xt = X
         for name, transform in self.steps[:-1]:
             if transform is None:
-                pass
-            if hasattr(transform, 'fit_transform'):
-                Xt = transform.partial_fit_transform(Xt, y, classes=classes)
+                continue
+            if hasattr(transform, 'partial_fit_transform'):
+                Xt = transform.partial_fit_transform(Xt, y)
             else:
-                Xt = transform.partial_fit(Xt, y, classes=classes).transform(Xt)
+                Xt = transform.partial_fit(Xt, y).transform(Xt)
 
         if self._final_estimator is not None:
             if "classes" in self._final_estimator.partial_fit.__code__.co_varnames:
@@ -202,7 +202,7 @@ class Pipeline(BaseSKMObject):
         Xt = X
         for name, transform in self.steps[:-1]:
             if transform is None:
-                pass
+                continue
             if hasattr(transform, "partial_fit_transform"):
                 Xt = transform.partial_fit_transform(Xt, y)
             else:
@@ -260,7 +260,9 @@ class Pipeline(BaseSKMObject):
             if t is None:
                 continue
             else:
-                if not (hasattr(t, "fit") or hasattr(t, "fit_transform")) \
+                if not (hasattr(t, "fit") or hasattr(t, "fit_transform")
+                        or hasattr(t, "partial_fit")
+                        or hasattr(t, "partial_fit_transform")) \
                         or not hasattr(t, "transform"):
                     self.active = False
                     raise TypeError("All intermediate steps, including an evaluator, "
-- 
2.43.0


From 5db0439ee020763a049aa0f5e2789e7443b76394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:55 +0000
Subject: [PATCH 19/68] fix: MissingValuesCleaner imputes from the observed
 values of the window only, on a copy

---
 .../transform/missing_values_cleaner.py       | 33 ++++++++++++-------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/skmultiflow/transform/missing_values_cleaner.py b/src/skmultiflow/transform/missing_values_cleaner.py
index bcb9cae..80c6bdd 100644
--- a/src/skmultiflow/transform/missing_values_cleaner.py
+++ b/src/skmultiflow/transform/missing_values_cleaner.py
@@ -97,16 +97,25 @@ class MissingValuesCleaner(StreamTransform):
             The sample or set of samples that should be transformed.
         
         """
+        X = np.array(X, dtype=float)
         r, c = get_dimensions(X)
+        missing = self._is_missing(X)
         for i in range(r):
             if self.strategy in ['mean', 'median', 'mode']:
-                self.window.add_element([X[i][:]])
+                self.window.add_element([np.where(missing[i], np.nan, X[i])])
             for j in range(c):
-                if X[i][j] in self.missing_value or np.isnan(X[i][j]):
+                if missing[i][j]:
                     X[i][j] = self._get_substitute(j)
 
         return X
 
+    def _is_missing(self, X):
+        return np.isnan(X) | np.isin(X, self.missing_value)
+
+    def _get_observed(self, column_index):
+        column = np.array(self.window.get_queue())[:, column_index]
+        return column[~np.isnan(column)]
+
     def _get_substitute(self, column_index):
         """ _get_substitute
         
@@ -126,19 +135,21 @@ class MissingValuesCleaner(StreamTransform):
         if self.strategy == 'zero':
             return 0
         elif self.strategy == 'mean':
-            if not self.window.is_empty():
-                return np.nanmean(np.array(self.window.get_queue())[:, column_index])
+            observed = self._get_observed(column_index)
+            if observed.size > 0:
+                return np.mean(observed)
             else:
                 return self.new_value
         elif self.strategy == 'median':
-            if not self.window.is_empty():
-                return np.nanmedian(np.array(self.window.get_queue())[:, column_index])
+            observed = self._get_observed(column_index)
+            if observed.size > 0:
+                return np.median(observed)
             else:
                 return self.new_value
         elif self.strategy == 'mode':
-            if not self.window.is_empty():
-                return stats.mode(np.array(self.window.get_queue())[:, column_index],
-                                  nan_policy='omit')[0]
+            observed = self._get_observed(column_index)
+            if observed.size > 0:
+                return stats.mode(observed, axis=None)[0]
             else:
                 return self.new_value
         elif self.strategy == 'custom':
@@ -186,7 +197,7 @@ class MissingValuesCleaner(StreamTransform):
             self
         
         """
-        X = np.asarray(X)
+        X = np.array(X, dtype=float)
         if self.strategy in ['mean', 'median', 'mode']:
-            self.window.add_element(X)
+            self.window.add_element(np.where(self._is_missing(X), np.nan, X))
         return self
-- 
2.43.0


From 1b6426041d735bcbc3e12ba3759755bd3d3c56c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:38 +0000
Subject: [PATCH 20/68] fix: default reset works for nested objects and
 parameters without a literal repr

---
 src/skmultiflow/core/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/core/base.py b/src/skmultiflow/core/base.py
index b9e1d3a..d63b5b6 100644
--- a/src/skmultiflow/core/base.py
+++ b/src/skmultiflow/core/base.py
@@ -351,9 +351,9 @@ class BaseSKMObject(BaseEstimator):
         """
         # non-optimized default implementation; override if a better
         # method is possible for a given object
-        command = ''.join([line.strip() for line in self.__repr__().split()])
-        command = command.replace(str(self.__class__.__name__), 'self.__init__')
-        exec(command)
+        params = self.get_params(deep=False)
+        self.__init__(**{name: clone(param, safe=False) for name, param in params.items()})
+        return self
 
     def get_info(self):
         """ Collects and returns the information about the configuration of the estimator
-- 
2.43.0


From 143192c29ea4327aae8a1a775a92546d307fbaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:17 +0000
Subject: [PATCH 21/68] fix: NaiveBayes and RSLVQ accept the classes as a numpy
 array

---
 src/skmultiflow/bayes/naive_bayes.py                            | 2 +-
 .../prototype/robust_soft_learning_vector_quantization.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/bayes/naive_bayes.py b/src/skmultiflow/bayes/naive_bayes.py
index 799bf03..9f71111 100644
--- a/src/skmultiflow/bayes/naive_bayes.py
+++ b/src/skmultiflow/bayes/naive_bayes.py
@@ -95,7 +95,7 @@ class NaiveBayes(BaseSKMObject, ClassifierMixin):
             self
 
         """
-        if not self._classes and classes is not None:
+        if self._classes is None and classes is not None:
             self._classes = classes
 
         if y is not None:
diff --git a/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py b/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
index 3ee403a..6aff0f6 100644
--- a/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
+++ b/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
@@ -177,7 +177,7 @@ class RobustSoftLearningVectorQuantization(ClassifierMixin, BaseSKMObject):
                                                     train_lab.ravel())
 
         if self.initial_fit:
-            if classes:
+            if classes is not None:
                 self.classes_ = np.asarray(classes)
                 self.protos_initialized = np.zeros(self.classes_.size)
             else:
-- 
2.43.0


From 4b2f45aa3de8124f9912802c280942ecf2e960c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:16 +0000
Subject: [PATCH 22/68] fix: ensembles give every sample of a batch its own
 weight, vote per row in AWE

---
 src/skmultiflow/meta/accuracy_weighted_ensemble.py |  2 +-
 src/skmultiflow/meta/adaptive_random_forests.py    |  2 +-
 src/skmultiflow/meta/additive_expert_ensemble.py   |  3 ++-
 src/skmultiflow/meta/batch_incremental.py          |  5 +++--
 src/skmultiflow/meta/dynamic_weighted_majority.py  |  3 ++-
 src/skmultiflow/meta/online_adac2.py               |  4 +++-
 src/skmultiflow/meta/online_boosting.py            |  4 +++-
 src/skmultiflow/meta/online_csb2.py                |  4 +++-
 src/skmultiflow/meta/online_rus_boost.py           |  4 +++-
 src/skmultiflow/meta/online_smote_bagging.py       | 12 +++++++++---
 src/skmultiflow/meta/online_under_over_bagging.py  |  4 +++-
 src/skmultiflow/meta/oza_bagging.py                |  4 +++-
 12 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/src/skmultiflow/meta/accuracy_weighted_ensemble.py b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
index a73382a..4172e0a 100644
--- a/src/skmultiflow/meta/accuracy_weighted_ensemble.py
+++ b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
@@ -287,7 +287,7 @@ class AccuracyWeightedEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEst
         if sum_weights == 0:
             sum_weights = 1  # safety check: if sum_weights = 0, do as if sum_weights = 1
 
-        weighted_votes = [dict()] * N
+        weighted_votes = [dict() for _ in range(N)]
         for model in ensemble:
             classifier = model.estimator
             prediction = classifier.predict(X)
diff --git a/src/skmultiflow/meta/adaptive_random_forests.py b/src/skmultiflow/meta/adaptive_random_forests.py
index 9c1be79..215f687 100644
--- a/src/skmultiflow/meta/adaptive_random_forests.py
+++ b/src/skmultiflow/meta/adaptive_random_forests.py
@@ -306,7 +306,7 @@ class AdaptiveRandomForestClassifier(BaseSKMObject, ClassifierMixin, MetaEstimat
 
         if y is not None:
             row_cnt, _ = get_dimensions(X)
-            weight = check_weights(weight, expand_length=row_cnt)
+            weight = check_weights(weight, expand_length=row_cnt if np.ndim(weight) == 0 else 1)
             for i in range(row_cnt):
                 if weight[i] != 0.0:
                     self._train_weight_seen_by_model += weight[i]
diff --git a/src/skmultiflow/meta/additive_expert_ensemble.py b/src/skmultiflow/meta/additive_expert_ensemble.py
index 8d35156..c409851 100644
--- a/src/skmultiflow/meta/additive_expert_ensemble.py
+++ b/src/skmultiflow/meta/additive_expert_ensemble.py
@@ -151,7 +151,8 @@ class AdditiveExpertEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
             self
         """
         for i in range(len(X)):
-            self.fit_single_sample(X[i:i + 1, :], y[i:i + 1], classes, sample_weight)
+            self.fit_single_sample(X[i:i + 1, :], y[i:i + 1], classes,
+                                   None if sample_weight is None else sample_weight[i:i + 1])
         return self
 
     def predict(self, X):
diff --git a/src/skmultiflow/meta/batch_incremental.py b/src/skmultiflow/meta/batch_incremental.py
index bcf7023..94f24ac 100644
--- a/src/skmultiflow/meta/batch_incremental.py
+++ b/src/skmultiflow/meta/batch_incremental.py
@@ -120,7 +120,7 @@ class BatchIncrementalClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMi
             # TODO not very pythonic at the moment
             self.X_batch[self.i] = X[n]
             self.y_batch[self.i] = y[n]
-            self.sample_weight[self.i] = sample_weight[n] if sample_weight else 1.0
+            self.sample_weight[self.i] = sample_weight[n] if sample_weight is not None else 1.0
 
             self.i = self.i + 1
             if self.i == self.window_size:
@@ -131,7 +131,8 @@ class BatchIncrementalClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMi
                 h = cp.deepcopy(self.base_estimator)
                 # Train it
                 if 'sample_weight' in signature(h.fit).parameters:
-                    h.fit(X=self.X_batch, y=self.y_batch.astype(int), sample_weight=sample_weight)
+                    h.fit(X=self.X_batch, y=self.y_batch.astype(int),
+                          sample_weight=self.sample_weight)
                 else:
                     h.fit(X=self.X_batch, y=self.y_batch.astype(int))
                 # Add it
diff --git a/src/skmultiflow/meta/dynamic_weighted_majority.py b/src/skmultiflow/meta/dynamic_weighted_majority.py
index b2db81a..c7817bb 100644
--- a/src/skmultiflow/meta/dynamic_weighted_majority.py
+++ b/src/skmultiflow/meta/dynamic_weighted_majority.py
@@ -148,7 +148,8 @@ class DynamicWeightedMajorityClassifier(BaseSKMObject, ClassifierMixin, MetaEsti
         """
         for i in range(len(X)):
             self.fit_single_sample(
-                X[i:i + 1, :], y[i:i + 1], classes, sample_weight
+                X[i:i + 1, :], y[i:i + 1], classes,
+                None if sample_weight is None else sample_weight[i:i + 1]
             )
         return self
 
diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index a75a0c2..789ee86 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -226,7 +226,9 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 k = self._random_state.poisson(lam)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit(
+                            [X[j]], [y[j]], classes,
+                            None if sample_weight is None else [sample_weight[j]])
                     if self.ensemble[i].predict([X[j]])[0] == 1 and y[j] == 1:
                         self.lam_tp[i] += self.cost_positive * lam
                         self.wacc[i] = (self.lam_tp[i] + self.lam_tn[i]) / self.lam_sum[i]
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index bb7fa18..28b68a1 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -212,7 +212,9 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
                 k = self._random_state.poisson(lam)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit(
+                            [X[j]], [y[j]], classes,
+                            None if sample_weight is None else [sample_weight[j]])
                     if self.ensemble[i].predict([X[j]])[0] == y[j]:
                         self.lam_sc[i] += lam
                         self.epsilon[i] = self.lam_sw[i] / (self.lam_sw[i] + self.lam_sc[i])
diff --git a/src/skmultiflow/meta/online_csb2.py b/src/skmultiflow/meta/online_csb2.py
index ea59584..2c1b01c 100644
--- a/src/skmultiflow/meta/online_csb2.py
+++ b/src/skmultiflow/meta/online_csb2.py
@@ -219,7 +219,9 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 k = self._random_state.poisson(lam)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit(
+                            [X[j]], [y[j]], classes,
+                            None if sample_weight is None else [sample_weight[j]])
                     if self.ensemble[i].predict([X[j]])[0] == y[j]:
                         self.epsilon[i] = self.lam_sw[i] / self.lam_sum[i]
                         self.werr[i] = (self.lam_fp[i] + self.lam_fn[i]) / self.lam_sum[i]
diff --git a/src/skmultiflow/meta/online_rus_boost.py b/src/skmultiflow/meta/online_rus_boost.py
index 5ebbf73..74a1128 100644
--- a/src/skmultiflow/meta/online_rus_boost.py
+++ b/src/skmultiflow/meta/online_rus_boost.py
@@ -257,7 +257,9 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
                 k = self._random_state.poisson(lam_rus)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit(
+                            [X[j]], [y[j]], classes,
+                            None if sample_weight is None else [sample_weight[j]])
                 if self.ensemble[i].predict([X[j]])[0] == y[j]:
                     self.lam_sc[i] += lam
                     self.epsilon[i] = (self.lam_sw[i]) / (self.lam_sc[i] + self.lam_sw[i])
diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index 3c0fae5..2462590 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -210,18 +210,24 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
                     k = self._random_state.poisson(lam)
                     if k > 0:
                         for b in range(k):
-                            self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                            self.ensemble[i].partial_fit(
+                                [X[j]], [y[j]], classes,
+                                None if sample_weight is None else [sample_weight[j]])
                     k_smote = self._random_state.poisson(lam_smote)
 
                     if k_smote > 0:
                         for b in range(k_smote):
                             x_smote = self.online_smote()
-                            self.ensemble[i].partial_fit([x_smote], [y[j]], classes, sample_weight)
+                            self.ensemble[i].partial_fit(
+                                [x_smote], [y[j]], classes,
+                                None if sample_weight is None else [sample_weight[j]])
                 else:
                     k = self._random_state.poisson(lam)
                     if k > 0:
                         for b in range(k):
-                            self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                            self.ensemble[i].partial_fit(
+                                [X[j]], [y[j]], classes,
+                                None if sample_weight is None else [sample_weight[j]])
 
                 if self.drift_detection:
                     try:
diff --git a/src/skmultiflow/meta/online_under_over_bagging.py b/src/skmultiflow/meta/online_under_over_bagging.py
index 7952955..681ed33 100644
--- a/src/skmultiflow/meta/online_under_over_bagging.py
+++ b/src/skmultiflow/meta/online_under_over_bagging.py
@@ -208,7 +208,9 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
                 k = self._random_state.poisson(lam)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit(
+                            [X[j]], [y[j]], classes,
+                            None if sample_weight is None else [sample_weight[j]])
 
                 if self.drift_detection:
                     try:
diff --git a/src/skmultiflow/meta/oza_bagging.py b/src/skmultiflow/meta/oza_bagging.py
index eb634a6..674204e 100644
--- a/src/skmultiflow/meta/oza_bagging.py
+++ b/src/skmultiflow/meta/oza_bagging.py
@@ -183,7 +183,9 @@ class OzaBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 k = self._random_state.poisson()
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit(
+                            [X[j]], [y[j]], classes,
+                            None if sample_weight is None else [sample_weight[j]])
         return self
 
     def __adjust_ensemble_size(self):
-- 
2.43.0


From 44cb3284d322782665a9fcdd45124904057832b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:33 +0000
Subject: [PATCH 23/68] fix: trees return themselves from partial_fit, reset
 completely and keep per-sample weights

---
 .../trees/arf_hoeffding_tree_regressor.py     |  3 ++-
 .../trees/extremely_fast_decision_tree.py     | 12 +++++-----
 .../trees/hoeffding_adaptive_tree.py          |  3 ++-
 .../hoeffding_adaptive_tree_regressor.py      | 14 ++++++------
 .../trees/hoeffding_tree_regressor.py         | 22 ++++++++++++++-----
 src/skmultiflow/trees/isoup_tree.py           | 15 +++++++++++++
 .../trees/label_combination_hoeffding_tree.py |  3 ++-
 7 files changed, 52 insertions(+), 20 deletions(-)

diff --git a/src/skmultiflow/trees/arf_hoeffding_tree_regressor.py b/src/skmultiflow/trees/arf_hoeffding_tree_regressor.py
index 4c49d0b..6ac995c 100644
--- a/src/skmultiflow/trees/arf_hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/arf_hoeffding_tree_regressor.py
@@ -118,7 +118,8 @@ class ARFHoeffdingTreeRegressor(HoeffdingTreeRegressor):
                                                       random_state=random_state)
 
     def reset(self):
-        super().reset()
+        # Trees of the forest keep the normalization statistics of the stream when they restart
+        super(HoeffdingTreeRegressor, self).reset()
         self._random_state = check_random_state(self.random_state)
 
     def new_instance(self):
diff --git a/src/skmultiflow/trees/extremely_fast_decision_tree.py b/src/skmultiflow/trees/extremely_fast_decision_tree.py
index 241684e..78fa4fc 100755
--- a/src/skmultiflow/trees/extremely_fast_decision_tree.py
+++ b/src/skmultiflow/trees/extremely_fast_decision_tree.py
@@ -212,17 +212,19 @@ class ExtremelyFastDecisionTreeClassifier(HoeffdingTreeClassifier):
         if self.classes is None and classes is not None:
             self.classes = classes
         if y is not None:
-            if sample_weight is None:
-                sample_weight = np.array([1.0])
             row_cnt, _ = get_dimensions(X)
-            wrow_cnt, _ = get_dimensions(sample_weight)
-            if row_cnt != wrow_cnt:
-                sample_weight = [sample_weight[0]] * row_cnt
+            if sample_weight is None:
+                sample_weight = np.ones(row_cnt)
+            if row_cnt != len(sample_weight):
+                raise ValueError('Inconsistent number of instances ({}) and weights ({}).'.
+                                 format(row_cnt, len(sample_weight)))
             for i in range(row_cnt):
                 if sample_weight[i] != 0.0:
                     self._train_weight_seen_by_model += sample_weight[i]
                     self._partial_fit(X[i], y[i], sample_weight[i])
 
+        return self
+
     #  Override _partial_fit
     def _partial_fit(self, X, y, sample_weight):
         """ Trains the model on samples X and corresponding targets y.
diff --git a/src/skmultiflow/trees/hoeffding_adaptive_tree.py b/src/skmultiflow/trees/hoeffding_adaptive_tree.py
index bd39fe0..610ef95 100644
--- a/src/skmultiflow/trees/hoeffding_adaptive_tree.py
+++ b/src/skmultiflow/trees/hoeffding_adaptive_tree.py
@@ -172,10 +172,11 @@ class HoeffdingAdaptiveTreeClassifier(HoeffdingTreeClassifier):
         self._tree_root = None
 
     def reset(self):
+        super().reset()
         self.alternate_trees_cnt = 0
         self.pruned_alternate_trees_cnt = 0
         self.switch_alternate_trees_cnt = 0
-        self._tree_root = None
+        return self
 
     # Override HoeffdingTreeClassifier
     def _partial_fit(self, X, y, sample_weight):
diff --git a/src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py b/src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py
index fa035e0..af1c6e8 100644
--- a/src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py
@@ -174,9 +174,10 @@ class HoeffdingAdaptiveTreeRegressor(HoeffdingTreeRegressor):
         else:
             prediction_option = self.leaf_prediction
             if prediction_option == self._TARGET_MEAN:
-                return InactiveLearningNodeMean
+                return InactiveLearningNodeMean(initial_stats)
             else:
-                return InactiveLearningNodePerceptron
+                return InactiveLearningNodePerceptron(initial_stats, parent_node,
+                                                      random_state=self.random_state)
 
     def _partial_fit(self, X, y, weight):
         """Trains the model on samples X and corresponding targets y.
@@ -198,13 +199,12 @@ class HoeffdingAdaptiveTreeRegressor(HoeffdingTreeRegressor):
         self.sum_of_values += weight * y
         self.sum_of_squares += weight * y * y
 
-        try:
-            self.sum_of_attribute_values += weight * X
-            self.sum_of_attribute_squares += weight * X * X
-        except ValueError:
-
+        if len(self.sum_of_attribute_values) == 0:
             self.sum_of_attribute_values = weight * X
             self.sum_of_attribute_squares = weight * X * X
+        else:
+            self.sum_of_attribute_values = self.sum_of_attribute_values + weight * X
+            self.sum_of_attribute_squares = self.sum_of_attribute_squares + weight * X * X
 
         if self._tree_root is None:
             self._tree_root = self._new_learning_node()
diff --git a/src/skmultiflow/trees/hoeffding_tree_regressor.py b/src/skmultiflow/trees/hoeffding_tree_regressor.py
index fb3a5e1..93436e0 100644
--- a/src/skmultiflow/trees/hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_tree_regressor.py
@@ -190,6 +190,16 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
         self.sum_of_attribute_squares = []
         self.random_state = random_state
 
+    def reset(self):
+        """Resets the Hoeffding Tree to default values."""
+        super().reset()
+        self.samples_seen = 0
+        self.sum_of_values = 0.0
+        self.sum_of_squares = 0.0
+        self.sum_of_attribute_values = []
+        self.sum_of_attribute_squares = []
+        return self
+
     @property
     def leaf_prediction(self):
         return self._leaf_prediction
@@ -332,6 +342,8 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
                     self._train_weight_seen_by_model += sample_weight[i]
                     self._partial_fit(X[i], y[i], sample_weight[i])
 
+        return self
+
     def _partial_fit(self, X, y, sample_weight):
         """Trains the model on samples X and corresponding targets y.
 
@@ -352,12 +364,12 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
         self.sum_of_values += sample_weight * y
         self.sum_of_squares += sample_weight * y * y
 
-        try:
-            self.sum_of_attribute_values += sample_weight * X
-            self.sum_of_attribute_squares += sample_weight * X * X
-        except ValueError:
+        if len(self.sum_of_attribute_values) == 0:
             self.sum_of_attribute_values = sample_weight * X
             self.sum_of_attribute_squares = sample_weight * X * X
+        else:
+            self.sum_of_attribute_values = self.sum_of_attribute_values + sample_weight * X
+            self.sum_of_attribute_squares = self.sum_of_attribute_squares + sample_weight * X * X
 
         if self._tree_root is None:
             self._tree_root = self._new_learning_node()
@@ -422,7 +434,7 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
                     predictions.append(node.stats[1] / node.stats[0])
         else:
             # Model is empty
-            predictions.append(0.0)
+            predictions = [0.0] * get_dimensions(X)[0]
         return np.asarray(predictions)
 
     def predict_proba(self, X):
diff --git a/src/skmultiflow/trees/isoup_tree.py b/src/skmultiflow/trees/isoup_tree.py
index 89e442f..f34f66f 100644
--- a/src/skmultiflow/trees/isoup_tree.py
+++ b/src/skmultiflow/trees/isoup_tree.py
@@ -197,6 +197,19 @@ class iSOUPTreeRegressor(HoeffdingTreeRegressor, MultiOutputMixin):
         # To add the n_targets property once
         self._n_targets_set = False
 
+    def reset(self):
+        """Resets the iSOUP Tree to default values."""
+        super().reset()
+        self.examples_seen = 0
+        self.sum_of_values = 0.0
+        self.sum_of_squares = 0.0
+        self.sum_of_attribute_values = 0.0
+        self.sum_of_attribute_squares = 0.0
+        self._n_targets_set = False
+        if hasattr(self, '_n_targets'):
+            del self._n_targets
+        return self
+
     @property
     def leaf_prediction(self):
         return self._leaf_prediction
@@ -367,6 +380,8 @@ class iSOUPTreeRegressor(HoeffdingTreeRegressor, MultiOutputMixin):
                     self._train_weight_seen_by_model += sample_weight[i]
                     self._partial_fit(X[i], y[i], sample_weight[i])
 
+        return self
+
     def _partial_fit(self, X, y, sample_weight):
         """Trains the model on samples X and corresponding targets y.
 
diff --git a/src/skmultiflow/trees/label_combination_hoeffding_tree.py b/src/skmultiflow/trees/label_combination_hoeffding_tree.py
index a02e0d6..2a89e07 100644
--- a/src/skmultiflow/trees/label_combination_hoeffding_tree.py
+++ b/src/skmultiflow/trees/label_combination_hoeffding_tree.py
@@ -177,7 +177,8 @@ class LabelCombinationHoeffdingTreeClassifier(HoeffdingTreeClassifier, MultiOutp
         -------
             self
             """
-        super().partial_fit(X, y, sample_weight=sample_weight)    # Override HT, infer the classes
+        # Override HT, infer the classes
+        return super().partial_fit(X, y, sample_weight=sample_weight)
 
     def predict(self, X):
         """Predicts the label of the X instance(s)
-- 
2.43.0


From c7b7b988126a06e9cc8101ac2a3683ee2cca02fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:36 +0000
Subject: [PATCH 24/68] fix: trees survive null splits with remove_poor_atts,
 inactive children and empty leaves

---
 src/skmultiflow/trees/_nodes/base.py              |  3 ++-
 src/skmultiflow/trees/_nodes/hatc_nodes.py        | 10 +++++++---
 src/skmultiflow/trees/_nodes/hatr_nodes.py        |  5 +++--
 src/skmultiflow/trees/hoeffding_tree.py           |  2 +-
 src/skmultiflow/trees/hoeffding_tree_regressor.py |  2 +-
 src/skmultiflow/trees/isoup_tree.py               |  2 +-
 6 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/skmultiflow/trees/_nodes/base.py b/src/skmultiflow/trees/_nodes/base.py
index cda330f..46e95f5 100644
--- a/src/skmultiflow/trees/_nodes/base.py
+++ b/src/skmultiflow/trees/_nodes/base.py
@@ -149,7 +149,8 @@ class Node(metaclass=ABCMeta):
         if tree._estimator_type == 'classifier':
             class_val = max(
                 self._stats,
-                key=self._stats.get
+                key=self._stats.get,
+                default=None
             )
             buffer[0] += 'Class {} | {}\n'.format(
                 class_val, self._stats
diff --git a/src/skmultiflow/trees/_nodes/hatc_nodes.py b/src/skmultiflow/trees/_nodes/hatc_nodes.py
index 262510a..78b9640 100644
--- a/src/skmultiflow/trees/_nodes/hatc_nodes.py
+++ b/src/skmultiflow/trees/_nodes/hatc_nodes.py
@@ -170,7 +170,7 @@ class AdaSplitNode(SplitNode, AdaNode):
         num_of_leaves = 0
         for child in self._children.values():
             if child is not None:
-                num_of_leaves += child.n_leaves
+                num_of_leaves += 1 if isinstance(child, InactiveLeaf) else child.n_leaves
 
         return num_of_leaves
 
@@ -254,7 +254,9 @@ class AdaSplitNode(SplitNode, AdaNode):
             self._alternate_tree.learn_one(X, y, weight, tree, parent, parent_branch)
         child_branch = self.instance_child_index(X)
         child = self.get_child(child_branch)
-        if child is not None:
+        if isinstance(child, InactiveLeaf):
+            child.learn_one(X, y, weight=weight, tree=tree)
+        elif child is not None:
             child.learn_one(X, y, weight, tree, parent=self, parent_branch=child_branch)
         # Instance contains a categorical value previously unseen by the split
         # node
@@ -305,7 +307,9 @@ class AdaSplitNode(SplitNode, AdaNode):
         child_index = self.instance_child_index(X)
         if child_index >= 0:
             child = self.get_child(child_index)
-            if child is not None:
+            if isinstance(child, InactiveLeaf):
+                found_nodes.append(FoundNode(child, self, child_index))
+            elif child is not None:
                 child.filter_instance_to_leaves(X, y, weight, parent, parent_branch,
                                                 update_splitter_counts, found_nodes)
             else:
diff --git a/src/skmultiflow/trees/_nodes/hatr_nodes.py b/src/skmultiflow/trees/_nodes/hatr_nodes.py
index cf95c25..266b4bc 100644
--- a/src/skmultiflow/trees/_nodes/hatr_nodes.py
+++ b/src/skmultiflow/trees/_nodes/hatr_nodes.py
@@ -96,8 +96,9 @@ class AdaSplitNodeRegressor(AdaSplitNode):
             self._alternate_tree.learn_one(X, y, weight, tree, parent, parent_branch)
         child_branch = self.instance_child_index(X)
         child = self.get_child(child_branch)
-
-        if child is not None:
+        if isinstance(child, InactiveLeaf):
+            child.learn_one(X, y, weight=weight, tree=tree)
+        elif child is not None:
             child.learn_one(X, y, weight, tree, parent=self, parent_branch=child_branch)
         # Instance contains a categorical value previously unseen by the split node
         else:
diff --git a/src/skmultiflow/trees/hoeffding_tree.py b/src/skmultiflow/trees/hoeffding_tree.py
index eac6137..d7aa38f 100755
--- a/src/skmultiflow/trees/hoeffding_tree.py
+++ b/src/skmultiflow/trees/hoeffding_tree.py
@@ -599,7 +599,7 @@ class HoeffdingTreeClassifier(BaseSKMObject, ClassifierMixin):
                     poor_atts = set()
                     # Add any poor attribute to set
                     for i in range(len(best_split_suggestions)):
-                        if best_split_suggestions[i] is not None:
+                        if best_split_suggestions[i].split_test is not None:
                             split_atts = best_split_suggestions[i].split_test.\
                                 get_atts_test_depends_on()
                             if len(split_atts) == 1:
diff --git a/src/skmultiflow/trees/hoeffding_tree_regressor.py b/src/skmultiflow/trees/hoeffding_tree_regressor.py
index 93436e0..0e1dce0 100644
--- a/src/skmultiflow/trees/hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_tree_regressor.py
@@ -482,7 +482,7 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
                     (second_best_suggestion.merit / best_suggestion.merit < 1 - hoeffding_bound
                         or hoeffding_bound < self.tie_threshold):
                 should_split = True
-            if self.remove_poor_atts:
+            if self.remove_poor_atts and best_suggestion.merit > 0.0:
                 poor_atts = set()
                 best_ratio = second_best_suggestion.merit / best_suggestion.merit
 
diff --git a/src/skmultiflow/trees/isoup_tree.py b/src/skmultiflow/trees/isoup_tree.py
index f34f66f..767a610 100644
--- a/src/skmultiflow/trees/isoup_tree.py
+++ b/src/skmultiflow/trees/isoup_tree.py
@@ -535,7 +535,7 @@ class iSOUPTreeRegressor(HoeffdingTreeRegressor, MultiOutputMixin):
                                                < 1 - hoeffding_bound or hoeffding_bound
                                                < self.tie_threshold)):
                 should_split = True
-            if self.remove_poor_atts and not should_split:
+            if self.remove_poor_atts and not should_split and best_suggestion.merit > 0:
                 poor_atts = set()
                 best_ratio = second_best_suggestion.merit / best_suggestion.merit
 
-- 
2.43.0


From a7573ae1e34943dbb2737d08f3af9966615e92eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:14 +0000
Subject: [PATCH 25/68] fix: KNNRegressor and HalfSpaceTrees predict each row
 from that row

---
 src/skmultiflow/anomaly_detection/half_space_trees.py | 4 ++--
 src/skmultiflow/lazy/knn_regressor.py                 | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/anomaly_detection/half_space_trees.py b/src/skmultiflow/anomaly_detection/half_space_trees.py
index a24fe53..e011e7a 100644
--- a/src/skmultiflow/anomaly_detection/half_space_trees.py
+++ b/src/skmultiflow/anomaly_detection/half_space_trees.py
@@ -185,15 +185,15 @@ class HalfSpaceTrees(BaseSKMObject, ClassifierMixin):
         """
         r, _ = get_dimensions(X)
         predictions = []
+        y_proba = self.predict_proba(X)
         for i in range(r):
-            y_proba = self.predict_proba(X)
             if y_proba is None:
                 # Ensemble is empty, all classes equal, default to zero
                 predictions.append(0)
             else:
                 # if prediction of this instance is greater than the threshold
                 # defined, then this instance is classified as an anomaly.
-                if y_proba[0][1] > self.anomaly_threshold:
+                if y_proba[i][1] > self.anomaly_threshold:
                     predictions.append(1)
                 else:
                     predictions.append(0)
diff --git a/src/skmultiflow/lazy/knn_regressor.py b/src/skmultiflow/lazy/knn_regressor.py
index 0d999d4..543c070 100644
--- a/src/skmultiflow/lazy/knn_regressor.py
+++ b/src/skmultiflow/lazy/knn_regressor.py
@@ -151,7 +151,7 @@ class KNNRegressor(BaseNeighbors, RegressorMixin):
         r, c = get_dimensions(X)
         predictions = np.zeros(r)
         for i in range(r):
-            predictions[i] = self._predict(X)
+            predictions[i] = self._predict(np.asarray([X[i]]))
         return predictions
 
     def _predict(self, X):
-- 
2.43.0


From 9890dc688fd122646ec235d6b42cd6c8915df328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:57 +0000
Subject: [PATCH 26/68] fix: ensembles reset completely and return themselves,
 SRP and LearnPP.NSE keep their parameters

---
 .../meta/accuracy_weighted_ensemble.py        |  1 +
 .../meta/adaptive_random_forests.py           |  1 +
 .../meta/additive_expert_ensemble.py          |  1 +
 .../meta/dynamic_weighted_majority.py         |  1 +
 src/skmultiflow/meta/learn_nse.py             | 13 +++++---
 src/skmultiflow/meta/learn_pp.py              |  2 ++
 src/skmultiflow/meta/leverage_bagging.py      |  2 +-
 src/skmultiflow/meta/multi_output_learner.py  |  1 +
 src/skmultiflow/meta/online_adac2.py          |  4 +++
 src/skmultiflow/meta/online_boosting.py       |  2 ++
 src/skmultiflow/meta/online_csb2.py           |  2 ++
 src/skmultiflow/meta/online_rus_boost.py      |  2 ++
 src/skmultiflow/meta/online_smote_bagging.py  |  2 ++
 .../meta/online_under_over_bagging.py         |  2 ++
 src/skmultiflow/meta/oza_bagging_adwin.py     |  1 +
 .../meta/streaming_random_patches.py          | 31 ++++++++++---------
 16 files changed, 48 insertions(+), 20 deletions(-)

diff --git a/src/skmultiflow/meta/accuracy_weighted_ensemble.py b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
index 4172e0a..a593fe0 100644
--- a/src/skmultiflow/meta/accuracy_weighted_ensemble.py
+++ b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
@@ -312,6 +312,7 @@ class AccuracyWeightedEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEst
         self.p = -1
         self.X_chunk = None
         self.y_chunk = None
+        return self
 
     @staticmethod
     def compute_score(model, X, y):
diff --git a/src/skmultiflow/meta/adaptive_random_forests.py b/src/skmultiflow/meta/adaptive_random_forests.py
index 215f687..ee37d4d 100644
--- a/src/skmultiflow/meta/adaptive_random_forests.py
+++ b/src/skmultiflow/meta/adaptive_random_forests.py
@@ -407,6 +407,7 @@ class AdaptiveRandomForestClassifier(BaseSKMObject, ClassifierMixin, MetaEstimat
         self.instances_seen = 0
         self._train_weight_seen_by_model = 0.0
         self._random_state = check_random_state(self.random_state)
+        return self
 
     def _get_votes_for_instance(self, X):
         if self.ensemble is None:
diff --git a/src/skmultiflow/meta/additive_expert_ensemble.py b/src/skmultiflow/meta/additive_expert_ensemble.py
index c409851..97b284b 100644
--- a/src/skmultiflow/meta/additive_expert_ensemble.py
+++ b/src/skmultiflow/meta/additive_expert_ensemble.py
@@ -259,3 +259,4 @@ class AdditiveExpertEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         self.epochs = 0
         self.num_classes = 2
         self.experts = [self._construct_new_expert()]
+        return self
diff --git a/src/skmultiflow/meta/dynamic_weighted_majority.py b/src/skmultiflow/meta/dynamic_weighted_majority.py
index c7817bb..3961438 100644
--- a/src/skmultiflow/meta/dynamic_weighted_majority.py
+++ b/src/skmultiflow/meta/dynamic_weighted_majority.py
@@ -258,6 +258,7 @@ class DynamicWeightedMajorityClassifier(BaseSKMObject, ClassifierMixin, MetaEsti
         self.experts = [
             self._construct_new_expert()
         ]
+        return self
 
     def _scale_weights(self, max_weight):
         """
diff --git a/src/skmultiflow/meta/learn_nse.py b/src/skmultiflow/meta/learn_nse.py
index 4d93004..db9ee31 100644
--- a/src/skmultiflow/meta/learn_nse.py
+++ b/src/skmultiflow/meta/learn_nse.py
@@ -108,7 +108,7 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self.X_batch = []
         self.y_batch = []
         self.instance_weights = []
-        self.base_estimator = cp.deepcopy(base_estimator)
+        self.base_estimator = base_estimator
         self.classes = None
 
     @staticmethod
@@ -271,13 +271,14 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                     h = self.ensemble[i]
                     y_predicts = h.predict_proba(X[m].reshape(1, -1))
                     y_predicts /= np.linalg.norm(y_predicts, ord=1, axis=1, keepdims=True)
-                    try:
+                    if y_predicts.shape[1] == len(classes):
                         votes += self.ensemble_weights[i] * y_predicts
-                    except ValueError:
+                    else:
                         if hasattr(h, 'classes_'):  # sklearn learner
                             obs_classes = h.classes_
                         elif hasattr(h, 'classes'):  # skmultiflow learner
-                            obs_classes = h.classes
+                            # probabilities are indexed by the class label
+                            obs_classes = np.arange(y_predicts.shape[1])
                         else:
                             raise AttributeError(
                                 'The base estimator does not define the "classes" or "classes_" ' +
@@ -294,6 +295,7 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         return np.array(res)
 
     def _fill_missing_probs(self, probs, obs_classes, all_classes):
+        all_classes = np.asarray(all_classes)
         proba_ordered = np.zeros(
             (probs.shape[0], all_classes.size), dtype=np.float
         )
@@ -351,3 +353,6 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self.wkts = []
         self.X_batch = []
         self.y_batch = []
+        self.instance_weights = []
+        self.classes = None
+        return self
diff --git a/src/skmultiflow/meta/learn_pp.py b/src/skmultiflow/meta/learn_pp.py
index 2975e8e..d501f0f 100644
--- a/src/skmultiflow/meta/learn_pp.py
+++ b/src/skmultiflow/meta/learn_pp.py
@@ -132,7 +132,9 @@ class LearnPPClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self.ensemble_weights = []
         self.X_batch = []
         self.y_batch = []
+        self.classes = None
         self.random = check_random_state(self.random_state)
+        return self
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially (incrementally) fit the model.
diff --git a/src/skmultiflow/meta/leverage_bagging.py b/src/skmultiflow/meta/leverage_bagging.py
index 9d019e1..5acdc53 100644
--- a/src/skmultiflow/meta/leverage_bagging.py
+++ b/src/skmultiflow/meta/leverage_bagging.py
@@ -322,7 +322,7 @@ class LeveragingBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorM
                     else:
                         n_zeros += 1
                 condition = ((n_ones - n_zeros) * (n_ones - n_zeros) >
-                             (self.actual_n_estimators % 2))
+                             (len(self.classes) % 2))
         self.init_matrix_codes = False
 
     def predict(self, X):
diff --git a/src/skmultiflow/meta/multi_output_learner.py b/src/skmultiflow/meta/multi_output_learner.py
index dc596ff..5e63444 100644
--- a/src/skmultiflow/meta/multi_output_learner.py
+++ b/src/skmultiflow/meta/multi_output_learner.py
@@ -237,6 +237,7 @@ class MultiOutputLearner(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin, Mul
     def reset(self):
         self.ensemble = None
         self.n_targets = None
+        return self
 
     def _more_tags(self):
         return {'multioutput': True,
diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index 789ee86..65d67be 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -159,6 +159,8 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
 
     def reset(self):
         self.__configure()
+        self.classes = None
+        return self
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially fits the model, based on the X and y matrix.
@@ -289,6 +291,8 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 self.lam_tn = np.zeros(self.actual_n_estimators)
                 self.lam_fp = np.zeros(self.actual_n_estimators)
                 self.lam_sum = np.zeros(self.actual_n_estimators)
+                self.wacc = np.zeros(self.actual_n_estimators)
+                self.werr = np.zeros(self.actual_n_estimators)
 
     def predict(self, X):
         """ predict
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index 28b68a1..8da67d6 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -148,6 +148,8 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
 
     def reset(self):
         self.__configure()
+        self.classes = None
+        return self
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially fits the model, based on the X and y matrix.
diff --git a/src/skmultiflow/meta/online_csb2.py b/src/skmultiflow/meta/online_csb2.py
index 2c1b01c..543b583 100644
--- a/src/skmultiflow/meta/online_csb2.py
+++ b/src/skmultiflow/meta/online_csb2.py
@@ -153,6 +153,8 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
 
     def reset(self):
         self.__configure()
+        self.classes = None
+        return self
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially fits the model, based on the X and y matrix.
diff --git a/src/skmultiflow/meta/online_rus_boost.py b/src/skmultiflow/meta/online_rus_boost.py
index 74a1128..87356dd 100644
--- a/src/skmultiflow/meta/online_rus_boost.py
+++ b/src/skmultiflow/meta/online_rus_boost.py
@@ -157,6 +157,8 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
 
     def reset(self):
         self.__configure()
+        self.classes = None
+        return self
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially fits the model, based on the X and y matrix.
diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index 2462590..0f7aba7 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -139,6 +139,8 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
 
     def reset(self):
         self.__configure()
+        self.classes = None
+        return self
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially fits the model, based on the X and y matrix.
diff --git a/src/skmultiflow/meta/online_under_over_bagging.py b/src/skmultiflow/meta/online_under_over_bagging.py
index 681ed33..f886b63 100644
--- a/src/skmultiflow/meta/online_under_over_bagging.py
+++ b/src/skmultiflow/meta/online_under_over_bagging.py
@@ -143,6 +143,8 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
 
     def reset(self):
         self.__configure()
+        self.classes = None
+        return self
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially fits the model, based on the X and y matrix.
diff --git a/src/skmultiflow/meta/oza_bagging_adwin.py b/src/skmultiflow/meta/oza_bagging_adwin.py
index 7bc0bde..10b4dd5 100644
--- a/src/skmultiflow/meta/oza_bagging_adwin.py
+++ b/src/skmultiflow/meta/oza_bagging_adwin.py
@@ -100,6 +100,7 @@ class OzaBaggingADWINClassifier(OzaBaggingClassifier):
         self.adwin_ensemble = [cp.deepcopy(ADWIN()) for _ in range(self.actual_n_estimators)]
 
     def reset(self):
+        super().reset()
         self.__configure()
         return self
 
diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index c478389..30daf20 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -168,7 +168,7 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         self.disable_background_learner = disable_background_learner
         # Single option (accuracy) for drift detection criteria. Could be extended in the future.
         self.drift_detection_criteria = 'accuracy'
-        self.nominal_attributes = nominal_attributes if nominal_attributes else []
+        self.nominal_attributes = nominal_attributes
         self.random_state = random_state
         # self._random_state is the actual object used internally
         self._random_state = check_random_state(self.random_state)
@@ -176,7 +176,7 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
 
         self._n_samples_seen = 0
         self._subspaces = None
-
+        self._training_method = self.training_method
         self._base_performance_evaluator = ClassificationPerformanceEvaluator()
         self._base_learner_class = StreamingRandomPatchesBaseLearner
 
@@ -231,9 +231,9 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
 
             # Train using random subspaces without resampling,
             # i.e. all instances are used for training.
-            if self.training_method == self._TRAIN_RANDOM_SUBSPACES:
+            if self._training_method == self._TRAIN_RANDOM_SUBSPACES:
                 self.ensemble[i].partial_fit(X=X, y=y, classes=classes,
-                                             sample_weight=np.asarray([1.]),
+                                             sample_weight=sample_weight,
                                              n_samples_seen=self._n_samples_seen,
                                              random_state=self._random_state)
             # Train using random patches or resampling,
@@ -242,7 +242,7 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
                 k = self._random_state.poisson(lam=self.lam)
                 if k > 0:
                     self.ensemble[i].partial_fit(X=X, y=y, classes=classes,
-                                                 sample_weight=np.asarray([k]),
+                                                 sample_weight=k * sample_weight,
                                                  n_samples_seen=self._n_samples_seen,
                                                  random_state=self._random_state)
 
@@ -321,8 +321,8 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         # Select the size of k, which depends on 2 parameters:
         # subspace_size and subspace_mode
         k = self.subspace_size
-
-        if self.training_method != self._TRAIN_RESAMPLING:
+        self._training_method = self.training_method
+        if self._training_method != self._TRAIN_RESAMPLING:
             # This only applies to subspaces and random patches options
             if self.subspace_mode == self._FEATURES_SQRT:
                 k = int(np.round(np.sqrt(n_features)) + 1)
@@ -341,8 +341,8 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         # Generate subspaces. The subspaces is a 2D matrix of shape
         # (n_estimators, k) where each row contains the k feature indices
         # to be used by each estimator.
-        if self.training_method == self._TRAIN_RANDOM_SUBSPACES or \
-                self.training_method == self._TRAIN_RANDOM_PATCHES:
+        if self._training_method == self._TRAIN_RANDOM_SUBSPACES or \
+                self._training_method == self._TRAIN_RANDOM_PATCHES:
             if k != 0 and k < n_features:
                 # For low dimensionality it is better to avoid more than
                 # 1 classifier with the same subspace, thus we generate all
@@ -360,7 +360,7 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
                     i = 0
                     while len(self._subspaces) < self.n_estimators:
                         i = 0 if i == len(self._subspaces) else i
-                        np.vstack((self._subspaces, self._subspaces[i]))
+                        self._subspaces = np.vstack((self._subspaces, self._subspaces[i]))
                         i += 1
                 # For high dimensionality we can't generate all combinations
                 # as it is too expensive (memory). On top of that, the chance
@@ -374,7 +374,7 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
             # k == 0 or k > n_features (subspace size is larger than the
             # number of features), then default to re-sampling
             else:
-                self.training_method = self._TRAIN_RESAMPLING
+                self._training_method = self._TRAIN_RESAMPLING
 
         # Reset the base estimator for safety.
         self.base_estimator.reset()
@@ -390,16 +390,16 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         performance_evaluator = self._base_performance_evaluator
 
         subspace_indexes = np.arange(self.n_estimators)
-        if self.training_method == self._TRAIN_RANDOM_PATCHES or \
-                self.training_method == self._TRAIN_RANDOM_SUBSPACES:
+        if self._training_method == self._TRAIN_RANDOM_PATCHES or \
+                self._training_method == self._TRAIN_RANDOM_SUBSPACES:
             # Shuffle indexes that match subspaces with members of the ensemble
             self._random_state.shuffle(subspace_indexes)
         for i in range(self.n_estimators):
             # When self.training_method == self._TRAIN_RESAMPLING
             features_indexes = None
             # Otherwise set feature indexes
-            if self.training_method == self._TRAIN_RANDOM_PATCHES or \
-                    self.training_method == self._TRAIN_RANDOM_SUBSPACES:
+            if self._training_method == self._TRAIN_RANDOM_PATCHES or \
+                    self._training_method == self._TRAIN_RANDOM_SUBSPACES:
                 features_indexes = self._subspaces[subspace_indexes[i]]
             self.ensemble.append(base_learner_class(
                 idx_original=i,
@@ -420,6 +420,7 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         self.ensemble = None
         self._n_samples_seen = 0
         self._random_state = check_random_state(self.random_state)
+        return self
 
 
 class StreamingRandomPatchesBaseLearner:
-- 
2.43.0


From bd32c77e2cb2e9b657750d4a75d98fb97deccbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:34 +0000
Subject: [PATCH 27/68] fix: DWM and AddExp vote by label weight, AddExp prunes
 the weakest expert, regressors can be scored, chains undo a random label
 order

---
 src/skmultiflow/core/base.py                      |  4 +---
 src/skmultiflow/meta/additive_expert_ensemble.py  | 12 ++++++------
 src/skmultiflow/meta/classifier_chains.py         |  7 +++++--
 src/skmultiflow/meta/dynamic_weighted_majority.py | 10 +++++-----
 4 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/skmultiflow/core/base.py b/src/skmultiflow/core/base.py
index d63b5b6..213deeb 100644
--- a/src/skmultiflow/core/base.py
+++ b/src/skmultiflow/core/base.py
@@ -618,11 +618,9 @@ class RegressorMixin(metaclass=ABCMeta):
         """
 
         from sklearn.metrics import r2_score
-        from sklearn.metrics.regression import _check_reg_targets
         y_pred = self.predict(X)
         # XXX: Remove the check in 0.23
-        y_type, _, _, _ = _check_reg_targets(y, y_pred, None)
-        if y_type == 'continuous-multioutput':
+        if np.ndim(y) > 1 and np.shape(y)[1] > 1:
             warnings.warn("The default value of multioutput (not exposed in "
                           "score method) will change from 'variance_weighted' "
                           "to 'uniform_average' in 0.23 to keep consistent "
diff --git a/src/skmultiflow/meta/additive_expert_ensemble.py b/src/skmultiflow/meta/additive_expert_ensemble.py
index 97b284b..f55d908 100644
--- a/src/skmultiflow/meta/additive_expert_ensemble.py
+++ b/src/skmultiflow/meta/additive_expert_ensemble.py
@@ -172,11 +172,11 @@ class AdditiveExpertEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         numpy.ndarray
             A numpy.ndarray with the label prediction for all the samples in X.
         """
-        preds = np.array([np.array(exp.estimator.predict(X)) * exp.weight
-                          for exp in self.experts])
-        sum_weights = sum(exp.weight for exp in self.experts)
-        aggregate = np.sum(preds / sum_weights, axis=0)
-        return (aggregate + 0.5).astype(int)    # Round to nearest int
+        preds = np.array([np.array(exp.estimator.predict(X)) for exp in self.experts])
+        weights = np.array([exp.weight for exp in self.experts]).reshape(-1, 1)
+        labels = np.unique(preds)
+        votes = np.array([np.sum(weights * (preds == label), axis=0) for label in labels])
+        return labels[np.argmax(votes, axis=0)].astype(int)
 
     def predict_proba(self, X):
         """ Not implemented for this method.
@@ -244,7 +244,7 @@ class AdditiveExpertEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         elif self.pruning == 'weakest':
             idx = 0
             for exp in self.experts:
-                if exp.weight < new_exp.weight:
+                if exp.weight > new_exp.weight:
                     break
                 idx += 1
             self.experts.insert(idx, new_exp)
diff --git a/src/skmultiflow/meta/classifier_chains.py b/src/skmultiflow/meta/classifier_chains.py
index c221c61..b843548 100644
--- a/src/skmultiflow/meta/classifier_chains.py
+++ b/src/skmultiflow/meta/classifier_chains.py
@@ -234,7 +234,9 @@ class ClassifierChain(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin, MultiO
             if j > 0:
                 X = np.column_stack([X, Y[:, j - 1]])
             Y[:, j] = self.ensemble[j].predict_proba(X)[:, 1]
-        return Y
+
+        # Unset the chain order (back to default)
+        return Y[:, np.argsort(self.chain)]
 
     def reset(self):
         self.__configure()
@@ -358,7 +360,8 @@ class ProbabilisticClassifierChain(ClassifierChain):
                     Yp[n, :] = y_[:].copy()
                     w_max = w_
 
-        return Yp
+        # Unset the chain order (back to default)
+        return Yp[:, np.argsort(self.chain)]
 
 
 class MonteCarloClassifierChain(ProbabilisticClassifierChain):
diff --git a/src/skmultiflow/meta/dynamic_weighted_majority.py b/src/skmultiflow/meta/dynamic_weighted_majority.py
index 3961438..00f8919 100644
--- a/src/skmultiflow/meta/dynamic_weighted_majority.py
+++ b/src/skmultiflow/meta/dynamic_weighted_majority.py
@@ -170,11 +170,11 @@ class DynamicWeightedMajorityClassifier(BaseSKMObject, ClassifierMixin, MetaEsti
         numpy.ndarray
             A numpy.ndarray with the label prediction for all the samples in X.
         """
-        preds = np.array([np.array(exp.estimator.predict(X)) * exp.weight
-                          for exp in self.experts])
-        sum_weights = sum(exp.weight for exp in self.experts)
-        aggregate = np.sum(preds / sum_weights, axis=0)
-        return (aggregate + 0.5).astype(int)    # Round to nearest int
+        preds = np.array([np.array(exp.estimator.predict(X)) for exp in self.experts])
+        weights = np.array([exp.weight for exp in self.experts]).reshape(-1, 1)
+        labels = np.unique(preds)
+        votes = np.array([np.sum(weights * (preds == label), axis=0) for label in labels])
+        return labels[np.argmax(votes, axis=0)].astype(int)
 
     def predict_proba(self, X):
         raise NotImplementedError
-- 
2.43.0


From dd7798856a69df86bc8cb40a4f92b5a8be6ca7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:24 +0000
Subject: [PATCH 28/68] fix: AdaptiveRandomForestRegressor keeps max_features
 on reset

---
 src/skmultiflow/meta/adaptive_random_forest_regressor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/adaptive_random_forest_regressor.py b/src/skmultiflow/meta/adaptive_random_forest_regressor.py
index 1a1dd24..a9e41d6 100644
--- a/src/skmultiflow/meta/adaptive_random_forest_regressor.py
+++ b/src/skmultiflow/meta/adaptive_random_forest_regressor.py
@@ -348,9 +348,9 @@ class AdaptiveRandomForestRegressor(RegressorMixin, AdaptiveRandomForestClassifi
         # TODO: check whether this is enough
 
         self.ensemble = None
-        self.max_features = 0
         self.instances_seen = 0
         self._random_state = check_random_state(self.random_state)
+        return self
 
     def _init_ensemble(self, X):
         self._set_max_features(get_dimensions(X)[1])
-- 
2.43.0


From 8a254940e56f0f3f6065c4834e32db2fb33dd4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:11 +0000
Subject: [PATCH 29/68] fix: an untrained LearnPP predicts the default class

---
 src/skmultiflow/meta/learn_pp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skmultiflow/meta/learn_pp.py b/src/skmultiflow/meta/learn_pp.py
index d501f0f..96d1970 100644
--- a/src/skmultiflow/meta/learn_pp.py
+++ b/src/skmultiflow/meta/learn_pp.py
@@ -315,6 +315,8 @@ class LearnPPClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
             the probability that the i-th sample of X belongs to a certain label.
 
         """
+        if not self.ensembles:
+            return np.zeros((len(X), 1))
         votes = np.zeros((len(X), len(self.classes)))
         for i in range(len(self.ensembles)):
             ensemble = self.ensembles[i]
-- 
2.43.0


From d6f4d3175fb80babe4d5ae903e297cdff2c956c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:17 +0000
Subject: [PATCH 30/68] fix: LearnPP, LearnPP.NSE and OnlineSMOTEBagging keep
 copies of the samples they store

---
 src/skmultiflow/meta/learn_nse.py            | 2 +-
 src/skmultiflow/meta/learn_pp.py             | 2 +-
 src/skmultiflow/meta/online_smote_bagging.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/meta/learn_nse.py b/src/skmultiflow/meta/learn_nse.py
index db9ee31..0e02b40 100644
--- a/src/skmultiflow/meta/learn_nse.py
+++ b/src/skmultiflow/meta/learn_nse.py
@@ -162,7 +162,7 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 self.classes = classes
 
         for i in range(N):
-            self.X_batch.append(X[i])
+            self.X_batch.append(np.array(X[i]))
             self.y_batch.append(y[i])
             mt = len(self.y_batch)
 
diff --git a/src/skmultiflow/meta/learn_pp.py b/src/skmultiflow/meta/learn_pp.py
index 96d1970..91d5644 100644
--- a/src/skmultiflow/meta/learn_pp.py
+++ b/src/skmultiflow/meta/learn_pp.py
@@ -183,7 +183,7 @@ class LearnPPClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         N, _ = X.shape
 
         for i in range(N):
-            self.X_batch.append(X[i])
+            self.X_batch.append(np.array(X[i]))
             self.y_batch.append(y[i])
             if len(self.y_batch) == self.window_size:
                 self.__fit_batch(self.X_batch, self.y_batch)
diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index 0f7aba7..4bec39a 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -206,7 +206,7 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
             for i in range(self.actual_n_estimators):
                 a = (i + 1) / self.actual_n_estimators
                 if y[j] == 1:
-                    self.pos_samples.append(X[j])
+                    self.pos_samples.append(np.array(X[j]))
                     lam = a * self.sampling_rate
                     lam_smote = (1 - a) * self.sampling_rate
                     k = self._random_state.poisson(lam)
-- 
2.43.0


From f4fd6538befad75ae78aeb16096890af9874c7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:36 +0000
Subject: [PATCH 31/68] fix: LabelCombinationHoeffdingTree accepts labels of
 any numeric type

---
 src/skmultiflow/trees/_nodes/lc_htc_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/_nodes/lc_htc_nodes.py b/src/skmultiflow/trees/_nodes/lc_htc_nodes.py
index bb26434..5ec86db 100644
--- a/src/skmultiflow/trees/_nodes/lc_htc_nodes.py
+++ b/src/skmultiflow/trees/_nodes/lc_htc_nodes.py
@@ -3,7 +3,7 @@ from .htc_nodes import ActiveLearningNodeMC, ActiveLearningNodeNB, ActiveLearnin
 
 
 def transform_label(y):
-    y = ''.join(str(e) for e in y)
+    y = ''.join(str(int(e)) for e in y)
     return int(y, 2)
 
 
-- 
2.43.0


From 7bcdb87b9a42197d47dbf2e3d889945b7e4b4b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:04 +0000
Subject: [PATCH 32/68] fix: StreamingRandomPatches predicts when rows see a
 different number of classes

---
 src/skmultiflow/meta/streaming_random_patches.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index 30daf20..7b7c6a2 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -295,7 +295,9 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
 
         for i in range(n_samples):
             y_proba.append(self._predict_proba(np.asarray([X[i]])))
-        return np.asarray(y_proba)
+        # Check array length consistency
+        n_classes = max(len(p) for p in y_proba)
+        return np.asarray([np.pad(p, (0, n_classes - len(p)), 'constant') for p in y_proba])
 
     def _predict_proba(self, X):
         y_proba = np.asarray([0.])
-- 
2.43.0


From 162abc1312619ab7188f5e62f5ab5efe8772fcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:07 +0000
Subject: [PATCH 33/68] fix: Hoeffding trees return a 2D probability array when
 a leaf has no votes

---
 src/skmultiflow/trees/hoeffding_tree.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/skmultiflow/trees/hoeffding_tree.py b/src/skmultiflow/trees/hoeffding_tree.py
index d7aa38f..c3ba942 100755
--- a/src/skmultiflow/trees/hoeffding_tree.py
+++ b/src/skmultiflow/trees/hoeffding_tree.py
@@ -428,13 +428,8 @@ class HoeffdingTreeClassifier(BaseSKMObject, ClassifierMixin):
                 for key, value in votes.items():
                     y_proba[int(key)] = value
                 predictions.append(y_proba)
-        # Set result as np.array
-        if self.classes is not None:
-            predictions = np.asarray(predictions)
-        else:
-            # Fill missing values related to unobserved classes to ensure we get a 2D array
-            predictions = np.asarray(list(itertools.zip_longest(*predictions, fillvalue=0.0))).T
-        return predictions
+        # Fill missing values related to unobserved classes to ensure we get a 2D array
+        return np.asarray(list(itertools.zip_longest(*predictions, fillvalue=0.0))).T
 
     @property
     def model_measurements(self):
-- 
2.43.0


From 9fa94b33aae92659d35e7afa72e838faf7573574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:39 +0000
Subject: [PATCH 34/68] fix: RSLVQ ignores prototypes of classes not seen yet
 and keeps what it learned from given prototypes

---
 ...obust_soft_learning_vector_quantization.py | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py b/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
index 6aff0f6..5f19c96 100644
--- a/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
+++ b/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
@@ -224,9 +224,9 @@ class RobustSoftLearningVectorQuantization(ClassifierMixin, BaseSKMObject):
         # initialize prototypes
         if self.initial_prototypes is None:
             if self.initial_fit:
-                self.w_ = np.empty([np.sum(nb_ppc), nb_features],
+                self.w_ = np.zeros([np.sum(nb_ppc), nb_features],
                                    dtype=np.double)
-                self.c_w_ = np.empty([nb_ppc.sum()], dtype=self.classes_.dtype)
+                self.c_w_ = np.repeat(self.classes_, nb_ppc)
             pos = 0
             for actClassIdx in range(len(self.classes_)):
                 actClass = self.classes_[actClassIdx]
@@ -253,10 +253,14 @@ class RobustSoftLearningVectorQuantization(ClassifierMixin, BaseSKMObject):
 
                     self.c_w_[pos:pos + nb_prot] = actClass
                 pos += nb_prot
-        else:
-            x = validation.check_array(self.initial_prototypes)
+            # Prototypes of classes that have not been observed yet do not take part
+            self._active_prototypes = np.flatnonzero(
+                np.repeat(self.protos_initialized, nb_ppc))
+        elif self.initial_fit:
+            x = validation.check_array(self.initial_prototypes, copy=True)
             self.w_ = x[:, :-1]
             self.c_w_ = x[:, -1]
+            self._active_prototypes = np.arange(self.c_w_.size)
             if self.w_.shape != (np.sum(nb_ppc), nb_features):
                 raise ValueError("the initial prototypes have wrong shape\n"
                                  "found=(%d,%d)\n"
@@ -320,7 +324,7 @@ class RobustSoftLearningVectorQuantization(ClassifierMixin, BaseSKMObject):
             best_euclid_incorr = np.inf
 
             # find nearest correct and nearest wrong prototype
-            for j in range(prototypes.shape[0]):
+            for j in self._active_prototypes:
                 if self.c_w_[j] == c_xi:
                     eucl_dis = euclidean_distances(xi.reshape(1, xi.size),
                                                    prototypes[j]
@@ -362,8 +366,9 @@ class RobustSoftLearningVectorQuantization(ClassifierMixin, BaseSKMObject):
         C : array, shape = (n_samples)
             Returns predicted values.
         """
-        return np.array([self.c_w_[np.array([self._costf(xi, p)
-                                             for p in self.w_]).argmax()]
+        active = self._active_prototypes
+        return np.array([self.c_w_[active[np.array([self._costf(xi, self.w_[i])
+                                                    for i in active]).argmax()]]
                          for xi in X])
 
     def _costf(self, x, w):
@@ -373,10 +378,10 @@ class RobustSoftLearningVectorQuantization(ClassifierMixin, BaseSKMObject):
 
     def _p(self, j, e, prototypes, y=None):
         if y is None:
-            fs = [self._costf(e, w) for w in prototypes]
+            fs = [self._costf(e, prototypes[i]) for i in self._active_prototypes]
         else:
             fs = [self._costf(e, prototypes[i]) for i in
-                  range(prototypes.shape[0]) if
+                  self._active_prototypes if
                   self.c_w_[i] == y]
 
         fs_max = np.amax(fs)
-- 
2.43.0


From 0ef0d7b43fc8b13bfb608b7de494c14e5e6a1755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:32 +0000
Subject: [PATCH 35/68] fix: LearnPP.NSE votes when a member has no vote for a
 sample

---
 src/skmultiflow/meta/learn_nse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/learn_nse.py b/src/skmultiflow/meta/learn_nse.py
index 0e02b40..18eceaf 100644
--- a/src/skmultiflow/meta/learn_nse.py
+++ b/src/skmultiflow/meta/learn_nse.py
@@ -270,7 +270,8 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 if self.ensemble_weights[i] > 0:
                     h = self.ensemble[i]
                     y_predicts = h.predict_proba(X[m].reshape(1, -1))
-                    y_predicts /= np.linalg.norm(y_predicts, ord=1, axis=1, keepdims=True)
+                    norm = np.linalg.norm(y_predicts, ord=1, axis=1, keepdims=True)
+                    y_predicts = y_predicts / np.where(norm == 0, 1, norm)
                     if y_predicts.shape[1] == len(classes):
                         votes += self.ensemble_weights[i] * y_predicts
                     else:
-- 
2.43.0


From ac5823b437f5ed9f8e57c9c92ba8ab617aaaaec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:37 +0000
Subject: [PATCH 36/68] fix: AWE scores a member by the probability of the true
 label, LearnPP stops when the error stays at the threshold

---
 src/skmultiflow/meta/accuracy_weighted_ensemble.py | 14 +++++++++-----
 src/skmultiflow/meta/learn_pp.py                   |  2 +-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/skmultiflow/meta/accuracy_weighted_ensemble.py b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
index a593fe0..42dacd3 100644
--- a/src/skmultiflow/meta/accuracy_weighted_ensemble.py
+++ b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
@@ -338,14 +338,18 @@ class AccuracyWeightedEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEst
             The mean square error of the model (MSE_i)
         """
         N = len(y)
-        labels = model.seen_labels
         probabs = model.estimator.predict_proba(X)
-
+        if hasattr(model.estimator, 'classes_'):
+            # scikit-learn estimators, columns follow classes_
+            columns = {label: j for j, label in enumerate(model.estimator.classes_)}
+        else:
+            # probabilities are indexed by the class label
+            columns = {label: int(label) for label in model.seen_labels}
         sum_error = 0
         for i, c in enumerate(y):
-            if c in labels:
-                # find the index of this label c in probabs[i]
-                index_label_c = np.where(labels == c)[0][0]
+            # find the index of this label c in probabs[i]
+            index_label_c = columns.get(c)
+            if index_label_c is not None and index_label_c < len(probabs[i]):
                 probab_ic = probabs[i][index_label_c]
                 sum_error += (1.0 - probab_ic) * (1.0 - probab_ic)
             else:
diff --git a/src/skmultiflow/meta/learn_pp.py b/src/skmultiflow/meta/learn_pp.py
index 91d5644..be01dbd 100644
--- a/src/skmultiflow/meta/learn_pp.py
+++ b/src/skmultiflow/meta/learn_pp.py
@@ -257,7 +257,7 @@ class LearnPPClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                             Dt[y_predict_composite == y] = Dt[y_predict_composite == y] * \
                                 normalize_composite_error
 
-                if total_error > self.error_threshold:
+                if total_error >= self.error_threshold:
                     patience += 1
                 else:
                     patience = 0
-- 
2.43.0


From e0ff9639161767eedfa0c2d3b567d1eaa0fa2c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:51 +0000
Subject: [PATCH 37/68] fix: SAMKNN evaluates the STM sizes it cuts to (whole
 numbers of samples)

---
 src/skmultiflow/lazy/sam_knn.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/skmultiflow/lazy/sam_knn.py b/src/skmultiflow/lazy/sam_knn.py
index cdfc9cc..bf73cc2 100644
--- a/src/skmultiflow/lazy/sam_knn.py
+++ b/src/skmultiflow/lazy/sam_knn.py
@@ -603,8 +603,8 @@ class STMSizer(object):
             return numSamples, predictionHistories
         else:
             numSamplesRange = [numSamples]
-            while numSamplesRange[-1] / 2 >= minSize:
-                numSamplesRange.append(numSamplesRange[-1] / 2)
+            while numSamplesRange[-1] // 2 >= minSize:
+                numSamplesRange.append(numSamplesRange[-1] // 2)
 
             accuracies = []
             keys_to_remove = []
@@ -650,8 +650,8 @@ class STMSizer(object):
             return numSamples, predictionHistories
         else:
             numSamplesRange = [numSamples]
-            while numSamplesRange[-1] / 2 >= minSize:
-                numSamplesRange.append(numSamplesRange[-1] / 2)
+            while numSamplesRange[-1] // 2 >= minSize:
+                numSamplesRange.append(numSamplesRange[-1] // 2)
             accuracies = []
             for numSamplesIt in numSamplesRange:
                 idx = int(numSamples - numSamplesIt)
-- 
2.43.0


From 3fdb974b0646bdb3066bb97b1caef57a5dced109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:33 +0000
Subject: [PATCH 38/68] fix: SAMKNN without STM size adaption can drop old
 samples

---
 src/skmultiflow/lazy/sam_knn.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/skmultiflow/lazy/sam_knn.py b/src/skmultiflow/lazy/sam_knn.py
index bf73cc2..5db6d97 100644
--- a/src/skmultiflow/lazy/sam_knn.py
+++ b/src/skmultiflow/lazy/sam_knn.py
@@ -185,8 +185,9 @@ class SAMKNNClassifier(BaseSKMObject, ClassifierMixin):
             STMShortened = True
             self._STMSamples = np.delete(self._STMSamples, 0, 0)
             self._STMLabels = np.delete(self._STMLabels, 0, 0)
-            self.STMDistances[:len(self._STMLabels), :len(self._STMLabels)] = \
-                self.STMDistances[1:len(self._STMLabels) + 1, 1:len(self._STMLabels) + 1]
+            if self.STMSizeAdaption is not None:
+                self.STMDistances[:len(self._STMLabels), :len(self._STMLabels)] = \
+                    self.STMDistances[1:len(self._STMLabels) + 1, 1:len(self._STMLabels) + 1]
 
             if self.STMSizeAdaption == 'maxACCApprox':
                 keyset = list(self.interLeavedPredHistories.keys())
@@ -227,9 +228,10 @@ class SAMKNNClassifier(BaseSKMObject, ClassifierMixin):
                         self._LTMSamples, self._LTMLabels)
                     self._STMSamples = np.delete(self._STMSamples, shiftRange, 0)
                     self._STMLabels = np.delete(self._STMLabels, shiftRange, 0)
-                    self.STMDistances[:len(self._STMLabels), :len(self._STMLabels)] = \
-                        self.STMDistances[numShifts:len(self._STMLabels) + numShifts,
-                                          numShifts:len(self._STMLabels) + numShifts]
+                    if self.STMSizeAdaption is not None:
+                        self.STMDistances[:len(self._STMLabels), :len(self._STMLabels)] = \
+                            self.STMDistances[numShifts:len(self._STMLabels) + numShifts,
+                                              numShifts:len(self._STMLabels) + numShifts]
                     for i in shiftRange:
                         self.LTMPredHistory.popleft()
                         self.STMPredHistory.popleft()
-- 
2.43.0


From e5bc1b47048992c87f1d041f71ea9e8baf433c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:49 +0000
Subject: [PATCH 39/68] fix: grow an adaptive tree's alternate branch beside
 the node until it wins

The alternate tree of AdaSplitNode was given the position of the node it
accompanies, so its first split replaced that node whatever its error,
and neither the comparison of errors nor the counters took place.
---
 src/skmultiflow/trees/_nodes/hatc_nodes.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/skmultiflow/trees/_nodes/hatc_nodes.py b/src/skmultiflow/trees/_nodes/hatc_nodes.py
index 78b9640..2c5e68b 100644
--- a/src/skmultiflow/trees/_nodes/hatc_nodes.py
+++ b/src/skmultiflow/trees/_nodes/hatc_nodes.py
@@ -157,6 +157,9 @@ class AdaSplitNode(SplitNode, AdaNode):
     stats: dict (class_value, weight) or None
         Class observations
     """
+    # Stands for the alternate tree where a branch is expected
+    _ALTERNATE_BRANCH = -999
+
     def __init__(self, split_test, stats=None, random_state=None):
         super().__init__(split_test, stats)
         self._adwin = ADWIN()
@@ -240,18 +243,21 @@ class AdaSplitNode(SplitNode, AdaNode):
                         parent.set_child(parent_branch, self._alternate_tree)
                     else:
                         # Switch tree root
-                        tree._tree_root = tree._tree_root._alternate_tree
+                        tree._tree_root = self._alternate_tree
                     tree.switch_alternate_trees_cnt += 1
+                    # The alternate tree has taken the place of this node
+                    self._alternate_tree.learn_one(X, y, weight, tree, parent, parent_branch)
+                    return
                 elif bound < alt_error_rate - old_error_rate:
                     if isinstance(self._alternate_tree, SplitNode):
                         self._alternate_tree.kill_tree_children(tree)
-                    else:
-                        self._alternate_tree = None
+                    self._alternate_tree = None
                     tree.pruned_alternate_trees_cnt += 1  # hat.pruned_alternate_trees_cnt to check
 
         # Learn one sample in alternate tree and child nodes
         if self._alternate_tree is not None:
-            self._alternate_tree.learn_one(X, y, weight, tree, parent, parent_branch)
+            # The alternate tree grows beside this node, without replacing it
+            self._alternate_tree.learn_one(X, y, weight, tree, self, self._ALTERNATE_BRANCH)
         child_branch = self.instance_child_index(X)
         child = self.get_child(child_branch)
         if isinstance(child, InactiveLeaf):
@@ -272,6 +278,14 @@ class AdaSplitNode(SplitNode, AdaNode):
             tree._active_leaf_node_cnt += 1
             leaf_node.learn_one(X, y, weight, tree, parent, parent_branch)
 
+    # Override SplitNode
+    def set_child(self, index, node):
+        if index == self._ALTERNATE_BRANCH:
+            # An alternate tree that was deactivated is given up
+            self._alternate_tree = None if isinstance(node, InactiveLeaf) else node
+        else:
+            super().set_child(index, node)
+
     def predict_one(self, X, *, tree=None):
         return self.stats
 
-- 
2.43.0


From e8ac4e5a6790b8e8a0ba93db23f07a7b7a578ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:34 +0000
Subject: [PATCH 40/68] fix: let HoeffdingAdaptiveTreeClassifier answer unknown
 nominal values

A query whose nominal value has no branch got no votes at all, although
AdaSplitNode.predict_one is there to answer it.
---
 src/skmultiflow/trees/_nodes/hatc_nodes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/trees/_nodes/hatc_nodes.py b/src/skmultiflow/trees/_nodes/hatc_nodes.py
index 2c5e68b..4dd90fb 100644
--- a/src/skmultiflow/trees/_nodes/hatc_nodes.py
+++ b/src/skmultiflow/trees/_nodes/hatc_nodes.py
@@ -322,12 +322,15 @@ class AdaSplitNode(SplitNode, AdaNode):
         if child_index >= 0:
             child = self.get_child(child_index)
             if isinstance(child, InactiveLeaf):
-                found_nodes.append(FoundNode(child, self, child_index))
+                found_nodes.append(FoundNode(child, self, parent_branch))
             elif child is not None:
                 child.filter_instance_to_leaves(X, y, weight, parent, parent_branch,
                                                 update_splitter_counts, found_nodes)
             else:
-                found_nodes.append(FoundNode(None, self, child_index))
+                found_nodes.append(FoundNode(None, self, parent_branch))
+        else:
+            # Unknown categorical value, this node answers itself
+            found_nodes.append(FoundNode(None, self, parent_branch))
         if self._alternate_tree is not None:
             self._alternate_tree.filter_instance_to_leaves(X, y, weight, self, -999,
                                                            update_splitter_counts, found_nodes)
-- 
2.43.0


From fa61a59c26728d8a70cfcd488c40dfdcd8d37456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:22 +0000
Subject: [PATCH 41/68] fix: iSOUPTreeRegressor.predict after only zero-weight
 samples raised AttributeError

---
 src/skmultiflow/trees/isoup_tree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skmultiflow/trees/isoup_tree.py b/src/skmultiflow/trees/isoup_tree.py
index 767a610..1e0c0f6 100644
--- a/src/skmultiflow/trees/isoup_tree.py
+++ b/src/skmultiflow/trees/isoup_tree.py
@@ -473,6 +473,10 @@ class iSOUPTreeRegressor(HoeffdingTreeRegressor, MultiOutputMixin):
             warnings.warn("Calling predict without previously fitting the model at least once.\n"
                           "Predictions will default to a column array filled with zeros.")
             return np.zeros((r, 1))
+
+        if self._tree_root is None:   # Only samples of weight zero so far
+            return predictions
+
         for i in range(r):
             node = self._tree_root.filter_instance_to_leaf(X[i], None, -1).node
 
-- 
2.43.0


From a6f0e9a5a5397ec366f856bce02ffda31c60416c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:35 +0000
Subject: [PATCH 42/68] fix: drop exactly the drifted rule of
 VeryFastDecisionRulesClassifier

---
 src/skmultiflow/rules/very_fast_decision_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/rules/very_fast_decision_rules.py b/src/skmultiflow/rules/very_fast_decision_rules.py
index 289e33b..7f7a4c5 100644
--- a/src/skmultiflow/rules/very_fast_decision_rules.py
+++ b/src/skmultiflow/rules/very_fast_decision_rules.py
@@ -514,14 +514,14 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
         """
         rule_fired = False
         if self.rule_set:
-            for i, rule in enumerate(self.rule_set):
+            for rule in list(self.rule_set):
                 if rule.covers_instance(X):
                     rule_fired = True
                     if self.drift_detector is not None:
                         prediction = rule.predict(y)
                         rule.drift_detector.add_element(prediction)
                         if rule.drift_detector.detected_change() and rule.get_weight_seen() > self.min_weight:
-                            self.rule_set.pop(i)
+                            self.rule_set = [r for r in self.rule_set if r is not rule]
                             continue
                     rule.learn_from_instance(X, y, weight, self)
                     if rule.get_weight_seen() - rule.weight_seen_at_last_expand >= self.grace_period:
-- 
2.43.0


From 909f27fb950c27712999c1326071202385e57331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:15 +0000
Subject: [PATCH 43/68] fix: weighted_sum of decision rules gives every
 covering rule the same weight

---
 src/skmultiflow/rules/very_fast_decision_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/rules/very_fast_decision_rules.py b/src/skmultiflow/rules/very_fast_decision_rules.py
index 7f7a4c5..4647dd7 100644
--- a/src/skmultiflow/rules/very_fast_decision_rules.py
+++ b/src/skmultiflow/rules/very_fast_decision_rules.py
@@ -443,9 +443,9 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
                 if sum(votes.values()) != 0:
                     votes = normalize_values_in_dict(votes, inplace=False)
                 final_votes = {k: final_votes.get(k, 0) + votes.get(k, 0) for k in set(final_votes) | set(votes)}
-                if sum(final_votes.values()) != 0:
-                    normalize_values_in_dict(final_votes)
 
+        if sum(final_votes.values()) != 0:
+            normalize_values_in_dict(final_votes)
         return final_votes if fired_rule else self.default_rule.get_class_votes(X, self)
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
-- 
2.43.0


From 187f4aed10ecb4dfd810f0929c91afd22c99f44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:00 +0000
Subject: [PATCH 44/68] fix: VeryFastDecisionRulesClassifier.predict_proba
 always returns a 2D array

---
 src/skmultiflow/rules/very_fast_decision_rules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/rules/very_fast_decision_rules.py b/src/skmultiflow/rules/very_fast_decision_rules.py
index 4647dd7..d2ffb74 100644
--- a/src/skmultiflow/rules/very_fast_decision_rules.py
+++ b/src/skmultiflow/rules/very_fast_decision_rules.py
@@ -1,4 +1,5 @@
 import copy
+import itertools
 from operator import attrgetter, itemgetter
 import numpy as np
 
@@ -834,7 +835,8 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
                 for key, value in votes.items():
                     y_proba[int(key)] = value
                 predictions.append(y_proba)
-        return np.array(predictions)
+        # Fill missing values related to unobserved classes to ensure we get a 2D array
+        return np.asarray(list(itertools.zip_longest(*predictions, fillvalue=0.0))).T
 
     def get_model_measurements(self):
         """Collect metrics corresponding to the current status of the model.
-- 
2.43.0


From e398c0c65de014a6e42ace8aa926c09498ea00af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:42 +0000
Subject: [PATCH 45/68] fix: describe decision rules whose default rule is
 empty

---
 src/skmultiflow/rules/very_fast_decision_rules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/rules/very_fast_decision_rules.py b/src/skmultiflow/rules/very_fast_decision_rules.py
index d2ffb74..fedc4b5 100644
--- a/src/skmultiflow/rules/very_fast_decision_rules.py
+++ b/src/skmultiflow/rules/very_fast_decision_rules.py
@@ -892,7 +892,8 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
             class_idx = max(rule.observed_class_distribution.items(), key=itemgetter(1))[0]
             description += 'Rule ' + str(i) + ' :' + str(rule.get_rule()) + '| class :' + str(class_idx) + '  ' + \
                            str(rule.observed_class_distribution) + '\n'
-        class_idx = max(self.default_rule.observed_class_distribution.items(), key=itemgetter(1))[0]
+        class_idx = max(self.default_rule.observed_class_distribution.items(), key=itemgetter(1),
+                        default=(None, 0))[0]
         description += 'Default Rule :' + str(self.default_rule.get_rule()) + '| class :' + str(class_idx) + '  ' + \
                        str(self.default_rule.observed_class_distribution)
         return description
-- 
2.43.0


From ef25292b4915c3057d72124af301f1811697190d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:40 +0000
Subject: [PATCH 46/68] fix: bagging and boosting ensembles always tell their
 members the classes

---
 src/skmultiflow/meta/online_adac2.py              | 2 +-
 src/skmultiflow/meta/online_boosting.py           | 2 +-
 src/skmultiflow/meta/online_csb2.py               | 2 +-
 src/skmultiflow/meta/online_rus_boost.py          | 2 +-
 src/skmultiflow/meta/online_smote_bagging.py      | 6 +++---
 src/skmultiflow/meta/online_under_over_bagging.py | 2 +-
 src/skmultiflow/meta/oza_bagging.py               | 2 +-
 src/skmultiflow/meta/oza_bagging_adwin.py         | 2 +-
 8 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index 65d67be..54cbd02 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -229,7 +229,7 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 if k > 0:
                     for b in range(k):
                         self.ensemble[i].partial_fit(
-                            [X[j]], [y[j]], classes,
+                            [X[j]], [y[j]], self.classes,
                             None if sample_weight is None else [sample_weight[j]])
                     if self.ensemble[i].predict([X[j]])[0] == 1 and y[j] == 1:
                         self.lam_tp[i] += self.cost_positive * lam
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index 8da67d6..f7c7ead 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -215,7 +215,7 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
                 if k > 0:
                     for b in range(k):
                         self.ensemble[i].partial_fit(
-                            [X[j]], [y[j]], classes,
+                            [X[j]], [y[j]], self.classes,
                             None if sample_weight is None else [sample_weight[j]])
                     if self.ensemble[i].predict([X[j]])[0] == y[j]:
                         self.lam_sc[i] += lam
diff --git a/src/skmultiflow/meta/online_csb2.py b/src/skmultiflow/meta/online_csb2.py
index 543b583..8b98170 100644
--- a/src/skmultiflow/meta/online_csb2.py
+++ b/src/skmultiflow/meta/online_csb2.py
@@ -222,7 +222,7 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 if k > 0:
                     for b in range(k):
                         self.ensemble[i].partial_fit(
-                            [X[j]], [y[j]], classes,
+                            [X[j]], [y[j]], self.classes,
                             None if sample_weight is None else [sample_weight[j]])
                     if self.ensemble[i].predict([X[j]])[0] == y[j]:
                         self.epsilon[i] = self.lam_sw[i] / self.lam_sum[i]
diff --git a/src/skmultiflow/meta/online_rus_boost.py b/src/skmultiflow/meta/online_rus_boost.py
index 87356dd..070b8cc 100644
--- a/src/skmultiflow/meta/online_rus_boost.py
+++ b/src/skmultiflow/meta/online_rus_boost.py
@@ -260,7 +260,7 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
                 if k > 0:
                     for b in range(k):
                         self.ensemble[i].partial_fit(
-                            [X[j]], [y[j]], classes,
+                            [X[j]], [y[j]], self.classes,
                             None if sample_weight is None else [sample_weight[j]])
                 if self.ensemble[i].predict([X[j]])[0] == y[j]:
                     self.lam_sc[i] += lam
diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index 4bec39a..8638527 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -213,7 +213,7 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
                     if k > 0:
                         for b in range(k):
                             self.ensemble[i].partial_fit(
-                                [X[j]], [y[j]], classes,
+                                [X[j]], [y[j]], self.classes,
                                 None if sample_weight is None else [sample_weight[j]])
                     k_smote = self._random_state.poisson(lam_smote)
 
@@ -221,14 +221,14 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
                         for b in range(k_smote):
                             x_smote = self.online_smote()
                             self.ensemble[i].partial_fit(
-                                [x_smote], [y[j]], classes,
+                                [x_smote], [y[j]], self.classes,
                                 None if sample_weight is None else [sample_weight[j]])
                 else:
                     k = self._random_state.poisson(lam)
                     if k > 0:
                         for b in range(k):
                             self.ensemble[i].partial_fit(
-                                [X[j]], [y[j]], classes,
+                                [X[j]], [y[j]], self.classes,
                                 None if sample_weight is None else [sample_weight[j]])
 
                 if self.drift_detection:
diff --git a/src/skmultiflow/meta/online_under_over_bagging.py b/src/skmultiflow/meta/online_under_over_bagging.py
index f886b63..de9e297 100644
--- a/src/skmultiflow/meta/online_under_over_bagging.py
+++ b/src/skmultiflow/meta/online_under_over_bagging.py
@@ -211,7 +211,7 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
                 if k > 0:
                     for b in range(k):
                         self.ensemble[i].partial_fit(
-                            [X[j]], [y[j]], classes,
+                            [X[j]], [y[j]], self.classes,
                             None if sample_weight is None else [sample_weight[j]])
 
                 if self.drift_detection:
diff --git a/src/skmultiflow/meta/oza_bagging.py b/src/skmultiflow/meta/oza_bagging.py
index 674204e..5f1d2f5 100644
--- a/src/skmultiflow/meta/oza_bagging.py
+++ b/src/skmultiflow/meta/oza_bagging.py
@@ -184,7 +184,7 @@ class OzaBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 if k > 0:
                     for b in range(k):
                         self.ensemble[i].partial_fit(
-                            [X[j]], [y[j]], classes,
+                            [X[j]], [y[j]], self.classes,
                             None if sample_weight is None else [sample_weight[j]])
         return self
 
diff --git a/src/skmultiflow/meta/oza_bagging_adwin.py b/src/skmultiflow/meta/oza_bagging_adwin.py
index 10b4dd5..990346f 100644
--- a/src/skmultiflow/meta/oza_bagging_adwin.py
+++ b/src/skmultiflow/meta/oza_bagging_adwin.py
@@ -171,7 +171,7 @@ class OzaBaggingADWINClassifier(OzaBaggingClassifier):
             k = self._random_state.poisson()
             if k > 0:
                 for b in range(k):
-                    self.ensemble[i].partial_fit(X, y, classes, sample_weight)
+                    self.ensemble[i].partial_fit(X, y, self.classes, sample_weight)
 
             try:
                 pred = self.ensemble[i].predict(X)
-- 
2.43.0


From c3e5fe2fdb4aaff512a45c8bd0f6eae689a333e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:22 +0000
Subject: [PATCH 47/68] fix: ensembles with ADWIN monitor the error of their
 members and reset the worst one

---
 src/skmultiflow/meta/online_adac2.py              | 2 +-
 src/skmultiflow/meta/online_boosting.py           | 2 +-
 src/skmultiflow/meta/online_smote_bagging.py      | 2 +-
 src/skmultiflow/meta/online_under_over_bagging.py | 2 +-
 src/skmultiflow/meta/oza_bagging_adwin.py         | 5 +----
 5 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index 54cbd02..f1df140 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -258,7 +258,7 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                         error_estimation = self.adwin_ensemble[i].estimation
                         for k in range(r):
                             if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] == y[k]))
+                                self.adwin_ensemble[i].add_element(int(pred[k] != y[k]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index f7c7ead..18527e5 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -234,7 +234,7 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
                         error_estimation = self.adwin_ensemble[i].estimation
                         for k in range(r):
                             if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] == y[k]))
+                                self.adwin_ensemble[i].add_element(int(pred[k] != y[k]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index 8638527..6372855 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -237,7 +237,7 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
                         error_estimation = self.adwin_ensemble[i].estimation
                         for k in range(r):
                             if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] == y[k]))
+                                self.adwin_ensemble[i].add_element(int(pred[k] != y[k]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_under_over_bagging.py b/src/skmultiflow/meta/online_under_over_bagging.py
index de9e297..452ad19 100644
--- a/src/skmultiflow/meta/online_under_over_bagging.py
+++ b/src/skmultiflow/meta/online_under_over_bagging.py
@@ -220,7 +220,7 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
                         error_estimation = self.adwin_ensemble[i].estimation
                         for k in range(r):
                             if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] == y[k]))
+                                self.adwin_ensemble[i].add_element(int(pred[k] != y[k]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/oza_bagging_adwin.py b/src/skmultiflow/meta/oza_bagging_adwin.py
index 990346f..dfb65e5 100644
--- a/src/skmultiflow/meta/oza_bagging_adwin.py
+++ b/src/skmultiflow/meta/oza_bagging_adwin.py
@@ -178,10 +178,7 @@ class OzaBaggingADWINClassifier(OzaBaggingClassifier):
                 error_estimation = self.adwin_ensemble[i].estimation
                 for j in range(r):
                     if pred[j] is not None:
-                        if pred[j] == y[j]:
-                            self.adwin_ensemble[i].add_element(1)
-                        else:
-                            self.adwin_ensemble[i].add_element(0)
+                        self.adwin_ensemble[i].add_element(int(pred[j] != y[j]))
                 if self.adwin_ensemble[i].detected_change():
                     if self.adwin_ensemble[i].estimation > error_estimation:
                         change_detected = True
-- 
2.43.0


From 3ae8ee1903e95b35ee389a771fd8a5640a0f3ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:20 +0000
Subject: [PATCH 48/68] fix: drift monitors of online ensembles count each
 sample once

---
 src/skmultiflow/meta/online_adac2.py              | 7 +++----
 src/skmultiflow/meta/online_boosting.py           | 7 +++----
 src/skmultiflow/meta/online_csb2.py               | 7 +++----
 src/skmultiflow/meta/online_rus_boost.py          | 7 +++----
 src/skmultiflow/meta/online_smote_bagging.py      | 7 +++----
 src/skmultiflow/meta/online_under_over_bagging.py | 7 +++----
 6 files changed, 18 insertions(+), 24 deletions(-)

diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index f1df140..016ad86 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -254,11 +254,10 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
 
                 if self.drift_detection:
                     try:
-                        pred = self.ensemble[i].predict(X)
+                        pred = self.ensemble[i].predict([X[j]])
                         error_estimation = self.adwin_ensemble[i].estimation
-                        for k in range(r):
-                            if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] != y[k]))
+                        if pred[0] is not None:
+                            self.adwin_ensemble[i].add_element(int(pred[0] != y[j]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index 18527e5..bb1bd10 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -230,11 +230,10 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
 
                 if self.drift_detection:
                     try:
-                        pred = self.ensemble[i].predict(X)
+                        pred = self.ensemble[i].predict([X[j]])
                         error_estimation = self.adwin_ensemble[i].estimation
-                        for k in range(r):
-                            if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] != y[k]))
+                        if pred[0] is not None:
+                            self.adwin_ensemble[i].add_element(int(pred[0] != y[j]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_csb2.py b/src/skmultiflow/meta/online_csb2.py
index 8b98170..2964e93 100644
--- a/src/skmultiflow/meta/online_csb2.py
+++ b/src/skmultiflow/meta/online_csb2.py
@@ -246,11 +246,10 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
 
                 if self.drift_detection:
                     try:
-                        pred = self.ensemble[i].predict(X)
+                        pred = self.ensemble[i].predict([X[j]])
                         error_estimation = self.adwin_ensemble[i].estimation
-                        for k in range(r):
-                            if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] == y[k]))
+                        if pred[0] is not None:
+                            self.adwin_ensemble[i].add_element(int(pred[0] == y[j]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_rus_boost.py b/src/skmultiflow/meta/online_rus_boost.py
index 070b8cc..6004e1a 100644
--- a/src/skmultiflow/meta/online_rus_boost.py
+++ b/src/skmultiflow/meta/online_rus_boost.py
@@ -275,11 +275,10 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
 
                 if self.drift_detection:
                     try:
-                        pred = self.ensemble[i].predict(X)
+                        pred = self.ensemble[i].predict([X[j]])
                         error_estimation = self.adwin_ensemble[i].estimation
-                        for k in range(r):
-                            if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] == y[k]))
+                        if pred[0] is not None:
+                            self.adwin_ensemble[i].add_element(int(pred[0] == y[j]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index 6372855..8011748 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -233,11 +233,10 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
 
                 if self.drift_detection:
                     try:
-                        pred = self.ensemble[i].predict(X)
+                        pred = self.ensemble[i].predict([X[j]])
                         error_estimation = self.adwin_ensemble[i].estimation
-                        for k in range(r):
-                            if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] != y[k]))
+                        if pred[0] is not None:
+                            self.adwin_ensemble[i].add_element(int(pred[0] != y[j]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_under_over_bagging.py b/src/skmultiflow/meta/online_under_over_bagging.py
index 452ad19..ceb6bb9 100644
--- a/src/skmultiflow/meta/online_under_over_bagging.py
+++ b/src/skmultiflow/meta/online_under_over_bagging.py
@@ -216,11 +216,10 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
 
                 if self.drift_detection:
                     try:
-                        pred = self.ensemble[i].predict(X)
+                        pred = self.ensemble[i].predict([X[j]])
                         error_estimation = self.adwin_ensemble[i].estimation
-                        for k in range(r):
-                            if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] != y[k]))
+                        if pred[0] is not None:
+                            self.adwin_ensemble[i].add_element(int(pred[0] != y[j]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
-- 
2.43.0


From 342ee222171e805452338a48e67429bce19e18bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:09 +0000
Subject: [PATCH 49/68] fix: boosting ensembles do not ignore members without
 errors

---
 src/skmultiflow/meta/online_adac2.py     |  8 +++++---
 src/skmultiflow/meta/online_boosting.py  | 10 +++++++---
 src/skmultiflow/meta/online_csb2.py      | 10 +++++++---
 src/skmultiflow/meta/online_rus_boost.py | 10 +++++++---
 4 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index 016ad86..997236f 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -355,6 +355,9 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
             warnings.filterwarnings('error')
             try:
                 for i in range(self.actual_n_estimators):
+                    # Errorless (or always wrong) estimators have a large but finite weight
+                    wacc = max(self.wacc[i], np.finfo(float).eps)
+                    werr = max(self.werr[i], np.finfo(float).eps)
                     partial_proba = self.ensemble[i].predict_proba(X)
                     if len(partial_proba[0]) > max(self.classes) + 1:
                         raise ValueError("The number of classes in the base learner"
@@ -367,10 +370,9 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                     for n in range(r):
                         for k in range(len(partial_proba[n])):
                             try:
-                                proba[n][k] += np.log(self.wacc[i] /
-                                                      self.werr[i]) * partial_proba[n][k]
+                                proba[n][k] += np.log(wacc / werr) * partial_proba[n][k]
                             except IndexError:
-                                proba[n].append(partial_proba[n][k])
+                                proba[n].append(np.log(wacc / werr) * partial_proba[n][k])
                             except RuntimeWarning:
                                 # Catch division by zero errors raised by numpy as RuntimeWarning
                                 continue
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index bb1bd10..ed1dba7 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -327,6 +327,9 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
             warnings.filterwarnings('error')
             try:
                 for i in range(self.actual_n_estimators):
+                    # Errorless (or always wrong) estimators have a large but finite weight
+                    epsilon = np.clip(self.epsilon[i], np.finfo(float).eps,
+                                      1 - np.finfo(float).eps)
                     partial_proba = self.ensemble[i].predict_proba(X)
                     if len(partial_proba[0]) > max(self.classes) + 1:
                         raise ValueError("The number of classes in the base learner is larger "
@@ -339,10 +342,11 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
                     for n in range(r):
                         for k in range(len(partial_proba[n])):
                             try:
-                                proba[n][k] += np.log((1 - self.epsilon[i]) /
-                                                      self.epsilon[i]) * partial_proba[n][k]
+                                proba[n][k] += np.log((1 - epsilon) / epsilon) \
+                                    * partial_proba[n][k]
                             except IndexError:
-                                proba[n].append(partial_proba[n][k])
+                                proba[n].append(np.log((1 - epsilon) / epsilon)
+                                                * partial_proba[n][k])
                             except RuntimeWarning:
                                 # Catch division by zero errors raised by numpy as RuntimeWarning
                                 continue
diff --git a/src/skmultiflow/meta/online_csb2.py b/src/skmultiflow/meta/online_csb2.py
index 2964e93..d324f33 100644
--- a/src/skmultiflow/meta/online_csb2.py
+++ b/src/skmultiflow/meta/online_csb2.py
@@ -346,6 +346,9 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
             warnings.filterwarnings('error')
             try:
                 for i in range(self.actual_n_estimators):
+                    # Errorless (or always wrong) estimators have a large but finite weight
+                    epsilon = np.clip(self.epsilon[i], np.finfo(float).eps,
+                                      1 - np.finfo(float).eps)
                     partial_proba = self.ensemble[i].predict_proba(X)
                     if len(partial_proba[0]) > max(self.classes) + 1:
                         raise ValueError("The number of classes in the base learner "
@@ -358,10 +361,11 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                     for n in range(r):
                         for k in range(len(partial_proba[n])):
                             try:
-                                proba[n][k] += np.log((1 - self.epsilon[i]) /
-                                                      self.epsilon[i]) * partial_proba[n][k]
+                                proba[n][k] += np.log((1 - epsilon) / epsilon) \
+                                    * partial_proba[n][k]
                             except IndexError:
-                                proba[n].append(partial_proba[n][k])
+                                proba[n].append(np.log((1 - epsilon) / epsilon)
+                                                * partial_proba[n][k])
                             except RuntimeWarning:
                                 # Catch division by zero errors raised by numpy as RuntimeWarning
                                 continue
diff --git a/src/skmultiflow/meta/online_rus_boost.py b/src/skmultiflow/meta/online_rus_boost.py
index 6004e1a..fcb144f 100644
--- a/src/skmultiflow/meta/online_rus_boost.py
+++ b/src/skmultiflow/meta/online_rus_boost.py
@@ -374,6 +374,9 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
             warnings.filterwarnings('error')
             try:
                 for i in range(self.actual_n_estimators):
+                    # Errorless (or always wrong) estimators have a large but finite weight
+                    epsilon = np.clip(self.epsilon[i], np.finfo(float).eps,
+                                      1 - np.finfo(float).eps)
                     partial_proba = self.ensemble[i].predict_proba(X)
                     if len(partial_proba[0]) > max(self.classes) + 1:
                         raise ValueError("The number of classes in the base learner is larger "
@@ -386,10 +389,11 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
                     for n in range(r):
                         for k in range(len(partial_proba[n])):
                             try:
-                                proba[n][k] += np.log((1 - self.epsilon[i]) /
-                                                      self.epsilon[i]) * partial_proba[n][k]
+                                proba[n][k] += np.log((1 - epsilon) / epsilon) \
+                                    * partial_proba[n][k]
                             except IndexError:
-                                proba[n].append(partial_proba[n][k])
+                                proba[n].append(np.log((1 - epsilon) / epsilon)
+                                                * partial_proba[n][k])
                             except RuntimeWarning:
                                 # Catch division by zero errors raised by numpy as RuntimeWarning
                                 continue
-- 
2.43.0


From 44df084eca1652a6add69470caa850c56f7f0828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:34 +0000
Subject: [PATCH 50/68] fix: LearnPP predicts class labels, also when they are
 not 0 to n-1

---
 src/skmultiflow/meta/learn_pp.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/meta/learn_pp.py b/src/skmultiflow/meta/learn_pp.py
index be01dbd..51ae155 100644
--- a/src/skmultiflow/meta/learn_pp.py
+++ b/src/skmultiflow/meta/learn_pp.py
@@ -281,6 +281,7 @@ class LearnPPClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
 
     def __vote_proba(self, X, t, ensemble, normalized_errors):
         res = []
+        positions = {label: i for i, label in enumerate(self.classes)}
         for m in range(len(X)):
             votes = np.zeros(len(self.classes))
             for i in range(t):
@@ -288,14 +289,14 @@ class LearnPPClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
 
                 y_predicts = h.predict(X[m].reshape(1, -1))
                 norm_error = normalized_errors[i]
-                votes[int(y_predicts[0])] += np.log(1 / (norm_error + 1e-50))
+                votes[positions[y_predicts[0]]] += np.log(1 / (norm_error + 1e-50))
 
             res.append(votes)
         return res
 
     def __majority_vote(self, X, t, ensemble, normalized_errors):
         res = self.__vote_proba(X, t, ensemble, normalized_errors)
-        return np.argmax(res, axis=1)
+        return np.asarray(self.classes)[np.argmax(res, axis=1)]
 
     def predict_proba(self, X):
         """ Predicts the probability of each sample belonging to each one of the
@@ -344,7 +345,9 @@ class LearnPPClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
 
         """
         votes = self.predict_proba(X)
-        return np.argmax(votes, axis=1)
+        if not self.ensembles:
+            return np.argmax(votes, axis=1)
+        return np.asarray(self.classes)[np.argmax(votes, axis=1)]
 
     def _get_item(self, items, items_weights, number_of_items):
         return self.random.choice(items, number_of_items, p=items_weights).astype(np.int32)
-- 
2.43.0


From 04815767ff2dbc386afac7c5f2326cd3816a2127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:16 +0000
Subject: [PATCH 51/68] fix: LearnPP.NSE predicts class labels, also when they
 are not 0 to n-1

---
 src/skmultiflow/meta/learn_nse.py | 32 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/src/skmultiflow/meta/learn_nse.py b/src/skmultiflow/meta/learn_nse.py
index 18eceaf..135d222 100644
--- a/src/skmultiflow/meta/learn_nse.py
+++ b/src/skmultiflow/meta/learn_nse.py
@@ -272,25 +272,13 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                     y_predicts = h.predict_proba(X[m].reshape(1, -1))
                     norm = np.linalg.norm(y_predicts, ord=1, axis=1, keepdims=True)
                     y_predicts = y_predicts / np.where(norm == 0, 1, norm)
-                    if y_predicts.shape[1] == len(classes):
-                        votes += self.ensemble_weights[i] * y_predicts
-                    else:
-                        if hasattr(h, 'classes_'):  # sklearn learner
-                            obs_classes = h.classes_
-                        elif hasattr(h, 'classes'):  # skmultiflow learner
-                            # probabilities are indexed by the class label
-                            obs_classes = np.arange(y_predicts.shape[1])
-                        else:
-                            raise AttributeError(
-                                'The base estimator does not define the "classes" or "classes_" ' +
-                                'parameter. The base estimator must specify the classes it has ' +
-                                'observed during the training stage in order to maintain ' +
-                                'consistency across the ensemble.'
-                            )
-                        votes += self.ensemble_weights[i] * \
-                            self._fill_missing_probs(
-                                y_predicts, obs_classes, self.classes
-                        )
+                    if hasattr(h, 'classes_'):  # sklearn learner
+                        obs_classes = h.classes_
+                    else:  # skmultiflow learner
+                        # probabilities are indexed by the class label
+                        obs_classes = np.arange(y_predicts.shape[1])
+                    votes += self.ensemble_weights[i] * \
+                        self._fill_missing_probs(y_predicts, obs_classes, self.classes)
 
             res.append(votes.reshape(len(classes)))
         return np.array(res)
@@ -301,6 +289,8 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
             (probs.shape[0], all_classes.size), dtype=np.float
         )
         sorted_classes = np.argsort(all_classes)
+        known = np.isin(obs_classes, all_classes)
+        probs, obs_classes = probs[:, known], obs_classes[known]
         # Find positions to insert existing classes' probs to the complete set
         # of classes
         idx = sorted_classes[np.searchsorted(all_classes, obs_classes, sorter=sorted_classes)]
@@ -345,7 +335,9 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         """
 
         votes = self.predict_proba(X)
-        return np.argmax(votes, axis=1)
+        if not self.ensemble:
+            return np.argmax(votes, axis=1)
+        return np.asarray(self.classes)[np.argmax(votes, axis=1)]
 
     def reset(self):
         self.ensemble = []
-- 
2.43.0


From 92ed2da4e08c765ae527cf5ef5c03e41810a9f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:06 +0000
Subject: [PATCH 52/68] fix: MultiOutputLearner passes classes to estimators
 that take no weights

---
 src/skmultiflow/meta/multi_output_learner.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/skmultiflow/meta/multi_output_learner.py b/src/skmultiflow/meta/multi_output_learner.py
index 5e63444..db4645c 100644
--- a/src/skmultiflow/meta/multi_output_learner.py
+++ b/src/skmultiflow/meta/multi_output_learner.py
@@ -120,9 +120,12 @@ class MultiOutputLearner(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin, Mul
         self.__configure()
 
         for j in range(self.n_targets):
-            if 'sample_weight' and 'classes' in signature(self.ensemble[j].fit).parameters:
+            parameters = signature(self.ensemble[j].fit).parameters
+            if 'sample_weight' in parameters and 'classes' in parameters:
                 self.ensemble[j].fit(X, y[:, j], classes=classes, sample_weight=sample_weight)
-            elif 'sample_weight' in signature(self.ensemble[j].fit).parameters:
+            elif 'classes' in parameters:
+                self.ensemble[j].fit(X, y[:, j], classes=classes)
+            elif 'sample_weight' in parameters:
                 self.ensemble[j].fit(X, y[:, j], sample_weight=sample_weight)
             else:
                 self.ensemble[j].fit(X, y[:, j])
@@ -168,10 +171,13 @@ class MultiOutputLearner(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin, Mul
             self.__configure()
 
         for j in range(self.n_targets):
-            if 'sample_weight' and 'classes' in signature(self.ensemble[j].partial_fit).parameters:
+            parameters = signature(self.ensemble[j].partial_fit).parameters
+            if 'sample_weight' in parameters and 'classes' in parameters:
                 self.ensemble[j].partial_fit(
                     X, y[:, j], classes=classes, sample_weight=sample_weight)
-            elif 'sample_weight' in signature(self.ensemble[j].partial_fit).parameters:
+            elif 'classes' in parameters:
+                self.ensemble[j].partial_fit(X, y[:, j], classes=classes)
+            elif 'sample_weight' in parameters:
                 self.ensemble[j].partial_fit(X, y[:, j], sample_weight=sample_weight)
             else:
                 self.ensemble[j].partial_fit(X, y[:, j])
-- 
2.43.0


From 56f2aaa9e62dddefe2c9e86eb08c44bac370cfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:53 +0000
Subject: [PATCH 53/68] fix: AdaptiveRandomForest probabilities are a matrix
 when some rows have no votes

---
 src/skmultiflow/meta/adaptive_random_forests.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/skmultiflow/meta/adaptive_random_forests.py b/src/skmultiflow/meta/adaptive_random_forests.py
index ee37d4d..ce848df 100644
--- a/src/skmultiflow/meta/adaptive_random_forests.py
+++ b/src/skmultiflow/meta/adaptive_random_forests.py
@@ -393,13 +393,8 @@ class AdaptiveRandomForestClassifier(BaseSKMObject, ClassifierMixin, MetaEstimat
                 for key, value in votes.items():
                     votes_array[int(key)] = value
                 y_proba.append(votes_array)
-        # Set result as np.array
-        if self.classes is not None:
-            y_proba = np.asarray(y_proba)
-        else:
-            # Fill missing values related to unobserved classes to ensure we get a 2D array
-            y_proba = np.asarray(list(itertools.zip_longest(*y_proba, fillvalue=0.0))).T
-        return y_proba
+        # Fill missing values related to unobserved classes to ensure we get a 2D array
+        return np.asarray(list(itertools.zip_longest(*y_proba, fillvalue=0.0))).T
 
     def reset(self):
         """Reset ARF."""
-- 
2.43.0


From e9422f5c64a248fb3d939db3174be2073662866c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:40 +0000
Subject: [PATCH 54/68] fix: AdaptiveRandomForest trains with the sample
 weights

---
 src/skmultiflow/meta/adaptive_random_forests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/adaptive_random_forests.py b/src/skmultiflow/meta/adaptive_random_forests.py
index ce848df..37a8017 100644
--- a/src/skmultiflow/meta/adaptive_random_forests.py
+++ b/src/skmultiflow/meta/adaptive_random_forests.py
@@ -327,7 +327,7 @@ class AdaptiveRandomForestClassifier(BaseSKMObject, ClassifierMixin, MetaEstimat
             if k > 0:
                 self.ensemble[i].partial_fit(np.asarray([X]), np.asarray([y]),
                                              classes=classes,
-                                             sample_weight=np.asarray([k]),
+                                             sample_weight=np.asarray([k * sample_weight]),
                                              instances_seen=self.instances_seen)
 
     def predict(self, X):
-- 
2.43.0


From 3fd539556c7f8d5ce49dd558fa73921da987cc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:29 +0000
Subject: [PATCH 55/68] fix: StreamingRandomPatches passes nominal attributes
 on when resampling

---
 src/skmultiflow/meta/streaming_random_patches.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index 7b7c6a2..1aa71c9 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -493,6 +493,9 @@ class StreamingRandomPatchesBaseLearner:
         else:
             # Use all features
             X_subset = X
+            if self._set_nominal_attributes and hasattr(self.base_estimator, 'nominal_attributes'):
+                self.base_estimator.nominal_attributes = self.nominal_attributes
+                self._set_nominal_attributes = False
 
         self.base_estimator.partial_fit(X=X_subset, y=y,
                                         classes=classes,
-- 
2.43.0


From 8b955e44886a47e073698593a3dc15e718ae59a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:13 +0000
Subject: [PATCH 56/68] fix: StreamingRandomPatches maps nominal attributes of
 untrained background learners

---
 src/skmultiflow/meta/streaming_random_patches.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index 1aa71c9..78fd928 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -586,6 +586,8 @@ class StreamingRandomPatchesBaseLearner:
             self.performance_evaluator.reset()
             self.created_on = self._background_learner.created_on
             self.feature_indexes = self._background_learner.feature_indexes
+            # The background learner may not have been trained yet
+            self._set_nominal_attributes = self._background_learner._set_nominal_attributes
             self._background_learner = None
         else:
             self.base_estimator.reset()
-- 
2.43.0


From 0785cace57447437952191325779369a84156fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:01 +0000
Subject: [PATCH 57/68] fix: AdaptiveRandomForestRegressor with one weighted
 tree predicts

---
 src/skmultiflow/meta/adaptive_random_forest_regressor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/meta/adaptive_random_forest_regressor.py b/src/skmultiflow/meta/adaptive_random_forest_regressor.py
index a9e41d6..80cb057 100644
--- a/src/skmultiflow/meta/adaptive_random_forest_regressor.py
+++ b/src/skmultiflow/meta/adaptive_random_forest_regressor.py
@@ -324,8 +324,8 @@ class AdaptiveRandomForestRegressor(RegressorMixin, AdaptiveRandomForestClassifi
             if self.weighted_vote_strategy is not None:
                 weights = np.asarray([learner.get_error() for learner in self.ensemble])
                 sum_weights = weights.sum()
-
-                if sum_weights != 0:
+                # A single tree has all of the error, there is nothing to weight
+                if sum_weights != 0 and len(weights) > 1:
                     # The higher the error, the worse is the tree
                     weights = sum_weights - weights
                     # Normalize weights to sum up to 1
-- 
2.43.0


From 13d1b8f46d27a19c2d99dd8cc388b1104ac5a875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:30 +0000
Subject: [PATCH 58/68] fix: LearnPP orders its votes by class label

---
 src/skmultiflow/meta/learn_pp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/learn_pp.py b/src/skmultiflow/meta/learn_pp.py
index 51ae155..bb8bbff 100644
--- a/src/skmultiflow/meta/learn_pp.py
+++ b/src/skmultiflow/meta/learn_pp.py
@@ -172,7 +172,7 @@ class LearnPPClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
             if classes is None:
                 raise RuntimeError("Should pass the classes in the first partial_fit call")
             else:
-                self.classes = classes
+                self.classes = sorted(classes)
 
         if classes is not None and self.classes is not None:
             if set(classes) == set(self.classes):
-- 
2.43.0


From 89cdece616f2377e534679a2480934687acec11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:11 +0000
Subject: [PATCH 59/68] fix: LearnPP.NSE orders its votes by class label

---
 src/skmultiflow/meta/learn_nse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/learn_nse.py b/src/skmultiflow/meta/learn_nse.py
index 135d222..c936c04 100644
--- a/src/skmultiflow/meta/learn_nse.py
+++ b/src/skmultiflow/meta/learn_nse.py
@@ -159,7 +159,7 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
             if classes is None:
                 raise RuntimeError("Should pass the classes in the first partial_fit call")
             else:
-                self.classes = classes
+                self.classes = sorted(classes)
 
         for i in range(N):
             self.X_batch.append(np.array(X[i]))
-- 
2.43.0


From f918e35ff621bd11b643d3991510f42356404373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:14 +0000
Subject: [PATCH 60/68] fix: GaussianEstimator puts equal observations on the
 right side of a value

---
 src/skmultiflow/trees/gaussian_estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/gaussian_estimator.py b/src/skmultiflow/trees/gaussian_estimator.py
index 1b6c286..62c6d22 100644
--- a/src/skmultiflow/trees/gaussian_estimator.py
+++ b/src/skmultiflow/trees/gaussian_estimator.py
@@ -86,7 +86,7 @@ class GaussianEstimator(object):
             lessthan_weight = normal_probability((value - mean) / std_dev) * self._weight_sum \
                 - equalto_weight
         else:
-            if value < mean:
+            if value > mean:
                 lessthan_weight = self._weight_sum - equalto_weight
             else:
                 lessthan_weight = 0.0
-- 
2.43.0


From ac0239a299f09ebf29efa3dc5fd35b2b3386475f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:38 +0000
Subject: [PATCH 61/68] fix: set the plot's window title through the figure
 manager

FigureCanvas.set_window_title was removed from matplotlib, so every
evaluation with show_plot=True failed before it started.
---
 src/skmultiflow/visualization/evaluation_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/visualization/evaluation_visualizer.py b/src/skmultiflow/visualization/evaluation_visualizer.py
index 6e3b445..25cf6e3 100644
--- a/src/skmultiflow/visualization/evaluation_visualizer.py
+++ b/src/skmultiflow/visualization/evaluation_visualizer.py
@@ -182,7 +182,7 @@ class EvaluationVisualizer(BaseListener):
         self.fig.suptitle(self.dataset_name)
         plot_metrics = [m for m in self.metrics if m not in [constants.RUNNING_TIME, constants.MODEL_SIZE]]
         base = 11 + len(plot_metrics) * 100  # 3-digit integer describing the position of the subplot.
-        self.fig.canvas.set_window_title('scikit-multiflow')
+        self.fig.canvas.manager.set_window_title('scikit-multiflow')
 
         # Subplots handler
         for metric_id in self.metrics:
-- 
2.43.0


From 904d35e17c90bdd4dcd8f8c7c74372ee9de7d709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:50 +0000
Subject: [PATCH 62/68] fix: plot data points with the predicted class of the
 sample shown

The true label was taken for the prediction, the features came from the
first and the label from the last sample of the batch, and classes were
matched by position instead of by label, with a new set of clusters added
at every update.
---
 src/skmultiflow/evaluation/base_evaluator.py           | 6 +++---
 src/skmultiflow/visualization/evaluation_visualizer.py | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/skmultiflow/evaluation/base_evaluator.py b/src/skmultiflow/evaluation/base_evaluator.py
index a3f4a14..2ea9dae 100644
--- a/src/skmultiflow/evaluation/base_evaluator.py
+++ b/src/skmultiflow/evaluation/base_evaluator.py
@@ -440,13 +440,13 @@ class StreamEvaluator(BaseSKMObject, metaclass=ABCMeta):
                 features = {}  # Dictionary containing feature values, using index as key
 
                 # Only track one model (first) by default
-                y_pred, p = self.mean_eval_measurements[0].get_last()
+                _, y_pred = self.mean_eval_measurements[0].get_last()
 
                 X = self.stream.current_sample_x
                 idx_1 = 0  # TODO let the user choose the feature indices of interest
                 idx_2 = 1
-                features[idx_1] = X[0][idx_1]
-                features[idx_2] = X[0][idx_2]
+                features[idx_1] = X[-1][idx_1]
+                features[idx_2] = X[-1][idx_2]
 
                 values = [None, None, None]
                 values[0] = features
diff --git a/src/skmultiflow/visualization/evaluation_visualizer.py b/src/skmultiflow/visualization/evaluation_visualizer.py
index 25cf6e3..333b474 100644
--- a/src/skmultiflow/visualization/evaluation_visualizer.py
+++ b/src/skmultiflow/visualization/evaluation_visualizer.py
@@ -391,14 +391,15 @@ class EvaluationVisualizer(BaseListener):
                 if not plot_tracker.data['clusters_initialized']:
                     for j in range(len(plot_tracker.data[data_id])):
                         plot_tracker.data['clusters'].append(FastBuffer(plot_tracker.data['buffer_size']))
+                    plot_tracker.data['clusters_initialized'] = True
 
                 # Process predictions
                 data_id = 'predictions'
                 plot_tracker.data[data_id].add_element([data_buffer.get_data(metric_id=metric_id, data_id=data_id)])
 
-                for k, cluster in enumerate(plot_tracker.data['clusters']):
+                for k, cluster in zip(plot_tracker.data['target_values'], plot_tracker.data['clusters']):
                     if plot_tracker.data[data_id].get_queue()[-1] == k:
-                        plot_tracker.data['clusters'][k].add_element([(X1, X2)])
+                        cluster.add_element([(X1, X2)])
                         # TODO confirm buffer update inside the loop
                     if cluster.get_queue():
                         temp = cluster.get_queue()
-- 
2.43.0


From d00fd9dfa9a23d24388178251bb6e42470bcfe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:15 +0000
Subject: [PATCH 63/68] fix: give the plot of the geometric mean its title

---
 src/skmultiflow/visualization/evaluation_visualizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skmultiflow/visualization/evaluation_visualizer.py b/src/skmultiflow/visualization/evaluation_visualizer.py
index 333b474..7e80dd4 100644
--- a/src/skmultiflow/visualization/evaluation_visualizer.py
+++ b/src/skmultiflow/visualization/evaluation_visualizer.py
@@ -295,6 +295,9 @@ class EvaluationVisualizer(BaseListener):
                 elif metric_id == constants.F1_SCORE:
                     plot_tracker.sub_plot_obj.set_title('F1 Score')
                     plot_tracker.sub_plot_obj.set_ylabel('f1 score')
+                elif metric_id == constants.GMEAN:
+                    plot_tracker.sub_plot_obj.set_title('G-mean')
+                    plot_tracker.sub_plot_obj.set_ylabel('gmean')
                 elif metric_id == constants.HAMMING_SCORE:
                     plot_tracker.sub_plot_obj.set_title('Hamming score')
                     plot_tracker.sub_plot_obj.set_ylabel('hamming score')
-- 
2.43.0


From 8091daf0765165b16be774ee66499466a144eb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:24 +0000
Subject: [PATCH 64/68] fix: forget time, delay and weight of the last sample
 when a temporal stream restarts

---
 src/skmultiflow/data/temporal_data_stream.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/skmultiflow/data/temporal_data_stream.py b/src/skmultiflow/data/temporal_data_stream.py
index 291c2eb..e750ce0 100644
--- a/src/skmultiflow/data/temporal_data_stream.py
+++ b/src/skmultiflow/data/temporal_data_stream.py
@@ -212,3 +212,12 @@ class TemporalDataStream(DataStream):
         """
         return self.current_sample_x, self.current_sample_y, self.current_sample_time,\
             self.current_sample_delay, self.current_sample_weight
+
+    def restart(self):
+        """ Restarts the stream, discarding the current sample, its time, delay and weight.
+
+        """
+        super().restart()
+        self.current_sample_time = None
+        self.current_sample_delay = None
+        self.current_sample_weight = None
-- 
2.43.0


From 87cf6a2d0c5a0870af1f95cbbb16d028bdf4f98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:58 +0000
Subject: [PATCH 65/68] fix: keep copies of the results in the multi-label
 evaluators

---
 .../_classification_performance_evaluator.pyx        | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
index 0be074b..dad4930 100644
--- a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
+++ b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
@@ -650,8 +650,8 @@ cdef class MultiLabelClassificationPerformanceEvaluator:
             self.jaccard_sum += inter_val / union_val
 
         # Keep track of last entry
-        self.last_true = y_true
-        self.last_pred = y_pred
+        self.last_true = y_true.copy()
+        self.last_pred = y_pred.copy()
 
     cpdef double hamming_score(self):
         """ Hamming score.
@@ -860,12 +860,12 @@ cdef class WindowMultiLabelClassificationPerformanceEvaluator(MultiLabelClassifi
             jaccard_sum_remove = inter_val / union_val
 
         # Keep track of last entry
-        self.last_true = y_true
-        self.last_pred = y_pred
+        self.last_true = y_true.copy()
+        self.last_pred = y_pred.copy()
 
         # Enqueue sample so it can be removed when the window is full.
-        self._queue.append((y_true,
-                            y_pred,
+        self._queue.append((self.last_true,
+                            self.last_pred,
                             sample_weight,
                             is_equal_remove,
                             jaccard_sum_remove))
-- 
2.43.0


From b1f97f03e4cfea99956845baab7dea536415ca20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:58 +0000
Subject: [PATCH 66/68] fix: accuracy of the measurement classes is 0, not NaN,
 before the first result

---
 src/skmultiflow/metrics/measure_collection.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/skmultiflow/metrics/measure_collection.py b/src/skmultiflow/metrics/measure_collection.py
index 97cac58..0e103fb 100644
--- a/src/skmultiflow/metrics/measure_collection.py
+++ b/src/skmultiflow/metrics/measure_collection.py
@@ -138,10 +138,9 @@ class ClassificationMeasurements(object):
         n, _ = self.confusion_matrix.shape()
         for i in range(n):
             sum_value += self.confusion_matrix.value_at(i, i)
-        try:
-            return sum_value / self.sample_count
-        except ZeroDivisionError:
+        if self.sample_count == 0:
             return 0.0
+        return sum_value / self.sample_count
 
     def get_incorrectly_classified_ratio(self):
         return 1.0 - self.get_accuracy()
@@ -506,10 +505,9 @@ class WindowClassificationMeasurements(object):
         n, _ = self.confusion_matrix.shape()
         for i in range(n):
             sum_value += self.confusion_matrix.value_at(i, i)
-        try:
-            return sum_value / self.true_labels.get_current_size()
-        except ZeroDivisionError:
+        if self.sample_count == 0:
             return 0.0
+        return sum_value / self.sample_count
 
     def get_incorrectly_classified_ratio(self):
         return 1.0 - self.get_accuracy()
-- 
2.43.0


From 7aa39742ff63d14905d603ffacc87f62152a660c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:08 +0000
Subject: [PATCH 67/68] fix: summarise evaluations stopped by their time limit
 before the first measurement

---
 src/skmultiflow/evaluation/evaluate_holdout.py     | 4 ++++
 src/skmultiflow/evaluation/evaluate_prequential.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/skmultiflow/evaluation/evaluate_holdout.py b/src/skmultiflow/evaluation/evaluate_holdout.py
index c18e07a..6d8fe2f 100644
--- a/src/skmultiflow/evaluation/evaluate_holdout.py
+++ b/src/skmultiflow/evaluation/evaluate_holdout.py
@@ -334,6 +334,10 @@ class EvaluateHoldout(StreamEvaluator):
                     self._update_metrics()
                 break
 
+        # Short evaluations end before the first periodic measurement
+        if performance_sampling_cnt == 0:
+            self._update_metrics()
+
         # Flush file buffer, in case it contains data
         self._flush_file_buffer()
 
diff --git a/src/skmultiflow/evaluation/evaluate_prequential.py b/src/skmultiflow/evaluation/evaluate_prequential.py
index e621331..abb97a0 100644
--- a/src/skmultiflow/evaluation/evaluate_prequential.py
+++ b/src/skmultiflow/evaluation/evaluate_prequential.py
@@ -383,6 +383,10 @@ class EvaluatePrequential(StreamEvaluator):
                     self._update_metrics()
                 break
 
+        # Short evaluations end before the first periodic measurement
+        if update_count == 0:
+            self._update_metrics()
+
         # Flush file buffer, in case it contains data
         self._flush_file_buffer()
 
-- 
2.43.0


From 869cab88f8872f7f8775adb781e2a1ff6d8c8522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:00 +0000
Subject: [PATCH 68/68] fix: standard deviation of fractional weights in the
 variance reduction criterion

---
 .../_split_criterion/variance_reduction_split_criterion.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/_split_criterion/variance_reduction_split_criterion.py b/src/skmultiflow/trees/_split_criterion/variance_reduction_split_criterion.py
index 7abfdd2..084c33a 100644
--- a/src/skmultiflow/trees/_split_criterion/variance_reduction_split_criterion.py
+++ b/src/skmultiflow/trees/_split_criterion/variance_reduction_split_criterion.py
@@ -36,7 +36,7 @@ class VarianceReductionSplitCriterion(SplitCriterion):
     @staticmethod
     def compute_SD(dist):
 
-        N = int(dist[0])
+        N = dist[0]
         sum_ = dist[1]
         sum_sq = dist[2]
 
-- 
2.43.0

