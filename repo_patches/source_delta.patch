From d456447f9d41a97ea0fceadce8a6be830164a44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:24 +0000
Subject: [PATCH 01/19] fix: classify pairs at each score threshold
 independently of the other thresholds

compute_pair_classifications narrowed one mask in place, so the confusion
matrix and examples of a threshold were computed under every threshold
listed before it.
---
 src/valor_lite/classification/computation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/classification/computation.py b/src/valor_lite/classification/computation.py
index eb5b2e2..224333a 100644
--- a/src/valor_lite/classification/computation.py
+++ b/src/valor_lite/classification/computation.py
@@ -287,9 +287,11 @@ def compute_pair_classifications(
     )
 
     mask_label_match = np.isclose(gt_labels, pd_labels)
-    mask_score = scores > 1e-9
+    mask_score_nonzero = scores > 1e-9
     for score_idx in range(n_scores):
-        mask_score &= scores >= score_thresholds[score_idx]
+        mask_score = mask_score_nonzero & (
+            scores >= score_thresholds[score_idx]
+        )
         if hardmax:
             mask_score &= winners
 
-- 
2.43.0


From d40d4ee5654f37616b4eb02f4d40f30b72551ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:14 +0000
Subject: [PATCH 02/19] fix: divide classification accuracy by the number of
 datums selected by the filter

---
 src/valor_lite/classification/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valor_lite/classification/evaluator.py b/src/valor_lite/classification/evaluator.py
index b6d9e57..5bd410b 100644
--- a/src/valor_lite/classification/evaluator.py
+++ b/src/valor_lite/classification/evaluator.py
@@ -593,7 +593,7 @@ class Evaluator:
             raise ValueError("At least one score threshold must be passed.")
 
         n_scores = len(score_thresholds)
-        n_datums = self.info.number_of_datums
+        n_datums = self.get_info(datums=datums).number_of_datums
         n_labels = self.info.number_of_labels
 
         # intermediates
-- 
2.43.0


From fbd9b52e50cd1d55161376af553865aab59b7be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:08 +0000
Subject: [PATCH 03/19] fix: start the ROC curve at the origin however it is
 split into chunks

The point preceding a chunk was only prepended when it was past the origin,
so the first segment of the curve was dropped whenever the origin and the
first curve point ended up in different cache files, or when every score of a
label was zero.
---
 src/valor_lite/classification/computation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valor_lite/classification/computation.py b/src/valor_lite/classification/computation.py
index 224333a..82dfa7a 100644
--- a/src/valor_lite/classification/computation.py
+++ b/src/valor_lite/classification/computation.py
@@ -59,7 +59,7 @@ def compute_rocauc(
 
         fps = cumulative_fp[mask_pds]
         tps = cumulative_tp[mask_pds]
-        if prev[label_idx, 0] > 0 or prev[label_idx, 1] > 0:
+        if fps[0] != prev[label_idx, 0] or tps[0] != prev[label_idx, 1]:
             fps = np.r_[prev[label_idx, 0], fps]
             tps = np.r_[prev[label_idx, 1], tps]
 
-- 
2.43.0


From 4ef183553d3fd1e15bfc0f390deb9ed5dd7a59cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:22 +0000
Subject: [PATCH 04/19] fix: merge multi-file caches into an in-memory cache
 without losing rows

The in-memory intermediate has no fragments, so sorting a cache of several
files into a MemoryCacheWriter produced an empty or unsorted result.
---
 src/valor_lite/cache/compute.py | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/src/valor_lite/cache/compute.py b/src/valor_lite/cache/compute.py
index 1a1dbf6..fa4d47e 100644
--- a/src/valor_lite/cache/compute.py
+++ b/src/valor_lite/cache/compute.py
@@ -122,29 +122,15 @@ def sort(
         sink.flush()
         return
 
-    if isinstance(sink, FileCacheWriter):
-        with tempfile.TemporaryDirectory() as tmpdir:
-            intermediate_sink = FileCacheWriter.create(
-                path=Path(tmpdir) / "sorting_intermediate",
-                schema=sink.schema,
-                batch_size=sink.batch_size,
-                rows_per_file=sink.rows_per_file,
-                compression=sink.compression,
-                delete_if_exists=False,
-            )
-            _merge(
-                source=source,
-                sink=sink,
-                intermediate_sink=intermediate_sink,
-                batch_size=batch_size,
-                sorting=sorting,
-                columns=columns,
-                table_sort_override=table_sort_override,
-            )
-    else:
-        intermediate_sink = MemoryCacheWriter.create(
+    # only a file-based source has more than one fragment to merge
+    with tempfile.TemporaryDirectory() as tmpdir:
+        intermediate_sink = FileCacheWriter.create(
+            path=Path(tmpdir) / "sorting_intermediate",
             schema=sink.schema,
-            batch_size=sink.batch_size,
+            batch_size=source.batch_size,
+            rows_per_file=source.rows_per_file,  # type: ignore[reportAttributeAccessIssue]
+            compression=source.compression,  # type: ignore[reportAttributeAccessIssue]
+            delete_if_exists=False,
         )
         _merge(
             source=source,
-- 
2.43.0


From c022b740d0361992086b4f81ec1c3a19c204b9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:29 +0000
Subject: [PATCH 05/19] fix: keep tracking claimed pixels after the first
 overlapping bitmask

A mask that overlapped an earlier one was not accumulated, so a third mask
could claim the pixels it had just been given.
---
 src/valor_lite/semantic_segmentation/annotation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/valor_lite/semantic_segmentation/annotation.py b/src/valor_lite/semantic_segmentation/annotation.py
index b4170e6..dca417d 100644
--- a/src/valor_lite/semantic_segmentation/annotation.py
+++ b/src/valor_lite/semantic_segmentation/annotation.py
@@ -110,8 +110,7 @@ class Segmentation:
                 mask_overlap_accumulation = (
                     mask_overlap_accumulation | mask_overlap
                 )
-            else:
-                mask_accumulation = mask_accumulation | bitmask.mask
+            mask_accumulation = mask_accumulation | bitmask.mask
         if (
             mask_overlap_accumulation is not None
             and mask_overlap_accumulation.any()
-- 
2.43.0


From 54051ca5fd027438cf210441278f01aa6d772ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:15 +0000
Subject: [PATCH 06/19] fix: resolve bitmask overlaps without writing to the
 caller's mask array

Bitmasks sharing an array (for instance a mask used as both ground truth and
prediction) lost each other's pixels.
---
 src/valor_lite/semantic_segmentation/annotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valor_lite/semantic_segmentation/annotation.py b/src/valor_lite/semantic_segmentation/annotation.py
index dca417d..5156857 100644
--- a/src/valor_lite/semantic_segmentation/annotation.py
+++ b/src/valor_lite/semantic_segmentation/annotation.py
@@ -106,7 +106,7 @@ class Segmentation:
                 mask_overlap_accumulation = np.zeros_like(mask_accumulation)
             elif np.logical_and(mask_accumulation, bitmask.mask).any():
                 mask_overlap = np.logical_and(mask_accumulation, bitmask.mask)
-                bitmasks[idx].mask[mask_overlap] = False
+                bitmasks[idx].mask = bitmask.mask & ~mask_overlap
                 mask_overlap_accumulation = (
                     mask_overlap_accumulation | mask_overlap
                 )
-- 
2.43.0


From 967c4ae72550583db8eb0f335e40dad170bd99ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:09 +0000
Subject: [PATCH 07/19] fix: count the pixels of every bitmask when several
 share a label

Fancy-index assignment kept only the last bitmask of a label, so pixels of
the others were dropped from the confusion matrix.
---
 .../semantic_segmentation/computation.py      | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/valor_lite/semantic_segmentation/computation.py b/src/valor_lite/semantic_segmentation/computation.py
index 087e57d..a2aea9b 100644
--- a/src/valor_lite/semantic_segmentation/computation.py
+++ b/src/valor_lite/semantic_segmentation/computation.py
@@ -47,14 +47,23 @@ def compute_intermediates(
 
     confusion_matrix = np.zeros((n_labels + 1, n_labels + 1), dtype=np.uint64)
     confusion_matrix[0, 0] = background_counts
-    confusion_matrix[
-        np.ix_(groundtruth_labels + 1, prediction_labels + 1)
-    ] = intersection_counts
-    confusion_matrix[0, prediction_labels + 1] = (
-        prediction_counts - intersected_prediction_counts
+    # accumulate as several bitmasks may share a label
+    n_groundtruths = groundtruth_labels.size
+    n_predictions = prediction_labels.size
+    np.add.at(
+        confusion_matrix,
+        np.ix_(groundtruth_labels + 1, prediction_labels + 1),
+        intersection_counts[:n_groundtruths, :n_predictions],
     )
-    confusion_matrix[groundtruth_labels + 1, 0] = (
-        groundtruth_counts - intersected_groundtruth_counts
+    np.add.at(
+        confusion_matrix,
+        (0, prediction_labels + 1),
+        (prediction_counts - intersected_prediction_counts)[:n_predictions],
+    )
+    np.add.at(
+        confusion_matrix,
+        (groundtruth_labels + 1, 0),
+        (groundtruth_counts - intersected_groundtruth_counts)[:n_groundtruths],
     )
     return confusion_matrix
 
-- 
2.43.0


From cb51d2f4884b4fecd1fc1043a4c6239396adb602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:08 +0000
Subject: [PATCH 08/19] fix: refuse to finalize object detection data twice

A second finalize appended every ranked pair again, doubling the counts. The
classification builder already raises in this situation.
---
 src/valor_lite/object_detection/evaluator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/valor_lite/object_detection/evaluator.py b/src/valor_lite/object_detection/evaluator.py
index 2585e40..ccf687f 100644
--- a/src/valor_lite/object_detection/evaluator.py
+++ b/src/valor_lite/object_detection/evaluator.py
@@ -183,6 +183,8 @@ class Builder:
         self._detailed_writer.flush()
         if self._detailed_writer.count_rows() == 0:
             raise EmptyCacheError()
+        elif self._ranked_writer.count_rows() > 0:
+            raise RuntimeError("data already finalized")
 
         self._detailed_writer.sort_by(
             [
-- 
2.43.0


From af364207d0c5094624d6e2c63b732fc3491a916a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:14 +0000
Subject: [PATCH 09/19] fix: bin recall exactly when building the
 precision-recall curve

floor(recall * 100) falls one bin short for ratios such as 29/50, which
lowered the 101-point average precision.
---
 src/valor_lite/object_detection/computation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/valor_lite/object_detection/computation.py b/src/valor_lite/object_detection/computation.py
index ad31932..64b5a58 100644
--- a/src/valor_lite/object_detection/computation.py
+++ b/src/valor_lite/object_detection/computation.py
@@ -480,14 +480,14 @@ def compute_counts(
         where=running_total_count > 0,
         out=precision,
     )
-    recall = np.zeros_like(running_total_count, dtype=np.float64)
-    np.divide(
-        running_tp_count,
-        running_gt_count,
+    # bin recall using integers as floats can fall short of the bin edge
+    recall_index = np.zeros_like(running_total_count, dtype=np.int64)
+    np.floor_divide(
+        running_tp_count.astype(np.int64) * 100,
+        running_gt_count.astype(np.int64),
         where=running_gt_count > 0,
-        out=recall,
+        out=recall_index,
     )
-    recall_index = np.floor(recall * 100.0).astype(np.int32)
 
     # sort precision in descending order
     precision_indices = np.argsort(-precision, axis=1)
-- 
2.43.0


From 3b91d043960785ed91eb31164ab498c758c4b019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:28 +0000
Subject: [PATCH 10/19] fix: score context recall when a ground truth yields no
 statements

An empty list of statements passes validation and then divided by zero.
---
 src/valor_lite/text_generation/computation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/valor_lite/text_generation/computation.py b/src/valor_lite/text_generation/computation.py
index d1f9bc8..a7bffc6 100644
--- a/src/valor_lite/text_generation/computation.py
+++ b/src/valor_lite/text_generation/computation.py
@@ -310,6 +310,9 @@ def calculate_context_recall(
             context_list=predicted_context,
             groundtruth_statements=groundtruth_statements,
         )
+        if len(verdicts) == 0:
+            scores.append(0.0)
+            continue
         scores.append(
             sum(verdict["verdict"] == "yes" for verdict in verdicts)
             / len(verdicts)
-- 
2.43.0


From 1bf7ef6e52b13eb6afa8c8f3de2e5ed67f2e3560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:05 +0000
Subject: [PATCH 11/19] fix: report a non-string verdict as an invalid LLM
 response

An unhashable verdict (a list or an object) raised TypeError out of the
metric instead of being retried.
---
 src/valor_lite/text_generation/llm/validators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/valor_lite/text_generation/llm/validators.py b/src/valor_lite/text_generation/llm/validators.py
index 83d8735..c79049c 100644
--- a/src/valor_lite/text_generation/llm/validators.py
+++ b/src/valor_lite/text_generation/llm/validators.py
@@ -59,6 +59,10 @@ def validate_verdicts(
             raise InvalidLLMResponseError(
                 f"LLM response is malformed. Inner dictionaries should only contain keys 'verdict' and 'analysis': {response} "
             )
+        elif not isinstance(value["verdict"], str):
+            raise InvalidLLMResponseError(
+                f"LLM response should follow the format 'dict[str, list[dict[str, str]]]': {response}"
+            )
         elif (
             allowed_values is not None
             and value["verdict"] not in allowed_values
-- 
2.43.0


From e9280118e9e7688bfbffc0bc2e85a5b3a636906c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:26 +0000
Subject: [PATCH 12/19] fix: keep write order when a table follows buffered
 rows in a memory cache

---
 src/valor_lite/cache/ephemeral.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/valor_lite/cache/ephemeral.py b/src/valor_lite/cache/ephemeral.py
index 92c4e5d..bb1ac3e 100644
--- a/src/valor_lite/cache/ephemeral.py
+++ b/src/valor_lite/cache/ephemeral.py
@@ -254,6 +254,7 @@ class MemoryCacheWriter(MemoryCache):
         table : pa.Table
             A populated table.
         """
+        self.flush()
         self._table = pa.concat_tables([self._table, table])
 
     def flush(self):
-- 
2.43.0


From 4ef6c2c91d2184575d547fef3c7f1b0019e3e7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:50 +0000
Subject: [PATCH 13/19] fix: find the files of a cache whose path contains
 wildcard characters

---
 src/valor_lite/cache/persistent.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/valor_lite/cache/persistent.py b/src/valor_lite/cache/persistent.py
index 05356a9..ef25af7 100644
--- a/src/valor_lite/cache/persistent.py
+++ b/src/valor_lite/cache/persistent.py
@@ -107,7 +107,10 @@ class FileCache:
         if not self._path.exists():
             return []
         return [
-            Path(filepath) for filepath in glob.glob(f"{self._path}/*.parquet")
+            Path(filepath)
+            for filepath in glob.glob(
+                f"{glob.escape(str(self._path))}/*.parquet"
+            )
         ]
 
 
-- 
2.43.0


From 1bcf573a770310ebf9304a8bc9700273cd34522b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:05 +0000
Subject: [PATCH 14/19] fix: report unloadable numbers and nesting in LLM
 answers as invalid responses

---
 src/valor_lite/text_generation/llm/utilities.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/valor_lite/text_generation/llm/utilities.py b/src/valor_lite/text_generation/llm/utilities.py
index 1ffd809..ff667d0 100644
--- a/src/valor_lite/text_generation/llm/utilities.py
+++ b/src/valor_lite/text_generation/llm/utilities.py
@@ -34,10 +34,19 @@ def trim_and_load_json(text: str) -> dict[str, Any]:
         raise InvalidLLMResponseError(
             f"Evaluation LLM responded with invalid JSON. JSONDecodeError: {str(e)}"
         )
+    except (ValueError, RecursionError) as e:
+        # e.g. integers with too many digits or objects nested too deeply
+        raise InvalidLLMResponseError(
+            f"Evaluation LLM responded with JSON that cannot be loaded. {type(e).__name__}: {str(e)}"
+        )
 
 
 def find_first_signed_integer(text: str) -> int | None:
     match = re.search(r"-?\d+", text)
     if not match:
         return None
-    return int(match.group())
+    try:
+        return int(match.group())
+    except ValueError:
+        # more digits than can be converted to an integer
+        return None
-- 
2.43.0


From 37ffd0d39d80d99e57a25128f912ab4068032ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:01 +0000
Subject: [PATCH 15/19] fix: read file caches with the schema they were written
 with

---
 src/valor_lite/cache/persistent.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/cache/persistent.py b/src/valor_lite/cache/persistent.py
index ef25af7..e133168 100644
--- a/src/valor_lite/cache/persistent.py
+++ b/src/valor_lite/cache/persistent.py
@@ -194,7 +194,9 @@ class FileCacheReader(FileCache):
         Iterator[pa.Table]
         """
         for fragment in self.iterate_ordered_fragments(filter=filter):
-            yield fragment.to_table(columns=columns, filter=filter)
+            yield fragment.to_table(
+                schema=self._schema, columns=columns, filter=filter
+            )
 
     def iterate_arrays(
         self,
@@ -274,7 +276,9 @@ class FileCacheReader(FileCache):
         Iterator[Iterator[pa.RecordBatch]]
         """
         for fragment in self.iterate_ordered_fragments():
-            yield fragment.to_batches(batch_size=batch_size)
+            yield fragment.to_batches(
+                schema=self._schema, batch_size=batch_size
+            )
 
 
 class FileCacheWriter(FileCache):
-- 
2.43.0


From dc846f1ca803b323ddd2d416fd9824fcc39e58d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:19 +0000
Subject: [PATCH 16/19] fix: compare label indices exactly

np.isclose applies a relative tolerance of 1e-5, so with more than 100,000
labels a prediction whose label index neighbours the ground truth's was
counted as a label match.
---
 src/valor_lite/classification/computation.py   | 4 ++--
 src/valor_lite/object_detection/computation.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/valor_lite/classification/computation.py b/src/valor_lite/classification/computation.py
index 82dfa7a..9c0acde 100644
--- a/src/valor_lite/classification/computation.py
+++ b/src/valor_lite/classification/computation.py
@@ -132,7 +132,7 @@ def compute_counts(
     gt_labels = ids[:, 1]
     pd_labels = ids[:, 2]
 
-    mask_matching_labels = np.isclose(gt_labels, pd_labels)
+    mask_matching_labels = gt_labels == pd_labels
     mask_score_nonzero = ~np.isclose(scores, 0.0)
     mask_hardmax = winners > 0.5
     mask_valid_gts = gt_labels >= 0
@@ -286,7 +286,7 @@ def compute_pair_classifications(
         dtype=np.uint8,
     )
 
-    mask_label_match = np.isclose(gt_labels, pd_labels)
+    mask_label_match = gt_labels == pd_labels
     mask_score_nonzero = scores > 1e-9
     for score_idx in range(n_scores):
         mask_score = mask_score_nonzero & (
diff --git a/src/valor_lite/object_detection/computation.py b/src/valor_lite/object_detection/computation.py
index 64b5a58..33812c4 100644
--- a/src/valor_lite/object_detection/computation.py
+++ b/src/valor_lite/object_detection/computation.py
@@ -210,7 +210,7 @@ def rank_pairs(
     indices = np.where(mask_predictions)[0]
 
     # find best fits for prediction
-    mask_label_match = np.isclose(pairs[:, 3], pairs[:, 4])
+    mask_label_match = pairs[:, 3] == pairs[:, 4]
     matched_predictions = np.unique(pairs[mask_label_match, 2])
 
     mask_unmatched_predictions = ~np.isin(pairs[:, 2], matched_predictions)
@@ -401,7 +401,7 @@ def compute_counts(
 
     mask_score_nonzero = scores > EPSILON
     mask_gt_exists = gt_ids >= 0.0
-    mask_labels_match = np.isclose(gt_labels, pd_labels)
+    mask_labels_match = gt_labels == pd_labels
 
     mask_gt_exists_labels_match = mask_gt_exists & mask_labels_match
 
@@ -738,7 +738,7 @@ def compute_pair_classifications(
 
     mask_gt_exists = gt_ids > -0.5
     mask_pd_exists = pd_ids > -0.5
-    mask_label_match = np.isclose(gt_labels, pd_labels)
+    mask_label_match = gt_labels == pd_labels
     mask_score_nonzero = scores > EPSILON
     mask_iou_nonzero = ious > EPSILON
 
-- 
2.43.0


From c8763530b84ee3d1241b44720cd01caae75db6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:47 +0000
Subject: [PATCH 17/19] fix: iterate_tables_with_arrays works without
 numeric_columns

Both readers indexed the table by column objects when numeric_columns was
omitted and read no column at all when columns was omitted too.
---
 src/valor_lite/cache/ephemeral.py  | 5 +++--
 src/valor_lite/cache/persistent.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/valor_lite/cache/ephemeral.py b/src/valor_lite/cache/ephemeral.py
index bb1ac3e..b75bda3 100644
--- a/src/valor_lite/cache/ephemeral.py
+++ b/src/valor_lite/cache/ephemeral.py
@@ -108,12 +108,13 @@ class MemoryCacheReader(MemoryCache):
         """
         _columns = set(columns) if columns else set()
         _numeric_columns = set(numeric_columns) if numeric_columns else set()
-        columns = list(_columns.union(_numeric_columns))
+        array_columns = numeric_columns or columns
+        columns = list(_columns.union(_numeric_columns)) or None
         for tbl in self.iterate_tables(
             columns=columns,
             filter=filter,
         ):
-            table_columns = numeric_columns if numeric_columns else tbl.columns
+            table_columns = array_columns or tbl.column_names
             yield tbl, np.column_stack(
                 [tbl[col].to_numpy() for col in table_columns]
             )
diff --git a/src/valor_lite/cache/persistent.py b/src/valor_lite/cache/persistent.py
index e133168..5df1ba2 100644
--- a/src/valor_lite/cache/persistent.py
+++ b/src/valor_lite/cache/persistent.py
@@ -250,12 +250,13 @@ class FileCacheReader(FileCache):
         """
         _columns = set(columns) if columns else set()
         _numeric_columns = set(numeric_columns) if numeric_columns else set()
-        columns = list(_columns.union(_numeric_columns))
+        array_columns = numeric_columns or columns
+        columns = list(_columns.union(_numeric_columns)) or None
         for tbl in self.iterate_tables(
             columns=columns,
             filter=filter,
         ):
-            table_columns = numeric_columns if numeric_columns else tbl.columns
+            table_columns = array_columns or tbl.column_names
             yield tbl, np.column_stack(
                 [tbl[col].to_numpy() for col in table_columns]
             )
-- 
2.43.0


From fa0ddce23641bd52442c862bdf1deb6e728edc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:12 +0000
Subject: [PATCH 18/19] fix: table writes and in-place sorting keep the
 configured compression

pq.write_table was called without the compression of the cache, so files
written as tables and every file of a finalized evaluator were snappy.
---
 src/valor_lite/cache/persistent.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/cache/persistent.py b/src/valor_lite/cache/persistent.py
index 5df1ba2..b5c41e9 100644
--- a/src/valor_lite/cache/persistent.py
+++ b/src/valor_lite/cache/persistent.py
@@ -466,7 +466,11 @@ class FileCacheWriter(FileCache):
             A populated table.
         """
         self.flush()
-        pq.write_table(table, where=self._generate_next_filename())
+        pq.write_table(
+            table,
+            where=self._generate_next_filename(),
+            compression=self._compression,
+        )
 
     def flush(self):
         """Flush the cache buffer."""
@@ -502,7 +506,7 @@ class FileCacheWriter(FileCache):
             tbl = pf.read()
             pf.close()
             sorted_tbl = tbl.sort_by(sorting)
-            pq.write_table(sorted_tbl, file)
+            pq.write_table(sorted_tbl, file, compression=self._compression)
 
     def _generate_next_filename(self) -> Path:
         """Generates next dataset filepath."""
-- 
2.43.0


From c8f702f91f468e582e7a36b67ab46626be075efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:08 +0000
Subject: [PATCH 19/19] fix: write_columns keeps its own copy of numpy columns

pyarrow references numpy buffers instead of copying them, so a caller that
reused a column's buffer after writing changed rows already written.
---
 src/valor_lite/cache/ephemeral.py  | 10 +++++++++-
 src/valor_lite/cache/persistent.py | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/cache/ephemeral.py b/src/valor_lite/cache/ephemeral.py
index b75bda3..59e6c85 100644
--- a/src/valor_lite/cache/ephemeral.py
+++ b/src/valor_lite/cache/ephemeral.py
@@ -205,7 +205,15 @@ class MemoryCacheWriter(MemoryCache):
         """
         if not columns:
             return
-        batch = pa.RecordBatch.from_pydict(columns)
+        # pyarrow references numpy buffers which the caller may reuse
+        batch = pa.RecordBatch.from_pydict(
+            {
+                name: values.copy()
+                if isinstance(values, np.ndarray)
+                else values
+                for name, values in columns.items()
+            }
+        )
         self.write_batch(batch)
 
     def write_batch(
diff --git a/src/valor_lite/cache/persistent.py b/src/valor_lite/cache/persistent.py
index b5c41e9..15ef097 100644
--- a/src/valor_lite/cache/persistent.py
+++ b/src/valor_lite/cache/persistent.py
@@ -415,7 +415,15 @@ class FileCacheWriter(FileCache):
         """
         if not columns:
             return
-        batch = pa.RecordBatch.from_pydict(columns)
+        # pyarrow references numpy buffers which the caller may reuse
+        batch = pa.RecordBatch.from_pydict(
+            {
+                name: values.copy()
+                if isinstance(values, np.ndarray)
+                else values
+                for name, values in columns.items()
+            }
+        )
         self.write_batch(batch)
 
     def write_batch(
-- 
2.43.0

