#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for ids, titles and statements)."""
import json, os
S = "src/valor_lite/"
CL, OD, SS, TG, CA = (S + x + "/" for x in ("classification", "object_detection", "semantic_segmentation", "text_generation", "cache"))
P = []
def add(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

# ---------------------------------------------------------------- classification
add("C01", "Classification counts, precision, recall, F1 and accuracy match their definition",
 "For any classifications with distinct predicted labels, any score thresholds and either hardmax setting, a label is predicted positive on a datum when its score is non-zero, at least the threshold and, with hardmax, the first highest score of that datum; then per label TP counts datums of that label where it is positive, FP datums of another label where it is positive, TN datums of another label that scored it without it being positive, and FN datums of that label that scored it without it being positive or on which another label is positive. Precision is TP/(TP+FP), recall TP/(TP+FN), F1 their harmonic mean (each 0 when undefined), and accuracy is the sum of TP over the number of evaluated datums.",
 ["inputs", "configurations"], "every dataset of up to 3 datums over up to 4 labels with partial, tied, zero and boundary scores, every threshold in the score alphabet, hardmax on and off, one or several datasets' worth of datums",
 "Tests check a handful of fixtures; ties, zero scores, scores equal to a threshold, labels never predicted and labels never true interact combinatorially.",
 [CL+"computation.py", CL+"evaluator.py", CL+"loader.py", CL+"utilities.py"],
 [("count masks per threshold", CL+"computation.py:compute_counts"), ("ratios", CL+"computation.py:compute_precision/compute_recall/compute_f1_score/compute_accuracy"), ("winner selection", CL+"loader.py:Loader.add_data")],
 ["classification Evaluator.compute_precision_recall"])
add("C02", "ROCAUC equals the probability that a positive outranks a negative",
 "For any dataset in which every datum scores every label, each label's ROCAUC equals the fraction of (datum of that label, datum of another label) pairs in which the former scores the label higher, ties counting one half, and 0 when the label has no positive or no negative datum. mROCAUC is the mean over all labels. This holds however the data is split into batches and files.",
 ["inputs", "configurations"], "every score assignment over up to 5 datums and 2-3 labels from a tied score alphabet, crossed with storage layouts that cut the ranking anywhere",
 "The fixtures have few ties and few chunk layouts; the running curve is carried across chunks, so errors need a tie group or the curve origin to sit on a chunk boundary.",
 [CL+"computation.py", CL+"evaluator.py"],
 [("chunked trapezoid", CL+"computation.py:compute_rocauc"), ("cumulative curve points", CL+"evaluator.py:Builder._create_rocauc_intermediate")],
 ["classification Evaluator.compute_rocauc"])
add("C03", "Classification confusion matrix and examples agree with their definition",
 "With positives defined as for the counts, the confusion matrix counts for each (ground truth label, predicted label) the datums of the first label on which the second is positive, and the unmatched ground truths the datums with no positive label. Per-datum examples list the true positive label, every other positive label as false positive, and the ground truth label as false negative when it is not positive; the matrix with examples carries exactly the same counts together with the datum and score behind each of them, so all three reports describe the same set of datums. Without arguments each report is the one at threshold 0 with hardmax.",
 ["inputs", "configurations"], "every dataset of up to 3 datums over up to 4 labels with partial, tied, zero and boundary scores, every threshold list, hardmax on and off, memory and file storage",
 "Three reports computed by separate code must agree for every input, tests compare each to literals for a few fixtures.",
 [CL+"computation.py", CL+"utilities.py", CL+"evaluator.py"],
 [("pair classification", CL+"computation.py:compute_pair_classifications"), ("matrix", CL+"computation.py:compute_confusion_matrix"), ("unpacking", CL+"utilities.py")],
 ["classification Evaluator.compute_confusion_matrix", "compute_examples", "compute_confusion_matrix_with_examples"])
add("C04", "Classification results do not depend on how the data is stored or chunked",
 "For the same classifications added in the same order, every classification metric and report, over the whole dataset or over any selection of datums, is the same whether the evaluator is in memory or persistent, for every batch size, rows-per-file, finalize batch size and compression, and for every way of splitting the data over add_data calls.",
 ["configurations", "histories"], "every layout (storage x batch size x rows per file x finalize batch size x split into add_data calls) within bounds, for every dataset of a set covering ties, partial predictions and multi-file runs (more than ten files included)",
 "Tests parametrise four layouts; boundaries such as a datum that fills a batch exactly, or a tie group across files, need every layout crossed with every data shape.",
 [CL+"evaluator.py", CA+"ephemeral.py", CA+"persistent.py", CA+"compute.py"],
 [("running accumulation across tables", CL+"evaluator.py:Evaluator.compute_*"), ("merge sort", CA+"compute.py:sort")],
 ["all public compute_* results of the classification Evaluator"])
add("C05", "Classification filters keep exactly the selected data",
 "Passing a datum filter to a compute call, or calling filter with it first, gives the results of an evaluator built from the matching datums alone, every original label still being reported. A ground truth filter removes the datums whose ground truth does not match and a prediction filter removes the non-matching predictions (and datums left with none), without changing which prediction was each datum's hardmax winner. The filtered evaluator and the original are independent of each other.",
 ["inputs", "configurations", "histories"], "every subset of datums, ground truth labels and prediction labels of each dataset, by uid, label or metadata, memory and file storage, direct and materialised filters and their composition",
 "Tests try a few filters on fixtures; equivalence with a rebuilt evaluator has to hold for every subset.",
 [CL+"evaluator.py", CL+"shared.py"],
 [("filter", CL+"evaluator.py:Evaluator.filter"), ("direct datum filter", CL+"evaluator.py:Evaluator.iterate_values")],
 ["classification Evaluator.filter", "datums= argument of compute_*"])
add("C06", "Paging through classification examples returns every datum exactly once",
 "For any limit and offset, compute_examples returns the examples of exactly the datums at positions offset to offset+limit of the unpaged (and filtered) result, in the same order and with the same content, so consecutive pages partition the full report. This holds for every storage layout, datum filter and list of thresholds.",
 ["inputs", "configurations"], "every (limit, offset) pair up to past the end, for every small layout and datum filter",
 "Page edges must be right at every combination of page edge and file edge; tests try a few.",
 [CA+"compute.py", CL+"evaluator.py"],
 [("pagination", CA+"compute.py:paginate_index")],
 ["classification Evaluator.compute_examples(limit, offset)"])
# ---------------------------------------------------------------- object detection
add("D01", "IoU is intersection area over union area for every geometry type",
 "For any pair of ground truth and prediction, the IoU used by every object detection metric is the area of their intersection divided by the area of their union (0 when they do not overlap), for bounding boxes, polygons and bitmasks alike. The same shape expressed in different representations yields the same matches at every IoU threshold.",
 ["inputs"], "every pair of axis-aligned boxes on a small grid (degenerate, nested, touching, disjoint) in all representations, every pair of small bitmasks, and every pair of a set of triangles and L-shapes for polygons; all distinguishing thresholds including equality",
 "Tests sample a few pairs; errors in one edge ordering or one touching/nested configuration go unnoticed.",
 [OD+"computation.py", OD+"loader.py"],
 [("bbox IoU", OD+"computation.py:compute_bbox_iou"), ("bitmask IoU", OD+"computation.py:compute_bitmask_iou"), ("polygon IoU", OD+"computation.py:compute_polygon_iou")],
 ["object_detection Loader.add_bounding_boxes/add_polygons/add_bitmasks then Evaluator results at chosen IoU thresholds"])
add("D02", "Detection counts, precision, recall and F1 follow the matching rule",
 "For single-label predictions, each prediction is assigned to the same-label ground truth of its datum it overlaps most; at an IoU threshold t each ground truth is a true positive for the first of its assigned predictions by descending score (then IoU) whose IoU is at least t. At a score threshold s, TP counts such matches with score at least s, FP the other predictions with a non-zero score of at least s, and FN the ground truths without a TP; precision, recall and F1 are the ratios of those counts (0 when undefined).",
 ["inputs", "configurations"], "every arrangement of up to 3 predictions and 2 ground truths over an IoU and score alphabet and 2 labels, and every pair of datums from a reduced set, at every threshold pair including equality",
 "Tests use fixed images; the rule mixes score order, IoU order, labels and thresholds, and breaks only for particular orderings.",
 [OD+"computation.py", OD+"evaluator.py", OD+"loader.py"],
 [("ranking", OD+"computation.py:rank_pairs"), ("IoU boundaries", OD+"computation.py:calculate_ranking_boundaries"), ("counting", OD+"computation.py:compute_counts")],
 ["object_detection Evaluator.compute_precision_recall"])
add("D03", "AP, AR and the PR curve are the 101-point interpolation of the ranking",
 "For any detections and thresholds, the precision-recall curve of a label at an IoU threshold holds, for each recall r of 0.00, 0.01 ... 1.00, the highest precision (and, separately, the highest score) reached at recall r or more when all predictions of the label over the whole dataset are ranked by score, then IoU, and AP is its mean; AR is the mean recall over the requested IoU thresholds at a score threshold. The mAP, mAR and averaged-over variants are exactly the means of those values over labels, IoU thresholds or score thresholds, independently of how the dataset is chunked.",
 ["inputs", "configurations"], "every sequence of true/false positives up to length 6 over 1-3 ground truths and 2 labels, every (matched, total) pair up to 60 ground truths, all threshold subsets, memory and multi-file layouts",
 "Tests check a few curves; recall binning and running counts across chunks fail only for particular ratios or cut points.",
 [OD+"computation.py", OD+"evaluator.py", OD+"utilities.py"],
 [("curve", OD+"computation.py:compute_counts/compute_average_precision"), ("AR", OD+"computation.py:compute_average_recall"), ("averages", OD+"utilities.py:unpack_precision_recall_into_metric_lists")],
 ["object_detection Evaluator.compute_precision_recall (AP, mAP, AR, mAR, averaged variants, PrecisionRecallCurve)"])
add("D04", "Detection confusion matrix and examples follow the greedy one-to-one matching",
 "For any detections, ground truths and predictions of a datum are paired one-to-one, regardless of label, greedily by descending score then IoU; at given thresholds a pair counts in the confusion matrix when its IoU and score are non-zero and reach them, and every annotation outside such a pair is unmatched (predictions only if their score reaches the threshold). Per-datum examples list the matched same-label pairs as true positives and the remaining predictions and ground truths as false positives and false negatives, and the matrix with examples carries exactly the counts of the plain matrix with the annotations behind them.",
 ["inputs", "configurations"], "every arrangement of up to 3 predictions (multi-label included) and 2-3 ground truths over an IoU, score and label alphabet, at every threshold pair including equality",
 "Three reports computed by separate code must agree with one matching for every arrangement, tests check a few images.",
 [OD+"computation.py", OD+"utilities.py", OD+"evaluator.py"],
 [("greedy pairing", OD+"computation.py:mask_pairs_greedily"), ("pair classification", OD+"computation.py:compute_pair_classifications"), ("unpacking", OD+"utilities.py")],
 ["object_detection Evaluator.compute_confusion_matrix", "compute_examples", "compute_confusion_matrix_with_examples"])
add("D05", "Object detection results do not depend on how the data is stored or chunked",
 "For the same detections added in the same order, every object detection metric and report, over the whole dataset or over any selection of datums, is the same whether the evaluator is in memory or persistent, for every batch size, rows-per-file, finalize batch size and compression, and for every way of splitting the data over add calls.",
 ["configurations", "histories"], "every layout (storage x batch size x rows per file x finalize batch size x split into add calls) within bounds, for every dataset of a set covering ties, empty datums, multi-label predictions and more than ten files",
 "Tests parametrise four layouts; the ranking is merged across files and the counts are carried across chunks, so errors need specific cut points.",
 [OD+"evaluator.py", OD+"computation.py", CA+"compute.py", CA+"persistent.py", CA+"ephemeral.py"],
 [("ranking merge", OD+"evaluator.py:Builder._rank"), ("merge sort", CA+"compute.py:_merge"), ("running counts", OD+"computation.py:compute_counts")],
 ["all public compute_* results of the object detection Evaluator"])
add("D06", "Object detection filters keep exactly the selected datums and annotations",
 "Passing a datum filter to a compute call, or calling filter with it first, gives the results of an evaluator built from the matching datums alone; filtering ground truths or predictions gives the results of an evaluator built from the same datums with only the matching annotations (metadata fields belonging to datums, ground truths or predictions alone). Every original label is still reported, and the filtered evaluator and the original are independent of each other.",
 ["inputs", "configurations", "histories"], "every subset of datums, of ground truths and of predictions of each dataset (by uid, label or metadata), every combination of the three filters, memory and file storage, and composed filters",
 "Tests try a few filters on fixtures; equivalence with a rebuilt evaluator has to hold for every subset and combination.",
 [OD+"evaluator.py", OD+"shared.py"],
 [("filter", OD+"evaluator.py:Evaluator.filter"), ("direct datum filter", OD+"evaluator.py:Evaluator.compute_*")],
 ["object_detection Evaluator.filter", "datums= argument of compute_*"])
add("D07", "Paging through detection examples returns every datum exactly once",
 "For any limit and offset, compute_examples returns the examples of exactly the datums at positions offset to offset+limit of the unpaged (and filtered) result, in the same order and with the same content, so consecutive pages partition the full report. This holds for every storage layout, datum filter and list of thresholds.",
 ["inputs", "configurations"], "every (limit, offset) pair up to past the end, for every small layout and datum filter",
 "Page edges must be right at every combination of page edge and file edge; tests try a few.",
 [CA+"compute.py", OD+"evaluator.py"],
 [("pagination", CA+"compute.py:paginate_index")],
 ["object_detection Evaluator.compute_examples(limit, offset)"])
# ---------------------------------------------------------------- segmentation
add("S01", "Segmentation metrics are the pixel-level definitions over the whole dataset",
 "For any images whose masks partition their labelled pixels, per label precision, recall, F1 and IoU are computed from the number of pixels, summed over all images, having that label in ground truth and/or prediction; accuracy is the fraction of pixels whose label (or background) agrees; mIOU is the mean over labels. The confusion matrix holds the IoU of every (ground truth label, predicted label) pair and the unmatched ratios the share of a label's pixels that lie on background on the other side; undefined ratios are 0.",
 ["inputs"], "every assignment of {background, 2-3 labels} to every pixel of small images for ground truth and prediction, several masks per label, and all pairs of images from a reduced set",
 "Tests use a few images, errors that depend on label order, absent labels or background need every assignment.",
 [SS+"computation.py", SS+"loader.py", SS+"evaluator.py", SS+"utilities.py"],
 [("pixel counts", SS+"computation.py:compute_intermediates"), ("metrics", SS+"computation.py:compute_metrics"), ("aggregation", SS+"evaluator.py:Evaluator._compute_confusion_matrix_intermediate")],
 ["semantic_segmentation Evaluator.compute_precision_recall_iou"])
add("S02", "Overlapping masks: each pixel belongs to the first mask claiming it",
 "When the ground truth masks (or the prediction masks) of an image overlap, every pixel is kept only by the first mask in the list that contains it, whatever the number and order of masks, and a warning reports the number of overlapped pixels; masks that do not overlap are unchanged and give no warning. Ground truths and predictions are resolved independently and the caller's arrays are not written to.",
 ["inputs"], "every list of up to 4 masks over small images, ground truths and predictions, arrays shared between masks included",
 "Tests overlap two masks once; the rule must hold for any number and order of masks.",
 [SS+"annotation.py"], [("overlap validation", SS+"annotation.py:Segmentation._validate_bitmasks")],
 ["semantic_segmentation Segmentation(...)"])
add("S03", "Segmentation results do not depend on how the data is stored or chunked",
 "For the same images added in the same order, every semantic segmentation metric, over the whole dataset or over any selection of datums, is the same whether the evaluator is in memory or persistent, for every batch size, rows-per-file and compression, and for every way of splitting the data over add_data calls.",
 ["configurations", "histories"], "every layout (storage x batch size x rows per file x split into add_data calls) within bounds, for every dataset of a set covering new labels appearing late, empty images and more than ten files",
 "Tests parametrise four layouts.",
 [SS+"evaluator.py", CA+"ephemeral.py", CA+"persistent.py"],
 [("aggregation", SS+"evaluator.py:Evaluator._compute_confusion_matrix_intermediate")],
 ["semantic_segmentation Evaluator.compute_precision_recall_iou"])
add("S04", "Segmentation filters keep exactly the selected datums and masks",
 "Passing a datum filter to the compute call, or calling filter with it first, gives the results of an evaluator built from the matching images alone; filtering ground truths or predictions turns the pixels of non-matching masks into background on that side and keeps every pixel counted (images in which the masks of one label and side share their metadata, metadata fields belonging to images, ground truths or predictions alone). Every original label is still reported, and the filtered evaluator and the original are independent of each other.",
 ["inputs", "configurations", "histories"], "every subset of datums, of ground truth labels and of prediction labels of each dataset (by uid, label or metadata), every combination of the three filters, memory and file storage",
 "Tests try a few filters on fixtures.",
 [SS+"evaluator.py", SS+"shared.py"], [("filter", SS+"evaluator.py:Evaluator.filter")],
 ["semantic_segmentation Evaluator.filter", "datums= argument"])
# ---------------------------------------------------------------- cross-cutting
add("X01", "A persisted evaluator reloads with the same results and stays usable",
 "For all three tasks, loading the path of a finalized persistent evaluator (in the same or another process, any number of times) gives an evaluator whose labels, counts, metadata fields and every metric and report equal those of the evaluator that wrote it, and which can be filtered like it, for every scalar metadata type; a filtered cache that lost labels does so when given the label mapping. Loading a missing path raises FileNotFoundError and a file path NotADirectoryError.",
 ["inputs", "configurations", "histories"], "every dataset of the storage sets x layouts x metadata type lists x sequences of load, compute and filter up to depth 3",
 "Tests load a few caches once.",
 [CL+"evaluator.py", OD+"evaluator.py", SS+"evaluator.py", CA+"persistent.py"],
 [("load", "Evaluator.load of each task"), ("cache config", CA+"persistent.py:FileCacheReader.load"), ("metadata encoding", "shared.py:encode_metadata_fields")],
 ["Evaluator.load of each task"])
add("X02", "Queries never change an evaluator: any sequence of calls gives the same answers",
 "For all three tasks, the result of a compute, info or filter call depends only on the data and the arguments, never on which calls were made before it on the same evaluator, an evaluator loaded from the same path or an evaluator filtered from it. Calls leave argument lists, earlier results and the files of the persisted cache unchanged.",
 ["histories"], "every sequence of public query calls up to depth 3 (4 thorough) from an alphabet with several argument values, on in-memory, persistent and loaded evaluators",
 "Tests call each function once or twice per evaluator; hidden state shows only for particular call sequences.",
 [CL+"evaluator.py", OD+"evaluator.py", SS+"evaluator.py", CA+"persistent.py", CA+"ephemeral.py"],
 [("immutable readers", CA+"ephemeral.py:MemoryCacheReader / persistent.py:FileCacheReader")],
 ["all public methods of the three Evaluators"])
add("X03", "The result at a threshold does not depend on the other requested thresholds",
 "For classification and object detection, the values reported for a score threshold (and IoU threshold) are the same whichever other thresholds are requested with it, in whatever order and however often, and one result per requested threshold is reported, in the requested order where the report is a list.",
 ["inputs", "configurations"], "every list of up to 3 thresholds (repetitions and all orders) from an alphabet, for every report of both tasks, over datasets where every threshold matters",
 "Tests always pass ascending lists.",
 [CL+"computation.py", OD+"computation.py", CL+"utilities.py", OD+"utilities.py"],
 [("threshold loops", "compute_counts / compute_pair_classifications of both tasks")],
 ["compute_* of classification and object_detection Evaluators"])
add("X04", "Evaluator information reports the true sizes of the (filtered) data",
 "For all three tasks, the reported numbers of datums, labels, ground truth and prediction annotations or pixels equal those of the data that was added (a datum counts when it has at least one annotation, or always for classification and segmentation), also when restricted by datum, ground truth and prediction filters, for every storage layout.",
 ["inputs", "configurations"], "every dataset of the storage sets x layouts x datum/ground truth/prediction filter subsets",
 "Tests check the sizes of a few fixtures.",
 [CL+"shared.py", OD+"shared.py", SS+"shared.py"], [("counting", "shared.py:extract_counts of each task")],
 ["Evaluator.info / get_info of each task"])
add("X05", "Building an evaluator never corrupts, doubles or reuses existing data",
 "For all three tasks, every sequence of add, finalize and reopen calls either produces an evaluator over exactly the data added so far or raises the documented error: finalizing without data raises EmptyCacheError, creating a persistent loader where a cache already exists raises FileExistsError and leaves the existing cache intact, and a filter that selects nothing raises EmptyCacheError. Finalizing classification or object detection data a second time raises instead of counting data twice.",
 ["histories"], "every sequence of up to 4 lifecycle calls on memory and persistent loaders",
 "Tests exercise single calls.",
 [CL+"evaluator.py", OD+"evaluator.py", SS+"evaluator.py", CA+"persistent.py"],
 [("finalize guards", "Builder.finalize of each task"), ("exclusive creation", CA+"persistent.py:FileCacheWriter.create")],
 ["Loader.in_memory/persistent, add_*, finalize"])
add("X06", "Malformed input is refused and well-formed input is kept as given",
 "Constructing an annotation or datum raises an error exactly when it is malformed, and otherwise keeps its values. Well-formed means, for classification, that the ground truth is one string and there is one score per predicted label (adding one without predictions is refused); for object detection, that an annotation has either one label and no scores or one score for every label, a polygon is a non-empty shapely Polygon, a bitmask a boolean array with at least one set pixel, and every prediction of a detection has scores; for segmentation, that masks are boolean Bitmasks of exactly the image's shape, which is two-dimensional and non-empty. Metadata fields whose name is a column of the library are refused when a loader is created, and metrics asked for with an empty score or IoU threshold list are refused; adding data leaves the given objects as they were and keeps its own copy: what the caller does to them afterwards has no effect.",
 ["inputs", "configurations"], "every combination of label and score counts, element kinds, data types, shapes and positions within bounds",
 "Tests try one malformed example per rule.",
 [CL+"annotation.py", CL+"loader.py", OD+"annotation.py", SS+"annotation.py", CL+"shared.py", OD+"shared.py", SS+"shared.py", CL+"evaluator.py", OD+"evaluator.py"],
 [("pairing of labels and scores", OD+"annotation.py:BoundingBox.__post_init__"), ("mask validation", SS+"annotation.py:Segmentation._validate_bitmasks"), ("reserved columns", OD+"shared.py:generate_detailed_schema")],
 ["annotation and datum constructors", "Loader.in_memory/persistent", "compute_* threshold arguments"])
add("X07", "Every reported metric is finite plain data that survives JSON",
 "For every dataset, filter and list of distinct thresholds, every metric of every task has a to_dict form made of built-in types only, which JSON encodes without NaN or infinity and decodes to the same value. Precisions, recalls, F1, accuracies, areas, average precisions and recalls, IoUs and LLM, BLEU and ROUGE scores lie in [0, 1] even where nothing was predicted or nothing was there to find; counts are natural numbers. A metric is listed under its own type, carries thresholds exactly as they were passed, every requested threshold is reported, and no two metrics of one call share type and parameters.",
 ["inputs", "configurations"], "every dataset, layout, filter and threshold list within bounds, with degenerate datasets (no ground truth, no prediction, nothing right, everything right) enumerated",
 "Tests compare the metrics of ordinary fixtures.",
 [CL+"metric.py", OD+"metric.py", SS+"metric.py", "src/valor_lite/text_generation/metric.py", "src/valor_lite/schemas.py", CL+"utilities.py", OD+"utilities.py", SS+"utilities.py"],
 [("conversion", "src/valor_lite/schemas.py:BaseMetric.to_dict"), ("unpacking", OD+"utilities.py")],
 ["Metric.to_dict of every compute_* result"])
add("X08", "Concurrent calls give the results they give alone",
 "For all three tasks, two threads querying the same evaluator (in memory or on disk), or building, filtering and loading evaluators on different paths, each get the result the call gives when run alone, however the calls interleave; so do two loaders filled in turns. The same holds for LLM-guided metrics of different queries computed on one text generation evaluator with a thread-safe client.",
 ["schedules", "histories"], "every schedule of two calls with one preemption at any line of the library (two preemptions at function entries), every order of turns of two loaders",
 "Tests are single-threaded; shared scratch state shows only when a call is interrupted between writing and reading it.",
 [CL+"evaluator.py", OD+"evaluator.py", SS+"evaluator.py", CA+"compute.py", CA+"ephemeral.py", CA+"persistent.py", "src/valor_lite/text_generation/manager.py"],
 [("stateless queries", "compute_* and get_info of the evaluators"), ("per-instance loader state", CL+"loader.py:Loader.__init__"), ("private temporary directory", CA+"compute.py:sort")],
 ["compute_*, get_info, filter, load, finalize, add_*"])
# ---------------------------------------------------------------- cache
add("K01", "A cache returns exactly the rows written to it, in order",
 "After any sequence of row, column, batch and table writes, flushes, context exits and reader creations, for any batch size and rows-per-file, a reader returns exactly the rows written so far, each once and in write order, for both memory and file caches; row counts, column selection and row filters agree with that content through every read interface. Objects passed to a write are not modified, and what the caller does afterwards to them, or to arrays it was handed, does not change the cache.",
 ["histories", "configurations"], "every sequence of up to 4 writer operations of sizes 0-3 (5 thorough), every batch size and rows-per-file up to 4, memory and file",
 "Tests write a few patterns; buffering loses or reorders rows only at particular fill levels.",
 [CA+"ephemeral.py", CA+"persistent.py"], [("buffering", "write_batch / write_table / flush"), ("ordered fragments", CA+"persistent.py:iterate_ordered_fragments")],
 ["MemoryCacheWriter, FileCacheWriter, MemoryCacheReader, FileCacheReader"])
add("K02", "Sorting a cache yields a sorted permutation of its rows",
 "Sorting any source cache into any sink, memory or file, with any number of files, read batch size, sink layout, sort keys and directions, writes every source row exactly once in key order; rows with equal keys keep their file order. In-place sort_by orders each file (or the whole memory cache) without losing, duplicating or moving rows between files.",
 ["inputs", "configurations"], "every sequence of up to 5 keys from a tied alphabet (negative values included) x every split into files x read batch sizes x sink types and layouts x key directions",
 "Tests sort one random table; merge errors need a particular interleaving of equal keys, exhausted batches and file ends.",
 [CA+"compute.py", CA+"persistent.py", CA+"ephemeral.py"], [("k-way merge", CA+"compute.py:_merge"), ("in-place sort", "sort_by of both writers")],
 ["valor_lite.cache.sort", "sort_by"])
add("K03", "Index pagination selects exactly the requested window of keys",
 "For any fragment-aligned source, filter, limit and offset, paging yields exactly the rows whose key is among the keys ranked offset to offset+limit in fragment order then key order, and nothing else; the pages of any page size cover every row exactly once. A missing limit means no limit and an offset past the end yields no rows.",
 ["inputs", "configurations"], "every assignment of up to 6 keys with 1-2 rows each to up to 4 fragments, every limit and offset, with and without filters, memory and file",
 "Tests page through one layout.",
 [CA+"compute.py"], [("pagination", CA+"compute.py:paginate_index")],
 ["valor_lite.cache.compute.paginate_index"])
add("K04", "Creating, loading and deleting a file cache touch only that cache's files",
 "Creating a file cache at an existing path fails and leaves the path untouched unless deletion is requested, in which case the previous cache's contents are gone and the new one is empty; deleting a cache removes its data and configuration and nothing else, and refuses to remove a directory holding other files or a directory that is not a cache. Loading restores the schema, batch size, rows-per-file and compression it was created with.",
 ["histories", "configurations"], "every sequence of up to 4 of create, create-with-delete, write, delete, load, with foreign files present or absent",
 "Tests call each once.",
 [CA+"persistent.py"], [("create/delete", CA+"persistent.py:FileCacheWriter.create/delete"), ("load", CA+"persistent.py:FileCacheReader.load")],
 ["FileCacheWriter.create/delete, FileCacheReader.load"])
add("K05", "Rows written together stay in one file and files respect the target size",
 "For any sequence of row writes, batch size and rows-per-file, the rows of one write call are never split over two files, each file except the last holds at least rows-per-file rows, and every file holds at most rows-per-file plus batch size plus one write call. Files are never rewritten by later writes.",
 ["histories", "configurations"], "every sequence of up to 6 row writes of sizes 1-3, every batch size and rows-per-file up to 5",
 "Tests check one stream; datum alignment of every evaluator rests on it.",
 [CA+"persistent.py"], [("write buffering", CA+"persistent.py:FileCacheWriter.write_batch/flush")],
 ["FileCacheWriter.write_rows, get_dataset_files, FileCacheReader.iterate_tables"])
add("K06", "A failing disk operation is never swallowed",
 "Whenever a file operation fails while a cache is written, flushed, sorted, replaced or deleted, or while an evaluator is built, filtered, loaded or queried on disk (a full disk, no free file descriptor, an input/output error, a data or configuration file cut short), the call in progress raises; a call that returns normally has done its whole work. Data files finished by earlier write calls and the cache an evaluator is filtered from are not damaged by the failure.",
 ["fault_sequences", "crash_points", "histories"], "every failing file operation, every file size limit on a grid (every byte in thorough), every number of free descriptors up to 11 and every truncation on a grid, for every history within bounds",
 "Tests never fail an operation; a swallowed error shows as silently missing rows much later.",
 [CA+"persistent.py", CA+"compute.py", CL+"evaluator.py", OD+"evaluator.py", SS+"evaluator.py"],
 [("file writes", CA+"persistent.py:FileCacheWriter.flush"), ("deletion", CA+"persistent.py:FileCacheWriter.delete"), ("loading", "Evaluator.load")],
 ["FileCacheWriter, FileCacheReader, sort", "Loader.persistent, finalize, filter, Evaluator.load, compute_*"])
add("K07", "A killed process leaves no cache that reads as something else",
 "When the process is killed at any point while a file cache is written, a later reader either raises or returns a prefix of the written rows, in write order, that includes every row whose flush, table write or context exit had returned; killed while sorting into another cache the target reads as a prefix of the sorted rows and the source is untouched, killed while sorting in place every file still has its rows, and killed while being deleted or replaced a cache reads as whole files of the old one or a prefix of the new rows. Other caches and the source of a killed filter, load or computation stay as they were; a writer that continues at the same path, or a new cache created there, never mixes with or hides what was left. Repeating a killed evaluator build or filter at the same path is refused or gives the right results, also after deleting what was left.",
 ["crash_points", "histories"], "every state of the disk between two file changes, and every byte (on a grid) of what is written between, for every history within bounds",
 "Tests never kill a process, and a crash can fall between any two writes.",
 [CA+"persistent.py", CA+"compute.py", CL+"evaluator.py", OD+"evaluator.py", SS+"evaluator.py"],
 [("file writes", CA+"persistent.py:FileCacheWriter.write_batch/flush/write_table"), ("in-place sort", CA+"persistent.py:FileCacheWriter.sort_by"), ("deletion", CA+"persistent.py:FileCacheWriter.delete"), ("merge sort", CA+"compute.py:sort")],
 ["FileCacheWriter, FileCacheReader, sort", "Loader.persistent, finalize, filter, Evaluator.load, compute_*"])
add("K08", "Stored caches honour their compression, batch size and rows-per-file",
 "Every data file of a file cache, whether it was written from rows, columns, batches or tables, sorted in place or filled by sorting another cache, is stored with the compression the cache was created with. All caches of a persistent evaluator, and of every evaluator filtered from it on disk, record and use the batch size, rows-per-file and compression it was created with: no file holds more rows than rows-per-file plus batch size plus one datum, and one cache keeps the rows of each datum together in one file.",
 ["configurations", "histories"], "every sequence of up to 3 write calls x layouts x codecs, and every dataset of the storage sets x batch sizes x rows-per-file x codecs, built, filtered and reloaded",
 "Tests use the default codec and never look at the files; memory use of large evaluations rests on the file sizes.",
 [CA+"persistent.py", CA+"compute.py", CL+"evaluator.py", OD+"evaluator.py", SS+"evaluator.py"],
 [("file writes", CA+"persistent.py:FileCacheWriter.write_batch/write_table/sort_by"), ("settings", "Builder.persistent and Evaluator.filter of the three tasks")],
 ["FileCacheWriter, sort", "Loader.persistent, Evaluator.filter"])
# ---------------------------------------------------------------- text generation
add("T01", "LLM metrics retry exactly as configured and never invent a score",
 "For every LLM-guided metric and every sequence of valid, invalid and failing LLM answers, the metric is attempted again only after an invalid answer, at most 1+retries times, and the result is the first successful attempt's score or, when every attempt was invalid, an error metric naming the invalid-response error, the model and the retries. Any other exception raised by the client propagates unchanged and immediately.",
 ["fault_sequences", "histories"], "every sequence of {valid, invalid, exception} answers for each of the ten metrics with retries 0-3",
 "Tests mock one or two fixed failure sequences.",
 [TG+"manager.py", TG+"llm/generation.py"], [("retry wrapper", TG+"manager.py:llm_guided_metric")],
 ["text_generation Evaluator.compute_*"])
add("T02", "LLM metric scores are the documented function of the verdicts",
 "For every list of contexts, ground truths, extracted statements and well-formed verdicts, each metric equals its documented value: relevance, bias, toxicity, hallucination, faithfulness and context relevance the share of 'yes' verdicts, context recall the best ground truth's share, context precision the mean precision at the ranks of useful contexts, answer correctness the best F1, with the documented values for empty inputs; summary coherence is the integer 1-5 answered. Scores stay in [0,1] and carry the model name and retries.",
 ["inputs"], "every verdict sequence up to length 4 (5 thorough), up to 2-3 ground truths and contexts, every TP/FP/FN split up to 3 each",
 "Tests use one verdict list per metric.",
 [TG+"computation.py", TG+"llm/generation.py", TG+"manager.py"], [("scores", TG+"computation.py:calculate_*")],
 ["text_generation Evaluator.compute_*"])
add("T03", "Malformed LLM answers are always reported as invalid, never scored or leaked",
 "Whatever text the LLM answers at any step of any LLM-guided metric, the metric returns either the score of a well-formed answer or an error metric for an invalid response: wrong JSON, missing keys, wrong types, unknown verdicts, wrong lengths and out-of-range integers are never scored and never surface as another exception. Text around a well-formed JSON object does not matter.",
 ["inputs", "fault_sequences"], "every single structural mutation of the valid answer (and pairs of mutations in thorough) at every step of every metric",
 "Tests check a few malformed answers per validator.",
 [TG+"llm/validators.py", TG+"llm/utilities.py", TG+"llm/generation.py"], [("validation", TG+"llm/validators.py"), ("JSON extraction", TG+"llm/utilities.py:trim_and_load_json")],
 ["text_generation Evaluator.compute_*"])
add("T04", "OpenAI and Mistral wrappers pass messages through and reject unusable answers",
 "For every provider response, the wrapper sends exactly the given messages with the configured model (and seed), returns the message content (empty text when there is none), raises on answers cut off by the token limit (and, for OpenAI, the content filter) so they never yield a score, and for OpenAI adds the reported token usage to its totals on every call, including rejected ones. Malformed message lists are rejected before any request is made.",
 ["inputs", "fault_sequences"], "every response shape (content, finish reason, usage present or not, missing parts) and sequences of up to 3 calls; every malformed message list of a grammar",
 "Tests mock a few responses.",
 [TG+"llm/integrations.py"], [("wrappers", TG+"llm/integrations.py:OpenAIWrapper/MistralWrapper"), ("message validation", TG+"llm/integrations.py:_validate_messages")],
 ["OpenAIWrapper.__call__, MistralWrapper.__call__ with a stand-in client"])
add("T05", "Sentence BLEU is the standard BLEU score of the tokenised texts",
 "For every response, reference list and weights, the BLEU metric equals the weighted geometric mean of clipped n-gram precisions over the period-free tokens times the brevity penalty against the closest reference, and 0 when any weighted precision is 0. It lies in [0,1] and does not depend on the order of references.",
 ["inputs"], "every prediction and reference of up to 4 tokens over a 2-3 word alphabet, up to 2 references, several weight vectors",
 "Tests check a few sentences.",
 [TG+"computation.py", TG+"manager.py"], [("BLEU", TG+"computation.py:calculate_sentence_bleu")],
 ["text_generation Evaluator.compute_sentence_bleu"])
add("T06", "Each LLM question carries exactly the inputs its metric is defined over",
 "For every LLM-guided metric and every query, every request starts with the evaluator's system prompt (the default or the configured one) and contains, unaltered whatever characters they hold, all the inputs the metric is defined over: query, response, ground truths, retrieved contexts in their given order, and in later requests every item extracted by an earlier answer, each as often as it was given. Inputs the metric is not defined over do not appear, and the query, response and context passed in are left unchanged.",
 ["inputs", "histories"], "every metric x 1-3 contexts x 1-2 ground truths x 0-3 extracted items x texts with braces, percent signs, quotes, backslashes and non-ASCII characters x default and custom system prompt",
 "Tests use scripted clients that ignore most of the prompt and plain texts.",
 [TG+"computation.py", TG+"manager.py", TG+"llm/instructions.py", TG+"llm/generation.py"],
 [("prompt construction", TG+"llm/instructions.py:generate_*"), ("message assembly", TG+"llm/generation.py")],
 ["messages received by the client passed to text_generation Evaluator"])
add("T07", "ROUGE reports the best reference's score for each requested type",
 "For every response, list of references, selection of ROUGE types and stemmer setting, one metric per requested type is reported, equal to the highest F-measure of that type over all references; it lies in [0,1] and does not depend on the order of the references.",
 ["inputs"], "every response of up to 3 words over a 2-word alphabet x every list of 1-2 of 10 references and of 3 of 4 x every ordered selection of types x stemmer on and off",
 "Tests check a few sentences with all types at once.",
 [TG+"computation.py", TG+"manager.py"], [("ROUGE", TG+"computation.py:calculate_rouge_scores")],
 ["text_generation Evaluator.compute_rouge"])
add("T08", "compute_all reports for every metric what the metric alone reports",
 "For every combination of outcomes of the individual metrics (a score, a retry, retries exhausted), compute_all reports exactly one result per LLM metric and the requested BLEU and ROUGE results, each equal to what the metric computed on its own reports, and an invalid answer to one metric leaves the others unaffected.",
 ["inputs", "fault_sequences"], "every assignment of {two different scores, retried, exhausted} to the LLM metrics in which at most two differ from plain success, plus the uniform ones; 0-1 retries",
 "Tests run compute_all once with one scripted client.",
 [TG+"manager.py"], [("aggregation", TG+"manager.py:Evaluator.compute_all")],
 ["text_generation Evaluator.compute_all"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
