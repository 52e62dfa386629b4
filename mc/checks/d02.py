import itertools
import math

from .. import od
from ..core import Family, outcome, state
from ..util import PAIRS, name_map, rename
from .c01 import zigzag

ASSUMPTIONS = ["single-label predictions; IoU thresholds in (0,1]; where a prediction overlaps two ground truths equally either may be its assignment"]

# one-row boxes: x-intervals
IV = {"full": (0, 10), "half": (0, 5), "off2": (2, 12), "mid": (4, 14), "far": (40, 50), "g2": (8, 18), "wide": (0, 20), "sliver": (9, 19)}
UP, DOWN = (lambda x: math.nextafter(x, 2.0)), (lambda x: math.nextafter(x, 0.0))
IOUS = zigzag([1e-6, 0.05, 0.1, 0.25, 0.5, UP(0.5), 2 / 3, UP(2 / 3), 0.8, DOWN(1.0), 1.0])


def box(iv):
    a, b = IV[iv] if isinstance(iv, str) else iv
    return [a, b, 0, 1]


def mk(datums):
    """datums: list of (gts [(iv,label)], pds [(iv,label,score)])"""
    return [{"u": f"d{i}", "g": [{"u": f"d{i}g{j}", "b": box(v), "l": l} for j, (v, l) in enumerate(gs)],
             "p": [{"u": f"d{i}p{j}", "b": box(v), "l": [l], "s": [s]} for j, (v, l, s) in enumerate(ps)]}
            for i, (gs, ps) in enumerate(datums)]


GTS = [[], [("full", "a")], [("full", "a"), ("g2", "a")], [("full", "a"), ("g2", "b")], [("full", "a"), ("full", "b")],
       [("g2", "a"), ("full", "a")], [("full", "a"), ("half", "a")], [("full", "b"), ("half", "a")]]


def scores_of(ds):
    sc = sorted({p["s"][0] for d in ds for p in d["p"]})
    return zigzag(set([0.0] + sc + [s + 0.05 for s in sc] + [f(s) for s in sc if s > 0 for f in (UP, DOWN)]))


def iou_thresholds(ds):
    """every IoU that occurs, and its floating-point neighbours."""
    x = {v for d in ds for r in od.ious_of(d) for v in r if v > 0}
    return zigzag({y for v in x for y in (v, UP(v), DOWN(v)) if y <= 1.0} | {0.5})


def gen_names(tier):
    for k in range(len(PAIRS)):
        for i in range(len(DATUMS)):
            for j in range(len(DATUMS)):
                if tier != "quick" or (i + 2 * j + k) % 5 == 0:
                    yield {"ren": k, "d": [DATUMS[i], DATUMS[j]]}


def named(case):
    return rename(mk(case["d"]), name_map(case["ren"]))


def run(case, ious=None):
    ds = named(case) if isinstance(case, dict) else mk(case)
    if not od.labels_of(ds):
        return
    ev = od.build(ds)
    got, want, _ = od.check_counts(ev, ds, ious or IOUS, scores_of(ds))
    state(sorted((repr(k), v) for k, v in want["Counts"].items()))
    outcome(sorted((repr(k), v) for k, v in got["Counts"].items()))


def gen_two(tier):
    ivs = ["full", "half", "off2", "mid", "far", "sliver"] if tier == "quick" else list(IV)
    opts = [(v, l, s) for v in ivs for l in "ab" for s in (0.0, 0.5, 0.9) if tier != "quick" or v != "sliver" or s]
    for gs in GTS:
        for k in (0, 1, 2):
            for ps in itertools.combinations_with_replacement(opts, k):
                yield [[gs, list(ps)]]


def gen_three(tier):
    ivs = ["full", "off2", "mid"] if tier == "quick" else ["full", "half", "off2", "mid", "far"]
    opts = [(v, l, s) for v in ivs for l in "ab" for s in (0.5, 0.9)]
    gts = GTS[1:] if tier != "quick" else [GTS[i] for i in (1, 2, 3, 6)]
    for gs in gts:
        for ps in itertools.combinations_with_replacement(opts, 3):
            yield [[gs, list(ps)]]


def gen_order(tier):
    """same-label clusters on one or two ground truths: every order of insertion."""
    base = [("full", 0.5), ("half", 0.9), ("off2", 0.7), ("mid", 0.5), ("off2", 0.9), ("full", 0.9)]
    for k in (3, 4) if tier == "quick" else (3, 4, 5):
        for ps in itertools.permutations(base, k):
            for gs in ([("full", "a")], [("full", "a"), ("g2", "a")]):
                yield [[gs, [(v, "a", s) for v, s in ps]]]


DATUMS = [
    [[("full", "a")], [("full", "a", 0.9)]], [[("full", "a")], [("mid", "a", 0.9), ("full", "a", 0.5)]],
    [[("full", "b")], [("full", "a", 0.5)]], [[], [("full", "a", 0.9)]], [[("full", "a"), ("g2", "b")], []],
    [[("full", "a"), ("g2", "a")], [("off2", "a", 0.5), ("g2", "a", 0.9), ("mid", "a", 0.9)]], [[], []],
    [[("full", "c")], [("full", "a", 0.0), ("half", "c", 0.5)]], [[("half", "b")], [("half", "b", 0.5), ("half", "b", 0.5)]],
]


def gen_datums(tier):
    for k in (2, 3) if tier == "quick" else (2, 3, 4):
        for c in itertools.product(range(len(DATUMS)), repeat=k):
            if k == 4 and len(set(c)) < 3:
                continue
            yield [DATUMS[i] for i in c]


FINE_IV = [(0, 10000), (0, 9999), (1, 10001), (2, 10002), (0, 9998), (5000, 15000)]
FINE_S = [0.5, UP(0.5), 0.5 + 1e-9, 0.5 + 1e-6, 1e-6, 2e-9]


def gen_fine(tier):
    """IoUs 1e-4 apart, scores one unit in the last place / below single precision apart, scores near 0."""
    opts = [(v, s) for v in FINE_IV for s in (FINE_S if tier != "quick" else FINE_S[:5])]
    for gs in ([(FINE_IV[0], "a")], [(FINE_IV[0], "a"), (FINE_IV[2], "a")]):
        for ps in itertools.product(opts, repeat=2):
            yield [[gs, [(v, "a", s) for v, s in ps]]]
    # overlaps of 0.05% to 1%
    tiny = [((1000 - w, 2000 - w), l, s) for w in (1, 7, 20) for l, s in (("a", 0.5), ("a", 0.9), ("b", 0.5))] + [((0, 1000), "b", 0.7)]
    for gs in ([((0, 1000), "a")], [((0, 1000), "a"), ((1990, 2990), "a")], [((0, 1000), "b"), ((1990, 2990), "a")]):
        for k in (1, 2):
            for ps in itertools.combinations(tiny, k):
                yield [[gs, list(ps)]]


def run_fine(case):
    run(case, iou_thresholds(mk(case)))


def scale(case):
    """n annotations, datums or labels, beyond 8 bits."""
    n, k = case["n"], case["kind"]
    near = lambda i: (20 * i, 20 * i + [10, 5, 8][i % 3])
    if k == "annotations":
        return [[[((20 * i, 20 * i + 10), "a") for i in range(n)],
                 [(near(i), "ab"[i % 5 == 0], 0.3 + (i % 7) / 10) for i in range(0, n)]],
                [[((0, 10), "b")], [((0, 10), "b", 0.9), ((2, 12), "a", 0.9)]]]
    if k == "cluster":  # ties in score broken by IoU only
        g = max(1, n // 12)
        return [[[((5000 * i, 5000 * i + 1000), "a") for i in range(g)],
                 [((5000 * (j % g) + 7 * ((j * 5) % 12) + j // 12, 5000 * (j % g) + 1000), "ab"[j % 9 == 4], 0.5) for j in range(n)]]]
    if k == "blocks":  # many annotations in each of many datums, all / none / some of them matched
        return [[[((20 * i, 20 * i + 10), "ab"[i % 4 == 0]) for i in range(n)],
                 [((20 * i + 15 * ((j + i * (j % 3)) % 2), 20 * i + 15 * ((j + i * (j % 3)) % 2) + 10), "a", 0.6) for i in range(n)]] for j in range(9)]
    if k == "rare":  # one true positive among n: precision, recall and F1 far below 1%
        return [[[((0, 10), "ab"[i % 2])], [((0, 10), "ba"[i % 2] if i else "a", 0.6)]] for i in range(n)]
    if k == "datums":
        return [[[((0, 10), "ab"[i % 4 == 0])], [((0, 5 + i % 6), "ab"[i % 7 == 0], ((i * 5) % 11 + 1) / 12)]] for i in range(n)]
    return [[[((0, 10), f"l{i}")], [((0, 8), f"l{i if i % 3 else (i * 7) % n}", ((i * 5) % 11 + 1) / 12)]] for i in range(n)]


def gen_scale(tier):
    for n in (130, 300, 520) if tier == "quick" else (130, 260, 300, 520, 900):
        for k in ("annotations", "datums", "labels"):
            yield {"n": n, "kind": k}
    for n in (18, 40, 100, 240):
        yield {"n": n, "kind": "cluster"}
    for n in (50, 1500, 15000):
        yield {"n": n, "kind": "rare"}
    for n in (16, 128, 256):
        yield {"n": n, "kind": "blocks"}


def run_scale(case):
    ds = mk(scale(case))
    got, want, _ = od.check_counts(od.build(ds), ds, [0.5, 0.8], [0.5, 0.0])
    state(sorted((repr(k), v) for k, v in want["Counts"].items()))
    outcome(sorted((repr(k), v) for k, v in got["Counts"].items()))


HUGE = 100_003


def gen_huge(tier):
    for d in (1,) if tier == "quick" else (1, 0):
        yield {"d": d}


def run_huge(case):
    """label indices beyond 10^5, where a relative tolerance of 1e-5 spans neighbouring indices."""
    far = [{"u": f"p{i}", "b": [0, 10, 0, 1], "l": [f"l{i}"], "s": [0.25]} for i in range(HUGE)]
    # the labels are introduced as the labels of one prediction each, spread over datums without ground truths
    ds = [{"u": f"d{j}", "g": [], "p": far[j: j + 2000]} for j in range(0, HUGE, 2000)]
    ds.append({"u": "last", "g": [{"u": "g", "b": [0, 10, 0, 1], "l": f"l{HUGE - 1}"}],
               "p": [{"u": "q", "b": [0, 10, 0, 1], "l": [f"l{HUGE - 1 - case['d']}"], "s": [0.75]}]})
    od.check_counts(od.build(ds, {"k": "mem", "f": 2 * HUGE}), ds, [0.5], [0.5])
    state(case)
    outcome(case)


FAMILIES = [
    Family("huge-label-set", gen_huge, run_huge, "100,003 labels, the last two adjacent indices as ground truth and prediction", case_timeout=600),
    Family("zero-to-two-predictions", gen_two, run, "8 ground truth configurations x every multiset of <=2 predictions over 6 (8) positions, 2 labels, scores {0,.5,.9}; 11 IoU thresholds incl. equality, score thresholds at and above every score"),
    Family("three-predictions", gen_three, run, "4 (7) ground truth configurations x every multiset of 3 predictions over 3 (5) positions, 2 labels, 2 scores"),
    Family("insertion-order", gen_order, run, "every order of 3-4 (5) predictions clustered on 1-2 ground truths"),
    Family("several-datums", gen_datums, run, "every sequence of 2-3 (4) datums from 9 datum shapes (empty, unmatched, duplicated, misclassified)"),
    Family("fine-differences", gen_fine, run_fine, "pairs of predictions with IoUs 1e-4 apart and scores one ulp / 1e-9 / 1e-6 apart; thresholds one ulp around every occurring IoU and score; overlaps of 0.05-1%"),
    Family("names", gen_names, run, "21 pairs of unusual label, datum and annotation names x pairs of 9 datum shapes (every 5th in quick)"),
    Family("scale", gen_scale, run_scale, "130-520 (900) annotations of one datum, datums, or labels; 18-240 equally scored predictions clustered on few ground truths; 9 datums of 16-256 annotations each; one true positive among 50-15,000"),
]
