import itertools
from .. import od
from ..core import Family, outcome, scratch, state
from . import d02

ASSUMPTIONS = ["pairs tied in both score and IoU may be matched in either order, as long as all three reports use the same matching; "
               "for multi-label predictions example lists are compared as sets"]
IOUS = [0.5, 0.05, 0.1, 1.0, 2 / 3, d02.UP(0.5)]


def mk(case):
    return [{"u": f"d{i}", "g": [{"u": f"d{i}g{j}", "b": d02.box(v), "l": l} for j, (v, l) in enumerate(gs)],
             "p": [{"u": f"d{i}p{j}", "b": d02.box(v), "l": list(ls), "s": list(ss)} for j, (v, ls, ss) in enumerate(ps)]}
            for i, (gs, ps) in enumerate(case)]


def run(case):
    layout = {"k": "mem"}
    if isinstance(case, dict):
        case, layout = case["d"], case["l"]
    ds = mk(case)
    if not od.labels_of(ds):
        return
    sc = sorted({s for d in ds for p in d["p"] for s in p["s"]})
    scores = d02.zigzag(set([0.0] + sc[:3] + [s + 0.05 for s in sc[:2]] + [d02.UP(sc[0]) if sc else 1.0]))
    if layout["k"] == "mem":
        want, _ = od.check_matching(od.build(ds, layout), ds, IOUS, scores)
    else:
        with scratch() as d:
            want, _ = od.check_matching(od.build(ds, layout, d + "/x"), ds, IOUS, scores)
    state(want)
    outcome([od.strip(w) for w in want])


def one(ps):
    return [(v, (l,), (s,)) for v, l, s in ps]


def gen_two(tier):
    ivs = ["full", "half", "off2", "far", "sliver"] if tier == "quick" else list(d02.IV)
    opts = [(v, l, s) for v in ivs for l in "ab" for s in (0.0, 0.5, 0.9) if tier != "quick" or v != "sliver" or s > 0.5]
    for gs in d02.GTS:
        for k in (0, 1, 2):
            for ps in itertools.combinations_with_replacement(opts, k):
                yield [[gs, one(ps)]]


def gen_three(tier):
    ivs = ["full", "off2", "mid"] if tier == "quick" else ["full", "half", "off2", "mid", "far"]
    opts = [(v, l, s) for v in ivs for l in "ab" for s in (0.5, 0.9)]
    gts = [d02.GTS[2], d02.GTS[3]] if tier == "quick" else d02.GTS[1:]
    for gs in gts:
        for ps in itertools.combinations(opts, 3):
            yield [[gs, one(ps)]]


def gen_multi(tier):
    lab = [(("a", "b"), s) for s in ((0.9, 0.5), (0.5, 0.9), (0.5, 0.5), (0.5, 0.0))] + [(("b", "c"), (0.7, 0.3)), (("a",), (0.6,)), (("c",), (0.9,))]
    ivs = ["full", "off2", "mid", "far"]
    opts = [(v, l, s) for v in ivs for l, s in lab]
    for gs in d02.GTS[1:4] + [[]]:
        for p in opts:
            yield [[gs, [p]]]
        for ps in itertools.combinations(opts if tier != "quick" else opts[::2], 2):
            yield [[gs, list(ps)]]


def gen_three_gts(tier):
    G = ["full", "off2", "mid", "g2"]
    for gi in itertools.combinations(G, 3):
        for gl in itertools.product("ab", repeat=3):
            for pi in itertools.product(["full", "off2", "mid"], repeat=2 if tier == "quick" else 3):
                for sc in ((0.9, 0.5, 0.7), (0.5, 0.5, 0.5), (0.5, 0.9, 0.7)):
                    yield [[list(zip(gi, gl)), [(v, ("a",), (s,)) for v, s in zip(pi, sc)]]]


SH = [d for d in d02.DATUMS]


def gen_datums(tier):
    for k in (2, 3):
        for c in itertools.product(range(len(SH)), repeat=k):
            if k == 3 and tier == "quick" and (c[0] + 2 * c[1] + 3 * c[2]) % 4:
                continue
            yield [[SH[i][0], one(SH[i][1])] for i in c]


def gen_files(tier):
    for c in itertools.product(range(len(SH)), repeat=3):
        if (c[0] + 2 * c[1] + 5 * c[2]) % (9 if tier == "quick" else 2):
            continue
        for l in ({"k": "file", "b": 1, "r": 1}, {"k": "file", "b": 3, "r": 4}):
            yield {"d": [[SH[i][0], one(SH[i][1])] for i in c], "l": l}


def run_fine(case):
    ds = d02.mk(case)
    want, _ = od.check_matching(od.build(ds), ds, d02.iou_thresholds(ds)[:8], d02.scores_of(ds)[:4])
    state(want)
    outcome([od.strip(w) for w in want])


def gen_multi_scale(tier):
    """many pairs in one datum and over datums, predictions with 2-4 labels each."""
    for n in (6, 12, 40):
        for k in (2, 3, 4):
            for tie in (0, 1):
                yield {"n": n, "k": k, "tie": tie}


def run_multi_scale(case):
    n, k, tie = case["n"], case["k"], case["tie"]
    sc = lambda i, j: 0.5 if tie and j == 0 else round(0.9 - 0.2 * j - 0.001 * (i * 7 % 11) * (1 - tie), 4)
    one_ = lambda m, off: [[((20 * i, 20 * i + 10), "abcd"[(i + off) % 4]) for i in range(m)],
                           [((20 * i + i % 4, 20 * i + 10 + i % 4 + (8 if i % 3 == 0 else 0)), tuple("abcd"[(i + off + j) % 4] for j in range(k)),
                             tuple(sc(i, j) for j in range(k))) for i in range(m)]]
    ds = mk([one_(n, 0), one_(3, 1), one_(n // 2, 2)])
    want, _ = od.check_matching(od.build(ds), ds, [0.5, 0.05, 0.7], [0.5, 0.0, 0.7])
    state(want)
    outcome([od.strip(w) for w in want])


def run_names(case):
    ds = d02.named(case)
    if not od.labels_of(ds):
        return
    want, _ = od.check_matching(od.build(ds), ds, [0.5, 0.05], [0.5, 0.0])
    state(want)
    outcome([od.strip(w) for w in want])


def run_scale(case):
    ds = d02.mk(d02.scale(case))
    want, _ = od.check_matching(od.build(ds), ds, [0.5, 0.8], [0.5, 0.0])
    state(want)
    outcome([od.strip(w) for w in want])


FAMILIES = [
    Family("zero-to-two-predictions", gen_two, run, "8 ground truth configurations x every multiset of <=2 predictions, 5 (8) positions, 2 labels, scores {0,.5,.9}; 6 IoU thresholds incl. equality, all score thresholds"),
    Family("three-predictions", gen_three, run, "every set of 3 predictions over 3 (5) positions, 2 labels, 2 scores"),
    Family("multi-label", gen_multi, run, "1-2 predictions with 1-2 labels each"),
    Family("three-ground-truths", gen_three_gts, run, "3 overlapping ground truths, 2 (3) predictions, all labelings"),
    Family("several-datums", gen_datums, run, "sequences of 2-3 datums from 9 shapes"),
    Family("files", gen_files, run, "3 datums over several files"),
    Family("fine-differences", d02.gen_fine, run_fine, "as D02 fine-differences"),
    Family("multi-label scale", gen_multi_scale, run_multi_scale, "6-40 predictions of 2-4 labels in one of three datums, distinct and equal scores"),
    Family("names", d02.gen_names, run_names, "as D02 names"),
    Family("scale", d02.gen_scale, run_scale, "as D02 scale: 130-300 (700) annotations of one datum, datums, or labels"),
]
