import itertools
from .. import od
from ..core import Family, outcome, scratch, state
from . import d02

ASSUMPTIONS = ["single-label predictions; rankings with equal score and IoU but different outcome are not asserted here (D05 requires them to be layout independent)"]


def seq_dataset(seq, per=2):
    """seq: list of (label, hit in 'T','H','F'); scores strictly descending unless given; T IoU 1, H IoU .6, F none.

    Every T/H has its own ground truth; extra ground truths are given by `extra` (label, n)."""


def mk(case):
    ds = []
    n = 0
    per = case.get("per", 2)
    items = []
    for i, it in enumerate(case["seq"]):
        l, h = it[0], it[1]
        s = it[2] if len(it) > 2 else round(0.95 - 0.01 * i, 4)
        items.append((l, h, s, i))
    order = case.get("order")
    if order:
        items = [items[i] for i in order]
    extra = [(l, k) for l, c in case.get("extra", {}).items() for k in range(c)]
    cells = [("i", x) for x in items] + [("e", x) for x in extra]
    for j in range(0, len(cells), per):
        g, p = [], []
        for pos, (kind, x) in enumerate(cells[j:j + per]):
            x0 = 100 * pos
            if kind == "e":
                g.append({"u": f"e{x[0]}{x[1]}", "b": [x0, x0 + 10, 0, 1], "l": x[0]})
                continue
            l, h, s, i = x
            if h != "F":
                g.append({"u": f"g{i}", "b": [x0, x0 + 10, 0, 1], "l": l})
            b = {"T": [x0, x0 + 10, 0, 1], "H": [x0, x0 + 6, 0, 1], "F": [x0 + 50, x0 + 60, 0, 1]}[h]
            p.append({"u": f"p{i}", "b": b, "l": [l], "s": [s]})
        ds.append({"u": f"d{j}", "g": g, "p": p})
    return ds


IOUS = [0.5, 0.75]


def run(case):
    ds = mk(case)
    ious = case.get("ious", IOUS)
    sc = case.get("scores", [0.0, 0.93])
    if "l" in case:
        with scratch() as d:
            got, want = od.check_curves(od.build(ds, case["l"], d + "/x"), ds, ious, sc)
    else:
        got, want = od.check_curves(od.build(ds), ds, ious, sc)
    key = [sorted((repr(k), v) for k, v in want[m].items()) for m in ("AP", "AR", "mAP")]
    state(key)
    outcome([sorted((repr(k), [round(x, 9) for x in v]) for k, v in got[m].items()) for m in ("AP", "AR", "mAP")])


def gen_seq(tier):
    """every TP/FP ranking of one label, with 0-2 missed ground truths."""
    for n in range(1, 7 if tier == "quick" else 8):
        for s in itertools.product("TF" if n > 5 else "THF", repeat=n):
            for ex in range(0, 3):
                yield {"seq": [("a", h) for h in s], "extra": {"a": ex}}


def gen_two(tier):
    """two labels interleaved."""
    opts = [(l, h) for l in "ab" for h in "TF"]
    for n in range(2, 5 if tier == "quick" else 6):
        for s in itertools.product(opts, repeat=n):
            for ex in ({}, {"a": 1}, {"b": 2}, {"c": 1}):
                yield {"seq": list(s), "extra": ex}


def gen_bins(tier):
    """m matched out of n ground truths: every recall value m/n."""
    N = 60 if tier == "quick" else 130
    for n in range(1, N + 1):
        for m in sorted({0, 1, n - 1, n} | set(range(0, n + 1, 1 if tier != "quick" or n <= 30 or n in (50, 57, 58) else 5))):
            if 0 <= m <= n:
                yield {"seq": [("a", "T", 0.9)] * m + [("a", "F", 0.2)], "extra": {"a": n - m}, "per": 10, "scores": [0.5]}


def gen_order(tier):
    """insertion order must not matter, only the scores."""
    for s in (["T", "F", "T", "F"], ["F", "T", "T"], ["T", "H", "F", "T"], ["F", "H", "H", "T"]):
        for o in itertools.permutations(range(len(s))):
            for per in (1, 2, 5):
                yield {"seq": [("a", h) for h in s], "order": list(o), "per": per, "extra": {"a": 1}}


def gen_thresholds(tier):
    ious = [0.3, 0.6, 0.75, 1.0]
    scs = [0.0, 0.9, 0.93, 0.945]
    seq = [("a", "T"), ("b", "F"), ("a", "H"), ("b", "H"), ("a", "F"), ("b", "T")]
    for k in range(1, 4 if tier == "quick" else 5):
        for a in itertools.permutations(ious, k):
            for j in range(1, 3 if tier == "quick" else 4):
                for b in itertools.permutations(scs, j):
                    yield {"seq": seq, "extra": {"a": 1, "c": 1}, "ious": list(a), "scores": list(b)}


def gen_files(tier):
    seqs = [[("a", h) for h in s] for s in ("TFTFT", "FFTTH", "TTTFF", "HTFHT")] + [
        [("a", "T"), ("b", "F"), ("b", "T"), ("a", "F"), ("a", "H"), ("b", "T")], [("ab"[i % 2], "TFH"[i % 3]) for i in range(12)]]
    rng = range(1, 5) if tier == "quick" else range(1, 8)
    for s in seqs:
        for o in (None, list(reversed(range(len(s))))):
            for b in ((1, 2) if tier == "quick" else (1, 2, 3, 5)):
                for r in rng:
                    for f in (1, None):
                        c = {"seq": s, "extra": {"a": 1}, "per": 1, "l": {"k": "file", "b": b, "r": r, "f": f}}
                        if o:
                            c["order"] = o
                        yield c


def gen_ties(tier):
    """equal scores: ranking falls back to IoU; equal outcome ties."""
    for n in (2, 3, 4):
        for s in itertools.product("THF", repeat=n):
            for sc in itertools.product((0.5, 0.8), repeat=n):
                yield {"seq": [("a", h, x) for h, x in zip(s, sc)], "extra": {"a": 1}}


def run_shapes(case):
    ds = d02.mk(case)
    if not od.labels_of(ds):
        return
    got, want = od.check_curves(od.build(ds), ds, [0.25, 0.5, 0.8], [0.3])
    state(sorted((repr(k), v) for k, v in want["AP"].items()))


def gen_shapes(tier):
    yield from itertools.islice(d02.gen_datums("quick"), 0, None, 1)
    yield from itertools.islice(d02.gen_three(tier), 0, None, 3 if tier == "quick" else 1)


def gen_dense(tier):
    """more than 100 ground truths per label, so that several hits share a recall bin, split over chunks."""
    pats = ["TFTTFTFFTTTF", "TTTTTTTTTTTT", "FTFTFTFTFTFT", "TTFFFFTTTTFF", "FFFFTTTTTTTT"]
    for n in (120, 150, 330):
        for i, p in enumerate(pats):
            for b, r, f in itertools.product((1, 2, 5), (1, 3), (1, 4)) if tier != "quick" else ((1, 1, 1), (2, 3, 2), (1, 3, 4), (5, 3, 1)):
                yield {"seq": [("a", h) for h in p], "extra": {"a": n - p.count("T")}, "per": 4, "scores": [0.5],
                       "l": {"k": "file", "b": b, "r": r, "f": f}}
            for b in (1, 3):
                yield {"seq": [("a", h) for h in p], "extra": {"a": n - p.count("T")}, "per": 4, "scores": [0.5], "l": {"k": "mem", "b": b}}


def run_derived(case):
    """D02's datasets: AP, AR and curves."""
    ds = d02.mk(d02.scale(case) if isinstance(case, dict) else case)
    ious = [0.5, 0.8] if isinstance(case, dict) else d02.iou_thresholds(ds)
    with scratch() as d:
        layout = case.get("l") if isinstance(case, dict) else None
        ev = od.build(ds, layout, d + "/x") if layout else od.build(ds)
        got, want = od.check_curves(ev, ds, ious, [0.5, 0.0])
    state(sorted((repr(k), v) for k, v in want["AP"].items()))
    outcome(sorted((repr(k), v) for k, v in got["AP"].items()))


def gen_scale(tier):
    yield from d02.gen_scale(tier)
    # the ranking of one label continues over chunks past 8-bit counts
    for n in (300, 700):
        for k in ("annotations", "datums"):
            for l in ({"k": "file", "b": 64, "r": 100, "f": 50}, {"k": "mem", "b": 64}):
                yield {"n": n, "kind": k, "l": l}


FAMILIES = [
    Family("rankings", gen_seq, run, "every sequence of 1-6 (7) outcomes {hit IoU 1, hit IoU .6, miss} of one label, 0-2 missed ground truths"),
    Family("two-labels", gen_two, run, "every interleaving of 2-4 (5) outcomes of two labels, extra ground truths of a, b or an unpredicted label"),
    Family("recall-bins", gen_bins, run, "m of n ground truths matched, n up to 60 (130)"),
    Family("insertion-order", gen_order, run, "every insertion order x 3 groupings into datums"),
    Family("threshold-lists", gen_thresholds, run, "every ordered subset of 4 IoU and 4 score thresholds up to 3 (4) and 2 (3)"),
    Family("ties", gen_ties, run, "2-4 predictions, two score values, every outcome"),
    Family("overlapping", gen_shapes, run_shapes, "the overlapping arrangements of D02"),
    Family("files", gen_files, run, "6 rankings x 2 insertion orders x batch x rows/file x finalize batch"),
    Family("dense-bins", gen_dense, run, "5 rankings of 12 predictions among 120-330 ground truths (several hits per recall bin) split into small batches and files"),
    Family("fine-differences", d02.gen_fine, run_derived, "as D02 fine-differences"),
    Family("scale", gen_scale, run_derived, "as D02 scale; 300 and 700 predictions ranked over chunks of 50-100 rows"),
]
