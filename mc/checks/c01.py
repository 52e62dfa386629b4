import itertools
import math

from .. import cls
from ..core import Family, outcome, state
from ..util import PAIRS, name_map, rename, subsets

ASSUMPTIONS = ["labels within one classification are distinct; scores are finite and non-negative"]


def _datums(labels, alpha, max_preds, exact=None):
    """Every (gt, ordered predicted labels, scores)."""
    out = []
    for g in labels:
        for k in range(1, max_preds + 1):
            for ps in itertools.combinations(labels, k):
                for sc in itertools.product(alpha, repeat=k):
                    out.append((g, ps, sc))
    return out


def mk(specs):
    return [{"u": f"u{i}", "g": g, "p": list(p), "s": list(s)} for i, (g, p, s) in enumerate(specs)]


def gen_single(tier):
    """one datum: all predicted-label orders and scores."""
    labels = ["a", "b", "c"] if tier == "quick" else ["a", "b", "c", "d"]
    alpha = [0.0, 0.25, 0.5, 1.0]
    for g in labels:
        for k in range(1, len(labels) + 1):
            for ps in itertools.permutations(labels, k):
                for sc in itertools.product(alpha, repeat=k):
                    yield [[g, ps, sc]]


def gen_pairs(tier):
    alpha = [0.0, 0.25, 0.5, 1.0]
    ds = _datums(["a", "b"], alpha, 2) if tier == "quick" else _datums(["a", "b", "c"], alpha, 2)
    for x, y in itertools.product(ds, repeat=2):
        yield [x, y]


def gen_triples(tier):
    ds = _datums(["a", "b", "c"], [0.2, 0.6], 2)
    ds = [d for d in ds if len(set(d[2])) == 2 or len(d[2]) == 1]
    if tier == "quick":
        ds = [d for i, d in enumerate(ds) if i % 4 != 1]
    for c in itertools.combinations_with_replacement(ds, 3):
        yield list(c)


def gen_three_labels(tier):
    alpha = [0.1, 0.4, 0.5] if tier == "quick" else [0.0, 0.1, 0.4, 0.5]
    ds = [(g, ("c", "a", "b"), s) for g in "abc" for s in itertools.product(alpha, repeat=3)]
    for x, y in itertools.product(ds, ds[:: 2 if tier == "quick" else 1]):
        yield [x, y]


def thresholds(sc):
    """every score itself (equality), its two floating-point neighbours, between them, below and above."""
    near = [math.nextafter(s, d) for s in sc if s > 0 for d in (0.0, 2.0)]
    return zigzag(set([0.0] + sc + near + [s + 0.05 for s in sc] + [max(sc) + 0.3]))


def zigzag(ts):
    """largest, smallest, second largest, ...: neither ascending nor descending."""
    ts = sorted(ts)
    return [ts[-1 - i // 2] if i % 2 == 0 else ts[i // 2] for i in range(len(ts))]


FINE = [0.0, 2e-8, 1e-6, 1e-3, 0.1, math.nextafter(0.1, 1), 0.1 + 1e-9, 0.1 + 1e-6, 1 / 3, 0.3333333432674408, 0.5, 1 - 1e-12, 1.0]


def gen_fine(tier):
    """scores that differ by one unit in the last place, by less than single precision, or lie near 0."""
    for a, b in itertools.product(FINE, repeat=2):
        for g in "abc":
            yield [[g, "ab", (a, b)]]
        yield [["a", "a", (a,)], ["b", "a", (b,)]]
        yield [["a", "ba", (0.25, a)], ["b", "ab", (b, 0.25)]]
    if tier != "quick":
        for sc in itertools.product(FINE, repeat=3):
            yield [["a", "abc", sc]]


def gen_scale(tier):
    """counts, label numbers and datum numbers beyond 8 bits (16 bits: the last cases)."""
    for n in (130, 260, 300):
        for k in (1, 2, 3):
            yield {"n": n, "k": k, "labels": 2, "w": 1}
    for n in (140, 300):
        yield {"n": n, "k": 3, "labels": n, "w": 2}
        yield {"n": 20, "k": 3, "labels": n, "w": n}
    yield {"n": 66000, "k": 2, "labels": 3, "w": 1}
    for n in (50, 1500, 30000):  # one success among n: precision, recall, F1 and accuracy far below 1%
        yield {"n": n, "k": 1, "labels": 2, "w": 1, "rare": 1}
    if tier != "quick":
        yield {"n": 140000, "k": 5, "labels": 40000, "w": 2}


def scale_ds(case):
    n, k, m, w = case["n"], case["k"], case["labels"], case["w"]
    if "rare" in case:
        return [{"u": f"u{i}", "g": "ab"[i % 2], "p": ["ba"[i % 2] if i else "a"], "s": [1.0]} for i in range(n)]
    L = [f"l{j}" for j in range(m)]
    return [{"u": f"u{i}", "g": L[(i * i // 3) % m] if m > 2 else L[i % 11 == 0],
             "p": [L[(i + j) % m] if m > 2 else L[(i % 7 == 0)] for j in range(w)],
             "s": [((i + j) % k + 1) / k for j in range(w)]} for i in range(n)]


def run_scale(case):
    ds = scale_ds(case)
    labels, rows, ts = cls.labels_of(ds), cls.rows_of(ds), [0.0, 0.5, 1.0]
    ev = cls.build(ds)
    for hm in (True, False):
        got, want = cls.obs_pr(ev, ts, hm), cls.m_pr(rows, labels, ts, hm)
        cls.expect(f"precision/recall hardmax={hm}", got, want)
        state([hm, case, len(ds)])
        outcome([hm, [got["Accuracy"][(None, t)] for t in ts], len(got["Counts"])])


HUGE = 100_003


def gen_huge(tier):
    """label indices beyond 10^5 (where a relative tolerance of 1e-5 spans neighbouring indices)."""
    for d in (1,) if tier == "quick" else (1, 0):
        yield {"d": d}


def run_huge(case):
    L = [f"l{j}" for j in range(HUGE)]
    ds = [{"u": "w", "g": L[0], "p": L, "s": [0.25] * HUGE},
          {"u": "x", "g": L[-1], "p": [L[-1 - case["d"]]], "s": [0.5]}]
    ev, rows = cls.build(ds, {"k": "mem", "b": 1000, "f": 2 * HUGE}), cls.rows_of(ds)
    for hm in (True, False):
        cls.expect(f"hardmax={hm}", cls.obs_pr(ev, [0.1], hm), cls.m_pr(rows, L, [0.1], hm))
    state(case)
    outcome(case)


def gen_names(tier):
    ds = _datums(["a", "b"], [0.3, 0.6], 2)
    for k in range(len(PAIRS)):
        for i in range(0, len(ds), 3 if tier == "quick" else 1):
            yield {"ren": k, "d": [ds[i], ds[(5 * i + 3) % len(ds)], ("c", ("b", "c", "a"), (0.1, 0.2, 0.7))]}


def named(case):
    return rename(mk(case["d"]), name_map(case["ren"]))


def run(case, hms=(True, False)):
    ds = named(case) if isinstance(case, dict) else mk(case)
    labels = cls.labels_of(ds)
    ev = cls.build(ds)
    sc = sorted({s for d in ds for s in d["s"]})
    ts = thresholds(sc)
    rows = cls.rows_of(ds)
    for hm in hms:
        got = cls.obs_pr(ev, ts, hm)
        want = cls.m_pr(rows, labels, ts, hm)
        cls.expect(f"precision/recall hardmax={hm}", got, want)
        state([hm, [want["Counts"][(l, t)] for l in sorted(labels) for t in ts]])
        outcome([hm, [got["Counts"][(l, t)] for l in sorted(labels) for t in ts]])


def gen_default(tier):
    """default arguments, many datums: n copies of a pattern, one label missing from predictions."""
    ds = _datums(["a", "b", "c"], [0.0, 0.3, 0.7], 3)
    for n in ([2, 9] if tier == "quick" else [2, 9, 33]):
        for off in range(0, len(ds), 3 if tier == "quick" else 1):
            yield [ds[(off + 7 * i) % len(ds)] for i in range(n)]


def run_default(case):
    ds = mk(case)
    ev = cls.build(ds)
    cls.step()
    res = ev.compute_precision_recall()
    got = {}
    for mt, ms in res.items():
        for m in ms:
            got.setdefault(mt.value, {}).setdefault((m.parameters.get("label"), m.parameters["score_threshold"]), []).append(m.value)
    want = cls.m_pr(cls.rows_of(ds), cls.labels_of(ds), [0.0], True)
    cls.expect("default arguments", got, want)
    state(want["Counts"][sorted(want["Counts"])[0]])
    run(case)


FAMILIES = [
    Family("huge-label-set", gen_huge, run_huge, "100,003 labels, the last two adjacent indices as ground truth and prediction", case_timeout=600),
    Family("one-datum", gen_single, run, "1 datum, 3 (4 thorough) labels, every ordered subset of predicted labels, scores from {0,.25,.5,1}, thresholds at/between/outside all scores, hardmax on/off"),
    Family("two-datums", gen_pairs, run, "every ordered pair of datums over 2 labels, 1-2 predictions, 3 (4) scores"),
    Family("two-datums-three-labels", gen_three_labels, run, "pairs of fully scored datums over 3 labels"),
    Family("three-datums", gen_triples, run, "every multiset of 3 datums over 3 labels, 1-2 predictions, 2 scores"),
    Family("many-datums", gen_default, run_default, "2-33 datums cycling through all datum shapes, default arguments too"),
    Family("names", gen_names, run, "21 pairs of unusual label and datum names (empty, blank, case, digits, unicode forms, control characters, 300 characters) x 3-datum datasets"),
    Family("fine-scores", gen_fine, run, "1-2 datums, 1-2 (3) predictions, 13 scores one ulp / 1e-9 / 1e-6 apart, near 0 and near 1; thresholds one ulp around each"),
    Family("scale", gen_scale, run_scale, "130-66,000 (140,000) datums, 2-300 (40,000) labels, counts beyond 8 (16) bits; one true positive among 50-30,000"),
]
