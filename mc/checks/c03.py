import itertools
from .. import cls
from ..core import Family, outcome, require, scratch, state
from . import c01

ASSUMPTIONS = c01.ASSUMPTIONS


def check(ds, ev, tss, hms=(True, False)):
    labels = cls.labels_of(ds)
    rows = cls.rows_of(ds)
    for ts in tss:
        for hm in hms:
            cm, ex, cme = cls.obs_cm(ev, ts, hm), cls.obs_ex(ev, ts, hm), cls.obs_cme(ev, ts, hm)
            cls.expect(f"confusion matrix at {ts} hardmax={hm}", cm, [cls.m_cm(rows, labels, t, hm) for t in ts])
            wex = cls.m_ex(rows, ts, hm)
            cls.expect(f"examples at {ts} hardmax={hm}", sorted(ex), sorted(wex))
            wcme = [cls.m_cme(rows, labels, t, hm) for t in ts]
            cls.expect(f"confusion matrix with examples at {ts} hardmax={hm}", cme, wcme)
            state([hm, wcme])
            outcome([hm, cme])


def thresholds(ds):
    sc = sorted({s for d in ds for s in d["s"]})
    ts = c01.thresholds(sc)
    return [ts, sorted(ts[:: 4]), sorted(ts[1:: 5], reverse=True) or [0.0]]


def run(case):
    ds = c01.named(case) if isinstance(case, dict) else c01.mk(case)
    ev = cls.build(ds)
    check(ds, ev, thresholds(ds))
    labels, rows = cls.labels_of(ds), cls.rows_of(ds)
    for name, got, want in (("confusion matrix", cls.obs_cm(ev, None, True), [cls.m_cm(rows, labels, 0.0, True)]),
                            ("examples", sorted(cls.obs_ex(ev, None, True)), sorted(cls.m_ex(rows, [0.0], True))),
                            ("confusion matrix with examples", cls.obs_cme(ev, None, True), [cls.m_cme(rows, labels, 0.0, True)])):
        cls.expect(f"{name} with default arguments", got, want)


def gen_multi(tier):
    """no-hardmax with several labels over the threshold: 3-4 labels fully scored, pairs of datums."""
    labels = ["d", "a", "c", "b"] if tier != "quick" else ["c", "a", "b"]
    alpha = [0.0, 0.3, 0.7]
    ds = [(g, tuple(labels), s) for g in labels for s in itertools.product(alpha, repeat=len(labels))]
    for x in ds:
        yield [x]
    for x, y in itertools.product(ds[:: 3 if tier == "quick" else 2], ds[:: 4 if tier == "quick" else 7]):
        yield [x, y]


def gen_file(tier):
    base = list(c01.gen_default("quick"))
    base = [b for b in base if len(b) > 2][:: 6 if tier == "quick" else 1]
    for b in base:
        for layout in ({"k": "file", "b": 1, "r": 1}, {"k": "file", "b": 4, "r": 5}, {"k": "mem", "b": 1}):
            yield {"d": b, "l": layout}


def run_file(case):
    ds = c01.mk(case["d"])
    with scratch() as d:
        check(ds, cls.build(ds, case["l"], d + "/x"), [thresholds(ds)[1]])


def gen_scale(tier):
    """counts, labels and datums beyond 8 bits."""
    for n in (130, 260, 300):
        for k in (1, 2):
            yield {"n": n, "k": k, "labels": 2, "w": 1}
    for n in (600, 66000):   # one cell of the matrices beyond 8 and 16 bits (the latter in tables of 1,000: the report takes quadratic memory)
        for k in ("hit", "miss", "low"):
            yield {"n": n, "k": k, "labels": 2, "w": 1}
    for n in (140, 300):
        yield {"n": n, "k": 3, "labels": n, "w": 2}
        yield {"n": 7, "k": 3, "labels": n, "w": n}


def run_scale(case):
    if isinstance(case["k"], str):
        g, sc = {"hit": ("a", 0.9), "miss": ("b", 0.9), "low": ("a", 0.3)}[case["k"]]
        ds = [{"u": f"u{i}", "g": g, "p": ["a"], "s": [sc]} for i in range(case["n"])] + [{"u": "v", "g": "b", "p": ["b"], "s": [0.7]}]
    else:
        ds = c01.scale_ds(case)
    if case["n"] > 1000:
        with scratch() as d:
            ev = cls.build(ds, {"k": "file", "b": 1000, "r": 1000}, d + "/x")
            labels, rows = cls.labels_of(ds), cls.rows_of(ds)
            for hm in (True, False):
                cls.expect(f"confusion matrix hardmax={hm}", cls.obs_cm(ev, [0.5, 0.0], hm), [cls.m_cm(rows, labels, t, hm) for t in (0.5, 0.0)])
            state(case)
        return
    check(ds, cls.build(ds, {"k": "mem", "b": 1000}), [[0.5, 0.0, 1.0]])


def gen_triples(tier):
    return itertools.islice(c01.gen_triples(tier), 0, None, 3 if tier == "quick" else 1)


FAMILIES = [
    Family("one-datum", c01.gen_single, run, "as C01 one-datum; thresholds ascending (all) and a shuffled list"),
    Family("two-datums", c01.gen_pairs, run, "as C01 two-datums"),
    Family("multi-positive", gen_multi, run, "1-2 datums with 3 (4) scored labels, scores {0,.3,.7}"),
    Family("three-datums", gen_triples, run, "every (third, quick) multiset of 3 datums over 3 labels"),
    Family("stored", gen_file, run_file, "9 datums, memory and multi-file layouts"),
    Family("fine-scores", c01.gen_fine, run, "as C01 fine-scores"),
    Family("names", c01.gen_names, run, "as C01 names"),
    Family("scale", gen_scale, run_scale, "130-600 (66,000) datums of 2 labels, 140-300 labels: counts beyond 8 (16) bits, datum and label numbers beyond 8 bits"),
]
