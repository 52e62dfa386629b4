import itertools
from .. import cls
from ..core import Family, outcome, scratch, state

ASSUMPTIONS = ["every datum scores every label (ROCAUC over partial scorings is undefined); finite scores in [0,1]"]


def mk(case, labels):
    return [{"u": f"u{i}", "g": g, "p": list(labels), "s": list(s)} for i, (g, s) in enumerate(case)]


def check(ds, ev):
    rows = cls.rows_of(ds)
    want = cls.m_roc(rows, cls.labels_of(ds))
    got = cls.obs_roc(ev)
    cls.expect("ROCAUC", got, want)
    state(want)
    outcome(got)


def gen2(tier):
    alpha = [0.0, 0.3, 0.6]
    opts = [(g, (a, b)) for g in "ab" for a in alpha for b in ([0.0, 0.6] if tier == "quick" else alpha)]
    for n in range(1, 5 if tier == "quick" else 6):
        yield from ([list(x) for x in c] for c in itertools.combinations_with_replacement(opts, n))


def run2(case):
    ds = mk(case, ["a", "b"])
    check(ds, cls.build(ds))


def gen1(tier):
    """one label's ranking, all orders: n datums, scores of label a; label b gets the complement."""
    alpha = [0.0, 0.4, 0.8, 1.0]
    for n in range(2, 5 if tier == "quick" else 6):
        for gs in itertools.product("ab", repeat=n):
            for sc in itertools.product(alpha if n < 5 else alpha[:3], repeat=n):
                yield [[g, [s, round(1 - s, 3)]] for g, s in zip(gs, sc)]


def gen3(tier):
    alpha = [0.0, 0.5, 0.9]
    opts = [(g, s) for g in "abc" for s in itertools.product(alpha, repeat=3)]
    if tier == "quick":
        opts = opts[::2]
    for n in (2, 3):
        for c in itertools.combinations_with_replacement(opts[:: 1 if n == 2 else 4], n):
            yield list(c)


def run3(case):
    ds = mk(case, ["b", "a", "c"])
    check(ds, cls.build(ds))


PATTERNS = [
    # (gts, scores of a): ties inside and across positives and negatives, zeros, all tied, perfect, inverted
    ("abab", (0.9, 0.9, 0.1, 0.1)), ("aabb", (0.5, 0.5, 0.5, 0.5)), ("abba", (0.0, 0.0, 0.5, 0.5)),
    ("aabb", (0.9, 0.8, 0.2, 0.1)), ("bbaa", (0.9, 0.8, 0.2, 0.1)), ("abab", (0.0, 0.0, 0.0, 0.0)),
    ("ababa", (0.7, 0.7, 0.7, 0.3, 0.3)), ("babab", (1.0, 0.6, 0.6, 0.6, 0.0)), ("aaaa", (0.2, 0.4, 0.4, 0.6)),
    ("abbab", (0.5, 0.9, 0.5, 0.1, 0.1)), ("bbabaa", (0.9, 0.1, 0.9, 0.5, 0.5, 0.1)),
    ("ab" * 6, (0.9, 0.9, 0.8, 0.7, 0.7, 0.7, 0.6, 0.5, 0.5, 0.4, 0.3, 0.3)),
]


FINE = [0.1, 0.10000000000000002, 0.1 + 1e-9, 1e-6, 2e-6, 1 / 3, 0.3333333432674408, 1 - 1e-12, 1.0]


def gen_fine(tier):
    """rankings of scores one unit in the last place, or less than single precision, apart."""
    for gs in ("ab", "ba", "aab", "bba", "aabb", "abab")[: 4 if tier == "quick" else 6]:
        for sc in itertools.product(FINE, repeat=2):
            s = (sc + sc)[: len(gs)]
            yield [[g, [x, 0.5]] for g, x in zip(gs, s)]
        if len(gs) == 3:
            for sc in itertools.permutations(FINE, 3):
                yield [[g, [x, 0.5]] for g, x in zip(gs, sc)]


def gen_layout(tier):
    pats = PATTERNS if tier != "quick" else PATTERNS
    bs = [1, 2, 3, 5] if tier == "quick" else [1, 2, 3, 4, 5, 6, 7]
    rs = [1, 2, 3, 5] if tier == "quick" else [1, 2, 3, 4, 5, 6, 8, 13]
    fs = [1, 2, None] if tier == "quick" else [1, 2, 3, 5, None]
    for i, (gs, sc) in enumerate(pats):
        case = [[g, [s, round(1 - s, 3)]] for g, s in zip(gs, sc)]
        for b in [1, 2, 3, 4]:
            yield {"d": case, "l": {"k": "mem", "b": b}}
        for b, r, f in itertools.product(bs, rs, fs):
            if len(gs) > 6 and tier == "quick" and (b > 3 or f == 2):
                continue
            yield {"d": case, "l": {"k": "file", "b": b, "r": r, "f": f}}


def run_layout(case):
    ds = mk(case["d"], ["a", "b"])
    with scratch() as d:
        check(ds, cls.build(ds, case["l"], d + "/x"))


def gen_scale(tier):
    for n in ([7, 40, 150, 900] if tier == "quick" else [7, 40, 150, 900, 1500]):
        for k in (1, 2, 3, 5, 17):
            for b in (1, 10, 64):
                if n == 900 and (k in (2, 5) or b == 1) and tier == "quick":
                    continue
                yield {"n": n, "k": k, "l": {"k": "mem", "b": b}}
                if n < 100:
                    yield {"n": n, "k": k, "l": {"k": "file", "b": b, "r": b}}


def run_scale(case):
    n, k = case["n"], case["k"]
    ds = [{"u": f"u{i}", "g": "abc"[(i * i + i // 3) % 3], "p": ["a", "b", "c"],
           "s": [((i * 7) % k) / k, ((i * 5 + 1) % 11) / 11, ((i * 3) % 4) / 4]} for i in range(n)]
    with scratch() as d:
        check(ds, cls.build(ds, case["l"], d + "/x"))


FAMILIES = [
    Family("two-labels", gen2, run2, "every multiset of 1-4 (5 thorough) datums over 2 labels, scores {0,.3,.6}x{0,.6} (x{0,.3,.6})"),
    Family("one-ranking", gen1, run2, "every ordered sequence of 2-4 (5) datums: ground truth x score in {0,.4,.8,1}"),
    Family("three-labels", gen3, run3, "pairs and triples of datums over 3 labels, scores {0,.5,.9}"),
    Family("fine-scores", gen_fine, run2, "2-3 (4) datums, 9 scores one ulp / 1e-9 / 1e-6 apart"),
    Family("chunking", gen_layout, run_layout, "12 tie patterns x batch 1-5(7) x rows/file 1-5(13) x finalize batch, memory and file"),
    Family("scale", gen_scale, run_scale, "7-900 (1500) datums, 3 labels, tie density k; counts beyond 8 bits"),
]
