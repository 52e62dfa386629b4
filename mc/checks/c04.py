import itertools

import pyarrow.compute as pc

from .. import cls
from ..core import Family, outcome, require, scratch, state, step
from ..util import close, compositions, diff

ASSUMPTIONS = ["scores compare equal across layouts to 1e-9"]


def D(g, p, s):
    return {"g": g, "p": list(p), "s": list(s)}


SETS = {
    "full": [D("a", "ab", (0.9, 0.1)), D("b", "ab", (0.9, 0.1)), D("a", "ab", (0.4, 0.6)), D("b", "ab", (0.4, 0.6)), D("a", "ab", (0.5, 0.5))],
    "partial": [D("a", "bc", (0.5, 0.5)), D("b", "b", (0.5,)), D("c", "abc", (0.0, 0.0, 1.0)), D("a", "a", (0.0,)), D("b", "cab", (0.3, 0.3, 0.3))],
    "late": [D("a", "a", (0.8,)), D("a", "ab", (0.8, 0.1)), D("z", "az", (0.6, 0.4)), D("q", "aq", (0.2, 0.8))],
    "single": [D("a", "abc", (0.2, 0.2, 0.6))],
    "wide": [D("a", "abcdef", (0.1, 0.1, 0.1, 0.1, 0.1, 0.5)), D("f", "fedcba", (0.5, 0.1, 0.1, 0.1, 0.1, 0.1)), D("c", "c", (0.5,))],
    "ties": [D("a" if i % 2 else "b", "ab", (0.5, 0.5)) for i in range(6)],
    "twelve": [D("abc"[i % 3], "abc", (round((i % 5) / 5, 2), round((i % 4) / 4, 2), 0.35)) for i in range(12)],
    "long": [D("abcd"[(i * i) % 4], "abcd"[: 1 + i % 4], [round(((i + j) % 7) / 7, 3) for j in range(1 + i % 4)]) for i in range(25)],
}
TS = [0.5, 0.0, 0.3]


def big(n):
    L = [f"k{i}" for i in range(30)]
    out = []
    for i in range(n):
        k = 1 + i % 6
        ls = [L[(i * 3 + j * (1 + i % 4)) % 30] for j in range(k)]
        ls = list(dict.fromkeys(ls))
        out.append(D(L[(i * 7) % 30], ls, [round(((i * 5 + j * 3) % 11) / 11, 3) for j in range(len(ls))]))
    return out


def dataset(name):
    if name.startswith("big"):
        return [dict(d, u=f"u{i}") for i, d in enumerate(big(int(name[3:])))]
    return [dict(d, u=f"u{i}") for i, d in enumerate(SETS[name])]


_ref = {}


def ref(name):
    if name not in _ref:
        _ref[name] = cls.observe(cls.build(dataset(name)), TS)
    return _ref[name]


def run(case):
    ds = dataset(case["d"])
    want = ref(case["d"])
    with scratch() as d:
        got = cls.observe(cls.build(ds, case["l"], d + "/x"), TS)
    if not close(got, want):
        require(False, "results depend on storage (this layout vs in-memory default): " + "; ".join(diff(got, want)))
    rows, labels = cls.rows_of(ds), cls.labels_of(ds)
    for hm in (True, False):
        cls.expect("confusion matrix", got[f"cm{hm}"], [cls.m_cm(rows, labels, t, hm) for t in TS])
    state([case["d"], case["l"]["k"], rows])
    outcome(got)


def gen_layouts(tier):
    names = list(SETS)
    if tier == "quick":
        bs, rs, fs = [1, 2, 3, 7], [1, 2, 4, 7], [1, None]
    else:
        bs, rs, fs = [1, 2, 3, 4, 5, 6, 7, 11], [1, 2, 3, 4, 5, 7, 9, 20], [1, 2, 3, None]
    for n in names:
        for b in range(1, 8):
            yield {"d": n, "l": {"k": "mem", "b": b}}
        for b, r, f in itertools.product(bs, rs, fs):
            if n in ("long", "twelve") and tier == "quick" and (f is None or b == 2 or r == 4):
                continue
            if n == "long" and r < 3 and b < 3 and tier == "quick":
                continue
            yield {"d": n, "l": {"k": "file", "b": b, "r": r, "f": f}}


def gen_splits(tier):
    names = ["full", "partial", "late", "wide", "single"] if tier == "quick" else [n for n in SETS if len(SETS[n]) <= 6]
    lays = [{"k": "mem", "b": 1}, {"k": "mem", "b": 3}, {"k": "mem"}, {"k": "file", "b": 2, "r": 3}]
    if tier != "quick":
        lays += [{"k": "file", "b": 1, "r": 1}, {"k": "file", "b": 5, "r": 5}, {"k": "file"}]
    for n in names:
        for sp in compositions(len(SETS[n])):
            for l in lays:
                yield {"d": n, "l": dict(l, split=list(sp))}


def gen_compression(tier):
    for n in (["full", "partial"] if tier == "quick" else SETS):
        for c in ("snappy", "gzip", "zstd", "lz4", "brotli"):
            for b, r in ((1, 1), (4, 6), (None, None)):
                yield {"d": n, "l": {"k": "file", "b": b, "r": r, "c": c}}
        for l in ({"k": "mem"}, {"k": "mem", "b": 2}, {"k": "file", "b": 2, "r": 3}):   # with the progress bar
            yield {"d": n, "l": dict(l, pg=1)}


def gen_scale(tier):
    for n in ((40, 300) if tier == "quick" else (40, 130, 300, 700)):
        for l in ({"k": "mem", "b": 7}, {"k": "file", "b": 10, "r": 30, "f": 3}, {"k": "file", "b": 256, "r": 300, "f": 7}, {"k": "file", "b": 10 ** 6, "r": 10 ** 6}):
            if n > 100 and l.get("r") == 30:
                continue
            for sp in (None, [1] * n, [n - 1, 1]):
                yield {"d": f"big{n}", "l": dict(l, split=sp) if sp else l}


def subsets(n):
    """every subset of up to 5 datums; each datum, its complement, each prefix and suffix of more."""
    if n <= 5:
        return [[i for i in range(n) if b >> i & 1] for b in range(1, 2 ** n)]
    xs = [[i] for i in range(n)] + [[j for j in range(n) if j != i] for i in range(n)]
    return xs + [list(range(i)) for i in range(2, n - 1)] + [list(range(i, n)) for i in range(2, n - 1)]


def run_subsets(case):
    ds = dataset(case["d"])
    ref_ev = cls.build(ds)
    with scratch() as d:
        ev = cls.build(ds, case["l"], d + "/x")
        for i, s in enumerate(subsets(len(ds))):
            f = pc.field("datum_uid").isin([ds[j]["u"] for j in s])
            want = cls.observe(ref_ev, TS, datums=f)
            got = cls.observe(ev, TS, datums=f)
            if not close(got, want):
                require(False, f"datums {s}: results depend on storage (this layout vs in-memory default): " + "; ".join(diff(got, want)))
            if len(s) in (1, len(ds) - 1) or case["d"] == "late":
                step(2)
                want = cls.observe(ref_ev.filter(datums=f), TS)
                got = cls.observe(ev.filter(datums=f, **({} if case["l"]["k"] == "mem" else {"path": f"{d}/f{i}"})), TS)
                if not close(got, want):
                    require(False, f"filtered to datums {s}: results depend on storage (this layout vs in-memory default): " + "; ".join(diff(got, want)))
            state([case["d"], s, want])
            outcome(got)


def gen_subsets(tier):
    lays = [{"k": "file", "b": 1, "r": 1}, {"k": "mem", "b": 2}, {"k": "file", "b": 2, "r": 3}]
    if tier != "quick":
        lays += [{"k": "file", "b": 3, "r": 5}, {"k": "file", "b": 5, "r": 12}, {"k": "file"}, {"k": "mem", "b": 1}]
    for n in SETS:
        if n == "long" and tier == "quick":
            continue
        for l in lays:
            yield {"d": n, "l": l}


FAMILIES = [
    Family("selections", gen_subsets, run_subsets, "all the datasets x 3 (7) layouts x every subset of the datums as datum filter (more than 5 datums: each alone, all but each, every prefix and suffix), also as filtered evaluators", case_timeout=600),
    Family("scale", gen_scale, run, "40 and 300 (700) datums over 30 labels x 4 layouts x 3 splits into add_data calls", case_timeout=600),
    Family("layouts", gen_layouts, run, "8 datasets (ties, partial, late labels, 12 and 25 datums) x memory batch 1-7, file batch x rows/file x finalize batch"),
    Family("splits", gen_splits, run, "every split of the dataset into add_data calls x 4 (7) layouts"),
    Family("compression", gen_compression, run, "5 codecs x 3 layouts; 3 layouts with the progress bar shown"),
]
