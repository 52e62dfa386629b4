import itertools

import pyarrow.compute as pc

from .. import seg
from ..core import Family, outcome, require, scratch, state, step
from ..util import close, compositions, diff
from .s01 import img

ASSUMPTIONS = ["values compare equal across layouts to 1e-9"]


def f(s):
    return [c.strip() for c in s]


def I(g, p, **kw):
    return [[1, len(g)], f(g), f(p)]


SETS = {
    "mixed": [I("ab  ", "aab "), I("    ", "   a"), I("bbaa", "bbbb"), I("a b ", " a b"), I("aaaa", "    ")],
    "late": [I("aa", "a "), I("  ", "  "), I("ab", "bb"), I("zz", "az"), I("qa", "aq")],
    "empty": [I("  ", "  "), I("   ", "  a"), I("    ", "    "), I("b", " ")],
    "wide": [I("abcdef", "fedcba"), I("aabbcc", "abcabc"), I("f", "a")],
    "single": [I("ab", "ba")],
    "twelve": [I("abc "[i % 4] + "ab"[i % 2], " cab"[i % 4] + "ba"[i % 2]) for i in range(12)],
    "long": [I("abcd "[(i * i) % 5] * (1 + i % 3), "dcba "[i % 5] * (1 + i % 3)) for i in range(25)],
}


def dataset(name):
    if name.startswith("big"):
        from . import s04

        return s04.dataset(name)
    return [img(f"u{i}", *x) for i, x in enumerate(SETS[name])]


def run(case):
    ds = dataset(case["d"])
    want = seg.observe(seg.build(ds))
    with scratch() as d:
        ev = seg.build(ds, case["l"], d + "/x")
        got = seg.observe(ev)
        if not close(got, want):
            require(False, "results depend on storage (this layout vs in-memory default): " + "; ".join(diff(got, want)))
        seg.check(ev, ds)
    state([case["d"], want["m"]["ConfusionMatrix"]])
    outcome(got)


def gen_layouts(tier):
    bs, rs = ([1, 2, 3, 5, 9, 20], [1, 2, 3, 5, 7, 12, 30]) if tier == "quick" else (list(range(1, 13)) + [20, 50], list(range(1, 13)) + [20, 50])
    for n in SETS:
        for b in range(1, 12):
            yield {"d": n, "l": {"k": "mem", "b": b}}
        for b, r in itertools.product(bs, rs):
            yield {"d": n, "l": {"k": "file", "b": b, "r": r}}


def gen_splits(tier):
    lays = [{"k": "mem", "b": 1}, {"k": "mem", "b": 3}, {"k": "mem"}, {"k": "file", "b": 2, "r": 3}, {"k": "file", "b": 1, "r": 1}, {"k": "file", "b": 12, "r": 15}, {"k": "file"}]
    for n in [n for n in SETS if len(SETS[n]) <= 6]:
        for sp in compositions(len(SETS[n])):
            for l in lays:
                yield {"d": n, "l": dict(l, split=list(sp))}


def gen_compression(tier):
    for n in SETS:
        for c in ("snappy", "gzip", "zstd", "lz4", "brotli"):
            for b, r in ((1, 1), (4, 6), (None, None)):
                yield {"d": n, "l": {"k": "file", "b": b, "r": r, "c": c}}
        for l in ({"k": "mem"}, {"k": "mem", "b": 2}, {"k": "file", "b": 2, "r": 3}):   # with the progress bar
            yield {"d": n, "l": dict(l, pg=1)}


def gen_small(tier):
    al = [I("a", "a"), I("a", "b"), I(" ", "b"), I("c", " "), I(" ", " "), I("b", "c")]
    for k in ((2, 3) if tier == "quick" else (2, 3, 4)):
        for c in itertools.product(range(len(al)), repeat=k):
            yield {"imgs": [al[i] for i in c], "l": {"k": "file", "b": 1, "r": 1}}


def run_small(case):
    ds = [img(f"u{i}", *x) for i, x in enumerate(case["imgs"])]
    if not seg.labels_of(ds):
        return
    with scratch() as d:
        got, want = seg.check(seg.build(ds, case["l"], d + "/x"), ds)
    state(want)
    outcome(got)


def gen_scale(tier):
    for n in ((40, 300) if tier == "quick" else (40, 130, 300, 700)):
        for l in ({"k": "mem", "b": 7}, {"k": "file", "b": 30, "r": 50}, {"k": "file", "b": 700, "r": 1100}, {"k": "file", "b": 10 ** 6, "r": 10 ** 6}):
            if n > 100 and l.get("r") == 50:
                continue
            for sp in (None, [1] * n, [n - 1, 1], [n // 3, n - n // 3]):
                yield {"d": f"big{n}", "l": dict(l, split=sp) if sp else l}


def subsets(n):
    """every subset of up to 5 datums; each datum, its complement, each prefix and suffix of more."""
    if n <= 5:
        return [[i for i in range(n) if b >> i & 1] for b in range(1, 2 ** n)]
    xs = [[i] for i in range(n)] + [[j for j in range(n) if j != i] for i in range(n)]
    return xs + [list(range(i)) for i in range(2, n - 1)] + [list(range(i, n)) for i in range(2, n - 1)]


def run_subsets(case):
    ds = dataset(case["d"])
    ref_ev = seg.build(ds)
    with scratch() as d:
        ev = seg.build(ds, case["l"], d + "/x")
        for i, s in enumerate(subsets(len(ds))):
            f = pc.field("datum_uid").isin([ds[j]["u"] for j in s])
            want = seg.observe(ref_ev, datums=f)
            got = seg.observe(ev, datums=f)
            if not close(got, want):
                require(False, f"datums {s}: results depend on storage (this layout vs in-memory default): " + "; ".join(diff(got, want)))
            if len(s) in (1, len(ds) - 1) or case["d"] == "late":
                step(2)
                want = seg.observe(ref_ev.filter(datums=f))
                got = seg.observe(ev.filter(datums=f, **({} if case["l"]["k"] == "mem" else {"path": f"{d}/f{i}"})))
                if not close(got, want):
                    require(False, f"filtered to datums {s}: results depend on storage (this layout vs in-memory default): " + "; ".join(diff(got, want)))
            state([case["d"], s, want])
            outcome(got)


def gen_subsets(tier):
    lays = [{"k": "file", "b": 1, "r": 1}, {"k": "mem", "b": 2}, {"k": "file", "b": 2, "r": 3}]
    if tier != "quick":
        lays += [{"k": "file", "b": 3, "r": 5}, {"k": "file", "b": 5, "r": 12}, {"k": "file"}, {"k": "mem", "b": 1}]
    for n in SETS:
        if n == "long" and tier == "quick":
            continue
        for l in lays:
            yield {"d": n, "l": l}


FAMILIES = [
    Family("selections", gen_subsets, run_subsets, "all the datasets x 3 (7) layouts x every subset of the datums as datum filter (more than 5 datums: each alone, all but each, every prefix and suffix), also as filtered evaluators", case_timeout=600),
    Family("scale", gen_scale, run, "40 and 300 (700) images over up to 30 labels x 4 layouts x 4 splits into add_data calls", case_timeout=600),
    Family("layouts", gen_layouts, run, "7 datasets (labels first seen late, empty images, 12 and 25 images) x memory batch 1-11, file batch x rows/file"),
    Family("splits", gen_splits, run, "every split of the dataset into add_data calls x 7 layouts"),
    Family("compression", gen_compression, run, "7 datasets x 5 codecs x 3 layouts; 3 layouts with the progress bar shown"),
    Family("small-sequences", gen_small, run_small, "every sequence of 2-3 (4) one-pixel images from 6, one image per file"),
]
