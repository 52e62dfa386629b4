import itertools

import pyarrow.compute as pc
from valor_lite.exceptions import EmptyCacheError

from .. import od
from ..core import Family, outcome, require, scratch, state, step
from ..util import close, compositions, diff
from . import d02, d04

ASSUMPTIONS = ["values compare equal across layouts to 1e-9"]
IOUS, SCORES = [0.5, 0.1, 0.8], [0.5, 0.0]


def G(iv, l):
    return (iv, l)


def P(iv, ls, ss):
    return (iv, tuple(ls), tuple(ss))


SETS = {
    "ties": [([G("full", "a"), G("g2", "a")], [P("full", "a", [0.5]), P("g2", "a", [0.5]), P("off2", "a", [0.5])]),
             ([G("full", "a")], [P("full", "b", [0.5]), P("full", "a", [0.5])]),
             ([], [P("full", "a", [0.5])]),
             ([G("full", "b")], [])],
    "mixed": [([G("full", "a"), G("g2", "b")], [P("off2", "a", [0.9]), P("half", "b", [0.4]), P("far", "a", [0.7])]),
              ([], []),
              ([G("half", "b")], [P("full", "b", [0.8]), P("half", "a", [0.8])]),
              ([G("full", "a"), G("half", "a")], [P("full", "a", [0.3]), P("half", "a", [0.6])]),
              ([], [P("far", "c", [0.9]), P("full", "a", [0.0])])],
    "multi": [([G("full", "a"), G("mid", "b")], [P("full", "ab", [0.6, 0.4]), P("mid", "bc", [0.5, 0.5])]),
              ([G("full", "c")], [P("off2", "abc", [0.2, 0.3, 0.5]), P("far", "ab", [0.9, 0.1])]),
              ([], [P("full", "ab", [0.5, 0.5])]), ([G("g2", "d")], [])],
    "single": [([G("full", "a")], [P("full", "a", [0.9])])],
    "gtonly": [([G("full", "a")], []), ([G("full", "b"), G("g2", "a")], []), ([G("full", "a")], [P("half", "a", [0.7])])],
    "twelve": [([G("full", "ab"[i % 2]), G("mid", "a")], [P(["full", "off2", "half", "far"][i % 4], "ab"[(i // 2) % 2], [round((i % 5) / 5 + 0.1, 2)]), P("mid", "a", [0.35])]) for i in range(12)],
    "long": [([G(["full", "g2", "half"][j], "abc"[(i + j) % 3]) for j in range(i % 3)],
              [P(["full", "off2", "mid", "wide"][(i + j) % 4], "abc"[(i * j) % 3], [round(((i * 3 + j) % 7) / 7, 3)]) for j in range((i * 5) % 4)]) for i in range(24)],
}


def big(n):
    IVs = ["full", "off2", "mid", "half", "g2", "far"]
    out = []
    for i in range(n):
        out.append(([G(IVs[(i + j) % 4], f"k{(i * 3 + j) % 20}") for j in range(i % 3)],
                    [P(IVs[(i + j) % 6], [f"k{(i * 3 + j * (i % 2)) % 20}"], [round(((i * 5 + j * 3) % 13) / 13, 3)]) for j in range((i * 5) % 4)]))
    return out


def dataset(name):
    if name.startswith("big"):
        return d04.mk(big(int(name[3:])))
    return d04.mk(SETS[name])


_ref = {}


def ref(name):
    if name not in _ref:
        _ref[name] = od.observe(od.build(dataset(name)), IOUS, SCORES)
    return _ref[name]


def run(case):
    ds = dataset(case["d"])
    want = ref(case["d"])
    with scratch() as d:
        ev = od.build(ds, case["l"], d + "/x", rep=case.get("rep", "bbox"))
        got = od.observe(ev, IOUS, SCORES)
        if not close(got, want):
            require(False, "results depend on storage (this layout vs in-memory default): " + "; ".join(diff(got, want)))
        if all(len(p["l"]) == 1 for x in ds for p in x["p"]) and case["d"] not in ("long", "twelve"):
            od.check_counts(ev, ds, IOUS, SCORES)
            od.check_curves(ev, ds, IOUS, SCORES)
    state([case["d"], case["l"]["k"]])
    outcome(got)


def gen_layouts(tier):
    if tier == "quick":
        bs, rs, fs = [1, 2, 3, 7], [1, 2, 4, 7], [1, None]
    else:
        bs, rs, fs = [1, 2, 3, 4, 5, 6, 7, 11], [1, 2, 3, 4, 5, 7, 9, 20], [1, 2, 3, None]
    for n in SETS:
        for b in range(1, 8):
            yield {"d": n, "l": {"k": "mem", "b": b}}
        for b, r, f in itertools.product(bs, rs, fs):
            if n in ("long", "twelve") and tier == "quick" and (f is None or b == 2 or r == 4):
                continue
            if n == "long" and r < 3 and b < 3 and tier == "quick":
                continue
            yield {"d": n, "l": {"k": "file", "b": b, "r": r, "f": f}}


def gen_splits(tier):
    names = [n for n in SETS if len(SETS[n]) <= 6]
    lays = [{"k": "mem", "b": 1}, {"k": "mem", "b": 3}, {"k": "mem"}, {"k": "file", "b": 2, "r": 3}]
    if tier != "quick":
        lays += [{"k": "file", "b": 1, "r": 1}, {"k": "file", "b": 5, "r": 5}, {"k": "file"}]
    for n in names:
        for sp in compositions(len(SETS[n])):
            for l in lays:
                yield {"d": n, "l": dict(l, split=list(sp))}


def gen_compression(tier):
    for n in (["mixed", "multi"] if tier == "quick" else SETS):
        for c in ("snappy", "gzip", "zstd", "lz4", "brotli"):
            for b, r in ((1, 1), (4, 6), (None, None)):
                yield {"d": n, "l": {"k": "file", "b": b, "r": r, "c": c}}
        for l in ({"k": "mem"}, {"k": "mem", "b": 2}, {"k": "file", "b": 2, "r": 3}):   # with the progress bar
            yield {"d": n, "l": dict(l, pg=1)}


def gen_small(tier):
    """every sequence of 3 (4) datums out of 6 shapes, one row group per file: all file-boundary effects."""
    for c in itertools.product(range(len(SMALL)), repeat=3 if tier == "quick" else 4):
        if not any(SMALL[i][0] or SMALL[i][1] for i in c):
            continue
        for l in ([{"k": "file", "b": 1, "r": 1, "f": 1}] if tier == "quick" else
                  [{"k": "file", "b": 1, "r": 1, "f": 1}, {"k": "file", "b": 1, "r": 2, "f": 2}]):
            yield {"c": list(c), "l": l}


SMALL = [
    ([G("full", "a")], [P("full", "a", [0.5])]),
    ([G("full", "a")], [P("half", "a", [0.5])]),
    ([], [P("full", "a", [0.5])]),
    ([G("full", "a")], []),
    ([G("full", "b")], [P("full", "a", [0.9]), P("full", "b", [0.5])]),
    ([], []),
]


def run_small(case):
    ds = d04.mk([SMALL[i] for i in case["c"]])
    want = od.observe(od.build(ds), IOUS, SCORES)
    with scratch() as d:
        ev = od.build(ds, case["l"], d + "/x")
        got = od.observe(ev, IOUS, SCORES)
        if not close(got, want):
            require(False, "results depend on storage (this layout vs in-memory default): " + "; ".join(diff(got, want)))
        od.check_curves(ev, ds, IOUS, SCORES)
    state(want)
    outcome(got)


def gen_scale(tier):
    for n in ((40, 300) if tier == "quick" else (40, 130, 300, 700)):
        for l in ({"k": "mem", "b": 7}, {"k": "file", "b": 10, "r": 30, "f": 3}, {"k": "file", "b": 200, "r": 260, "f": 7}, {"k": "file", "b": 10 ** 6, "r": 10 ** 6}):
            if n > 100 and l.get("r") == 30:
                continue
            for sp in (None, [1] * n, [n - 1, 1]):
                yield {"d": f"big{n}", "l": dict(l, split=sp) if sp else l}


def subsets(n):
    """every subset of up to 5 datums; each datum, its complement, each prefix and suffix of more."""
    if n <= 5:
        return [[i for i in range(n) if b >> i & 1] for b in range(1, 2 ** n)]
    xs = [[i] for i in range(n)] + [[j for j in range(n) if j != i] for i in range(n)]
    return xs + [list(range(i)) for i in range(2, n - 1)] + [list(range(i, n)) for i in range(2, n - 1)]


def filtered(ev, **kw):
    try:
        ev = ev.filter(**kw)
    except EmptyCacheError:
        return "empty"
    return od.observe(ev, IOUS, SCORES)


def run_subsets(case):
    ds = dataset(case["d"])
    ref_ev = od.build(ds)
    with scratch() as d:
        ev = od.build(ds, case["l"], d + "/x")
        for i, s in enumerate(subsets(len(ds))):
            f = pc.field("datum_uid").isin([ds[j]["u"] for j in s])
            want = od.observe(ref_ev, IOUS, SCORES, datums=f)
            got = od.observe(ev, IOUS, SCORES, datums=f)
            if not close(got, want):
                require(False, f"datums {s}: results depend on storage (this layout vs in-memory default): " + "; ".join(diff(got, want)))
            if len(s) in (1, len(ds) - 1) or case["d"] == "late":
                step(2)
                want = filtered(ref_ev, datums=f)
                got = filtered(ev, datums=f, **({} if case["l"]["k"] == "mem" else {"path": f"{d}/f{i}"}))
                if not close(got, want):
                    require(False, f"filtered to datums {s}: results depend on storage (this layout vs in-memory default): " + "; ".join(diff(got, want)))
            state([case["d"], s, want])
            outcome(got)


def gen_subsets(tier):
    lays = [{"k": "file", "b": 1, "r": 1}, {"k": "mem", "b": 2}, {"k": "file", "b": 2, "r": 3}]
    if tier != "quick":
        lays += [{"k": "file", "b": 3, "r": 5}, {"k": "file", "b": 5, "r": 12}, {"k": "file"}, {"k": "mem", "b": 1}]
    for n in SETS:
        if n == "long" and tier == "quick":
            continue
        for l in lays:
            yield {"d": n, "l": l}


FAMILIES = [
    Family("selections", gen_subsets, run_subsets, "all the datasets x 3 (7) layouts x every subset of the datums as datum filter (more than 5 datums: each alone, all but each, every prefix and suffix), also as filtered evaluators", case_timeout=600),
    Family("scale", gen_scale, run, "40 and 300 (700) datums over 20 labels x 4 layouts x 3 splits into add calls", case_timeout=600),
    Family("layouts", gen_layouts, run, "7 datasets (ties, empty datums, multi-label, 12 and 24 datums) x memory batch 1-7, file batch x rows/file x finalize batch"),
    Family("splits", gen_splits, run, "every split of the dataset into add calls x 4 (7) layouts"),
    Family("compression", gen_compression, run, "5 codecs x 3 layouts; 3 layouts with the progress bar shown"),
    Family("small-sequences", gen_small, run_small, "every sequence of 3 (4) datums from 6 shapes (ties, empties), one datum per file"),
]
