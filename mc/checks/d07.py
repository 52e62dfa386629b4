import itertools
from .. import od
from ..core import Family, outcome, require, scratch, state
from ..util import expr
from . import d05

ASSUMPTIONS = ["limit >= 1 or absent"]


def pages(ev, n, ious, scores, datums, what):
    full = od.obs_ex(ev, ious, scores, datums)
    k = len(ious) * len(scores)
    require(len(full) == n * k, f"{what}: unpaged report covers {len(full)} entries, expected {n * k}")
    require(len({x[0] for x in full}) == n, f"{what}: duplicated datum")
    for off in range(0, n + 3):
        for lim in [None] + list(range(1, n + 3)):
            got = od.obs_ex(ev, ious, scores, datums, limit=lim, offset=off)
            want = full[off * k: (None if lim is None else (off + lim) * k)]
            require(got == want, f"{what}: page limit={lim} offset={off}", got=[g[:3] for g in got], want=[w[:3] for w in want])
    state([[x[0] for x in full], k])
    outcome(full)
    return full


def run(case):
    ds = d05.dataset(case["d"])
    with scratch() as d:
        ev = od.build(ds, case["l"], d + "/x")
        f = case.get("f")
        live = [x for x in ds if (x["g"] or x["p"]) and (f is None or x["u"] in f)]
        fe = None if f is None else expr(["in", "datum_uid", f])
        pages(ev, len(live), case["i"], case["s"], fe, "examples")
        # the unpaged report is the greedy matching of exactly those datums
        od.check_matching(ev, live, case["i"], case["s"], datums=fe, labels=od.labels_of(ds))


def run_scale(case):
    from . import c06

    ds = d05.dataset(case["d"])
    live = [x for x in ds if x["g"] or x["p"]]
    with scratch() as d:
        ev = od.build(ds, case["l"], d + "/x")
        od.check_matching(ev, live, case["i"], case["s"], labels=od.labels_of(ds))
        full = od.obs_ex(ev, case["i"], case["s"])
        k = len(case["i"]) * len(case["s"])
        offs, lims = c06.windows(len(live))
        for off in offs:
            for lim in [None] + lims[case["o"]::8]:
                got = od.obs_ex(ev, case["i"], case["s"], None, limit=lim, offset=off)
                want = full[off * k: (None if lim is None else (off + lim) * k)]
                require(got == want, f"page limit={lim} offset={off}", got=[g[:3] for g in got][:5], want=[w[:3] for w in want][:5])
        state([case["d"], offs])
        outcome(full)


def gen_scale(tier):
    for n in ((40, 300) if tier == "quick" else (40, 130, 300, 700)):
        for l in ({"k": "mem"}, {"k": "file", "b": 16, "r": 40}, {"k": "file", "b": 100, "r": 400}):
            for o in range(8):
                yield {"d": f"big{n}", "l": l, "i": [0.5], "s": [0.3] if o % 2 else [0.5, 0.0], "o": o}


def gen(tier):
    lays = [{"k": "mem"}, {"k": "mem", "b": 2}] + [{"k": "file", "b": b, "r": r} for b, r in
            ([(1, 1), (1, 3), (2, 4), (3, 7)] if tier == "quick" else itertools.product((1, 2, 3, 5), (1, 2, 3, 4, 5, 6, 7, 9)))]
    for n in ("ties", "mixed", "multi", "gtonly", "single") + (("twelve",) if tier != "quick" else ()):
        for l in lays:
            for i, s in (([0.5], [0.0]), ([0.5, 0.1], [0.4]), ([0.1], [0.6, 0.2])):
                if n == "twelve" and len(i) + len(s) > 2:
                    continue
                yield {"d": n, "l": l, "i": i, "s": s}


def gen_filtered(tier):
    lays = [{"k": "mem"}] + [{"k": "file", "b": b, "r": r} for b, r in ([(1, 1), (2, 4)] if tier == "quick" else itertools.product((1, 2, 3), (1, 2, 3, 4, 6)))]
    for n in ("ties", "mixed", "multi"):
        us = [x["u"] for x in d05.dataset(n)]
        for l in lays:
            for m in range(1, 2 ** len(us)):
                f = [u for j, u in enumerate(us) if m >> j & 1]
                if tier == "quick" and l["k"] == "file" and m % 2:
                    continue
                yield {"d": n, "l": l, "i": [0.5], "s": [0.2], "f": f}


FAMILIES = [
    Family("scale", gen_scale, run_scale, "40 and 300 (700) datums, window edges next to powers of two, thirds and the ends, 3 layouts", case_timeout=600),
    Family("pages", gen, run, "every (limit, offset) up to past the end x datasets x layouts x 1-2 thresholds"),
    Family("filtered-pages", gen_filtered, run, "the same under every datum subset"),
]
