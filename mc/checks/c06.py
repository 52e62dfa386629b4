import itertools
from .. import cls
from ..core import Family, outcome, require, scratch, state
from ..util import expr
from . import c04, c05

ASSUMPTIONS = ["limit >= 1 or absent"]


def pages(ev, n_datums, uid_pred, ts, hm, datums, what):
    full = cls.obs_ex(ev, ts, hm, datums)
    k = len(ts)
    require(len(full) == n_datums * k, f"{what}: unpaged report covers {len(full)} entries, expected {n_datums * k}")
    require(len({x[0] for x in full}) == n_datums, f"{what}: duplicated datum")
    for off in range(0, n_datums + 3):
        for lim in [None] + list(range(1, n_datums + 3)):
            got = cls.obs_ex(ev, ts, hm, datums, limit=lim, offset=off)
            want = full[off * k: (None if lim is None else (off + lim) * k)]
            require(got == want, f"{what}: page limit={lim} offset={off}",
                    got=[g[:2] for g in got], want=[w[:2] for w in want])
    state([[x[0] for x in full], k])
    outcome(full)
    return full


def windows(n):
    """every window edge next to a power of two, a third and the ends."""
    es = sorted({max(0, e + d) for e in (0, 8, 16, 32, 64, 128, 256, n // 3, n) for d in (-1, 0, 1) if e + d <= n + 1})
    return es, sorted({b - a for a in es for b in es if b > a})[::3] + [n, n + 1]


def run_scale(case):
    ds = c04.dataset(case["d"])
    with scratch() as d:
        ev = cls.build(ds, case["l"], d + "/x")
        full = cls.obs_ex(ev, case["ts"], True)
        k = len(case["ts"])
        cls.expect("unpaged examples", sorted(full), sorted(cls.m_ex(cls.rows_of(ds), case["ts"], True)))
        offs, lims = windows(len(ds))
        for off in offs:
            for lim in [None] + lims[case["o"]::8]:
                got = cls.obs_ex(ev, case["ts"], True, None, limit=lim, offset=off)
                want = full[off * k: (None if lim is None else (off + lim) * k)]
                require(got == want, f"page limit={lim} offset={off}", got=[g[:2] for g in got][:5], want=[w[:2] for w in want][:5])
        state([case["d"], offs])
        outcome(full)


def gen_scale(tier):
    for n in ((40, 300) if tier == "quick" else (40, 130, 300, 700)):
        for l in ({"k": "mem"}, {"k": "file", "b": 16, "r": 40}, {"k": "file", "b": 100, "r": 400}):
            for o in range(8):
                yield {"d": f"big{n}", "l": l, "ts": [0.3] if o % 2 else [0.5, 0.0], "o": o}


def run(case):
    ds = c05.dataset(case["d"]) if case["d"] in c05.SETS else c04.dataset(case["d"])
    fields = c05.FIELDS if case["d"] in c05.SETS else None
    with scratch() as d:
        ev = cls.build(ds, case["l"], d + "/x", fields)
        fd = case.get("fd")
        keep = c05.frows(ds, fd)
        ts = case["ts"]
        full = pages(ev, len(keep), None, ts, case["hm"], expr(fd), "examples")
        cls.expect("unpaged examples", sorted(full), sorted(cls.m_ex(keep, ts, case["hm"])))


def gen(tier):
    lays = [{"k": "mem"}, {"k": "mem", "b": 2}] + [{"k": "file", "b": b, "r": r} for b, r in
            ([(1, 1), (1, 3), (2, 4), (3, 7), (100, 100)] if tier == "quick" else itertools.product((1, 2, 3, 5), (1, 2, 3, 4, 5, 6, 7, 9)))]
    for n in ("full", "partial", "late", "wide", "ties") + (("twelve",) if tier != "quick" else ()):
        for l in lays:
            for ts in ([0.0], [0.5, 0.1]):
                for hm in (True, False):
                    if tier == "quick" and hm != (len(ts) == 1):
                        continue
                    yield {"d": n, "l": l, "ts": ts, "hm": hm}


def gen_filtered(tier):
    lays = [{"k": "mem"}] + [{"k": "file", "b": b, "r": r} for b, r in ([(1, 1), (2, 4), (3, 6)] if tier == "quick" else itertools.product((1, 2, 3), (1, 2, 3, 4, 5, 6, 7)))]
    for n in c05.SETS:
        for l in lays:
            for i, f in enumerate(c05.datum_filters(n)):
                if tier == "quick" and l["k"] == "file" and i % 3:
                    continue
                yield {"d": n, "l": l, "ts": [0.4], "hm": True, "fd": f}


FAMILIES = [
    Family("scale", gen_scale, run_scale, "40 and 300 (700) datums, window edges next to powers of two, thirds and the ends, 3 layouts", case_timeout=600),
    Family("pages", gen, run, "every (limit, offset) up to past the end x datasets x layouts x 1-2 thresholds"),
    Family("filtered-pages", gen_filtered, run, "the same under every datum filter of C05"),
]
