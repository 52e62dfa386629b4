"""X03: the result at a threshold does not depend on the other requested thresholds."""
import itertools

from .. import cls, od
from ..core import Family, outcome, require, scratch, state
from ..tasks import TASKS
from ..util import close, diff, expr

LAYS = {"mem": {"k": "mem"}, "mem2": {"k": "mem", "b": 2}, "files": {"k": "file", "b": 1, "r": 1}, "file": {"k": "file", "b": 2, "r": 4}}
_ev, _one = {}, {}
CT = [0.0, 0.3, 0.45, 0.9]
OS = [0.0, 0.45, 0.85]
OI = [0.1, 0.5, 1.0]
DF = {"cls": ["in", "datum_uid", ["u0", "u2", "u3"]], "od": ["in", "datum_uid", ["d0", "d2"]]}


def evaluator(t, name, lay):
    k = (t, name, lay)
    if k not in _ev:
        import os
        from ..core import _root
        T = TASKS[t]
        _ev.clear()
        _one.clear()
        p = os.path.join(_root(), "x03_" + "_".join(k))
        import shutil
        shutil.rmtree(p, ignore_errors=True)
        _ev[k] = T.build(T.data(name), LAYS[lay], p, T.FIELDS)
    return _ev[k]


def need(what, got, want):
    if not close(got, want):
        require(False, what + ": " + "; ".join(diff(got, want)))


def run_cls(case):
    name, lay, ts, hm, flt = case
    ev = evaluator("cls", name, lay)
    dx = expr(DF["cls"]) if flt else None

    def one(t):
        k = (t, hm, flt)
        if k not in _one:
            _one[k] = (cls.obs_pr(ev, [t], hm, dx), cls.obs_cm(ev, [t], hm, dx)[0], cls.obs_cme(ev, [t], hm, dx)[0], cls.obs_ex(ev, [t], hm, dx))
        return _one[k]

    pr = cls.obs_pr(ev, ts, hm, dx)
    want = {}
    for t in ts:
        for m, d in one(t)[0].items():
            for k, v in d.items():
                require(len(v) == 1, "one value per label and threshold", metric=m, key=k)
                want.setdefault(m, {}).setdefault(k, []).extend(v)
    need(f"precision/recall at {ts} vs each threshold alone", pr, want)
    need(f"confusion matrix at {ts} vs each threshold alone", cls.obs_cm(ev, ts, hm, dx), [one(t)[1] for t in ts])
    need(f"matrix with examples at {ts} vs each threshold alone", cls.obs_cme(ev, ts, hm, dx), [one(t)[2] for t in ts])
    need(f"examples at {ts} vs each threshold alone", sorted(cls.obs_ex(ev, ts, hm, dx)), sorted(x for t in ts for x in one(t)[3]))
    state([name, ts, hm, flt])
    outcome([name, hm, flt, cls.obs_cm(ev, ts, hm, dx)])


SINGLE = ("Counts", "Precision", "Recall", "F1")
PER_IOU = ("AP", "mAP", "PrecisionRecallCurve")


def run_od(case):
    name, lay, ious, ss, flt = case
    ev = evaluator("od", name, lay)
    dx = expr(DF["od"]) if flt else None

    def one(i, s):
        k = (i, s, flt)
        if k not in _one:
            _one[k] = (od.obs_pr(ev, [i], [s], dx), od.obs_cm(ev, [i], [s], dx)[0], od.obs_cme(ev, [i], [s], dx)[0], od.obs_ex(ev, [i], [s], dx))
        return _one[k]

    pr = od.obs_pr(ev, ious, ss, dx)
    want = {}
    for i in ious:
        for m in PER_IOU:
            for k, v in one(i, ss[0])[0][m].items():
                want.setdefault(m, {}).setdefault(k, []).extend(v)
        for s in ss:
            for m in SINGLE:
                for k, v in one(i, s)[0][m].items():
                    require(len(v) == 1, "one value per label and threshold pair", metric=m, key=k)
                    want.setdefault(m, {}).setdefault(k, []).extend(v)
    need(f"metrics at {ious} x {ss} vs each pair alone", {m: pr[m] for m in SINGLE + PER_IOU}, want)
    # averages are over exactly the requested lists
    mean = lambda xs: sum(xs) / len(xs)
    for (l, s), v in pr["AR"].items():
        need(f"AR of {l} at {s} over {ious}", v, [mean([one(i, s)[0]["Recall"][(l, i, s)][0] for i in ious])] * ss.count(s))
    for (l,), v in pr["APAveragedOverIOUs"].items():
        need(f"AP of {l} averaged over {ious}", v, [mean([one(i, ss[0])[0]["AP"][(l, i)][0] for i in ious])])
    for (l,), v in pr["ARAveragedOverScores"].items():
        need(f"AR of {l} averaged over {ss}", v, [mean([pr["AR"][(l, s)][0] for s in ss])])
    pairs = [(i, s) for i in ious for s in ss]
    need(f"confusion matrix at {ious} x {ss}", od.obs_cm(ev, ious, ss, dx), [one(*p)[1] for p in pairs])
    need(f"matrix with examples at {ious} x {ss}", od.obs_cme(ev, ious, ss, dx), [one(*p)[2] for p in pairs])
    need(f"examples at {ious} x {ss}", sorted(od.obs_ex(ev, ious, ss, dx)), sorted(x for p in pairs for x in one(*p)[3]))
    state([name, ious, ss, flt])
    outcome([name, flt, od.obs_cm(ev, ious, ss, dx)])


def lists(xs, n):
    for k in range(1, n + 1):
        yield from (list(c) for c in itertools.product(xs, repeat=k))


def gen_cls(tier):
    q = tier == "quick"
    T = TASKS["cls"]
    for name in T.names:
        for lay in LAYS:
            for flt in (False, True):
                for hm in (True, False):
                    for ts in lists(CT, 3 if q or lay != "mem" else 4):
                        yield [name, lay, ts, hm, flt]


def gen_od(tier):
    q = tier == "quick"
    T = TASKS["od"]
    for name in T.names:
        for lay in LAYS:
            for flt in (False, True):
                if q:
                    a = list(lists(OI, 3 if lay == "mem" else 2))
                    b = list(lists(OS, 2))
                else:
                    a, b = list(lists(OI, 3)), list(lists(OS, 3))
                for i, s in itertools.product(a, b):
                    yield [name, lay, i, s, flt]


def many(n, order):
    xs = [round(i / (n - 1), 6) for i in range(n)]
    return {"up": xs, "down": xs[::-1], "zig": xs[::2] + xs[1::2][::-1], "rep": [xs[(i * 7) % n] for i in range(n)] + xs[:3]}[order]


def gen_many_cls(tier):
    for name in TASKS["cls"].names:
        for n in ((12, 33, 101, 260) if tier == "quick" else (12, 33, 101, 260, 700)):
            for k, order in enumerate(("up", "down", "zig", "rep")):
                for hm in (True, False):
                    yield [name, ("mem", "mem2", "file", "files")[k if n < 100 else 0], many(n, order), hm, k % 2 == 0]


def gen_many_od(tier):
    for name in TASKS["od"].names:
        for a, b in ((2, 130), (130, 2), (11, 11), (20, 5), (2, 33), (33, 2)) if tier == "quick" else ((2, 300), (300, 2), (20, 20), (33, 11), (11, 33), (2, 130), (130, 2)):
            for k, order in enumerate(("up", "down", "zig", "rep")):
                yield [name, ("mem", "mem2", "file", "files")[k if a * b < 100 else 0], [x for x in many(a, order) if x > 0], many(b, order), k % 2 == 0]


FAMILIES = [
    Family("many-cls", gen_many_cls, run_cls, "3 datasets x lists of 12-260 (700) thresholds, ascending, descending, shuffled, repeated", case_timeout=300),
    Family("many-od", gen_many_od, run_od, "datasets x 2-130 (300) IoU x 2-130 (300) score thresholds, four orders", case_timeout=300),
    Family("classification", gen_cls, run_cls, "3 datasets x 4 layouts x every list of 1-3 (4) thresholds from 4, all orders and repetitions, x hardmax x datum filter"),
    Family("object-detection", gen_od, run_od, "3 datasets x 4 layouts x every list of 1-3 IoU x 1-2 (3) score thresholds from 3 each, x datum filter"),
]
ASSUMPTIONS = ["metrics defined as averages over the requested lists (AR, mAR, *AveragedOver*) are compared with the average of the single-threshold values"]
