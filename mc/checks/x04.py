"""X04: evaluator information reports the true sizes of the (filtered) data."""
import itertools
import os
import shutil

from .. import cls, core, od, seg
from ..core import Family, outcome, require, state
from ..tasks import TASKS, do_filter, fields_norm
from ..util import expr
from . import c01, c05, d02, d06, s01, s04

LAYS = {"mem": {"k": "mem"}, "mem1": {"k": "mem", "b": 1}, "mem3": {"k": "mem", "b": 3, "split": [1, 1]},
        "files": {"k": "file", "b": 1, "r": 1}, "file": {"k": "file", "b": 2, "r": 4}, "big": {"k": "file"}}
_ev = {}
# datums without annotations: one side only, both, none
EXTRA = {
    "od-empty": [(0, 0), (1, 0), (0, 2), (2, 1), (0, 0)],
    "od-many": [(1, 1)] * 12,
    "od-lone": [(3, 0), (0, 3)],
}
BOX = [[0, 4, 0, 4], [6, 10, 0, 4], [0, 4, 6, 10]]


def data(t, name):
    if name in EXTRA:
        return [{"u": f"d{i}", "m": {"n": i + 1, "grp": "xy"[i % 2]},
                 "g": [{"u": f"d{i}g{j}", "b": BOX[j], "l": "ab"[j % 2], "m": {"gm": j}} for j in range(g)],
                 "p": [{"u": f"d{i}p{j}", "b": BOX[(j + 1) % 3], "l": ["abc"[j]], "s": [0.3 + j * 0.2], "m": {"pm": "uv"[j % 2]}} for j in range(p)]}
                for i, (g, p) in enumerate(EXTRA[name])]
    return TASKS[t].data(name)


def model(t, ds, fd, fg, fp):
    """sizes by direct counting over the data given."""
    if t == "cls":
        n = sum(c05.holds(fd, c05.rec(d)) for d in ds)
        return dict(datums=n, labels=len(cls.labels_of(ds)))
    if t == "od":
        sel = [d for d in ds if (d["g"] or d["p"]) and d06.holds(fd, dict(d["m"], datum_uid=d["u"]))]
        g = sum(len(d["g"]) for d in d06.fds(sel, None, fg, None))
        p = sum(len(d["p"]) for d in d06.fds(sel, None, None, fp))
        return dict(datums=len(sel), labels=len(od.labels_of(ds)), gts=g, pds=p)
    sel = s04.fds(ds, fd)
    n = sum(d["sh"][0] * d["sh"][1] for d in sel)
    g = sum(len(x["px"]) for d in s04.fds(sel, None, fg, None) for x in d["g"])
    p = sum(len(x["px"]) for d in s04.fds(sel, None, None, fp) for x in d["p"])
    return dict(datums=len(sel), labels=len(seg.labels_of(ds)), pixels=n, gts=g, pds=p)


def evaluator(t, name, lay):
    k = (t, name, lay)
    if k not in _ev:
        _ev.clear()
        T = TASKS[t]
        root = os.path.join(core._root(), "x04")
        shutil.rmtree(root, ignore_errors=True)
        os.mkdir(root)
        _ev[k] = (T.build(data(t, name), LAYS[lay], root + "/s", T.FIELDS), root)
    return _ev[k]


def kw_of(f):
    return {n: expr(f[k]) for k, n in (("fd", "datums"), ("fg", "groundtruths"), ("fp", "predictions")) if f.get(k) is not None}


def run(case):
    t, name, lay, f = case
    T = TASKS[t]
    ev, root = evaluator(t, name, lay)
    ds = data(t, name)
    want = model(t, ds, f.get("fd"), f.get("fg"), f.get("fp"))
    got = T.info(ev, **kw_of(f))
    state([t, name, want])
    outcome([t, got])
    require(got == want, "get_info differs from the data added", got=got, want=want, filters=f)
    info = ev.get_info(**kw_of(f))
    require(fields_norm(info.metadata_fields) == fields_norm(T.FIELDS), "metadata fields", got=info.metadata_fields)


def run_filtered(case):
    """the information of a filtered evaluator counts the data it kept."""
    t, name, lay, f, f2 = case
    T = TASKS[t]
    ev, root = evaluator(t, name, lay)
    ds = data(t, name)
    kept = T.select(ds, f)
    if not kept:
        return
    p = root + "/f"
    shutil.rmtree(p, ignore_errors=True)
    fe = do_filter(ev, f, p if LAYS[lay]["k"] == "file" else None)
    full = model(t, ds, None, None, None)
    if t == "cls":
        us = {r[0] for r in kept}
        want = dict(datums=sum(c05.holds(f2.get("fd"), c05.rec(d)) for d in ds if d["u"] in us), labels=full["labels"])
        f2 = {k: v for k, v in f2.items() if k == "fd"}
    else:
        want = dict(model(t, kept, f2.get("fd"), f2.get("fg"), f2.get("fp")), labels=full["labels"])
    got = T.info(fe, **kw_of(f2))
    state([t, name, want])
    outcome([t, got])
    require(got == want, "information of a filtered evaluator differs from the data kept", got=got, want=want, f=f, f2=f2)
    require(T.info(ev) == full, "information of the original changed by filtering")


NAMES = {"cls": list(c05.SETS), "od": list(d06.SETS) + list(EXTRA), "seg": list(s04.SETS)}


def filters(t, name):
    if t == "cls":
        return [None] + list(c05.datum_filters(name)), [None], [None]
    if name in EXTRA:
        ds = data(t, name)
        D = [["in", "datum_uid", [d["u"] for d in ds[i:j]]] for i in range(len(ds)) for j in range(i, len(ds) + 1) if j - i <= 3]
        D += [["eq", "grp", "x"], ["ge", "n", 3]]
        G = [["eq", "gt_label", "a"], ["eq", "gt_label", "b"], ["ge", "gm", 1], ["in", "gt_uid", ["d1g0", "d3g1"]]]
        P = [["eq", "pd_label", x] for x in "abc"] + [["eq", "pm", "v"], ["ge", "pd_score", 0.5], ["in", "pd_uid", ["d2p0"]]]
        return [None] + D, [None] + G, [None] + P
    m = {"od": d06, "seg": s04}[t]
    return [None] + list(m.datum_filters(name)), [None] + list(m.gt_filters(name)), [None] + list(m.pd_filters(name))


def mk(fd, fg, fp):
    return {k: v for k, v in (("fd", fd), ("fg", fg), ("fp", fp)) if v is not None}


def thin(xs, n):
    return xs if n == 1 else [xs[0]] + xs[1::n]


def gen(tier):
    q = tier == "quick"
    for t in TASKS:
        for name in NAMES[t]:
            D, G, P = filters(t, name)
            for lay in LAYS:
                seen = set()
                for fd in D:
                    for fg, fp in itertools.chain(itertools.product(G, [None]), itertools.product([None], P),
                                                  itertools.product(thin(G, 4 if q else 2), thin(P, 4 if q else 2))):
                        if fd is not None and q and fg is not None and (G.index(fg) + D.index(fd)) % 4:
                            continue
                        if fd is not None and q and fp is not None and (P.index(fp) + D.index(fd)) % 4:
                            continue
                        f = mk(fd, fg, fp)
                        if repr(f) not in seen:
                            seen.add(repr(f))
                            yield [t, name, lay, f]


def gen_filtered(tier):
    q = tier == "quick"
    for t in TASKS:
        for name in NAMES[t]:
            D, G, P = filters(t, name)
            if t == "cls":
                labels = sorted(cls.labels_of(c05.dataset(name)))
                G = [None] + [["in", "gt_label", [l]] for l in labels]
                P = [None] + [["in", "pd_label", [l]] for l in labels]
            first = [mk(x, None, None) for x in thin(D, 3)] + [mk(None, x, None) for x in thin(G, 3)] + [mk(None, None, x) for x in thin(P, 4)]
            first = [x for x in first if x]
            second = [{}] + [mk(x, None, None) for x in thin(D, 5)[1:]] + [mk(None, x, None) for x in thin(G, 5)[1:]] + [mk(None, None, x) for x in thin(P, 6)[1:]]
            if q:
                first, second = first[::2], second[::2]
            for lay in (["mem", "files"] if q else LAYS):
                for a, b in itertools.product(first if lay == "mem" or not q else first[::3], second):
                    yield [t, name, lay, a, b]


def gen_scale(tier):
    for lay in ("mem", "mem3", "big"):
        for n in (130, 260, 300):
            yield ["cls", lay, {"n": n, "k": 3, "labels": n, "w": 2}]
            yield ["cls", lay, {"n": n, "k": 3, "labels": 2, "w": 1}]
            for k in ("annotations", "datums", "labels"):
                yield ["od", lay, {"n": n, "kind": k}]
            for k in ("labels", "images", "masks"):
                yield ["seg", lay, {"n": n, "kind": k}]
    yield ["seg", "mem", {"px": [300, 400]}]
    yield ["seg", "mem", {"px": [2100, 2100]}]


def run_scale(case):
    t, lay, c = case
    T = TASKS[t]
    if "px" in c:
        n = c["px"][0] * c["px"][1]
        ds = [{"u": "u", "sh": c["px"], "g": [{"l": "a", "px": range(n // 2)}, {"l": "b", "px": range(n // 2, n)}], "p": [{"l": "b", "px": range(n - 5)}]}]
    else:
        ds = {"cls": c01.scale_ds, "od": lambda x: d02.mk(d02.scale(x)), "seg": s01.scale_ds}[t](c)
    meta = lambda x: dict(x, m=x.get("m") or {})
    ds = [meta(dict(d, g=[meta(x) for x in d["g"]], p=[meta(x) for x in d["p"]]) if t != "cls" else d) for d in ds]
    want = model(t, ds, None, None, None)
    with core.scratch() as d:
        got = T.info(T.build(ds, LAYS[lay], d + "/x"))
    state([t, want])
    outcome([t, got])
    require(got == want, "information differs from the data added", got=got, want=want)


FAMILIES = [
    Family("information", gen, run, "8 datasets (datums without annotations included) x 6 layouts x datum, ground truth and prediction filters: "
           "each alone, with every datum filter, and together (every 4th/2nd in combinations)"),
    Family("filtered", gen_filtered, run_filtered, "information, with and without further filters, of evaluators filtered by each kind of filter"),
    Family("scale", gen_scale, run_scale, "130-300 datums, annotations, labels, masks; images of 120,000 and 4.4 million pixels"),
]
ASSUMPTIONS = ["an object detection prediction counts under a prediction filter when at least one of its labels matches"]
