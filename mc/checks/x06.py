"""X06: malformed annotations, datums, metadata fields and threshold lists are refused; well-formed ones are kept as given."""
import copy
import itertools

import numpy as np
import shapely

from .. import cls, od, seg
from ..core import Family, outcome, require, scratch, state, step
from ..tasks import TASKS
from ..util import close, diff
from valor_lite import classification as C
from valor_lite import object_detection as O
from valor_lite import semantic_segmentation as S

ASSUMPTIONS = ["any ValueError, TypeError or AttributeError counts as refusal; ground truths that carry scores are left open"]
REFUSALS = (ValueError, TypeError, AttributeError)


def attempt(fn):
    """-> (refused, value)"""
    step()
    try:
        return False, fn()
    except REFUSALS:
        return True, None


def expect(fn, ok, **info):
    refused, v = attempt(fn)
    require(refused != ok, "well-formed input refused" if ok else "malformed input accepted", **info)
    return v


# ------------------------------------------------------------------ classification
META = {"none": None, "empty": {}, "some": {"k": 1}, "falsy": {"k": None}}
SCORES = {"rising": lambda i: 0.1 * (i + 1), "zero": lambda i: 0.0, "one": lambda i: 1.0, "int": lambda i: i % 2}
GT = {"str": "a", "empty": "", "none": None, "list": ["a"], "int": 3, "bytes": b"a", "tuple": ("a",)}


def gen_cls(tier):
    n = range(5 if tier == "quick" else 8)
    for g in GT:
        for p, s in itertools.product(n, n):
            for v in SCORES:
                for m in META:
                    yield [g, p, s, v, m]


def run_cls(case):
    g, p, s, v, meta = case
    meta = META[meta]
    preds, scores = [f"l{i}" for i in range(p)], [SCORES[v](i) for i in range(s)]
    ok = isinstance(GT[g], str) and p == s
    c = expect(lambda: C.Classification(uid="u", groundtruth=GT[g], predictions=list(preds), scores=list(scores), metadata=meta), ok, gt=g, p=p, s=s)
    if c is not None:
        require((c.uid, c.groundtruth, c.predictions, c.scores, c.metadata) == ("u", GT[g], preds, scores, meta), "fields changed", case=case)
        good = C.Classification(uid="v", groundtruth="a", predictions=["a"], scores=[0.5])
        for batch in ([c], [good, c], [c, good]):
            ld = C.Loader.in_memory()
            expect(lambda: ld.add_data(batch), p > 0, p=p)
    state(["cls", ok, p > 0])
    outcome(case)


# ------------------------------------------------------------------ object detection
SHAPES = {
    "box": lambda: shapely.box(0, 0, 2, 2), "empty": lambda: shapely.Polygon(), "point": lambda: shapely.Point(0, 0),
    "line": lambda: shapely.LineString([(0, 0), (1, 1)]), "multi": lambda: shapely.MultiPolygon([shapely.box(0, 0, 1, 1)]),
    "list": lambda: [(0, 0), (1, 0), (1, 1)], "none": lambda: None, "triangle": lambda: shapely.Polygon([(0, 0), (1, 0), (0, 1)]),
    "collection": lambda: shapely.GeometryCollection(), "holed": lambda: shapely.box(0, 0, 4, 4).difference(shapely.box(1, 1, 2, 2)),
}
DTYPES = ["bool", "uint8", "int8", "int64", "float32", "float64", "object"]


def annotation(kind, n, m, meta=None, v="rising"):
    labels, scores = [f"l{i}" for i in range(n)], [SCORES[v](i) for i in range(m)]
    kw = dict(uid="x", labels=labels) if m == 0 else dict(uid="x", labels=labels, scores=scores)
    if meta != "unset":
        kw["metadata"] = meta
    if kind == "box":
        return O.BoundingBox(xmin=0, xmax=1, ymin=0, ymax=1, **kw)
    if kind == "poly":
        return O.Polygon(shape=shapely.box(0, 0, 1, 1), **kw)
    return O.Bitmask(mask=np.array([[True, False]]), **kw)


def gen_pairing(tier):
    n = range(5 if tier == "quick" else 8)
    for k in ("box", "poly", "mask"):
        for a, b in itertools.product(n, n):
            for m in META:
                for v in SCORES:
                    yield [k, a, b, m, v]


def run_pairing(case):
    k, n, m, meta, v = case
    meta = META[meta]
    ok = n == 1 if m == 0 else n == m
    a = expect(lambda: annotation(k, n, m, meta, v), ok, kind=k, labels=n, scores=m)
    if a is not None:
        require(a.labels == [f"l{i}" for i in range(n)] and a.scores == [SCORES[v](i) for i in range(m)] and a.uid == "x" and a.metadata == meta, "fields changed", case=case)
        good = annotation(k, 2, 2)
        for pos in range(3):
            preds = [good, good]
            preds.insert(pos, a)
            for dm in META.values():
                v = expect(lambda: O.Detection(uid="d", groundtruths=[], predictions=preds, metadata=dm), m > 0, kind=k, pos=pos, meta=dm)
                require(v is None or (v.metadata == dm and v.predictions == preds and v.groundtruths == []), "fields changed", case=case)
        if m == 0:
            v = expect(lambda: O.Detection(uid="d", groundtruths=[a, a], predictions=[good]), True)
            require(v.groundtruths == [a, a] and v.predictions == [good], "fields changed", case=case)
    state(["od", k, ok, m == 0])
    outcome(case)


def gen_geometry(tier):
    for s in SHAPES:
        for n, m in ((1, 0), (1, 1), (2, 2)):
            yield ["poly", s, n, m]
    sizes = [(1, 1), (1, 3), (3, 1), (2, 2), (0, 0), (40, 30)]
    for dt in DTYPES:
        for sh in sizes:
            px = [] if 0 in sh else [None] + ([0, sh[0] * sh[1] - 1] if sh[0] * sh[1] > 9 else list(range(sh[0] * sh[1])))
            for p in px or [None]:
                yield ["mask", dt, list(sh), p]
    for v in ("list", "none"):
        yield ["mask", v, [2, 2], 0]


def run_geometry(case):
    if case[0] == "poly":
        _, s, n, m = case
        ok = s in ("box", "triangle", "holed")
        kw = dict(labels=["a", "b"][:n])
        if m:
            kw["scores"] = [0.5, 0.25][:m]
        a = expect(lambda: O.Polygon(uid="x", shape=SHAPES[s](), **kw), ok, shape=s)
        if a is not None:
            require(a.shape.equals(SHAPES[s]()), "shape changed", case=case)
        state(["poly", s])
    else:
        _, dt, sh, px = case
        if dt == "list":
            v = [[True, False], [False, False]]
        elif dt == "none":
            v = None
        else:
            v = np.zeros(sh, dtype=dt)
            if px is not None:
                v.reshape(-1)[px] = True
        ok = dt == "bool" and px is not None
        for m in (0, 1):
            a = expect(lambda: O.Bitmask(uid="x", mask=v, labels=["a"], **({"scores": [0.5]} if m else {})), ok, dtype=dt, shape=sh, pixel=px)
            if a is not None:
                require(np.array_equal(a.mask, v), "mask changed", case=case)
        if dt not in ("list", "none") and len(sh) == 2:
            b = expect(lambda: S.Bitmask(mask=v, label="a"), dt == "bool", dtype=dt, shape=sh, pixel=px)
            if b is not None:
                require(np.array_equal(b.mask, v), "mask changed", case=case)
        state(["mask", dt, px is None])
    outcome(case)


# ------------------------------------------------------------------ segmentation
def gen_seg(tier):
    dims = (-1, 0, 1, 2, 3)
    for k in (0, 1, 2, 3):
        for sh in itertools.product(dims, repeat=k):
            if k == 3 and tier == "quick" and sh[0] != 1:
                continue
            yield ["shape", list(sh), None, None, None]
    base = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (1, 4), (4, 1), (6, 1)]
    for sh, msh in itertools.product(base, base + [(2,), (4,), (2, 2, 1), (1, 2, 2)]):
        for side in ("g", "p"):
            for n in (1, 2, 3):
                for pos in range(n):
                    yield ["mask", list(sh), list(msh), side, [n, pos]]
    for side in ("g", "p"):
        for n in (1, 2, 3):
            for pos in range(n):
                for what in ("array", "none", "odmask"):
                    yield [what, [1, 2], None, side, [n, pos]]


def run_seg(case):
    what, sh, msh, side, where = case
    sh = tuple(sh)
    if what == "shape":
        ok = len(sh) == 2 and min(sh) > 0
        v = expect(lambda: S.Segmentation(uid="u", groundtruths=[], predictions=[], shape=sh), ok, shape=sh)
        if v is not None:
            require(v.size == sh[0] * sh[1] and v.shape == sh, "size of the image is wrong", shape=sh, size=v.size)
        state(["shape", ok])
        outcome(case)
        return
    n, pos = where
    one = lambda s, l: S.Bitmask(mask=np.ones(s, dtype=bool) if l == 0 else np.zeros(s, dtype=bool), label=f"l{l}")
    masks = [one(sh, i) for i in range(n)]
    if what == "mask":
        masks[pos] = one(tuple(msh), pos)
        ok = tuple(msh) == sh
    else:
        masks[pos] = {"array": np.ones(sh, dtype=bool), "none": None,
                      "odmask": O.Bitmask(uid="x", mask=np.ones(sh, dtype=bool), labels=["a"])}[what]
        ok = False
    other = [one(sh, 0)]
    expect(lambda: S.Segmentation(uid="u", groundtruths=masks if side == "g" else other, predictions=masks if side == "p" else other, shape=sh),
           ok, case=case)
    state(["masks", what, ok])
    outcome(case)


# ------------------------------------------------------------------ loaders and queries
RESERVED = {
    "cls": ["datum_uid", "datum_id", "gt_label", "gt_label_id", "pd_label", "pd_label_id", "pd_score", "pd_winner", "match"],
    "od": ["datum_uid", "datum_id", "gt_uid", "gt_id", "gt_label", "gt_label_id", "pd_uid", "pd_id", "pd_label", "pd_label_id", "pd_score", "iou", "iou_prev"],
    "seg": ["datum_uid", "datum_id", "gt_label", "gt_label_id", "pd_label", "pd_label_id", "count"],
}


def gen_fields(tier):
    for t, names in RESERVED.items():
        for name in names + ["mine", "Datum_uid", "uid", ""]:
            for typ in ("int64", "string"):
                for around in (0, 1, 2, 3):
                    for how in ("mem", "file"):
                        yield [t, name, typ, around, how]


def run_fields(case):
    import os

    t, name, typ, around, how = case
    T = TASKS[t]
    fields = ([("first", "int64")] if around & 1 else []) + [(name, typ)] + ([("last", "string")] if around & 2 else [])
    ok = name not in RESERVED[t]
    with scratch() as d:
        if how == "mem":
            expect(lambda: T.Loader.in_memory(metadata_fields=fields), ok, task=t, fields=fields)
        else:
            expect(lambda: T.Loader.persistent(d + "/x", metadata_fields=fields), ok, task=t, fields=fields)
    state([t, ok, how])
    outcome(case)


def gen_thresholds(tier):
    for t in ("cls", "od"):
        for lay in ({"k": "mem"}, {"k": "file", "b": 1, "r": 2}):
            for m in ("compute_precision_recall", "compute_confusion_matrix", "compute_examples", "compute_confusion_matrix_with_examples"):
                for a in ([], [0.5], [0.1, 0.5]):
                    for b in ([], [0.5], [0.1, 0.5]):
                        yield [t, lay, m, a, b]


def run_thresholds(case):
    t, lay, m, ious, scores = case
    T = TASKS[t]
    with scratch() as d:
        ev = T.build(T.data(T.names[0]), lay, d + "/s", T.FIELDS)
        if t == "cls":
            for hm in (True, False):
                expect(lambda: getattr(ev, m)(score_thresholds=list(scores), hardmax=hm), len(scores) > 0, method=m, scores=scores)
        else:
            expect(lambda: getattr(ev, m)(iou_thresholds=list(ious), score_thresholds=list(scores)), len(scores) > 0 and len(ious) > 0,
                   method=m, ious=ious, scores=scores)
    state([t, m, len(ious) > 0, len(scores) > 0])
    outcome(case)


# ------------------------------------------------------------------ the caller's objects
def gen_objects(tier):
    for t, T in TASKS.items():
        for name in T.names:
            for lay in ({"k": "mem"}, {"k": "mem", "b": 2}, {"k": "file", "b": 2, "r": 3}, {"k": "file", "b": 1, "r": 1}):
                for split in (1, 2, 99):
                    for rep in ("bbox", "poly", "mask") if t == "od" else ("",):
                        for back in (0, 1):
                            yield [t, name, lay, split, rep, back]


def scribble(x):
    """overwrites everything mutable inside a datum."""
    if isinstance(x, dict):
        for k in x:
            x[k] = None
    elif isinstance(x, list):
        for y in x:
            scribble(y)
        x.clear()
    elif isinstance(x, np.ndarray):
        x[...] = ~x
    elif hasattr(x, "__dict__") and not isinstance(x, type):
        for k, v in list(vars(x).items()):
            scribble(v)
            if isinstance(v, (str, float, int)):
                setattr(x, k, type(v)())


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and bool((a == b).all())
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if hasattr(a, "__dict__"):
        return same(vars(a), vars(b))
    return a == b


def run_objects(case):
    t, name, lay, split, rep, back = case
    T = TASKS[t]
    ds = T.data(name)
    if back:
        ds = [{k: v[::-1] if isinstance(v, (list, tuple)) and k in "gps" else v for k, v in x.items()} for x in ds]
        # null metadata on every other datum and annotation
        null = lambda x, i: dict(x, m=dict.fromkeys(x["m"])) if i % 2 and x.get("m") else x
        ds = [null(dict(x, **{s: [null(y, i) for i, y in enumerate(x[s])] for s in "gp" if t != "cls"}), i) for i, x in enumerate(ds)]
    with scratch() as d:
        want = T.observe(T.build(copy.deepcopy(ds), lay, d + "/r", T.FIELDS))
        fields = list(T.FIELDS)
        ld = T.loader(lay, d + "/x", fields)
        require(fields == list(T.FIELDS), "creating a loader changed the list of metadata fields")
        shape = od.grid_of(ds) if rep == "mask" else None
        make = {"cls": cls.datum, "od": lambda x: od.detection(x, rep, shape), "seg": seg.image}[t]
        add = getattr(ld, od.ADD[rep] if t == "od" else "add_data")
        for i in range(0, len(ds), split):
            part = [make(x) for x in copy.deepcopy(ds[i: i + split])]
            kept = copy.deepcopy(part)
            step()
            add(part)
            require(same(part, kept), "adding data changed the datums it was given", part=repr(part)[:300])
            scribble(part)   # what the caller does with its objects afterwards has no effect
        step()
        ev = ld.finalize()
        got = T.observe(ev)
        require(close(got, want), "results differ from those of the data as it was added: " + "; ".join(diff(got, want)), case=case)
        state([t, name, rep])
        outcome(want)


FAMILIES = [
    Family("caller's objects", gen_objects, run_objects, "3 tasks x all datasets x 4 layouts x 3 splits x annotations forwards or backwards with null metadata (x 3 geometry kinds): datums compared before and after adding, then overwritten by the caller before finalizing"),
    Family("classification", gen_cls, run_cls, "7 kinds of ground truth x 0-4 (7) labels x 0-4 (7) scores of 4 kinds x 4 kinds of metadata; each accepted datum at each place of an add_data list"),
    Family("label score pairing", gen_pairing, run_pairing, "3 annotation kinds x 0-4 (7) labels x 0-4 (7) scores x 4 kinds of scores x 4 of metadata; as a prediction at every position of a detection with 4 kinds of metadata"),
    Family("geometry", gen_geometry, run_geometry, "10 shapes; bitmasks of 7 data types x 6 sizes x no or any single pixel set"),
    Family("segmentation", gen_seg, run_seg, "every shape of 0-3 dimensions from -1..3; every pair of 9 image and 13 mask shapes, foreign objects, at every position of 1-3 masks of either side"),
    Family("metadata fields", gen_fields, run_fields, "every reserved column name and 4 free names, alone and among others, 2 types, memory and file loaders"),
    Family("threshold lists", gen_thresholds, run_thresholds, "every query x empty / one / two IoU and score thresholds, memory and file"),
]
