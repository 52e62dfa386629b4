import itertools
from fractions import Fraction

import numpy as np
import shapely
from valor_lite.object_detection import Bitmask, BoundingBox, Detection, Loader, Polygon

from .. import od
from ..core import Family, outcome, require, state, step
from . import d02, d04

ASSUMPTIONS = ["shapes whose union area is at least 1e-9 (smaller ones count as empty); thresholds 1e-6 below and above the exact IoU, "
               "and exactly at it where the IoU is a dyadic rational computed without rounding (boxes and bitmasks)"]
E = 1e-6


# ---------------- exact oracle
def area(poly):
    return abs(sum(Fraction(a[0]) * b[1] - Fraction(b[0]) * a[1] for a, b in zip(poly, poly[1:] + poly[:1]))) / 2


def orient(poly):
    s = sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(poly, poly[1:] + poly[:1]))
    return poly if s > 0 else poly[::-1]


def clip(sub, conv):
    """Sutherland-Hodgman with rationals: intersection of two convex polygons."""
    out = [(Fraction(x), Fraction(y)) for x, y in orient(sub)]
    c = orient(conv)
    for a, b in zip(c, c[1:] + c[:1]):
        side = lambda p: (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])
        inp, out = out, []
        for p, q in zip(inp, inp[1:] + inp[:1]):
            sp, sq = side(p), side(q)
            if sp >= 0:
                out.append(p)
            if (sp > 0 and sq < 0) or (sp < 0 and sq > 0):
                t = sp / (sp - sq)
                out.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
        if not out:
            return Fraction(0)
    return area(out)


def cells(shape):
    """shape as a list of included and excluded rectangles -> set of unit cells."""
    s = set()
    for sign, (x0, x1, y0, y1) in shape:
        c = {(x, y) for x in range(x0, x1) for y in range(y0, y1)}
        s = s | c if sign > 0 else s - c
    return s


def q_cells(a, b):
    u = len(a | b)
    return Fraction(len(a & b), u) if u else Fraction(0)


def q_box(a, b):
    w = max(0, min(a[1], b[1]) - max(a[0], b[0]))
    h = max(0, min(a[3], b[3]) - max(a[2], b[2]))
    u = (a[1] - a[0]) * (a[3] - a[2]) + (b[1] - b[0]) * (b[3] - b[2]) - w * h
    return Fraction(w * h, u) if u else Fraction(0)


def dyadic(q):
    d = q.denominator
    return d & (d - 1) == 0 and d <= 1024


# ---------------- observation: which datums match at thresholds around q
def judge(add, mk, items, what, exact):
    """items: [(expected IoU, geometry a, geometry b)] with one ground truth a and one prediction b per datum."""
    by = {}
    for q, a, b in items:
        by.setdefault(q, []).append((a, b))
    for q, ps in by.items():
        ld = Loader.in_memory()
        getattr(ld, add)([
            Detection(uid=f"d{i}", groundtruths=[mk(a, f"g{i}", None)], predictions=[mk(b, f"p{i}", [0.9])])
            for i, (a, b) in enumerate(ps)])
        ev = ld.finalize()
        step(2)
        f = float(q)
        ts = [t for t in ([f - E] if q else []) + ([f] if q and exact and dyadic(q) else []) + [f + E] if 0 < t <= 1]
        want = [t <= f for t in ts]
        cme = od.obs_cme(ev, ts, [0.5])
        pr = od.obs_pr(ev, ts, [0.5])
        for t, w, m in zip(ts, want, cme):
            hit = {dict(e)["datum_id"] for e in m["cm"]["x"]["x"]["ex"]}
            exp = {f"d{i}" for i in range(len(ps))} if w else set()
            bad = sorted(hit ^ exp)
            require(not bad, f"{what}: exact IoU {q} but at threshold {t} the pair is {'not ' if w else ''}matched",
                    pair=ps[int(bad[0][1:])] if bad else None)
            c = pr["Counts"][("x", t, 0.5)][0]
            require(c["tp"] == (len(ps) if w else 0), f"{what}: exact IoU {q}, threshold {t}: TP {c} for {len(ps)} pairs",
                    pairs=ps[:3])
        state([what, str(q), len(ps)])
        outcome([what, str(q), [m["cm"]["x"]["x"]["count"] for m in cme]])


def kw(uid, sc):
    return dict(uid=uid, labels=["x"], **({"scores": sc} if sc else {}))


def mk_bbox(b, uid, sc):
    return BoundingBox(xmin=b[0], xmax=b[1], ymin=b[2], ymax=b[3], **kw(uid, sc))


def mk_poly(b, uid, sc):
    ring = [(b[0], b[2]), (b[1], b[2]), (b[1], b[3]), (b[0], b[3])]
    return Polygon(shape=shapely.Polygon(ring), **kw(uid, sc))


def run_box(case):
    sx, sy, dx, dy = case.get("xf", [1, 1, 0, 0])
    tr = lambda b: [b[0] * sx + dx, b[1] * sx + dx, b[2] * sy + dy, b[3] * sy + dy]
    items = [(q_box(a, b), tr(a), tr(b)) for a, b in case["pairs"]]
    exact = all(float(v) == int(v) for v in case.get("xf", []))
    if case["rep"] == "bbox":
        judge("add_bounding_boxes", mk_bbox, items, "boxes", exact)
    elif case["rep"] == "poly":
        judge("add_polygons", mk_poly, items, "polygons", False)
    else:
        H, W = case["grid"]

        def mk(b, uid, sc):
            m = np.zeros((H, W), dtype=np.bool_)
            m[b[2]:b[3], b[0]:b[1]] = True
            return Bitmask(mask=m, **kw(uid, sc))
        judge("add_bitmasks", mk, items, "bitmasks", True)


def run_mask(case):
    H, W = case["grid"]
    n = H * W

    def mk(m, uid, sc):
        a = np.array([(m >> i) & 1 for i in range(n)], dtype=np.bool_).reshape(H, W)
        return Bitmask(mask=a, **kw(uid, sc))
    items = []
    for a in case["a"]:
        for b in range(1, 2 ** n):
            items.append((Fraction(bin(a & b).count("1"), bin(a | b).count("1")), a, b))
    judge("add_bitmasks", mk, items, "bitmasks", True)


TRI = [t for t in itertools.combinations([(x, y) for x in range(4) for y in range(3)], 3) if area(list(t))]
SHAPES = {
    "L": [(1, (0, 1, 0, 3)), (1, (1, 3, 0, 1))], "Lflip": [(1, (2, 3, 0, 3)), (1, (0, 2, 2, 3))],
    "sq": [(1, (0, 3, 0, 3))], "ring": [(1, (0, 3, 0, 3)), (-1, (1, 2, 1, 2))], "core": [(1, (1, 2, 1, 2))],
    "U": [(1, (0, 3, 0, 3)), (-1, (1, 2, 1, 3))], "T": [(1, (0, 3, 2, 3)), (1, (1, 2, 0, 2))],
    "far": [(1, (5, 6, 5, 6))], "row": [(1, (0, 3, 0, 1))], "shift": [(1, (1, 4, 1, 4))], "edge": [(1, (3, 4, 0, 3))],
}


def shp(name):
    g = None
    for sign, (x0, x1, y0, y1) in SHAPES[name]:
        r = shapely.box(x0, y0, x1, y1)
        g = r if g is None else g.union(r) if sign > 0 else g.difference(r)
    return g


def run_tri(case):
    items = []
    mk = lambda t, uid, sc: Polygon(shape=shapely.Polygon(t), **kw(uid, sc))
    a = [tuple(p) for p in case["a"]]
    for b in TRI:
        i = clip(list(a), list(b))
        u = area(list(a)) + area(list(b)) - i
        items.append((i / u, a, list(b)[::case.get("dir", 1)]))
    judge("add_polygons", mk, items, "triangles", False)


def run_shapes(case):
    if case["rep"] == "poly":
        mk = lambda n, uid, sc: Polygon(shape=shp(n), **kw(uid, sc))
        add = "add_polygons"
    else:
        def mk(n, uid, sc):
            m = np.zeros((6, 7), dtype=np.bool_)
            for x, y in cells(SHAPES[n]):
                m[y, x] = True
            return Bitmask(mask=m, **kw(uid, sc))
        add = "add_bitmasks"
    items = [(q_cells(cells(SHAPES[case["a"]]), cells(SHAPES[b])), case["a"], b) for b in SHAPES]
    judge(add, mk, items, "shapes", False)


TS = [0.1, 0.25 - E, 0.25 + E, 0.5 - E, 0.5 + E, 2 / 3 - E, 2 / 3 + E, 1 - E]


def run_many(case):
    """several annotations per datum: the three representations give the model's matching and counts."""
    ds = d04.mk(case["d"])
    if not od.labels_of(ds):
        return
    sc = sorted({s for d in ds for p in d["p"] for s in p["s"]})
    ev = od.build(ds, rep=case["rep"])
    _, want, _ = od.check_counts(ev, ds, TS, [0.0] + sc, what=f"{case['rep']} counts")
    od.check_matching(ev, ds, TS, [0.0, 0.7], what=f"{case['rep']} matching")
    state(sorted((repr(k), v) for k, v in want["Counts"].items()))


# ---------------- spaces
def boxes(n, m, degenerate):
    o = 0 if degenerate else 1
    return [[a, b, c, d] for a in range(n + 1) for b in range(a + o, n + 1) for c in range(m + 1) for d in range(c + o, m + 1)]


def batches(pairs, k, **rest):
    pairs = iter(pairs)
    while True:
        part = list(itertools.islice(pairs, k))
        if not part:
            return
        yield dict(pairs=part, **rest)


def gen_boxes(tier):
    n, m = (3, 2) if tier == "quick" else (4, 3)
    B, Bd = boxes(n, m, False), boxes(n, m, True)
    yield from batches(itertools.product(Bd, repeat=2), 400, rep="bbox")
    yield from batches(itertools.product(B, repeat=2), 250, rep="poly")
    yield from batches(itertools.product(B, repeat=2), 250, rep="mask", grid=[m, n])


XF = [[1, 1, -2, -1], [1, 1, 1000000, 2000000], [0.01, 0.01, 0.3, -0.7], [1000, 3, -500, 7], [0.001, 0.001, 0, 0], [1, 1, -1000, 500]]


def gen_xf(tier):
    B = boxes(2, 2, True) if tier == "quick" else boxes(3, 2, True)
    Bp = boxes(2, 2, False) if tier == "quick" else boxes(3, 2, False)
    for xf in XF:
        yield from batches(itertools.product(B, repeat=2), 300, rep="bbox", xf=xf)
        yield from batches(itertools.product(Bp, repeat=2), 300, rep="poly", xf=xf)
    # large masks: more than 255 and more than 65535 pixels
    for s in (20, 300):
        P = [[0, s, 0, s], [0, s // 2, 0, s], [0, s, s // 4, s], [s // 2, s, 0, s // 2]]
        yield from batches(itertools.product(P, repeat=2), 8, rep="mask", grid=[s, s])


def gen_masks(tier):
    for H, W in ([(1, 4), (2, 2), (2, 3)] if tier == "quick" else [(1, 4), (4, 1), (2, 2), (2, 3), (3, 2), (2, 4), (4, 2)]):
        for i in range(1, 2 ** (H * W), 4):
            yield {"grid": [H, W], "a": list(range(i, min(i + 4, 2 ** (H * W))))}


def gen_tri(tier):
    for i, t in enumerate(TRI):
        if tier == "quick" and i % 4:
            continue
        yield {"a": t, "dir": 1 if i % 3 else -1}


def gen_shapes(tier):
    for n in SHAPES:
        for rep in ("poly", "mask"):
            yield {"a": n, "rep": rep}


def gen_many(tier):
    ivs = ["full", "half", "off2", "far"]
    opts = [(v, (l,), (s,)) for v in ivs for l in "ab" for s in (0.5, 0.9)]
    gts = [d02.GTS[i] for i in ((2, 3, 7) if tier == "quick" else range(1, 8))]
    for gs in gts + [[("full", "a"), ("g2", "a"), ("off2", "b")]]:
        for k in ((2,) if tier == "quick" else (1, 2, 3)):
            for j, ps in enumerate(itertools.combinations(opts, k)):
                if k == 3 and j % 3:
                    continue
                for rep in ("poly", "mask", "bbox"):
                    yield {"d": [[gs, list(ps)]], "rep": rep}
    for rep in ("poly", "mask", "bbox"):
        for c in itertools.product(range(len(d02.DATUMS)), repeat=2):
            yield {"d": [[d02.DATUMS[i][0], d04.one(d02.DATUMS[i][1])] for i in c], "rep": rep}


REPS = ("bbox", "poly", "mask")


def gen_mixed(tier):
    n = len(d02.DATUMS)
    for c in itertools.product(range(n), repeat=2):
        for r in itertools.permutations(REPS, 2):
            yield {"d": [[d02.DATUMS[i][0], d04.one(d02.DATUMS[i][1])] for i in c], "rep": list(r)}
    for c in itertools.product(range(n), repeat=3):
        for k, r in enumerate(itertools.permutations(REPS)):
            if tier == "quick" and (sum(c) + k) % 12:
                continue
            yield {"d": [[d02.DATUMS[i][0], d04.one(d02.DATUMS[i][1])] for i in c], "rep": list(r)}


FAMILIES = [
    Family("mixed", gen_mixed, run_many, "every pair (and a twelfth of the triples; thorough: all) of 9 datum shapes, each datum in a representation of its own"),
    Family("box-pairs", gen_boxes, run_box, "every ordered pair of boxes on a 3x2 (4x3) grid as bounding boxes (zero-area included), polygons and bitmasks"),
    Family("transforms", gen_xf, run_box, "every pair of 2x2-grid (3x2) boxes under 6 translations/scalings; bitmasks of 400 and 90000 pixels"),
    Family("bitmask-pairs", gen_masks, run_mask, "every ordered pair of non-empty bitmasks up to 6 (8) pixels"),
    Family("triangles", gen_tri, run_tri, "every 4th (every) triangle on a 4x3 point grid against every triangle, both orientations, exact rational clipping"),
    Family("shapes", gen_shapes, run_shapes, "every pair of 11 non-convex/holed shapes as polygons and bitmasks"),
    Family("several-annotations", gen_many, run_many, "2-3 ground truths x 2 (1-3) predictions and all pairs of 9 datum shapes in all representations against the matching model"),
]
