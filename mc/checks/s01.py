import itertools
from .. import seg
from ..core import Family, outcome, scratch, state
from ..util import PAIRS, name_map, rename

ASSUMPTIONS = ["at least one label in the dataset; images of one dataset may have different shapes"]


def side(assign, split=False, order=1):
    """assign: tuple of label or '' per pixel -> masks (one per label, or one per pixel when split)."""
    if split:
        return [{"l": l, "px": [i]} for i, l in enumerate(assign) if l][::order]
    ls = sorted({l for l in assign if l})[::order]
    return [{"l": l, "px": [i for i, x in enumerate(assign) if x == l]} for l in ls]


def img(u, sh, g, p, split=False, order=1, extra=()):
    return {"u": u, "sh": list(sh), "g": side(g, split, order) + [{"l": l, "px": []} for l in extra], "p": side(p, split, -order)}


def run(case):
    ds = [img(f"u{i}", *x) for i, x in enumerate(case["imgs"])]
    if not seg.labels_of(ds):
        return
    if "ren" in case:
        ds = rename(ds, name_map(case["ren"]))
    lay = case.get("l", seg.MEM)
    with scratch() as d:
        ev = seg.build(ds, lay, d + "/x")
        got, want = seg.check(ev, ds)
    state(want)
    outcome(got)


def gen_one(tier):
    for n, labs in (((4, "ab"), (3, "abc")) if tier == "quick" else ((4, "abc"), (5, "ab"), (3, "abcd"))):
        al = ("",) + tuple(labs)
        for g in itertools.product(al, repeat=n):
            for p in itertools.product(al, repeat=n):
                yield {"imgs": [[[1, n] if n % 2 else [2, n // 2], g, p]]}


def gen_split(tier):
    """several masks per label, several mask orders, empty masks."""
    al = ("", "a", "b")
    for g in itertools.product(al, repeat=3 if tier == "quick" else 4):
        for p in itertools.product(al, repeat=len(g)):
            yield {"imgs": [[[len(g), 1], g, p, True]]}
            yield {"imgs": [[[1, len(g)], g, p, True, -1, ["c"]]]}


TILES = [("", ""), ("a", "a"), ("a", "b"), ("b", ""), ("", "c"), ("c", "a"), ("aa", "ab"), ("ab", "ba"), ("aab", "a b"), ("bc", "bb"), (" ", "a"), ("abca", "  ca")]


def t_img(k):
    g, p = TILES[k]
    n = max(len(g), len(p), 1)
    f = lambda s: [c.strip() for c in s.ljust(n)]
    return [[1, n], f(g), f(p)]


def gen_seq(tier):
    for k in (2, 3):
        for c in itertools.product(range(len(TILES)), repeat=k):
            if k == 3 and tier == "quick" and (c[0] + 5 * c[1] + 7 * c[2]) % 3:
                continue
            yield {"imgs": [t_img(i) for i in c]}


def gen_names(tier):
    for k in range(len(PAIRS)):
        for i, j in itertools.product(range(len(TILES)), repeat=2):
            if tier != "quick" or (i + 5 * j + k) % 6 == 0:
                yield {"imgs": [t_img(i), t_img(j)], "ren": k}


def gen_big(tier):
    """counts above 8, 16 and 24 bits."""
    for s in ((20, 30), (300, 400), (1, 4096), (2100, 2000)) if tier == "quick" else ((20, 30), (300, 400), (1, 70000), (2100, 2000), (4200, 4100)):
        n = s[0] * s[1]
        for cut in (n // 3, n // 2, n - 1):
            yield {"big": [list(s), cut]}


def gen_powers(tier):
    """all pixels alike: counts of exactly 2^8, 2^16 and their neighbours, on either side or background."""
    for n in (255, 256, 257, 65535, 65536, 65537) + (() if tier == "quick" else (2 ** 24, 2 ** 24 + 1)):
        for g, p in (("a", "a"), ("a", "b"), ("a", ""), ("", "a")):
            yield {"n": n, "g": g, "p": p}
        yield {"n": n, "g": "", "p": "", "more": 1}


def run_powers(case):
    n, g, p = case["n"], case["g"], case["p"]
    ds = [{"u": "u", "sh": [1, n], "g": [{"l": g, "px": range(n)}] if g else [], "p": [{"l": p, "px": range(n)}] if p else []},
          img("v", [1, 2], ["a", ""], ["b", "a"])]
    c = {("a", "b"): 1, (None, "a"): 1}
    c[(g or None, p or None)] = c.get((g or None, p or None), 0) + n
    ev = seg.build(ds)
    seg.expect("uniform image", seg.obs(ev), seg.model(c, {"a", "b"}))
    seg.expect("uniform image info", seg.info(ev), seg.m_info(c, {"a", "b"}, 2))
    state(case)
    outcome(case)


def run_big(case):
    (h, w), cut = case["big"]
    n = h * w
    ds = [{"u": "u", "sh": [h, w], "g": [{"l": "a", "px": range(cut)}, {"l": "b", "px": range(cut, n)}], "p": [{"l": "a", "px": range(cut // 2)}, {"l": "b", "px": range(cut // 2, n - 1)}]}]
    h2 = cut // 2
    c = {("a", "a"): h2, ("a", "b"): min(cut, n - 1) - h2, ("b", "b"): max(0, n - 1 - cut), ("b", None): 1}
    if cut == n:
        c = {}
    ev = seg.build(ds)
    seg.expect("large image", seg.obs(ev), seg.model(c, {"a", "b"}))
    seg.expect("large image info", seg.info(ev), seg.m_info(c, {"a", "b"}, 1))
    state([h, w, cut])


def gen_scale(tier):
    """many labels in one image, many images of few pixels, images of different sizes."""
    for n in (130, 260, 300):
        for kind in ("labels", "images", "masks"):
            yield {"n": n, "kind": kind}
    for n in (50, 1500, 300000):  # one pixel right among n: every ratio far below 1%
        yield {"n": n, "kind": "rare"}
        yield {"n": n, "kind": "lone"}


def scale_ds(case):
    n, k = case["n"], case["kind"]
    if k == "labels":
        g = [f"l{i % n}" if i % 5 else "" for i in range(2 * n)]
        p = [f"l{(i * (1 + i % 2)) % n}" if i % 7 else "" for i in range(2 * n)]
        return [img("u0", [2, n], g, p), img("u1", [1, 3], ["l1", "", "l2"], ["l2", "l1", ""])]
    if k == "rare":
        return [img("u0", [2, n], ["ab"[i % 2] for i in range(2 * n)], ["ba"[i % 2] if i else "a" for i in range(2 * n)])]
    if k == "lone":  # one labeled pixel each in a large image
        return [img("u0", [1, n], ["a"] + [""] * (n - 1), ["a"] + ["b"] * (n - 2) + [""])]
    if k == "images":
        return [img(f"u{i}", [1, 1 + i % 3], [["a", "b", ""][(i + j) % 3] for j in range(1 + i % 3)],
                    [["b", "a", "a"][(i * j) % 3] for j in range(1 + i % 3)]) for i in range(n)]
    return [img("u0", [1, n], [["a", "b"][i % 2] for i in range(n)], [["a", "b", ""][i % 3] for i in range(n)], True)]


def run_scale(case):
    ds = scale_ds(case)
    got, want = seg.check(seg.build(ds), ds)
    state(want)
    outcome(got)


FAMILIES = [
    Family("one-image", gen_one, run, "every assignment of background/2 labels to 4 pixels and background/3 labels to 3 pixels (4 px x 3, 5 px x 2, 3 px x 4 thorough), both sides"),
    Family("split-masks", gen_split, run, "every assignment on 3 (4) pixels with one mask per pixel, both mask orders, an additional empty mask"),
    Family("sequences", gen_seq, run, "sequences of 2 and 3 images from 12 shapes"),
    Family("names", gen_names, run, "21 pairs of unusual label and image names x pairs of 12 images (every 6th in quick)"),
    Family("large", gen_big, run_big, "images whose pixel counts exceed 8, 16 and 22 bits"),
    Family("powers of two", gen_powers, run_powers, "images of 2^8, 2^16 (2^24) pixels, one fewer and one more, all of one label, mislabeled, unmatched or background"),
    Family("scale", gen_scale, run_scale, "130-300 labels in an image, images, or masks per side; one pixel right among 50-300,000"),
]
