import itertools
import re
import warnings

import numpy as np
from valor_lite.semantic_segmentation import Bitmask, Loader, Segmentation

from .. import seg
from ..core import Family, outcome, require, state, step

ASSUMPTIONS = ["the number of overlapped pixels is the number of pixels claimed by more than one mask of the list", "each annotation object occurs once: overlaps are resolved in place, as the existing tests require"]


def arr(m, sh):
    return np.array([(m >> i) & 1 for i in range(sh[0] * sh[1])], dtype=np.bool_).reshape(sh)


def resolve(ms):
    """first mask in the list keeps the pixel; pixels claimed more than once."""
    seen, over, out = 0, 0, []
    for m in ms:
        over |= m & seen
        out.append(m & ~seen)
        seen |= m
    return out, bin(over).count("1")


def run(case):
    case = dict(case, g=[int(m, 16) if isinstance(m, str) else m for m in case["g"]], p=[int(m, 16) if isinstance(m, str) else m for m in case["p"]])
    sh = tuple(case["sh"])
    n = sh[0] * sh[1]
    ga = [arr(m, sh) for m in case["g"]]
    pa_ = [arr(m, sh) for m in case["p"]]
    if case.get("share"):  # equal masks share one array object, across both sides as well
        pool = {}
        ga = [pool.setdefault(m, a) for m, a in zip(case["g"], ga)]
        pa_ = [pool.setdefault(m, a) for m, a in zip(case["p"], pa_)]
    if case.get("ro"):
        for a in ga + pa_:
            a.setflags(write=False)
    before = [a.copy() for a in ga + pa_]
    gl, pl = case.get("gl") or "abcd"[:len(ga)], case.get("pl") or "abcd"[:len(pa_)]
    g = [Bitmask(mask=a, label=l) for a, l in zip(ga, gl)]
    p = [Bitmask(mask=a, label=l) for a, l in zip(pa_, pl)]
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        s = Segmentation(uid="u", groundtruths=g, predictions=p, shape=sh)
    step()
    for a, b in zip(ga + pa_, before):
        require((a == b).all(), "the caller's mask array was modified", case=case)
    texts = [str(w.message) for w in ws]
    if any(bin(m).count("1") > 8 for m in case["g"] + case["p"]):
        outcome("large")
    for ms, got, key in ((case["g"], s.groundtruths, "ground truth"), (case["p"], s.predictions, "prediction")):
        want, over = resolve(ms)
        bits = [int(sum(int(v) << i for i, v in enumerate(x.mask.reshape(-1)))) for x in got]
        require(bits == want, f"{key} masks after overlap resolution", got=[hex(b) for b in bits], want=[hex(m) for m in want])
        w = [t for t in texts if t.startswith(key + " ") or key in t]
        if over:
            require(len(w) == 1 and str(over) in re.findall(r"\d+", w[0]), f"{key} overlap warning", got=w, want=f"{over} / {n}")
        else:
            require(not w, f"{key}: warning without overlap", got=w)
        state([key, [hex(m) for m in want], over])
    # what the evaluator computes uses the resolved masks
    if case["g"] or case["p"]:
        ld = Loader.in_memory()
        ld.add_data([s])
        px = lambda m: [i for i in range(n) if m >> i & 1]
        ds = [{"u": "u", "sh": list(sh), "g": [{"l": l, "px": px(m)} for m, l in zip(case["g"], gl)], "p": [{"l": l, "px": px(m)} for m, l in zip(case["p"], pl)]}]
        step(2)
        got, _ = seg.check(ld.finalize(), ds)
        outcome(got)


def gen_lists(tier):
    for sh, k in (([2, 2], 1), ([2, 2], 2), ([2, 2], 3)) + ((([1, 5], 3), ([2, 2], 4)) if tier != "quick" else ()):
        n = 2 ** (sh[0] * sh[1])
        for ms in itertools.product(range(n), repeat=k):
            for s in ("g", "p"):
                yield {"sh": sh, "g": ms if s == "g" else [], "p": ms if s == "p" else []}


def gen_four(tier):
    n = 8
    vals = [1, 3, 6, 7, 2] if tier == "quick" else range(n)
    for ms in itertools.product(vals, repeat=4):
        yield {"sh": [3, 1], "g": ms, "p": ms[::-1]}


def gen_both(tier):
    """both sides overlap at once, shared and read-only arrays, repeated labels."""
    vals = [1, 3, 5, 7] if tier == "quick" else range(8)
    for a in itertools.product(vals, repeat=2):
        for b in itertools.product(vals, repeat=2):
            yield {"sh": [1, 3], "g": a, "p": b, "share": True}
            yield {"sh": [1, 3], "g": a, "p": b, "ro": True, "gl": "aa", "pl": "ab"}
            yield {"sh": [1, 3], "g": a, "p": b, "share": True, "ro": True, "gl": "ab", "pl": "bb"}
    for a in itertools.product((3, 6, 7), repeat=3):
        yield {"sh": [1, 3], "g": a, "p": a, "share": True}


def gen_large(tier):
    """many masks, many pixels, many overlapped pixels."""
    def both(sh, ms):
        ms = [hex(m) for m in ms]
        yield {"sh": sh, "g": ms, "p": [], "gl": ["abcdefg"[i % 7] for i in range(len(ms))]}
        yield {"sh": sh, "g": [], "p": ms, "pl": ["abcdefg"[i % 7] for i in range(len(ms))]}
    for k in (5, 9, 20, 130, 260, 300):
        yield from both([1, k + 1], [3 << i for i in range(k)])            # a chain of overlapping neighbours
        yield from both([1, 8], [1 << (i % 8) for i in range(k)])          # each pixel claimed k/8 times
        yield from both([1, 8], [(1 << (i % 8)) | 1 for i in range(k)])    # one pixel claimed by all
        yield from both([1, k], [1 << i for i in range(k)])                # no overlap
    for h, w in ((16, 16), (17, 16), (1, 300), (300, 1), (20, 30), (256, 256), (260, 255)):
        n = h * w
        full = (1 << n) - 1
        half = (1 << (n // 2)) - 1
        for ms in ([full, full], [full, full, full], [half, full], [full, half], [full ^ half, half, full], [1, full], [1 << (n - 1), full, 1], [half, full ^ half]):
            yield from both([h, w], ms)


FAMILIES = [
    Family("large", gen_large, run, "5-300 masks in chains, repetitions and stars; images of 256-66,300 pixels overlapping in none, one, half or all of them", case_timeout=300),
    Family("lists", gen_lists, run, "every list of 1-3 masks over 4 pixels on either side (plus 3 over 5 pixels and 4 over 4 pixels thorough)"),
    Family("four-masks", gen_four, run, "every list of 4 masks from 5 (8) masks over 3 pixels, both sides"),
    Family("both-sides", gen_both, run, "two masks per side, shared array objects, read-only arrays, repeated labels"),
]
