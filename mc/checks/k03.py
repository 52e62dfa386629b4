import itertools

import pyarrow as pa
import pyarrow.compute as pc
from valor_lite.cache.compute import paginate_index

from .. import kv
from ..core import Family, outcome, require, scratch, state, step
from ..util import compositions

ASSUMPTIONS = ["limit >= 1 or absent; rows of one key lie in one fragment"]
S = pa.schema([("key", pa.int64()), ("id", pa.int64()), ("s", pa.string())])


def run(case):
    """case: frags = list of fragments, each a list of keys in row order (repeats allowed)."""
    rid, frags = 0, []
    for f in case["f"]:
        rows = []
        for k in f:
            rows.append({"key": k, "id": rid, "s": "xy"[k % 2] if k % 3 else "z"})
            rid += 1
        frags.append(rows)
    with scratch() as d:
        w = kv.create({"k": case["k"], "b": 2, "r": 3}, d + "/x", S)
        for f in frags:
            w.write_table(kv.table(f, S))
        src = w.to_reader()
        if case["k"] == "mem":
            frags = [[r for f in frags for r in f]]
        for name, flt, pred in (("none", None, lambda r: True), ("s != x", pc.field("s") != "x", lambda r: r["s"] != "x"),
                                ("key > 1", pc.field("key") > 1, lambda r: r["key"] > 1), ("nothing", pc.field("id") < 0, lambda r: False))[:case.get("nf", 4)]:
            kept = [[r for r in f if pred(r)] for f in frags]
            keys = [k for f in kept for k in sorted({r["key"] for r in f})]
            n = len(keys)
            for off in range(0, n + 3):
                for lim in [None] + list(range(1, n + 3)):
                    sel = set(keys[off: None if lim is None else off + lim])
                    want = [r for f in kept for r in f if r["key"] in sel]
                    kw = {} if lim is None else {"limit": lim}
                    if off or lim is None:
                        kw["offset"] = off
                    if flt is not None:
                        kw["modifier"] = flt
                    step()
                    got = [r for t in paginate_index(src, "key", **kw) for r in t.to_pylist()]
                    require(got == want, f"page limit={lim} offset={off} filter={name}",
                            got=[(r["key"], r["id"]) for r in got], want=[(r["key"], r["id"]) for r in want])
            state([name, keys, [[r["key"] for r in f] for f in kept]])


def gen(tier):
    n_max = 4 if tier == "quick" else 5
    for n in range(1, n_max + 1):
        for perm in itertools.permutations(range(n)):
            if n == 5 and perm[0] > perm[-1]:
                continue
            for sp in compositions(n):
                frags, i = [], 0
                for k in sp:
                    frags.append(list(perm[i:i + k]))
                    i += k
                for dup in range(2):
                    # 1-2 rows per key: repeat some keys inside their fragment, not adjacent
                    fr = [f + [k for k in f if (k + dup) % 2] for f in frags]
                    if tier == "quick" and n == 4 and (perm[0] > perm[1]) == (dup == 0):
                        continue
                    nf = 2 if tier == "quick" and n == 4 else 4
                    yield {"f": fr, "k": "file", "nf": nf}
                    if len(sp) <= 2 and (n < 4 or tier != "quick"):
                        yield {"f": fr, "k": "mem", "nf": nf}


def gen_edge(tier):
    for k in ("file", "mem"):
        yield {"f": [[], [0, 1], [], [2]], "k": k}
        yield {"f": [[]], "k": k}
        yield {"f": [[5, 5, 5, 5], [7, 6], [1], [9, 9, 8]], "k": k}
        yield {"f": [[-3, 10, -3], [4], [2, 2, 0]], "k": k}
        yield {"f": [[i, i + 1] for i in range(0, 24, 2)], "k": k, "nf": 1}
        yield {"f": [[i] * (1 + i % 3) for i in range(13)], "k": k, "nf": 2}
        yield {"f": [list(range(12, 0, -1)), [20, 19]], "k": k, "nf": 2}
    if tier != "quick":
        for c in itertools.product((0, 1, 2), repeat=4):
            i, fr = 0, []
            for m in c:
                fr.append(list(range(i + m - 1, i - 1, -1)) * 2)
                i += m
            yield {"f": fr, "k": "file"}


def gen_large(tier):
    for n, per in ((300, 10), (300, 300), (600, 257), (140, 1)):
        for rep in (1, 3):
            fr = [[k for k in range(min(n, i + per) - 1, i - 1, -1) for _ in range(rep)] for i in range(0, n, per)]
            for k in ("file", "mem"):
                for o in range(4):
                    yield {"f": fr, "k": k, "n": n, "o": o}


def run_large(case):
    from .c06 import windows

    rows, i = [], 0
    with scratch() as d:
        w = kv.create({"k": case["k"], "b": 2, "r": 3}, d + "/x", S)
        for f in case["f"]:
            part = [{"key": k, "id": i + j, "s": "x"} for j, k in enumerate(f)]
            i += len(part)
            rows.append(part)
            w.write_table(kv.table(part, S))
        src = w.to_reader()
        allr = [r for f in rows for r in f]
        offs, lims = windows(case["n"])
        for off in offs:
            for lim in [None] + lims[case["o"] * 5::24]:
                step()
                got = [r for t in paginate_index(src, "key", limit=lim, offset=off) for r in t.to_pylist()]
                hi = case["n"] if lim is None else off + lim
                want = [r for r in allr if off <= r["key"] < hi]
                require(got == want, f"page limit={lim} offset={off}", got=len(got), want=len(want))
        state([case["n"], case["k"], len(case["f"])])
        outcome(len(allr))


FAMILIES = [
    Family("large", gen_large, run_large, "300 and 600 keys in 1-300 fragments, 1 or 3 rows per key, window edges next to powers of two, thirds and the ends", case_timeout=300),
    Family("windows", gen, run, "every ordering of <=4 (5) keys over every split into fragments, 1-2 rows per key, every limit/offset, 4 filters, memory and file"),
    Family("edges", gen_edge, run, "empty fragments, 12-13 fragments, negative keys, repeated rows; every limit/offset"),
]
