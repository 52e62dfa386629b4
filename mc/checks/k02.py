import itertools
import os

import pyarrow as pa
from valor_lite.cache import FileCacheReader, sort

from .. import kv
from ..core import Family, outcome, require, scratch, state, step
from ..util import chunks, compositions

ASSUMPTIONS = ["numeric, non-null sort keys, as documented"]
S = pa.schema([("id", pa.int64()), ("a", pa.int64()), ("b", pa.float64()), ("t", pa.string()), ("c", pa.int64())])
VAL_B = [-1.5, 0.0, 2.25]


def mk(keys):
    return [{"id": i, "a": k[0], "b": VAL_B[k[1]] if isinstance(k[1], int) else k[1], "t": "pqr"[i % 3], "c": k[2] if len(k) > 2 else 0}
            for i, k in enumerate(keys)]


def order(rows, sorting, split):
    """stable within a file, then file order: a stable sort of the concatenation."""
    out = list(rows)
    for name, d in reversed(sorting):
        out.sort(key=lambda r: r[name], reverse=False) if d == "ascending" else out.sort(key=lambda r: -r[name])
    return out


def source(rows, split, cfg, path):
    w = kv.create(cfg, path, S)
    for part in chunks(rows, split):
        w.write_table(kv.table(part, S))
    return w.to_reader()


def run(case):
    rows = mk(case["keys"])
    sorting = [tuple(s) for s in case["s"]]
    cols = case.get("cols")
    with scratch() as d:
        src = source(rows, case["split"], {"k": "file", "b": 2, "r": 3} if case["src"] == "file" else {"k": "mem", "b": 2}, d + "/src")
        sch = S if cols is None else pa.schema([S.field(c) for c in cols])
        sink = kv.create(case["sink"], d + "/sink", sch)
        kw = {} if cols is None else {"columns": cols}
        if case.get("ovr"):
            calls = []

            def ovr(t):
                calls.append(t.num_rows)
                return t.sort_by(sorting)
            kw["table_sort_override"] = ovr
        step()
        sort(source=src, sink=sink, batch_size=case["bs"], sorting=sorting, **kw)
        want = order(rows, sorting, case["split"])
        if cols is not None:
            want = [{c: r[c] for c in cols} for r in want]
        # everything is readable without any further call on the sink
        got = [r for t in (sink.to_reader() if case["sink"]["k"] == "mem" else FileCacheReader.load(d + "/sink")).iterate_tables() for r in t.to_pylist()]
        require(got == want, "sorted cache", got=[tuple(r.values()) for r in got], want=[tuple(r.values()) for r in want])
        # the source is unchanged
        require([r for t in src.iterate_tables() for r in t.to_pylist()] == rows, "sorting changed its source")
        if case.get("ovr"):
            require(sum(calls) == len(rows), "sort override applied to every row once", calls=calls)
        state([want, case["split"]])
        outcome(got)


def run_inplace(case):
    rows = mk(case["keys"])
    sorting = [tuple(s) for s in case["s"]]
    with scratch() as d:
        w = kv.create(case["l"], d + "/x", S)
        buffered = case.get("rows", False)
        parts = list(chunks(rows, case["split"]))
        for part in parts:
            (w.write_rows(part) if buffered else w.write_table(kv.table(part, S)))
        if not buffered or case["l"]["k"] == "mem":
            files = parts if case["l"]["k"] == "file" else [rows]
        else:  # the layout that row writes produce, observed before sorting
            files = None
        if files is None:
            w.flush()
            files = [t.to_pylist() for t in w.to_reader().iterate_tables()]
        w.sort_by(sorting)
        step(2)
        got = [t.to_pylist() for t in w.to_reader().iterate_tables()]
        want = [order(f, sorting, None) for f in files]
        require(got == want, "sort_by", got=[[r["id"] for r in f] for f in got], want=[[r["id"] for r in f] for f in want])
        # writing afterwards appends
        extra = {"id": 99, "a": -9, "b": 0.0, "t": "z", "c": 4}
        w.write_rows([extra])
        got = [r for t in w.to_reader().iterate_tables() for r in t.to_pylist()]
        require(got == [r for f in want for r in f] + [extra], "rows written after sort_by are appended")
        state(want)
        outcome(got)


A = [["a", "ascending"]]
Dd = [["a", "descending"]]
SINKS = [{"k": "mem", "b": 1}, {"k": "mem", "b": 3}, {"k": "file", "b": 1, "r": 1}, {"k": "file", "b": 2, "r": 3}, {"k": "file", "b": 100, "r": 100}]


def gen_one_key(tier):
    for n in range(1, 5 if tier == "quick" else 6):
        for ks in itertools.product((-1, 0, 1) if n < 5 else (0, 1, 2), repeat=n):
            for sp in compositions(n):
                if len(sp) == 1 and n > 2:
                    continue
                for i, s in enumerate((A, Dd)):
                    sinks = SINKS if n < 3 or tier != "quick" else [SINKS[(sum(ks) + len(sp) + i) % 5]]
                    if n == 5:
                        sinks = [SINKS[(sum(ks) + len(sp) + i) % 5]]
                    for sk in sinks:
                        for bs in ((1, 2) if n > 2 and tier != "quick" else (1 + (sum(ks) + i) % 2,)):
                            yield {"keys": [(k, 0) for k in ks], "s": s, "split": sp, "sink": sk, "bs": bs, "src": "file"}


def gen_two_keys(tier):
    ks2 = [(0, 0), (0, 2), (1, 0), (1, 1)]
    for n in ((3,) if tier == "quick" else (3, 4)):
        for ks in itertools.product(ks2, repeat=n):
            for sp in compositions(n):
                for da, db in itertools.product(("ascending", "descending"), repeat=2):
                    i = sum(k[0] + k[1] for k in ks) + len(sp)
                    if n == 4 and i % 3:
                        continue
                    yield {"keys": ks, "s": [["a", da], ["b", db]], "split": sp, "sink": SINKS[i % 5], "bs": 1 + i % 3, "src": "file"}


def gen_misc(tier):
    """memory sources, column subsets, sort overrides, empty files, many files."""
    for n in (0, 1, 2, 3):
        for ks in itertools.product((-1, 0, 1), repeat=n):
            for s in (A, Dd, [["b", "descending"], ["a", "ascending"]]):
                yield {"keys": [(k, (k + 1)) for k in ks], "s": s, "split": [n] if n else [], "sink": SINKS[(n + sum(ks)) % 5], "bs": 2, "src": "mem"}
    for ks in itertools.product((-1, 0, 1), repeat=3):
        for sp in compositions(3):
            for cols in (["id", "a"], ["t", "a", "id"]):
                yield {"keys": [(k, 0) for k in ks], "s": Dd, "split": sp, "sink": SINKS[sum(ks) % 5], "bs": 1, "src": "file", "cols": cols}
            yield {"keys": [(k, 0) for k in ks], "s": A, "split": sp, "sink": SINKS[sum(ks) % 5], "bs": 1, "src": "file", "ovr": True}
    # files without rows in between
    for ks in itertools.product((0, 1), repeat=3):
        for sp in ([0, 1, 2], [1, 0, 2], [1, 0, 0, 1, 1], [2, 1, 0], [0, 0, 3]):
            for s in (A, Dd):
                yield {"keys": [(k, 0) for k in ks], "s": s, "split": sp, "sink": SINKS[sum(ks)], "bs": 2, "src": "file"}
    for m in (7, 5, 3):
        keys = [((i * m) % 11 - 5, i % 3) for i in range(26)]
        for sp in ([1] * 26, [2] * 13, [3, 1] * 6 + [2], [25, 1]):
            for s in (A, Dd, [["b", "ascending"], ["a", "descending"]]):
                for sk in SINKS:
                    for bs in (1, 2, 7):
                        yield {"keys": keys, "s": s, "split": sp, "sink": sk, "bs": bs, "src": "file"}


def gen_three_keys(tier):
    ks3 = list(itertools.product((0, 1), (0, 2), (-1, 3)))
    names = ["a", "b", "c"]
    for n in ((2, 3) if tier == "quick" else (2, 3, 4)):
        for j, ks in enumerate(itertools.product(ks3, repeat=n)):
            if n == 4 and j % 7:
                continue
            for l, sp in enumerate(compositions(n)):
                if len(sp) == 1:
                    continue
                dirs = list(itertools.product(("ascending", "descending"), repeat=3))
                for i, ds in enumerate(dirs):
                    if n > 2 and (i + j) % 8 not in ((0, 3) if tier == "quick" else range(8)):
                        continue
                    nm = list(itertools.permutations(names))[(i + j) % 6]
                    yield {"keys": ks, "s": [[x, d] for x, d in zip(nm, ds)], "split": sp, "sink": SINKS[(i + j + l) % 5], "bs": 1 + i % 3, "src": "file"}


def gen_close(tier):
    """keys that only an exact comparison tells apart."""
    big = 2**53
    ints = [big, big + 1, big + 2, -big - 1, -big, 2**62, 2**62 + 1]
    flts = [0.5, 0.5000000000000001, 5e-324, 0.0, 1e-300, -5e-324, 1e300, 0.3, 0.30000000000000004]
    for vals, key in ((ints, "a"), (flts, "b")):
        for n in (2, 3):
            for ks in itertools.permutations(vals, n):
                for sp in compositions(n):
                    if n == 3 and len(sp) == 1:
                        continue
                    for d in ("ascending", "descending"):
                        yield {"keys": [((k, 0) if key == "a" else (1, k)) for k in ks], "s": [[key, d]], "split": sp,
                               "sink": SINKS[n], "bs": 1 + len(sp) % 2, "src": "file"}


def gen_runs(tier):
    """longer merges: every file is a run, with the head of one file interleaving another in every pattern."""
    n = 8 if tier == "quick" else 10
    for bits in range(2 ** n):
        # row i (in sorted position) lives in file bits>>i & 1
        f = [[i for i in range(n) if (bits >> i & 1) == x] for x in (0, 1)]
        sp = [len(x) for x in f]
        keys = [(i // 2, 0) for x in f for i in x]
        d = ("ascending", "descending")[bits % 2]
        yield {"keys": keys, "s": [["a", d]], "split": sp, "sink": SINKS[bits % 5], "bs": 1 + bits % 3, "src": "file"}


def gen_large(tier):
    """hundreds of files, hundreds of rows per file, read batches smaller and larger than a file."""
    for n, sp in ((300, [1] * 300), (600, [300, 300]), (600, [257, 1, 342]), (900, [30] * 30), (1300, [1000, 300])):
        for m in (1, 7, 13):
            for s in (A, Dd, [["b", "descending"], ["a", "ascending"]], [["c", "ascending"], ["b", "ascending"], ["a", "descending"]]):
                keys = [((i * m * 31) % 257 - 128, float((i * m) % 19) / 7, (i * i) % 5) for i in range(n)]
                for bs in (1, 256, 5000):
                    if tier == "quick" and (bs + m + len(s)) % 2:
                        continue
                    yield {"keys": keys, "s": s, "split": sp, "sink": [{"k": "mem", "b": 100}, {"k": "file", "b": 100, "r": 250}][(m + bs) % 2], "bs": bs, "src": "file"}


INF = float("inf")
KEY_TYPES = {"int8": [-128, -1, 0, 127], "int16": [-32768, 0, 1, 32767], "int32": [-(2 ** 31), -1, 0, 2 ** 31 - 1],
             "int64": [-(2 ** 63), -1, 0, 2 ** 63 - 1], "uint8": [0, 1, 127, 255], "uint16": [0, 1, 65535], "uint32": [0, 1, 2 ** 32 - 1],
             "uint64": [0, 1, 2 ** 63, 2 ** 64 - 1], "float32": [-INF, -0.5, 0.25, INF], "float64": [-INF, -1e-320, 1e308, INF]}


def gen_key_types(tier):
    for ty, vals in KEY_TYPES.items():
        for n in (2, 3):
            for ks in itertools.product(vals, repeat=n):
                for sp in compositions(n):
                    for i, d in enumerate(("ascending", "descending")):
                        if n == 3 and tier == "quick" and (len(sp) == 1 or (vals.index(ks[0]) + len(sp) + i) % 2):
                            continue
                        yield {"ty": ty, "k": [repr(k) for k in ks], "split": sp, "d": d, "sink": SINKS[len(sp)]}


def run_key_types(case):
    sch = pa.schema([("id", pa.int64()), ("k", pa.type_for_alias(case["ty"]))])
    num = lambda r: float(r) if case["ty"].startswith("float") else int(r)
    rows = [{"id": i, "k": num(k)} for i, k in enumerate(case["k"])]
    with scratch() as d:
        w = kv.create({"k": "file", "b": 2, "r": 3}, d + "/src", sch)
        for part in chunks(rows, case["split"]):
            w.write_table(kv.table(part, sch))
        sink = kv.create(case["sink"], d + "/sink", sch)
        step()
        sort(source=w.to_reader(), sink=sink, batch_size=2, sorting=[("k", case["d"])])
        ts = list(sink.to_reader().iterate_tables())
        got = [r for t in ts for r in t.to_pylist()]
        want = sorted(rows, key=lambda r: r["k"] if case["d"] == "ascending" else -r["k"])
        require(got == want, "sorted cache", type=case["ty"], got=got, want=want)
        require(all(t.schema.types == sch.types for t in ts), "column types changed", got=[str(t.schema) for t in ts])
        state([case["ty"], want])
        outcome(got)


def gen_inplace(tier):
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for ks in itertools.product((-1, 0, 1), repeat=n):
            for sp in compositions(n):
                for s in (A, Dd):
                    for l in ({"k": "file", "b": 2, "r": 2}, {"k": "mem", "b": 2}):
                        for rows in (False, True):
                            yield {"keys": [(k, 0) for k in ks], "s": s, "split": sp, "l": l, "rows": rows}
    for ks in itertools.product([(0, 0), (0, 2), (1, 0), (1, 1)], repeat=3):
        for da, db in itertools.product(("ascending", "descending"), repeat=2):
            yield {"keys": ks, "s": [["a", da], ["b", db]], "split": [3], "l": {"k": "file", "b": 2, "r": 2}}


FAMILIES = [
    Family("one-key", gen_one_key, run, "every sequence of <=4 (5) keys from {-1,0,1} x every split into files x both directions x 5 sinks x read batch 1-2 (rotated for the longest in quick)"),
    Family("two-keys", gen_two_keys, run, "every sequence of 3 (4) key pairs x every split x 4 direction pairs"),
    Family("three-keys", gen_three_keys, run, "every sequence of 2-3 (4) key triples x every split into >=2 files, the 8 direction triples and 6 key orders (rotated beyond 2 rows)"),
    Family("close-keys", gen_close, run, "every 2-3 distinct keys out of integers above 2^53 and neighbouring / subnormal floats x splits x directions"),
    Family("key-types", gen_key_types, run_key_types, "10 numeric key types x every 2-3 keys out of 3-4 extreme values x splits x directions (half of the 3-key ones in quick)"),
    Family("runs", gen_runs, run, "8 (10) ordered rows with ties dealt over two files in every one of the 2^8 (2^10) ways"),
    Family("large", gen_large, run, "300-1300 rows in 2-300 files x 3 orders x 4 sortings x read batches 1/256/5000", case_timeout=300),
    Family("misc", gen_misc, run, "memory sources, column subsets, sort overrides, empty files, 26 rows over up to 26 files"),
    Family("in-place", gen_inplace, run_inplace, "sort_by of every sequence of <=3 (4) keys x splits x memory/file x row/table writes"),
]
