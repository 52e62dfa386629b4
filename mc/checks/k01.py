import itertools
import os

import numpy as np
from valor_lite.cache import FileCacheReader

from .. import kv
from ..core import Family, outcome, require, scratch, state, step

ASSUMPTIONS = ["columns are passed in schema order with non-null values when written with write_columns"]
#   op name -> number of rows
OPS = ["r1", "r2", "r3", "c1", "c2", "b0", "b1", "t0", "t1", "t2", "F", "R"]


def apply(w, op, nxt, model, cfg, path):
    k = int(op[1]) if len(op) > 1 and op[1].isdigit() else 0
    new = [kv.row(nxt + i) for i in range(k)]
    step()
    # what the caller does to its own objects after a write has no effect
    if op[0] == "r":
        rows = [dict(r) for r in new]
        w.write_rows(rows)
        require(rows == new, "write_rows changed its argument")
        for r in rows:
            r.update(id=-7, v=0.25, s="overwritten")
        rows.append(kv.row(99))
    elif op[0] == "c":
        cols = {c: [r[c] for r in new] for c in ("id", "v", "s")}
        was = {c: list(x) for c, x in cols.items()}
        w.write_columns(cols)
        require(cols == was and list(cols) == list(was), "write_columns changed its argument")
        for x in cols.values():
            x[:] = x[::-1] + x
        cols.clear()
    elif op[0] == "n":
        arrays = {"id": np.array([r["id"] for r in new], dtype=np.int64), "v": np.array([r["v"] for r in new], dtype=np.float64),
                  "s": np.array([r["s"] for r in new], dtype=object)}
        w.write_columns(dict(arrays))
        require(all(list(a) == [r[c] for r in new] for c, a in arrays.items()), "write_columns changed its arrays")
        for a in arrays.values():
            a[:] = a[::-1] * 2
    elif op[0] == "b":
        w.write_batch(kv.batch(new))
    elif op[0] == "t":
        w.write_table(kv.table(new))
    elif op == "F":
        w.flush()
    elif op == "X":
        with w as x:
            require(x is w, "context manager returns the writer")
            x.write_rows([kv.row(nxt)])
        new = [kv.row(nxt)]
        require(w.count_rows() == len(model) + 1, f"writer.count_rows() {w.count_rows()} after leaving the context, expected {len(model) + 1}")
        if cfg["k"] == "file":
            require(kv.rows_of(FileCacheReader.load(path)) == model + new, "rows missing on disk after leaving the context")
    elif op == "R":
        kv.check_reader(w.to_reader(), model, "reader taken midway", full=False)
    elif op == "W":  # writer counts after a flush
        w.flush()
        require(w.count_rows() == len(model), f"writer.count_rows() {w.count_rows()} after flush, expected {len(model)}")
    model.extend(new)
    return nxt + len(new)


def run(case):
    cfg = case["c"]
    with scratch() as d:
        path = os.path.join(d, "x")
        w = kv.create(cfg, path)
        model, nxt = [], 0
        for op in case["o"]:
            nxt = apply(w, op, nxt, model, cfg, path)
            state([cfg, len(model), op])
        rd = w.to_reader()
        kv.check_reader(rd, model, "final reader", full=case.get("full", True))
        if cfg["k"] == "file":
            kv.check_reader(FileCacheReader.load(path), model, "reader loaded from disk", full=False)
            outcome([t.num_rows for t in rd.iterate_tables()])
        # closing again or reading again changes nothing
        w.flush()
        kv.check_reader(w.to_reader(), model, "second reader", full=False)


def gen_mem(tier):
    for b in (1, 2, 3, 4, 7):
        for k in range(0, 4 if tier == "quick" else 5):
            for o in itertools.product(OPS + ["X"], repeat=k):
                yield {"c": {"k": "mem", "b": b}, "o": o, "full": k < 3}
    al = ["r1", "r3", "b1", "t1", "F"]
    for b in (1, 2, 3, 4):
        for o in itertools.product(al, repeat=4 if tier == "quick" else 6):
            yield {"c": {"k": "mem", "b": b}, "o": o, "full": False}


def gen_file(tier):
    cf = [(b, r) for b in (1, 2, 3, 4) for r in (1, 2, 3, 4)]
    for b, r in cf:
        for k in range(0, 3 if tier == "quick" else 4):
            for o in itertools.product(OPS + ["X", "W"], repeat=k):
                yield {"c": {"k": "file", "b": b, "r": r}, "o": o, "full": k < 2}
    al = ["r1", "r2", "t1", "F"]
    for b, r in ([(1, 1), (1, 3), (2, 2), (2, 3), (3, 1), (3, 2), (3, 4), (4, 3)] if tier == "quick" else cf):
        for o in itertools.product(al, repeat=4 if tier == "quick" else 5):
            if o[0] == "F":
                continue
            yield {"c": {"k": "file", "b": b, "r": r}, "o": o, "full": False}


def gen_many(tier):
    """more than ten (and a hundred) files, compressions, wide writes."""
    for n in (9, 11, 25) + ((120,) if tier != "quick" else ()):
        for b, r in ((1, 1), (2, 1), (3, 2), (5, 4), (1, 7), (50, 3)):
            for pat in (["r1"], ["r2", "r1"], ["t1"], ["r1", "t2"], ["c2", "b1"]):
                yield {"c": {"k": "file", "b": b, "r": r}, "o": (pat * n)[:n]}
                yield {"c": {"k": "mem", "b": b}, "o": (pat * n)[:n]}
    for c in ("snappy", "gzip", "zstd", "lz4", "brotli"):
        for pat in (["r1"], ["r2", "t1"], ["c2", "b1"]):
            yield {"c": {"k": "file", "b": 2, "r": 3, "c": c}, "o": pat * 4}


def gen_reused(tier):
    """numpy columns, the arrays overwritten by the caller after every write."""
    for c in [{"k": "mem", "b": b} for b in (1, 2, 3, 4, 9)] + [{"k": "file", "b": b, "r": r} for b, r in ((1, 1), (2, 3), (4, 2), (4, 9), (9, 9))]:
        for k in range(1, 4 if tier == "quick" else 5):
            for o in itertools.product(["n1", "n2", "n3", "r1", "F", "R"], repeat=k):
                if any(x[0] == "n" for x in o):
                    yield {"c": c, "o": o, "full": k < 3}


def gen_types(tier):
    from .x01 import TYPES

    for ty in TYPES:
        for how in ("r", "c", "b", "t"):
            for null in (0, 1):
                if how == "c" and null:
                    continue
                for c in ({"k": "mem", "b": 2}, {"k": "mem", "b": 100}, {"k": "file", "b": 1, "r": 1}, {"k": "file", "b": 2, "r": 3}, {"k": "file", "b": 100, "r": 100}):
                    yield {"ty": ty, "how": how, "null": null, "c": c}


def run_types(case):
    """values and column types of every scalar type come back as they were written."""
    import pyarrow as pa
    from valor_lite.cache import FileCacheWriter, MemoryCacheWriter

    from .x01 import TYPES

    ty = pa.type_for_alias(case["ty"])
    vals = list(TYPES[case["ty"]])
    if case["null"]:
        vals[1] = None
    schema = pa.schema([("id", pa.int64()), ("f", ty)])
    rows = [{"id": i, "f": v} for i, v in enumerate(vals)]
    c = case["c"]
    with scratch() as d:
        if c["k"] == "mem":
            w = MemoryCacheWriter.create(schema=schema, batch_size=c["b"])
        else:
            w = FileCacheWriter.create(path=d + "/x", schema=schema, batch_size=c["b"], rows_per_file=c["r"], compression="snappy")
        for part in (rows[:1], rows[1:3], rows[3:]):
            step()
            if case["how"] == "r":
                w.write_rows(part)
            elif case["how"] == "c":
                w.write_columns({"id": pa.array([r["id"] for r in part]), "f": pa.array([r["f"] for r in part], ty)})
            elif case["how"] == "b":
                w.write_batch(pa.RecordBatch.from_pylist(part, schema=schema))
            else:
                w.write_table(pa.Table.from_pylist(part, schema=schema))
        w.flush()
        rds = [w.to_reader()] + ([FileCacheReader.load(d + "/x")] if c["k"] == "file" else [])
        want = pa.Table.from_pylist(rows, schema=schema)
        for rd in rds:
            step()
            got = pa.concat_tables(list(rd.iterate_tables()))
            require(got.schema.names == schema.names and got.schema.types == schema.types, "column types changed", got=str(got.schema))
            require(got.combine_chunks().equals(want.combine_chunks()), "values changed", got=got.to_pylist(), want=rows)
            require(rd.schema.equals(schema), "reader schema", got=str(rd.schema))
            bs = [b for it in rd.iterate_fragment_batch_iterators(batch_size=2) for b in it]
            gb = pa.Table.from_batches(bs)
            require(gb.schema.types == schema.types, "column types changed in batches", got=str(gb.schema))
            require(gb.combine_chunks().equals(want.combine_chunks()), "values changed in batches", got=gb.to_pylist(), want=rows)
            outcome([case["ty"], got.num_rows])
    state([case["ty"], case["null"]])


def gen_large(tier):
    """thousands of rows per call and per file."""
    lays = [{"k": "mem", "b": 1000}, {"k": "mem", "b": 10 ** 6}, {"k": "file", "b": 1000, "r": 1500}, {"k": "file", "b": 10 ** 6, "r": 10 ** 6},
            {"k": "file", "b": 10, "r": 70_000}, {"k": "file", "b": 40_000, "r": 3}]
    for c in lays:
        for sizes in ([300, 1, 999], [1024, 1024, 1024], [5000, 1, 5000, 1], [1] * 270, [255, 1, 256, 257], [70_000, 3], [140_000, 1, 66_000]):
            for how in "rbt":
                if tier == "quick" and sum(sizes) > 50_000 and (how == "r" or (c["b"] == 10 and how == "b")):
                    continue
                yield {"c": c, "w": sizes, "how": how}


def run_large(case):
    import numpy as np
    import pyarrow as pa
    import pyarrow.compute as pc

    cfg = case["c"]
    mk = lambda a, b: pa.table({"id": pa.array(np.arange(a, b)), "v": pa.array(np.arange(a, b) % 7 / 2.0), "s": pa.array([f"s{i % 11}" for i in range(a, b)])}, schema=kv.SCHEMA)
    with scratch() as d:
        w = kv.create(cfg, d + "/x")
        n = 0
        for k in case["w"]:
            t = mk(n, n + k)
            step()
            if case["how"] == "r":
                w.write_rows(t.to_pylist())
            elif case["how"] == "b":
                w.write_batch(t.combine_chunks().to_batches()[0])
            else:
                w.write_table(t)
            n += k
        rds = [w.to_reader()] + ([FileCacheReader.load(d + "/x")] if cfg["k"] == "file" else [])
        want = mk(0, n)
        flt = (pc.field("id") >= n // 3) & (pc.field("s") != "s3")
        for rd in rds:
            step(6)
            cat = lambda ts: pa.concat_tables(list(ts)).combine_chunks()
            require(rd.count_rows() == n, "count_rows", got=rd.count_rows(), want=n)
            got = cat(rd.iterate_tables())
            require(got.equals(want), "rows read back differ from rows written", got=got.num_rows, want=n)
            require(cat(rd.iterate_tables(filter=flt)).equals(want.filter(flt).combine_chunks()), "filtered rows differ")
            require(cat(rd.iterate_tables(columns=["v"], filter=flt)).equals(want.filter(flt).select(["v"]).combine_chunks()), "filtered column differs")
            a = np.concatenate(list(rd.iterate_arrays(numeric_columns=["v", "id"])))
            require(np.array_equal(a, np.column_stack([want["v"].to_numpy(), want["id"].to_numpy()])), "iterate_arrays differs")
            for bs in (1000, 131_073, 10 ** 6):
                bb = [list(it) for it in rd.iterate_fragment_batch_iterators(batch_size=bs)]
                require(len(bb) == rd.count_tables() and all(b.num_rows <= bs for it in bb for b in it), "fragment batches", bs=bs)
                require(cat([pa.Table.from_batches([b for it in bb for b in it])]).equals(want), "batches differ", bs=bs)
        state([cfg, n])
        outcome([t.num_rows for t in rds[0].iterate_tables()])


FAMILIES = [
    Family("reused buffers", gen_reused, run, "every sequence of 1-3 (4) writes of numpy columns and rows, flushes and reads; the caller overwrites its arrays after each write; 10 configurations"),
    Family("large", gen_large, run_large, "writes of 1 to 140,000 rows x 3 write calls x 6 layouts, every read interface", case_timeout=300),
    Family("memory", gen_mem, run, "every sequence of <=3 (4) of 13 writer operations, batch size 1-7; every sequence of 4 (6) of 5 operations"),
    Family("file", gen_file, run, "every sequence of <=2 (3) of 14 writer operations x batch size 1-4 x rows-per-file 1-4; every sequence of 4 (5) of 4 operations"),
    Family("many-files", gen_many, run, "patterns of 9-25 (120) writes, more than ten files, 5 codecs"),
    Family("types", gen_types, run_types, "23 scalar column types x 4 write calls x null x 5 layouts, tables and batches, written and loaded"),
]
