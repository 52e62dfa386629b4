"""Cache adapters: building caches, reading every interface, plain-list models."""
import numpy as np
import pyarrow as pa
import pyarrow.compute as pc
from valor_lite.cache import FileCacheReader, FileCacheWriter, MemoryCacheReader, MemoryCacheWriter

from .core import require, step

SCHEMA = pa.schema([("id", pa.int64()), ("v", pa.float64()), ("s", pa.string())])


def row(i):
    return {"id": i, "v": (i % 3) / 2 - 0.5, "s": "xyz"[i % 3]}


def table(rows, schema=SCHEMA):
    return pa.Table.from_pylist(rows, schema=schema)


def batch(rows, schema=SCHEMA):
    return pa.RecordBatch.from_pylist(rows, schema=schema)


def create(cfg, path, schema=SCHEMA):
    step()
    if cfg["k"] == "mem":
        return MemoryCacheWriter.create(schema=schema, batch_size=cfg["b"])
    kw = {"compression": cfg["c"]} if cfg.get("c") else {}
    return FileCacheWriter.create(path=path, schema=schema, batch_size=cfg["b"], rows_per_file=cfg["r"], **kw)


def rows_of(reader, **kw):
    step()
    return [r for t in reader.iterate_tables(**kw) for r in t.to_pylist()]


def check_reader(reader, want, what, full=True):
    got = rows_of(reader)
    require(got == want, f"{what}: rows read back differ from rows written", got=[r["id"] for r in got], want=[r["id"] for r in want],
            first=next(((a, b) for a, b in zip(got, want) if a != b), None))
    step()
    require(reader.count_rows() == len(want), f"{what}: count_rows {reader.count_rows()} != {len(want)}")
    if not full:
        return
    require(reader.count_tables() == len(list(reader.iterate_tables())), f"{what}: count_tables")
    for cols in (["s"], ["v", "id"]):
        require(rows_of(reader, columns=cols) == [{c: r[c] for c in cols} for r in want], f"{what}: columns {cols}")
    for name, f, p in (("id >= 2", pc.field("id") >= 2, lambda r: r["id"] >= 2), ("s == x", pc.field("s") == "x", lambda r: r["s"] == "x"),
                       ("none", pc.field("id") < 0, lambda r: False)):
        w = [r for r in want if p(r)]
        require(rows_of(reader, filter=f) == w, f"{what}: filter {name}")
        require(rows_of(reader, filter=f, columns=["v"]) == [{"v": r["v"]} for r in w], f"{what}: filter {name} without its column")
    step(3)
    arr = [list(map(float, x)) for a in reader.iterate_arrays(numeric_columns=["v", "id"]) for x in a]
    require(arr == [[r["v"], float(r["id"])] for r in want], f"{what}: iterate_arrays")
    for cols in (["v"], ["id", "v"]):   # arrays handed out belong to the caller
        for a in reader.iterate_arrays(numeric_columns=cols):
            if a.flags.writeable:
                a[:] = -123.0
    require(rows_of(reader) == want, f"{what}: overwriting a returned array changed the cache")
    arr = [list(map(float, x)) for a in reader.iterate_arrays(numeric_columns=["id", "v"], filter=pc.field("s") != "x") for x in a]
    require(arr == [[float(r["id"]), r["v"]] for r in want if r["s"] != "x"], f"{what}: iterate_arrays with filter")
    ta, tb = [], []
    for t, a in reader.iterate_tables_with_arrays(columns=["s"], numeric_columns=["v", "id"], filter=pc.field("id") != 1):
        ta += [(r["s"], r["id"]) for r in t.to_pylist()]
        tb += [tuple(map(float, x)) for x in a]
    w = [r for r in want if r["id"] != 1]
    require(ta == [(r["s"], r["id"]) for r in w] and tb == [(r["v"], float(r["id"])) for r in w], f"{what}: iterate_tables_with_arrays")
    for kw, cols in (({"columns": ["v", "id"]}, ["v", "id"]), ({}, ["id", "v", "s"])):
        step()
        ta, tb = [], []
        for t, a in reader.iterate_tables_with_arrays(**kw):
            require(set(t.column_names) == set(cols), f"{what}: iterate_tables_with_arrays {kw} reads {t.column_names}")
            ta += [tuple(r[c] for c in cols) for r in t.to_pylist()]
            tb += [tuple(x) for x in a.tolist()]
        w = [tuple(r[c] for c in cols) for r in want]
        require(ta == w and tb == w, f"{what}: iterate_tables_with_arrays {kw}")
    for bs in (1, 2, 100):
        step()
        its = [list(it) for it in reader.iterate_fragment_batch_iterators(batch_size=bs)]
        require(all(b.num_rows <= bs for it in its for b in it), f"{what}: batch larger than {bs}")
        require([r for it in its for b in it for r in b.to_pylist()] == want, f"{what}: fragment batches of {bs}")
        require(len(its) == reader.count_tables(), f"{what}: one batch iterator per fragment")
