"""K08: storage settings are honoured."""
import itertools
import os

import pyarrow.parquet as pq
from valor_lite.cache import FileCacheReader, FileCacheWriter, sort

from .. import kv
from ..core import Family, outcome, require, scratch, state, step
from ..tasks import TASKS, do_filter

ASSUMPTIONS = ["codecs snappy, gzip, zstd, lz4, brotli and none; the codec of a file is what its Parquet footer says",
               "the rows one datum contributes are bounded by the pairs of its annotations or labels"]
CODECS = ["snappy", "gzip", "zstd", "lz4", "brotli", "none"]
NAMES = {"none": "UNCOMPRESSED"}


def files(p):
    return sorted((os.path.join(p, f) for f in os.listdir(p) if f.endswith(".parquet")), key=lambda f: int(os.path.basename(f)[:-8]))


def codecs(f):
    m = pq.read_metadata(f)
    return m.num_rows, {m.row_group(g).column(c).compression for g in range(m.num_row_groups) for c in range(m.num_columns)}


def check_codec(p, codec, what):
    for f in files(p):
        n, got = codecs(f)
        require(n == 0 or got == {NAMES.get(codec, codec.upper())}, f"{what}: {os.path.basename(f)} is stored as {sorted(got)}, not {codec}")


# ---------------------------------------------------------------- caches
def gen_cache(tier):
    al = ["r1", "r3", "c2", "b1", "t2", "F", "S", "X1"]
    for c in CODECS if tier != "quick" else CODECS[:3] + CODECS[-1:]:
        for b, r in ((1, 1), (2, 3), (10, 10)):
            for k in (1, 2) if tier == "quick" else (1, 2, 3):
                for o in itertools.product(al, repeat=k):
                    yield {"c": c, "b": b, "r": r, "o": o}


def run_cache(case):
    with scratch() as d:
        p = d + "/x"
        step()
        w = FileCacheWriter.create(path=p, schema=kv.SCHEMA, batch_size=case["b"], rows_per_file=case["r"], compression=case["c"])
        model, nxt = [], 0
        for o in case["o"]:
            new = [kv.row(nxt + i) for i in range(int(o[1:] or 0))]
            nxt += len(new)
            model += new
            step()
            if o[0] == "r":
                w.write_rows(new)
            elif o[0] == "c":
                w.write_columns({c: [x[c] for x in new] for c in ("id", "v", "s")})
            elif o[0] == "b":
                w.write_batch(kv.batch(new))
            elif o[0] == "t":
                w.write_table(kv.table(new))
            elif o[0] == "F":
                w.flush()
            elif o[0] == "S":
                w.sort_by([("id", "ascending")])
            else:
                with w:
                    w.write_rows(new)
        rd = w.to_reader()
        require((rd.batch_size, rd.rows_per_file, rd.compression) == (case["b"], case["r"], case["c"]), "settings of the reader",
                got=[rd.batch_size, rd.rows_per_file, rd.compression])
        check_codec(p, case["c"], "cache")
        require(kv.rows_of(rd) == model, "rows differ")
        if model:
            for c2 in (case["c"], "gzip"):
                sink = FileCacheWriter.create(path=d + "/y" + c2, schema=kv.SCHEMA, batch_size=2, rows_per_file=2, compression=c2, delete_if_exists=True)
                step()
                sort(source=rd, sink=sink, batch_size=2, sorting=[("id", "descending")])
                check_codec(d + "/y" + c2, c2, "sorted cache")
        outcome([case["c"], [codecs(f)[0] for f in files(p)]])
    state([case["c"], case["o"], len(model)])


# ---------------------------------------------------------------- evaluators
def caches(root):
    """directories below root that load as a cache."""
    out = {}
    for p, _, fs in os.walk(root):
        if fs and p != root:
            try:
                out[os.path.relpath(p, root)] = FileCacheReader.load(p)
            except Exception:
                pass
    return out


def most(t, d):
    """upper bound of the rows one datum contributes."""
    if t == "cls":
        return len(d["p"])
    if t == "seg":
        return (len(d["g"]) + 1) * (len(d["p"]) + 1)
    return (len(d["g"]) + 1) * (sum(len(p.get("l", [1])) if isinstance(p.get("l"), (list, tuple)) else 1 for p in d["p"]) + 1)


def gen_eval(tier):
    lays = [(b, r) for b in (1, 2, 5) for r in (1, 2, 4, 7)] if tier == "quick" else [(b, r) for b in (1, 2, 3, 5, 9) for r in (1, 2, 3, 4, 7, 12, 30)]
    for t, T in TASKS.items():
        for n in T.names:
            for i, (b, r) in enumerate(lays):
                for c in CODECS[i % len(CODECS):][:1] if tier == "quick" else CODECS:
                    yield {"t": t, "d": n, "b": b, "r": r, "c": c}


def run_eval(case):
    T = TASKS[case["t"]]
    ds = T.data(case["d"])
    want = (case["b"], case["r"], case["c"])
    with scratch() as d:
        ev = T.build(ds, {"k": "file", "b": case["b"], "r": case["r"], "c": case["c"]}, d + "/s", T.FIELDS)
        todo = [("built", d + "/s")]
        for i, f in enumerate(T.filters):
            if T.select(ds, f):
                do_filter(ev, f, f"{d}/f{i}")
                todo.append((f"filtered by {f}", f"{d}/f{i}"))
        step()
        f = next(f for f in T.filters if T.select(ds, f))
        do_filter(T.Evaluator.load(d + "/s"), f, d + "/g")
        todo.append((f"loaded, then filtered by {f}", d + "/g"))
        top = case["b"] + case["r"] + max(most(case["t"], x) for x in ds)
        for what, p in todo:
            cs = caches(p)
            require(cs, f"{what}: no cache on disk")
            aligned = []
            for name, rd in cs.items():
                got = (rd.batch_size, rd.rows_per_file, rd.compression)
                require(got == want, f"{what}: cache {name} has other settings", got=got, want=want)
                check_codec(os.path.join(p, name), case["c"], f"{what}: cache {name}")
                sizes = [codecs(x)[0] for x in files(os.path.join(p, name))]
                require(all(n <= top for n in sizes), f"{what}: cache {name} has a file of {max(sizes, default=0)} rows, at most {top} allowed", sizes=sizes)
                if "datum_uid" in rd.schema.names:
                    seen = [set(tb["datum_uid"].to_pylist()) for tb in rd.iterate_tables(columns=["datum_uid"])]
                    aligned.append(all(not (a & b) for a, b in itertools.combinations(seen, 2)))
            require(any(aligned), f"{what}: no cache keeps every datum in one file")
            outcome([case["t"], what, sorted(cs)])
    state([case["t"], case["d"], case["b"], case["r"]])


FAMILIES = [
    Family("caches", gen_cache, run_cache,
           "every sequence of up to 2 (3) of 8 write calls and in-place sorts x 3 layouts x 4 (6) codecs, then sorted into caches of the same and another codec"),
    Family("evaluators", gen_eval, run_eval,
           "3 tasks x 2-3 datasets x 12 (35) batch sizes and rows-per-file, one (six) codecs: built, filtered, loaded and filtered"),
]
