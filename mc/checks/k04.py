import itertools
import os
import pathlib

import pyarrow as pa
from valor_lite.cache import FileCacheReader, FileCacheWriter

from .. import kv
from ..core import Family, outcome, require, scratch, state, step
from ..util import snapshot

ASSUMPTIONS = ["files with the .parquet suffix inside a cache directory belong to the cache; when a delete is refused because of other files, only those files are required to survive"]
S2 = pa.schema([("k", pa.int32()), ("x", pa.float32()), ("flag", pa.bool_()), ("when", pa.timestamp("us")), ("l", pa.list_(pa.int64()))])
CFG = {"A": dict(schema=kv.SCHEMA, batch_size=2, rows_per_file=3, compression="snappy"),
       "B": dict(schema=S2, batch_size=7, rows_per_file=1, compression="gzip"),
       "C": dict(schema=kv.SCHEMA, batch_size=1, rows_per_file=1, compression="zstd")}


def fails(fn, kinds):
    step()
    try:
        fn()
    except kinds:
        return True
    except Exception as e:
        require(False, f"raised {type(e).__name__}: {e}, expected {kinds}")
    return False


def check_cfg(o, cfg, path, what):
    require(o.schema.equals(cfg["schema"]), f"{what}: schema", got=str(o.schema))
    got = dict(b=o.batch_size, r=o.rows_per_file, c=o.compression, p=str(o.path))
    require(got == dict(b=cfg["batch_size"], r=cfg["rows_per_file"], c=cfg["compression"], p=str(path)), f"{what}: configuration", got=got)


def run(case):
    with scratch() as d:
        name = case.get("name", "x")
        path = os.path.join(d, name)
        P = pathlib.Path(path) if case.get("pl") else path
        # neighbours: caches and files whose names resemble the path
        for nb in case.get("nb", ["xy"]):
            w = FileCacheWriter.create(path=os.path.join(d, nb), **CFG["C"])
            w.write_rows([kv.row(1)])
            w.write_rows([kv.row(2)])
            w.flush()
        with open(os.path.join(d, "note.txt"), "w") as f:
            f.write("keep")
        top = name.split("/")[0]
        others = lambda: {k: v for k, v in snapshot(d).items() if not (k == top or k.startswith(top + "/"))}
        before = others()
        kind, cfg, rows, foreign, writer, nxt = "absent", None, [], {}, None, 0
        for op in case["o"]:
            snap = snapshot(path) if os.path.isdir(path) else None
            if op[0] == "c":        # create
                c = CFG[op[1]]
                if fails(lambda: FileCacheWriter.create(path=P, **c), FileExistsError):
                    require(kind != "absent", "create failed although nothing was there")
                    require((snapshot(path) if os.path.isdir(path) else None) == snap, "a refused create changed the existing path")
                else:
                    require(kind == "absent", f"create succeeded over an existing {kind}")
                    kind, cfg, rows = "cache", c, []
                    writer = "new"
            elif op[0] == "C":      # create with deletion
                c = CFG[op[1]]
                if kind == "absent" or (kind == "cache" and not foreign):
                    step()
                    w = FileCacheWriter.create(path=P, delete_if_exists=True, **c)
                    kind, cfg, rows = "cache", c, []
                    check_cfg(w, c, path, "writer")
                else:
                    require(fails(lambda: FileCacheWriter.create(path=P, delete_if_exists=True, **c), (OSError, KeyError, ValueError)),
                            f"create with deletion over a {kind} with foreign files {sorted(foreign)} succeeded")
                    check_foreign(path, kind, foreign, snap)
                    return
            elif op == "w":         # write with a writer of its own configuration
                if kind != "cache":
                    continue
                w = FileCacheWriter(path=P, schema=cfg["schema"], batch_size=cfg["batch_size"], rows_per_file=cfg["rows_per_file"], compression=cfg["compression"])
                step()
                if cfg["schema"] is S2:
                    new = [dict(k=nxt + i, x=0.5, flag=bool(i), when=None, l=[1, i]) for i in range(2)]
                else:
                    new = [kv.row(nxt + i) for i in range(2)]
                nxt += 2
                for r in new:
                    w.write_rows([r])
                w.flush()
                rows = rows + new
            elif op[0] == "W":      # many files
                w = FileCacheWriter(path=P, schema=cfg["schema"], batch_size=cfg["batch_size"], rows_per_file=cfg["rows_per_file"], compression=cfg["compression"])
                new = [kv.row(nxt + i) for i in range(int(op[1:]))]
                nxt += len(new)
                step()
                for r in new:
                    w.write_rows([r])
                w.flush()
                rows = rows + new
            elif op == "d":         # delete
                if kind == "absent" or (kind == "cache" and not foreign):
                    step()
                    FileCacheWriter.delete(P)
                    require(not os.path.exists(path), "path still there after delete")
                    kind, rows, cfg = "absent", [], None
                else:
                    require(fails(lambda: FileCacheWriter.delete(P), (OSError, KeyError, ValueError)),
                            f"delete of a {kind} with foreign files {sorted(foreign)} did not fail")
                    check_foreign(path, kind, foreign, snap)
                    return
            elif op == "l":         # load
                if kind == "cache":
                    step()
                    rd = FileCacheReader.load(P)
                    check_cfg(rd, cfg, path, "reader")
                else:
                    want = {"absent": FileNotFoundError, "file": NotADirectoryError, "dir": (OSError, KeyError, ValueError)}[kind]
                    require(fails(lambda: FileCacheReader.load(P), want), f"load of {kind} did not fail")
            elif op in ("f", "s"):  # somebody else's file / directory appears inside
                if kind not in ("cache", "dir"):
                    continue
                if op == "f":
                    n, b = f"notes{len(foreign)}.txt", b"hello"
                    open(os.path.join(path, n), "wb").write(b)
                    foreign[n] = b
                else:
                    n = f"sub{len(foreign)}"
                    os.mkdir(os.path.join(path, n))
                    open(os.path.join(path, n, "a.parquet"), "wb").write(b"data")
                    foreign[n + "/a.parquet"] = b"data"
            elif op == "D":         # a directory that is not a cache
                if kind == "absent":
                    os.makedirs(path)
                    open(os.path.join(path, "000000.parquet"), "wb").write(b"mine")
                    kind, foreign = "dir", {"000000.parquet": b"mine"}
            elif op == "p":         # a plain file at the path
                if kind == "absent":
                    os.makedirs(os.path.dirname(path), exist_ok=True)
                    open(path, "wb").write(b"plain")
                    kind, foreign = "file", {}
            else:
                raise ValueError(op)
            require(others() == before, f"{op} changed files outside the cache", diff=sorted(set(others().items()) ^ set(before.items()), key=repr)[:4])
            if kind == "cache" and not any(k.endswith(".parquet") and "/" in k for k in foreign):
                rd = FileCacheReader.load(P)
                got = read(rd, path)
                require(got == rows, f"contents after {op}", got=len(got), want=len(rows))
                require(set(k for k in snapshot(path) if k.endswith(".txt")) == set(k for k in foreign if k.endswith(".txt")), "foreign files")
            elif kind == "absent":
                require(not os.path.exists(path), f"{op} left something at the path")
            elif kind in ("dir", "cache"):
                check_foreign(path, kind, foreign, None)
            elif kind == "file":
                require(open(path, "rb").read() == b"plain", f"{op} changed the file at the path")
            state([kind, sorted(foreign), len(rows), op])
        outcome([kind, len(rows)])


def read(rd, path):
    import pyarrow.parquet as pq
    fs = sorted((f for f in os.listdir(path) if f.endswith(".parquet")), key=lambda f: int(f.split(".")[0]))
    direct = [r for f in fs for r in pq.read_table(os.path.join(path, f), partitioning=None).to_pylist()]
    if any(not f.endswith(".parquet") and f != ".cfg" for f in os.listdir(path)):
        return direct       # pyarrow would also pick up the foreign files
    got = [r for t in rd.iterate_tables() for r in t.to_pylist()]
    require(rd.count_rows() == len(got), f"count_rows {rd.count_rows()} but {len(got)} rows")
    require(rd.count_tables() == len(fs), f"count_tables {rd.count_tables()} but {len(fs)} files")
    require(got == direct, "reader and files disagree")
    return got


def check_foreign(path, kind, foreign, snap):
    if kind == "file":
        require(open(path, "rb").read() == b"plain", "the file at the path was changed")
        return
    now = snapshot(path)
    for k, v in foreign.items():
        require(now.get(k) == v, f"foreign file {k} was changed or removed")
    if kind == "dir" and snap is not None:
        require(now == snap, "a directory that is not a cache was changed")


OPS = ["cA", "cB", "CA", "CB", "w", "d", "l", "f", "s", "D", "p"]


def gen(tier):
    for k in range(1, 5 if tier == "quick" else 6):
        for o in itertools.product(OPS, repeat=k):
            if o[0] in ("w", "f", "s"):      # nothing there yet: no effect
                continue
            if k == 4 and tier == "quick" and o[-1] in ("f", "s", "D", "p"):
                continue
            if k == 5 and (o[-1] in ("f", "s", "D", "p", "w") or o[0] not in ("cA", "CB")):
                continue
            yield {"o": o, "pl": len(o) % 2 == 0}


NAMES = ["a[1]", "a*", "a?", "[!x]", "deep/er/x", "a b", "ünïcode", "x.parquet", "a[1-3]*"]


def gen_names(tier):
    for n in NAMES:
        for pl in (False, True):
            for o in (["cA", "w", "w", "l", "d", "l"], ["cA", "w", "CB", "w", "l", "d"], ["cC", "w", "w", "cA", "l", "f", "d"], ["CA", "CB", "w", "w", "CA", "l"], ["D", "cA", "d"], ["p", "cA", "d"]):
                yield {"o": o, "pl": pl, "name": n, "nb": ["a1", "ab", "a", "b"] if "/" not in n else ["ab"]}


def gen_many(tier):
    for n in (9, 11, 101, 140, 260) if tier == "quick" else (9, 11, 101, 140, 260, 1001):
        for o in (["cC", f"W{n}", "l", "d", "l"], ["cC", f"W{n}", "CB", "w", "l"], ["cC", f"W{n}", "f", "d"], ["cC", f"W{n}", "cA", f"W{n}", "l"], ["cA", f"W{n}", "CC", f"W{n}", "d"]):
            yield {"o": o, "pl": n % 2 == 0}


FAMILIES = [
    Family("many-files", gen_many, run, "5 histories of caches of 9-260 (1001) files", case_timeout=300),
    Family("histories", gen, run, "every history of <=4 (5) of create, create-with-delete, write, delete, load, foreign file/subdirectory/directory/plain file"),
    Family("names", gen_names, run, "6 histories x 9 unusual path names (wildcards, nested, unicode) next to similarly named caches"),
]
