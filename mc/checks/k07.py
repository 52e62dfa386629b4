"""K07: a killed process leaves nothing that is read as something else."""
import itertools
import os
import shutil

from valor_lite.cache import FileCacheReader, FileCacheWriter, sort

from .. import crash, kv
from ..core import Family, outcome, require, scratch, state, step
from ..tasks import TASKS, do_filter
from ..util import close, diff, snapshot

ASSUMPTIONS = ["the process is killed, the machine is not: what was written to a file stays written; files are written front to back",
               "the state of an evaluator whose own building was killed is left open (Valor has no marker for a finished build); building "
               "again in its place has to be refused or right"]


# ---------------------------------------------------------------- caches
class Run:
    """A history; after each call: rows possibly on disk, rows certainly on disk."""

    def __init__(self, case, d):
        self.c, self.p, self.d = case["c"], d + "/x", d
        self.rows, self.kept, self.nxt, self.w = [], [], 0, None

    def new(self, k):
        rows = [kv.row((self.nxt + i) * 7 % 100) for i in range(k)]
        self.nxt += k
        return rows

    def call(self, o):
        """(function, rows a crash may leave in order, None or rows certainly there afterwards)."""
        if o == "create":
            return (lambda: setattr(self, "w", kv.create(self.c, self.p))), [], []
        new = self.new(int(o[1:])) if o[0] in "rtbX" else []
        self.rows = rows = self.rows + new
        if o[0] == "r":
            return (lambda: self.w.write_rows(new)), rows, None
        if o[0] == "b":
            return (lambda: self.w.write_batch(kv.batch(new))), rows, None
        if o[0] == "t":
            return (lambda: self.w.write_table(kv.table(new))), rows, rows
        if o[0] == "F":
            return (lambda: self.w.flush()), rows, rows
        if o[0] == "R":
            return (lambda: self.w.to_reader()), rows, rows
        if o[0] == "W":   # another writer takes over
            def f():
                self.w.flush()
                self.w = FileCacheWriter(path=self.p, schema=kv.SCHEMA, batch_size=self.c["b"], rows_per_file=self.c["r"], compression="snappy")
            return f, rows, rows
        if o[0] == "X":
            def f():
                with self.w as w:
                    w.write_rows(new)
            return f, rows, rows
        raise KeyError(o)


def read(p):
    """rows of the cache at p, or the exception that refuses them."""
    step()
    try:
        rd = FileCacheReader.load(p)
        rows = kv.rows_of(rd)
    except Exception as e:
        return e
    n = rd.count_rows()
    require(n == len(rows), f"count_rows {n} but {len(rows)} rows read")
    its = [r for it in rd.iterate_fragment_batch_iterators(batch_size=2) for b in it for r in b.to_pylist()]
    require(its == rows, "batches differ from tables")
    return rows


def ids(rows):
    return [r["id"] for r in rows]


def anew(p, what):
    """creating or replacing a cache in the place of the one left by the crash is refused or complete, never a mixture."""
    new = [kv.row(910), kv.row(911)]
    for kw in ({}, {"delete_if_exists": True}):
        step()
        try:
            w = FileCacheWriter.create(path=p + "/x", schema=kv.SCHEMA, batch_size=1, rows_per_file=1, **kw)
        except Exception:
            continue
        w.write_rows(new)
        w.flush()
        got = read(p + "/x")
        require(got == new, f"{what}: created after the crash {kw}, but other rows are read", got=repr(got)[:200])
        new = new[::-1]


def seen(d, t, may, must, what, k, neighbours):
    """what a reader and a new writer find in the tree t; may: rows in order; must: rows certainly there."""
    p = f"{d}/k{k}"
    crash.restore(t, p)
    try:
        got = read(p + "/x")
        if not isinstance(got, Exception):
            require(got == may[:len(got)], f"{what}: the rows left are no prefix of the rows written", got=ids(got), want=ids(may))
            require(len(got) >= must, f"{what}: finished rows are lost", got=ids(got), want=ids(may[:must]))
        for n, want in neighbours.items():
            require(read(p + n) == want, f"{what}: the neighbour {n} changed")
        if os.path.exists(p + "/x/.cfg"):   # a new writer continues
            step()
            extra = [kv.row(900), kv.row(901)]
            try:
                w = FileCacheWriter(path=p + "/x", schema=kv.SCHEMA, batch_size=1, rows_per_file=2, compression="snappy")
                w.write_rows(extra[:1])
                w.write_table(kv.table(extra[1:]))
                ok = True
            except Exception:
                ok = False
            again = read(p + "/x")
            if isinstance(got, Exception):
                require(isinstance(again, Exception), f"{what}: unreadable after the crash, but after writing two more rows read as {again}")
            elif ok:
                require(again == got + extra, f"{what}: continued after the crash, but the rows are not those left and then the new ones",
                        got=again if isinstance(again, Exception) else ids(again), want=ids(got + extra))
        anew(p, what)
        outcome([what.split(":")[0], type(got).__name__ if isinstance(got, Exception) else len(got)])
    finally:
        shutil.rmtree(p)


def run_write(case):
    with scratch() as d:
        root = d + "/r"
        os.mkdir(root)
        near = {}
        for n in ("/xx", "/x.parquet"):
            w = kv.create({"k": "file", "b": 1, "r": 2}, root + n)
            w.write_rows([kv.row(50), kv.row(51), kv.row(52)])
            w.flush()
            near[n] = [kv.row(50), kv.row(51), kv.row(52)]
        r = Run(case, root)
        k, certain = 0, 0
        for o in ["create"] + case["o"] + ["F"]:
            f, may, must = r.call(o)
            ts = crash.states(f, root)
            step()
            for a, b in itertools.pairwise(ts):
                for t in itertools.chain([a], crash.between(a, b, case["by"])):
                    k += 1
                    seen(d, t, may, certain, f"{o}: state {k}", k, near)
            if must is not None:
                certain = len(must)
            k += 1
            seen(d, ts[-1], may, certain, f"{o}: done, state {k}", k, near)
            if must is not None:
                got = read(r.p)
                require(got == may, f"{o} returned but a kill now loses rows", got=repr(got)[:300], want=ids(may))
            state([case["o"], o, len(ts)])


CFG = [{"k": "file", "b": 1, "r": 1}, {"k": "file", "b": 2, "r": 3}, {"k": "file", "b": 10, "r": 10}]


def gen_write(tier):
    al = ["r1", "r3", "b2", "t2", "X1", "F", "R", "W"]
    n = 2 if tier == "quick" else 3
    for c in CFG:
        for m in range(1, n + 1):
            for o in itertools.product(al, repeat=m):
                yield {"o": list(o), "c": c, "by": 149 if tier == "quick" else 29}


# ---------------------------------------------------------------- sorting, deleting, replacing
def run_change(case):
    with scratch() as d:
        root = d + "/r"
        os.mkdir(root)
        src = kv.create(case["c"], root + "/x")
        rows = [kv.row(i * 7 % 10) for i in range(case["n"])]
        for i in range(0, len(rows), 2):
            src.write_rows(rows[i:i + 2])
        src.flush()
        near = kv.create(CFG[0], root + "/xx")
        near.write_rows([kv.row(50), kv.row(51)])
        near.flush()
        old = [t.to_pylist() for t in FileCacheReader.load(root + "/x").iterate_tables()]
        want = [kv.row(50), kv.row(51)]
        new = [kv.row(70), kv.row(71), kv.row(72)]
        w = case["w"]

        def f():
            if w == "sort":
                sink = FileCacheWriter.create(path=root + "/y", schema=kv.SCHEMA, batch_size=case["sb"], rows_per_file=2)
                sort(source=FileCacheReader.load(root + "/x"), sink=sink, batch_size=case["sb"], sorting=[("id", case["dir"])])
            elif w == "sort_by":
                src.sort_by([("id", case["dir"])])
            elif w == "delete":
                FileCacheWriter.delete(root + "/x")
            else:
                v = FileCacheWriter.create(path=root + "/x", schema=kv.SCHEMA, batch_size=1, rows_per_file=2, delete_if_exists=True)
                v.write_rows(new[:2])
                v.write_table(kv.table(new[2:]))
        ts = crash.states(f, root)
        step()
        order = sorted(rows, key=lambda r: r["id"], reverse=case.get("dir") == "descending")
        k = 0
        for a, b in itertools.pairwise(ts + [ts[-1]]):
            for t in itertools.chain([a], crash.between(a, b, case["by"])):
                k += 1
                p = f"{d}/k{k}"
                crash.restore(t, p)
                what = f"{w}: state {k}"
                require(read(p + "/xx") == want, f"{what}: the neighbour changed")
                got = read(p + "/x")
                if w == "sort":
                    require(got == rows, f"{what}: the source of the sort changed", got=repr(got)[:300])
                    sink = read(p + "/y")
                    if not isinstance(sink, Exception):
                        require(sink == order[:len(sink)], f"{what}: the rows left in the sink are no prefix of the sorted rows", got=ids(sink), want=ids(order))
                elif not isinstance(got, Exception):
                    parts = [x.to_pylist() for x in FileCacheReader.load(p + "/x").iterate_tables()]
                    if w == "sort_by":
                        require(len(parts) == len(old) and all(sorted(ids(x)) == sorted(ids(y)) for x, y in zip(parts, old)),
                                f"{what}: rows lost or moved", got=[ids(x) for x in parts], want=[ids(x) for x in old])
                    else:
                        left = list(old)
                        whole = all(any(x == y for y in iter(lambda: left.pop(0) if left else None, None)) for x in parts)
                        require(whole or (w == "replace" and got == new[:len(got)]), f"{what}: neither files of the old cache nor the new rows",
                                got=[ids(x) for x in parts])
                anew(p, what)
                outcome([w, type(got).__name__ if isinstance(got, Exception) else len(got)])
                shutil.rmtree(p)
        state([w, case["n"], case["c"], len(ts)])
        if w == "delete":
            require(not os.path.exists(root + "/x"), "delete left the directory")
        if w == "replace":
            require(read(root + "/x") == new, "replaced cache differs from the rows written")


def gen_change(tier):
    for c in CFG:
        for n in (0, 1, 3, 6) if tier == "quick" else range(0, 10):
            for w in ("sort", "sort_by"):
                for di in ("ascending", "descending"):
                    for sb in ((1, 3) if w == "sort" else (1,)):
                        if n or w != "sort":
                            yield {"w": w, "n": n, "c": c, "dir": di, "sb": sb, "by": 149 if tier == "quick" else 29}
            for w in ("delete", "replace"):
                yield {"w": w, "n": n, "c": c, "by": 149 if tier == "quick" else 29}


# ---------------------------------------------------------------- evaluators
def run_eval(case):
    T = TASKS[case["t"]]
    ds = T.data(case["d"])
    lay = dict(case["l"])
    flt = [f for f in T.filters if T.select(ds, f)][case["f"] if case["w"] == "filter" else 0]
    mem = T.build(ds, {"k": "mem"}, None, T.FIELDS)
    want = T.observe(do_filter(mem, flt) if case["w"] == "filter" else mem)
    base = T.observe(mem)
    with scratch() as d:
        root = d + "/r"
        os.mkdir(root)
        src = T.build(ds, lay, root + "/src", T.FIELDS)
        before = crash.tree(root + "/src")

        def go(at):
            return {"build": lambda: T.build(ds, lay, at + "/x", T.FIELDS), "filter": lambda: do_filter(src, flt, at + "/x"),
                    "load": lambda: T.Evaluator.load(root + "/src"), "compute": lambda: T.observe(src)}[case["w"]]()
        ts = crash.states(lambda: go(root), root)
        step()
        k = 0
        for t in ts:
            s = {os.path.relpath(n, "src"): v for n, v in t.items() if n.startswith("src/")}
            require(s == before, f"killed {case['w']}: the source evaluator was touched", files=sorted(n for n in set(s) | set(before) if s.get(n) != before.get(n)))
            if case["w"] in ("load", "compute"):
                require(set(t) == set(ts[0]), f"{case['w']} leaves files behind")
                continue
            k += 1
            if k % case["of"] != case["part"]:
                continue
            p = f"{d}/k{k}"
            crash.restore({n: v for n, v in t.items() if not n.startswith("src")}, p)
            for again in ("as is", "deleted"):
                step()
                try:
                    if again == "deleted":
                        T.Loader.delete(p + "/x")
                    ev = go(p)
                    got = T.observe(ev)
                except Exception as e:
                    outcome([case["t"], case["w"], again, type(e).__name__])
                else:
                    if not close(got, want):
                        require(False, f"{case['w']} killed in state {k}, repeated ({again}): results differ: " + "; ".join(diff(got, want)))
                    outcome([case["t"], case["w"], again])
                if again == "as is" and not os.path.exists(p + "/x"):
                    break
            shutil.rmtree(p)
        got = T.observe(T.Evaluator.load(root + "/src"))
        if not close(got, base):
            require(False, "the source evaluator answers differently afterwards: " + "; ".join(diff(got, base)))
        state([case["t"], case["w"], len(ts)])


def gen_eval(tier):
    for t, T in TASKS.items():
        for name in T.names[:1] if tier == "quick" else T.names:
            for l in ({"k": "file"}, {"k": "file", "b": 2, "r": 3}) if tier == "quick" else ({"k": "file"}, {"k": "file", "b": 1, "r": 1}, {"k": "file", "b": 2, "r": 3}):
                for w in ("build", "filter", "load", "compute"):
                    of = (4 if tier == "quick" else 8) if w in ("build", "filter") else 1
                    nf = len([f for f in T.filters if T.select(T.data(name), f)]) if w == "filter" and tier != "quick" else 1
                    for f in range(nf):
                        for part in range(of):
                            yield {"t": t, "d": name, "w": w, "l": l, "f": f, "part": part, "of": of}


FAMILIES = [
    Family("killed writers", gen_write, run_write,
           "every sequence of up to 2 (3) of 8 write calls x 3 layouts; every state of the disk at a line of valor_lite or a file operation, and every 149th (29th) "
           "byte of what is written between; then reading, neighbours, a second writer continuing, creating and replacing", case_timeout=600),
    Family("killed changes", gen_change, run_change,
           "sorting into another cache, in-place sorting, deleting and replacing caches of 4 (10) sizes x 3 layouts, killed in every state of the disk", case_timeout=600),
    Family("killed evaluators", gen_eval, run_eval,
           "build, filter, load and compute of the 3 tasks x 2 (3) layouts killed in every state of the disk: the source unharmed, and the call repeated", case_timeout=600),
]
