"""K06: a failing disk operation is never swallowed."""
import itertools
import os

import pyarrow as pa
from valor_lite.cache import FileCacheReader, FileCacheWriter, sort

from .. import faults, kv
from ..core import Family, outcome, require, scratch, state, step
from ..tasks import TASKS, do_filter
from ..util import close, diff, snapshot

ASSUMPTIONS = ["one fault per history: every file stops growing at byte L, only n descriptors are free, or the n-th open/mkdir/remove/rmdir made "
               "from Python fails; directory listings do not fail on their own",
               "what a cache holds after a call that raised is left open, except that finished files are not damaged"]


def faults_for(case, d):
    """every fault of a kind relevant to the case."""
    k = case["fault"]
    if k == "size":
        return [("size", n) for n in range(case["from"], case["to"], case["by"])]
    if k == "fd":
        return [("fd", n) for n in range(0, 12)]
    raise KeyError(k)


# ---------------------------------------------------------------- caches
class Hist:
    """One history on a file cache: returns the rows a successful run must leave."""

    def __init__(self, case, d):
        self.case, self.d, self.p = case, d, d + "/x"
        self.w, self.model, self.nxt = None, [], 0

    def ops(self):
        yield "create", self.create
        for o in self.case["o"]:
            yield o, getattr(self, "op_" + o[0])(int(o[1]) if len(o) > 1 else 0)
        yield "close", lambda: self.w.flush()

    def create(self):
        self.w = kv.create(self.case["c"], self.p)

    def _new(self, k):
        rows = [kv.row(self.nxt + i) for i in range(k)]
        self.nxt += k
        return rows

    def op_r(self, k):
        def f():
            rows = self._new(k)
            self.w.write_rows(rows)
            self.model += rows
        return f

    def op_t(self, k):
        def f():
            rows = self._new(k)
            self.w.write_table(kv.table(rows))
            self.model += rows
        return f

    def op_X(self, k):
        def f():
            rows = self._new(k)
            with self.w as w:
                w.write_rows(rows)
            self.model += rows
        return f

    def op_F(self, k):
        return lambda: self.w.flush()

    def op_R(self, k):
        return lambda: self.w.to_reader()

    def op_S(self, k):
        return lambda: self.w.sort_by([("id", "ascending")])

    def op_M(self, k):   # sorted into another cache
        def f():
            sink = FileCacheWriter.create(path=self.d + "/sink", schema=kv.SCHEMA, batch_size=2, rows_per_file=2)
            sort(source=self.w.to_reader(), sink=sink, batch_size=2, sorting=[("id", "ascending")])
            self.sink = list(self.model)
        return f

    def op_N(self, k):   # replaced by a new, empty cache
        def f():
            self.w.flush()
            FileCacheWriter.create(path=self.p, schema=kv.SCHEMA, batch_size=2, rows_per_file=2, delete_if_exists=True)
            self.w = FileCacheWriter(path=self.p, schema=kv.SCHEMA, batch_size=2, rows_per_file=2, compression="snappy")
            self.model = []
        return f

    def op_D(self, k):
        def f():
            self.w.flush()
            FileCacheWriter.delete(self.p)
            require(not os.path.exists(self.p), "deleted cache still exists")
            self.w = kv.create(self.case["c"], self.p)
            self.model = []
        return f


def data_files(p):
    return {k: v for k, v in snapshot(p).items() if k.endswith(".parquet")} if os.path.isdir(p) else {}


def run_hist(case):
    n = 0
    while True:
        with scratch() as d:
            if case["fault"] == "op":
                fault = ("op", n)
            else:
                fs = case.setdefault("_f", faults_for(case, d)) if False else faults_for(case, d)
                if n >= len(fs):
                    break
                fault = fs[n]
            h = Hist(case, d)
            failed, hook, before, name = None, None, {}, ""
            with faults.inject(fault, d) as hook:
                try:
                    for name, f in h.ops():
                        if name[0] not in "SND" and fault[0] == "op":
                            before = data_files(h.p)
                        step()
                        f()
                except Exception as e:
                    failed = e
                count = faults._hook["n"]
            if failed is None:
                rd = FileCacheReader.load(h.p)
                got = [r for t in rd.iterate_tables() for r in t.to_pylist()]
                require(got == h.model, f"{fault}: every call returned but the rows differ", got=[r["id"] for r in got], want=[r["id"] for r in h.model])
                if hasattr(h, "sink"):
                    got = [r for t in FileCacheReader.load(d + "/sink").iterate_tables() for r in t.to_pylist()]
                    require(got == h.sink, f"{fault}: the sort returned but the sorted rows differ", got=[r["id"] for r in got], want=[r["id"] for r in h.sink])
            elif fault[0] == "op" and name[0] not in "SND":
                after = data_files(h.p)
                bad = [k for k, v in before.items() if after.get(k) != v]
                require(not bad, f"{fault}: {name} failed and damaged finished files", files=bad)
            state([case["o"], name, failed is None])
            outcome([case["o"], fault[0], name, type(failed).__name__ if failed is not None else len(h.model)])
            if fault[0] == "op":
                require(failed is not None or count <= n, f"the {n}-th file operation failed but no call raised", ops=case["o"])
                if count <= n:
                    break
        n += 1


CFG = [{"k": "file", "b": 1, "r": 1}, {"k": "file", "b": 2, "r": 3}, {"k": "file", "b": 10, "r": 10}]


def hists(tier):
    al = ["r1", "r3", "t2", "X1"]
    for o in itertools.product(al, repeat=2 if tier == "quick" else 3):
        yield list(o)
    for o in itertools.product(al, ["F", "R", "S", "M", "N", "D"], ["r1", "t2"] if tier == "quick" else al):
        yield list(o)


def gen_hist(tier):
    for o in hists(tier):
        for c in CFG:
            yield {"o": o, "c": c, "fault": "op"}
            yield {"o": o, "c": c, "fault": "fd"}
            if tier == "quick":
                if (len(o) + CFG.index(c)) % 3 == 0 or o[1] in "SMN":
                    yield {"o": o, "c": c, "fault": "size", "from": 0, "to": 1400, "by": 37}
            else:
                for a in range(0, 2400, 400):
                    yield {"o": o, "c": c, "fault": "size", "from": a, "to": a + 400, "by": 1}


# ---------------------------------------------------------------- evaluators
def gen_eval(tier):
    for t, T in TASKS.items():
        for name in T.names[:1] if tier == "quick" else T.names:
            for what in ("build", "filter", "load", "compute"):
                for l in ({"k": "file"}, {"k": "file", "b": 2, "r": 3}) if tier == "quick" else ({"k": "file"}, {"k": "file", "b": 1, "r": 1}, {"k": "file", "b": 2, "r": 3}, {"k": "file", "b": 3, "r": 100}):
                    yield {"t": t, "d": name, "w": what, "l": l, "fault": "op"}
                    yield {"t": t, "d": name, "w": what, "l": l, "fault": "fd"}
                    if what in ("build", "filter"):
                        for a in range(0, 12000, 1500):
                            yield {"t": t, "d": name, "w": what, "l": l, "fault": "size", "from": a, "to": a + 1500, "by": 61 if tier == "quick" else 5}


def run_eval(case):
    T = TASKS[case["t"]]
    ds = T.data(case["d"])
    lay = {k: v for k, v in case["l"].items()}
    mem = T.build(ds, {"k": "mem"}, None, T.FIELDS)
    flt = next(f for f in T.filters if T.select(ds, f))
    want = T.observe(mem) if case["w"] != "filter" else T.observe(do_filter(mem, flt))
    n = 0
    with scratch() as d0:
        if case["w"] != "build":
            src = T.build(ds, lay, d0 + "/src", T.FIELDS)
            snap = snapshot(d0 + "/src")
        while True:
            with scratch() as d:
                root = d if case["w"] in ("build", "filter") else d0
                if case["fault"] == "op":
                    fault = ("op", n)
                else:
                    fs = faults_for(case, d)
                    if n >= len(fs):
                        break
                    fault = fs[n]
                failed, ev, got = None, None, None
                with faults.inject(fault, root):
                    try:
                        step()
                        if case["w"] == "build":
                            ev = T.build(ds, lay, d + "/x", T.FIELDS)
                        elif case["w"] == "filter":
                            ev = do_filter(src, flt, d + "/x")
                        elif case["w"] == "load":
                            ev = T.Evaluator.load(d0 + "/src")
                        else:
                            got = T.observe(src)
                    except Exception as e:
                        failed = e
                    count = faults._hook["n"]
                if failed is None:
                    got = got or T.observe(ev)
                    if not close(got, want):
                        require(False, f"{fault}: {case['w']} returned but the results differ: " + "; ".join(diff(got, want)))
                    if ev is not None:
                        require(ev.info.metadata_fields is not None, f"{fault}: metadata fields lost")
                    if case["w"] in ("build",):
                        got = T.observe(T.Evaluator.load(d + "/x"))
                        if not close(got, want):
                            require(False, f"{fault}: {case['w']} returned but the stored cache differs: " + "; ".join(diff(got, want)))
                if case["w"] != "build":
                    require(snapshot(d0 + "/src") == snap, f"{fault}: {case['w']} changed the source cache")
                state([case["t"], case["w"], failed is None])
                outcome([case["t"], case["w"], fault[0], type(failed).__name__])
                if case["fault"] == "op":
                    require(failed is not None or count <= n, f"the {n}-th file operation of {case['w']} failed but the call returned")
                    if count <= n:
                        break
            n += 1


# ---------------------------------------------------------------- damaged files
def gen_cut(tier):
    for t, T in TASKS.items():
        for l in ({"k": "file"}, {"k": "file", "b": 2, "r": 3}) if tier == "quick" else ({"k": "file"}, {"k": "file", "b": 2, "r": 3}, {"k": "file", "b": 1, "r": 1}):
            for part in range(8):
                yield {"t": t, "l": l, "part": part, "by": 211 if tier == "quick" else 7}


def run_cut(case):
    """a data or configuration file cut short: reported, or without influence; never silently less data."""
    T = TASKS[case["t"]]
    ds = T.data(T.names[0])
    with scratch() as d:
        p = d + "/x"
        ev = T.build(ds, case["l"], p, T.FIELDS)
        want = {o: op(ev) for o, op in T.ops().items()}
        flt = next(f for f in T.filters if T.select(ds, f))
        wf = T.observe(do_filter(ev, flt, d + "/f"))
        files = sorted(k for k, v in snapshot(p).items() if v is not None)
        k = 0
        for i, f in enumerate(files):
            full = open(os.path.join(p, f), "rb").read()
            for n in sorted(set(range(0, len(full), case["by"])) | {4, len(full) - 1, len(full) - 8}):
                k += 1
                if k % 8 != case["part"] or not 0 <= n < len(full):
                    continue
                with open(os.path.join(p, f), "wb") as fh:
                    fh.write(full[:n])
                for fresh in (False, True):
                    for o, op in T.ops().items():
                        step()
                        try:
                            got = op(T.Evaluator.load(p) if fresh else ev)
                        except Exception as x:
                            outcome([f, o, type(x).__name__])
                        else:
                            if not close(got, want[o]):
                                require(False, f"{f} cut to {n} of {len(full)} bytes: {o} gives other results instead of an error: " + "; ".join(diff(got, want[o])))
                    try:
                        got = T.observe(do_filter(T.Evaluator.load(p) if fresh else ev, flt, f"{d}/f{k}{fresh}"))
                    except Exception as x:
                        outcome([f, type(x).__name__])
                    else:
                        if not close(got, wf):
                            require(False, f"{f} cut to {n} of {len(full)} bytes: filter gives other results instead of an error: " + "; ".join(diff(got, wf)))
                state([case["t"], f])
            with open(os.path.join(p, f), "wb") as fh:
                fh.write(full)
        if not close({o: op(ev) for o, op in T.ops().items()}, want):
            require(False, "results changed after the files were restored")


FAMILIES = [
    Family("damaged files", gen_cut, run_cut, "every file of the stored evaluators of 3 tasks x 2 (3) layouts cut at byte 0, 211, ... (7): reports, load and filter", case_timeout=300),
    Family("cache histories", gen_hist, run_hist,
           "every sequence of 2 (3) of 4 write calls, and write - flush/reader/sort_by/sort/replace/delete - write, x 3 layouts; every failing Python file "
           "operation, 0-11 free descriptors, every file cut at byte 0, 37, 74 ... (every byte)", case_timeout=300),
    Family("evaluators", gen_eval, run_eval,
           "build, filter, load and compute of the 3 tasks x 2 (4) layouts; every failing Python file operation, 0-11 free descriptors, every file cut at byte 0, 61 ... (5) up to 12000",
           case_timeout=300),
]
