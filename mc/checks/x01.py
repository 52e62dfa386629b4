"""X01: a persisted evaluator reloads with the same results."""
import datetime as dt
import itertools
import json
import os
import subprocess
import sys
from pathlib import Path

from .. import core
from ..core import REPO, VERIF, Family, outcome, require, scratch, state, step
from ..tasks import TASKS, do_filter, fields_norm
from ..util import PAIRS, close, diff, name_map, rename, snapshot

LAYS = [{"k": "file"}, {"k": "file", "b": 1, "r": 1}, {"k": "file", "b": 2, "r": 4}, {"k": "file", "b": 1, "r": 6, "c": "zstd"},
        {"k": "file", "b": 3, "r": 2, "f": 1}]


def same(what, got, want):
    if not close(got, want):
        require(False, what + ": " + "; ".join(diff(got, want)))


def lay(task, l):
    return {k: v for k, v in l.items() if not (k == "f" and task == "seg")}


def check_loaded(T, ev, ref, fields, what):
    same(what, T.observe(ev), ref)
    same(what + ": metadata fields", fields_norm(ev.info.metadata_fields), fields_norm(fields))


def run_trip(case):
    T = TASKS[case["t"]]
    ds = T.data(case["d"])
    with scratch() as d:
        p = d + "/store"
        ev = T.build(ds, lay(case["t"], case["l"]), p, T.FIELDS)
        ref = T.observe(ev)
        snap = snapshot(p)
        same("metadata fields of the writer", fields_norm(ev.info.metadata_fields), fields_norm(T.FIELDS))
        mem = T.build(ds, {"k": "mem"}, None, T.FIELDS)
        same("persistent vs in-memory", ref, T.observe(mem))
        evs = []
        for i in range(case["n"]):
            step()
            e = T.Evaluator.load(p if i % 2 == 0 else Path(p))
            evs.append(e)
            check_loaded(T, e, ref, T.FIELDS, f"load {i + 1}")
        for i, f in enumerate(T.filters):
            if not T.select(ds, f):
                continue
            want = T.observe(do_filter(mem, f))
            fp = f"{d}/f{i}"
            fe = do_filter(evs[-1], f, fp)
            same(f"filter {f} of a loaded evaluator", T.observe(fe), want)
            same("metadata fields of a filtered evaluator", fields_norm(fe.info.metadata_fields), fields_norm(T.FIELDS))
            if T.labels_after(case["d"], f) == T.labels_after(case["d"], {}):
                step()
                le = T.Evaluator.load(fp)
                check_loaded(T, le, want, T.FIELDS, f"load of the cache filtered by {f}")
                if f.get("fd"):
                    same("direct filter on loaded filtered evaluator", strip_info(T.observe(le, datums=core_expr(f["fd"]))), strip_info(want))
        for e in evs + [ev]:
            check_loaded(T, e, ref, T.FIELDS, "after filtering")
        require(snapshot(p) == snap, "files of the persisted cache changed by loading or filtering")
    state([case["t"], case["d"]])
    outcome([case["t"], case["d"], ref["info"]])


def strip_info(o):
    return {k: v for k, v in o.items() if k not in ("roc",)}


def core_expr(s):
    from ..util import expr

    return expr(s)


def gen_trip(tier):
    for t, T in TASKS.items():
        for n in T.names:
            for l in LAYS if tier == "quick" else LAYS + [{"k": "file", "b": b, "r": r} for b in (1, 2, 5) for r in (1, 2, 3, 5, 8)]:
                for k in (1, 2):
                    yield {"t": t, "d": n, "l": l, "n": k}


def gen_scale(tier):
    for t in TASKS:
        for n, l in ((40, {"k": "file", "b": 16, "r": 50}), (300, {"k": "file"}), (300, {"k": "file", "b": 400, "r": 900})):
            yield {"t": t, "d": f"big{n}", "l": l, "n": 1}


# ---------------------------------------------------------------- unusual names
def gen_names(tier):
    for t, T in TASKS.items():
        for n in T.names[:1] if tier == "quick" else T.names:
            for k in range(len(PAIRS)):
                yield {"t": t, "d": n, "ren": k, "l": LAYS[1 + k % 3]}


def run_names(case):
    """labels, ids and metadata field names with odd characters survive storing and loading."""
    T = TASKS[case["t"]]
    ds = rename(T.data(case["d"]), name_map(case["ren"]))
    names = [x for x in PAIRS[case["ren"]] if x]
    fields = [(x, "int64") for x in names]
    ds = [dict(d, m={x: 10 * j + i for j, x in enumerate(names)}) for i, d in enumerate(ds)]
    with scratch() as d:
        mem = T.build(ds, {"k": "mem"}, None, fields)
        ref = T.observe(mem)
        T.build(ds, lay(case["t"], case["l"]), d + "/s", fields)
        step()
        e = T.Evaluator.load(d + "/s")
        check_loaded(T, e, ref, fields, "loaded")
        for j, x in enumerate(names):
            flt = core_expr(["ge", x, 10 * j + 1])
            same(f"filtered by field {x!r}", strip_info(T.observe(e, datums=flt)), strip_info(T.observe(mem, datums=flt)))
            want = core_expr(["in", "datum_uid", [x["u"] for x in ds[1:]]])
            same(f"field {x!r} selects its datums", strip_info(T.observe(e, datums=flt)), strip_info(T.observe(e, datums=want)))
    state([case["t"], case["ren"]])
    outcome(ref["info"])


# ---------------------------------------------------------------- metadata types
D0 = dt.datetime(2024, 1, 2, 3, 4, 5)
TYPES = {
    "string": ["x", "y", "x", ""], "large_string": ["x", "y", "", "\u00e9"], "bool": [True, False, True, False],
    "int8": [-3, 0, 7, 0], "int16": [-300, 300, 0, 1], "int32": [1, 2, 3, 1], "int64": [2 ** 60, -5, 0, 2 ** 60],
    "uint8": [0, 255, 1, 2], "uint16": [0, 1, 2, 3], "uint32": [0, 1, 2, 3], "uint64": [2 ** 63, 1, 2, 0], "float32": [0.5, -1.25, 0.0, 2.0],
    "float64": [0.1, -1e300, 0.0, 0.1], "double": [0.1, 0.2, 0.3, 0.1], "date32[day]": [D0.date()] * 2 + [dt.date(1969, 1, 1)] * 2,
    "date64": [D0.date()] * 2 + [dt.date(1969, 1, 1)] * 2,
    "timestamp[s]": [D0, D0 + dt.timedelta(seconds=1), D0, D0], "timestamp[us]": [D0, D0 + dt.timedelta(microseconds=1), D0, D0],
    "timestamp[ns]": [D0, D0 + dt.timedelta(days=1), D0, D0], "time32[s]": [dt.time(1), dt.time(2), dt.time(1), dt.time(3)],
    "time64[us]": [dt.time(1), dt.time(2), dt.time(1), dt.time(3)], "duration[s]": [dt.timedelta(seconds=i) for i in (1, 2, 1, 3)],
    "binary": [b"a", b"b", b"", b"a"],
}


def meta_fields(ty, form):
    import pyarrow as pa

    return [("f", ty if form == "name" else pa.type_for_alias(ty)), ("other", "string")]


def run_types(case):
    import pyarrow as pa
    import pyarrow.compute as pc

    T = TASKS[case["t"]]
    name = T.names[0]
    ds = T.data(name)
    ty = pa.type_for_alias(case["ty"])
    vals = list(TYPES[case["ty"]])
    if case["null"]:
        vals[case["null"] - 1] = None
    ds = T.with_meta(ds, "f", vals)
    if case["drop"]:
        ds = [dict(d, m=None if d["m"]["f"] is None else d["m"]) for d in ds]
    F = meta_fields(case["ty"], case["form"])
    mem = T.build(ds, {"k": "mem"}, None, F)
    with scratch() as d:
        p = d + "/store"
        ev = T.build(ds, {"k": "file", "b": 2, "r": 3}, p, F)
        ref = T.observe(ev)
        step()
        ld = T.Evaluator.load(p)
        check_loaded(T, ld, ref, F, "loaded")
        uids = [x["u"] for x in ds]
        for i, v in enumerate(dict.fromkeys(vals)):
            e = pc.field("f").is_null() if v is None else pc.field("f") == pa.scalar(v, ty)
            keep = [u for u, w in zip(uids, vals) if w == v and (w is None) == (v is None)]
            sub = [x for x in ds if x["u"] in keep]
            state([case["t"], case["ty"], keep])
            if not T.select([dict(x, m=x["m"] or {}) for x in real(T, name) if x["u"] in keep], {}):
                continue
            byuid = core_expr(["in", "datum_uid", keep])
            want = T.observe(mem, datums=byuid)
            same(f"direct filter f=={v!r} on the loaded evaluator", T.observe(ld, datums=e), want)
            fe = do_filter(ld, {}, f"{d}/f{i}", datums=e)
            wf = do_filter(mem, {}, datums=byuid)
            same(f"filter f=={v!r} of the loaded evaluator", T.observe(fe), T.observe(wf))
            same("metadata fields of the filtered evaluator", fields_norm(fe.info.metadata_fields), fields_norm(F))
            outcome([case["t"], case["ty"], fe.info.number_of_datums])


def real(T, name):
    return T.data(name)


def gen_types(tier):
    for t in TASKS:
        for ty in TYPES:
            for null in (0, 2):
                for form in ("name", "type"):
                    yield {"t": t, "ty": ty, "null": null, "drop": False, "form": form}
            yield {"t": t, "ty": ty, "null": 2, "drop": True, "form": "name"}


def gen_nofields(tier):
    for t, T in TASKS.items():
        for n in T.names:
            for F in (None, []):
                yield {"t": t, "d": n, "F": F}


def run_nofields(case):
    T = TASKS[case["t"]]
    ds = [dict(d, m=None) for d in T.data(case["d"])]
    if case["t"] != "cls":
        ds = [dict(d, g=[dict(g, m=None) for g in d["g"]], p=[dict(p, m=None) for p in d["p"]]) for d in ds]
    with scratch() as d:
        ev = T.build(ds, {"k": "file"}, d + "/s", case["F"])
        ref = T.observe(ev)
        ld = T.Evaluator.load(d + "/s")
        check_loaded(T, ld, ref, [], "no metadata fields")
        u = ds[0]["u"]
        f = {"fd": ["eq", "datum_uid", u]}
        same("filter without metadata fields", T.observe(do_filter(ld, f, d + "/f")), T.observe(do_filter(T.build(ds), f)))
        state([case["t"], case["d"]])
        outcome(ref["info"])


# ---------------------------------------------------------------- another process
CHILD = """
import sys, json
sys.path[:0] = [{verif!r}, {src!r}]
sys.dont_write_bytecode = True
import pyarrow as pa; pa.set_cpu_count(1); pa.set_io_thread_count(1)
from mc.core import dumps
from mc.tasks import TASKS, fields_norm
T = TASKS[sys.argv[2]]
if sys.argv[1] == "read":
    e = T.Evaluator.load(sys.argv[3])
else:
    e = T.build(T.data(sys.argv[4]), json.loads(sys.argv[5]), sys.argv[3], T.FIELDS)
print("RESULT" + dumps([T.observe(e), fields_norm(e.info.metadata_fields)]))
"""


def child(*args):
    r = subprocess.run([sys.executable, "-c", CHILD.format(verif=VERIF, src=os.path.join(REPO, "src"))] + list(args),
                       capture_output=True, text=True, timeout=100, cwd="/")
    step()
    require(r.returncode == 0, "other process failed", stderr=r.stderr[-1500:])
    return json.loads(r.stdout.split("RESULT", 1)[1])


def run_proc(case):
    T = TASKS[case["t"]]
    ds = T.data(case["d"])
    norm = lambda o: json.loads(core.dumps(o))
    with scratch() as d:
        p = d + "/store"
        if case["w"] == "parent":
            ev = T.build(ds, case["l"], p, T.FIELDS)
            got, fields = child("read", case["t"], p)
            same("loaded in another process", got, norm(T.observe(ev)))
        else:
            want, fields = child("write", case["t"], p, case["d"], json.dumps(case["l"]))
            ev = T.Evaluator.load(p)
            same("written by another process", norm(T.observe(ev)), want)
            same("in memory", norm(T.observe(T.build(ds))), want) if False else None
        same("metadata fields", fields, fields_norm(T.FIELDS))
    state([case["t"], case["d"], case["w"]])
    outcome([case["t"], case["d"]])


def gen_proc(tier):
    for t, T in TASKS.items():
        for n in T.names if tier != "quick" else T.names[:1]:
            for w in ("parent", "child"):
                for l in LAYS[1:3] if tier != "quick" else LAYS[2:3]:
                    yield {"t": t, "d": n, "w": w, "l": l}


def gen_err(tier):
    for t in TASKS:
        for kind in ("missing", "file"):
            for as_path in (False, True):
                yield {"t": t, "kind": kind, "as_path": as_path}


def run_err(case):
    T = TASKS[case["t"]]
    with scratch() as d:
        p = d + "/x"
        if case["kind"] == "file":
            open(p, "w").write("data")
        want = FileNotFoundError if case["kind"] == "missing" else NotADirectoryError
        step()
        try:
            T.Evaluator.load(Path(p) if case["as_path"] else p)
            got = None
        except Exception as e:
            got = e
        require(type(got) is want, "wrong error for an unusable path", want=want.__name__, got=repr(got))
        require(snapshot(d) == ({"x": b"data"} if case["kind"] == "file" else {}), "loading changed the directory")
    state(case["kind"])
    outcome(repr(type(got)))


# ---------------------------------------------------------------- label mapping
def mapping(ev):
    """label index -> label of an evaluator (whatever the attribute is called), None if it holds none."""
    for v in vars(ev).values():
        if isinstance(v, dict) and v and all(isinstance(k, int) and isinstance(x, str) for k, x in v.items()):
            return dict(v)
    return None


def uids(ds):
    return [d["u"] for d in ds]


def gen_map(tier):
    for t, T in TASKS.items():
        for n in T.names:
            for l in LAYS[:3] if tier == "quick" else LAYS:
                yield {"t": t, "d": n, "l": l}


def run_map(case):
    """a cache whose filter lost labels reloads like the evaluator that wrote it when it is given the label mapping."""
    T = TASKS[case["t"]]
    ds = T.data(case["d"])
    with scratch() as d:
        mem = T.build(ds, {"k": "mem"}, None, T.FIELDS)
        ref = T.observe(mem)
        l = lay(case["t"], case["l"])
        ev = T.build(ds, l, d + "/s", T.FIELDS)
        mp = mapping(ev)
        if mp is None:
            outcome("no mapping")
            return
        given = dict(mp)
        step()
        check_loaded(T, T.Evaluator.load(d + "/s", index_to_label_override=given), ref, T.FIELDS, "loaded with its own label mapping")
        for j, kind in enumerate(({"k": "mem"}, l)):
            ld = T.loader(kind, f"{d}/b{j}", T.FIELDS)
            T.add(ld, ds)
            step()
            check_loaded(T, ld.finalize(index_to_label_override=given), ref, T.FIELDS, "finalized with the label mapping")
        flts = T.filters + [{"fd": ["in", "datum_uid", list(u)]} for k in (1, 2) for u in itertools.combinations(uids(ds)[:4], k)]
        for i, f in enumerate(flts):
            if not T.select(ds, f):
                continue
            want = do_filter(mem, f)
            wobs = T.observe(want)
            do_filter(ev, f, f"{d}/f{i}")
            step()
            le = T.Evaluator.load(f"{d}/f{i}", index_to_label_override=given)
            check_loaded(T, le, wobs, T.FIELDS, f"cache filtered by {f}, loaded with the label mapping")
            sel = T.select(ds, f)
            last = [x["u"] if isinstance(x, dict) else x[0] for x in sel][-1]
            g = {"fd": ["eq", "datum_uid", last]}
            try:
                w2 = T.observe(do_filter(want, g))
            except Exception as e:
                w2 = type(e).__name__
            try:
                do_filter(le, g, f"{d}/g{i}")
                step()
                g2 = T.observe(T.Evaluator.load(f"{d}/g{i}", index_to_label_override=given))
            except Exception as e:
                g2 = type(e).__name__
            same(f"filtered by {f}, loaded, filtered by {g}, loaded", g2, w2)
        require(given == mp, "the label mapping passed in was changed")
    state([case["t"], case["d"]])
    outcome([case["t"], case["d"], ref["info"]])


def known_findings():
    """key -> still fails, for the findings listed in known_findings.txt."""
    import decimal

    import pyarrow as pa

    out = {}
    for key, ty, val in (("tz-timestamp", pa.timestamp("us", tz="UTC"), D0.replace(tzinfo=dt.timezone.utc)),
                         ("decimal", pa.decimal128(10, 2), decimal.Decimal("1.25"))):
        bad = False
        for T in TASKS.values():
            ds = T.data(T.names[0])
            ds = T.with_meta(ds, "f", [val] * len(ds))
            with scratch() as d:
                T.build(ds, {"k": "file"}, d + "/s", [("f", ty)])
                try:
                    do_filter(T.Evaluator.load(d + "/s"), {"fd": ["eq", "datum_uid", ds[0]["u"]]}, d + "/f")
                except ValueError:
                    bad = True
        out[key] = bad
    core.clean_scratch()
    return out


FAMILIES = [
    Family("scale", gen_scale, run_trip, "40 and 300 datums over 20-30 labels, 3 tasks", case_timeout=600),
    Family("round trip", gen_trip, run_trip,
           "3 tasks x 2-3 datasets x 5 (20) file layouts x 1-2 loads: every report and info, 3 filters of the loaded evaluator, reload of filtered caches"),
    Family("label mapping", gen_map, run_map,
           "3 tasks x datasets x 3 (5) layouts: load, finalize and the reload of caches filtered by 3 filters and by every 1-2 of 4 datums, twice, with the label mapping"),
    Family("names", gen_names, run_names, "21 pairs of odd names for labels, ids and metadata fields x 3 tasks"),
    Family("metadata types", gen_types, run_types, "3 tasks x 23 scalar types (as name and as pyarrow type) x null placement; equality filters on every value"),
    Family("no metadata", gen_nofields, run_nofields, "metadata_fields None and []"),
    Family("other process", gen_proc, run_proc, "written here and loaded in a new process, and the reverse"),
    Family("unusable paths", gen_err, run_err, "missing path and plain file, str and Path"),
]
ASSUMPTIONS = ["filtered caches are reloaded when the filter keeps every label, or with index_to_label_override",
               "metadata types are those with a pyarrow type name; zoned timestamps and decimals are known findings"]
