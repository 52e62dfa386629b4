"""X05: building an evaluator never corrupts, doubles or reuses existing data."""
import itertools
import os
from pathlib import Path

import valor_lite.exceptions as vx

from ..core import Family, outcome, require, scratch, state, step
from ..tasks import TASKS, do_filter
from ..util import close, diff, snapshot

LAYS = {"mem": {"k": "mem"}, "mem1": {"k": "mem", "b": 1}, "file": {"k": "file", "b": 2, "r": 4},
        "files": {"k": "file", "b": 1, "r": 1}, "big": {"k": "file"}}
NOTHING = {"cls": {"fd": ["eq", "datum_uid", "zz"]}, "od": {"fd": ["eq", "datum_uid", "zz"]}, "seg": {"fd": ["eq", "datum_uid", "zz"]}}
SOME = {"cls": {"fd": ["in", "datum_uid", ["u0"]]}, "od": {"fd": ["in", "datum_uid", ["d0"]]}, "seg": {"fd": ["in", "datum_uid", ["d0"]]}}
_ref = {}


def parts(t, name):
    """the data handed over by successive add calls: 2, 1, then the remaining datums."""
    ds = TASKS[t].data(name)
    return [ds[:1], ds[1:2], ds[2:]] if len(ds) > 2 else [ds[:1], ds[1:], []]


def ref(t, name, n):
    k = (t, name, n)
    if k not in _ref:
        T = TASKS[t]
        ds = [d for p in parts(t, name)[:n] for d in p]
        _ref[k] = T.observe(T.build(ds, {"k": "mem"}, None, T.FIELDS))
    return _ref[k]


def same(T, ev, want, what):
    got = T.observe(ev)
    if not close(got, want):
        require(False, what + ": " + "; ".join(diff(got, want)))


def raises(kind, fn, what):
    step()
    try:
        fn()
    except kind as e:
        return e
    except Exception as e:
        require(False, f"{what}: raised {type(e).__name__}: {e} instead of {kind.__name__}")
    require(False, f"{what}: no error")


def run(case):
    t, name, lay, seq = case
    T = TASKS[t]
    with scratch() as d:
        file = LAYS[lay]["k"] == "file"
        path = d + "/s/deep" if file else None
        ld = T.loader(LAYS[lay], path, T.FIELDS)
        added, ev, evn, late = 0, None, None, False
        for i, op in enumerate(seq):
            w = f"step {i} ({op}) of {seq}"
            if op == "A":
                if added == 3:
                    return
                T.add(ld, parts(t, name)[added])
                added += 1
                late = ev is not None
            elif op == "0":
                T.add(ld, [])
            elif op == "E":  # a datum without any annotation leaves no trace
                from .. import od
                ld.add_bounding_boxes([od.detection({"u": f"e{i}", "g": [], "p": []})])
                step()
            elif op == "F":
                if added == 0:
                    raises(vx.EmptyCacheError, ld.finalize, w)
                elif ev is not None and t != "seg":
                    raises(Exception, ld.finalize, w + ": finalizing twice")
                else:
                    step()
                    ev, evn, late = ld.finalize(), added, False
                    same(T, ev, ref(t, name, added), w + ": evaluator over the data added so far")
            elif op == "C":
                before = snapshot(path)
                for p in (path, Path(path), path + "/"):
                    raises(FileExistsError, lambda: T.loader(LAYS[lay], p, T.FIELDS), w)
                    require(snapshot(path) == before, w + ": refused creation changed the existing cache")
            elif ev is None or late:
                # what a cache answers before it is finalized, or between adding and finalizing, is unspecified
                continue
            elif op == "L":
                step()
                same(T, T.Evaluator.load(path), ref(t, name, evn), w + ": loaded evaluator")
            elif op == "N":
                before = snapshot(path) if file else None
                raises(vx.EmptyCacheError, lambda: do_filter(ev, NOTHING[t], f"{d}/n{i}" if file else None), w)
                require(not file or snapshot(path) == before, w + ": source changed")
            elif op == "S":
                before = snapshot(path)
                raises(FileExistsError, lambda: do_filter(ev, SOME[t], path), w)
                require(snapshot(path) == before, w + ": filtering onto the cache itself changed it")
            elif op == "X":
                f = do_filter(ev, SOME[t], f"{d}/x{i}" if file else None)
                want = T.observe(f)
                if file:
                    before = snapshot(f"{d}/x{i}")
                    raises(FileExistsError, lambda: do_filter(ev, SOME[t], f"{d}/x{i}"), w)
                    require(snapshot(f"{d}/x{i}") == before, w + ": filtering onto another cache changed it")
                    same(T, f, want, w + ": filtered evaluator after a refused filter")
            elif op == "P":
                before = snapshot(d)
                raises(ValueError, lambda: do_filter(ev, SOME[t], None), w)
                require(snapshot(d) == before, w + ": a refused filter left files")
            state([t, added, evn, late, op, lay])
        if ev is not None and not late:
            same(T, ev, ref(t, name, evn), f"evaluator at the end of {seq}")
            if file:
                step()
                same(T, T.Evaluator.load(path), ref(t, name, evn), f"cache loaded at the end of {seq}")
        outcome([t, added, evn])


def gen(tier):
    q = tier == "quick"
    for t, T in TASKS.items():
        name = T.names[0]
        for lay in LAYS:
            file = LAYS[lay]["k"] == "file"
            ops = ["A", "0", "F"] + (["E"] if t == "od" else [])
            post = ["N", "X"] + (["C", "L", "S", "P"] if file else [])
            # every order of adding and finalizing
            for k in range(1, 6 if q else 7):
                for seq in itertools.product(ops, repeat=k):
                    if seq.count("A") > 3 or (q and file and k == 5 and lay != "file"):
                        continue
                    yield [t, name, lay, list(seq)]
            # with reopening, refused creations and refused filters anywhere
            for k in range(1, 5 if q else 6):
                if k >= 4 and q and lay in ("files", "mem1"):
                    continue
                if k == 5 and lay not in ("mem", "file"):
                    continue
                for seq in itertools.product(["A", "F"] + post, repeat=k):
                    if not set(seq) & set(post) or seq.count("A") > 3:
                        continue
                    # operations that need a finalized evaluator do nothing before one
                    fin = [i for i in range(k) if seq[i] == "F" and "A" in seq[:i]]
                    if any(o in "LNSXP" and (not fin or i < fin[0]) for i, o in enumerate(seq)):
                        continue
                    yield [t, name, lay, list(seq)]


# -------------------------------------------------- where a cache can and cannot be created or loaded
def gen_paths(tier):
    for t in TASKS:
        for kind in ("missing", "file", "emptydir", "cache", "filedeep", "partial"):
            yield [t, kind]


def run_paths(case):
    t, kind = case
    T = TASKS[t]
    ds = T.data(T.names[0])
    with scratch() as d:
        p = d + "/c"
        if kind == "file":
            Path(p).write_text("x")
        elif kind == "filedeep":
            Path(p).write_text("x")
            p = p + "/sub"
        elif kind == "emptydir":
            os.mkdir(p)
        elif kind in ("cache", "partial"):
            T.build(ds[:1], LAYS["file"], p, T.FIELDS)
        before = snapshot(d)
        if kind in ("missing", "emptydir"):
            if kind == "missing":
                raises(FileNotFoundError, lambda: T.Evaluator.load(p), "load of a missing path")
            ev = T.build(ds, LAYS["file"], p, T.FIELDS)
            same(T, ev, ref(t, T.names[0], 3), f"cache created in {kind}")
            same(T, T.Evaluator.load(p), ref(t, T.names[0], 3), f"cache loaded from {kind}")
        elif kind == "file":
            raises(NotADirectoryError, lambda: T.Evaluator.load(p), "load of a file")
            raises(OSError, lambda: T.loader(LAYS["file"], p, T.FIELDS), "creation at a file")
            require(snapshot(d) == before, "a refused call changed the disk")
        elif kind == "filedeep":
            raises(OSError, lambda: T.loader(LAYS["file"], p, T.FIELDS), "creation below a file")
            require(snapshot(d) == before, "a refused call changed the disk")
        elif kind == "cache":
            raises(FileExistsError, lambda: T.loader(LAYS["big"], p, [("other", "int64")]), "creation over a cache with other fields")
            require(snapshot(d) == before, "a refused call changed the disk")
            same(T, T.Evaluator.load(p), ref(t, T.names[0], 1), "cache after a refused creation")
        elif kind == "partial":
            # two caches next to each other do not see each other
            ev2 = T.build(ds, LAYS["files"], d + "/c2", T.FIELDS)
            same(T, T.Evaluator.load(p), ref(t, T.names[0], 1), "first of two caches")
            same(T, ev2, ref(t, T.names[0], 3), "second of two caches")
        state(case)
        outcome(case)


FAMILIES = [
    Family("lifecycle", gen, run,
           "3 tasks x 5 layouts: every sequence of up to 5 (6) add / add nothing / add an unannotated datum / finalize calls; every sequence of up to 4 (5) "
           "add, finalize, reload, create again, filter onto itself, filter onto another cache, filter selecting nothing, filter without path"),
    Family("paths", gen_paths, run_paths, "creating and loading where nothing, a file, an empty directory, a cache or a neighbouring cache is"),
]
ASSUMPTIONS = ["what a persistent cache answers between adding data to a finalized loader and finalizing again is left open"]
