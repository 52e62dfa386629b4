"""X02: queries never change an evaluator."""
import copy
import itertools

from ..core import Family, outcome, require, scratch, state, step
from ..tasks import TASKS, do_filter
from ..util import close, diff, snapshot

LAYS = {"mem": {"k": "mem"}, "mem1": {"k": "mem", "b": 1}, "file": {"k": "file", "b": 2, "r": 4}, "files": {"k": "file", "b": 1, "r": 1}}
_ref = {}


def names(T):
    """every query, a filter of each kind followed by two queries on the result, and reloading."""
    return list(T.ops()) + [f"f{i}" for i in range(len(T.filters))] + ["load"]


def perform(T, ev, op, d, n, path, keep):
    """-> result of one operation (a comparable value)."""
    if op[0] == "f" and op[1:].isdigit():
        fe = do_filter(ev, T.filters[int(op[1:])], None if path is None else f"{d}/flt{n}")
        keep.append(fe)
        return T.observe(fe)
    if op == "load":
        if path is None:
            return None
        step()
        return T.observe(T.Evaluator.load(path))
    return T.ops()[op](ev)


def ref(t, name, op, lay):
    """The answer of the operation as the only call on a fresh evaluator."""
    k = (t, name, op, lay)
    if k not in _ref:
        T = TASKS[t]
        with scratch() as d:
            path = d + "/s" if LAYS[lay]["k"] == "file" else None
            ev = T.build(T.data(name), LAYS[lay], path, T.FIELDS)
            _ref[k] = perform(T, ev, op, d, 0, path, [])
    return _ref[k]


def run(case):
    t, name, lay, seq = case
    T = TASKS[t]
    with scratch() as d:
        path = d + "/s" if LAYS[lay]["k"] == "file" else None
        ev = T.build(T.data(name), LAYS[lay], path, T.FIELDS)
        snap = snapshot(path) if path else None
        results, keep = [], []
        for n, op in enumerate(seq):
            got = perform(T, ev, op, d, n, path, keep)
            want = ref(t, name, op, lay)
            if not close(got, want):
                require(False, f"{op} after {seq[:n]} answers differently than alone: " + "; ".join(diff(got, want)))
            results.append((op, got, copy.deepcopy(got)))
            state([t, name, lay, op])
        for op, got, was in results:
            require(close(got, was), f"the result of {op} changed after it was returned", seq=seq)
        # evaluators filtered on the way still answer as when they were made
        for fe, op in zip(keep, [o for o in seq if o[0] == "f" and o[1:].isdigit()]):
            got = T.observe(fe)
            if not close(got, ref(t, name, op, lay)):
                require(False, f"evaluator filtered by {op} changed: " + "; ".join(diff(got, ref(t, name, op, lay))))
        if path:
            require(snapshot(path) == snap, "files of the persisted cache changed", seq=seq)
    outcome([t, name, seq[-1]])


def gen(tier):
    q = tier == "quick"
    for t, T in TASKS.items():
        ops = names(T)
        for name in T.names[:2] if q else T.names:
            for lay in LAYS:
                o = [x for x in ops if x != "load" or lay.startswith("file")]
                if q and lay in ("mem1", "files") and name != T.names[0]:
                    continue
                for seq in itertools.product(o, repeat=2):
                    yield [t, name, lay, list(seq)]
                if lay == "mem" or (lay == "mem1" and not q):
                    for seq in itertools.product(o if not q else o[:: 2], repeat=3):
                        yield [t, name, lay, list(seq)]


# arguments are not modified, results are independent objects
def gen_args(tier):
    for t, T in TASKS.items():
        for name in T.names:
            for lay in ("mem", "file"):
                yield [t, name, lay]


def run_args(case):
    t, name, lay = case
    T = TASKS[t]
    with scratch() as d:
        ev = T.build(T.data(name), LAYS[lay], d + "/s", T.FIELDS)
        ref_ = T.observe(ev)
        calls = []
        if t == "cls":
            for ts in ([0.3, 0.0, 0.3], [0.9], [0.5, 0.1]):
                for hm in (True, False):
                    for m in ("compute_precision_recall", "compute_confusion_matrix", "compute_examples", "compute_confusion_matrix_with_examples"):
                        calls.append((m, dict(score_thresholds=ts, hardmax=hm)))
        elif t == "od":
            for ts in ([0.3, 0.0, 0.3], [0.9], [0.5, 0.1]):
                for m in ("compute_precision_recall", "compute_confusion_matrix", "compute_examples", "compute_confusion_matrix_with_examples"):
                    calls.append((m, dict(score_thresholds=ts, iou_thresholds=[0.6, 0.1])))
        else:
            calls.append(("compute_precision_recall_iou", {}))
        for m, kw in calls:
            was = copy.deepcopy(kw)
            step()
            res = getattr(ev, m)(**kw)
            require(kw == was, f"{m} changed its arguments", was=was, now=kw)
            # scribbling over a result must not reach the evaluator or later results
            first = flat(res)
            again = flat(getattr(ev, m)(**kw))
            scribble(res)
            third = flat(getattr(ev, m)(**kw))
            require(close(first, again) and close(again, third), f"{m}: repeated call differs", kw=was)
            state([t, m])
        require(close(T.observe(ev), ref_), "evaluator changed by the calls or by edits to returned results")
        i = ev.info
        if i.metadata_fields is not None:
            before = list(i.metadata_fields)
            require(list(ev.info.metadata_fields) == before, "metadata fields change between calls")
    outcome([t, name])


def flat(res):
    """JSON form of a result; metrics sorted (labels may be listed in any order)."""
    from ..core import dumps
    import json

    if isinstance(res, dict):
        return {str(getattr(k, "value", k)): sorted((dumps(m.to_dict()) for m in v)) for k, v in res.items()}
    return [json.loads(dumps(m.to_dict())) for m in res]


def scribble(res):
    for ms in (res.values() if isinstance(res, dict) else [res]):
        for m in ms:
            if isinstance(m.value, dict):
                for k in list(m.value):
                    m.value[k] = "scribble"
            m.parameters.clear()


FAMILIES = [
    Family("sequences", gen, run,
           "3 tasks x 2 (all) datasets x 4 layouts: every ordered pair of the queries (2 argument sets each), 3 filters and reload; "
           "every triple of half of them (all, thorough) in memory"),
    Family("arguments", gen_args, run_args, "every query with 1-3 threshold lists, repeated, arguments compared, results overwritten by the caller"),
]
ASSUMPTIONS = ["evaluators are used from one thread"]
