"""X07: every reported metric is plain, finite, JSON-ready data with its own parameters."""
import itertools
import json

from .. import llm as L
from ..core import Family, outcome, require, scratch, state, step
from ..tasks import TASKS, do_filter
from ..util import expr
from . import c01, d02, s01

PLAIN = (str, int, float, bool, type(None))
# metrics whose value is a share
SHARES = {"Precision", "Recall", "F1", "Accuracy", "ROCAUC", "mROCAUC", "AP", "mAP", "APAveragedOverIOUs", "mAPAveragedOverIOUs", "AR", "mAR",
          "ARAveragedOverScores", "mARAveragedOverScores", "IOU", "mIOU", "AnswerCorrectness", "AnswerRelevance", "Bias", "ContextPrecision",
          "ContextRecall", "ContextRelevance", "Faithfulness", "Hallucination", "Toxicity", "BLEU", "ROUGE"}
EPS = 1e-9


def plain(x, where):
    """only dicts with string keys, lists, tuples and built-in scalars."""
    if isinstance(x, dict):
        for k, v in x.items():
            require(isinstance(k, str), "a key is not a string", where=where, key=repr(k))
            plain(v, where + "/" + k)
    elif isinstance(x, (list, tuple)):
        for v in x:
            plain(v, where + "[]")
    else:
        require(type(x) in PLAIN or (isinstance(x, str)), "not a built-in scalar", where=where, type=type(x).__name__)


def untuple(x):
    if isinstance(x, dict):
        return {k: untuple(v) for k, v in x.items()}
    return [untuple(v) for v in x] if isinstance(x, (list, tuple)) else x


def numbers(x):
    if isinstance(x, dict):
        for v in x.values():
            yield from numbers(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from numbers(v)
    elif isinstance(x, (int, float)):
        yield x


def examine(m, key=None):
    d = m.to_dict()
    require(set(d) == {"type", "value", "parameters"}, "unexpected parts", got=sorted(d))
    name = str(getattr(d["type"], "value", d["type"]))
    if key is not None:
        require(name == str(getattr(key, "value", key)), "metric listed under another type", type=name, key=str(key))
    plain(d["value"], name)
    plain(d["parameters"], name)
    try:
        text = json.dumps(d, allow_nan=False)
    except (TypeError, ValueError) as e:
        require(False, f"not JSON: {e}", metric=name, parameters=str(d["parameters"]))
    require(json.loads(text) == untuple({**d, "type": name}), "JSON round trip changes the metric", metric=name)
    if name in SHARES:
        require(isinstance(d["value"], float) or d["value"] in (0, 1), "a share is not a number", metric=name, value=repr(d["value"]))
        require(-EPS <= d["value"] <= 1 + EPS, "a share lies outside [0, 1]", metric=name, value=d["value"], parameters=str(d["parameters"]))
    elif name == "Counts":
        require(all(isinstance(v, int) and v >= 0 for v in d["value"].values()), "a count is not a natural number", value=str(d["value"]))
    elif name == "PrecisionRecallCurve":
        require(set(d["value"]) == {"precisions", "scores"} and all(len(v) == 101 for v in d["value"].values()), "not a 101-point curve")
        require(all(-EPS <= v <= 1 + EPS for v in d["value"]["precisions"]), "precision outside [0, 1]")
    else:
        require(all(v >= -EPS for v in numbers(d["value"])), "negative number in a report", metric=name)
    return name, d


def queries(t, ious, scores):
    if t == "cls":
        for m in ("compute_precision_recall", "compute_confusion_matrix", "compute_examples", "compute_confusion_matrix_with_examples"):
            for hm in (True, False):
                yield m, dict(score_thresholds=scores, hardmax=hm)
        yield "compute_rocauc", {}
    elif t == "od":
        for m in ("compute_precision_recall", "compute_confusion_matrix", "compute_examples", "compute_confusion_matrix_with_examples"):
            yield m, dict(iou_thresholds=ious, score_thresholds=scores)
    else:
        yield "compute_precision_recall_iou", {}


def check(t, ev, ious, scores, datums=None):
    for m, kw in queries(t, ious, scores):
        if datums is not None and m != "compute_rocauc":
            kw = dict(kw, datums=datums)
        step()
        res = getattr(ev, m)(**kw)
        seen = set()
        for key, ms in (res.items() if isinstance(res, dict) else [(None, res)]):
            for x in ms:
                name, d = examine(x, key)
                ident = json.dumps([name, d["parameters"], d["value"].get("datum_id") if name == "Examples" else None], sort_keys=True)
                require(ident not in seen, "two metrics of one type with the same parameters", query=m, metric=ident)
                seen.add(ident)
                for k, legal in (("score_threshold", scores), ("iou_threshold", ious)):
                    if k in d["parameters"]:
                        require(d["parameters"][k] in legal, "a threshold that was not asked for", query=m, got=d["parameters"])
                for k, legal in (("score_thresholds", scores), ("iou_thresholds", ious)):
                    if k in d["parameters"]:
                        require(list(d["parameters"][k]) == list(legal), "threshold list differs from the one asked for", got=str(d["parameters"]))
                if "hardmax" in d["parameters"]:
                    require(d["parameters"]["hardmax"] == kw["hardmax"], "hardmax flag differs from the one asked for")
                state([t, name, "label" in d["parameters"]])
        for key, per in (("score_threshold", scores), ("iou_threshold", ious)):
            # every threshold is reported
            have = {json.loads(s)[1].get(key) for s in seen} - {None}
            if have and m != "compute_examples":
                require(have == set(per), "not every requested threshold is reported", query=m, got=sorted(have), asked=list(per))


LAYS = {"mem": {"k": "mem"}, "mem1": {"k": "mem", "b": 1}, "files": {"k": "file", "b": 1, "r": 1}}
LISTS = [[0.5], [0.0, 0.3, 0.9], [0.9, 0.1], [1.0, 0.45]]


def gen(tier):
    q = tier == "quick"
    for t, T in TASKS.items():
        for name in T.names:
            for lay in LAYS:
                fs = [None] + list(range(len(T.filters)))
                ds = [None] + [["in", "datum_uid", [u]] for u in ("u0", "u1", "u3", "d0", "d1", "d3")][(0 if t == "cls" else 3):][:3] + [["eq", "datum_uid", "nobody"]]
                for a, b in (itertools.product(range(len(LISTS)), repeat=2) if t == "od" else [(0, i) for i in range(len(LISTS))]):
                    for f, fd in [(f, None) for f in fs] + [(None, x) for x in ds[1:]]:
                        if q and lay != "mem" and (a + b) % 3:
                            continue
                        yield [t, name, lay, a, b, f, fd]


def run(case):
    t, name, lay, a, b, f, fd = case
    T = TASKS[t]
    ious = [x for x in LISTS[a] if x > 0]
    with scratch() as d:
        ev = T.build(T.data(name), LAYS[lay], d + "/s", T.FIELDS)
        if f is not None:
            ev = do_filter(ev, T.filters[f], d + "/f" if lay == "files" else None)
        check(t, ev, ious, LISTS[b], None if fd is None else expr(fd))
    outcome([t, name, f, fd])


# degenerate datasets: one side only, perfect, nothing right
def gen_degenerate(tier):
    labs = "ab"
    for n in (1, 2):
        for d in itertools.product([(g, p, s) for g in labs for p in ("a", "b", "ab", "ba", "c") for s in ((0.0,), (0.5,), (1.0,))], repeat=n):
            if n == 2 and tier == "quick" and hash_(d) % 4:
                continue
            yield ["cls", [list(x) for x in d]]
    kinds = [(g, p) for g in range(3) for p in range(3) if g + p]
    for n in (1, 2, 3):
        for d in itertools.product(kinds, repeat=n):
            for same in (0, 1, 2):
                if n == 3 and tier == "quick" and (hash_(d) + same) % 5:
                    continue
                yield ["od", [list(x) for x in d], same]
    al = ("", "a", "b")
    for g in itertools.product(al, repeat=2):
        for p in itertools.product(al, repeat=2):
            if any(g + p):
                yield ["seg", [list(g), list(p)]]


def hash_(x):
    return sum(map(ord, repr(x)))


def run_degenerate(case):
    t = case[0]
    T = TASKS[t]
    if t == "cls":
        ds = [{"u": f"u{i}", "g": g, "p": list(p), "s": [s[0] / (k + 1) for k in range(len(p))]} for i, (g, p, s) in enumerate(case[1])]
    elif t == "od":
        box = lambda j, side: [20 * j, 20 * j + 10, 0, 10] if side == "g" or case[2] == 0 else [20 * j + (5 if case[2] == 1 else 12), 20 * j + (15 if case[2] == 1 else 18), 0, 10]
        ds = [{"u": f"d{i}", "g": [{"u": f"d{i}g{j}", "b": box(j, "g"), "l": "ab"[j]} for j in range(g)],
               "p": [{"u": f"d{i}p{j}", "b": box(j, "p"), "l": ["ac"[j]], "s": [0.5 * j]} for j in range(p)]} for i, (g, p) in enumerate(case[1])]
    else:
        ds = [s01.img("u0", [1, 2], *case[1])]
    ev = T.build(ds, {"k": "mem"}, None)
    for a, b in (([0.5], [0.5]), ([0.1, 1.0], [0.0, 1.0])):
        check(t, ev, a, b)
    outcome([t, len(str(case))])


def gen_scale(tier):
    for lay in ("mem", "mem1"):
        for n in (130, 300):
            yield ["cls", lay, {"n": n, "k": 3, "labels": n // 10, "w": 2}]
            yield ["cls", lay, {"n": n, "k": 3, "labels": 2, "w": 1}]
            for k in ("annotations", "datums"):
                yield ["od", lay, {"n": n, "kind": k}]
            for k in ("images", "masks"):
                yield ["seg", lay, {"n": n, "kind": k}]


def run_scale(case):
    t, lay, c = case
    T = TASKS[t]
    ds = {"cls": c01.scale_ds, "od": lambda x: d02.mk(d02.scale(x)), "seg": s01.scale_ds}[t](c)
    ts = [i / 20 for i in range(21)]
    check(t, T.build(ds, LAYS[lay], None), ts[1::4], ts)
    outcome([t, c])


# text generation
def gen_text(tier):
    for m in L.METRICS:
        for r in (0, 2):
            for n, g in ((1, 1), (2, 2), (3, 1)):
                yield [m, r, n, g]
    for g in (1, 2, 3):
        for w in ([1.0], [0.5, 0.5], [0.25] * 4):
            for resp in ("a b c", "a", "x y z", "a b c d e f"):
                yield ["bleu", w, resp, g]
                yield ["rouge", w, resp, g]


def run_text(case):
    from valor_lite.text_generation.manager import Evaluator
    from .t07 import install

    if case[0] in ("bleu", "rouge"):
        install()
        kind, w, resp, g = case
        qr = L.query_response(dict(query="q", response=resp, context=dict(groundtruth=["a b c", "a c", "x"][:g], prediction=["p"])))
        step()
        if kind == "bleu":
            res = [Evaluator().compute_sentence_bleu(qr, weights=w)]
        else:
            res = Evaluator().compute_rouge(qr)
        for x in res:
            name, d = examine(x)
            state([name])
        outcome([kind, resp, g])
        return
    m, r, n, g = case
    qr = L.make_qr(n, g)
    for k, (s, res) in enumerate(L.scripts(m, qr, [0, 2])):
        if k > 40:
            break

        class Client:
            model_name = L.MODEL

            def __init__(self, a):
                self.a = list(a)

            def __call__(self, messages):
                return self.a.pop(0)

        for script in (list(s), ["no answer"] * (r + 1)):
            step()
            x = getattr(Evaluator(client=Client(script), retries=r), "compute_" + m)(L.query_response(qr))
            name, d = examine(x)
            if m == "summary_coherence" and name != "Error":
                require(1 <= d["value"] <= 5, "coherence outside 1-5", got=d["value"])
            require(d["parameters"] == {"evaluator": L.MODEL, "retries": r}, "wrong parameters", got=d["parameters"])
            state([name, m])
    outcome(case)


FAMILIES = [
    Family("reports", gen, run, "3 tasks x all datasets x 3 layouts x every pair of 4 threshold lists x {all data, 3 filters, 3 datum selections, an empty selection}"),
    Family("degenerate", gen_degenerate, run_degenerate, "1-2 classifications over 2+1 labels (every 4th pair in quick), 1-3 detections of 0-2 ground truths and predictions, perfect / partial / no overlap (every 5th triple), every 2-pixel image"),
    Family("scale", gen_scale, run_scale, "130 and 300 datums, annotations, images or masks, 21 score and 5 IoU thresholds"),
    Family("text", gen_text, run_text, "10 LLM metrics x retries x contexts x up to 40 answer scripts and exhausted retries; BLEU and ROUGE"),
]
