"""Reference model of the ten LLM-guided text generation metrics.

The model of a metric is a protocol: a generator that yields one request per
LLM question and is sent the payload of a well-formed answer, and returns the
score.  `judge` decides independently of the code under test whether an answer
text is well-formed for a request.  `predict` runs the model against a script
(the sequence of answers the environment gives) with retries.
"""
import json
import re

METRICS = [
    "answer_correctness", "answer_relevance", "bias", "context_precision", "context_recall",
    "context_relevance", "faithfulness", "hallucination", "summary_coherence", "toxicity",
]
TYPE = {
    "answer_correctness": "AnswerCorrectness", "answer_relevance": "AnswerRelevance", "bias": "Bias",
    "context_precision": "ContextPrecision", "context_recall": "ContextRecall",
    "context_relevance": "ContextRelevance", "faithfulness": "Faithfulness",
    "hallucination": "Hallucination", "summary_coherence": "SummaryCoherence", "toxicity": "Toxicity",
}
CONTEXT = {"answer_correctness", "context_precision", "context_recall", "context_relevance",
           "faithfulness", "hallucination"}
MODEL = "some-model"
YN = ("yes", "no")


class Invalid(Exception):
    pass


class Needs(Exception):
    """The metric is not defined for this input (documented ValueError)."""


# ------------------------------------------------------------------ protocols
def share(vs):
    return sum(v == "yes" for v in vs) / len(vs)


def proto(metric, qr):
    """qr: {query, response, context: None | {groundtruth, prediction}}"""
    c = qr["context"]
    if metric in CONTEXT and not c:
        raise Needs()
    if metric == "answer_correctness":
        ps = yield dict(kind="list", key="statements", about=[qr["response"]])
        best = 0.0
        for g in c["groundtruth"]:
            gs = yield dict(kind="list", key="statements", about=[g])
            tp, fp, fn = yield dict(kind="tpfpfn", np=len(ps), ng=len(gs), about=[qr["query"]] + ps + gs)
            if tp:
                best = max(best, tp / (tp + 0.5 * (fp + fn)))
        return best
    if metric == "answer_relevance":
        ss = yield dict(kind="list", key="statements", about=[qr["response"]])
        vs = yield dict(kind="verdicts", n=len(ss), allowed=("yes", "no", "idk"), about=[qr["query"]] + ss)
        return share(vs) if vs else 0.0
    if metric in ("bias", "toxicity"):
        os_ = yield dict(kind="list", key="opinions", about=[qr["response"]])
        if not os_:
            return 0.0
        vs = yield dict(kind="verdicts", n=len(os_), allowed=YN, about=os_)
        return share(vs)
    if metric in ("context_precision", "context_recall"):
        pred, gts = c["prediction"], c["groundtruth"]
        if not pred and not gts:
            return 1.0
        if not pred or not gts:
            return 0.0
        if metric == "context_recall":
            best = 0.0
            for g in gts:
                gs = yield dict(kind="list", key="statements", about=[g])
                vs = yield dict(kind="verdicts", n=len(gs), allowed=YN, about=pred + gs)
                best = max(best, share(vs) if vs else 0.0)
            return best
        useful = [False] * len(pred)
        for g in gts:
            vs = yield dict(kind="verdicts", n=len(pred), allowed=YN, about=[qr["query"], g] + pred)
            useful = [u or v == "yes" for u, v in zip(useful, vs)]
        pk = [sum(useful[:k]) / k for k in range(1, len(pred) + 1) if useful[k - 1]]
        return sum(pk) / len(pk) if pk else 0.0
    if metric == "context_relevance":
        if not c["prediction"]:
            return 0.0
        vs = yield dict(kind="verdicts", n=len(c["prediction"]), allowed=YN, about=[qr["query"]] + c["prediction"])
        return share(vs)
    if metric == "faithfulness":
        if not c["prediction"]:
            return 0.0
        cl = yield dict(kind="list", key="claims", about=[qr["response"]])
        if not cl:
            return 1.0
        vs = yield dict(kind="verdicts", n=len(cl), allowed=YN, about=cl + c["prediction"])
        return share(vs)
    if metric == "hallucination":
        if not c["prediction"]:
            raise Needs()
        vs = yield dict(kind="verdicts", n=len(c["prediction"]), allowed=YN, about=[qr["response"]] + c["prediction"])
        return share(vs)
    if metric == "summary_coherence":
        n = yield dict(kind="int", about=[qr["query"], qr["response"]])
        return n
    raise KeyError(metric)


# ------------------------------------------------------------------ judge
def judge(req, text):
    """Payload of a well-formed answer, or Invalid."""
    if req["kind"] == "int":
        m = re.search(r"-?[0-9]+", text)
        if not m or m.group() not in {z + d for d in "12345" for z in ("", "0", "00")}:
            raise Invalid()
        return int(m.group())
    i, j = text.find("{"), text.rfind("}")
    if i < 0 or j < i:
        raise Invalid()
    try:
        o = json.loads(text[i:j + 1])
    except (ValueError, RecursionError):
        raise Invalid()
    if not isinstance(o, dict):
        raise Invalid()

    def strings(key):
        v = o.get(key)
        if not isinstance(v, list) or not all(isinstance(x, str) for x in v):
            raise Invalid()
        return v

    if req["kind"] == "list":
        return strings(req["key"])
    if req["kind"] == "tpfpfn":
        tp, fp, fn = (len(strings(k)) for k in ("TP", "FP", "FN"))
        if tp + fp != req["np"] or fn > req["ng"]:
            raise Invalid()
        return tp, fp, fn
    v = o.get("verdicts")
    if not isinstance(v, list) or len(v) != req["n"]:
        raise Invalid()
    out = []
    for x in v:
        if not isinstance(x, dict) or set(x) != {"verdict", "analysis"}:
            raise Invalid()
        if not isinstance(x["verdict"], str) or x["verdict"] not in req["allowed"]:
            raise Invalid()
        out.append(x["verdict"])
    return out


# ------------------------------------------------------------------ predict
class ScriptEnd(Exception):
    pass


def attempt(metric, qr, script, pos):
    """One attempt of the model. -> (result, pos, requests) with result
    ("score", v) | ("invalid",) | ("raise", i) | ("needs",)"""
    reqs = []
    try:
        p = proto(metric, qr)
        req = next(p)
    except StopIteration as e:
        return ("score", e.value), pos, reqs
    except Needs:
        return ("needs",), pos, reqs
    while True:
        reqs.append(req)
        if pos >= len(script):
            raise ScriptEnd(req)
        a = script[pos]
        pos += 1
        if isinstance(a, BaseException):
            return ("raise", pos - 1), pos, reqs
        try:
            payload = judge(req, a)
        except Invalid:
            return ("invalid",), pos, reqs
        try:
            req = p.send(payload)
        except StopIteration as e:
            return ("score", e.value), pos, reqs


def predict(metric, qr, script, retries, pos=0, is_invalid=lambda e: False):
    """-> (result, calls used, requests)"""
    reqs = []
    for _ in range(1 + retries):
        r, pos, rq = attempt(metric, qr, script, pos)
        reqs += rq
        if r[0] == "raise" and is_invalid(script[r[1]]):
            r = ("invalid",)
        if r[0] != "invalid":
            return r, pos, reqs
    return ("error",), pos, reqs


# ------------------------------------------------------------------ driving the code
class Client:
    def __init__(self, script, model_name=MODEL):
        self.script = script
        self.model_name = model_name
        self.calls = []

    def __call__(self, messages):
        self.calls.append([dict(m) for m in messages])
        i = len(self.calls) - 1
        if i >= len(self.script):
            raise AssertionError(f"LLM called {i + 1} times, the model expects {len(self.script)}")
        a = self.script[i]
        if isinstance(a, BaseException):
            raise a
        return a


def query_response(qr):
    from valor_lite.text_generation.annotation import Context, QueryResponse

    c = qr["context"]
    return QueryResponse(
        query=qr["query"], response=qr["response"],
        context=None if c is None else Context(groundtruth=list(c["groundtruth"]), prediction=list(c["prediction"])),
    )


def evaluator(client, retries=0, prompt=None):
    from valor_lite.text_generation.manager import Evaluator

    kw = {} if prompt is None else dict(default_system_prompt=prompt)
    return Evaluator(client=client, retries=retries, **kw)


def call(ev, metric, qr, kept=False):
    """-> ("score", value) | ("error",) | ("raise", exception) after checking the envelope."""
    from .core import require, step

    step()
    given = query_response(qr)
    try:
        m = getattr(ev, "compute_" + metric)(given)
    except BaseException as e:
        if type(e).__name__ == "CaseTimeout":
            raise
        return "raise", e
    if kept:
        require(given == query_response(qr), "the query, response or context was changed by the call", metric=metric, got=repr(given)[:300])
    d = m.to_dict()
    require(set(d) == {"type", "value", "parameters"}, "unexpected metric layout", got=d)
    require(d["parameters"] == {"evaluator": ev.client.model_name, "retries": ev.retries},
            "metric does not carry the model and the retries", metric=metric, got=d)
    if d["type"] == "Error":
        v = d["value"]
        require(isinstance(v, dict) and v.get("type") == "InvalidLLMResponseError"
                and isinstance(v.get("message"), str) and v["message"],
                "error metric does not name the invalid response", got=d)
        return "error", v["message"]
    require(d["type"] == TYPE[metric], "metric of another type returned", metric=metric, got=d)
    require(isinstance(d["value"], (int, float)) and not isinstance(d["value"], bool),
            "score is not a number", got=d)
    return "score", d["value"]


# ------------------------------------------------------------------ answers
def J(o):
    return json.dumps(o)


def list_answer(key, items):
    return J({key: list(items)})


def verdict_answer(vs):
    return J({"verdicts": [{"analysis": f"because {i}", "verdict": v} for i, v in enumerate(vs)]})


def tp_answer(tp, fp, fn):
    return J({"TP": ["t"] * tp, "FP": ["f"] * fp, "FN": ["n"] * fn})


def answers_for(req, sizes, toks):
    """Every well-formed answer to a request (list sizes from `sizes`)."""
    import itertools

    k = req["kind"]
    if k == "int":
        for n in range(1, 6):
            yield str(n)
    elif k == "list":
        for n in sizes:
            # statements repeat for n == 3: duplicates must not be merged
            items = [f"{toks} fact {i if n < 3 else i // 2}" for i in range(n)]
            yield list_answer(req["key"], items)
    elif k == "tpfpfn":
        for tp in range(req["np"] + 1):
            for fn in range(req["ng"] + 1):
                yield tp_answer(tp, req["np"] - tp, fn)
    else:
        for vs in itertools.product(req["allowed"], repeat=req["n"]):
            yield verdict_answer(vs)


def thin_answers(req, sizes, toks, last):
    """For large requests: uniform verdicts, every single deviation, every prefix; uniform only when
    more questions follow."""
    k = req["kind"]
    if k == "int":
        yield "3"
    elif k == "list":
        for n in sizes:
            yield list_answer(req["key"], [f"{toks} fact {i}" for i in range(n)])
    elif k == "tpfpfn":
        n, g = req["np"], req["ng"]
        for tp in sorted({0, 1, n // 2, n - 1, n} & set(range(n + 1))):
            for fn in sorted({0, 1, g // 2, g} & set(range(g + 1))):
                yield tp_answer(tp, n - tp, fn)
    else:
        n, al = req["n"], req["allowed"]
        seen = set()
        for a in al:
            for b in al:
                cand = [[a] * n] + ([[a] * i + [b] + [a] * (n - i - 1) for i in range(n)] + [[a] * i + [b] * (n - i) for i in range(n)]
                                    + [[(a, b)[i % 2] for i in range(n)]] if last else [[a] * (n - 1) + [b]] if n else [])
                for c in cand:
                    if tuple(c) not in seen:
                        seen.add(tuple(c))
                        yield verdict_answer(c)


def thin_scripts(metric, qr, sizes, free):
    """Scripts for large requests; only the `free`-th verdict question ranges over every deviation, the
    others are answered by the first / last uniform answer."""
    stack = [([], 0)]
    while stack:
        s, k = stack.pop()
        try:
            r, pos, _ = attempt(metric, qr, s, 0)
        except ScriptEnd as e:
            req = e.args[0]
            v = req["kind"] in ("verdicts", "tpfpfn")
            an = list(thin_answers(req, sizes, f"S{len(s)}", True))
            if v and k != free:
                an = an[:1] if (k + free) % 3 == 0 else [a for a in an if a not in an[:1]][-1:] or an[:1]
            stack.extend((s + [a], k + v) for a in reversed(an))
            continue
        yield s, r


def scripts(metric, qr, sizes):
    """Every complete script of well-formed answers for a single attempt."""
    stack = [[]]
    while stack:
        s = stack.pop()
        try:
            r, pos, _ = attempt(metric, qr, s, 0)
        except ScriptEnd as e:
            req = e.args[0]
            stack.extend(s + [a] for a in reversed(list(answers_for(req, sizes, f"S{len(s)}"))))
            continue
        yield s, r


def make_qr(npred, ngt, context=True, dup=False):
    pred = [f"CTX{0 if dup else i} retrieved" for i in range(npred)]
    gts = [f"GT{0 if dup else i} reference" for i in range(ngt)]
    return dict(query="QQ what is it", response="RR this is it",
                context=dict(groundtruth=gts, prediction=pred) if context else None)
