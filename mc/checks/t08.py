"""T08: compute_all reports, for every metric, what the metric alone reports."""
import itertools

from .. import llm as L
from ..core import Family, outcome, require, state, step
from .t01 import bad, valid_scripts, qr_for
from .t02 import same
from .t05 import bleu
from .t07 import install, rouge

ORDER = L.METRICS


class Router:
    """Answers each metric from its own script: the metric is recognised by the call being made, or by
    the question (as asked by the metric alone) where compute_all does not go through the metric's method."""

    def __init__(self, scripts, retries):
        self.scripts = {m: list(s) for m, s in scripts.items()}
        self.model_name = L.MODEL
        self.current = None
        self.asked = None
        self.retries = retries

    def find(self, messages):
        if self.asked is None:
            self.asked = {m: alone(m, s, self.retries) for m, s in self.scripts.items()}
        for m, qs in self.asked.items():
            k = len(qs) - len(self.scripts[m])
            if self.scripts[m] and 0 <= k < len(qs) and qs[k] == repr(messages):
                return m
        require(False, "a question no metric asks alone", messages=messages)

    def __call__(self, messages):
        m = self.current or self.find(messages)
        s = self.scripts[m]
        require(s, "metric asked more questions than alone", metric=m)
        a = s.pop(0)
        if isinstance(a, BaseException):
            raise a
        return a


def alone(m, script, retries):
    """the questions of one metric answered by this script."""
    from valor_lite.text_generation.manager import Evaluator

    asked, todo = [], list(script)

    class Client:
        model_name = L.MODEL

        def __call__(self, messages):
            asked.append(repr(messages))
            return todo.pop(0)
    getattr(Evaluator(client=Client(), retries=retries), "compute_" + m)(L.query_response(QR))
    return asked + [None] * len(todo)


QR = dict(query="QQ", response="a b c a", context=dict(groundtruth=["a b", "c a b"], prediction=["CTX0", "CTX1"]))


def scripts_for(m):
    seen = {}
    for s, r in L.scripts(m, QR, [2]):
        seen.setdefault(r[1], s)
        if len(seen) >= 3:
            break
    return list(seen.values())


KINDS = ["a", "b", "bad", "retry"]


def gen(tier):
    # every assignment in which at most two metrics differ from the plain success
    base = {m: "a" for m in ORDER}
    for r in (0, 1):
        kinds = [k for k in KINDS if not (k == "retry" and r == 0)]
        yield [r, base]
        for m in ORDER:
            for k in kinds[1:]:
                yield [r, {**base, m: k}]
        for m, n in itertools.combinations(ORDER, 2):
            for k, l in itertools.product(kinds[1:], repeat=2):
                yield [r, {**base, m: k, n: l}]
        for k in kinds:
            yield [r, {m: k for m in ORDER}]


WEIGHTS = [None, [1.0], [0.5, 0.5], [0.2] * 5, [0.1, 0.2, 0.7]]
TYPES = [None, ["rouge1"], ["rougeL", "rouge1"], ["rougeLsum", "rouge2"], ["rouge2", "rougeL", "rouge1", "rougeLsum"]]
TEXTS = [("a b c a", ["a b", "c a b"]), ("the cats were running home", ["the cat runs home", "cats"]),
         ("a b", ["x", "y", "a b", "z"]), ("a b c d e f", ["a b c d e f"]), ("a b c d e", ["a b c d e x", "e d c b a"])]


def gen_args(tier):
    for w, t, s, x in itertools.product(range(len(WEIGHTS)), range(len(TYPES)), (None, False, True), range(len(TEXTS))):
        yield {"w": w, "t": t, "s": s, "x": x}


def run_args(case):
    """the arguments of compute_all reach BLEU and ROUGE, which see every reference; defaults are those of the metrics alone."""
    from valor_lite.text_generation.manager import Evaluator

    install()
    resp, gts = TEXTS[case["x"]]
    kw = {}
    w, ty, stem = WEIGHTS[case["w"]], TYPES[case["t"]], case["s"]
    if w is not None:
        kw["bleu_weights"] = list(w)
    if ty is not None:
        kw["rouge_types"] = list(ty)
    if stem is not None:
        kw["rouge_use_stemmer"] = stem

    class Client:
        model_name = L.MODEL

        def __call__(self, messages):
            return "no answer"
    qr = dict(query="QQ", response=resp, context=dict(groundtruth=gts, prediction=["CTX0"]))
    for again in (0, 1):   # a second call is not affected by the first
        step()
        res = Evaluator(client=Client(), retries=0).compute_all(L.query_response(qr), **(kw if not again else {}))
        w2, ty2, st2 = (w, ty, stem) if not again else (None, None, None)
        w2, ty2 = w2 or [0.25] * 4, ty2 or ["rouge1", "rouge2", "rougeL", "rougeLsum"]
        got = {getattr(k, "value", k): [x.to_dict() for x in v] for k, v in res.items()}
        require(all(len(got[L.TYPE[m]]) == 1 and got[L.TYPE[m]][0]["type"] == "Error" for m in ORDER), "invalid answers scored", got=got)
        b = got["BLEU"]
        require(len(b) == 1 and same(b[0]["value"], bleu(resp, gts, w2)) and list(b[0]["parameters"]["weights"]) == w2, "wrong BLEU", weights=w2, got=b)
        require(sorted(d["parameters"]["rouge_type"] for d in got["ROUGE"]) == sorted(ty2), "not the requested ROUGE types", asked=ty2, got=got["ROUGE"])
        for d in got["ROUGE"]:
            t = d["parameters"]["rouge_type"]
            exp = max(rouge(t, resp, g, bool(st2)) for g in gts)
            require(same(d["value"], exp), "wrong ROUGE", rouge_type=t, stem=st2, expected=exp, got=d)
            require(d["parameters"].get("use_stemmer") == bool(st2), "wrong stemmer parameter", got=d)
        outcome([b[0]["value"], sorted((d["parameters"]["rouge_type"], d["value"]) for d in got["ROUGE"])])
    state(case)


def run(case):
    from valor_lite.text_generation.manager import Evaluator

    install()
    r, kinds = case
    scripts = {}
    for m in ORDER:
        v = scripts_for(m)
        k = kinds[m]
        scripts[m] = {"a": v[0], "b": v[-1], "bad": [bad(m, 0)] * (r + 1), "retry": [bad(m, 0)] + v[-1]}[k]
    router = Router(scripts, r)

    class Ev(Evaluator):
        pass

    for m in ORDER:
        def make(m):
            orig = getattr(Evaluator, "compute_" + m)

            def f(self, *a, **k):
                router.current = m
                try:
                    return orig(self, *a, **k)
                finally:
                    router.current = None
            return f
        setattr(Ev, "compute_" + m, make(m))
    ev = Ev(client=router, retries=r)
    step()
    res = ev.compute_all(L.query_response(QR), bleu_weights=[0.5, 0.5], rouge_types=["rougeL", "rouge1"], rouge_use_stemmer=False)
    got = {getattr(k, "value", k): [x.to_dict() for x in v] for k, v in res.items()}
    require(sorted(got) == sorted(list(L.TYPE.values()) + ["ROUGE", "BLEU"]), "not all metrics reported", got=sorted(got))
    for m in ORDER:
        exp, _, _ = L.predict(m, QR, scripts[m], r)
        state([m, exp])
        v = got[L.TYPE[m]]
        require(len(v) == 1, "not one result", metric=m, got=v)
        d = v[0]
        require(d["parameters"] == {"evaluator": L.MODEL, "retries": r}, "wrong parameters", got=d)
        if exp[0] == "error":
            require(d["type"] == "Error", "invalid answers scored", metric=m, got=d)
        else:
            require(d["type"] == L.TYPE[m] and same(d["value"], exp[1]), "wrong result", metric=m, expected=exp, got=d)
    b = got["BLEU"]
    require(len(b) == 1 and same(b[0]["value"], bleu(QR["response"], QR["context"]["groundtruth"], [0.5, 0.5]))
            and b[0]["parameters"] == {"weights": [0.5, 0.5]}, "wrong BLEU", got=b)
    rg = {d["parameters"]["rouge_type"]: d["value"] for d in got["ROUGE"]}
    exp = {t: max(rouge(t, QR["response"], g, False) for g in QR["context"]["groundtruth"]) for t in ("rougeL", "rouge1")}
    require(set(rg) == set(exp) and all(same(rg[t], exp[t]) for t in exp), "wrong ROUGE", expected=exp, got=rg)
    outcome({k: [str(d["value"])[:30] for d in v] for k, v in got.items()})


FAMILIES = [
    Family("all metrics", gen, run,
           "retries 0-1; every assignment of {two scores, exhausted, retried} to the ten LLM metrics in which at most two differ "
           "from plain success, and the uniform ones"),
    Family("arguments", gen_args, run_args,
           "5 BLEU weights x 5 ROUGE type lists x stemmer x 5 texts with 1-4 references, defaults included, and a plain call after each"),
]
ASSUMPTIONS = ["evaluate.load('rouge') is replaced by the same computation on the installed rouge_score"]
