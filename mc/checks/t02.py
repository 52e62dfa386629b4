"""T02: scores are the documented function of the verdicts."""
import re

from .. import llm as L
from ..core import Family, outcome, require, state
from ..util import close


def same(a, b):
    return close(float(a), float(b))


def check(metric, qr, script, retries=0):
    exp, used, _ = L.predict(metric, qr, script, retries)
    c = L.Client(script)
    ev = L.evaluator(c, retries)
    got = L.call(ev, metric, qr)
    state([metric, exp])
    outcome([metric, got[0], str(got[1])[:40]])
    if exp[0] == "needs":
        require(got[0] == "raise" and isinstance(got[1], ValueError),
                "missing context must raise ValueError", metric=metric, qr=qr, got=repr(got))
        return
    require(got[0] == "score", "no score for well-formed answers", metric=metric, got=repr(got), script=script)
    require(same(got[1], exp[1]), "wrong score", metric=metric, qr=qr, script=script, expected=exp[1], got=got[1])
    lo, hi = (1, 5) if metric == "summary_coherence" else (0, 1)
    require(lo <= got[1] <= hi, "score out of range", got=got[1])
    require(len(c.calls) == used, "LLM was asked another number of questions", metric=metric,
            expected=used, got=len(c.calls))


SINGLE = ["answer_relevance", "bias", "toxicity", "context_relevance", "faithfulness", "hallucination",
          "summary_coherence"]


def gen_single(tier):
    q = tier == "quick"
    sizes = list(range(7 if q else 9))
    for m in SINGLE:
        preds = range(8 if q else 11) if m in ("context_relevance", "hallucination") else (0, 1, 3)
        for n in preds:
            for dup in (False, True):
                qr = L.make_qr(n, 1, dup=dup)
                for s, _ in L.scripts(m, qr, sizes):
                    yield [m, qr, s]
        yield [m, L.make_qr(0, 0, context=False), [] if m in L.CONTEXT else next(L.scripts(m, L.make_qr(0, 0), [2]))[0]]


def gen_precision(tier):
    q = tier == "quick"
    for n in range(5):
        for g in range(4 if q else 4):
            if n * g > (9 if q else 12):
                continue
            qr = L.make_qr(n, g, dup=False)
            for s, _ in L.scripts("context_precision", qr, []):
                yield ["context_precision", qr, s]
    for n in (5, 6) if q else (5, 6, 7, 8):
        qr = L.make_qr(n, 1, dup=True)
        for s, _ in L.scripts("context_precision", qr, []):
            yield ["context_precision", qr, s]


def gen_recall(tier):
    q = tier == "quick"
    for n in (0, 1, 2):
        for g in range(4):
            sizes = range(5) if g <= 1 else range(4) if g == 2 else range(3)
            qr = L.make_qr(n, g, dup=n == 2)
            for s, _ in L.scripts("context_recall", qr, list(sizes)):
                yield ["context_recall", qr, s]


def gen_correct(tier):
    q = tier == "quick"
    for n in (0, 1):
        for g in range(4):
            sizes = range(5) if g <= 1 else range(4) if g == 2 else (range(2) if q else range(3))
            qr = L.make_qr(n, g)
            for s, _ in L.scripts("answer_correctness", qr, list(sizes)):
                yield ["answer_correctness", qr, s]


def gen_large(tier):
    q = tier == "quick"
    sizes = [9, 10, 11, 17, 33] if q else [8, 9, 10, 11, 12, 16, 17, 20, 33, 64, 65, 101]
    for m in SINGLE:
        if m == "summary_coherence":
            continue
        for n in (sizes if m in ("context_relevance", "hallucination") else [1]):
            for s, _ in L.thin_scripts(m, L.make_qr(n, 1), sizes, 0):
                yield [m, L.make_qr(n, 1), s]
    for n, g in ([(12, 1), (5, 6), (2, 11), (21, 3)] if q else [(12, 1), (5, 6), (2, 11), (21, 3), (40, 2), (3, 30)]):
        qr = L.make_qr(n, g)
        for free in range(g):
            for s, _ in L.thin_scripts("context_precision", qr, [], free):
                yield ["context_precision", qr, s]
    for m in ("context_recall", "answer_correctness"):
        for g in (1, 4, 6, 11):
            for size in ([3, 12] if q else [3, 4, 7, 12, 25]):
                qr = L.make_qr(2, g)
                for free in range(g):
                    for s, _ in L.thin_scripts(m, qr, [size], free):
                        yield [m, qr, s]


TEXTS = ["", " ", "x", "{}", "0"]


def gen_texts(tier):
    """the score is a function of the answers alone: empty and unusual queries, responses, contexts and extracted items."""
    for m in L.METRICS:
        for k, t in enumerate(TEXTS):
            for n, g in ((1, 1), (2, 1), (2, 2)):
                for where in ("query", "response", "prediction", "groundtruth", "all"):
                    qr = L.make_qr(n, g)
                    for w in ("query", "response"):
                        if where in (w, "all"):
                            qr[w] = t
                    for w in ("prediction", "groundtruth"):
                        if where in (w, "all"):
                            qr["context"][w] = [t] * len(qr["context"][w])
                    for i, (s, _) in enumerate(L.scripts(m, qr, [0, 2])):
                        if g < 2 or i % 5 == k:
                            yield [m, qr, s]
                            if where == "all":
                                yield [m, qr, [re.sub(r"S\d+ fact \d+", lambda _: t.replace("{", "(").replace("}", ")"), a) for a in s]]


def run(case):
    check(*case)


FAMILIES = [
    Family("share metrics", gen_single, run,
           "answer relevance, bias, toxicity, context relevance, faithfulness, hallucination, summary coherence: "
           "0-6 extracted items (8 thorough), 0-7 contexts (10 thorough), every assignment of allowed verdicts, "
           "distinct and repeated texts"),
    Family("context precision", gen_precision, run,
           "0-4 contexts x 0-3 ground truths (n*g<=9, 12 thorough), 5-6 contexts (8) with one, every verdict assignment"),
    Family("context recall", gen_recall, run,
           "0-2 contexts, 0-3 ground truths with 0-4/0-3/0-2 statements each, every verdict assignment"),
    Family("answer correctness", gen_correct, run,
           "0-1 contexts, 0-3 ground truths, 0-4/0-3/0-1 statements (0-2 thorough), every consistent TP/FP/FN split"),
    Family("texts", gen_texts, run, "every metric x 5 unusual texts (empty, blank, braces ...) as query, response, contexts, ground truths, extracted items or all of them"),
    Family("large", gen_large, run,
           "up to 33 (101) items / contexts and 11 (30) ground truths: uniform verdicts, every single deviation, every prefix, alternating; "
           "each ground truth in turn deviates"),
]
ASSUMPTIONS = ["the LLM is a scripted client; only its answers are the environment"]
