"""T01: retry protocol of every LLM-guided metric."""
import itertools

from .. import llm as L
from ..core import Family, outcome, require, state
from .t02 import same


class Odd(Exception):
    pass


EXC = ["ValueError", "TypeError", "KeyError", "RuntimeError", "TimeoutError", "Odd", "JSONDecodeError",
       "RecursionError", "StopIteration", "KeyboardInterrupt", "Invalid"]


def make_exc(name):
    if name == "Odd":
        return Odd("odd")
    if name == "JSONDecodeError":
        import json

        return json.JSONDecodeError("m", "doc", 0)
    if name == "Invalid":
        from valor_lite.text_generation.llm.exceptions import InvalidLLMResponseError

        return InvalidLLMResponseError("client says invalid")
    import builtins

    return getattr(builtins, name)("boom")


def qr_for(metric):
    return L.make_qr(2, 2 if metric in ("context_precision", "answer_correctness", "context_recall") else 1)


_valid = {}


def valid_scripts(metric):
    """Two complete scripts with different scores."""
    if metric not in _valid:
        seen = {}
        for s, r in L.scripts(metric, qr_for(metric), [2]):
            seen.setdefault(r[1], s)
            if len(seen) >= 3:
                break
        _valid[metric] = list(seen.values())[:3]
    return _valid[metric]


BAD = ["no json here", "{}", '{"statements": 3, "claims": 3, "opinions": 3, "verdicts": 3, "TP": 3, "FP": 3, "FN": 3}']


def bad(metric, j, kind=0):
    return "no number" if metric == "summary_coherence" and kind == 0 else "7" if metric == "summary_coherence" else BAD[kind]


def expand(metric, word):
    """word: list of attempts [kind, ...] -> script"""
    out = []
    for a in word:
        v = valid_scripts(metric)
        if a[0] == "ok":
            out += v[a[1]]
        elif a[0] == "bad":
            out += v[0][:a[1]] + [bad(metric, a[1], a[2])]
        else:
            out += v[0][:a[1]] + [make_exc(a[2])]
    return out


def words(metric, retries, excs, bads):
    n = len(valid_scripts(metric)[0])
    inv = [["bad", j, k] for j in range(n) for k in bads]
    ends = [["ok", i] for i in range(len(valid_scripts(metric)))] + [["raise", j, e] for j in range(n) for e in excs]
    for k in range(retries + 1):
        for pre in itertools.product(inv, repeat=k):
            for e in ends:
                yield list(pre) + [e]
    for pre in itertools.product(inv, repeat=retries + 1):
        yield list(pre)


def gen(tier):
    q = tier == "quick"
    for m in L.METRICS:
        n = len(valid_scripts(m)[0])
        for r in range(4 if q else 5):
            excs = EXC if r <= 1 else ["ValueError", "Odd"]
            bads = range(3) if (r == 0 or n == 1) else range(2) if n == 2 else range(1)
            if n >= 4 and r == 3 and q:
                excs = ["Odd"]
            if n == 1 and r == 4:
                bads = range(2)
            if n > 2 and r == 4:
                continue
            for w in words(m, r, excs, bads):
                # a client raising the invalid-response error itself is one more invalid attempt
                if any(a[0] == "raise" and a[2] == "Invalid" for a in w[:-1]):
                    continue
                yield [m, r, w]


def run_one(ev, c, metric, qr, script, retries):
    inv = lambda e: type(e).__name__ == "InvalidLLMResponseError"
    exp, used, _ = L.predict(metric, qr, script, retries, is_invalid=inv)
    c.script, c.calls = script, []
    got = L.call(ev, metric, qr)
    state([metric, exp[0], used, retries])
    outcome([metric, got[0], str(got[1])[:60], len(c.calls)])
    if exp[0] == "raise":
        require(got[0] == "raise" and got[1] is script[exp[1]],
                "client exception did not propagate unchanged", metric=metric, retries=retries,
                expected=repr(script[exp[1]]), got=repr(got))
    else:
        require(got[0] == exp[0], "wrong kind of result", metric=metric, retries=retries,
                script=[repr(s) for s in script], expected=exp, got=repr(got))
        if exp[0] == "score":
            require(same(got[1], exp[1]), "not the score of the first successful attempt",
                    metric=metric, expected=exp, got=got)
    require(len(c.calls) == used, "wrong number of LLM calls", metric=metric, retries=retries,
            expected=used, got=len(c.calls))


def run(case):
    metric, retries, word = case
    qr = qr_for(metric)
    script = expand(metric, word)
    if word[-1][0] == "raise" and word[-1][2] == "Invalid":
        # completed below by valid answers for the attempts that follow
        script = script + valid_scripts(metric)[0]
    c = L.Client(script)
    run_one(L.evaluator(c, retries), c, metric, qr, script, retries)


def gen_long(tier):
    """larger retry budgets: invalid everywhere, then success / exception at every attempt, or exhausted."""
    for m in L.METRICS:
        n = len(valid_scripts(m)[0])
        for r in ((5, 8, 12) if tier == "quick" else (4, 5, 6, 7, 8, 10, 12, 16, 25, 40)):
            for k in range(r + 2):
                for j in range(n):
                    pre = [["bad", (i + j) % n, 0] for i in range(k)]
                    if k == r + 1:
                        yield [m, r, pre]
                    else:
                        yield [m, r, pre + [["ok", j % len(valid_scripts(m))]]]
                        yield [m, r, pre + [["raise", j, "Odd"]]]


# two metric calls on one evaluator: nothing carries over
def gen_pair(tier):
    ms = L.METRICS
    for a, b in itertools.product(ms, ms):
        for r in (0, 1, 2):
            kinds = [[["ok", 0]], [["bad", 0, 0]] * (r + 1), [["raise", 0, "Odd"]]] + ([[["bad", 0, 0], ["ok", 1]]] if r else [])
            for x, y in itertools.product(kinds, kinds):
                yield [r, [a, x], [b, y]]


def run_pair(case):
    r, *calls = case
    c = L.Client([])
    ev = L.evaluator(c, r)
    for m, w in calls:
        run_one(ev, c, m, qr_for(m), expand(m, w), r)
        require(ev.retries == r and ev.client is c, "evaluator changed by a metric call")


def gen_client(tier):
    for m in L.METRICS:
        for r in (0, 2):
            for kind in ("none", "noname", "nullname"):
                for ctx in (True, False):
                    yield [m, r, kind, ctx]


def run_client(case):
    m, r, kind, ctx = case
    qr = L.make_qr(2, 1, context=ctx)
    calls = []

    class Bare:
        def __call__(self, messages):
            calls.append(messages)
            return "{}"

    cl = None if kind == "none" else Bare()
    if kind == "nullname":
        cl.model_name = None
    from valor_lite.text_generation.manager import Evaluator

    ev = Evaluator(client=cl, retries=r)
    want = ValueError if kind == "none" else AttributeError
    try:
        got = getattr(ev, "compute_" + m)(L.query_response(qr))
    except Exception as e:
        got = e
    outcome([m, kind, repr(got)])
    state([m, kind])
    require(isinstance(got, want) and not calls, "evaluator without a usable client must raise", metric=m,
            kind=kind, got=repr(got), calls=len(calls))


FAMILIES = [
    Family("retries", gen, run,
           "every metric, retries 0-3 (4 thorough), every word of attempts over {invalid at each step (1-3 ways), "
           "success with each of up to 3 scores, client exception of up to 11 kinds at each step}"),
    Family("many-retries", gen_long, run, "every metric, retries 5/8/12 (up to 40), k invalid attempts (at rotating steps) then success / exception, every k; or exhausted"),
    Family("reuse", gen_pair, run_pair,
           "every ordered pair of metrics on one evaluator, retries 0-2, every pair of {success, exhausted, exception, retried}"),
    Family("client", gen_client, run_client, "missing client / model name x metric x retries x context"),
]
ASSUMPTIONS = ["client exceptions: 10 types incl. KeyboardInterrupt and the invalid-response error itself"]
