"""T03: any text at any step is scored as a well-formed answer or reported as invalid."""
import copy
import json

from .. import llm as L
from ..core import Family, outcome, require, state
from .t01 import qr_for
from .t02 import same


def base_script(metric):
    """A complete script with a score strictly inside the range where possible."""
    best = None
    for s, r in L.scripts(metric, qr_for(metric), [2]):
        if best is None or (0 < r[1] < 1):
            best = s
            if 0 < r[1] < 1:
                break
    return best


VALUES = [None, True, 0, 1, -1, 1.5, "", "yes", "no", "x", [], ["yes"], [1], [None], [[]], {}, {"a": 1},
          {"verdict": "yes", "analysis": "a"}, [{}], [{"verdict": "yes", "analysis": "a"}],
          [{"verdict": "yes", "analysis": "a"}] * 2, [{"verdict": "no", "analysis": "a"}] * 3, ["a", "b"], ["a", "b", "c"]]
VERDICTS = ["yes", "no", "idk", "Yes", "YES", " yes", "yes ", "yes.", "maybe", "", "true", None, True, 1, [], ["yes"], {}, {"yes": 1}]
KEYS = ["statements", "claims", "opinions", "verdicts", "Verdicts", "verdict", "TP", "tp", "FP", "FN", "", "analysis"]


def structural(o):
    """Every single edit of a JSON answer (parsed) from the edit alphabet."""
    yield o
    yield [o]
    yield {"result": o}
    for k in list(o):
        d = {x: v for x, v in o.items() if x != k}
        yield d
        for nk in KEYS:
            yield {(nk if x == k else x): v for x, v in o.items()}
        for v in VALUES:
            yield {**o, k: v}
        xs = o[k]
        for i in range(len(xs)):
            yield {**o, k: xs[:i] + xs[i + 1:]}
            yield {**o, k: xs[:i] + [xs[i]] + xs[i:]}
            for v in VALUES:
                yield {**o, k: xs[:i] + [v] + xs[i + 1:]}
            if isinstance(xs[i], dict):
                for f in list(xs[i]):
                    rest = {x: v for x, v in xs[i].items() if x != f}
                    yield {**o, k: xs[:i] + [rest] + xs[i + 1:]}
                    for nf in ("Verdict", "verdicts", "reason", "analysis", "verdict"):
                        yield {**o, k: xs[:i] + [{**rest, nf: xs[i][f]}] + xs[i + 1:]}
                yield {**o, k: xs[:i] + [{**xs[i], "extra": "z"}] + xs[i + 1:]}
                for v in VERDICTS:
                    yield {**o, k: xs[:i] + [{**xs[i], "verdict": v}] + xs[i + 1:]}
                for v in VERDICTS:
                    yield {**o, k: xs[:i] + [{**xs[i], "analysis": v}] + xs[i + 1:]}
        yield {**o, k: xs + ["extra"]}
        yield {**o, k: xs + [{"analysis": "more", "verdict": "yes"}]}
        yield {**o, k: []}
    for v in ("z", None, ["q"], 3):
        yield {**o, "comment": v}
    if set(o) == {"TP", "FP", "FN"}:
        for a in range(4):
            for b in range(4):
                for c in range(4):
                    yield {"TP": ["t"] * a, "FP": ["f"] * b, "FN": ["n"] * c}


PRE = ["", " ", "Sure! ", "```json\n", "Answer:\n\n", "\u00e9\u4e2d ", "] ", "\" ", "{", "} ", "{} ", "[{", "// {\n"]
POST = ["", " ", "\n```", " done.", "\n\n", "}", " }", "{", " {", " {}", "]", "\"", "\u0000"]
TEXTS = ["", " ", "yes", "no", "null", "[]", "{}", "{", "}", "}{", "{{}}", "{'verdicts': []}", "{\"verdicts\": [}",
         "verdicts: yes", "NaN", "{NaN}", "{\"a\": NaN}", "\ufeff{}", "{\u201cverdicts\u201d: []}", "{\"verdicts\": []} {\"verdicts\": []}",
         "{\"statements\": []}", "{\"claims\": []}", "{\"opinions\": []}", "{\"TP\": [], \"FP\": [], \"FN\": []}",
         "@deep", "@digits", "@bigfloat", "@surrogate"]
INTS = ["", " ", "one", "1", "5", "0", "6", "-1", "-5", "10", "15", "51", "05", "5.", "4.5", "0.5", "1e3", "+3", "- 3", "score: 3", "3/5",
        "Score 2 out of 5", "out of 5: 2", "-3 or 3", "rating=4!", "4\n", "\n\n4", "100", "3-4", "a1b", "#2", "@digits", "-@digits",
        "{\"score\": 4}", "[5]", "5" * 20, "1 2 3 4 5", "1,000", "five", "V", "--2", "2--", "1_0", "00", "000", "-0"]


def text_of(t):
    if t == "@deep":
        return '{"statements": ' + "[" * 100000 + "]" * 100000 + "}"
    if t == "@digits":
        return '{"statements": ' + "1" * 5000 + "}"
    if t == "-@digits":
        return "-" + "1" * 5000
    if t == "@bigfloat":
        return '{"verdicts": 1e999999}'
    if t == "@surrogate":
        return '{"statements": ["\\ud800", "b"], "claims": ["\\ud800", "b"], "opinions": ["\\udfff", "b"]}'
    return t


def edits(metric, step, tier):
    """Every edited answer text for one step."""
    a = base_script(metric)[step]
    if metric == "summary_coherence":
        yield from INTS
        return
    yield from TEXTS
    o = json.loads(a)
    seen = set()
    for e in structural(copy.deepcopy(o)):
        t = json.dumps(e)
        if t not in seen:
            seen.add(t)
            yield t
    for p in PRE:
        for s in POST:
            yield p + a + s
    for i in range(len(a)):  # every truncation, every lost character
        yield a[:i]
        yield a[:i] + a[i + 1:]
        yield a[i:]
        for ch in '{}[]",:x ':
            yield a[:i] + ch + a[i:]
            yield a[:i] + ch + a[i + 1:]
    yield json.dumps(o, indent=2)
    yield json.dumps(o, separators=(",", ":"))


def gen(tier):
    for m in L.METRICS:
        for j in range(len(base_script(m))):
            for t in edits(m, j, tier):
                for r in (0, 1):
                    yield [m, j, t, r]


def analysis_odd(t):
    """An analysis that is not a string: not documented either way."""
    try:
        o = json.loads(t[t.find("{"):t.rfind("}") + 1])
        return any(isinstance(x, dict) and "analysis" in x and not isinstance(x["analysis"], str) for x in o["verdicts"])
    except Exception:
        return False


def run(case):
    metric, j, t, r = case
    qr = qr_for(metric)
    base = base_script(metric)
    text = text_of(t)
    # the script goes on with well-formed answers of the right sizes
    script = base[:j] + [text]
    while True:
        try:
            exp, used, _ = L.predict(metric, qr, script, r)
            break
        except L.ScriptEnd as e:
            req = e.args[0]
            opts = list(L.answers_for(req, [2], f"S{len(script)}"))
            script = script + [opts[len(opts) // 2]]
    c = L.Client(script)
    got = L.call(L.evaluator(c, r), metric, qr)
    state([metric, j, exp])
    outcome([metric, j, got[0], str(got[1])[:80]])
    require(got[0] != "raise", "another exception surfaced for an LLM answer", metric=metric, step=j,
            answer=text[:300], got=repr(got)[:300])
    if analysis_odd(text):
        require(got[0] == "error" or (got[0] == exp[0] and same(got[1], exp[1])), "wrong score",
                metric=metric, answer=text[:300], expected=exp, got=got)
        return
    require(got[0] == exp[0], "malformed answer scored" if got[0] == "score" else "well-formed answer rejected",
            metric=metric, step=j, answer=text[:300], expected=exp, got=repr(got)[:300])
    if exp[0] == "score":
        require(same(got[1], exp[1]), "wrong score", metric=metric, answer=text[:300], expected=exp, got=got)
    require(len(c.calls) == used, "wrong number of LLM calls", metric=metric, expected=used, got=len(c.calls))


FAMILIES = [
    Family("edited answers", gen, run,
           "every metric x every question of it x every single edit of a well-formed answer: 24 replacement values at every "
           "position, key renames, missing/extra keys, 18 verdict values, lengths +-1, every truncation and character deletion "
           "and insertion/replacement of 9 characters, 13x13 surrounding texts, 28 fixed texts incl. 100000-deep "
           "nesting and 5000-digit numbers, 46 texts for summary coherence; retries 0 and 1"),
]
ASSUMPTIONS = ["an answer's JSON object spans from the first { to the last }",
               "a non-string 'analysis' may be accepted or rejected",
               "the summary coherence answer is the first run of ASCII digits with an optional minus sign"]
