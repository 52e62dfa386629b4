"""T07: ROUGE scores: best reference, per requested type."""
import itertools
from collections import Counter

from ..core import Family, outcome, require, state, step
from ..util import close

TYPES = ["rouge1", "rouge2", "rougeL", "rougeLsum"]


# ---- the environment: what evaluate's "rouge" metric does, on top of rouge_score
class Rouge:
    def compute(self, *, predictions, references, rouge_types=None, use_aggregator=True, use_stemmer=False, tokenizer=None):
        from rouge_score import rouge_scorer

        multi = isinstance(references[0], list)
        sc = rouge_scorer.RougeScorer(rouge_types=rouge_types or TYPES, use_stemmer=use_stemmer)
        best = lambda rs, p: {t: max((sc.score(r, p)[t] for r in rs), key=lambda s: s.fmeasure) for t in sc.rouge_types}
        rows = [best(r, p) if multi else sc.score(r, p) for r, p in zip(references, predictions)]
        out = {t: [row[t].fmeasure for row in rows] for t in rows[0]}
        if use_aggregator:
            return {t: sum(v) / len(v) for t, v in out.items()}
        return out


def install():
    import evaluate

    def load(name, *a, **k):
        if name != "rouge":
            raise FileNotFoundError(name)
        return Rouge()

    evaluate.load = load


# ---- the oracle
def lcs(a, b):
    row = [0] * (len(b) + 1)
    for x in a:
        prev = 0
        for j, y in enumerate(b, 1):
            cur = row[j]
            row[j] = prev + 1 if x == y else max(row[j], row[j - 1])
            prev = cur
    return row[-1]


def fmeasure(match, ng, np):
    p, r = match / max(np, 1), match / max(ng, 1)
    return 2 * p * r / (p + r) if p + r else 0.0


def stem(ws):
    from nltk.stem import porter

    s = porter.PorterStemmer()
    return [s.stem(w) if len(w) > 3 else w for w in ws]


def rouge(t, pred, ref, st):
    p, g = pred.lower().split(), ref.lower().split()
    if st:
        p, g = stem(p), stem(g)
    if t in ("rougeL", "rougeLsum"):
        if not p or not g:
            return 0.0
        return fmeasure(lcs(g, p), len(g), len(p))
    n = int(t[-1])
    pg = Counter(zip(*[p[i:] for i in range(n)]))
    gg = Counter(zip(*[g[i:] for i in range(n)]))
    return fmeasure(sum((pg & gg).values()), sum(gg.values()), sum(pg.values()))


def strs(lo, hi):
    for n in range(lo, hi + 1):
        for x in itertools.product("ab", repeat=n):
            yield " ".join(x)


WORDS = ["running dogs", "run dog", "the cats run", "cat", "Running DOG"]


def gen(tier):
    q = tier == "quick"
    refs = list(strs(0, 2)) + ["a b a", "b a b a", "c"]
    for p in strs(0, 3 if q else 4):
        for r in refs:
            yield [p, [r], None, False]
        for rs in itertools.product(refs, repeat=2):
            yield [p, list(rs), None, False]
    for p in ("a", "a b", "a b a"):
        for rs in itertools.product(["", "a", "b a", "a b a b"], repeat=3):
            yield [p, list(rs), None, False]
    for p, r, r2 in itertools.product(WORDS, WORDS, WORDS):
        for st in (False, True):
            yield [p, [r, r2], None, st]
    for k in range(1, 4 + 1):
        for ts in itertools.permutations(TYPES, k):
            yield ["a b a", ["b a", "a a b"], list(ts), False]
            yield ["running dogs run", ["run dogs", "dog running"], list(ts), True]


def gen_position(tier):
    for n in ((4, 5, 8, 12) if tier == "quick" else range(4, 20)):
        for pred, hit in (("a b a", "a b a"), ("a b c", "b c"), ("a", "a c")):
            for fill in ("", "c", "c a"):
                for i in range(n):
                    yield [pred, [fill] * i + [hit] + [fill] * (n - 1 - i), None, False]
    for n in (12, 40):
        base = [f"w{i % (n // 2)}" for i in range(n)]
        for i in range(n):
            r = list(base)
            r[i] = "zz"
            yield [" ".join(base), [" ".join(r)], None, False]
            yield [" ".join(base), [" ".join(base[:i + 1])], None, False]
            yield [" ".join(base[:i + 1]), [" ".join(base), "zz"], None, False]
            if i % (1 if n < 40 or tier != "quick" else 3) == 0:   # references that agree up to word i / from word i on
                a, b, c = base, base[:i] + ["zz"] * (n - i), ["zz"] * i + base[i:]
                for rs in ((a, b), (b, a), (a, c), (c, a), (b, a, c)):
                    yield [" ".join(base), [" ".join(r) for r in rs], None, False]
                    yield [" ".join(base), [" ".join(r).upper() if k else " ".join(r) for k, r in enumerate(rs)], None, False]


def run(case):
    from valor_lite.text_generation.annotation import Context, QueryResponse
    from valor_lite.text_generation.manager import Evaluator

    install()
    pred, refs, types, st = case
    qr = QueryResponse(query="zz", response=pred, context=Context(groundtruth=list(refs), prediction=["a b"]))
    kw = {} if types is None else dict(rouge_types=list(types))
    if st:
        kw["use_stemmer"] = True
    step()
    ms = [m.to_dict() for m in Evaluator.compute_rouge(qr, **kw)]
    want = types or TYPES
    got = {}
    for d in ms:
        require(d["type"] == "ROUGE" and d["parameters"].get("use_stemmer") == st, "wrong metric envelope", got=d)
        require(d["parameters"]["rouge_type"] not in got, "type reported twice", got=ms)
        got[d["parameters"]["rouge_type"]] = d["value"]
    require(sorted(got) == sorted(want), "not one metric per requested type", expected=want, got=sorted(got))
    exp = {t: max(rouge(t, pred, r, st) for r in refs) for t in want}
    state(exp)
    outcome({k: round(v, 9) for k, v in got.items()})
    for t in want:
        require(0 <= got[t] <= 1 and close(float(got[t]), float(exp[t])), "wrong ROUGE score", case=case, type=t,
                expected=exp[t], got=got[t])


FAMILIES = [
    Family("rouge", gen, run,
           "responses of 0-3 (4) words over 2 words x every list of 1-2 of 10 references and of 3 of 4, every ordered selection of "
           "types, stemmer on/off over 5 inflected texts"),
    Family("positions", gen_position, run, "4-12 (19) references with the best one at every position; texts of 12/40 words with every single deviation and prefix; lists of 2-3 such references that agree on every prefix or suffix, with and without upper case"),
]
ASSUMPTIONS = ["evaluate.load('rouge') needs the network: it is replaced by the same computation on the installed rouge_score",
               "texts are plain words, where tokenisation is splitting at spaces"]
