"""T05: sentence BLEU against an independent implementation."""
import itertools
import math
from collections import Counter
from fractions import Fraction

from ..core import Family, outcome, require, state, step
from ..util import close


def tokens(text):
    """Period-free tokens: words, $amounts, other runs of non-space non-period characters."""
    out, i, n = [], 0, len(text)
    word = lambda ch: ch == "_" or ch.isalnum()
    while i < n:
        ch = text[i]
        if word(ch):
            j = i
            while j < n and word(text[j]):
                j += 1
        elif ch == "$" and i + 1 < n and text[i + 1].isdigit():
            j = i + 1
            while j < n and text[j].isdigit():
                j += 1
        elif ch.isspace() or ch == ".":
            i += 1
            continue
        else:
            j = i
            while j < n and not text[j].isspace() and text[j] != ".":
                j += 1
        out.append(text[i:j])
        i = j
    return out


def grams(t, n):
    return Counter(tuple(t[i:i + n]) for i in range(len(t) - n + 1))


def bleu(pred, refs, weights):
    h = tokens(pred)
    rs = [tokens(r) for r in refs]
    if not h:
        return 0.0
    logp = 0.0
    for n, w in enumerate(weights, start=1):
        g = grams(h, n)
        best = Counter()
        for r in rs:
            best |= grams(r, n)
        num = sum(min(c, best[x]) for x, c in g.items())
        if num == 0:
            if w == 0 and n > 1:
                continue
            return 0.0  # without any common word the score is 0 whatever the weights
        logp += w * math.log(Fraction(num, sum(g.values())))
    c = len(h)
    r = min((abs(len(x) - c), len(x)) for x in rs)[1]
    bp = 1.0 if c > r else math.exp(1 - r / c)
    return bp * math.exp(logp)


WEIGHTS = [[0.25] * 4, [1.0], [0.5, 0.5], [0.7, 0.3], [0.2] * 5, [0, 1.0], [0.5, 0, 0.5], [0.1, 0.2, 0.7], [0.2, 0.3]]


def compute(pred, refs, weights):
    from valor_lite.text_generation.annotation import Context, QueryResponse
    from valor_lite.text_generation.manager import Evaluator

    step()
    qr = QueryResponse(query="q", response=pred, context=Context(groundtruth=list(refs), prediction=["zz"]))
    w = list(weights)
    if w == [0.25] * 4 and len(pred) % 2:
        m = Evaluator.compute_sentence_bleu(qr)
    else:
        m = Evaluator.compute_sentence_bleu(qr, weights=w)
    d = m.to_dict()
    require(d["type"] == "BLEU" and d["parameters"] == {"weights": list(weights)}, "wrong metric envelope", got=d)
    require(w == list(weights) and qr.context.groundtruth == list(refs), "arguments changed")
    return d["value"]


def check(pred, refs, weights):
    exp = bleu(pred, refs, weights)
    got = compute(pred, refs, weights)
    state([round(exp, 9), len(refs)])
    outcome(round(got, 9))
    require(isinstance(got, float) and 0 <= got <= 1 + 1e-12, "score out of range", pred=pred, refs=refs, weights=weights, got=got)
    require(close(got, exp, 1e-9), "wrong BLEU score", pred=pred, refs=refs, weights=weights, expected=exp, got=got)
    require(not (exp == 0) or got == 0, "score should be 0", pred=pred, refs=refs, weights=weights, got=got)
    return got


def strs(alpha, lo, hi):
    for n in range(lo, hi + 1):
        for x in itertools.product(alpha, repeat=n):
            yield " ".join(x)


def gen(tier):
    q = tier == "quick"
    # everything up to renaming: the response starts with 'a'
    preds = list(strs("ab", 0, 5 if q else 6))
    refs = list(strs("ab", 0, 4 if q else 5))
    for p in preds:
        for r in refs:
            for wi in ((0, 2, 3) if q else range(len(WEIGHTS))):
                yield [p, [r], wi]


def run(case):
    p, rs, wi = case
    check(p, rs, WEIGHTS[wi])


def gen_multi(tier):
    q = tier == "quick"
    preds = list(strs("ab", 1, 3 if q else 4)) + ["a b c", "a b c d e", "b a b a b"]
    refs = list(strs("ab", 0, 3)) + ["a b c d", "c", "a b a b a b"]
    for p in preds:
        for rs in itertools.combinations_with_replacement(refs, 2):
            for wi in (1, 2):
                yield [p, list(rs), wi]
    small = ["", "a", "a b", "b a", "a a a", "a b a b a", "c"]
    for p in ("a", "a b", "a a b", "a b a b", "b"):
        for rs in itertools.combinations_with_replacement(small, 3):
            for wi in range(len(WEIGHTS)):
                yield [p, list(rs), wi]


def gen_position(tier):
    """n references of which one is the match (or the closest in length), at every position."""
    texts = ["x", "x y", "x y z w", "x y z w v u t"]
    for n in ((4, 5, 8, 12) if tier == "quick" else range(4, 20)):
        for pred, hit in (("a b c", "a b c"), ("a b c", "a b c d"), ("a a b", "a b"), ("a b c d e f", "a b c d e f g h")):
            for fill in texts:
                for i in range(n):
                    for wi in (0, 1, 2):
                        yield [pred, [fill] * i + [hit] + [fill] * (n - 1 - i), wi]
                    # counts clipped by the best of several references
                    yield [pred + " " + pred, [fill] * i + [hit, hit + " " + hit] + [fill] * (n - 2 - i), 1]


def gen_long(tier):
    """long texts: one word differs at each position; repeated words."""
    for n in ((12, 25) if tier == "quick" else (12, 25, 60, 130)):
        base = [f"w{i % (n // 2)}" for i in range(n)]
        for i in range(n):
            for alt in ("zz", base[0]):
                r = list(base)
                r[i] = alt
                for wi in ((0, 2, 4) if tier == "quick" else range(len(WEIGHTS))):
                    yield [" ".join(base), [" ".join(r)], wi]
            # references that agree up to word i / from word i on
            a, b, c = base, base[:i] + ["zz"] * (n - i), ["zz"] * i + base[i:]
            for rs in ((a, b), (b, a), (a, c), (c, a), (b, a, c), (b, c)):
                yield [" ".join(base), [" ".join(r) for r in rs], 0]
            yield [" ".join(base), [" ".join(base[:i + 1])], 0]
            yield [" ".join(base[:i + 1]), [" ".join(base)], 0]
            yield [" ".join(["a"] * (i + 1)), [" ".join(["a"] * n)], 1]
            yield [" ".join(["a"] * n), [" ".join(["a"] * (i + 1))], 1]


def run_multi(case):
    p, rs, wi = case
    vals = {round(check(p, list(o), WEIGHTS[wi]), 12) for o in set(itertools.permutations(rs))}
    require(len(vals) == 1, "score depends on the order of the references", case=case, got=sorted(vals))


def gen_tok(tier):
    alpha = ["a", ".", " ", "$", "1", "-"]
    n = 4 if tier == "quick" else 5
    texts = ["".join(x) for k in range(n + 1) for x in itertools.product(alpha, repeat=k)]
    for t in texts:
        for r in ("a", "a 1", "$1", "a - 1", "-a"):
            yield [t, [r], 1]
            yield [r, [t], 1]
    odd = ["A", "a", "a\tb", "a\nb", "a_b", "\u00e9t\u00e9", "$12.50", "$a", "3.14", "U.S.A.", "don't", "(a)", "a,b", "\u4e2d\u6587",
           "...", "a..b", "$$1", "1$", "a.b.", "a\u00a0b", "\u0661", "x" * 50]
    for a, b in itertools.product(odd, odd):
        for wi in (0, 1, 2):
            yield [a, [b], wi]
            yield [a + " " + b, [b + " " + a], wi]


def gen_err(tier):
    yield ["a", ["a"], "empty"]
    yield ["a", None, "nocontext"]


def run_err(case):
    from valor_lite.text_generation.annotation import Context, QueryResponse
    from valor_lite.text_generation.manager import Evaluator

    p, rs, kind = case
    qr = QueryResponse(query="q", response=p, context=None if rs is None else Context(groundtruth=rs))
    step()
    try:
        Evaluator.compute_sentence_bleu(qr, weights=[] if kind == "empty" else [1.0])
    except ValueError:
        state(kind)
        outcome(kind)
        return
    require(False, "must raise ValueError", case=case)


FAMILIES = [
    Family("one reference", gen, run,
           "every response of 0-5 (6) and reference of 0-4 (5) words over 2 words x 3 (9) weight vectors"),
    Family("many references", gen_multi, run_multi,
           "responses of 1-3 (4) words x every multiset of 2 of 18 references and of 3 of 7, in every order"),
    Family("positions", gen_position, run, "4-12 (19) references with the matching one at every position, 4 fillers x 4 matches x 3 weight vectors"),
    Family("long", gen_long, run, "texts of 12/25 (130) words: one word replaced at each position, every prefix, every repetition count; lists of 2-3 references that agree on every prefix or suffix"),
    Family("tokens", gen_tok, run, "every text of up to 4 (5) characters over {a . space $ 1 -} against 5 texts both ways; 22x22 odd texts"),
    Family("errors", gen_err, run_err, "empty weights, missing context"),
]
ASSUMPTIONS = ["weights are 0 or at least 0.1", "at least one reference is given"]
