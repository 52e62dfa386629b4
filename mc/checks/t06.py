"""T06: each LLM question carries exactly the inputs the metric is defined over."""
import itertools

from .. import llm as L
from ..core import Family, outcome, require, state

ODD = ["", " {braces} %s %(x)d", " 'single' \"double\"", " \\ back$lash", " \u00e9\u4e2d", " start" + " lorem ipsum" * 500 + " end", " \n\t", "\r\n", "\u00a0"]
LEAD = {6: "  \n", 7: "\t", 8: "\u00a0"}  # blank space around a text belongs to it


def qr_of(npred, ngt, odd):
    o, p = ODD[odd], LEAD.get(odd, "")
    return dict(query=p + "zQUERYz" + o, response=p + "zRESPONSEz" + o,
                context=dict(groundtruth=[f"{p}zGT{i}z" + o for i in range(ngt)],
                             prediction=[f"{p}zCTX{i}z" + o for i in range(npred)]))


def tokens(qr):
    return ["zQUERYz", "zRESPONSEz"] + [f"zGT{i}z" for i in range(len(qr["context"]["groundtruth"]))] + \
        [f"zCTX{i}z" for i in range(len(qr["context"]["prediction"]))]


def find(text, s):
    """Position of s in the prompt, raw or as it is written inside a Python/JSON list."""
    import json

    for v in (s, repr(s)[1:-1], json.dumps(s)[1:-1], json.dumps(s, ensure_ascii=False)[1:-1]):
        if v in text:
            return text.index(v)
    return -1


def gen(tier):
    q = tier == "quick"
    for m in L.METRICS:
        for npred, ngt in itertools.product((1, 2, 3) if q else (1, 2, 3, 4), (1, 2)):
            seen = set()
            for s, _ in L.scripts(m, qr_of(npred, ngt, 0), [1, 2] if ngt == 2 else [0, 1, 2, 3]):
                # verdicts never enter later prompts; the extracted items do: one script per choice of items
                sig = tuple(a for a in s if "verdict" not in a and "TP" not in a)
                if sig in seen:
                    continue
                seen.add(sig)
                for odd in range(len(ODD)):
                    for prompt in (None, "zSYSz {x}", " \nzSYSz\n "):
                        yield [m, npred, ngt, odd, s, prompt]


def run(case):
    m, npred, ngt, odd, script, prompt = case
    qr = qr_of(npred, ngt, odd)
    if odd:
        script = [a.replace(" fact ", " fact {y} %d ") for a in script]
    exp, used, reqs = L.predict(m, qr, script, 0)
    c = L.Client(script)
    L.call(L.evaluator(c, 0, prompt), m, qr, kept=True)
    require(len(c.calls) == used, "wrong number of LLM calls", expected=used, got=len(c.calls))
    for req, msgs in zip(reqs, c.calls):
        require(len(msgs) >= 2 and all(set(x) == {"role", "content"} and isinstance(x["content"], str) for x in msgs),
                "messages are not role/content pairs", got=msgs)
        require(msgs[0] == {"role": "system", "content": prompt or "You are a helpful assistant."},
                "system prompt not sent first", got=msgs[0])
        require(msgs[-1]["role"] == "user", "last message is not the user's", got=msgs[-1]["role"])
        text = "\n".join(x["content"] for x in msgs[1:])
        state([m, req["kind"], req.get("key"), len(req["about"])])
        for s in req["about"]:
            require(find(text, s) >= 0, "an input of the question is missing from the prompt", metric=m,
                    request=req, missing=s, tail=text[-400:])
        wanted = " ".join(req["about"])
        for t in tokens(qr):
            require(t in wanted or t not in text, "the question contains an input it is not defined over", metric=m,
                    request=req, token=t)
        ctx = [find(text, s) for s in qr["context"]["prediction"] if s in req["about"]]
        require(ctx == sorted(ctx), "contexts not given in their order", metric=m, got=ctx)
        facts = [a for a in req["about"] if " fact " in a]
        for x in set(facts):
            n = facts.count(x)
            have = max(text.count(x), text.count(repr(x)[1:-1]))
            require(have >= n, "an extracted item is missing from the prompt", metric=m, item=x, expected=n, got=have)
        outcome([m, req["kind"], sorted(t for t in tokens(qr) if t in text)])


def gen_large(tier):
    for m in L.METRICS:
        for npred, ngt, items in ((12, 1, 2), (33, 2, 1), (2, 12, 2), (1, 1, 12), (2, 1, 33), (3, 2, 11)) if tier == "quick" else ((12, 1, 2), (60, 2, 1), (2, 40, 2), (1, 1, 12), (2, 1, 101), (3, 5, 11), (20, 3, 20)):
            for odd in (0, 5):
                s, _ = next(iter(L.thin_scripts(m, qr_of(npred, ngt, 0), [items], 0)))
                yield [m, npred, ngt, odd, s, None]


def run_large(case):
    import re

    m, npred, ngt, odd, script, prompt = case
    # "fact 1" would also be found inside "fact 11"
    run([m, npred, ngt, odd, [re.sub(r" fact (\d+)", r" fact \1z", a) for a in script], prompt])


FAMILIES = [
    Family("large", gen_large, run_large, "every metric x up to 33 (60) contexts, 12 (40) ground truths, 33 (101) extracted items, texts of 6,000 characters"),
    Family("prompts", gen, run,
           "every metric x 1-3 contexts (4) x 1-2 ground truths x extracted item counts 0-3 (1-2 with two ground truths) x "
           "8 text decorations (braces, %, quotes, backslash, non-ASCII, 6,000 characters, surrounding blank space) x default / 2 custom system prompt; every question checked"),
]
ASSUMPTIONS = ["inputs may be written into the prompt raw or in list notation"]
