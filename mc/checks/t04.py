"""T04: OpenAI and Mistral wrappers."""
import copy
import itertools
from types import SimpleNamespace as NS

from ..core import Family, outcome, require, state, step

MSGS = [
    [{"role": "system", "content": "sys"}, {"role": "user", "content": "hello"}],
    [{"role": "user", "content": ""}],
    [{"role": "user", "content": "a"}, {"role": "assistant", "content": "b"}, {"role": "user", "content": "c {}"}],
]
CONTENT = [None, "", "text", "{\"verdicts\": []}", " padded ", "\u00e9\n", "0", "None"]
OFINISH = ["stop", "length", "content_filter", "tool_calls", "function_call", None]
USAGE = [None, (0, 0), (3, 5), (7, 0)]


def light_sdks():
    """Building a real SDK client is slow: construct a stand-in (replaced again below) instead."""
    import mistralai
    import openai as sdk

    sdk.OpenAI = FakeOpenAI
    mistralai.Mistral = FakeMistral


class FakeOpenAI:
    def __init__(self, **kw):
        self.requests = []
        self.next = None
        self.chat = NS(completions=NS(create=self.create))

    def create(self, **kw):
        self.requests.append(copy.deepcopy(kw))
        if isinstance(self.next, Exception):
            raise self.next
        content, finish, usage, nchoices = self.next
        ch = [NS(message=NS(content=content), finish_reason=finish)]
        ch += [NS(message=NS(content="second"), finish_reason="length")] * (nchoices - 1)
        return NS(choices=ch, usage=None if usage is None else NS(prompt_tokens=usage[0], completion_tokens=usage[1],
                                                                  total_tokens=sum(usage)))


def openai(model="m-1", seed=None):
    light_sdks()
    from valor_lite.text_generation.llm.integrations import OpenAIWrapper

    w = OpenAIWrapper(model_name=model, api_key="x", seed=seed)
    f = FakeOpenAI()
    w.client = f
    return w, f


def gen_openai(tier):
    singles = [[c, f, u, 1] for c in CONTENT for f in OFINISH for u in USAGE]
    for s in singles:
        for mi in range(len(MSGS)):
            for seed in (None, 0, 7):
                yield [[s], mi, seed]
    small = [[c, f, u, 1] for c in (None, "text") for f in ("stop", "length", "content_filter") for u in ((3, 5), None)]
    small += [["text", "stop", [1, 2], 2], "exc"]
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        for seq in itertools.product(small, repeat=n):
            yield [list(seq), 0, None]
    # long conversations: totals keep adding up
    pats = [[["text", "stop", [3, 5], 1]], [["text", "stop", [100, 7], 1], "exc"], [["text", "length", [11, 13], 1], ["text", "stop", None, 1], [None, "stop", [0, 1], 1]],
            [["text", "stop", [70000, 130], 1]], [["text", "stop", [2 ** 31, 2 ** 33], 1]]]
    for p in pats:
        for n in (10, 40, 300):
            yield [(p * n)[:n], 1, 3]


def run_openai(case):
    seq, mi, seed = case
    w, f = openai(seed=seed)
    tot = [0, 0]
    require((w.total_prompt_tokens, w.total_completion_tokens) == (0, 0), "token totals do not start at 0")
    for k, resp in enumerate(seq):
        msgs = copy.deepcopy(MSGS[(mi + k) % len(MSGS)])
        f.next = RuntimeError("network") if resp == "exc" else resp
        before = copy.deepcopy(msgs)
        step()
        try:
            got = ("ok", w(msgs))
        except Exception as e:
            got = ("raise", e)
        outcome([got[0], str(got[1])[:60]])
        require(msgs == before, "messages changed by the call")
        require(len(f.requests) == k + 1, "not exactly one request per call", got=len(f.requests))
        rq = f.requests[-1]
        require(rq.get("model") == "m-1" and rq.get("messages") == before and rq.get("seed") == seed,
                "request does not carry model, messages and seed", got=rq)
        if resp == "exc":
            require(got[0] == "raise" and got[1] is f.next, "provider exception changed", got=repr(got))
        else:
            content, finish, usage, _ = resp
            if usage is not None:
                tot = [tot[0] + usage[0], tot[1] + usage[1]]
            if finish in ("length", "content_filter"):
                require(got[0] == "raise" and isinstance(got[1], ValueError), "unusable answer not rejected",
                        finish=finish, got=repr(got))
            else:
                require(got == ("ok", content or ""), "content not returned", expected=content or "", got=repr(got))
        state([tot, resp if resp == "exc" else resp[1]])
        require([w.total_prompt_tokens, w.total_completion_tokens] == tot, "token totals wrong", expected=tot,
                got=[w.total_prompt_tokens, w.total_completion_tokens], case=case)


MFINISH = ["stop", "length", "tool_calls", "error"]
MCONT = CONTENT + [["chunk"], 5, {"a": 1}]


class FakeMistral:
    def __init__(self, **kw):
        self.requests = []
        self.next = None
        self.chat = NS(complete=self.complete)

    def complete(self, **kw):
        self.requests.append(copy.deepcopy(kw))
        shape, content, finish = self.next
        if shape == "none":
            return None
        if shape == "nochoices":
            return NS(choices=None)
        if shape == "nomessage":
            return NS(choices=[NS(message=None, finish_reason=finish)])
        return NS(choices=[NS(message=NS(content=content), finish_reason=finish)])


def gen_mistral(tier):
    resp = [["none", None, None], ["nochoices", None, None]] + [["nomessage", None, f] for f in MFINISH]
    resp += [["full", c, f] for c in MCONT for f in MFINISH]
    for r in resp:
        for mi in range(len(MSGS)):
            yield [[r], mi]
    for a, b in itertools.product(resp, resp):
        yield [[a, b], 0]


def run_mistral(case):
    light_sdks()
    from valor_lite.text_generation.llm.integrations import MistralWrapper

    seq, mi = case
    w = MistralWrapper(model_name="mm", api_key="x")
    f = FakeMistral()
    w.client = f
    for k, (shape, content, finish) in enumerate(seq):
        f.next = (shape, content, finish)
        msgs = copy.deepcopy(MSGS[(mi + k) % len(MSGS)])
        before = copy.deepcopy(msgs)
        step()
        try:
            got = ("ok", w(msgs))
        except Exception as e:
            got = ("raise", e)
        outcome([got[0], str(got[1])[:60]])
        state([shape, str(content), finish])
        require(len(f.requests) == k + 1 and f.requests[-1].get("model") == "mm"
                and f.requests[-1].get("messages") == before and msgs == before,
                "request does not carry model and messages", got=f.requests[-1:])
        empty = shape != "full" or content is None
        if empty and finish == "length":
            ok = got == ("ok", "") or isinstance(got[1], ValueError)
        elif empty:
            ok = got == ("ok", "")
        elif finish == "length":
            ok = got[0] == "raise" and isinstance(got[1], (ValueError, TypeError))
        elif not isinstance(content, str):
            ok = got[0] == "raise" and isinstance(got[1], TypeError)
        else:
            ok = got == ("ok", content)
        require(ok, "wrong answer of the Mistral wrapper", response=[shape, content, finish], got=repr(got))


def gen_msgs(tier):
    vals = ["m", "", None, 1, [], {}, b"x", True]
    yield from ([v] for v in (None, "text", {"role": "user", "content": "x"}, 5, [None], ["a"], [[]], [1],
                              [{}], [{"role": "user"}], [{"content": "x"}], []))
    for r, c in itertools.product(vals, vals):
        yield [[{"role": enc(r), "content": enc(c)}]]
        yield [[{"role": "user", "content": "ok"}, {"role": enc(r), "content": enc(c)}]]
        yield [[{"role": enc(r), "content": enc(c)}, {"role": "user", "content": "ok"}]]
    yield [[{"role": "user", "content": "ok"}, "a"]]
    yield [[{"role": "user", "content": "ok"}, {"role": "user"}]]
    yield [[{"role": "user", "content": "ok", "name": "n"}]]


def enc(v):
    return "@bytes" if isinstance(v, bytes) else v


def dec(v):
    return b"x" if v == "@bytes" else v


def run_msgs(case):
    msgs = case[0]
    if isinstance(msgs, list):
        msgs = [{k: dec(v) for k, v in m.items()} if isinstance(m, dict) else m for m in msgs]
    good = isinstance(msgs, list) and all(
        isinstance(m, dict) and isinstance(m.get("role"), str) and isinstance(m.get("content"), str) for m in msgs)
    missing = (isinstance(msgs, list) and all(isinstance(m, dict) for m in msgs)
               and any("role" not in m or "content" not in m for m in msgs))
    light_sdks()
    from valor_lite.text_generation.llm.integrations import MistralWrapper

    w, f = openai()
    f.next = ["fine", "stop", None, 1]
    w2 = MistralWrapper(model_name="mm", api_key="x")
    f2 = w2.client = FakeMistral()
    f2.next = ("full", "fine", "stop")
    for wr, fk in ((w, f), (w2, f2)):
        step()
        try:
            got = wr(msgs)
        except Exception as e:
            got = e
        outcome([repr(got)[:50]])
        state([good, missing])
        if good:
            require(got == "fine" and len(fk.requests) == 1, "valid messages rejected", msgs=repr(msgs), got=repr(got))
        else:
            require(isinstance(got, ValueError if missing else TypeError) and not fk.requests,
                    "malformed messages not rejected before the request", msgs=repr(msgs), got=repr(got), sent=len(fk.requests))


def gen_make(tier):
    for prov in ("openai", "mistral"):
        for retries in (0, 1, 3):
            for seed in (None, 0, 5) if prov == "openai" else (None,):
                for prompt in (None, "P!"):
                    for kind in ("ok", "len", "bad"):
                        yield [prov, retries, seed, prompt, kind]


def run_make(case):
    """Evaluator built on a wrapper: a cut-off answer never yields a score and is not retried."""
    from .. import llm as L
    from valor_lite.text_generation.manager import Evaluator

    light_sdks()
    prov, retries, seed, prompt, kind = case
    kw = dict(model_name="mm" if prov == "mistral" else "m-1", api_key="x", retries=retries)
    if prompt:
        kw["default_system_prompt"] = prompt
    if prov == "openai":
        kw["seed"] = seed
    step()
    try:
        ev = getattr(Evaluator, prov)(**kw)
    except ValueError:
        require(seed is not None and retries != 0, "factory rejected a valid configuration", case=case)
        outcome("rejected")
        return
    require(not (seed is not None and retries != 0), "seed with retries accepted", case=case)
    f = ev.client.client = FakeOpenAI() if prov == "openai" else FakeMistral()
    content, finish = {"ok": ("4", "stop"), "len": ("4", "length"), "bad": ("x", "stop")}[kind]
    f.next = [content, finish, [1, 1], 1] if prov == "openai" else ("full", content, finish)
    got = L.call(ev, "summary_coherence", L.make_qr(1, 1))
    outcome([case, str(got)[:50]])
    state([kind, retries])
    if kind == "ok":
        require(got == ("score", 4) and len(f.requests) == 1, "wrong result", got=repr(got))
    elif kind == "len":
        require(got[0] == "raise" and isinstance(got[1], ValueError) and len(f.requests) == 1,
                "cut-off answer gave a result", got=repr(got))
    else:
        require(got[0] == "error" and len(f.requests) == 1 + retries, "wrong number of attempts", got=repr(got))
    require(all(r["messages"][0] == {"role": "system", "content": prompt or "You are a helpful assistant."}
                for r in f.requests), "system prompt not sent", got=f.requests[0])


FAMILIES = [
    Family("openai", gen_openai, run_openai,
           "8 contents x 6 finish reasons x 4 usages x 3 message lists x 3 seeds; every sequence of 2-3 (4) calls over 14 responses"),
    Family("mistral", gen_mistral, run_mistral, "50 responses alone (3 message lists) and in every ordered pair"),
    Family("messages", gen_msgs, run_msgs, "205 message lists: every role/content type of 8 at every position of 1-2 messages"),
    Family("factories", gen_make, run_make, "Evaluator.openai/.mistral x retries x seed x prompt x answer"),
]
ASSUMPTIONS = ["the provider SDK client is replaced by a stand-in returning response objects of the documented shape",
               "a Mistral response without content and finish reason 'length' may be empty text or rejected"]
