"""X08: concurrent calls give the results they give alone."""
from .. import llm as L
from ..core import Family, outcome, require, scratch, state, step
from ..sched import Scheduler, distinct, points_of
from ..tasks import TASKS, do_filter
from ..util import close, diff

ASSUMPTIONS = ["a thread is preempted between lines of valor_lite only, not inside numpy or pyarrow",
               "two threads; at most two preemptions", "the LLM client is thread safe"]


def explore(what, A, B, wa, wb, case, thorough, two):
    """every schedule: A runs to point k, B (to its end, or to point j), A to its end, B to its end."""
    pa_, ra = points_of(A())
    if not close(ra, wa):
        require(False, f"{what}: alone on a thread: " + "; ".join(diff(ra, wa)))
    pb_, rb = points_of(B())
    if not close(rb, wb):
        require(False, f"{what}: alone on a thread: " + "; ".join(diff(rb, wb)))
    occ = 10 ** 9 if thorough else 1
    if two:
        ks = [(k, j) for k in distinct(pa_, 1, not thorough) for j in distinct(pb_, 1, not thorough)]
    else:
        ks = [(k, None) for k in distinct(pa_, occ)]
    n, i = case["of"], case["part"]
    for k, j in ks[i::n]:
        segs = [(0, k), (1, j)] if j else [(0, k), (1, None)]
        step(2)
        (ga, ea), (gb, eb) = Scheduler([A(), B()], segs).run()
        for who, g, e, w in (("first", ga, ea, wa), ("second", gb, eb, wb)):
            where = pa_[k - 1][0].rsplit("/", 1)[-1] + f":{pa_[k - 1][1]}"
            require(e is None, f"{what}: {who} call raised when interrupted at {where}", error=repr(e))
            if not close(g, w):
                require(False, f"{what}: {who} call differs when interrupted at {where}: " + "; ".join(diff(g, w)))
    state([what, len(pa_), len(pb_)])
    outcome([what, len(ks)])


# ---------------------------------------------------------------- queries of one evaluator
PARTS = 2


def gen_query(tier):
    for t, T in TASKS.items():
        ops = list(T.ops())
        for name in T.names[:1] if tier == "quick" else T.names[:2]:
            for store in ("mem", "file"):
                for i, a in enumerate(ops):
                    for j, b in enumerate(ops):
                        if tier == "quick" and i != j and (i + j + (store == "mem")) % 3:
                            continue
                        for p in range(PARTS):
                            yield {"t": t, "d": name, "s": store, "a": a, "b": b, "part": p, "of": PARTS, "deep": tier != "quick"}


def run_query(case):
    T = TASKS[case["t"]]
    ds = T.data(case["d"])
    ops = T.ops()
    with scratch() as d:
        lay = {"k": "mem"} if case["s"] == "mem" else {"k": "file", "b": 2, "r": 5}
        ev = T.build(ds, lay, d + "/x", T.FIELDS)
        fa, fb = ops[case["a"]], ops[case["b"]]
        wa, wb = fa(ev), fb(ev)
        ev2 = ev
        explore(f"{case['t']} {case['a']} and {case['b']}", lambda: (lambda: fa(ev)), lambda: (lambda: fb(ev2)), wa, wb, case, case["deep"], case.get("two", False))


def gen_query2(tier):
    for t, T in TASKS.items():
        for a in T.ops():
            parts = 4 if tier == "quick" else 16
            for p in range(parts):
                yield {"t": t, "d": T.names[0], "s": "mem", "a": a, "b": a, "part": p, "of": parts, "deep": False, "two": True}
                if tier != "quick":
                    for b in T.ops():
                        if b != a:
                            yield {"t": t, "d": T.names[0], "s": "file", "a": a, "b": b, "part": p, "of": parts, "deep": False, "two": True}


# ---------------------------------------------------------------- builds, loads and filters
KINDS = ["build", "filter", "load"]


def gen_build(tier):
    for t, T in TASKS.items():
        for store in ("mem", "file"):
            for a in KINDS:
                for b in KINDS:
                    if store == "mem" and "load" in (a, b) or tier == "quick" and (a == "load" and b != "build" or b == "load" or (a, b) == ("filter", "build")):
                        continue
                    parts = 6
                    for p in range(parts):
                        yield {"t": t, "s": store, "a": a, "b": b, "part": p, "of": parts, "deep": tier != "quick"}


def run_build(case):
    T = TASKS[case["t"]]
    m = None if case["deep"] else 3
    da, db = T.data(T.names[0])[:m], T.data(T.names[1 % len(T.names)])[::-1][:m]
    lay = {"k": "mem"} if case["s"] == "mem" else {"k": "file", "b": 2, "r": 5}
    with scratch() as d:
        src = T.build(da, lay, d + "/src", T.FIELDS)
        flts = [f for f in T.filters if T.select(da, f)]
        n = [0]

        def call(i):
            """the i-th party's call, on a path of its own."""
            n[0] += 1
            path = f"{d}/o{n[0]}"
            kind, ds, flt = (case["a"], da, flts[0]) if i == 0 else (case["b"], db, flts[-1])
            if kind == "build":
                return lambda: T.build(ds, lay, path, T.FIELDS)
            if kind == "filter":
                return lambda: do_filter(src, flt, path if case["s"] == "file" else None)
            return lambda: T.Evaluator.load(d + "/src")

        probes = [o for n_, o in T.ops().items() if n_ in ("cme", "roc", "pr", "m", "info")]
        look = lambda e: [o(e) for o in probes]
        want = [look(call(i)()) for i in (0, 1)]
        pts, _ = points_of(call(0))
        ks = distinct(pts, 10 ** 9 if case["deep"] else 1)
        for k in ks[case["part"]::case["of"]]:
            step(2)
            res = Scheduler([call(0), call(1)], [(0, k), (1, None)]).run()
            where = pts[k - 1][0].rsplit("/", 1)[-1] + f":{pts[k - 1][1]}"
            for i in (0, 1):
                who = f"{(case['a'], case['b'])[i]} (with {(case['b'], case['a'])[i]})"
                require(res[i][1] is None, f"{who} raised when interrupted at {where}", error=repr(res[i][1]))
                g = look(res[i][0])
                if not close(g, want[i]):
                    require(False, f"{who} differs when interrupted at {where}: " + "; ".join(diff(g, want[i])))
        state([case["t"], case["s"], case["a"], case["b"], len(pts)])
        outcome([case["t"], case["a"], case["b"], len(ks)])


# ---------------------------------------------------------------- loaders filled in turns
def gen_turns(tier):
    for t, T in TASKS.items():
        for s in ("mem", "file"):
            na, nb = (3, 3)
            for bits in range(2 ** (na + nb + 2)):
                if bin(bits).count("1") == nb + 1:
                    yield {"t": t, "s": s, "bits": bits}


def run_turns(case):
    """two loaders, each fed datum by datum and finalized, in every order of turns."""
    T = TASKS[case["t"]]
    sets = [T.data(T.names[0])[:3], T.data(T.names[1 % len(T.names)])[::-1][:3]]
    lay = {"k": "mem"} if case["s"] == "mem" else {"k": "file", "b": 2, "r": 3}
    with scratch() as d:
        want = [T.observe(T.build(ds, lay, f"{d}/w{i}", T.FIELDS)) for i, ds in enumerate(sets)]
        lds = [T.loader(lay, f"{d}/l{i}", T.FIELDS) for i in (0, 1)]
        pos, evs = [0, 0], [None, None]
        for k in range(8):
            i = case["bits"] >> k & 1
            if pos[i] < 3:
                T.add(lds[i], sets[i][pos[i]:pos[i] + 1])
            else:
                step()
                evs[i] = lds[i].finalize()
            pos[i] += 1
        for i in (0, 1):
            g = T.observe(evs[i])
            if not close(g, want[i]):
                require(False, f"loader {i} filled in turns with another: " + "; ".join(diff(g, want[i])))
    state([case["t"], want])
    outcome([case["t"], case["s"], g["info"]])


# ---------------------------------------------------------------- text generation
def gen_text(tier):
    for m in L.METRICS:
        for m2 in L.METRICS:
            if tier == "quick" and m != m2 and (L.METRICS.index(m) + L.METRICS.index(m2)) % 3:
                continue
            yield {"a": m, "b": m2, "part": 0, "of": 1, "deep": tier != "quick", "two": m == m2}


class Client:
    """answers by question, independently of the order in which they are asked."""

    def __init__(self):
        self.answers, self.model_name = {}, L.MODEL

    def learn(self, m, qr, script):
        from valor_lite.text_generation.manager import Evaluator

        todo, me = list(script), self

        class Once:
            model_name = L.MODEL

            def __call__(self, messages):
                a = todo.pop(0)
                me.answers[repr(messages)] = a
                return a
        return getattr(Evaluator(client=Once(), retries=0), "compute_" + m)(L.query_response(qr)).to_dict()

    def __call__(self, messages):
        a = self.answers.get(repr(messages))
        require(a is not None, "a question that is not asked alone", messages=messages)
        return a


def run_text(case):
    from valor_lite.text_generation.manager import Evaluator

    cl = Client()
    qrs = [dict(query=f"Q{x}", response=f"R{x} text", context=dict(groundtruth=[f"G{x}0", f"G{x}1"], prediction=[f"C{x}0", f"C{x}1"])) for x in "AB"]
    want = []
    for i, m in enumerate((case["a"], case["b"])):
        seen = {}
        for s, r in L.scripts(m, qrs[i], [2]):
            seen.setdefault(r[1], s)
            if len(seen) >= 3:
                break
        script = [x.replace('"S', f'"{"AB"[i]}S') for x in list(seen.values())[0 if i == 0 else -1]]   # items named by thread
        want.append(cl.learn(m, qrs[i], script))
    ev = Evaluator(client=cl, retries=0)
    call = lambda i, m: (lambda: (lambda: getattr(ev, "compute_" + m)(L.query_response(qrs[i])).to_dict()))
    explore(f"{case['a']} and {case['b']}", call(0, case["a"]), call(1, case["b"]), want[0], want[1], case, case["deep"], False)
    if case["two"]:
        explore(f"{case['a']} and {case['b']}", call(0, case["a"]), call(1, case["b"]), want[0], want[1], case, False, True)


FAMILIES = [
    Family("loaders in turns", gen_turns, run_turns, "two loaders of one task fed 3 datums each and finalized, every one of the 70 orders of turns x memory/file x 3 tasks"),
    Family("text generation", gen_text, run_text,
           "pairs of the 10 LLM metrics on one evaluator (a third of the mixed ones in quick): one preemption before the first occurrence of every line (every line); equal metrics also "
           "two preemptions at function entries", case_timeout=300),
    Family("queries", gen_query, run_query,
           "3 tasks x memory/file x pairs of queries of one evaluator (equal ones and a third of the mixed ones in quick): one preemption before the first occurrence of every line (every line)",
           case_timeout=600),
    Family("builds", gen_build, run_build,
           "3 tasks x memory/file x pairs of build, filter and load (quick: five of them): one preemption before the first occurrence of (every) line", case_timeout=600),
    Family("two preemptions", gen_query2, run_query,
           "the same query twice (thorough: every pair, also on files): preemption at every pair of distinct function entries", case_timeout=600),
]
