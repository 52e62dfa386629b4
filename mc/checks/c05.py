import itertools
from .. import cls
from ..core import Family, outcome, require, scratch, state
from ..util import PAIRS, meta_cases, put, name_map, rename, close, diff, expr, holds, nonempty_subsets, subsets

ASSUMPTIONS = ["filters selecting nothing are covered by X05; ROCAUC is compared only where every kept datum scores every label"]
FIELDS = [("grp", "string"), ("n", "int64")]


def D(g, p, s, grp=None, n=0):
    m = {"n": n}
    if grp:
        m["grp"] = grp
    return {"g": g, "p": list(p), "s": list(s), "m": m}


SETS = {
    "full3": [D("a", "abc", (0.7, 0.2, 0.1), "x", 1), D("b", "abc", (0.5, 0.3, 0.2), "y", 2), D("c", "cab", (0.4, 0.4, 0.2), "x", 3), D("a", "bca", (0.0, 0.6, 0.4), "y", 2)],
    "partial": [D("a", "ab", (0.2, 0.8), "x", 1), D("b", "b", (0.5,), "y", 1), D("a", "ca", (0.5, 0.5), None, 2), D("d", "ab", (0.1, 0.6), "x", 3)],
    "samelabel": [D("a", "ab", (0.9, 0.1), "x", 1), D("a", "ab", (0.1, 0.9), "y", 2), D("a", "ab", (0.5, 0.5), "y", 3), D("b", "ba", (0.0, 0.0), "x", 4)],
}
TS = [0.0, 0.45]
LAYS = [{"k": "mem"}, {"k": "mem", "b": 1}, {"k": "file", "b": 1, "r": 1}, {"k": "file", "b": 2, "r": 4}, {"k": "file"}]


def dataset(name):
    if name.startswith("big"):
        from . import c04

        return [dict(d, m=dict({"n": i}, **({"grp": "xy"[i % 2]} if i % 3 else {}))) for i, d in enumerate(c04.dataset(name))]
    return [dict(d, u=f"u{i}") for i, d in enumerate(SETS[name])]


def rec(d, p=None):
    r = dict(d.get("m") or {}, datum_uid=d["u"], gt_label=d["g"])
    if p is not None:
        r["pd_label"], r["pd_score"] = p[0], p[1]
    return r


def frows(ds, fd=None, fg=None, fp=None):
    """Model: rows kept by the three filters; winners stay those of the unfiltered datum."""
    out = []
    for d, (u, g, ps) in zip(ds, cls.rows_of(ds)):
        if not (holds(fd, rec(d)) and holds(fg, rec(d))):
            continue
        kept = [p for p in ps if holds(fp, rec(d, p))]
        if kept:
            out.append((u, g, kept))
    return out


def check_eval(ev, rows, labels, what, datums=None, roc=False, ts=TS):
    for hm in (True, False):
        cls.expect(f"{what}: precision/recall hardmax={hm}", cls.obs_pr(ev, ts, hm, datums), cls.m_pr(rows, labels, ts, hm))
        cls.expect(f"{what}: confusion matrix", cls.obs_cm(ev, ts, hm, datums), [cls.m_cm(rows, labels, t, hm) for t in ts])
        cls.expect(f"{what}: examples", sorted(cls.obs_ex(ev, ts, hm, datums)), sorted(cls.m_ex(rows, ts, hm)))
        cls.expect(f"{what}: matrix with examples", cls.obs_cme(ev, ts, hm, datums), [cls.m_cme(rows, labels, t, hm) for t in ts])
    if roc:
        cls.expect(f"{what}: ROCAUC", cls.obs_roc(ev), cls.m_roc(rows, labels))
    i = cls.info(ev, datums=datums) if datums is not None else cls.info(ev)
    require(i["datums"] == len(rows), f"{what}: number of datums", got=i, want=len(rows))
    require(i["labels"] == len(labels), f"{what}: number of labels", got=i, want=len(labels))


def full(rows, labels):
    return all({p[0] for p in r[2]} == labels for r in rows)


def run(case):
    ds = dataset(case["d"])
    if "ren" in case:
        m = name_map(case["ren"])
        ds, case = rename(ds, m), rename(case, m)
    labels = cls.labels_of(ds)
    with scratch() as d:
        ev = cls.build(ds, case["l"], d + "/x", FIELDS)
        n = [0]

        def flt(e, **kw):
            n[0] += 1
            if case["l"]["k"] == "file":
                kw["path"] = f"{d}/f{n[0]}"
            cls.step()
            return e.filter(**{k: v for k, v in kw.items() if v is not None})

        base = case.get("base", True)
        fd, fg, fp = case.get("fd"), case.get("fg"), case.get("fp")
        rows = frows(ds, fd, fg, fp)
        state(rows)
        if case["op"] == "direct":
            check_eval(ev, rows, labels, "direct filter", datums=expr(fd))
        elif case["op"] == "filter":
            if not rows:
                return
            f = flt(ev, datums=expr(fd), groundtruths=expr(fg), predictions=expr(fp))
            check_eval(f, rows, labels, "filtered evaluator", roc=full(rows, labels))
            outcome(cls.obs_cm(f, TS, True))
        elif case["op"] == "compose":
            # filter, then a second (direct or materialised) filter on the result
            f2 = case["f2"]
            if not rows:
                return
            f = flt(ev, datums=expr(fd), groundtruths=expr(fg), predictions=expr(fp))
            rows2 = [r for r in rows if holds(f2, rec(next(x for x in ds if x["u"] == r[0])))]
            check_eval(f, rows2, labels, "direct filter on filtered evaluator", datums=expr(f2))
            if rows2:
                check_eval(flt(f, datums=expr(f2)), rows2, labels, "filter of a filter", roc=full(rows2, labels))
            check_eval(f, rows, labels, "first filtered evaluator after the second filter")
        # the original is untouched
        check_eval(ev, cls.rows_of(ds), labels, "original after filtering", ts=[0.3])


def datum_filters(name):
    ds = dataset(name)
    for s in subsets([d["u"] for d in ds]):
        yield ["in", "datum_uid", list(s)]
    for g in subsets(["x", "y"]):
        yield ["in", "grp", list(g)]
    for k in range(1, 6):
        yield ["ge", "n", k]
        yield ["and", ["lt", "n", k], ["eq", "grp", "x"]]
    yield ["not", ["eq", "grp", "y"]]
    yield ["or", ["eq", "datum_uid", "u0"], ["ge", "n", 3]]


def gen_direct(tier):
    for n in SETS:
        for l in (LAYS if tier != "quick" else LAYS[:4]):
            for f in datum_filters(n):
                yield {"d": n, "l": l, "op": "direct", "fd": f}


def gen_filter(tier):
    for n in SETS:
        ds = dataset(n)
        labels = sorted(cls.labels_of(ds))
        for l in (LAYS if tier != "quick" else [LAYS[0], LAYS[3]]):
            for f in datum_filters(n):
                yield {"d": n, "l": l, "op": "filter", "fd": f}
            for s in nonempty_subsets(labels):
                yield {"d": n, "l": l, "op": "filter", "fg": ["in", "gt_label", list(s)]}
                yield {"d": n, "l": l, "op": "filter", "fp": ["in", "pd_label", list(s)]}
            for a in nonempty_subsets(labels):
                for b in nonempty_subsets(labels):
                    if tier == "quick" and l["k"] == "file" and (len(a) + len(b)) % 2:
                        continue
                    yield {"d": n, "l": l, "op": "filter", "fg": ["in", "gt_label", list(a)], "fp": ["in", "pd_label", list(b)]}
                    if tier != "quick":
                        for g in ("x", "y"):
                            yield {"d": n, "l": l, "op": "filter", "fd": ["eq", "grp", g], "fg": ["in", "gt_label", list(a)], "fp": ["in", "pd_label", list(b)]}


def gt_filters(name):
    """ground truth filters that select by datum."""
    for s in ((0,), (1,), (0, 2), (1, 3), (1, 2, 3)):
        yield ["in", "datum_uid", [f"u{i}" for i in s]]
    yield ["ge", "n", 2]
    for l in "ab":
        yield ["and", ["eq", "gt_label", l], ["lt", "n", 3]]
        yield ["or", ["eq", "gt_label", l], ["eq", "grp", "y"]]


def pd_filters(name):
    """prediction filters that select by score or by datum: the same label is kept in one datum and dropped in another."""
    sc = sorted({s for d in dataset(name) for s in d["s"]})
    for s in sc:
        yield ["ge", "pd_score", s]
        yield ["lt", "pd_score", s]
        for l in "abc":
            yield ["or", ["eq", "pd_label", l], ["ge", "pd_score", s]]
    for i in range(4):
        yield ["in", "datum_uid", [f"u{i}"]]
        yield ["or", ["in", "datum_uid", [f"u{i}"]], ["eq", "pd_label", "a"]]
        yield ["and", ["not", ["eq", "pd_label", "b"]], ["in", "datum_uid", [f"u{i}", "u0"]]]
    yield ["eq", "grp", "x"]


def gen_perdatum(tier):
    for n in SETS:
        gf, pf = list(gt_filters(n)), list(pd_filters(n))
        for l in (LAYS if tier != "quick" else [LAYS[0], LAYS[3]]):
            for g in gf:
                yield {"d": n, "l": l, "op": "filter", "fg": g}
            for p in pf:
                yield {"d": n, "l": l, "op": "filter", "fp": p}
            for i, (g, p) in enumerate(itertools.product(gf, pf)):
                if tier == "quick" and i % (5 if l["k"] == "mem" else 11):
                    continue
                yield {"d": n, "l": l, "op": "filter", "fg": g, "fp": p}


def gen_compose(tier):
    for n in SETS:
        ds = dataset(n)
        uids = [d["u"] for d in ds]
        labels = sorted(cls.labels_of(ds))
        firsts = [{"fd": ["in", "datum_uid", list(s)]} for s in nonempty_subsets(uids)]
        firsts += [{"fp": ["in", "pd_label", [l]]} for l in labels] + [{"fg": ["in", "gt_label", [l]]} for l in labels]
        seconds = [["in", "datum_uid", list(s)] for s in nonempty_subsets(uids)]
        if tier == "quick":
            seconds = seconds[::3]
        for l in ([LAYS[0], LAYS[3]] if tier == "quick" else LAYS):
            for a in (firsts if l["k"] == "mem" or tier != "quick" else firsts[::4]):
                for b in seconds:
                    yield dict(a, d=n, l=l, op="compose", f2=b)


def gen_names(tier):
    fs = [{"fd": ["eq", "datum_uid", "u0"]}, {"fd": ["in", "datum_uid", ["u1", "u2"]]}, {"fd": ["not", ["eq", "datum_uid", "u1"]]},
          {"fg": ["eq", "gt_label", "a"]}, {"fg": ["not", ["in", "gt_label", ["b"]]]}, {"fp": ["eq", "pd_label", "b"]}, {"fp": ["not", ["eq", "pd_label", "a"]]}]
    for k in range(len(PAIRS)):
        for n in SETS:
            for l in [LAYS[0], LAYS[3]]:
                for f in fs:
                    yield dict(f, d=n, l=l, op="filter", ren=k)
                    if "fd" in f:
                        yield dict(f, d=n, l=l, op="direct", ren=k)


def gen_scale(tier):
    for n in ((40, 300) if tier == "quick" else (40, 130, 300, 700)):
        for l in ({"k": "mem"}, {"k": "file", "b": 256, "r": 300}):
            for k in (1, 20, 128, 255, 256, n - 1):
                if k < n:
                    yield {"d": f"big{n}", "l": l, "op": "direct", "fd": ["ge", "n", k]}
                    yield {"d": f"big{n}", "l": l, "op": "filter", "fd": ["lt", "n", k + 1], "fp": ["ge", "pd_score", 0.3]}
            yield {"d": f"big{n}", "l": l, "op": "filter", "fg": ["in", "gt_label", ["k0", "k7", "k29"]], "fp": ["or", ["lt", "n", 290], ["eq", "pd_label", "k3"]]}
            yield {"d": f"big{n}", "l": l, "op": "compose", "fd": ["in", "datum_uid", [f"u{i}" for i in range(0, n, 2)]], "f2": ["eq", "grp", "x"]}


def gen_meta(tier):
    for i, c in enumerate(meta_cases(["d"])):
        yield dict(c, file=i % (9 if tier == "quick" else 3) == 4)


def run_meta(case):
    ds = [dict(d, u=f"d{i}", m=put({"n": 0}, v)) for i, (d, v) in enumerate(zip(SETS["full3"], case["vs"]))]
    labels, f = cls.labels_of(ds), case["f"]
    with scratch() as d:
        fl = case["file"]
        ev = cls.build(ds, {"k": "file", "b": 1, "r": 4} if fl else {"k": "mem"}, d + "/x", [("n", "int64"), ("q", case["kind"])])
        rows = frows(ds, f)
        state(rows)
        outcome([r[0] for r in rows])
        check_eval(ev, rows, labels, "direct filter", datums=expr(f))
        for kw in (["datums"], ["groundtruths"], ["datums", "predictions"]) if rows else ():
            cls.step()
            g = ev.filter(**{k: expr(f) for k in kw}, **({"path": f"{d}/{''.join(kw)}"} if fl else {}))
            check_eval(g, rows, labels, f"filter {kw}")


FAMILIES = [
    Family("metadata", gen_meta, run_meta, "datum metadata of 4 kinds, 3 datums x every assignment of {absent, None, false-like, true-like}, 5 filters on the field, direct and materialised"),
    Family("scale", gen_scale, run, "40 and 300 (700) datums over 30 labels, filters cutting at 8-bit boundaries, combined filters, memory and file", case_timeout=600),
    Family("direct", gen_direct, run, "3 datasets x 4 (5) layouts x every datum subset by uid, metadata comparisons, boolean combinations"),
    Family("materialised", gen_filter, run, "every datum subset, every ground truth label subset x every prediction label subset, memory and files"),
    Family("per-datum", gen_perdatum, run, "ground truth filters by uid/metadata, prediction filters by score, uid and label combinations (one label kept in one datum, dropped in another), alone and combined"),
    Family("names", gen_names, run, "21 pairs of unusual label and datum names x 3 datasets x filters naming them, memory and file"),
    Family("composed", gen_compose, run, "filter then direct/materialised second filter"),
]
