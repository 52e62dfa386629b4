import itertools
from .. import od
from ..core import Family, outcome, require, scratch, state, step
from ..util import PAIRS, meta_cases, put, name_map, rename, expr, holds, nonempty_subsets, subsets
from . import d02

ASSUMPTIONS = ["datum, ground truth and prediction metadata use distinct field names; filters selecting nothing are covered by X05; "
               "precision/recall metrics are compared with the model for single-label predictions, matching reports for all"]
FIELDS = [("grp", "string"), ("n", "int64"), ("gm", "int64"), ("pm", "string")]
IOUS, SCORES = [0.1, 0.5], [0.0, 0.45]


def big(n):
    IVs = ["full", "off2", "mid", "half", "g2", "far"]
    return [(["x", "y", None][i % 3], [(IVs[(i + j) % 4], f"k{(i * 3 + j) % 20}", [1, 2, None][(i + j) % 3]) for j in range(i % 3)],
             [(IVs[(i + j) % 6], [f"k{(i * 3 + j * (i % 2)) % 20}"], [round(((i * 5 + j * 3) % 13) / 13, 3)], ["u", "v", None][(i * j) % 3]) for j in range((i * 5) % 4)])
            for i in range(n + n // 3 + 2) if i % 3 or (i * 5) % 4][:n]


def mk(name):
    out = []
    pre = (lambda i: "") if name == "sameuid" else (lambda i: f"d{i}")
    for i, (grp, gs, ps) in enumerate(big(int(name[3:])) if name.startswith("big") else SETS.get(name) or MORE[name]):
        m = {"n": i + 1}
        if grp:
            m["grp"] = grp
        out.append({"u": f"d{i}", "m": m,
                    "g": [{"u": f"{pre(i)}g{j}", "b": d02.box(v), "l": l, "m": {} if k is None else {"gm": k}} for j, (v, l, k) in enumerate(gs)],
                    "p": [{"u": f"{pre(i)}p{j}", "b": d02.box(v), "l": list(ls), "s": list(ss), "m": {} if k is None else {"pm": k}} for j, (v, ls, ss, k) in enumerate(ps)]})
    return out


SETS = {
    "base": [("x", [("full", "a", 1), ("g2", "b", 2)], [("off2", "a", [0.9], "u"), ("half", "b", [0.4], "v"), ("far", "a", [0.6], None)]),
             ("y", [("half", "b", 2)], [("full", "b", [0.8], "u"), ("half", "a", [0.8], "v")]),
             ("x", [], [("full", "a", [0.5], "v")]),
             (None, [("full", "a", None)], [])],
    "contend": [("x", [("full", "a", 1), ("off2", "a", 2)], [("full", "a", [0.9], "u"), ("off2", "a", [0.5], "v"), ("half", "a", [0.7], "u")]),
                ("y", [("full", "a", 2), ("full", "b", 1)], [("full", "b", [0.6], "v"), ("mid", "a", [0.3], "u")])],
    "multi": [("x", [("full", "a", 1), ("mid", "b", 2)], [("full", "ab", [0.6, 0.4], "u"), ("mid", "bc", [0.5, 0.45], "v")]),
              ("y", [("full", "c", 1)], [("off2", "ac", [0.2, 0.7], "v")])],
}
MORE = {
    # equal scores: the ranking within one label falls back to IoU, which a filter may have reset
    "tied": [("x", [("full", "a", 1), ("g2", "a", 2)], [("full", "a", [0.5], "u"), ("mid", "a", [0.5], "v"), ("sliver", "b", [0.5], "u")]),
             ("y", [("full", "a", 1), ("half", "b", 2)], [("off2", "a", [0.5], "u"), ("half", "b", [0.5], "v")])],
    # annotation uids that repeat from datum to datum
    "sameuid": [("x", [("full", "a", 1), ("g2", "b", 2)], [("full", "a", [0.9], "u"), ("g2", "b", [0.6], "v")]),
                ("y", [("full", "b", 2), ("g2", "a", 1)], [("full", "b", [0.8], "v"), ("mid", "a", [0.7], "u")]),
                ("x", [("half", "a", 1)], [("half", "b", [0.3], "u"), ("full", "a", [0.65], "u"), ("far", "a", [0.2], "v")])],
}
ALL = ["base", "contend", "multi", "tied", "sameuid"]
LAYS = [{"k": "mem"}, {"k": "mem", "b": 1}, {"k": "file", "b": 1, "r": 1}, {"k": "file", "b": 2, "r": 4}, {"k": "file"}]


def fds(ds, fd=None, fg=None, fp=None):
    """Model: the dataset an evaluator of the selected data would be built from."""
    out = []
    for d in ds:
        if not holds(fd, dict(d["m"], datum_uid=d["u"])):
            continue
        g = [x for x in d["g"] if holds(fg, dict(d["m"], **x["m"], gt_uid=x["u"], gt_label=x["l"], datum_uid=d["u"]))]
        ps = []
        for p in d["p"]:
            ls = [(l, s) for l, s in zip(p["l"], p["s"]) if holds(fp, dict(d["m"], **p["m"], pd_uid=p["u"], pd_label=l, pd_score=s, datum_uid=d["u"]))]
            if ls:
                ps.append(dict(p, l=[l for l, _ in ls], s=[s for _, s in ls]))
        if g or ps:
            out.append(dict(d, g=g, p=ps))
    return out


def check_eval(ev, ds, labels, what, datums=None, ious=IOUS, scores=SCORES):
    if all(len(p["l"]) == 1 for d in ds for p in d["p"]):
        od.check_counts(ev, ds, ious, scores, what + ": counts", datums, labels)
        od.check_curves(ev, ds, ious, scores, what + ": AP/AR", datums, labels)
    od.check_matching(ev, ds, ious, scores, what + ": matching", datums, labels)
    i = od.info(ev, datums=datums) if datums is not None else od.info(ev)
    want = dict(datums=len(ds), labels=len(labels), gts=sum(len(d["g"]) for d in ds), pds=sum(len(d["p"]) for d in ds))
    require(i == want, f"{what}: info", got=i, want=want)


def run(case):
    ds = mk(case["d"])
    if "ren" in case:
        m = name_map(case["ren"])
        ds, case = rename(ds, m), rename(case, m)
    labels = od.labels_of(ds)
    with scratch() as d:
        ev = od.build(ds, case["l"], d + "/x", FIELDS)
        n = [0]

        def flt(e, **kw):
            n[0] += 1
            if case["l"]["k"] == "file":
                kw["path"] = f"{d}/f{n[0]}"
            if case.get("bs"):
                kw["batch_size"] = case["bs"]
            step()
            return e.filter(**{k: v for k, v in kw.items() if v is not None})

        fd, fg, fp = case.get("fd"), case.get("fg"), case.get("fp")
        rows = fds(ds, fd, fg, fp)
        state(rows)
        if case["op"] == "direct":
            check_eval(ev, rows, labels, "direct filter", datums=expr(fd))
        else:
            if not rows:
                return
            f = flt(ev, datums=expr(fd), groundtruths=expr(fg), predictions=expr(fp))
            check_eval(f, rows, labels, "filtered evaluator")
            outcome(od.obs_cm(f, IOUS, SCORES))
            if case["op"] == "compose":
                r2 = fds(rows, case.get("fd2"), case.get("fg2"), case.get("fp2"))
                if "fd2" in case:
                    check_eval(f, fds(rows, case["fd2"]), labels, "direct filter on filtered evaluator", datums=expr(case["fd2"]))
                if r2:
                    f2 = flt(f, datums=expr(case.get("fd2")), groundtruths=expr(case.get("fg2")), predictions=expr(case.get("fp2")))
                    check_eval(f2, r2, labels, "filter of a filter")
                check_eval(f, rows, labels, "first filtered evaluator after the second filter")
        check_eval(ev, ds, labels, "original after filtering", ious=[0.3], scores=[0.2])


def datum_filters(name):
    for s in subsets([d["u"] for d in mk(name)]):
        yield ["in", "datum_uid", list(s)]
    for g in subsets(["x", "y"]):
        yield ["in", "grp", list(g)]
    for k in (2, 3):
        yield ["ge", "n", k]
        yield ["and", ["lt", "n", k], ["eq", "grp", "x"]]
    yield ["not", ["eq", "grp", "y"]]
    yield ["or", ["eq", "datum_uid", "d1"], ["ge", "n", 4]]


def gt_filters(name, full=True):
    ds = mk(name)
    us = sorted({g["u"] for d in ds for g in d["g"]})
    for s in subsets(us):
        yield ["in", "gt_uid", list(s)]
    if full:
        for s in nonempty_subsets(sorted(od.labels_of(ds))):
            yield ["in", "gt_label", list(s)]
        yield ["eq", "gm", 1]
        yield ["ge", "gm", 2]
        yield ["not", ["eq", "gm", 1]]
        for l in "ab":
            yield ["and", ["eq", "gt_label", l], ["eq", "grp", "x"]]
            yield ["or", ["eq", "gt_label", l], ["eq", "datum_uid", "d1"]]


def pd_filters(name, full=True):
    ds = mk(name)
    us = sorted({p["u"] for d in ds for p in d["p"]})
    for s in subsets(us):
        yield ["in", "pd_uid", list(s)]
    if full:
        for s in nonempty_subsets(sorted(od.labels_of(ds))):
            yield ["in", "pd_label", list(s)]
        for k in ("u", "v"):
            yield ["eq", "pm", k]
        for l in "ab":
            yield ["and", ["eq", "pd_label", l], ["eq", "grp", "x"]]
            yield ["or", ["eq", "pd_label", l], ["eq", "datum_uid", "d1"]]
        for t in (0.3, 0.45, 0.6, 0.8):
            yield ["ge", "pd_score", t]
            yield ["lt", "pd_score", t]


def gen_direct(tier):
    for n in ALL:
        for l in (LAYS if tier != "quick" else LAYS[:4]):
            for f in datum_filters(n):
                yield {"d": n, "l": l, "op": "direct", "fd": f}


def gen_one(tier):
    for n in ALL:
        for l in (LAYS if tier != "quick" else [LAYS[0], LAYS[2]]):
            step_ = 1 if l["k"] == "mem" or tier != "quick" else 3
            for k, fs in (("fd", datum_filters(n)), ("fg", gt_filters(n)), ("fp", pd_filters(n))):
                for i, f in enumerate(fs):
                    if i % step_ == 0:
                        yield {"d": n, "l": l, "op": "filter", k: f}


def gen_combined(tier):
    for n in ALL:
        D = [None, ["eq", "grp", "x"], ["in", "datum_uid", ["d1"]]]
        Gs, Ps = list(gt_filters(n)), list(pd_filters(n))
        if tier == "quick":
            Gs, Ps = Gs[::3], Ps[::4]
        for l in ([LAYS[0]] if tier == "quick" else [LAYS[0], LAYS[3]]):
            for a, b, c in itertools.product(D, Gs, Ps):
                if l["k"] == "file" and (Gs.index(b) + Ps.index(c)) % 5:
                    continue
                yield {"d": n, "l": l, "op": "filter", "fd": a, "fg": b, "fp": c}
        for b, c in itertools.product(Gs[::3], Ps[::3]):
            yield {"d": n, "l": {"k": "file", "b": 2, "r": 3}, "op": "filter", "fg": b, "fp": c, "bs": 1}


def gen_compose(tier):
    for n in ALL:
        firsts = [("fd", f) for f in list(datum_filters(n))[::2]] + [("fg", f) for f in list(gt_filters(n))[1::3]] + [("fp", f) for f in list(pd_filters(n))[1::5]]
        seconds = [("fd2", f) for f in list(datum_filters(n))[::3]] + [("fg2", f) for f in list(gt_filters(n))[::4]] + [("fp2", f) for f in list(pd_filters(n))[::6]]
        if tier == "quick":
            firsts, seconds = firsts[::2], seconds[::2]
        for l in ([LAYS[0]] if tier == "quick" else [LAYS[0], LAYS[2], LAYS[3]]):
            for (k1, f1), (k2, f2) in itertools.product(firsts, seconds):
                yield {"d": n, "l": l, "op": "compose", k1: f1, k2: f2}
        for (k1, f1), (k2, f2) in itertools.product(firsts[::3], seconds[::3]):
            yield {"d": n, "l": LAYS[3], "op": "compose", k1: f1, k2: f2}


def gen_names(tier):
    fs = [{"fd": ["eq", "datum_uid", "d0"]}, {"fd": ["not", ["eq", "datum_uid", "d1"]]}, {"fg": ["eq", "gt_label", "a"]}, {"fg": ["not", ["in", "gt_uid", ["d0g0"]]]},
          {"fp": ["eq", "pd_label", "b"]}, {"fp": ["not", ["eq", "pd_uid", "d0p1"]]}]
    for k in range(len(PAIRS)):
        for n in (ALL if tier != "quick" else ["base", "multi"]):
            for l in [LAYS[0], LAYS[3]]:
                for f in fs:
                    yield dict(f, d=n, l=l, op="filter", ren=k)
                    if "fd" in f:
                        yield dict(f, d=n, l=l, op="direct", ren=k)


def gen_scale(tier):
    for n in ((40, 300) if tier == "quick" else (40, 130, 300, 700)):
        for l in ({"k": "mem"}, {"k": "file", "b": 256, "r": 300}):
            for k in (1, 20, 128, 256, n - 1):
                if k < n:
                    yield {"d": f"big{n}", "l": l, "op": "direct", "fd": ["ge", "n", k]}
                    yield {"d": f"big{n}", "l": l, "op": "filter", "fd": ["lt", "n", k + 1], "fg": ["ge", "gm", 1], "fp": ["ge", "pd_score", 0.3]}
            yield {"d": f"big{n}", "l": l, "op": "filter", "fg": ["in", "gt_label", ["k0", "k7", "k19"]], "fp": ["or", ["lt", "n", 290], ["eq", "pd_label", "k3"]]}
            yield {"d": f"big{n}", "l": l, "op": "filter", "fd": ["in", "datum_uid", [f"d{i}" for i in range(0, n, 3)]]}
            yield {"d": f"big{n}", "l": l, "op": "filter", "fp": ["in", "pd_uid", [f"d{i}p0" for i in range(0, n, 2)]]}


def known_findings():
    """one metadata field name used on both sides (or for datum and annotation): a pair's row has one column for both."""
    out = {}
    for key, m, gm, pm, f in (("shared-field-g", {}, {"n": 1}, {"n": 2}, "fg"), ("shared-field-p", {}, {"n": 1}, {}, "fp"), ("shared-field-d", {"n": 1}, {"n": 2}, {}, "fd")):
        ds = [{"u": "d0", "m": m, "g": [{"u": "g0", "b": [0, 10, 0, 1], "l": "a", "m": gm}], "p": [{"u": "p0", "b": [0, 10, 0, 1], "l": ["a"], "s": [0.9], "m": pm}]},
              {"u": "d1", "m": {"n": 1}, "g": [{"u": "g1", "b": [0, 10, 0, 1], "l": "a", "m": {}}], "p": [{"u": "p1", "b": [0, 10, 0, 1], "l": ["a"], "s": [0.9], "m": {}}]}]
        kw = {f: ["eq", "n", 1]}
        try:
            ev = od.build(ds, {"k": "mem"}, None, FIELDS)
            ev = ev.filter(**{{"fd": "datums", "fg": "groundtruths", "fp": "predictions"}[f]: expr(kw[f])})
            check_eval(ev, fds(ds, **kw), {"a"}, "shared field")
            out[key] = False
        except Exception:
            out[key] = True
    return out


def gen_meta(tier):
    for i, c in enumerate(meta_cases(["d", "g", "p"])):
        if tier != "quick" or i % 3 == 0 or "absent" not in c["vs"]:
            yield dict(c, file=i % (19 if tier == "quick" else 3) == 1)


def run_meta(case):
    ds, vs, lv, f = mk("sameuid"), case["vs"], case["lv"], case["f"]
    for d in ds:
        d["m"] = {"n": 0}
    if lv == "d":
        for d, v in zip(ds, vs):
            d["m"] = put(d["m"], v)
    else:
        for x, v in zip([x for d in ds for x in d[lv]], vs + vs[::-1]):
            x["m"] = put(x["m"], v)
    labels = od.labels_of(ds)
    with scratch() as d:
        fl = case["file"]
        ev = od.build(ds, {"k": "file", "b": 1, "r": 4} if fl else {"k": "mem"}, d + "/x", FIELDS + [("q", case["kind"])])
        for i, k in enumerate({"d": ["fd", "fg", "fp"], "g": ["fg"], "p": ["fp"]}[lv]):
            rows = fds(ds, **{k: f})
            state(rows)
            outcome([k, len(rows)])
            if k == "fd":
                check_eval(ev, rows, labels, "direct filter", datums=expr(f))
            if rows:
                step()
                g = ev.filter(**{{"fd": "datums", "fg": "groundtruths", "fp": "predictions"}[k]: expr(f)}, **({"path": f"{d}/{i}"} if fl else {}))
                check_eval(g, rows, labels, f"filter {k}")


FAMILIES = [
    Family("metadata", gen_meta, run_meta, "datum, ground truth or prediction metadata of 4 kinds x every assignment of {absent, None, false-like, true-like} (3 values), 5 filters on the field"),
    Family("scale", gen_scale, run, "40 and 300 (700) datums over 20 labels, filters cutting at 8-bit boundaries, combined filters, memory and file", case_timeout=600),
    Family("direct", gen_direct, run, "5 datasets (tied scores, repeated annotation uids included) x 4 (5) layouts x every datum subset by uid, metadata comparisons, boolean combinations"),
    Family("one-filter", gen_one, run, "every subset of datums, of ground truths and of predictions by uid; every label subset; metadata and score filters; memory and files"),
    Family("combined", gen_combined, run, "datum x ground truth x prediction filters together (every 3rd/4th in quick)"),
    Family("names", gen_names, run, "21 pairs of unusual label, datum and annotation names x 2 (5) datasets x filters naming them, memory and file"),
    Family("composed", gen_compose, run, "a filter of each kind followed by a second one of each kind on the result"),
]
