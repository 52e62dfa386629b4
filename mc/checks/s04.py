import itertools
from .. import seg
from ..core import Family, outcome, require, scratch, state, step
from ..util import PAIRS, meta_cases, put, name_map, rename, expr, holds, nonempty_subsets, subsets

ASSUMPTIONS = ["one mask per label and side in filtered datasets; datum, ground truth and prediction metadata use distinct field names; filters selecting no datum are covered by X05"]
FIELDS = [("grp", "string"), ("n", "int64"), ("gm", "int64"), ("pm", "string")]


def M(s, metas, key):
    out = []
    for l in sorted({c for c in s if c.strip()}):
        m = metas.get(l)
        out.append({"l": l, "px": [i for i, c in enumerate(s) if c == l], "m": None if m is None else {key: m}})
    return out


def big(n):
    """n images over 1-30 labels."""
    L = [chr(97 + i) for i in range(26)] + list("ABCD")
    out = []
    for i in range(n):
        g = "".join((L[(i * 7 + j * j) % (3 + i % 28)] if (i + j) % 5 else " ") for j in range(6))
        p = "".join((L[(i * 5 + j * 3) % (2 + i % 29)] if (i * j) % 4 != 1 else " ") for j in range(6))
        out.append((["x", "y", None][i % 3], g, p, {g[0]: i % 3 + 1} if g[0].strip() else {}, {p[1]: "uv"[i % 2]} if p[1].strip() else {}))
    return out


SETS = {
    "base": [("x", "ab  c", "aab c", dict(a=1, b=2), dict(a="u", b="v")), ("y", "bb aa", "bbb a", dict(b=1), dict(b="u")),
             (None, "     ", "  a  ", {}, dict(a="v")), ("x", "cc   ", "     ", dict(c=2), {})],
    "two": [("x", "abab", "abba", dict(a=1, b=1), dict(a="u", b="u")), ("y", "aab ", "  ab", dict(a=2, b=1), dict(a="v", b="u"))],
}
LAYS = [{"k": "mem"}, {"k": "mem", "b": 1}, {"k": "file", "b": 1, "r": 1}, {"k": "file", "b": 8, "r": 12}, {"k": "file"}]


def dataset(name):
    out = []
    for i, (grp, g, p, gm, pm) in enumerate(big(int(name[3:])) if name.startswith("big") else SETS[name]):
        m = {"n": i + 1}
        if grp:
            m["grp"] = grp
        out.append({"u": f"d{i}", "sh": [1, len(g)], "m": m, "g": M(g, gm, "gm"), "p": M(p, pm, "pm")})
    return out


def fds(ds, fd=None, fg=None, fp=None):
    """Model: matching images, with the pixels of non-matching masks turned into background."""
    out = []
    for d in ds:
        if holds(fd, dict(d["m"], datum_uid=d["u"])):
            out.append(dict(d, g=[x for x in d["g"] if holds(fg, dict(d["m"], **(x["m"] or {}), gt_label=x["l"], datum_uid=d["u"]))],
                            p=[x for x in d["p"] if holds(fp, dict(d["m"], **(x["m"] or {}), pd_label=x["l"], datum_uid=d["u"]))]))
    return out


def run(case):
    ds = dataset(case["d"])
    if "ren" in case:
        m = name_map(case["ren"])
        ds, case = rename(ds, m), rename(case, m)
    labels = seg.labels_of(ds)
    with scratch() as d:
        ev = seg.build(ds, case["l"], d + "/x", FIELDS)
        n = [0]

        def flt(e, **kw):
            n[0] += 1
            if case["l"]["k"] == "file":
                kw["path"] = f"{d}/f{n[0]}"
            step()
            return e.filter(**{k: v for k, v in kw.items() if v is not None})

        fd, fg, fp = case.get("fd"), case.get("fg"), case.get("fp")
        rows = fds(ds, fd, fg, fp)
        state(rows)
        if case["op"] == "direct":
            seg.check(ev, rows, labels, "direct filter", datums=expr(fd))
        else:
            if not rows:
                return
            f = flt(ev, datums=expr(fd), groundtruths=expr(fg), predictions=expr(fp))
            got, _ = seg.check(f, rows, labels, "filtered evaluator")
            outcome(got)
            if case["op"] == "compose":
                r2 = fds(rows, case.get("fd2"), case.get("fg2"), case.get("fp2"))
                if "fd2" in case:
                    seg.check(f, fds(rows, case["fd2"]), labels, "direct filter on filtered evaluator", datums=expr(case["fd2"]))
                if r2:
                    f2 = flt(f, datums=expr(case.get("fd2")), groundtruths=expr(case.get("fg2")), predictions=expr(case.get("fp2")))
                    seg.check(f2, r2, labels, "filter of a filter")
                seg.check(f, rows, labels, "first filtered evaluator after the second filter")
        seg.check(ev, ds, labels, "original after filtering")


def datum_filters(name):
    for s in subsets([d["u"] for d in dataset(name)]):
        yield ["in", "datum_uid", list(s)]
    for g in subsets(["x", "y"]):
        yield ["in", "grp", list(g)]
    for k in (2, 3, 4):
        yield ["ge", "n", k]
        yield ["and", ["lt", "n", k], ["eq", "grp", "x"]]
    yield ["not", ["eq", "grp", "y"]]
    yield ["or", ["eq", "datum_uid", "d1"], ["ge", "n", 4]]


def gt_filters(name):
    for s in subsets(sorted(seg.labels_of(dataset(name)))):
        yield ["in", "gt_label", list(s)]
    for k in (1, 2, 3):
        yield ["eq", "gm", k]
        yield ["ge", "gm", k]
    yield ["and", ["eq", "gt_label", "a"], ["eq", "datum_uid", "d0"]]
    yield ["eq", "grp", "x"]
    yield ["or", ["ge", "n", 2], ["eq", "gt_label", "b"]]


def pd_filters(name):
    for s in subsets(sorted(seg.labels_of(dataset(name)))):
        yield ["in", "pd_label", list(s)]
    for k in ("u", "v", "w"):
        yield ["eq", "pm", k]
    yield ["or", ["eq", "pm", "u"], ["eq", "pd_label", "c"]]
    yield ["or", ["eq", "datum_uid", "d1"], ["eq", "pd_label", "b"]]
    yield ["and", ["eq", "grp", "x"], ["not", ["eq", "pd_label", "a"]]]
    yield ["lt", "n", 2]


def gen_direct(tier):
    for n in SETS:
        for l in LAYS:
            for f in datum_filters(n):
                yield {"d": n, "l": l, "op": "direct", "fd": f}


def gen_filter(tier):
    for n in SETS:
        Ds = [None] + list(datum_filters(n))
        for l in LAYS:
            for a, b, c in itertools.product(Ds, [None] + list(gt_filters(n)), [None] + list(pd_filters(n))):
                k = Ds.index(a)
                if (l["k"] == "file" or tier == "quick") and sum(x is not None for x in (a, b, c)) == 3 and k % 4:
                    continue
                if l["k"] == "file" and tier == "quick" and (k > 4 or l == LAYS[4] or k % 2):
                    continue
                yield {"d": n, "l": l, "op": "filter", "fd": a, "fg": b, "fp": c}


def gen_compose(tier):
    for n in SETS:
        firsts = [("fd", f) for f in datum_filters(n)] + [("fg", f) for f in gt_filters(n)] + [("fp", f) for f in pd_filters(n)]
        seconds = [("fd2", f) for f in datum_filters(n)] + [("fg2", f) for f in gt_filters(n)] + [("fp2", f) for f in pd_filters(n)]
        for l in ([LAYS[0], LAYS[3]] if tier == "quick" else LAYS):
            j = 2 if l["k"] == "mem" or tier != "quick" else 7
            for (k1, f1), (k2, f2) in itertools.product(firsts[::j], seconds[::j]):
                yield {"d": n, "l": l, "op": "compose", k1: f1, k2: f2}


def gen_names(tier):
    fs = [{"fd": ["eq", "datum_uid", "d0"]}, {"fd": ["not", ["eq", "datum_uid", "d1"]]}, {"fg": ["eq", "gt_label", "a"]}, {"fg": ["not", ["in", "gt_label", ["b"]]]},
          {"fp": ["eq", "pd_label", "b"]}, {"fp": ["not", ["eq", "pd_label", "a"]]}]
    for k in range(len(PAIRS)):
        for n in SETS:
            for l in [LAYS[0], LAYS[3]]:
                for f in fs:
                    yield dict(f, d=n, l=l, op="filter", ren=k)
                    if "fd" in f:
                        yield dict(f, d=n, l=l, op="direct", ren=k)


def gen_scale(tier):
    for n in ((40, 300) if tier == "quick" else (40, 130, 300, 700)):
        for l in ({"k": "mem"}, {"k": "file", "b": 50, "r": 200}):
            if n > 40 and l["k"] == "file" and tier == "quick":
                l = {"k": "file", "b": 2000, "r": 3000}
            for k in (1, 2, n // 2, 128, 256, n - 1):
                if k >= n:
                    continue
                yield {"d": f"big{n}", "l": l, "op": "direct", "fd": ["ge", "n", k]}
                yield {"d": f"big{n}", "l": l, "op": "filter", "fd": ["lt", "n", k + 1], "fg": ["in", "gt_label", list("abcZAB")], "fp": ["or", ["eq", "pm", "u"], ["eq", "pd_label", "a"]]}
            yield {"d": f"big{n}", "l": l, "op": "filter", "fd": ["in", "datum_uid", [f"d{i}" for i in range(0, n, 3)]]}
            yield {"d": f"big{n}", "l": l, "op": "filter", "fg": ["ge", "gm", 2], "fp": ["eq", "pm", "v"]}


def known_findings():
    """masks of one side sharing a label but not their metadata: the metadata of the last one stands for all."""
    out = {}
    for side, key, a, b in (("g", "gm", 1, 2), ("p", "pm", "u", "v")):
        ds = [{"u": "d0", "sh": [1, 4], "m": {"n": 1}, "g": [], "p": []}]
        ds[0][side] = [{"l": "a", "px": [0], "m": {key: a}}, {"l": "a", "px": [1, 2], "m": {key: b}}]
        f = ["eq", key, a]
        try:
            ev = seg.build(ds, {"k": "mem"}, None, FIELDS)
            ev = ev.filter(**{"groundtruths" if side == "g" else "predictions": expr(f)})
            seg.check(ev, fds(ds, **{"f" + side: f}), {"a"})
            out["repeated-label-" + side] = False
        except Exception:
            out["repeated-label-" + side] = True
    # one metadata field name used on both sides (or for image and mask): a pair's row has one column for both
    for key, m, gm, pm, f in (("shared-field-g", {}, {"n": 2}, {"n": 1}, "fg"), ("shared-field-p", {}, {"n": 1}, {}, "fp"), ("shared-field-d", {"n": 1}, {"n": 2}, {}, "fd")):
        ds = [{"u": "d0", "sh": [1, 4], "m": m, "g": [{"l": "a", "px": [0, 1], "m": gm}], "p": [{"l": "a", "px": [0], "m": pm}]}]
        kw = {f: ["eq", "n", 1]}
        try:
            ev = seg.build(ds, {"k": "mem"}, None, FIELDS)
            ev = ev.filter(**{{"fd": "datums", "fg": "groundtruths", "fp": "predictions"}[f]: expr(kw[f])})
            seg.check(ev, fds(ds, **kw), {"a"})
            out[key] = False
        except Exception:
            out[key] = True
    return out


def gen_meta(tier):
    for i, c in enumerate(meta_cases(["d", "g", "p"])):
        yield dict(c, file=i % (9 if tier == "quick" else 3) == 1)


def run_meta(case):
    ds, vs, lv, f = dataset("base"), case["vs"], case["lv"], case["f"]
    for d in ds:
        d["m"] = {"n": 0}
    if lv == "d":
        for d, v in zip(ds, vs):
            d["m"] = put(d["m"], v)
    else:
        for x, v in zip([x for d in ds for x in d[lv]], vs + vs[::-1]):
            x["m"] = put(x["m"] or {}, v)
    labels = seg.labels_of(ds)
    with scratch() as d:
        fl = case["file"]
        ev = seg.build(ds, {"k": "file", "b": 8, "r": 12} if fl else {"k": "mem"}, d + "/x", FIELDS + [("q", case["kind"])])
        for i, k in enumerate({"d": ["fd", "fg", "fp"], "g": ["fg"], "p": ["fp"]}[lv]):
            rows = fds(ds, **{k: f})
            state(rows)
            outcome([k, len(rows)])
            if k == "fd":
                seg.check(ev, rows, labels, "direct filter", datums=expr(f))
            if rows:
                step()
                g = ev.filter(**{{"fd": "datums", "fg": "groundtruths", "fp": "predictions"}[k]: expr(f)}, **({"path": f"{d}/{i}"} if fl else {}))
                seg.check(g, rows, labels, f"filter {k}")


FAMILIES = [
    Family("metadata", gen_meta, run_meta, "image, ground truth or prediction mask metadata of 4 kinds x every assignment of {absent, None, false-like, true-like} (3 values), 5 filters on the field"),
    Family("scale", gen_scale, run, "40 and 300 (700) images over up to 30 labels, filters cutting at 8-bit boundaries, every third image, label and metadata filters", case_timeout=600),
    Family("direct", gen_direct, run, "2 datasets x 5 layouts x every image subset by uid, metadata comparisons, boolean combinations"),
    Family("materialised", gen_filter, run, "datum x ground truth x prediction filters: every label subset on either side, metadata filters, memory and files"),
    Family("names", gen_names, run, "21 pairs of unusual label and image names x 2 datasets x filters naming them, memory and file"),
    Family("composed", gen_compose, run, "a filter of each kind followed by a second one of each kind"),
]
