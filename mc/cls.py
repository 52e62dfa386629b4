"""Classification: builders over the public API, normalised observations, reference model.

A dataset is a list of datums {"u": uid, "g": gt label, "p": [labels], "s": [scores], "m": metadata or None}.
A layout is {"k": "mem", "b": batch} or {"k": "file", "b":, "r":, "c":}, plus "f" (finalize batch size)
and "split" (sizes of the add_data calls).
"""
import os
from fractions import Fraction

from valor_lite.classification import Classification, Evaluator, Loader, MetricType

from .core import require, step
from .util import add_call, chunks, close, diff

MEM = {"k": "mem"}


def datum(d):
    return Classification(uid=d["u"], groundtruth=d["g"], predictions=list(d["p"]),
                          scores=list(d["s"]), metadata=d.get("m"))


def loader(layout, path=None, fields=None):
    kw = {}
    if layout.get("b"):
        kw["batch_size"] = layout["b"]
    if fields is not None:
        kw["metadata_fields"] = fields
    step()
    if layout["k"] == "mem":
        return Loader.in_memory(**kw)
    if layout.get("r"):
        kw["rows_per_file"] = layout["r"]
    if layout.get("c"):
        kw["compression"] = layout["c"]
    return Loader.persistent(path, **kw)


def build(ds, layout=MEM, path=None, fields=None):
    ld = loader(layout, path, fields)
    for part in chunks(ds, layout.get("split") or [len(ds)]):
        add_call(ld.add_data, [datum(d) for d in part], layout)
        step()
    step()
    if layout.get("f"):
        return ld.finalize(batch_size=layout["f"])
    return ld.finalize()


def labels_of(ds):
    return {d["g"] for d in ds} | {l for d in ds for l in d["p"]}


# ------------------------------------------------------------- observations
def obs_pr(ev, ts, hardmax, datums=None):
    """{metric: {(label, position of threshold)...}}: values per threshold position."""
    kw = {} if datums is None else {"datums": datums}
    step()
    res = ev.compute_precision_recall(score_thresholds=list(ts), hardmax=hardmax, **kw)
    out = {}
    for mt, ms in res.items():
        name = mt.value
        for m in ms:
            require(m.type == name, f"metric type {m.type} listed under {name}")
            p = m.parameters
            require(p["hardmax"] == hardmax, "hardmax parameter")
            key = (p.get("label"), p["score_threshold"])
            out.setdefault(name, {}).setdefault(key, []).append(m.value)
    return out


def obs_cm(ev, ts, hardmax, datums=None):
    kw = {} if datums is None else {"datums": datums}
    step()
    if ts is None:   # the documented defaults
        ts, hardmax = [0.0], True
        res = ev.compute_confusion_matrix(**kw)
    else:
        res = ev.compute_confusion_matrix(score_thresholds=list(ts), hardmax=hardmax, **kw)
    require([m.parameters["score_threshold"] for m in res] == list(ts),
            "one confusion matrix per requested threshold, in order", got=[m.parameters for m in res])
    require(all(m.parameters["hardmax"] == hardmax and m.type == "ConfusionMatrix" for m in res), "parameters")
    return [dict(cm=m.value["confusion_matrix"], ugt=m.value["unmatched_ground_truths"]) for m in res]


def obs_ex(ev, ts, hardmax, datums=None, limit=None, offset=0, raw=False):
    kw = {} if datums is None else {"datums": datums}
    if limit is not None:
        kw["limit"] = limit
    if offset:
        kw["offset"] = offset
    step()
    if ts is None:   # the documented defaults
        ts, hardmax = [0.0], True
        res = ev.compute_examples(**kw)
    else:
        res = ev.compute_examples(score_thresholds=list(ts), hardmax=hardmax, **kw)
    out = []
    for m in res:
        require(m.type == "Examples" and m.parameters["hardmax"] == hardmax, "example parameters")
        v = m.value
        out.append((v["datum_id"], m.parameters["score_threshold"], sorted(v["true_positives"]),
                    sorted(v["false_positives"]), sorted(v["false_negatives"])))
    return out


def obs_cme(ev, ts, hardmax, datums=None):
    kw = {} if datums is None else {"datums": datums}
    step()
    if ts is None:   # the documented defaults
        ts, hardmax = [0.0], True
        res = ev.compute_confusion_matrix_with_examples(**kw)
    else:
        res = ev.compute_confusion_matrix_with_examples(score_thresholds=list(ts), hardmax=hardmax, **kw)
    require([m.parameters["score_threshold"] for m in res] == list(ts),
            "one matrix with examples per requested threshold, in order")
    out = []
    for m in res:
        cm = {g: {p: dict(count=c["count"], ex=sorted((e["datum_id"], e["score"]) for e in c["examples"]))
                  for p, c in row.items()} for g, row in m.value["confusion_matrix"].items()}
        ugt = {g: dict(count=c["count"], ex=sorted((e["datum_id"],) for e in c["examples"]))
               for g, c in m.value["unmatched_ground_truths"].items()}
        out.append(dict(cm=cm, ugt=ugt))
    return out


def obs_roc(ev):
    step()
    res = ev.compute_rocauc()
    require(set(k.value for k in res) == {"ROCAUC", "mROCAUC"}, "metrics")
    per = {}
    for m in res[MetricType.ROCAUC]:
        require(m.parameters["label"] not in per, "duplicate label")
        per[m.parameters["label"]] = m.value
    require(len(res[MetricType.mROCAUC]) == 1, "one mROCAUC")
    return dict(per=per, mean=res[MetricType.mROCAUC][0].value)


def info(ev, **kw):
    step()
    i = ev.get_info(**kw) if kw else ev.info
    return dict(datums=i.number_of_datums, labels=i.number_of_labels)


def observe(ev, ts, hms=(True, False), datums=None, roc=True):
    """Everything a user can ask, as one comparable value."""
    out = {}
    for hm in hms:
        out[f"pr{hm}"] = {k: {repr(kk): v for kk, v in d.items()} for k, d in obs_pr(ev, ts, hm, datums).items()}
        out[f"cm{hm}"] = obs_cm(ev, ts, hm, datums)
        out[f"ex{hm}"] = sorted(obs_ex(ev, ts, hm, datums))
        out[f"cme{hm}"] = obs_cme(ev, ts, hm, datums)
    if roc and datums is None:
        out["roc"] = obs_roc(ev)
    out["info"] = info(ev, datums=datums) if datums is not None else info(ev)
    return out


# ------------------------------------------------------------- model
def rows_of(ds):
    """Model rows: per datum (uid, gt, [(label, score, winner)])."""
    out = []
    for d in ds:
        best = max(range(len(d["s"])), key=lambda i: (d["s"][i], -i))
        out.append((d["u"], d["g"], [(l, s, i == best) for i, (l, s) in enumerate(zip(d["p"], d["s"]))]))
    return out


def positives(row, t, hm):
    return [(l, s) for (l, s, w) in row[2] if s > 0 and s >= t and (w or not hm)]


def m_counts(rows, labels, t, hm):
    c = {l: dict(tp=0, fp=0, fn=0, tn=0) for l in labels}
    for row in rows:
        _, g, preds = row
        pos = {l for l, _ in positives(row, t, hm)}
        scored = {l for l, _, _ in preds}
        for l in scored:
            if l == g:
                if l in pos:
                    c[l]["tp"] += 1
            elif l in pos:
                c[l]["fp"] += 1
            else:
                c[l]["tn"] += 1
        if (g in scored and g not in pos) or (pos - {g}):
            c[g]["fn"] += 1
    return c


def ratio(a, b):
    return a / b if b else 0.0


def m_pr(rows, labels, ts, hm, n_datums=None):
    n = len(rows) if n_datums is None else n_datums
    out = {k: {} for k in ("Counts", "Precision", "Recall", "F1", "Accuracy")}
    for t in ts:
        c = m_counts(rows, labels, t, hm)
        out["Accuracy"].setdefault((None, t), []).append(ratio(sum(x["tp"] for x in c.values()), n))
        for l in labels:
            x = c[l]
            p, r = ratio(x["tp"], x["tp"] + x["fp"]), ratio(x["tp"], x["tp"] + x["fn"])
            out["Counts"].setdefault((l, t), []).append(x)
            out["Precision"].setdefault((l, t), []).append(p)
            out["Recall"].setdefault((l, t), []).append(r)
            out["F1"].setdefault((l, t), []).append(ratio(2 * p * r, p + r))
    return out


def m_cme(rows, labels, t, hm):
    cm = {g: {p: dict(count=0, ex=[]) for p in labels} for g in labels}
    ugt = {g: dict(count=0, ex=[]) for g in labels}
    for row in rows:
        u, g, _ = row
        pos = positives(row, t, hm)
        for l, s in pos:
            cm[g][l]["count"] += 1
            cm[g][l]["ex"].append((u, s))
        if not pos:
            ugt[g]["count"] += 1
            ugt[g]["ex"].append((u,))
    for g in labels:
        ugt[g]["ex"].sort()
        for p in labels:
            cm[g][p]["ex"].sort()
    return dict(cm=cm, ugt=ugt)


def m_cm(rows, labels, t, hm):
    x = m_cme(rows, labels, t, hm)
    return dict(cm={g: {p: c["count"] for p, c in r.items()} for g, r in x["cm"].items()},
                ugt={g: c["count"] for g, c in x["ugt"].items()})


def m_ex(rows, ts, hm):
    out = []
    for row in rows:
        u, g, _ = row
        for t in ts:
            pos = [l for l, _ in positives(row, t, hm)]
            out.append((u, t, [g] if g in pos else [], sorted(l for l in pos if l != g), [] if g in pos else [g]))
    return out


def m_roc(rows, labels):
    per = {}
    for l in labels:
        P = [s for _, g, ps in rows if g == l for (x, s, _) in ps if x == l]
        N = [s for _, g, ps in rows if g != l for (x, s, _) in ps if x == l]
        if not P or not N:
            per[l] = 0.0
            continue
        tot = sum(Fraction(1) if p > n else Fraction(1, 2) if p == n else Fraction(0) for p in P for n in N)
        per[l] = float(tot / (len(P) * len(N)))
    return dict(per=per, mean=sum(per.values()) / len(per))


def expect(what, got, want):
    if not close(got, want):
        require(False, f"{what}: implementation vs model: " + "; ".join(diff(got, want)))
