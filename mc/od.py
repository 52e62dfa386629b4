"""Object detection: builders over the public API, normalised observations, reference model.

A dataset is a list of datums {"u", "g": [gt], "p": [pd], "m": metadata}; a gt is {"u","b","l","m"} and a
pd {"u","b","l":[labels],"s":[scores],"m"}; "b" is [xmin,xmax,ymin,ymax] (integers, so the exact IoU is known).
"""
import itertools
from fractions import Fraction

import numpy as np
import shapely
from valor_lite.object_detection import (
    Bitmask, BoundingBox, Detection, Evaluator, Loader, MetricType, Polygon,
)

from .core import require, step
from .util import add_call, chunks, close, diff

MEM = {"k": "mem"}


def _ann(x, labels, scores, rep, shape):
    b = x["b"]
    kw = dict(uid=x["u"], labels=labels, metadata=x.get("m"))
    if scores is not None:
        kw["scores"] = scores
    if rep == "bbox":
        return BoundingBox(xmin=b[0], xmax=b[1], ymin=b[2], ymax=b[3], **kw)
    if rep == "poly":
        return Polygon(shape=shapely.Polygon([(b[0], b[2]), (b[1], b[2]), (b[1], b[3]), (b[0], b[3])]), **kw)
    m = np.zeros(shape, dtype=np.bool_)
    m[b[2]:b[3], b[0]:b[1]] = True
    return Bitmask(mask=m, **kw)


def detection(d, rep="bbox", shape=None):
    return Detection(
        uid=d["u"],
        groundtruths=[_ann(g, [g["l"]], None, rep, shape) for g in d["g"]],
        predictions=[_ann(p, list(p["l"]), list(p["s"]), rep, shape) for p in d["p"]],
        metadata=d.get("m"),
    )


def grid_of(ds):
    bs = [x["b"] for d in ds for x in d["g"] + d["p"]]
    return (max(b[3] for b in bs), max(b[1] for b in bs))


def loader(layout, path=None, fields=None):
    kw = {}
    if layout.get("b"):
        kw["batch_size"] = layout["b"]
    if fields is not None:
        kw["metadata_fields"] = fields
    step()
    if layout["k"] == "mem":
        return Loader.in_memory(**kw)
    if layout.get("r"):
        kw["rows_per_file"] = layout["r"]
    if layout.get("c"):
        kw["compression"] = layout["c"]
    return Loader.persistent(path, **kw)


ADD = {"bbox": "add_bounding_boxes", "poly": "add_polygons", "mask": "add_bitmasks"}


def build(ds, layout=MEM, path=None, fields=None, rep="bbox"):
    ld = loader(layout, path, fields)
    if not isinstance(rep, str):        # one representation per datum, each added by a call of its own
        shape = grid_of(ds) if "mask" in rep else None
        for d, r in zip(ds, rep):
            add_call(getattr(ld, ADD[r]), [detection(d, r, shape)], layout)
            step()
        step()
        return ld.finalize()
    shape = grid_of(ds) if rep == "mask" else None
    for part in chunks(ds, layout.get("split") or [len(ds)]):
        add_call(getattr(ld, ADD[rep]), [detection(d, rep, shape) for d in part], layout)
        step()
    step()
    return ld.finalize(batch_size=layout["f"]) if layout.get("f") else ld.finalize()


def labels_of(ds):
    return {g["l"] for d in ds for g in d["g"]} | {l for d in ds for p in d["p"] for l in p["l"]}


# ------------------------------------------------------------- observations
PR_KEYS = {
    "Counts": ("label", "iou_threshold", "score_threshold"),
    "Precision": ("label", "iou_threshold", "score_threshold"),
    "Recall": ("label", "iou_threshold", "score_threshold"),
    "F1": ("label", "iou_threshold", "score_threshold"),
    "AP": ("label", "iou_threshold"), "mAP": ("iou_threshold",),
    "PrecisionRecallCurve": ("label", "iou_threshold"),
    "AR": ("label", "score_threshold"), "mAR": ("score_threshold",),
    "APAveragedOverIOUs": ("label",), "mAPAveragedOverIOUs": (),
    "ARAveragedOverScores": ("label",), "mARAveragedOverScores": (),
}


def obs_pr(ev, ious, scores, datums=None):
    kw = {} if datums is None else {"datums": datums}
    step()
    res = ev.compute_precision_recall(iou_thresholds=list(ious), score_thresholds=list(scores), **kw)
    out = {k: {} for k in PR_KEYS}
    for mt, ms in res.items():
        for m in ms:
            require(m.type == mt.value, f"metric type {m.type} under {mt}")
            p = m.parameters
            require(set(PR_KEYS[m.type]) <= set(p), f"parameters of {m.type}: {p}")
            if "iou_thresholds" in p:
                require(list(p["iou_thresholds"]) == list(ious), f"{m.type} iou_thresholds")
            if "score_thresholds" in p:
                require(list(p["score_thresholds"]) == list(scores), f"{m.type} score_thresholds")
            out[m.type].setdefault(tuple(p[k] for k in PR_KEYS[m.type]), []).append(m.value)
    return out


def _cmkey(m):
    return (m.parameters["iou_threshold"], m.parameters["score_threshold"])


def obs_cm(ev, ious, scores, datums=None):
    kw = {} if datums is None else {"datums": datums}
    step()
    res = ev.compute_confusion_matrix(iou_thresholds=list(ious), score_thresholds=list(scores), **kw)
    require([_cmkey(m) for m in res] == [(i, s) for i in ious for s in scores],
            "one confusion matrix per threshold pair", got=[_cmkey(m) for m in res])
    return [dict(cm=m.value["confusion_matrix"], ugt=m.value["unmatched_ground_truths"],
                 upd=m.value["unmatched_predictions"]) for m in res]


def obs_ex(ev, ious, scores, datums=None, limit=None, offset=0):
    """list of (datum uid, iou thr, score thr, tps, fps, fns), in report order."""
    kw = {} if datums is None else {"datums": datums}
    if limit is not None:
        kw["limit"] = limit
    if offset:
        kw["offset"] = offset
    step()
    res = ev.compute_examples(iou_thresholds=list(ious), score_thresholds=list(scores), **kw)
    out = []
    for m in res:
        v = m.value
        out.append((v["datum_id"], *_cmkey(m), sorted(tuple(x) for x in v["true_positives"]),
                    sorted(v["false_positives"]), sorted(v["false_negatives"])))
    return out


def _cell(c):
    return dict(count=c["count"], ex=sorted(tuple(sorted(e.items())) for e in c["examples"]))


def obs_cme(ev, ious, scores, datums=None):
    kw = {} if datums is None else {"datums": datums}
    step()
    res = ev.compute_confusion_matrix_with_examples(iou_thresholds=list(ious), score_thresholds=list(scores), **kw)
    require([_cmkey(m) for m in res] == [(i, s) for i in ious for s in scores],
            "one matrix with examples per threshold pair")
    return [dict(cm={g: {p: _cell(c) for p, c in r.items()} for g, r in m.value["confusion_matrix"].items()},
                 ugt={g: _cell(c) for g, c in m.value["unmatched_ground_truths"].items()},
                 upd={g: _cell(c) for g, c in m.value["unmatched_predictions"].items()}) for m in res]


def info(ev, **kw):
    step()
    i = ev.get_info(**kw) if kw else ev.info
    return dict(datums=i.number_of_datums, labels=i.number_of_labels,
                gts=i.number_of_groundtruth_annotations, pds=i.number_of_prediction_annotations)


def observe(ev, ious, scores, datums=None):
    return dict(
        pr={k: {repr(kk): v for kk, v in d.items()} for k, d in obs_pr(ev, ious, scores, datums).items()},
        cm=obs_cm(ev, ious, scores, datums),
        ex=sorted(obs_ex(ev, ious, scores, datums)),
        cme=obs_cme(ev, ious, scores, datums),
        info=info(ev, datums=datums) if datums is not None else info(ev),
    )


# ------------------------------------------------------------- model
def iou(a, b):
    """exact IoU of two integer boxes."""
    w = max(0, min(a[1], b[1]) - max(a[0], b[0]))
    h = max(0, min(a[3], b[3]) - max(a[2], b[2]))
    i = w * h
    u = (a[1] - a[0]) * (a[3] - a[2]) + (b[1] - b[0]) * (b[3] - b[2]) - i
    return i / u if u else 0.0


def ious_of(d):
    return [[iou(p["b"], g["b"]) for g in d["g"]] for p in d["p"]]


def ratio(a, b):
    return a / b if b else 0.0


class Ambiguous(Exception):
    pass


def assignments(ds):
    """Every way of resolving assignment ties: per datum list of pd -> gt index or None.

    Only single-label predictions."""
    per_pd = []
    for di, d in enumerate(ds):
        q = ious_of(d)
        for pi, p in enumerate(d["p"]):
            c = [(q[pi][gi], gi) for gi, g in enumerate(d["g"]) if g["l"] == p["l"][0] and q[pi][gi] > 0]
            if not c:
                per_pd.append([(di, pi, None, 0.0)])
            else:
                best = max(x for x, _ in c)
                per_pd.append([(di, pi, gi, best) for x, gi in c if x == best])
    return itertools.product(*per_pd)


def tp_flags(ds, assign, t):
    """set of (datum, pd) that are true positives at IoU threshold t."""
    by_gt = {}
    for di, pi, gi, x in assign:
        if gi is not None:
            by_gt.setdefault((di, gi), []).append((-ds[di]["p"][pi]["s"][0], -x, pi))
    out = set()
    for (di, gi), rows in by_gt.items():
        for ns, nx, pi in sorted(rows):
            if -nx >= t:
                if -ns > 0:
                    out.add((di, pi))
                break
    return out


def m_counts(ds, labels, assign, ious, scores):
    ngt = {l: sum(g["l"] == l for d in ds for g in d["g"]) for l in labels}
    out = {k: {} for k in ("Counts", "Precision", "Recall", "F1")}
    for t in ious:
        tps = tp_flags(ds, assign, t)
        for s in scores:
            c = {l: [0, 0] for l in labels}
            for di, d in enumerate(ds):
                for pi, p in enumerate(d["p"]):
                    if p["s"][0] > 0 and p["s"][0] >= s:
                        c[p["l"][0]][0 if (di, pi) in tps else 1] += 1
            for l in labels:
                tp, fp = c[l]
                pr, rc = ratio(tp, tp + fp), ratio(tp, ngt[l])
                k = (l, t, s)
                out["Counts"].setdefault(k, []).append(dict(tp=tp, fp=fp, fn=ngt[l] - tp))
                out["Precision"].setdefault(k, []).append(pr)
                out["Recall"].setdefault(k, []).append(rc)
                out["F1"].setdefault(k, []).append(ratio(2 * pr * rc, pr + rc))
    return out


def m_curve(ds, l, assign, t):
    """(precisions[101], scores[101]) or None when the ranking is ambiguous."""
    ngt = sum(g["l"] == l for d in ds for g in d["g"])
    tps = tp_flags(ds, assign, t)
    rank = []
    q = {}
    for di, pi, gi, x in assign:
        p = ds[di]["p"][pi]
        if p["l"][0] != l:
            continue
        if di not in q:
            q[di] = ious_of(ds[di])
        # a prediction without a same-label partner has no IoU of its own to be ranked by
        clean = gi is not None or not any(v > 0 for v in q[di][pi])
        rank.append((p["s"][0], x, (di, pi) in tps, clean))
    rank.sort(key=lambda r: (-r[0], -r[1]))
    for a, b in itertools.combinations(rank, 2):
        if a[0] == b[0] and a[2] != b[2] and (a[1] == b[1] or not a[3] or not b[3]):
            return None
    prec, sc = [0.0] * 101, [0.0] * 101
    tp = 0
    for n, (s, _, hit, _) in enumerate(rank, 1):
        if hit:
            tp += 1
            top = tp * 100 // ngt
            for r in range(top + 1):
                prec[r] = max(prec[r], tp / n)
                sc[r] = max(sc[r], s)
        else:
            sc[0] = max(sc[0], s)
    return prec, sc


def m_curves(ds, labels, assign, ious, scores):
    """AP family; entries that are ambiguous are omitted (value None)."""
    out = {k: {} for k in PR_KEYS if k not in ("Counts", "Precision", "Recall", "F1")}
    ap = {}
    for t in ious:
        for l in labels:
            c = m_curve(ds, l, assign, t)
            ap[(l, t)] = None if c is None else sum(c[0]) / 101
            out["AP"].setdefault((l, t), []).append(ap[(l, t)])
            out["PrecisionRecallCurve"].setdefault((l, t), []).append(
                None if c is None else dict(precisions=c[0], scores=c[1]))
    mean = lambda xs: None if any(x is None for x in xs) else sum(xs) / len(xs)
    L = sorted(labels)
    mp = {}
    for t in ious:
        mp[t] = mean([ap[(l, t)] for l in L])
        out["mAP"].setdefault((t,), []).append(mp[t])
    for l in L:
        out["APAveragedOverIOUs"][(l,)] = [mean([ap[(l, t)] for t in ious])]
    out["mAPAveragedOverIOUs"][()] = [mean([mp[t] for t in ious])]
    rec = m_counts(ds, labels, assign, ious, scores)["Recall"]
    ar, mar = {}, {}
    for s in scores:
        for l in L:
            ar[(l, s)] = mean([rec[(l, t, s)][0] for t in ious])
            out["AR"].setdefault((l, s), []).append(ar[(l, s)])
        mar[s] = mean([ar[(l, s)] for l in L])
        out["mAR"].setdefault((s,), []).append(mar[s])
    for l in L:
        out["ARAveragedOverScores"][(l,)] = [mean([ar[(l, s)] for s in scores])]
    out["mARAveragedOverScores"][()] = [mean([mar[s] for s in scores])]
    return out


def masked_close(got, want):
    """close(), with None in `want` matching anything."""
    if want is None:
        return True
    if isinstance(want, dict):
        return got.keys() == want.keys() and all(masked_close(got[k], want[k]) for k in want)
    if isinstance(want, (list, tuple)):
        return len(got) == len(want) and all(masked_close(a, b) for a, b in zip(got, want))
    return close(got, want)


# ---- greedy matching
def matchings(d):
    """All greedy matchings of one datum (several only when (score, IoU) ties): list of sets of (gi, pi)."""
    q = ious_of(d)
    rows = [(-s, -q[pi][gi], gi, pi) for gi in range(len(d["g"])) for pi, p in enumerate(d["p"])
            if q[pi][gi] >= 1e-9 for s in p["s"]]
    rows.sort(key=lambda r: r[:2])
    states = {frozenset()}
    for _, grp in itertools.groupby(rows, key=lambda r: r[:2]):
        pairs = sorted({(r[2], r[3]) for r in grp})
        done, todo = set(), set(states)
        while todo:
            s = todo.pop()
            ext = [e for e in pairs if all(e[0] != x[0] and e[1] != x[1] for x in s)]
            ng, np_ = {}, {}
            for g, p in ext:
                ng[g] = ng.get(g, 0) + 1
                np_[p] = np_.get(p, 0) + 1
            free = [e for e in ext if ng[e[0]] == 1 and np_[e[1]] == 1]
            s |= frozenset(free)
            ext = [e for e in ext if e not in s]
            if not ext:
                done.add(s)
            else:
                todo |= {s | {e} for e in ext}
        states = done
    return sorted(states, key=sorted)


def classify(d, match, t, s):
    """(matched cells, unmatched pds, unmatched gts) of one datum under a matching."""
    q = ious_of(d)
    cells, mg, mp = [], set(), set()
    for gi, pi in match:
        for l, sc in zip(d["p"][pi]["l"], d["p"][pi]["s"]):
            x = q[pi][gi]
            if x > 1e-9 and x >= t and sc > 1e-9 and sc >= s:
                cells.append((gi, pi, l))
                mg.add(gi)
                mp.add(pi)
    upd = [(pi, l) for pi, p in enumerate(d["p"]) if pi not in mp
           for l, sc in zip(p["l"], p["s"]) if sc > 1e-9 and sc >= s]
    ugt = [gi for gi in range(len(d["g"])) if gi not in mg]
    return cells, upd, ugt


def m_ex(d, match, t, s):
    cells, upd, ugt = classify(d, match, t, s)
    G, P = d["g"], d["p"]
    tp = sorted((G[gi]["u"], P[pi]["u"]) for gi, pi, l in cells if G[gi]["l"] == l)
    fp = sorted([P[pi]["u"] for gi, pi, l in cells if G[gi]["l"] != l] + [P[pi]["u"] for pi, _ in upd])
    fn = sorted(set([G[gi]["u"] for gi, pi, l in cells if G[gi]["l"] != l] + [G[gi]["u"] for gi in ugt]))
    return tp, fp, fn


def m_cme(ds, ms, labels, t, s):
    cm = {g: {p: [] for p in labels} for g in labels}
    ugt = {g: [] for g in labels}
    upd = {g: [] for g in labels}
    for d, m in zip(ds, ms):
        cells, up, ug = classify(d, m, t, s)
        for gi, pi, l in cells:
            cm[d["g"][gi]["l"]][l].append((("datum_id", d["u"]), ("ground_truth_id", d["g"][gi]["u"]), ("prediction_id", d["p"][pi]["u"])))
        for pi, l in up:
            upd[l].append((("datum_id", d["u"]), ("prediction_id", d["p"][pi]["u"])))
        for gi in ug:
            ugt[d["g"][gi]["l"]].append((("datum_id", d["u"]), ("ground_truth_id", d["g"][gi]["u"])))
    cell = lambda x: dict(count=len(x), ex=sorted(x))
    return dict(cm={g: {p: cell(x) for p, x in r.items()} for g, r in cm.items()},
                ugt={g: cell(x) for g, x in ugt.items()}, upd={g: cell(x) for g, x in upd.items()})


def strip(x):
    return dict(cm={g: {p: c["count"] for p, c in r.items()} for g, r in x["cm"].items()},
                ugt={g: c["count"] for g, c in x["ugt"].items()}, upd={g: c["count"] for g, c in x["upd"].items()})


def expect(what, got, want):
    if not close(got, want):
        require(False, f"{what}: implementation vs model: " + "; ".join(diff(got, want)))


# ---- whole-report checks used by several properties
def check_counts(ev, ds, ious, scores, what="counts", datums=None, labels=None):
    labels = labels_of(ds) if labels is None else labels
    got = obs_pr(ev, ious, scores, datums)
    sub = {k: got[k] for k in ("Counts", "Precision", "Recall", "F1")}
    first = None
    for assign in itertools.islice(assignments(ds), 64):
        want = m_counts(ds, labels, assign, ious, scores)
        first = first or want
        if close(sub, want):
            return got, want, assign
    require(False, f"{what}: implementation vs model: " + "; ".join(diff(sub, first)))


def check_curves(ev, ds, ious, scores, what="AP/AR", datums=None, labels=None):
    labels = labels_of(ds) if labels is None else labels
    got = obs_pr(ev, ious, scores, datums)
    keys = [k for k in PR_KEYS if k not in ("Counts", "Precision", "Recall", "F1")]
    sub = {k: got[k] for k in keys}
    first = None
    for assign in itertools.islice(assignments(ds), 64):
        want = m_curves(ds, labels, assign, ious, scores)
        first = first or want
        if masked_close(sub, want):
            return sub, want
    def scrub(a, b):
        if b is None:
            return None
        if isinstance(b, dict):
            return {k: scrub(a.get(k), v) for k, v in b.items()}
        if isinstance(b, list) and len(a or []) == len(b):
            return [scrub(x, y) for x, y in zip(a, b)]
        return a
    require(False, f"{what}: implementation vs model: " + "; ".join(diff(scrub(sub, first), first)))


def check_matching(ev, ds, ious, scores, what="matching", datums=None, labels=None):
    """confusion matrix, examples and matrix with examples agree with one greedy matching per datum."""
    labels = labels_of(ds) if labels is None else labels
    live = [d for d in ds if d["g"] or d["p"]]
    ex = obs_ex(ev, ious, scores, datums)
    by = {}
    for u, t, s, tp, fp, fn in ex:
        require((u, t, s) not in by, f"{what}: datum {u} reported twice at {(t, s)}")
        by[(u, t, s)] = (tp, fp, fn)
    require(set(by) == {(d["u"], t, s) for d in live for t in ious for s in scores},
            f"{what}: datums reported", got=sorted({k[0] for k in by}), want=[d["u"] for d in live])
    cands = []
    for d in live:
        multi = any(len(p["l"]) > 1 for p in d["p"])
        norm = (lambda x: tuple(sorted(set(v)) for v in x)) if multi else (lambda x: tuple(x))
        ok = [m for m in matchings(d)
              if all(norm(by[(d["u"], t, s)]) == norm(m_ex(d, m, t, s)) for t in ious for s in scores)]
        if not ok:
            m = matchings(d)[0]
            require(False, f"{what}: examples of datum {d['u']} follow no greedy matching: " + "; ".join(diff(
                {f"{t},{s}": norm(by[(d['u'], t, s)]) for t in ious for s in scores},
                {f"{t},{s}": norm(m_ex(d, m, t, s)) for t in ious for s in scores})))
        cands.append(ok)
    cm, cme = obs_cm(ev, ious, scores, datums), obs_cme(ev, ious, scores, datums)
    expect(f"{what}: matrix with examples vs plain matrix", [strip(x) for x in cme], cm)
    first = None
    for ms in itertools.islice(itertools.product(*cands), 256):
        want = [m_cme(live, ms, labels, t, s) for t in ious for s in scores]
        first = first or want
        if cme == want:
            return want, ms
    expect(f"{what}: confusion matrix with examples", cme, first)
