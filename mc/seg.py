"""Semantic segmentation: builders over the public API, observations and the pixel-level model.

A dataset is a list of images {"u", "sh": [h, w], "g": [mask], "p": [mask], "m"}; a mask is {"l", "px": [flat pixel indices], "m"}.
"""
import numpy as np
from valor_lite.semantic_segmentation import Bitmask, Evaluator, Loader, MetricType, Segmentation

from .core import require, step
from .util import add_call, chunks, close, diff

MEM = {"k": "mem"}


def mask(x, sh):
    m = np.zeros(sh[0] * sh[1], dtype=np.bool_)
    m[list(x["px"])] = True
    kw = {"metadata": x["m"]} if x.get("m") else {}
    return Bitmask(mask=m.reshape(sh[0], sh[1]), label=x["l"], **kw)


def image(d):
    kw = {"metadata": d["m"]} if d.get("m") else {}
    return Segmentation(uid=d["u"], groundtruths=[mask(x, d["sh"]) for x in d["g"]],
                        predictions=[mask(x, d["sh"]) for x in d["p"]], shape=tuple(d["sh"]), **kw)


def loader(layout, path=None, fields=None):
    kw = {}
    if layout.get("b"):
        kw["batch_size"] = layout["b"]
    if fields is not None:
        kw["metadata_fields"] = fields
    step()
    if layout["k"] == "mem":
        return Loader.in_memory(**kw)
    if layout.get("r"):
        kw["rows_per_file"] = layout["r"]
    if layout.get("c"):
        kw["compression"] = layout["c"]
    return Loader.persistent(path, **kw)


def build(ds, layout=MEM, path=None, fields=None):
    ld = loader(layout, path, fields)
    for part in chunks(ds, layout.get("split") or [len(ds)]):
        add_call(ld.add_data, [image(d) for d in part], layout)
        step()
    step()
    return ld.finalize()


def labels_of(ds):
    return {x["l"] for d in ds for x in d["g"] + d["p"]}


def obs(ev, datums=None):
    step()
    res = ev.compute_precision_recall_iou(**({} if datums is None else {"datums": datums}))
    out = {}
    for mt, ms in res.items():
        for m in ms:
            require(m.type == mt.value, f"metric type {m.type} under {mt}")
            k = m.parameters.get("label")
            require(k not in out.setdefault(m.type, {}), f"{m.type} reported twice for {k}")
            out[m.type][k] = m.value
    return out


def info(ev, **kw):
    step()
    i = ev.get_info(**kw) if kw else ev.info
    return dict(datums=i.number_of_datums, labels=i.number_of_labels, pixels=i.number_of_pixels,
                gts=i.number_of_groundtruth_pixels, pds=i.number_of_prediction_pixels)


def observe(ev, datums=None):
    return dict(m=obs(ev, datums), info=info(ev, datums=datums) if datums is not None else info(ev))


# ------------------------------------------------------------- model
def maps(d):
    """pixel -> label on each side (None = background); the first mask claiming a pixel keeps it."""
    out = []
    for side in ("g", "p"):
        m = [None] * (d["sh"][0] * d["sh"][1])
        for x in d[side]:
            for i in x["px"]:
                if m[i] is None:
                    m[i] = x["l"]
        out.append(m)
    return out


def pixels(ds):
    c = {}
    for d in ds:
        for g, p in zip(*maps(d)):
            c[(g, p)] = c.get((g, p), 0) + 1
    return c


def ratio(a, b):
    return a / b if b else 0.0


def model(c, labels):
    """metrics from pixel counts c[(gt label or None, pd label or None)]."""
    n = sum(c.values())
    ng = {l: sum(v for (g, _), v in c.items() if g == l) for l in labels}
    np_ = {l: sum(v for (_, p), v in c.items() if p == l) for l in labels}
    iou = {g: {p: ratio(c.get((g, p), 0), ng[g] + np_[p] - c.get((g, p), 0)) for p in labels} for g in labels}
    pr = {l: ratio(c.get((l, l), 0), np_[l]) for l in labels}
    rc = {l: ratio(c.get((l, l), 0), ng[l]) for l in labels}
    return {
        "Accuracy": {None: ratio(sum(v for (g, p), v in c.items() if g == p), n)},
        "Precision": pr, "Recall": rc,
        "F1": {l: ratio(2 * pr[l] * rc[l], pr[l] + rc[l]) for l in labels},
        "IOU": {l: iou[l][l] for l in labels},
        "mIOU": {None: sum(iou[l][l] for l in labels) / len(labels)},
        "ConfusionMatrix": {None: dict(
            confusion_matrix={g: {p: {"iou": v} for p, v in r.items()} for g, r in iou.items()},
            unmatched_predictions={l: {"ratio": ratio(c.get((None, l), 0), np_[l])} for l in labels},
            unmatched_ground_truths={l: {"ratio": ratio(c.get((l, None), 0), ng[l])} for l in labels})},
    }


def m_info(c, labels, n):
    return dict(datums=n, labels=len(labels), pixels=sum(c.values()),
                gts=sum(v for (g, _), v in c.items() if g is not None), pds=sum(v for (_, p), v in c.items() if p is not None))


def expect(what, got, want):
    if not close(got, want):
        require(False, f"{what}: implementation vs model: " + "; ".join(diff(got, want)))


def check(ev, ds, labels=None, what="metrics", datums=None):
    labels = labels_of(ds) if labels is None else labels
    c = pixels(ds)
    got, want = obs(ev, datums), model(c, labels)
    expect(what, got, want)
    expect(what + ": info", info(ev, datums=datums) if datums is not None else info(ev), m_info(c, labels, len(ds)))
    return got, want
