"""One adaptor per evaluation task, so that the cross-cutting properties (X01-X05) are stated once."""
import pyarrow as pa

from . import cls, od, seg
from .checks import c05, d06, s04
from .core import step
from .util import expr, holds


class Task:
    def labels_after(self, name, f):
        """labels that still occur after a filter."""
        return self.labels_of(self.select(self.data(name), f))


class Cls(Task):
    name = "cls"
    FIELDS = c05.FIELDS
    TS = [0.0, 0.45, 0.3]
    names = list(c05.SETS)
    build = staticmethod(cls.build)
    loader = staticmethod(cls.loader)
    Evaluator = cls.Evaluator
    Loader = cls.Loader
    gt_key, pd_key = "gt_label", "pd_label"

    def data(self, name):
        return c05.dataset(name)

    def add(self, ld, part):
        step()
        ld.add_data([cls.datum(d) for d in part])

    def labels_of(self, rows):
        return {r[1] for r in rows} | {p[0] for r in rows for p in r[2]}

    def select(self, ds, f):
        return c05.frows(ds, f.get("fd"), f.get("fg"), f.get("fp"))

    def observe(self, ev, datums=None):
        return cls.observe(ev, self.TS, datums=datums)

    def info(self, ev, **kw):
        return cls.info(ev, **kw)

    def with_meta(self, ds, field, values):
        return [dict(d, m={field: v}) for d, v in zip(ds, values)]

    def ops(self):
        """name -> query on an evaluator (a fixed set covering every public query)."""
        d1 = ["in", "datum_uid", ["u0", "u2"]]
        return {
            "pr": lambda e: cls.obs_pr(e, [0.3, 0.0], True), "pr2": lambda e: cls.obs_pr(e, [0.45], False, expr(d1)),
            "cm": lambda e: cls.obs_cm(e, [0.45, 0.1], True), "cm2": lambda e: cls.obs_cm(e, [0.0], False, expr(d1)),
            "ex": lambda e: sorted(cls.obs_ex(e, [0.3], True)), "ex2": lambda e: cls.obs_ex(e, [0.0], False, expr(d1), limit=1, offset=1),
            "cme": lambda e: cls.obs_cme(e, [0.0, 0.5], True), "cme2": lambda e: cls.obs_cme(e, [0.2], False, expr(d1)),
            "roc": cls.obs_roc, "info": lambda e: cls.info(e), "info2": lambda e: cls.info(e, datums=expr(d1)),
        }

    filters = [{"fd": ["in", "datum_uid", ["u1", "u3"]]}, {"fp": ["in", "pd_label", ["a", "b"]]}, {"fg": ["eq", "gt_label", "a"]}]


class OD(Task):
    name = "od"
    FIELDS = d06.FIELDS
    IOUS, SCORES = [0.1, 0.5], [0.45, 0.0]
    names = list(d06.SETS)
    build = staticmethod(od.build)
    loader = staticmethod(od.loader)
    Evaluator = od.Evaluator
    Loader = od.Loader

    def data(self, name):
        return d06.mk(name)

    def add(self, ld, part):
        step()
        ld.add_bounding_boxes([od.detection(d) for d in part])

    def labels_of(self, ds):
        return od.labels_of(ds)

    def select(self, ds, f):
        return d06.fds(ds, f.get("fd"), f.get("fg"), f.get("fp"))

    def observe(self, ev, datums=None):
        return od.observe(ev, self.IOUS, self.SCORES, datums=datums)

    def info(self, ev, **kw):
        return od.info(ev, **kw)

    def with_meta(self, ds, field, values):
        return [dict(d, m={field: v}, g=[dict(g, m=None) for g in d["g"]], p=[dict(p, m=None) for p in d["p"]])
                for d, v in zip(ds, values)]

    def ops(self):
        d1 = ["in", "datum_uid", ["d0", "d2"]]
        return {
            "pr": lambda e: od.obs_pr(e, [0.5, 0.1], [0.0, 0.5]), "pr2": lambda e: od.obs_pr(e, [0.3], [0.2], expr(d1)),
            "cm": lambda e: od.obs_cm(e, [0.5], [0.45, 0.0]), "cm2": lambda e: od.obs_cm(e, [0.1], [0.0], expr(d1)),
            "ex": lambda e: sorted(od.obs_ex(e, [0.1, 0.6], [0.0])), "ex2": lambda e: od.obs_ex(e, [0.5], [0.0], expr(d1), limit=1, offset=1),
            "cme": lambda e: od.obs_cme(e, [0.5, 0.1], [0.3]), "cme2": lambda e: od.obs_cme(e, [0.1], [0.3], expr(d1)),
            "info": lambda e: od.info(e), "info2": lambda e: od.info(e, datums=expr(d1)),
        }

    filters = [{"fd": ["in", "datum_uid", ["d0", "d1"]]}, {"fg": ["eq", "gm", 1]}, {"fp": ["eq", "pm", "u"]}]


class Seg(Task):
    name = "seg"
    FIELDS = s04.FIELDS
    names = list(s04.SETS)
    build = staticmethod(seg.build)
    loader = staticmethod(seg.loader)
    Evaluator = seg.Evaluator
    Loader = seg.Loader

    def data(self, name):
        return s04.dataset(name)

    def add(self, ld, part):
        step()
        ld.add_data([seg.image(d) for d in part])

    def labels_of(self, ds):
        return seg.labels_of(ds)

    def select(self, ds, f):
        return s04.fds(ds, f.get("fd"), f.get("fg"), f.get("fp"))

    def observe(self, ev, datums=None):
        return seg.observe(ev, datums)

    def info(self, ev, **kw):
        return seg.info(ev, **kw)

    def with_meta(self, ds, field, values):
        return [dict(d, m={field: v}, g=[dict(g, m=None) for g in d["g"]], p=[dict(p, m=None) for p in d["p"]])
                for d, v in zip(ds, values)]

    def ops(self):
        d1 = ["in", "datum_uid", ["d0", "d2"]]
        return {
            "m": lambda e: seg.obs(e), "m2": lambda e: seg.obs(e, expr(d1)),
            "info": lambda e: seg.info(e), "info2": lambda e: seg.info(e, datums=expr(d1)),
            "info3": lambda e: seg.info(e, groundtruths=expr(["eq", "gt_label", "a"]), predictions=expr(["eq", "pd_label", "b"])),
        }

    filters = [{"fd": ["in", "datum_uid", ["d0", "d1"]]}, {"fg": ["eq", "gt_label", "a"]}, {"fp": ["eq", "pm", "u"]}]


TASKS = {"cls": Cls(), "od": OD(), "seg": Seg()}


def do_filter(ev, f, path=None, **kw):
    """ev.filter(...) with a filter specification {fd, fg, fp}."""
    kw = dict(kw)
    for k, n in (("fd", "datums"), ("fg", "groundtruths"), ("fp", "predictions")):
        if f.get(k) is not None:
            kw[n] = expr(f[k])
    if path is not None:
        kw["path"] = path
    step()
    return ev.filter(**kw)


def fields_norm(fs):
    """metadata field list in comparable form."""
    out = []
    for n, t in fs or []:
        t = pa.type_for_alias(t) if isinstance(t, str) else t
        out.append([n, str(t)])
    return out
