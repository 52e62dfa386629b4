"""Small enumeration and comparison helpers."""
import itertools
import os

TOL = 1e-9


def compositions(n, max_parts=None):
    """All ordered splits of n into positive parts."""
    if n == 0:
        yield ()
        return
    for first in range(1, n + 1):
        if max_parts == 1 and first != n:
            continue
        for rest in compositions(n - first, None if max_parts is None else max_parts - 1):
            yield (first,) + rest


def chunks(seq, split):
    i = 0
    for k in split:
        yield seq[i:i + k]
        i += k
    if i < len(seq):
        yield seq[i:]


def subsets(xs):
    xs = list(xs)
    for r in range(len(xs) + 1):
        yield from itertools.combinations(xs, r)


def nonempty_subsets(xs):
    return (s for s in subsets(xs) if s)


def close(a, b, tol=TOL):
    """Structural equality with float tolerance."""
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return abs(a - b) <= tol
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(close(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    return a == b


def diff(a, b, path="", out=None, tol=TOL):
    """First few differences between two structures (for messages)."""
    out = [] if out is None else out
    if len(out) > 5:
        return out
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=repr):
            if k not in a or k not in b:
                out.append(f"{path}/{k}: only in {'second' if k not in a else 'first'}")
            else:
                diff(a[k], b[k], f"{path}/{k}", out, tol)
    elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            out.append(f"{path}: length {len(a)} vs {len(b)}: {str(a)[:300]} vs {str(b)[:300]}")
        else:
            for i, (x, y) in enumerate(zip(a, b)):
                diff(x, y, f"{path}[{i}]", out, tol)
    elif not close(a, b, tol):
        out.append(f"{path}: {a!r} vs {b!r}")
    return out


def snapshot(path):
    """relative name -> bytes of every file below path (directories as None)."""
    out = {}
    for d, ds, fs in os.walk(path):
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), path)] = None
        for x in fs:
            p = os.path.join(d, x)
            with open(p, "rb") as f:
                out[os.path.relpath(p, path)] = f.read()
    return out


# ------------------------------------------------------------- filter expressions
def expr(spec):
    """JSON filter specification -> pyarrow expression (None stays None)."""
    import pyarrow.compute as pc

    if spec is None:
        return None
    op = spec[0]
    if op == "in":
        import pyarrow as pa

        return pc.field(spec[1]).isin(list(spec[2]) if spec[2] else pa.array([], pa.string()))
    if op == "eq":
        return pc.field(spec[1]) == spec[2]
    if op == "ge":
        return pc.field(spec[1]) >= spec[2]
    if op == "lt":
        return pc.field(spec[1]) < spec[2]
    if op == "and":
        return expr(spec[1]) & expr(spec[2])
    if op == "or":
        return expr(spec[1]) | expr(spec[2])
    if op == "not":
        return ~expr(spec[1])
    raise ValueError(op)


def holds(spec, rec):
    """The same filter evaluated on a plain dict (None = null = does not match)."""
    v = _holds3(spec, rec)
    return bool(v)


def _holds3(spec, rec):
    if spec is None:
        return True
    op = spec[0]
    if op == "and":
        a, b = _holds3(spec[1], rec), _holds3(spec[2], rec)
        return False if a is False or b is False else None if a is None or b is None else True
    if op == "or":
        a, b = _holds3(spec[1], rec), _holds3(spec[2], rec)
        return True if a is True or b is True else None if a is None or b is None else False
    if op == "not":
        a = _holds3(spec[1], rec)
        return None if a is None else not a
    v = rec.get(spec[1])
    if op == "in":
        return v in spec[2]
    if v is None:
        return None
    return {"eq": v == spec[2], "ge": v >= spec[2], "lt": v < spec[2]}[op]


# unusual but legal names for labels, datums and annotations: each pair replaces two names of a dataset
PAIRS = [["", " "], ["a", "A"], ["a", "a "], ["0", "00"], ["None", "null"], ["\u00e9", "e\u0301"], ["\n", "\t"], ["'", '"'],
         ["a" * 300, "a" * 299 + "b"], ["1", "1.0"], ["true", "True"], ["\U0001f642", "\U0001f643"], ["b", "a"], ["nan", "NaN"],
         ["-1", "-2"], ["a,b", "a;b"], ["{}", "[]"], ["\\", "/"], ["%s", "{0}"], ["background", "unmatched"], ["\u0000", "\u0001"]]


def name_map(k):
    x, y = PAIRS[k]
    m = {"a": x, "b": y, "u0": x, "u1": y, "d0": y, "d1": x}
    for i in range(4):
        m.update({f"d{i}g0": x, f"d{i}p0": x, f"d{i}g1": y, f"d{i}p1": y})
    return m


def rename(o, m):
    """every string in the structure (not dict keys) replaced through m."""
    if isinstance(o, dict):
        return {k: rename(v, m) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [rename(v, m) for v in o]
    return m.get(o, o) if isinstance(o, str) else o


# metadata of every supported kind, the values Python calls false included (and absent ones)
KINDS = {"string": ["", "x"], "int64": [0, 7], "float64": [0.0, -1.5], "bool": [False, True]}


def meta_cases(levels, items=3):
    """kind x level x every assignment of {absent, None, false-like, true-like} to the items x filters on that field.

    (no "in" on floats: pyarrow itself loses 0.0 there, parquet statistics recording it as -0.0)"""
    for kind, (lo, hi) in KINDS.items():
        for lv in levels:
            for vs in itertools.product(["absent", None, lo, hi], repeat=items):
                if vs.count("absent") + vs.count(None) > 2:
                    continue
                for f in (["eq", "q", lo], ["eq", "q", hi], ["not", ["eq", "q", lo]], ["in", "q", [lo, hi]] if kind != "float64" else ["ge", "q", lo], ["or", ["eq", "q", lo], ["eq", "datum_uid", "d0"]]):
                    yield {"kind": kind, "lv": lv, "vs": list(vs), "f": f}


def put(m, v):
    return m if v == "absent" and isinstance(v, str) else dict(m, q=v)


def add_call(method, data, layout):
    """call an add method, with the progress bar (kept off the terminal) where the layout asks for it."""
    if not layout.get("pg"):
        return method(data)
    import contextlib
    import io

    with contextlib.redirect_stderr(io.StringIO()):
        return method(data, show_progress=True)
