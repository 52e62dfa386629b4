"""Crash points of one process: every state the disk goes through while a call runs.

`states(fn, root)` runs fn() once and records the tree below root whenever it has changed at a Python line executed in
valor_lite or at a file operation Python performs (the state a process killed there leaves behind: bytes still in user-space
buffers are not in it).  Between two recorded states a single C call has written; `between` enumerates the states it passed
through: every prefix (in steps of `by` bytes) of what it wrote, one file after the other.
"""
import os
import sys

from . import faults

_rec = {"on": False, "root": None, "sig": None, "out": None}
_installed = False
EVENTS = faults.WATCH | {"os.listdir", "os.scandir", "glob.glob"}


def tree(root):
    """relative path -> bytes (None: directory)."""
    out = {}
    for p, ds, fs in os.walk(root):
        for x in ds:
            out[os.path.relpath(os.path.join(p, x), root)] = None
        for x in fs:
            with open(os.path.join(p, x), "rb") as f:
                out[os.path.relpath(os.path.join(p, x), root)] = f.read()
    return out


def _sig(root):
    out = []
    stack = [root]
    while stack:
        p = stack.pop()
        try:
            with os.scandir(p) as it:
                for e in it:
                    s = e.stat(follow_symlinks=False)
                    out.append((e.path, s.st_ino, s.st_size, s.st_mtime_ns))
                    if e.is_dir(follow_symlinks=False):
                        stack.append(e.path)
        except FileNotFoundError:
            pass
    out.sort()
    return out


def _look():
    if not _rec["on"]:
        return
    _rec["on"] = False
    try:
        s = _sig(_rec["root"])
        if s != _rec["sig"]:
            _rec["sig"] = s
            t = tree(_rec["root"])
            if not _rec["out"] or _rec["out"][-1] != t:
                _rec["out"].append(t)
    finally:
        _rec["on"] = True


def _audit(event, args):
    if _rec["on"] and event in EVENTS:
        _look()


def _trace(frame, event, arg):
    if "valor_lite" not in frame.f_code.co_filename:
        return None
    _look()
    return _trace


def states(fn, root):
    """the trees below root fn() passes through, the first and the last included."""
    global _installed
    if not _installed:
        sys.addaudithook(_audit)
        _installed = True
    _rec.update(on=True, root=root, sig=None, out=[])
    old = sys.gettrace()
    try:
        _look()
        sys.settrace(_trace)
        fn()
        sys.settrace(old)
        _look()
    finally:
        sys.settrace(old)
        _rec["on"] = False
    return _rec["out"]


def between(a, b, by):
    """trees on the way from a to b (both excluded): files written front to back, one after the other."""
    cur = dict(a)
    todo = sorted(k for k in b if b[k] is not None and a.get(k) != b[k])
    for k in (k for k in b if b[k] is None and k not in a):
        cur[k] = None
    for i, k in enumerate(todo):
        old, new = cur.get(k), b[k]
        start = len(old) if old and new.startswith(old) else 0
        for n in sorted(set(range(start, len(new), by)) | {n for n in (start, start + 1, 4, len(new) - 4, len(new) - 1) if start <= n < len(new)}):
            yield dict(cur, **{k: new[:n]})
        cur[k] = new
        if i < len(todo) - 1:
            yield dict(cur)


def restore(t, root):
    """write the tree t to the (new) directory root."""
    os.makedirs(root)
    for k in sorted(t):
        if t[k] is None:
            os.makedirs(os.path.join(root, k), exist_ok=True)
    for k in sorted(t):
        if t[k] is not None:
            os.makedirs(os.path.dirname(os.path.join(root, k)), exist_ok=True)
            with open(os.path.join(root, k), "wb") as f:
                f.write(t[k])
