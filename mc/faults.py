"""Fault injection for one process: disk-full at byte L, no free file descriptor, failing file operations."""
import contextlib
import os
import resource
import sys

_hook = {"on": False, "root": None, "n": 0, "at": None, "log": None}
WATCH = {"open", "os.mkdir", "os.remove", "os.rmdir", "os.rename"}
_installed = False


def _audit(event, args):
    if not _hook["on"] or event not in WATCH:
        return
    p = args[0]
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not isinstance(p, (str, os.PathLike)) or not os.fspath(p).startswith(_hook["root"]):
        return
    i = _hook["n"]
    _hook["n"] += 1
    if _hook["log"] is not None:
        _hook["log"].append((event, os.path.basename(os.fspath(p)), str(args[1]) if event == "open" else ""))
    if i == _hook["at"]:
        raise OSError(5, "injected input/output error", os.fspath(p))


@contextlib.contextmanager
def failing_op(root, at, log=None):
    """the at-th file operation Python performs below root raises EIO (at None: none, only counted in log)."""
    global _installed
    if not _installed:
        sys.addaudithook(_audit)
        _installed = True
    _hook.update(on=True, root=root, n=0, at=at, log=log)
    try:
        yield _hook
    finally:
        _hook["on"] = False


@contextlib.contextmanager
def file_size_limit(n):
    """no file can grow beyond n bytes (as on a full disk)."""
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))


@contextlib.contextmanager
def free_descriptors(n):
    """only n more file descriptors can be open at any time."""
    used = {int(x) for x in os.listdir("/proc/self/fd")}
    free, i = [], 0
    while len(free) <= n:
        try:
            os.fstat(i)
        except OSError:
            free.append(i)
        i += 1
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    resource.setrlimit(resource.RLIMIT_NOFILE, (free[n], hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))


def inject(fault, root):
    kind, n = fault
    return {"size": lambda: file_size_limit(n), "fd": lambda: free_descriptors(n), "op": lambda: failing_op(root, n)}[kind]()
