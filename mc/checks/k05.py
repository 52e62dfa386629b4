import itertools
import os

import pyarrow.parquet as pq

from .. import kv
from ..core import Family, outcome, require, scratch, state, step

ASSUMPTIONS = ["row writes only (tables are written to files of their own); file contents observed with pyarrow between calls"]


def snap(w):
    return {p: (os.stat(p).st_mtime_ns, os.stat(p).st_size, open(p, "rb").read()) for p in map(str, w.get_dataset_files())}


def run(case):
    b, r, sizes = case["b"], case["r"], case["w"]
    with scratch() as d:
        w = kv.create({"k": "file", "b": b, "r": r}, d + "/x")
        nxt, call_of = 0, {}
        prev = {}
        for ci, k in enumerate(sizes):
            for i in range(nxt, nxt + k):
                call_of[i] = ci
            w.write_rows([kv.row(i) for i in range(nxt, nxt + k)])
            step()
            nxt += k
            now = snap(w)
            names = sorted(now, key=lambda p: (len(p), p))
            for p in names[:-1]:  # every file but the one being written
                if p in prev and prev[p][3]:
                    require(now[p][2] == prev[p][2], f"file {os.path.basename(p)} was rewritten by a later write")
            require(set(prev) <= set(now), "a file disappeared")
            prev = {p: (*now[p], p != names[-1]) for p in names}
        rd = w.to_reader()
        for p, x in prev.items():
            if x[3]:
                require(open(p, "rb").read() == x[2], f"file {os.path.basename(p)} was rewritten by the flush")
        files = [[x["id"] for x in t.to_pylist()] for t in rd.iterate_tables()]
        on_disk = [pq.read_metadata(p).num_rows for p in sorted(map(str, rd.get_dataset_files()), key=lambda p: (len(p), p))]
        require([len(f) for f in files] == on_disk, "tables read are the files on disk", got=[len(f) for f in files], want=on_disk)
        require([i for f in files for i in f] == list(range(nxt)), "rows in order", got=files)
        owner = {}
        for fi, f in enumerate(files):
            for i in f:
                require(owner.setdefault(call_of[i], fi) == fi, f"rows of write call {call_of[i]} are split over files", files=files, sizes=sizes)
        big = max(sizes)
        for fi, f in enumerate(files):
            require(f, "empty file")
            if fi < len(files) - 1:
                require(len(f) >= r, f"file {fi} holds {len(f)} rows, fewer than rows_per_file {r}", files=files)
            require(len(f) <= r + b + big, f"file {fi} holds {len(f)} rows, more than {r}+{b}+{big}", files=files)
        state([b, r, [len(f) for f in files]])
        outcome(files)


def gen(tier):
    B = R = (1, 2, 3, 4, 5)
    for b, r in itertools.product(B, R):
        for k in range(1, 5 if tier == "quick" else 7):
            for w in itertools.product((1, 2, 3), repeat=k):
                if tier == "quick" and k == 4 and (b + r) % 2:
                    continue
                yield {"b": b, "r": r, "w": w}


def gen_long(tier):
    for b, r in itertools.product((1, 2, 3, 5, 8), (1, 3, 5, 8, 13)):
        for w in ([1] * 30, [2] * 15, [3, 1, 2] * 6, [1, 5] * 6, [7] * 5, [1, 1, 9] * 4):
            yield {"b": b, "r": r, "w": w}


def gen_large(tier):
    for b, r in ((100, 1000), (1000, 100), (256, 256), (255, 257), (300, 1), (1, 300), (1000, 1000)):
        for w in ([1] * 600, [256] * 5, [255, 1] * 4, [1, 300, 1, 700, 2], [999, 1, 1000], [17] * 60, [100, 101, 99] * 5):
            yield {"b": b, "r": r, "w": w}


FAMILIES = [
    Family("large", gen_large, run, "7 patterns of up to 600 calls and 1000 rows per call x 7 layouts with hundreds of rows per batch and file", case_timeout=300),
    Family("sequences", gen, run, "every sequence of <=4 (6) write calls of 1-3 rows x batch size 1-5 x rows-per-file 1-5"),
    Family("long", gen_long, run, "6 long patterns x 25 layouts, more than ten files"),
]
