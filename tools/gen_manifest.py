#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "C": "Every case within the stated bounds is executed on the real loader and evaluator and compared with an independent model of the definition; values outside the alphabets and larger datasets are not covered.",
 "D": "Every arrangement within the stated bounds is executed on the real loader and evaluator and compared with exact rational geometry and an independent matching/ranking model; larger arrangements are not covered.",
 "S": "Every pixel assignment within the stated bounds is executed on the real loader and evaluator and compared with pixel counting; larger images only as scaled instances.",
 "X": "Every operation sequence, layout and filter within the stated bounds is executed for all three tasks and compared with a reference evaluator or direct counting; single-threaded use.",
 "K": "Every operation sequence within the stated bounds is executed on the real cache classes and compared with a list model; concurrent writers are out of scope (the library has none).",
 "T": "Every answer script within the stated bounds is fed to the real evaluator through a scripted client and compared with a protocol model written from the metric definitions; the LLM itself is the environment.",
}
SPECIAL = {
 "X08": "Every schedule of two calls within the preemption bound is executed on real threads under a controlled scheduler whose points are the lines of the library; preemption inside numpy or pyarrow and three or more threads are not covered.",
 "K07": "Every state of the disk seen at a line of the library or a file operation is enumerated, and every prefix (on a byte grid) of what a single call into Arrow writes; a process kill is modelled, power loss and reordered write-back are not.",
 "K06": "Every single fault of the stated kinds is injected at every point of every history within the bounds (audit hooks, resource limits, truncated files); faults inside the Arrow library other than failing opens and writes, and lost directory entries, are not covered.",
}
checks = []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    checks.append(dict(property=p, quick_cmd=f"./check.sh {p} quick", thorough_cmd=f"./check.sh {p} thorough",
        technique="bounded exhaustive model checking of the implementation against a reference model",
        level="model_checking", level_note=SPECIAL.get(p, NOTE[p[0]])))
m = dict(version=1, setup_cmd="./check.sh selftest", checks=checks, not_applicable=[],
         notes="No hooks: every check drives the public entry points of /repo/src. Bounds per property are in DESIGN.md and in each evidence file.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks))
