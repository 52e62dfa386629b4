"""DESIGN.md = design_head + per property bounds (from the check modules) + design_tail + seeded catch matrix."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from mc import core
core.setup_worker()
out = open(f"{V}/tools/design_head.md").read()
for line in open(f"{V}/properties.jsonl"):
    p = json.loads(line)
    m = importlib.import_module("mc.checks." + p["id"].lower())
    out += f"### {p['id']} — {p['title']}\n\n{p['statement']}\n\n"
    for f in m.FAMILIES:
        out += f"* *{f.name}*: {f.bound if isinstance(f.bound, str) else f.bound('quick')}\n"
    a = getattr(m, "ASSUMPTIONS", [])
    if a:
        out += "* Assumes: " + "; ".join(a) + "\n"
    ev = f"{V}/tools/costs.json"
    c = json.load(open(ev)).get(p["id"]) if os.path.exists(ev) else None
    if c:
        out += f"* Cost (8 cores): {c}\n"
    out += f"* Beyond the tests: {p['why_tests_cant']}\n\n"
out += open(f"{V}/tools/design_tail.md").read()
import glob
rows = []
for f in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
out += "\n## Planted bugs and the checks that catch them\n\nEvery one builds, passes the stable tests, and is caught by the quick check of the property in the second column.\n\n"
out += "| seed | caught by | needs | breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
f = f"{V}/tools/design_seeded.md"
if os.path.exists(f):
    out += "\n" + open(f).read()
open(f"{V}/DESIGN.md", "w").write(out)
print(len(out))
