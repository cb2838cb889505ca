"""Fill the tables of DESIGN.md (the text lives in tools/design.md)."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
src = open(os.path.join(HERE, "tools", "design.md")).read()
rows, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if not os.path.exists(os.path.join(HERE, "props", i.lower() + ".py")):
        na.append(i)
        continue
    m = importlib.import_module("props." + i.lower())
    b = m.BOUNDS if isinstance(m.BOUNDS, dict) else dict(quick=m.BOUNDS)
    what = ", ".join(x["where"].replace("src/finoptions/", "") for x in p["anchors"]["mechanism"])
    asm = ("; assuming " + "; ".join(m.ASSUMPTIONS)) if m.ASSUMPTIONS else ""
    ev = os.path.join(HERE, "tools", "cost.json")
    cost = json.load(open(ev)).get(i, "") if os.path.exists(ev) else ""
    rows.append(f"| {i} | {what} | {p['title']} | {b['quick']}; {b.get('thorough') or 'as quick'}{asm} | {m.OUTSIDE} | {cost} |")
kf = json.load(open(os.path.join(HERE, "known_findings.json")))
fixed = []
for f in kf["fixed"]:
    a = f.split(" ", 3)
    fixed.append(f"| {a[1].split('=')[1]} | {a[2]} | {a[3]} |")
seeds = []
res = json.load(open(os.path.join(HERE, "tools", "seed_results.json")))
for d in sorted(glob.glob(os.path.join(HERE, "seeded*", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    n = os.path.basename(d)
    seeds.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {res.get(n, '?')} |")
out = src.replace("@@TABLE@@", "\n".join(rows)).replace("@@FIXED@@", "\n".join(fixed)).replace("@@SEEDS@@", "\n".join(seeds))
out = out.replace("@@NA@@", (" except " + ", ".join(na)) if na else "")
open(os.path.join(HERE, "DESIGN.md"), "w").write(out)
