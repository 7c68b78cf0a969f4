"""Writes DESIGN.md: the hand-written parts of tools/design_*.md around a section per property (statement, oracle, bounds)."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.environ.get("VERIF_REPO", "/repo"), os.path.join(HERE, "tools")]
sys.dont_write_bytecode = True
import props
from design_how import HOW

reg = json.load(open(os.path.join(HERE, "harness", "registry.json")))
known = json.load(open(os.path.join(HERE, "known_findings.json")))
out = [open(os.path.join(HERE, "tools", "design_head.md")).read()]
out.append("\n## 4. The properties, one by one\n")
na = {x["property"]: x["reason"] for x in props.NOT_APPLICABLE}
for p in sorted(props.P, key=lambda p: p["id"]):
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    if i in na:
        out.append(f"Not applicable: {na[i]}\n")
        continue
    P = importlib.import_module("harness." + reg[i]).PROPS[i]
    h = HOW[i]
    out.append(f"*Harness* `harness/{reg[i]}.py`, {len(P['cases']('quick'))} cases in the quick tier, {len(P['cases']('thorough'))} in the thorough tier. "
               f"*Anchors*: {', '.join('`' + m['where'] + '`' for m in p['anchors']['mechanism'])}.\n")
    out.append(f"*What runs symbolically and against what oracle.* {h}\n")
    out.append(f"*Bounds.* {P['bounds']}.\n")
    if P.get("assumptions"):
        out.append("*Assumed or left open.* " + "; ".join(P["assumptions"]) + ".\n")
    if P.get("must_cover"):
        out.append("*Reachability witnesses required.* " + ", ".join(P["must_cover"]) + ".\n")
    f = [k for k in known["findings"] if k["property"] == i]
    if f:
        out.append("*Known findings.* " + "; ".join(f"{k['id']}: {k['what']}" for k in f) + ".\n")
rows = ["", "| change | property | what it breaks | caught by |", "|---|---|---|---|"]
seeds = os.path.join(HERE, "seeded")
caught = json.load(open(os.path.join(HERE, "tools", "seed_results.json")))
for s in sorted(os.listdir(seeds)) if os.path.isdir(seeds) else []:
    m = json.load(open(os.path.join(seeds, s, "meta.json")))
    rows.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {caught.get(s, 'not run')} |")
out.append(open(os.path.join(HERE, "tools", "design_tail.md")).read().replace("SEEDTABLE", "\n".join(rows)))
out.append("\n### Repaired\n")
out += [f"- {x}" for x in known["fixed"]]
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print(sum(len(x) for x in out), "characters")
