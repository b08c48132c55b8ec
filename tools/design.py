#!/usr/bin/env python3
"""Writes DESIGN.md (see its first lines). Cost figures come from tools/cost.json, which `--cost` refreshes from the evidence."""
import json, os, sys, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); os.chdir(HERE); sys.path.insert(0, HERE)
import spec
cost = json.load(open("tools/cost.json")) if os.path.exists("tools/cost.json") else {}
if "--cost" in sys.argv:
    for f in glob.glob("evidence/*.json"):
        e = json.load(open(f)); c = e["coverage"]
        cost.setdefault(e["property"], {})[e["tier"]] = [round(e.get("wall_s", 0)), c["traces_validated_against_impl"], c["transitions"], c["exhaustive"]]
    json.dump(cost, open("tools/cost.json", "w"), indent=0, sort_keys=True)
mx = json.load(open("tools/matrix.json")) if os.path.exists("tools/matrix.json") else {}
fixed = {}
for l in open("known_findings.txt"):
    if l.startswith("fixed:"):
        t = l.split(None, 3); fixed.setdefault(t[1].split("=")[1], []).append((t[2], t[3].strip()))
o = [open("tools/design_head.md").read().rstrip() + "\n"]
for p in spec.P:
    i = p["id"]; c = spec.CHECKS[i]; h = c["harness"] if isinstance(c["harness"], list) else [c["harness"]]
    o.append(f"### {i} {p['title']}\n")
    o.append(p["statement"] + "\n")
    o.append("- *For every:* " + p["quantifier"]["text"] + ".")
    o.append("- *Why tests cannot:* " + p["why_tests_cant"])
    o.append("- *Explored* (" + ", ".join(f"`harness/{x}.cpp`" for x in h) + "): " + spec.full_note(i))
    if p["anchors"].get("observe_at"): o.append("- *Observed at:* " + "; ".join(p["anchors"]["observe_at"]) + ".")
    for t in ("quick", "thorough"):
        if i in cost and t in cost[i]:
            w, tr, st, ex = cost[i][t]; o.append(f"- *Cost, {t}:* {w} s on 8 cores ({tr:,} traces, {st:,} transitions" + (", bounds exhausted)." if ex else ", stopped by the time limit before the bound)."))
    for h, w in fixed.get(i, []): o.append(f"- *Repaired* ({h}): {w}.")
    o.append("")
o.append(open("tools/design_tail.md").read().rstrip() + "\n")
o.append("## Planted bugs\n\nEach was written from a property's text, compiles, passes the existing tests and has a demonstration\n(`tools/seedgen.py` writes `seeded/` from `tools/seeds_*.py` and checks all of that; `tools/matrix.py` runs the checks).\n\"Caught\" is the quick check of the property named.\n\n| bug | property | caught | what it needs |\n|---|---|---|---|")
for d in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{d}/meta.json")); r = mx.get(d)
    o.append(f"| {d} | {m['property']} | {'?' if r is None else 'yes' if r['caught'] else 'NO'} | {m['needs'].replace('|', '/')} |")
open("DESIGN.md", "w").write("\n".join(o) + "\n")
n = len(os.listdir("seeded")); print(n, "seeds,", sum(1 for d in os.listdir("seeded") if mx.get(d, {}).get("caught")), "caught;", len(open("DESIGN.md").read().split("\n")), "lines")
