#!/usr/bin/env python3
"""Write MANIFEST.json and contracts/props.json from the table below (one place for roots, levels and notes)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(f"{V}/tools/table.py").read())
props = {"rule": RULE, "assumptions": ASSUME, "lemma_modules": [], "properties": {}}
checks, na = [], []
for k, x in TABLE.items():
    if "na" in x: na.append({"property": k, "reason": x["na"]}); continue
    props["properties"][k] = {"roots": x["roots"], "level": x["level"], "note": x["note"], "theorems": x.get("theorems", []), "theorems_files": x.get("files", []), "bounded": x.get("bounded", ""), "rule": x.get("rule", ""), "secs": x.get("secs", {"quick": 20, "thorough": 240}), "assumptions": x.get("assume", []), "stop": x.get("stop", [])}
    c = {"property": k, "quick_cmd": f"python3 check.py {k}", "thorough_cmd": f"python3 check.py {k} --thorough", "technique": x["tech"], "level": x["level"], "level_note": x["note"]}
    if x.get("theorems") and x["level"] == "proof": c["theorems"] = [n for t in x["theorems"] for n in (re.findall(r"\bthm_\w+", t) or [t.split(" (")[0]])]
    checks.append(c)
json.dump(props, open(f"{V}/contracts/props.json", "w"), indent=1)
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na, "notes": NOTES}, open(f"{V}/MANIFEST.json", "w"), indent=1)

# DESIGN.md: the per-property section and the table of planted bugs
import re
titles = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(f"{V}/properties.jsonl")}
sec = ""
for k, x in TABLE.items():
    sec += f"### {k} {titles[k]}\n"
    if "na" in x: sec += f"Not applicable: {x['na']}\n\n"; continue
    sec += f"* decided by: {x['tech']}; level `{x['level']}`\n"
    if x["roots"]: sec += "* contract roots: " + ", ".join(f"`{r}`" for r in x["roots"]) + "\n"
    if x.get("theorems"): sec += "* theorems: " + "; ".join(x["theorems"]) + "\n"
    sec += f"* {x['note']}\n\n"
res = {}
if os.path.exists(f"{V}/docs/catch.txt"):
    for l in open(f"{V}/docs/catch.txt"):
        m = re.match(r"(\S+) (C\d+) rc=(\d) (\d+s) \d+ \| (.*)", l)
        if m: res[m[1]] = ("caught, obligation only" if "no-failing-input-found" in m[5] else "caught, with failing input") if m[3] == "1" else "missed"
tab = "| bug | property | needs | verdict of the check |\n|---|---|---|---|\n"
for d in sorted(os.listdir(f"{V}/seeded")) if os.path.isdir(f"{V}/seeded") else []:
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    tab += f"| {d} | {m['property']} | {m['needs']} | {res.get(d, 'not run')} |\n"
s = open(f"{V}/DESIGN.md").read()
for n, b in (("table", sec), ("seeded", tab)):
    s = re.sub(f"(<!-- {n} -->\n).*?(<!-- /{n} -->)", lambda m: m[1] + b + m[2], s, flags=re.S)
open(f"{V}/DESIGN.md", "w").write(s)
