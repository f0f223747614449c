#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: tools/design_head.md, then a section per property from checks.py, properties.jsonl, seeded/ and known_findings.json."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import CHECKS
props = {p["id"]: p for p in map(json.loads, open(V + "/properties.jsonl"))}
kf = json.load(open(V + "/known_findings.json"))
seeds = {}
if os.path.isdir(V + "/seeded"):
    for d in sorted(os.listdir(V + "/seeded")):
        m = V + "/seeded/" + d + "/meta.json"
        if os.path.exists(m):
            j = json.load(open(m)); seeds.setdefault(j["property"], []).append((d, j["what_it_breaks"], j["needs"]))
out = open(V + "/tools/design_head.md").read().rstrip() + "\n\n## Per property\n"
for i, p in props.items():
    c = CHECKS[i]; progs = ", ".join(sorted({"harness/" + g["src"] for g in c["progs"]}))
    san = sorted({("scheduler (tsan code generation, own runtime)" if "clang" in g.get("cxx", "") else "ASan+UBSan" if g.get("flags", None) is None or any("undefined" in f for f in g["flags"]) else "ASan" if any("address" in f for f in g["flags"]) else "plain, asserts on") for g in c["progs"]})
    out += f"\n### {i} {p['title']}\n"
    out += f"* **Decided by** {c['technique']} (level: {c['level']}; {progs}; {', '.join(san)}).\n"
    out += f"* **Explored** {c['rule']}.\n* **Reading of a pass** {c['note']}\n"
    out += f"* **Observed at** {', '.join(p['anchors']['observe_at'])}. **Why not tests:** {p['why_tests_cant']}\n"
    for a in c["assumptions"]: out += f"* **Assumes** {a}\n"
    for d, w, n in seeds.get(i, []): out += f"* **Seeded** `{d}` ({w}; needs: {n}) - caught by this check.\n"
    for f in kf["findings"]:
        if f["property"] == i: out += f"* **Known finding** {f['what']}\n"
    fx = [re.sub(r"^fixed: property=\S+ ", "", f) for f in kf["fixed"] if f.startswith(f"fixed: property={i} ")]
    if fx: out += "* **Defects found and repaired** " + "; ".join(f"({f.split(' ', 1)[0]}) {f.split(' ', 1)[1]}" for f in fx) + "\n"
open(V + "/DESIGN.md", "w").write(out)
print(len(out.splitlines()), "lines")
