#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
exec(open(os.path.join(H, "tools", "na.py")).read())
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(H, "checks", i.lower() + ".py")) and i not in NA:
        doc = open(os.path.join(H, "checks", i.lower() + ".py")).read().split('"""')[1].strip()
        checks.append({
            "property": i,
            "level": "other",
            "level_note": "Static: path-sensitive abstract interpretation of the current source from the public entry point; every "
                          "obligation is a postcondition on an abstract path, over symbolic inputs. Paths through unmodelled library "
                          "behaviour are reported as undecided and not counted. " + NOTES.get(i, ""),
            "technique": "abstract interpretation / typestate over the syntax tree (own analyser, no execution, no solver): " + " ".join(doc.split()),
            "quick_cmd": f"python3 check.py {i} --tier quick",
            "thorough_cmd": f"python3 check.py {i} --tier thorough",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 -m py_compile check.py sa/*.py checks/*.py", "checks": checks, "not_applicable": na}
old = json.load(open(os.path.join(H, "MANIFEST.json"))) if os.path.exists(os.path.join(H, "MANIFEST.json")) else {}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
