"""Writes /verif/properties.jsonl and /verif/MANIFEST.json."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique="",
         note="", observe=(), claimed=True, na=None):
    P.append(dict(
        doc={
            "id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [
                    {"name": n, "where": w} for n, w in mech],
                "observe_at": list(observe),
                "hook_needed": None,
            },
        },
        technique=technique, note=note, na=na,
    ))


exec(open(os.path.join(HERE, "tools", "properties.py")).read())

TECH = ("contract-based deductive verification: contracts on the real "
        "functions (extracted from /repo on every run), verification "
        "conditions discharged by z3")

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p["doc"]) + "\n")

specs = {n[:3].upper() for n in os.listdir(os.path.join(HERE, "specs"))
         if n.startswith("c") and n.endswith(".py")}


def level(i):
    n = [n for n in os.listdir(os.path.join(HERE, "specs")) if n.startswith(i.lower() + "_")][0]
    m = re.search(r'^LEVEL = "(\w+)"', open(os.path.join(HERE, "specs", n)).read(), re.M)
    return m.group(1) if m else "proof"


checks, na = [], []
for p in P:
    i = p["doc"]["id"]
    if i in specs and not p["na"]:
        checks.append({
            "property": i,
            "quick_cmd": "python3-vt run.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3-vt run.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": (p["technique"] or TECH),
            "level": level(i),
            "level_note": p["note"] or "see DESIGN.md",
        })
    else:
        na.append({"property": i, "reason": p["na"] or
                   "no check has been built for it yet"})
m = {
    "version": 1,
    "setup_cmd": "python3-vt -c \"import z3, cvc5; print(z3.get_version_string())\"",
    "checks": checks,
    "not_applicable": na,
    "notes": "Checks import the code from /repo's working tree; no hooks in "
             "/repo are needed. VERIF_REPO selects another tree for "
             "experiments (default /repo).",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties;", len(checks), "checks;", [n["property"] for n in na])
