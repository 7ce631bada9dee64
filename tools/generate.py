#!/usr/bin/env python3
"""Write properties.jsonl, MANIFEST.json and DESIGN.md from tools/properties_src.py."""
import ast
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from properties_src import PROPS  # noqa: E402

with open(os.path.join(ROOT, "properties.jsonl"), "w") as out:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        out.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]},
        }) + "\n")

checks = []
for p in PROPS:
    if os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py")):
        checks.append({
            "property": p["id"],
            "quick_cmd": f"bash check.sh {p['id']} --tier quick",
            "thorough_cmd": f"bash check.sh {p['id']} --tier thorough",
            "technique": "property-based testing: " + p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        })
manifest = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": [
        {"property": p["id"], "reason": "no check yet"} for p in PROPS
        if p["id"] not in [c["property"] for c in checks]
    ],
    "notes": "No hooks in /repo: the checks use public entry points. See DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as out:
    json.dump(manifest, out, indent=1)
    out.write("\n")
print(len(PROPS), "properties,", len(checks), "checks")



def constants(prop_id):
    path = os.path.join(ROOT, "checks", prop_id.lower() + ".py")
    found = {}
    with open(path, encoding="utf-8") as source:
        for node in ast.parse(source.read()).body:
            if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in ("RULE", "ASSUMPTIONS"):
                found[node.targets[0].id] = ast.literal_eval(node.value)
    return found


def rule(prop_id):
    return constants(prop_id)["RULE"]


def assumptions(prop_id):
    return constants(prop_id).get("ASSUMPTIONS", [])


# DESIGN.md: head + one section per property + tail
head = open(os.path.join(ROOT, "tools", "design_head.md"), encoding="utf-8").read()
tail = open(os.path.join(ROOT, "tools", "design_tail.md"), encoding="utf-8").read()
with open(os.path.join(ROOT, "DESIGN.md"), "w", encoding="utf-8") as f:
    f.write(head)
    for p in PROPS:
        f.write(f"### {p['id']}: {p['title']}\n\n")
        f.write(f"{p['statement']}\n\n")
        f.write(f"* Decided by: {p['technique']}.\n")
        f.write(f"* Generated: {p['text']}. Rule: {rule(p['id'])}\n")
        f.write(f"* Bounds: {p['note']}\n")
        f.write(f"* Beyond the tests: {p['why']}\n")
        for line in assumptions(p["id"]):
            f.write(f"* Assumption: {line}\n")
        f.write("\n")
    f.write(tail)
    f.write("\n## Defects found and repaired\n\n")
    for line in open(os.path.join(ROOT, "known_findings.jsonl"), encoding="utf-8"):
        if line.startswith("fixed:"):
            f.write(f"* {line[len('fixed: property='):].strip()}\n")
    f.write("\n## Planted bugs\n\nEach was confirmed in a scratch copy (the 22 stable tests pass, its "
            "demonstration fails) and run\nagainst its property's quick check (tools/mkseed.py).\n\n"
            "| bug | property | breaks | result of the check |\n|---|---|---|---|\n")
    results = json.load(open(os.path.join(HERE, "seed_results.json"), encoding="utf-8"))
    for name, result in sorted(results.items()):
        if os.path.isdir(os.path.join(ROOT, "seeded", name)):
            f.write(f"| {name} | {result['property']} | {result['breaks']} | {result['check']} |\n")
