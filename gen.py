#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from the PROP records of the rule modules."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sa.na import NOT_APPLICABLE  # noqa: E402

props, checks = [], []
for f in sorted(glob.glob(os.path.join(HERE, "sa/rules/[a-z][0-9]*.py"))):
    m = importlib.import_module("sa.rules." + os.path.basename(f)[:-3])
    P = m.PROP
    props.append({
        "id": P["id"], "title": P["title"], "statement": P["statement"],
        "quantifier": {"over": P["over"], "text": P["text"]},
        "why_tests_cant": P["why"],
        "anchors": {"files": P["files"], "mechanism": [{"name": n, "where": w} for n, w in P["mech"]],
                    "observe_at": P.get("observe", []), "hook_needed": None},
    })
    checks.append({
        "property": P["id"],
        "quick_cmd": "python3 check.py %s" % P["id"],
        "thorough_cmd": "python3 check.py %s --thorough" % P["id"],
        "technique": P["technique"],
        "level": "other",
        "level_note": P["note"],
    })
for n in NOT_APPLICABLE:
    props.append({
        "id": n["id"], "title": n["title"], "statement": n["statement"],
        "quantifier": {"over": n["over"], "text": n["text"]},
        "why_tests_cant": n["why"],
        "anchors": {"files": n["files"], "mechanism": [{"name": a, "where": w} for a, w in n["mech"]],
                    "observe_at": [], "hook_needed": None},
    })
props.sort(key=lambda x: x["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for p in props:
        fh.write(json.dumps(p, ensure_ascii=False) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 -c \"import ast, sys; assert sys.version_info >= (3, 10)\"",
    "checks": sorted(checks, key=lambda c: c["property"]),
    "not_applicable": [{"property": n["id"], "reason": n["reason"]} for n in NOT_APPLICABLE],
    "notes": "All checks are pure source analyses (Python ast); nothing of /repo is imported or run. See DESIGN.md.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1, ensure_ascii=False)
    fh.write("\n")


def design():
    out = [open(os.path.join(HERE, "design/head.md")).read()]
    lines = [x.rstrip("\n") for x in open(os.path.join(HERE, "known_findings.txt"))]
    caught = json.load(open(os.path.join(HERE, "design/caught.json"))) if os.path.exists(os.path.join(HERE, "design/caught.json")) else {}
    seeds = {os.path.basename(os.path.dirname(f)): json.load(open(f)) for f in sorted(glob.glob(os.path.join(HERE, "seeded/*/meta.json")))}
    out.append("## 2. Properties decided\n")
    for f in sorted(glob.glob(os.path.join(HERE, "sa/rules/[a-z][0-9]*.py"))):
        m = importlib.import_module("sa.rules." + os.path.basename(f)[:-3])
        P = m.PROP
        out.append("### %s %s\n\n%s\n" % (P["id"], P["title"], P["statement"]))
        out.append("- **over** %s: %s\n- **why tests cannot settle it** %s\n- **anchored in** %s (%s)\n- **deciding method** %s\n- **rule** %s" % (
            ", ".join(P["over"]), P["text"], P["why"], ", ".join(n for n, _ in P["mech"]), ", ".join("`%s`" % x for x in P["files"]), P["technique"], m.EXPLAIN))
        if m.ASSUME:
            out.append("- **assumes** " + "; ".join(m.ASSUME))
        out.append("- **limits** " + P["note"])
        mine = [s for s, d in seeds.items() if d["property"] == P["id"]]
        if mine:
            out.append("- **planted bugs** " + ", ".join(mine))
        fx = sum(x.startswith("fixed: property=%s " % P["id"]) for x in lines)
        fd = sum(x.startswith("finding: property=%s " % P["id"]) for x in lines)
        if fx or fd:
            out.append("- **defects of yapCAD found** %d repaired, %d recorded (section 5)" % (fx, fd))
        out.append("")
    out.append("## 3. Properties this family cannot decide here\n")
    for n in NOT_APPLICABLE:
        out.append("- **%s %s.** %s *Not applicable:* %s" % (n["id"], n["title"], n["statement"], n["reason"]))
    out.append("\n## 4. Planted bugs and what catches them\n\n| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|")
    for s, d in seeds.items():
        out.append("| %s | %s | %s | %s | %s |" % (s, d["property"], d["needs"], d["what_it_breaks"], ", ".join(caught.get(s, ["?"])) or "missed"))
    out.append("\n## 5. Genuine defects of yapCAD\n\nRepaired (commits in /repo whose message starts with \"fix:\"):\n")
    for x in lines:
        if x.startswith("fixed: "):
            a = x.split(" ", 3)
            out.append("- %s `%s` %s" % (a[1].split("=")[1], a[2], a[3]))
    out.append("\nRecorded, not repaired (each is a KNOWN-FINDING of its check, keyed by the construct):\n")
    for x in lines:
        if x.startswith("finding: "):
            a = x.split(" ", 2)
            k, t = a[2].split(" :: ", 1)
            out.append("- %s `%s` %s" % (a[1].split("=")[1], k[4:], t))
    out.append("")
    out.append(open(os.path.join(HERE, "design/tail.md")).read())
    with open(os.path.join(HERE, "DESIGN.md"), "w") as fh:
        fh.write("\n".join(out))


design()
try:
    import jsonschema
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for p in props:
        jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
        assert len(p["title"]) <= 80, p["id"]
except ImportError:
    pass
print(len(props), "properties,", len(checks), "checks,", len(NOT_APPLICABLE), "not applicable")
