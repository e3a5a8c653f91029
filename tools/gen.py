#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and specs.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props, specs
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = sorted(props.P, key=lambda p: p["id"])
assert len({p["id"] for p in P}) == len(P)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert p["statement"].count(". ") <= 2, p["id"]
        a = dict(files=p["files"], mechanism=p["mechanism"])
        if p["state"]: a["state"] = p["state"]
        if p["observe"]: a["observe_at"] = p["observe"]
        a["hook_needed"] = p["hook"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"], anchors=a)) + "\n")
checks, na = [], []
for p in P:
    if p["na"]:
        assert p["id"] not in specs.SPECS
        na.append(dict(property=p["id"], reason=p["na"]))
        continue
    s = specs.SPECS[p["id"]]
    note = p["note"] or ("Holds for every case within the bounds (quick: %s). The real code, compiled from the working tree%s, is executed on every case and compared with an independent reference; nothing is claimed beyond the bounds." % (
        s["bounds"]["quick"], " with address and undefined-behaviour sanitizers" if any(u.get("mode") == "asan" for u in s["units"]) else ""))
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"],
                       thorough_cmd="python3 check.py %s --tier thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
                       technique=p["technique"], level="model_checking", level_note=note))
m = dict(version=1, setup_cmd="python3 -c \"import sys; sys.path.insert(0,'tools'); import specs\" && g++ --version",
         checks=checks, not_applicable=na,
         notes="No hooks in /repo: the checks compile /repo's sources unmodified. Known findings: known_findings.jsonl.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(P), "properties,", len(checks), "checks,", len(na), "not applicable")

# DESIGN.md: hand-written head, generated per-property part, hand-written tail.
T = os.path.join(V, "tools")
def read(n):
    p = os.path.join(T, n)
    return open(p).read() if os.path.exists(p) else ""
d = read("design_head.md").replace("SHIMS_TABLE", read("shims.md").strip())
d += "\n## Properties\n"
for p in P:
    d += "\n### %s %s\n\n" % (p["id"], p["title"])
    if p["na"]:
        d += "Not applicable: %s\n" % p["na"]
        continue
    s = specs.SPECS[p["id"]]
    d += "* Specified: see properties.jsonl; anchored in %s.\n" % ", ".join("`%s`" % f for f in p["files"])
    d += "* Decided by: %s.\n" % p["technique"]
    d += "* Enumerated: %s. Bounds, quick: %s. Thorough: %s.\n" % (p["quant"], s["bounds"]["quick"], s["bounds"]["thorough"])
    d += "* Code under test: %s%s.\n" % (", ".join("`%s`" % r for u in s["units"] for r in u.get("repo", [])) or "headers only", "; sanitizers on" if any(u.get("mode") == "asan" for u in s["units"]) else "")
    if s.get("assumptions"): d += "* Assumptions: %s\n" % " ".join(s["assumptions"])
    d += "* Beyond the tests: %s\n" % p["why"]
    if s.get("cost"): d += "* Cost: %s\n" % s["cost"]
d += "\n## Genuine defects found\n\n"
for line in open(os.path.join(V, "known_findings.jsonl")):
    if line.strip():
        k = json.loads(line)
        d += "* %s (%s): %s\n" % (k["property"], k["status"], k["what"])
seeds = json.load(open(os.path.join(T, "seeds.json"))) if os.path.exists(os.path.join(T, "seeds.json")) else []
d += "\n" + read("design_tail.md").replace("SEED_TABLE", "\n".join("| %s | %s | %s (needs: %s) | %s |" % tuple(x) for x in seeds))
with open(os.path.join(V, "DESIGN.md"), "w") as f:
    f.write(d)
