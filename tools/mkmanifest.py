#!/usr/bin/env python3
"""MANIFEST.json from props.json (claimed checks) and the reasons below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(os.path.join(HERE, "props.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {}
TECH = "function contracts on the real code discharged by Kani (CBMC) with symbolic-length inputs"
VERUS = "; loops and data structures by Verus over text extracted from /repo on each run"
def note(i, c):
    out = ["Kani discharges every obligation of the property's contracts for all inputs of the contracted functions (no bound on file length; loops only where the format bounds them)."]
    if c.get("verus"):
        out.append("Verus discharges the unbounded loops and data structures (jobs " + ", ".join(c["verus"]) + ").")
    if c.get("native"):
        out.append("Not proved: whole-file iteration and round trips, which the bounded stand-ins " + ", ".join(n["harness"].split("::")[1] for n in c["native"]) + " sample on the real build for a fixed time from a fixed seed against the same oracles; they are labelled bounded in the evidence and not counted as discharged.")
    if c.get("level") == "other":
        out.insert(0, "Mostly bounded: the property is about whole files, and only the contracts of the placing functions are proved.")
    out.append("Assumes the trusted base and the assumed contracts that the evidence file lists.")
    return " ".join(out)
checks = []
for i in ids:
    c = conf.get(i)
    if not c:
        NA.setdefault(i, "no check built for this property yet")
        continue
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --thorough",
                       technique=c.get("technique", TECH + (VERUS if c.get("verus") else "")), level=c.get("level", "proof"), level_note=note(i, c)))
m = dict(version=1, setup_cmd="python3 -c 'import json;json.load(open(\"props.json\"))'",
         checks=checks, not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i not in conf])
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(m["not_applicable"]), "n/a")
