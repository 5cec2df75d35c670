#!/usr/bin/env python3
"""Writes MANIFEST.json: claims every property that has a Test<id>... function."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set()
for f in glob.glob(H + "/harness/checks/*_test.go"):
    have |= set(re.findall(r"^func Test(C\d\d)", open(f).read(), re.M))
TECH = json.load(open(H + "/tools/techniques.json"))
checks, na = [], []
for line in open(H + "/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    t = TECH.get(i, {})
    if i in have:
        checks.append({"property": i, "quick_cmd": f"python3 run.py check {i} quick", "thorough_cmd": f"python3 run.py check {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t.get("technique", "property-based testing with rapid"),
                       "level": {"C13": "fault_enumeration", "C20": "fault_enumeration"}.get(i, "exploration"),
                       "level_note": t.get("note", "No counterexample among the generated cases; trusts rapid, the Go toolchain and the harness' model.")})
    else:
        na.append({"property": i, "reason": t.get("na", "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check drives the public API of /repo's working tree. See DESIGN.md."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(sorted(have), len(na))
