"""Writes MANIFEST.json from properties.jsonl and the list below."""
import json, subprocess
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
notes = json.load(open("/verif/tools/levels.json"))
why = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in notes:
        checks.append({
            "property": i, "technique": "contract-based deductive verification: contracts on the Go functions, verification conditions generated from go/ssa of /repo on every run, discharged by z3 and cvc5; bounded conformance tests of the real code look for a failing input",
            "level": "proof", "level_note": notes[i],
            "quick_cmd": f"bin/check {i} quick", "thorough_cmd": f"bin/check {i} thorough",
            "evidence_file": f"evidence/{i}.json"})
    else:
        na.append({"property": i, "reason": why.get(i, "not claimed yet: contracts under construction")})
old = json.load(open("/verif/MANIFEST.json"))
m = dict(old); m.pop("notes", None)
m["checks"] = checks
m["not_applicable"] = na
m["setup_cmd"] = "bin/setup"
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
