"""Writes MANIFEST.json from properties.jsonl and the contracts in units/."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, "tools", "level_notes.json")))
have = {}
for u in sorted(glob.glob(os.path.join(HERE, "units", "*.cpp"))):
    for m in re.finditer(r"(?:^//@ (.*)\n)?^\s*VF_HARNESS\(((C\d\d)_\w+)\)", open(u).read(), re.M):
        opts = dict(o.split("=", 1) for o in (m.group(1) or "").split())
        have.setdefault(m.group(3), []).append((m.group(2), opts))


def note(contracts):
    every = [h for h, o in contracts if "scope" not in o]
    fixed = ["%s (%s)" % (h, o["scope"].replace("_", " ")) for h, o in contracts if "scope" in o and o.get("mode") != "native"]
    runs = ["%s (%s)" % (h, o["scope"].replace("_", " ")) for h, o in contracts if o.get("mode") == "native"]
    t = ""
    if every:
        t += "Proved for every size, value and iteration count: %s. " % ", ".join(every)
    if fixed:
        t += "Bounded, not counted as proved: obligations discharged for every value but only at the sizes given: %s. " % ", ".join(fixed)
    if runs:
        t += "Only run on seeded inputs: %s. " % ", ".join(runs)
    return t + NOTES["default"]


checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "contract-based deductive verification (obligations generated from the IR of the real functions, discharged by ring normaliser, z3, cvc5)",
            "level": "proof" if any("scope" not in o for _, o in have[i]) else "other",
            "level_note": note(have[i]),
            "theorems": [h for h, o in have[i] if "scope" not in o],
        })
    else:
        na.append({"property": i, "reason": NOTES.get("na:" + i, "no contract written for it yet in this framework")})
man = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "none", "enable": "no hooks are needed: the contracts are separate translation units that include the sources of /repo", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "Each check compiles the contract units in units/ together with /repo's current sources, generates obligations from the IR and discharges them; see DESIGN.md.",
}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
