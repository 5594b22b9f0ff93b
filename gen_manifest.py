"""Writes MANIFEST.json: one check per property that has a module in checks/."""
import importlib.util, json, os, re

here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(line) for line in open(os.path.join(here, "properties.jsonl"))]
claimed = {f[:-3].upper() for f in os.listdir(os.path.join(here, "checks")) if re.fullmatch(r"p\d\d\.py", f)}
NOTES = {
    "default": "randomised search with shrinking against an explicit model; bounded by the generators, so it shows the presence of violations, not their absence",
}
checks, not_applicable = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        doc = open(os.path.join(here, "checks", i.lower() + ".py")).read().split('"""')[1].strip().split(": ", 1)[-1].replace("\n", " ")
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "property-based testing (Hypothesis generators, shrinking, replay): " + doc,
            "level": "exploration",
            "level_note": NOTES.get(i, NOTES["default"]),
        })
    else:
        not_applicable.append({"property": i, "reason": "the technique applies, but its check is not written yet"})
m = {"version": 1, "setup_cmd": "python3 -c \"from vlib import build; build.ensure_built()\"", "checks": checks, "not_applicable": not_applicable}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", [n["property"] for n in not_applicable])
