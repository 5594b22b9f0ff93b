"""Rewrites the "fixed" list of known_findings.json from the fix: commits of /repo (development helper, no check runs it)."""
import json, os, subprocess

here = os.path.dirname(os.path.abspath(__file__))
path = os.path.join(here, "known_findings.json")
data = json.load(open(path)) if os.path.exists(path) else {"findings": [], "fixed": []}
MAP = json.load(open(os.path.join(here, "fixed_map.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
data["fixed"] = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix: "):
        for key, pid in MAP.items():
            if s[5:].startswith(key):
                break
        else:
            raise SystemExit("no property for: " + s)
        data["fixed"].append("fixed: property=%s %s %s" % (pid, h, s[5:]))
json.dump(data, open(path, "w"), indent=1)
print(len(data["fixed"]))
