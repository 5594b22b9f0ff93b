"""Turns a bug description into /verif/seeded/<id>/ once it is confirmed, and runs the checks on it.

usage: plant.py FILE.py [--checks P01,P02] [--no-tests] [--keep]
FILE.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...], DEMO (Python source).
Everything runs on a scratch copy of /repo that is bind-mounted over /repo in a mount namespace of its own.
"""
import json, os, runpy, shutil, subprocess, sys

src = sys.argv[1]
opts = sys.argv[2:]
d = runpy.run_path(src)
ID = d["ID"]
copy = "/tmp/sd/repo_" + ID
shutil.rmtree(copy, ignore_errors=True)
os.makedirs("/tmp/sd", exist_ok=True)
subprocess.run(["cp", "-a", "/repo", copy], check=True)


def inside(cmd, **kw):
    ev = "/tmp/sd/ev_" + ID
    os.makedirs(ev, exist_ok=True)
    return subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s /repo && mount --bind %s /verif/evidence && cd /repo && %s" % (copy, ev, cmd)],
                          capture_output=True, text=True, **kw)


for f, old, new in d["EDITS"]:
    p = os.path.join(copy, f)
    text = open(p).read()
    assert text.count(old) == 1, (f, old, text.count(old))
    open(p, "w").write(text.replace(old, new))
patch = subprocess.run(["git", "-C", copy, "diff"], capture_output=True, text=True).stdout
base = subprocess.run(["git", "-C", copy, "show", "--stat", "--oneline", "HEAD"], capture_output=True, text=True)
out = "/verif/seeded/" + ID
os.makedirs(out, exist_ok=True)
open(out + "/patch.diff", "w").write(patch)
open(out + "/demo.py", "w").write(d["DEMO"].lstrip())
open(out + "/demo.sh", "w").write('#!/bin/bash\n# run in /repo: 0 when the code behaves, nonzero when it does not\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec timeout -k 5 200 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
os.chmod(out + "/demo.sh", 0o755)
json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
# removed lines must be lines of the original repository
ok = True
r = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
print(ID, "demo on the unchanged tree:", r.returncode, (r.stdout + r.stderr)[-300:] if r.returncode else "")
ok &= r.returncode == 0
r = inside("bash /opt/vp/build.sh")
print(ID, "build:", r.returncode, r.stdout[-500:] + r.stderr[-500:] if r.returncode else "")
ok &= r.returncode == 0
r = inside("bash %s/demo.sh" % out)
print(ID, "demo on the changed tree:", r.returncode, (r.stdout + r.stderr).strip()[-300:])
ok &= r.returncode != 0
if "--no-tests" not in opts and ok:
    res = "/tmp/sd/%s.json" % ID
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for attempt in ("", "flock /tmp/sd/lock "):
        # some of the tests are sensitive to load: they get a second chance, one plant at a time
        r = inside("%sbash /opt/vp/test.sh %s" % (attempt, res))
        missing = sorted(stable - set(json.load(open(res))["passed"]))
        if not missing or len(missing) > 20:
            break
    print(ID, "tests missing:", len(missing), missing[:5])
    ok &= not missing
checks = d["PROPERTY"]
if "--checks" in opts:
    checks = opts[opts.index("--checks") + 1]
if ok or "--force" in opts:
    for c in checks.split(","):
        r = inside("cd /verif && python3 run.py %s" % c)
        lines = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "violat" in l.lower()]
        print(ID, "check", c, "exit", r.returncode, lines[:2] or (r.stdout + r.stderr)[-500:])
print(ID, "COUNTS" if ok else "DOES NOT COUNT")
if "--keep" not in opts:
    shutil.rmtree(copy, ignore_errors=True)
