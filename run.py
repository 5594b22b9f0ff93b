#!/usr/bin/env python3
"""run.py ID [--replay FILE] : decide one property on /repo's current tree.

Environment: VERIF_SEED, VERIF_TIER (quick|thorough).  See DESIGN.md.
"""
import argparse
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from vlib import build  # noqa: E402

PY = build.PY
STALL = 300  # s without a new case before a shard counts as stuck in uninterruptible code


def env(repo, debug=False):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("EZASYNC", "A_SYNC", "PYTHON"))}
    e.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=repo, LANG="C.UTF-8",
             VERIF_DEBUG="1" if debug else "",
             HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(tempfile.gettempdir(), "hyp"))
    return e


def run_shard(repo, pid, sub, seed, n, tmp, debug=False):
    tag = "%s-%d" % (sub, seed)
    out, journal = os.path.join(tmp, tag + ".json"), os.path.join(tmp, tag + ".journal")
    open(journal, "w").close()
    log = open(os.path.join(tmp, tag + ".log"), "w+")
    p = subprocess.Popen(
        [PY, os.path.join(VERIF, "vlib", "worker.py"), "search", pid.lower(), sub, str(seed), str(n), out, journal],
        env=env(repo, debug), stdout=log, stderr=log, cwd=tmp, start_new_session=True)
    died = None
    while True:
        try:
            p.wait(timeout=2)
            break
        except subprocess.TimeoutExpired:
            if time.time() - os.stat(journal).st_mtime > STALL:
                died = "HANG the worker made no progress for %d s" % STALL
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                break
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    log.flush()
    log.seek(0)
    logtext = log.read()[-3000:]
    if os.path.exists(out):
        with open(out) as f:
            r = json.load(f)
    else:
        with open(journal) as f:
            text = f.read()
        r = {"sub": sub, "evaluations": 0, "distinct_nontrivial": 0, "labels": {}, "samples": [],
             "fail": None, "error": None, "rule": ""}
        if died is None and p.returncode is not None and p.returncode < 0:
            died = "CRASH the process was ended by signal %d" % -p.returncode
        if died and text:
            r["fail"] = [text, died]
        else:
            r["error"] = "worker exited with %s\n%s" % (p.returncode, logtext)
    r["seed"], r["n"], r["debug"] = seed, n, debug
    return r


def replay(repo, pid, path, limit=200):
    """Returns the failure text, None when it held, or raises RuntimeError."""
    with tempfile.TemporaryDirectory(prefix="verif-replay-") as tmp:
        with open(path) as f:
            rep = json.load(f)
        if rep.get("mode") == "shard":
            r = run_shard(repo, pid, rep["sub"], rep["shard_seed"], rep["shard_n"], tmp, rep.get("debug", False))
            if r["error"]:
                raise RuntimeError(r["error"])
            return r["fail"][1] if r["fail"] else None
        out = os.path.join(tmp, "out.json")
        # NOTE: a file, because processes the case leaves behind would keep a pipe open
        logfile = open(os.path.join(tmp, "log"), "w+b")
        p = subprocess.Popen([PY, os.path.join(VERIF, "vlib", "worker.py"), "replay", pid.lower(), path, out],
                             env=env(repo, rep.get("debug", False)), cwd=tmp, stdout=logfile, stderr=logfile,
                             start_new_session=True)
        try:
            p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            return "HANG no answer in %d s" % limit
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            p.wait()
            logfile.seek(0)
            log = logfile.read()
            logfile.close()
        if os.path.exists(out):
            with open(out) as f:
                return json.load(f)["fail"]
        if p.returncode < 0:
            return "CRASH the process was ended by signal %d" % -p.returncode
        raise RuntimeError("replay worker exited with %s\n%s" % (p.returncode, log.decode()[-3000:]))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--sub", help="only this sub-check (development)")
    ap.add_argument("--no-build", action="store_true")
    a = ap.parse_args()
    repo = build.REPO
    pid = a.pid.upper()
    t0 = time.time()
    if not a.no_build:
        build.ensure_built()
    if a.replay:
        msg = replay(repo, pid, a.replay)
        print("held" if msg is None else "FAILED: " + msg)
        if msg is not None:
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
        return 1 if msg is not None else 0

    # the list of sub-checks comes from the module itself, in a throw-away process
    p = subprocess.run([PY, os.path.join(VERIF, "vlib", "listing.py"), pid.lower()], env=env(repo),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        sys.stderr.write(p.stderr[-4000:])
        return 2
    listing = json.loads(p.stdout)
    jobs = []
    for i, s in enumerate(listing["subs"]):
        if a.sub and s["name"] != a.sub:
            continue
        thorough = a.tier == "thorough"
        shards = max(s["shards"], 4 if thorough else 1)
        n = s["thorough" if thorough else "quick"]
        per = max(1, n // shards)
        for k in range(shards):
            jobs.append((s["name"], (a.seed % 1000003) * 1000 + i * 20 + k, per, False))
        if s["debug"]:
            # the same search with the library's debug logging on, which must not change anything
            jobs.append((s["name"], (a.seed % 1000003) * 1000 + i * 20 + 19, max(1, per // 2), True))
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    with ThreadPoolExecutor(max_workers=8) as ex:
        results = list(ex.map(lambda j: run_shard(repo, pid, j[0], j[1], j[2], tmp, j[3]), jobs))

    errors = [r for r in results if r["error"]]
    for r in errors:
        sys.stderr.write("ERROR in %s (seed %s):\n%s\n" % (r["sub"], r["seed"], r["error"]))

    # known findings: replayed every time, reported but never counted as violations
    known = []
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        with open(kf) as f:
            known = [k for k in json.load(f)["findings"] if k["property"] == pid]
    for k in known:
        path = os.path.join(VERIF, k["replay"])
        try:
            msg = replay(repo, pid, path)
        except RuntimeError as e:
            sys.stderr.write(str(e) + "\n")
            return 2
        if msg is not None:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    violations, notes = [], []
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for old in os.listdir(rdir):
        if old.startswith(pid + "-"):
            os.unlink(os.path.join(rdir, old))
    for r in results:
        if not r["fail"]:
            continue
        text, msg = r["fail"]
        path = os.path.join(rdir, "%s-%s-%d.json" % (pid, r["sub"], r["seed"]))
        rep = {"property": pid, "sub": r["sub"], "mode": "case", "spec": json.loads(text), "observed": msg,
               "shard_seed": r["seed"], "shard_n": r["n"], "debug": r["debug"]}
        confirmed = None
        for mode, tries in (("case", 3), ("shard", 1)):
            rep["mode"] = mode
            with open(path, "w") as f:
                json.dump(rep, f, indent=1)
            for _ in range(tries):
                try:
                    confirmed = replay(repo, pid, path)
                except RuntimeError as e:
                    notes.append("replay error in %s: %s" % (r["sub"], e))
                if confirmed is not None:
                    break
            if confirmed is not None or violations:
                break
        if confirmed is None:
            notes.append("unreproduced failure in %s: %s" % (r["sub"], msg))
            continue
        violations.append((path, r["sub"], confirmed))

    subs = {}
    for r in results:
        d = subs.setdefault(r["sub"], {"evaluations": 0, "distinct_nontrivial": 0, "labels": {}, "rule": r["rule"]})
        d["evaluations"] += r["evaluations"]
        d["distinct_nontrivial"] += r["distinct_nontrivial"]
        for k, v in r["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
    samples = []
    for r in results:
        for t in r["samples"][:3]:
            samples.append("%s: %s" % (r["sub"], t))
    ev = {
        "property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in results),
            "rule": "; ".join("%s: %s" % (k, v["rule"]) for k, v in subs.items()),
            "samples": samples[:40],
            "sub_checks": subs,
            "violation_details": [{"replay": p, "sub": s, "what": m} for p, s, m in violations],
        },
        "wall_s": round(time.time() - t0, 1),
        "violations": len(violations),
        "assumptions": listing.get("assumptions", []) + notes,
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    subprocess.run(["rm", "-rf", tmp])
    for n in notes:
        print("NOTE " + n)
    for k, v in subs.items():
        print("%s %s: %d cases, %d distinct non-trivial %s" % (pid, k, v["evaluations"], v["distinct_nontrivial"],
                                                              json.dumps(v["labels"], sort_keys=True)))
    for path, s, m in violations:
        print("%s: %s" % (s, m))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    print("wall %.1f s" % (time.time() - t0))
    if violations:
        return 1
    if errors or any(n.startswith("replay error") for n in notes):
        return 2
    return 0


if __name__ == "__main__":
    sys.stdout.flush()
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
