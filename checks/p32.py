"""P32: generated environments and decorated functions; a process with the variables set against the same functions with every default spelled out: differential testing"""
import json
import os
import subprocess
import sys

from . import envprog
from .common import *

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = {
    "A_SYNC_DEFAULT_MODE": ["sync", "async"],
    "A_SYNC_CACHE_TYPE": ["memory", "MEMORY", ""],
    "A_SYNC_CACHE_TYPED": ["1", "true", ""],
    "A_SYNC_RAM_CACHE_MAXSIZE": ["-1", "1", "2", "3"],
    "A_SYNC_RAM_CACHE_TTL": ["0", "1", "2.5"],
    "A_SYNC_RUNS_PER_MINUTE": ["0", "20", "60"],
    "A_SYNC_SEMAPHORE": ["0", "1", "2"],
    "A_SYNC_EXECUTOR_TYPE": ["threads", "T", "Thread"],
    "A_SYNC_EXECUTOR_VALUE": ["1", "2", "3"],
}
MODS = {
    "cache_type": [None, "memory"],
    "cache_typed": [False, True],
    "ram_cache_maxsize": [-1, None, 1, 2],
    "ram_cache_ttl": [None, 1, 2.5],
    "runs_per_minute": [None, 20, 60],
    "semaphore": [None, 1, 2],
    "executor": [1, 2],
}
OF = {"A_SYNC_CACHE_TYPE": "cache_type", "A_SYNC_CACHE_TYPED": "cache_typed", "A_SYNC_RAM_CACHE_MAXSIZE": "ram_cache_maxsize",
      "A_SYNC_RAM_CACHE_TTL": "ram_cache_ttl", "A_SYNC_RUNS_PER_MINUTE": "runs_per_minute", "A_SYNC_SEMAPHORE": "semaphore"}


def strategy():
    call = rec(t=tiny, v=st.integers(0, len(envprog.VALUES) - 1), d=tiny)
    f = rec(kind=st.sampled_from(["async", "async", "async", "sync", "sync", "job"]), default=st.sampled_from(["omit", "omit", None, "sync", "async"]),
            spell=st.integers(0, 3), mods=st.fixed_dictionaries({}, optional={k: st.sampled_from(v) for k, v in MODS.items()}),
            bare=st.sampled_from([True, True, False]), calls=st.lists(call, min_size=2, max_size=7))
    return rec(env=st.fixed_dictionaries({}, optional={k: st.sampled_from(v) for k, v in ENV.items()}),
               processes=st.sampled_from([False, False, False, True]), functions=st.lists(f, min_size=1, max_size=6))


def defaults_of(env):
    """The modifiers the environment stands for."""
    out = {}
    if env.get("A_SYNC_DEFAULT_MODE"):
        out["default"] = env["A_SYNC_DEFAULT_MODE"]
    if env.get("A_SYNC_CACHE_TYPE"):
        out["cache_type"] = env["A_SYNC_CACHE_TYPE"].lower()
    if env.get("A_SYNC_CACHE_TYPED"):
        out["cache_typed"] = True
    if "A_SYNC_RAM_CACHE_MAXSIZE" in env:
        out["ram_cache_maxsize"] = int(env["A_SYNC_RAM_CACHE_MAXSIZE"])
    for k, name, of in (("A_SYNC_RAM_CACHE_TTL", "ram_cache_ttl", float), ("A_SYNC_RUNS_PER_MINUTE", "runs_per_minute", int), ("A_SYNC_SEMAPHORE", "semaphore", int)):
        if of(env.get(k, 0)):
            out[name] = of(env[k])
    out["executor"] = int(env.get("A_SYNC_EXECUTOR_VALUE", 8))
    return out


def run_case(spec, case):
    env = dict(spec["env"])
    base = defaults_of(env)
    if spec["processes"]:
        env["A_SYNC_EXECUTOR_TYPE"] = "processes"
    functions = []
    for f in spec["functions"]:
        f = dict(f, mods={} if f["bare"] else dict(f["mods"]))
        if spec["processes"]:
            if f["kind"] == "sync":
                f["kind"] = "job"
            if f["kind"] == "job":
                f["mods"].pop("executor", None)
        if f["kind"] == "async":
            f["mods"].pop("executor", None)
        merged = {**base, **f["mods"]}
        if f["default"] != "omit":
            merged["default"] = f["default"]
        merged.setdefault("default", None)
        f["merged"] = merged
        # the number of calls of a sync function that can run at once
        f["expect"] = min(merged["executor"], merged.get("semaphore") or 99)
        functions.append(f)
        for k in spec["env"]:
            name = OF.get(k, k)
            if base.get(name) is not None and name not in f["mods"] and not (f["kind"] != "async" and name in envprog.UNTIMED):
                case.mark()
                case.label("default " + name)
            elif name in f["mods"]:
                case.label("overridden")
        if "default" in base and f["default"] == "omit":
            case.mark()
            case.label("default mode")
    # what must happen: the same functions with everything said explicitly, here
    require_clean()
    clean = []
    for f in functions:
        g = dict(f, mods={}, default="omit", spell=1)
        extra = dict(f["merged"])
        if f["kind"] == "job":
            extra["executor"] = 1
        clean += envprog.observe([g], extra)
    child = subprocess.run([sys.executable, os.path.join(HERE, "envprog.py")], input=json.dumps({"functions": functions}), text=True,
                           capture_output=True, timeout=60, env={**os.environ, **env})
    lines = [line for line in child.stdout.splitlines() if line.startswith("OBSERVED ")]
    require(lines, "with %r: %s", env, child.stderr.strip().splitlines()[-1:])
    got = json.loads(lines[0][len("OBSERVED "):])
    for f, g, want in zip(functions, got, json.loads(json.dumps(clean))):
        m = f["merged"]
        what = "%s function with %r and default %s under %r" % (f["kind"], f["mods"], f["default"], env)
        elsewhere = want.pop("elsewhere", None)
        for k in want:
            require(g[k] == want[k], "%s: %s is %r, spelled out it is %r", what, k, g[k], want[k])
        # and what the modifiers mean, whoever sets them
        require(g["mode"] == (m["default"] or ("async" if f["kind"] == "async" else "sync")), "%s is called in mode %s", what, g["mode"])
        if elsewhere is not None:
            require(all(e is bool(spec["processes"]) for e in g["elsewhere"]), "%s ran in another process: %r", what, g["elsewhere"])
        if f["kind"] == "sync":
            require(g["at once"] == min(envprog.GATED, f["expect"]), "%s: %d ran at once, expected %d", what, g["at once"], f["expect"])
        cached = m.get("cache_type") or m.get("cache_typed") or m.get("ram_cache_maxsize", -1) != -1 or (m.get("ram_cache_ttl") and f["kind"] == "async")
        if f["kind"] == "async":
            started = [e for e in g["log"] if e[0] == "start"]
            if not cached:
                require(len(started) == len(f["calls"]), "%s is not cached, but ran %d times for %d calls", what, len(started), len(f["calls"]))
            now_running = most = 0
            for e in g["log"]:
                now_running += 1 if e[0] == "start" else -1
                most = max(most, now_running)
            require(most <= (m.get("semaphore") or 99), "%s: %d ran at once", what, most)
        elif f["kind"] == "sync" and not cached:
            require(len(g["runs"]) == len(f["calls"]), "%s is not cached, but ran %d times for %d calls", what, len(g["runs"]), len(f["calls"]))


def require_clean():
    if any(k.startswith("A_SYNC_") for k in os.environ):
        raise HarnessError("A_SYNC_ variables are set")


SUBS = [
    Sub("environment", strategy, run_case, "a variable gave at least one function a modifier it does not name itself", quick=240, thorough=4000, shards=6, debug=False),
]
