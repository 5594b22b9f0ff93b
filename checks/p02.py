"""P02: mode resolution table over generated functions, decorator spellings, defaults, modifiers and call flags, and rejected definitions: reference model"""
import inspect
import json
import os
import subprocess
import sys

import a_sync
from a_sync import exceptions
from a_sync.a_sync.function import ASyncFunction

from .common import *
from .dual import *
from .p01 import decorate, fit_call

MODS = {"semaphore": [1, 3], "runs_per_minute": [100000], "cache_type": ["memory"], "cache_typed": [True], "ram_cache_maxsize": [5, None],
        "ram_cache_ttl": [50, 0.5], "executor": ["own"]}


def strategy():
    mods = st.fixed_dictionaries({}, optional={k: st.sampled_from(v) for k, v in MODS.items()})
    call = rec(args=st.lists(st.integers(0, 9), max_size=3), kw=st.dictionaries(st.sampled_from(KWNAMES), st.integers(0, 9), max_size=2),
               flag=flags, where=st.sampled_from(["in", "out"]),
               two=one_of(st.none(), st.none(), st.none(), st.tuples(st.booleans(), st.booleans()).map(list)))
    return rec(sig=signatures(), is_async=st.booleans(), yields=tiny, wrap=st.sampled_from(["def", "def", "method", "wraps_other"]),
               default=defaults, spell=st.integers(0, 5), mods=mods, twice=st.booleans(),
               calls=st.lists(call, min_size=1, max_size=6))


def run_case(spec, case):
    made = Made(spec["sig"], spec["is_async"], ["args"], spec["yields"], spec["wrap"])
    twin = Made(spec["sig"], spec["is_async"], ["args"], spec["yields"], spec["wrap"])
    fns = [(decorate(made.fn, spec["spell"], spec["default"], spec["mods"]), spec["default"])]
    if spec["twice"]:
        # the same function under other defaults
        fns += [(decorate(made.fn, spec["spell"], d, {}), d) for d in ("async", None, "sync")]
    cached = any("cache" in k for k in spec["mods"])
    with Bench() as bench:
        for n, c in enumerate(spec["calls"]):
            f, default = fns[n % len(fns)]
            args, kw = fit_call(spec["sig"], dict(c, fit=True))
            given = dict(kw)
            if c["two"]:
                given.update(sync=c["two"][0], asynchronous=c["two"][1])
                before = len(made.log)
                try:
                    r = f(*args, **given)
                    if inspect.isawaitable(r):
                        r = bench.loop.run_until_complete(awaited(r))
                except exceptions.ASyncFlagException:
                    pass
                else:
                    raise Violation("call %d with two flags gave %r" % (n, r))
                require(len(made.log) == before, "a rejected call ran the body")
                case.label("two flags")
                continue
            flag = c["flag"]
            if flag:
                given[flag[0]] = flag[1]
            sync = is_sync_call(flag, default, spec["is_async"])
            inside = c["where"] == "in" and not (sync and spec["is_async"])
            what = "call %d (%s function, default %r, flag %r, %r)" % (n, "async" if spec["is_async"] else "sync", default, flag, spec["mods"])
            if inside:
                async def call():
                    return [f(*args, **given)]
                r = bench.loop.run_until_complete(call())[0]
            else:
                r = f(*args, **given)
            if inspect.isawaitable(r) == sync:
                if inspect.iscoroutine(r):
                    r.close()
                raise Violation("%s returned %s" % (what, "an awaitable" if sync else "%r, not an awaitable" % (r,)))
            if not sync:
                r = bench.loop.run_until_complete(awaited(r))
            want = native(twin, args, kw)
            if not cached:
                compare(("ok", r), want, what)
            case.label("sync" if sync else "async", "flag" if flag else "default" if default else "kind")
            case.mark(flag is not None or default is not None)
    for given in made.log:
        for name, v in given:
            if name == "vk":
                require("sync" not in v and "asynchronous" not in v, "the flag was passed on: %r", v)


async def awaited(a):
    return await a


# ------------------------------------------------------------------ rejected definitions
def strategy_reject():
    step = rec(fn=st.integers(0, 3), spell=st.integers(0, 5), default=defaults, same=st.booleans())
    fn = rec(sig=signatures(), is_async=st.booleans(), bad=st.sampled_from([None, None, "sync", "asynchronous", "both", "gen", "agen"]),
             form=st.sampled_from(["pos", "default", "posonly", "kwonly", "kwdefault"]))
    return rec(fns=st.lists(fn, min_size=1, max_size=4), steps=st.lists(step, min_size=1, max_size=8),
               junk=st.sampled_from([None, "default", "modifier"]))


def build(f):
    if f["bad"] in ("gen", "agen"):
        ns = {}
        exec("%sdef f(a=1):\n    yield a\n" % ("async " if f["bad"] == "agen" else ""), ns)
        return ns["f"]
    names = {"sync": ["sync"], "asynchronous": ["asynchronous"], "both": ["asynchronous", "sync"], None: []}[f["bad"]]
    ns = {"BODY": None}
    if f["form"] in ("kwonly", "kwdefault") or not names:
        extra = [n + ("=True" if f["form"] == "kwdefault" else "") for n in names]
        exec(source(f["sig"], f["is_async"], extra=extra), ns)
    else:
        d = "=None" if f["form"] == "default" else ""
        tail = ", /" if f["form"] == "posonly" else ""
        exec("%sdef f(%s%s):\n    pass\n" % ("async " if f["is_async"] else "", ", ".join(n + d for n in names), tail), ns)
    return ns["f"]


def run_reject(spec, case):
    fns = [build(f) for f in spec["fns"]]
    for s in spec["steps"]:
        i = s["fn"] % len(fns)
        f = spec["fns"][i]
        fn = fns[i] if s["same"] else build(f)
        try:
            decorate(fn, s["spell"], s["default"], {})
        except (RuntimeError, ValueError) as e:
            require(f["bad"], "a valid function was rejected: %r", e)
            require((type(e) is RuntimeError) == (f["bad"] not in ("gen", "agen")), "%s rejected with %r", f["bad"], e)
            case.label("rejected " + f["bad"])
            case.mark()
        else:
            require(not f["bad"], "a function with %s (%s) was accepted", f["bad"], f["form"])
            case.label("accepted")
    if spec["junk"]:
        kw = {"default": "both"} if spec["junk"] == "default" else {"semaphor": 1}
        try:
            a_sync.a_sync(**kw)
        except ValueError:
            pass
        else:
            raise Violation("a_sync(**%r) was accepted" % kw)


# ------------------------------------------------------------------ defaults from the environment
PROGRAM = r"""
import json, os, sys
sys.path.insert(0, os.environ["VERIF_DIR"])
import asyncio, inspect
import a_sync
spec = json.loads(sys.argv[1])
out = []
loop = asyncio.new_event_loop()
asyncio.set_event_loop(loop)
for c in spec["cells"]:
    ns = {}
    exec("%sdef f(x): return x" % ("async " if c["is_async"] else ""), ns)
    kw = {} if c["default"] == "omit" else {"default": c["default"]}
    f = a_sync.a_sync(ns["f"], **kw) if c["direct"] else a_sync.a_sync(**kw)(ns["f"])
    g = {c["flag"][0]: c["flag"][1]} if c["flag"] else {}
    try:
        r = f(5, **g)
        if inspect.isawaitable(r):
            v = loop.run_until_complete(r)
            out.append(["awaitable", v])
        else:
            out.append(["plain", r])
    except Exception as e:
        out.append(["raise", repr(e)])
print(json.dumps(out))
sys.stdout.flush()
os._exit(0)
"""


def strategy_env():
    cell = rec(is_async=st.booleans(), default=st.sampled_from(["omit", "omit", "sync", "async"]), direct=st.booleans(), flag=flags)
    env = st.fixed_dictionaries({}, optional={
        "A_SYNC_DEFAULT_MODE": st.sampled_from(["sync", "async"]),
        "A_SYNC_CACHE_TYPE": st.just("memory"), "A_SYNC_RAM_CACHE_MAXSIZE": st.just("4"), "A_SYNC_RAM_CACHE_TTL": st.just("60"),
        "A_SYNC_RUNS_PER_MINUTE": st.just("100000"), "A_SYNC_SEMAPHORE": st.just("2"), "A_SYNC_CACHE_TYPED": st.just("1"),
        "A_SYNC_EXECUTOR_VALUE": st.just("2"),
    })
    return rec(env=env, cells=st.lists(cell, min_size=10, max_size=20))


def run_env(spec, case):
    env = dict(os.environ, VERIF_DIR=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    for k in list(env):
        if k.startswith("A_SYNC_"):
            del env[k]
    env.update(spec["env"])
    p = subprocess.run([sys.executable, "-c", PROGRAM, json.dumps(spec)], env=env, capture_output=True, text=True, timeout=100)
    if p.returncode:
        raise Violation("the program failed under %r: %s" % (spec["env"], p.stderr[-800:]))
    out = json.loads(p.stdout.strip().splitlines()[-1])
    glob = spec["env"].get("A_SYNC_DEFAULT_MODE")
    for c, got in zip(spec["cells"], out):
        default = glob if c["default"] == "omit" else c["default"]
        sync = is_sync_call(c["flag"], default, c["is_async"])
        require(got == ["plain" if sync else "awaitable", 5], "%r under %r gave %r", c, spec["env"], got)
    case.label("global default" if glob else "no global default")
    case.mark(bool(glob) and any(c["default"] == "omit" and not c["flag"] for c in spec["cells"]))


# ------------------------------------------------------------------ aggregates over the instances of a class
KINDS = ["async", "def", "bare", "property", "cached property"]
AGG = ["any", "all", "min", "max", "sum"]


def strategy_aggregate():
    meth = rec(kind=st.sampled_from(KINDS), default=st.sampled_from([None, "sync", "async"]))
    call = rec(meth=st.integers(0, 2), agg=st.sampled_from(AGG), flag=flags, vals=st.lists(st.integers(0, 5), min_size=1, max_size=3), modes=st.integers(0, 7),
               where=st.sampled_from(["in", "out", "out"]), kw=st.booleans())
    return rec(meths=st.lists(meth, min_size=1, max_size=3), calls=st.lists(call, min_size=1, max_size=6))


def run_aggregate(spec, case):
    from .p03 import INLINE
    src = ["class K(ASyncGenericBase):", "    def __init__(self, v, sync):", "        self.v = v", "        self.sync = sync", "        super().__init__()"]
    for n, m in enumerate(spec["meths"]):
        d = "default=%r" % m["default"] if m["default"] else ""
        k = m["kind"]
        if "property" in k:
            src += ["    @a_sync.aka.%s(%s)" % (k.replace(" ", "_"), d) if d else "    @a_sync.%s" % k.replace(" ", "_"), "    async def m%d(self):" % n, "        return self.v"]
            continue
        if k != "bare":
            src.append("    @a_sync.a_sync(%s)" % ", ".join(filter(None, [d, "executor=INLINE" if k == "def" else ""])))
        src += ["    %sdef m%d(self, add=0):" % ("" if k == "def" else "async ", n), "        return self.v + add"]
    ns = {"ASyncGenericBase": a_sync.ASyncGenericBase, "a_sync": a_sync, "INLINE": INLINE}
    exec("\n".join(src), ns)
    K = ns["K"]
    with Bench() as bench:
        for c in spec["calls"]:
            n = c["meth"] % len(spec["meths"])
            m = spec["meths"][n]
            insts = [K(v, bool(c["modes"] >> i & 1)) for i, v in enumerate(c["vals"])]
            kw = {"add": 1} if c["kw"] and "property" not in m["kind"] else {}
            values = [v + kw.get("add", 0) for v in c["vals"]]
            want = {"any": any, "all": all, "min": min, "max": max, "sum": sum}[c["agg"]](values)
            default = None if m["kind"] == "bare" else m["default"]
            sync = is_sync_call(c["flag"], default, True)
            what = "K.m%d.%s(..., %s) of a %s with the default %r" % (n, c["agg"], c["flag"], m["kind"], default)
            if c["flag"]:
                kw[c["flag"][0]] = c["flag"][1]

            def call():
                return getattr(getattr(K, "m%d" % n), c["agg"])(insts, **kw)
            if c["where"] == "in":
                async def inside():
                    try:
                        r = call()
                    except exceptions.SyncModeInAsyncContextError:
                        require(sync, "%s raised although it is async", what)
                        return want
                    require(not sync, "%s gave %r in a running loop", what, r)
                    return await r
                got = bench.loop.run_until_complete(inside())
            else:
                got = call()
                require(inspect.isawaitable(got) is not sync, "%s gave %r", what, got)
                if not sync:
                    got = bench.inside(wait, got)
            require(got == want and type(got) is type(want), "%s gave %r, expected %r", what, got, want)
            case.label("sync" if sync else "async", m["kind"])
            case.mark(bool(c["flag"] or default))


async def wait(x):
    return await x


SUBS = [
    Sub("aggregates", strategy_aggregate, run_aggregate, "a flag or a default decided the mode of an aggregate", quick=600, thorough=8000),
    Sub("resolution", strategy, run_case, "a flag or a default decided the mode of a call", quick=2500, thorough=25000, shards=2),
    Sub("rejection", strategy_reject, run_reject, "a definition was rejected", quick=1500, thorough=10000),
    Sub("environment", strategy_env, run_env, "the global default decided the mode of a call", quick=16, thorough=80, debug=False, shards=2),
]
