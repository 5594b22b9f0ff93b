"""P30: long histories of definitions that are made, used and discarded, each checked against its own definition alone: stateful generation with identity reuse"""
import gc
import inspect
import weakref

import a_sync
from a_sync import ASyncGenericBase, ASyncGenericSingleton

from .common import *
from .dual import Bench, compare, is_sync_call, source
from .p02 import build

SIG = {"po": 0, "pk": 0, "nd": 0, "va": True, "ko": 0, "kd": 0, "vk": False}


def strategy():
    flag = st.sampled_from(["sync", "asynchronous"])
    fn = rec(k=st.just("fn"), is_async=st.booleans(), default=st.sampled_from([None, "sync", "async"]),
             bad=st.sampled_from([None, None, "sync", "asynchronous", "gen", "agen"]),
             form=st.sampled_from(["pos", "default", "kwonly", "kwdefault"]), sig=st.just(SIG),
             again=st.lists(st.sampled_from([None, "sync", "async"]), max_size=3))
    klass = rec(k=st.sampled_from(["class", "class", "singleton"]), flag=flag, val=st.booleans(), style=st.sampled_from(["init", "init", "attr", "set"]),
                extra=tiny, given=st.sampled_from([None, None, True, False]), is_async=st.booleans(), slot=st.booleans())
    plain = rec(k=st.just("plain"), cached=st.booleans(), is_async=st.booleans(), default=st.sampled_from([None, "sync", "async"]))
    cached = rec(k=st.just("cached"), is_async=st.booleans(), size=st.sampled_from([None, 2, 8]), args=st.lists(tiny, min_size=1, max_size=4))
    # the modifiers of one definition, by itself, next to others of its class, or shared by several classes
    mods = rec(cache=weighted((2, st.just(False)), (1, st.just(True))), default=st.sampled_from([None, None, "sync", "async"]))
    method = rec(deco=st.one_of(st.none(), mods, mods), is_async=st.booleans())
    several = rec(k=st.just("several"), val=st.booleans(), classes=st.lists(rec(cache=st.booleans(), order=st.permutations([0, 1, 2])), min_size=1, max_size=3), shared=st.booleans(),
                  methods=st.lists(method, min_size=3, max_size=3))
    step = weighted((4, rec(d=one_of(fn, klass, plain, cached, several), keep=st.sampled_from([False, False, False, True]), gc=st.sampled_from([True, True, False]))),)
    return rec(steps=st.lists(step, min_size=4, max_size=20))


def run_case(spec, case):
    kept = []
    seen = set()
    with Bench() as bench:
        for n, s in enumerate(spec["steps"]):
            what = "definition %d of %d (%r)" % (n, len(spec["steps"]), s["d"])
            again, objs = use(s["d"], n, bench, what)
            for o in objs:
                if id(o) in seen:
                    case.label("identity reused")
                    case.mark()
                seen.add(id(o))
            case.label(s["d"]["k"])
            if s["keep"]:
                kept.append(again)
            del again, objs
            o = None
            if s["gc"]:
                gc.collect()
        for again in kept:
            again()


def mode_of(r, bench, inside=False):
    if inspect.isawaitable(r):
        async def wait():
            return await r
        return "async", bench.inside(wait)
    return "sync", r


def use(d, n, bench, what):
    """Define, use and check one definition.  Returns a function that checks it again, and the objects whose ids may be reused."""
    k = d["k"]
    if k == "fn":
        if d["bad"] or d["form"] == "kwdefault":
            fn = build(d)
        else:
            ns = {}
            exec("%sdef f(x): return [%d, x]" % ("async " if d["is_async"] else "", n), ns)
            fn = ns["f"]
        made = []
        for default in [d["default"]] + d["again"]:
            # the same function, decorated anew
            try:
                f = a_sync.a_sync(fn, default=default)
            except (RuntimeError, ValueError):
                require(d["bad"], "%s was rejected", what)
                continue
            require(not d["bad"], "%s was accepted", what)
            made.append((default, f))
        if d["bad"] or d["form"] == "kwdefault":
            return (lambda: None), [fn]

        def check():
            for default, f in made:
                got = mode_of(f(3), bench)
                want = "sync" if is_sync_call(None, default, d["is_async"]) else "async"
                require(got == (want, [n, 3]), "%s gave %r", what, got)
        check()
        return check, [fn]
    if k == "cached":
        log = []
        ns = {"log": log}
        exec("%sdef f(x):\n    log.append(x)\n    return [%d, x]" % ("async " if d["is_async"] else "", n), ns)
        f = a_sync.a_sync(ns["f"], default="async", cache_type="memory", ram_cache_maxsize=d["size"])

        def check():
            for x in d["args"]:
                got = mode_of(f(x), bench)
                require(got == ("async", [n, x]), "%s gave %r", what, got)
            if d["size"] != 2:
                require(sorted(log) == sorted(set(d["args"])), "%s: computed %r for %r", what, log, d["args"])
        check()
        return check, [ns["f"]]
    if k == "plain":
        ns = {"a_sync": a_sync, "N": n}
        deco = "a_sync.%s(default=%r)" % ("aka.cached_property" if d["cached"] else "aka.property", d["default"])
        exec("class P:\n    @%s\n    %sdef p(self):\n        return [N, self.v]" % (deco, "async " if d["is_async"] else ""), ns)
        P = ns["P"]
        obj = P()
        obj.v = "v%d" % n

        def check():
            got = mode_of(obj.p, bench)
            # without a default, an object without a mode follows the loop, which is not running here
            want = "sync" if d["default"] in ("sync", None) else "async"
            require(got == (want, [n, obj.v]), "%s gave %r", what, got)

            async def inner():
                r = obj.p
                require(inspect.isawaitable(r), "%s is not awaitable inside a loop: %r", what, r)
                return await r
            if d["default"] != "sync":
                require(bench.inside(inner) == [n, obj.v], "%s gave another value", what)
        check()
        return check, [P, P.p]
    if k == "several":
        return several(d, n, bench, what)
    # classes
    base = "ASyncGenericSingleton" if k == "singleton" else "ASyncGenericBase"
    src = ["class C(%s):" % base]
    params = "".join(", x%d=%d" % (i, i) for i in range(d["extra"]))
    if d["style"] == "attr":
        src += ["    %s = %r" % (d["flag"], d["val"]), "    def __init__(self%s):" % params]
    elif d["style"] == "set":
        src += ["    def __init__(self%s):" % params, "        self.%s = %r" % (d["flag"], d["val"])]
    else:
        src += ["    def __init__(self%s, %s=%r):" % (params, d["flag"], d["val"]), "        self.%s = %s" % (d["flag"], d["flag"])]
    if d["style"] == "set" and k == "singleton":
        src[1:1] = ["    %s = %r" % (d["flag"], d["val"])]  # a singleton class must tell its mode before it makes an instance
    src += ["        self.v = 'v%d'" % n, "        %s.__init__(self)" % base]
    a = "async " if d["is_async"] else ""
    src += ["    async def m(self, x):", "        return [%d, self.v, x]" % n,
            "    @a_sync.aka.property", "    %sdef p(self):" % a, "        return [%d, self.v]" % n,
            "    @a_sync.aka.cached_property", "    %sdef cp(self):" % a, "        return [%d, self.v, 'c']" % n,
            "    async def g(self):", "        yield %d" % n, "        yield self.v"]
    ns = {"ASyncGenericBase": ASyncGenericBase, "ASyncGenericSingleton": ASyncGenericSingleton, "a_sync": a_sync}
    exec("\n".join(src), ns)
    C = ns["C"]
    kw = {}
    val = d["val"]
    if d["style"] == "init" and d["given"] is not None:
        kw[d["flag"]] = val = d["given"]
    want = "sync" if (val if d["flag"] == "sync" else not val) else "async"
    obj = C(**kw)

    def check():
        for name, got, val in [("m", lambda: obj.m(1), [n, obj.v, 1]), ("p", lambda: obj.p, [n, obj.v]), ("cp", lambda: obj.cp, [n, obj.v, "c"])]:
            got = mode_of(got(), bench)
            require(got == (want, val), "%s: %s gave %r, expected %r", what, name, got, (want, val))
        require(list(obj.g()) == [n, obj.v], "%s: g gave other items", what)
        require((C(**kw) is obj) == (k == "singleton"), "%s: another construction gave %r", what, C(**kw))
    check()
    return check, [C, C.__init__, obj]


def several(d, n, bench, what):
    """Classes whose methods have modifiers of their own, of their class, or none; the methods may be shared by the classes."""
    log = []

    def make(i, m):
        ns = {"log": log}
        exec("%sdef m%d(self, x):\n    log.append((id(self), %d, x))\n    return [%d, %d, x]" % ("async " if m["is_async"] else "", i, i, n, i), ns)
        fn = ns["m%d" % i]
        deco = m["deco"]
        if deco is None:
            return fn
        kw = {"cache_type": "memory"} if deco["cache"] else {}
        return a_sync.a_sync(fn, default=deco["default"], **kw)
    shared = [make(i, m) for i, m in enumerate(d["methods"])]
    insts, objs = [], []
    for c in d["classes"]:
        fns = shared if d["shared"] else [make(i, m) for i, m in enumerate(d["methods"])]
        ns = {"cache_type": "memory"} if c["cache"] else {}
        for i in c["order"]:
            ns["m%d" % i] = fns[i]

        def init(self):
            self.sync = d["val"]
            ASyncGenericBase.__init__(self)
        ns["__init__"] = init
        C = type(ASyncGenericBase)("C%d" % n, (ASyncGenericBase,), ns)
        insts.append((C(), c))
        objs += [C, init, *fns]

    def check():
        for obj, c in insts:
            for i, m in enumerate(d["methods"]):
                deco = m["deco"] or {"cache": False, "default": None}
                # only async definitions have limits and caches when they run synchronously
                cached = m["is_async"] and (deco["cache"] or c["cache"])
                where = "%s: m%d of %r" % (what, i, c)
                if m["is_async"]:
                    want = deco["default"] or ("sync" if d["val"] else "async")
                else:
                    want = "sync"
                    if deco["default"] == "async":
                        want = None  # runs in the executor
                for x in (0, 1):
                    before = len(log)
                    for _ in range(2):
                        if want is None:
                            got = "sync", getattr(obj, "m%d" % i)(x, sync=True)
                        else:
                            got = mode_of(getattr(obj, "m%d" % i)(x), bench)
                        require(got == (want or "sync", [n, i, x]), "%s gave %r", where, got)
                    runs = log[before:]
                    require(all(r == (id(obj), i, x) for r in runs), "%s ran %r", where, runs)
                    require(len(runs) == 2 or cached, "%s is not cached but ran %d times for two calls", where, len(runs))
                    require(len(runs) <= 1 or not cached, "%s is cached but ran %d times for two calls", where, len(runs))
                    del runs
    check()
    return check, objs


SUBS = [
    Sub("definitions", strategy, run_case, "a definition had the identity of a discarded one", quick=1500, thorough=5000, shards=4),
]
