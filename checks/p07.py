"""P07: random call histories, sequential and overlapping, against generated cache configurations, compared with a model of the memoised function: model-based testing"""
import inspect
from collections import OrderedDict

import a_sync
from a_sync import ASyncGenericBase
from a_sync.a_sync.modifiers.cache import apply_async_cache
from a_sync.a_sync.modifiers.cache.memory import apply_async_memory_cache

from .common import *
from .dual import Bench, in_thread
from .p03 import INLINE, capture

# equal and unequal values of several types
ARGS = [0, 1, 2, 0.0, 1.0, False, True, "0", "1", "", None, (), (1,), (1.0,), frozenset(), b"1"]
# without `typed`, whether equal values of different types are one call is left open by functools
PLAIN = [0, 1, 2, 2.5, 0.5, 3, "a", "0", "1", "", None, (), (1,), (2.0,), frozenset(), b"1"]


def call_args():
    a = weighted((3, st.integers(0, 5)), (1, st.integers(0, len(ARGS) - 1)))
    return rec(pos=st.lists(a, max_size=2), kw=st.dictionaries(st.sampled_from(["a", "b"]), a, max_size=1))


def cache():
    return rec(maxsize=st.sampled_from(["absent", "absent", None, -1, 1, 1, 2, 3]), typed=st.sampled_from(["absent", False, True]),
               memory=st.booleans())


def arguments(s, typed):
    pool = ARGS if typed else PLAIN
    return tuple(pool[i] for i in s["pos"]), {k: pool[i] for k, i in s["kw"].items()}


def key_of(args, kw, typed):
    if typed:
        # the argument itself, not what is inside it, decides
        return tuple((type(x), x) for x in args), tuple(sorted((k, type(v), v) for k, v in kw.items()))
    return args, tuple(sorted(kw.items()))


def options(c, ttl=None):
    kw = {}
    if c["memory"]:
        kw["cache_type"] = "memory"
    if c["maxsize"] != "absent":
        kw["ram_cache_maxsize"] = c["maxsize"]
    if c["typed"] != "absent":
        kw["cache_typed"] = c["typed"]
    if ttl is not None:
        kw["ram_cache_ttl"] = ttl
    enabled = c["memory"] or c["maxsize"] not in ("absent", -1) or c["typed"] is True or ttl is not None
    if not enabled:
        kw["cache_type"] = "memory"
    return kw


class Result:
    def __init__(self, fn, args, kw, n):
        self.fn, self.args, self.kw, self.n = fn, args, kw, n

    def __repr__(self):
        return "<run %d of %s(%r, %r)>" % (self.n, self.fn, self.args, self.kw)


# ------------------------------------------------------------------ sequential histories in every mode
def strategy():
    op = rec(fn=st.integers(0, 1), args=call_args(), flag=st.sampled_from([None, None, True, False]),
             where=st.sampled_from(["out", "out", "in", "thread"]), drop=st.sampled_from([False] * 7 + [True]))
    return rec(cache=cache(), shape=st.sampled_from(["functions", "functions", "methods", "apply", "apply memory"]), is_async=st.sampled_from([True, True, True, False]),
               default=st.sampled_from([None, "sync", "async"]), fails=st.lists(st.sampled_from([False, False, True]), min_size=1, max_size=4),
               yields=tiny, shared=st.booleans(), ops=st.lists(op, min_size=4, max_size=20))


def run_sequential(spec, case):
    kw = options(spec["cache"])
    shape = spec["shape"]
    is_async = spec["is_async"] or shape.startswith("apply")
    log = []
    runs = {}

    def body(fn, args, kw):
        n = runs[fn] = runs.get(fn, 0) + 1
        log.append((fn, args, kw))
        if spec["fails"][(n - 1) % len(spec["fails"])]:
            raise Boom(n)
        return Result(fn, args, kw, n)

    def make(name):
        if is_async:
            async def f(*args, **kw):
                await spin(spec["yields"])
                return body(name, args, kw)
        else:
            def f(*args, **kw):
                return body(name, args, kw)
        return f

    names = ["f", "g"]
    if shape == "functions":
        if not is_async:
            kw["executor"] = INLINE
        deco = a_sync.a_sync(default=spec["default"], **kw)
        fns = [deco(make("f")), (deco if spec["shared"] else a_sync.a_sync(default=spec["default"], **kw))(make("g"))]
    elif shape == "methods":
        if not is_async:
            kw["executor"] = INLINE

        class C(ASyncGenericBase):
            def __init__(self, name, sync):
                self.name = name
                self.sync = sync
                super().__init__()
            if is_async:
                @a_sync.a_sync(default=spec["default"], **kw)
                async def m(self, *args, **kw):
                    await spin(spec["yields"])
                    return body(self.name, args, kw)
            else:
                @a_sync.a_sync(default=spec["default"], **kw)
                def m(self, *args, **kw):
                    return body(self.name, args, kw)
        insts = [C("f", sync=False), C("g", sync=False)]
        fns = [i.m for i in insts]
    elif shape == "apply":
        fns = [apply_async_cache(**kw)(make("f")), apply_async_cache(make("g"), **kw)]
    else:
        long = {"ram_cache_maxsize": "maxsize", "cache_typed": "typed"}
        kw2 = {long[k]: v for k, v in kw.items() if k in long}
        kw2.setdefault("maxsize", None)
        fns = [apply_async_memory_cache(**kw2)(make("f")), apply_async_memory_cache(make("g"), **kw2)]
    maxsize = kw.get("ram_cache_maxsize")
    if maxsize in (-1, None):
        maxsize = None
    typed = bool(kw.get("cache_typed"))
    model = [OrderedDict(), OrderedDict()]
    hits = 0
    with Bench() as bench:
        for n, op in enumerate(spec["ops"]):
            i = op["fn"]
            args, ckw = arguments(op["args"], typed)
            fkw = dict(ckw)
            if shape.startswith("apply"):
                sync = False
            elif op["flag"] is not None:
                sync = op["flag"]
                fkw["sync"] = sync
            elif spec["default"]:
                sync = spec["default"] == "sync"
            else:
                sync = not is_async
            where = op["where"]
            if sync and where == "in" and is_async:
                where = "out"
            what = "op %d: %s(%r, %r) %s" % (n, names[i], args, ckw, "sync" if sync else "async")
            before = len(log)

            def call():
                return fns[i](*args, **fkw)

            if not sync and op["drop"]:
                r = call()
                if inspect.iscoroutine(r):
                    r.close()
                require(len(log) == before, "%s: ran without being awaited", what)
                continue

            async def acall():
                return await call()
            if sync:
                r = capture(call) if where == "out" else in_thread(capture, call) if where == "thread" else bench.inside(capture, call)
                require(not inspect.isawaitable(r[1]), "%s: gave %r", what, r)
            elif where == "thread":
                r = in_thread(capture, lambda: asyncio.new_event_loop().run_until_complete(acall()))
            else:
                r = capture(lambda: bench.inside(acall))
            if r[0] == "raise" and not isinstance(r[1], Boom):
                raise r[1]
            k = key_of(args, ckw, typed)
            if sync and not is_async:
                # the cache belongs to the async mode of a plain function
                require(len(log) == before + 1, "%s: ran %r", what, log[before:])
                continue
            if k in model[i]:
                hits += 1
                require(len(log) == before, "%s: ran again", what)
                require(r[0] == "ok" and r[1] is model[i][k], "%s: got %r instead of %r", what, r, model[i][k])
                model[i].move_to_end(k)
                case.label("hit")
                continue
            require(log[before:] == [(names[i], args, ckw)] and [list(map(type, log[-1][1])), list(map(type, log[-1][2].values()))] ==
                    [list(map(type, args)), list(map(type, ckw.values()))], "%s: ran %r", what, log[before:])
            require((r[0] == "raise") == spec["fails"][(runs[names[i]] - 1) % len(spec["fails"])], "%s: gave %r", what, r)
            # a failed entry occupies its place until the arguments are used again, as in async_lru
            model[i][k] = r[1] if r[0] == "ok" else None
            if maxsize is not None and len(model[i]) > maxsize:
                model[i].popitem(last=False)
                case.label("evicted")
            if r[0] == "raise":
                case.label("failure")
                require(isinstance(r[1], Boom) and r[1].ident == runs[names[i]], "%s: raised %r", what, r[1])
                if model[i].get(k, 0) is None:
                    model[i][k] = FAILED
            if FAILED in model[i].values():
                # only the exact place of failures is unknown: start over with what a retry would do
                pass
            for kk in [kk for kk, v in model[i].items() if v is FAILED]:
                if maxsize is None:
                    del model[i][kk]
                else:
                    # which entry a failure displaces is not part of the property: forget everything
                    fns, model = forget(spec, shape, kw, make, fns, model, i)
                    break
    case.mark(hits)
    case.label(shape)
    if hits and typed:
        case.label("hit in a typed cache")
    if hits and maxsize:
        case.label("hit in a bounded cache")


FAILED = object()


def forget(spec, shape, kw, make, fns, model, i):
    """After a failure in a bounded cache both sides start again empty."""
    name = ["f", "g"][i]
    fns, model = list(fns), list(model)
    if shape == "functions":
        fns[i] = a_sync.a_sync(default=spec["default"], **kw)(make(name))
    elif shape == "methods":
        cls = type(fns[i].__self__)
        obj = cls(name, sync=False)
        KEEP.append(obj)
        fns[i] = obj.m
    else:
        fns[i] = apply_async_cache(make(name), **kw)
    model[i] = OrderedDict()
    return fns, model


KEEP = []


# ------------------------------------------------------------------ overlapping calls in virtual time
def strategy_overlap():
    op = rec(t=st.integers(0, 6), y=tiny, key=st.integers(0, 3), n=st.integers(1, 3), cancel=maybe(st.integers(0, 4), 4))
    return rec(cache=cache(), ttl=st.sampled_from([None, None, None, 1, 2, 4, 0.5, 1.5, 2.75]), scale=weighted((3, st.just(1)), (1, st.just(150))), method=st.booleans(), is_async=st.sampled_from([True, True, True, False]),
               lat=st.lists(st.sampled_from([0, 1, 2, 3]), min_size=1, max_size=3), fails=st.lists(st.sampled_from([False, False, True]), min_size=1, max_size=3),
               ops=st.lists(op, min_size=2, max_size=8))


def run_overlap(spec, case):
    run(overlap, spec, case)


async def overlap(spec, case):
    rec_ = Recorder()
    scale = spec["scale"]
    spec = dict(spec, ttl=spec["ttl"] and spec["ttl"] * scale)
    kw = options(spec["cache"], spec["ttl"])
    maxsize = kw.get("ram_cache_maxsize")
    unbounded = maxsize in (None, -1)
    clock = [0]
    runs = {}  # key -> list of dicts
    ending = [False]

    def tick():
        clock[0] += 1
        return clock[0]

    def begin(x):
        mine = runs.setdefault(x, [])
        last = mine[-1] if mine else None
        if unbounded and last is not None:
            rec_.require(last["end"] is not None, "f(%r) was started while it was running", x)
            if last["ok"]:
                rec_.require(spec["ttl"] is not None and now() >= last["at"] + spec["ttl"], "f(%r) was computed again at %s", x, now())
                case.label("expired")
        r = {"n": len(mine), "start": tick(), "end": None, "ok": None, "value": None, "at": None, "began": now()}
        mine.append(r)
        return r

    total = [0]

    def finish(x, r):
        r["end"], r["at"] = tick(), now()
        total[0] += 1
        r["ok"] = not spec["fails"][r["n"] % len(spec["fails"])]
        if not r["ok"]:
            r["value"] = Boom((x, r["n"]))
            raise r["value"]
        r["value"] = Result("f", x, {}, r["n"])
        return r["value"]

    if spec["is_async"]:
        async def f(x):
            r = begin(x)
            try:
                await delay(spec["lat"][r["n"] % len(spec["lat"])] * scale)
            except CancelledError:
                rec_.require(ending[0], "a computation was cancelled")
                raise
            return finish(x, r)
    else:
        kw["executor"] = INLINE

        def f(x):
            return finish(x, begin(x))
    if spec["method"]:
        f0 = f
        case.label("method")

        class C(ASyncGenericBase):
            def __init__(self):
                self.sync = False
                super().__init__()

            if spec["is_async"]:
                @a_sync.a_sync(default="async", **kw)
                async def m(self, x):
                    return await f0(x)
            else:
                @a_sync.a_sync(default="async", **kw)
                def m(self, x):
                    return f0(x)
        inst = C()
        g = lambda x: inst.m(x)
    else:
        g = a_sync.a_sync(default="async", **kw)(f)
    callers = []

    async def caller(x, canceller):
        start, t0 = tick(), now()
        fresh = [r for r in runs.get(x, ()) if r["end"] is None]
        try:
            v = await g(x)
        except CancelledError:
            require(canceller.get("done"), "f(%r): an undisturbed caller was cancelled", x)
            return
        except Boom as e:
            end = tick()
            require(any(r["value"] is e and r["end"] <= end and (r["end"] >= start or r["at"] == t0) for r in runs[x]), "f(%r) raised %r, an old or foreign failure", x, e)
            case.label("failure seen")
            return
        require(isinstance(v, Result) and v.args == x, "f(%r) gave %r", x, v)
        r = runs[x][v.n]
        require(r["value"] is v, "f(%r) gave %r", x, v)
        if spec["ttl"] is not None:
            require(t0 <= r["at"] + spec["ttl"], "f(%r) gave a value computed at %s when asked at %s", x, r["at"], t0)
        if fresh:
            case.label("joined a computation")
        if r["end"] < start or fresh:
            case.mark()

    async def cancel(t, at, canceller):
        await delay(at * scale)
        if not t.done():
            canceller["done"] = True
            t.cancel()
            case.label("cancelled caller")

    async def play(op):
        await delay(op["t"] * scale, op["y"])
        for i in range(op["n"]):
            canceller = {}
            t = asyncio.create_task(caller(op["key"], canceller))
            callers.append(t)
            if op["cancel"] is not None and i == 0:
                asyncio.create_task(cancel(t, op["cancel"], canceller))

    plays = [asyncio.create_task(play(op)) for op in spec["ops"]]
    await settle(plays)
    await asyncio.sleep(40 * scale)
    for t in callers:
        require(t.done(), "a caller never got an answer")
        if not t.cancelled():
            t.result()
    rec_.check()
    ending[0] = True
    if not unbounded and spec["ttl"] is None:
        # keys beyond the size are computed again, whatever happened before
        before = {x: len(r) for x, r in runs.items()}
        keys = ["k%d" % i for i in range(maxsize + 1)]
        for x in keys + keys:
            try:
                await g(x)
            except Boom:
                pass
        again = sum(len(runs[x]) > 1 for x in keys)
        require(again, "%d distinct calls are all kept by a cache of size %d", len(keys), maxsize)
    rec_.check()


# ------------------------------------------------------------------ many distinct calls
def strategy_many():
    size = weighted((2, st.sampled_from(["absent", None, -1])), (3, st.sampled_from([16, 50, 64, 100, 127, 128, 129, 200, 256, 257, 500, 1000])))
    walk = rec(first=st.integers(0, 300), n=st.integers(1, 300), step=st.sampled_from([1, 1, 1, 2, 3, -1, -2]))
    return rec(size=size, typed=st.booleans(), memory=st.booleans(), shape=st.sampled_from(["function", "method", "apply"]), ttl=st.booleans(), walks=st.lists(walk, min_size=2, max_size=6))


def run_many(spec, case):
    run(many, spec, case)


async def many(spec, case):
    kw = options({"maxsize": spec["size"], "typed": spec["typed"], "memory": spec["memory"]}, 10 ** 6 if spec["ttl"] else None)
    size = spec["size"] if spec["size"] not in ("absent", None, -1) else None
    ran = []
    if spec["shape"] == "apply":
        kw["cache_type"] = "memory"
        kw.setdefault("ram_cache_maxsize", None)

    async def f(x):
        ran.append(x)
        return (x, len(ran))
    if spec["shape"] == "method":
        class C(ASyncGenericBase):
            def __init__(self):
                self.sync = False
                super().__init__()

            @a_sync.a_sync(**kw)
            async def m(self, x):
                return await f(x)
        inst = C()
        g = inst.m
    else:
        g = apply_async_cache(f, **kw) if spec["shape"] == "apply" else a_sync.a_sync(**kw)(f)
    model = OrderedDict()
    hits = 0
    for w in spec["walks"]:
        for i in range(w["n"]):
            x = w["first"] + i * w["step"]
            before = len(ran)
            got = await g(x)
            if x in model:
                hits += 1
                model.move_to_end(x)
                require(len(ran) == before, "f(%d) was computed again with %d of %s entries kept", x, len(model), size)
            else:
                require(ran[before:] == [x], "f(%d) ran %r", x, ran[before:])
                model[x] = (x, len(ran))
                if size is not None and len(model) > size:
                    model.popitem(last=False)
                    case.label("evicted")
            require(got == model[x], "f(%d) gave %r, expected %r", x, got, model[x])
    case.mark(hits > 0 and len(ran) > 64)


SUBS = [
    Sub("many", strategy_many, run_many, "a call was answered from the cache after more than 64 computations", quick=300, thorough=4000, shards=2),
    Sub("histories", strategy, run_sequential, "a call was answered from the cache", quick=2500, thorough=30000, shards=4),
    Sub("overlapping", strategy_overlap, run_overlap, "a call joined a running computation or was answered from the cache", quick=2500, thorough=30000, shards=4),
]
