"""P19: generated key sources, functions, latencies, failures and ways of consumption driven through task mappings, compared with a plain dictionary of results in virtual time: model-based property testing"""
import asyncio
import functools
import threading
import types

import a_sync
from a_sync import ASyncIterator, TaskMapping, exceptions
from a_sync.a_sync.base import ASyncGenericBase

from .common import *
from .dual import Bench, Later, in_thread
from .p03 import INLINE
from .p24 import same_exc

KEYS = [0, 1, 2, 3, "a", "", None, (), (1, 2), frozenset()]
EXC = [lambda: Boom(1), lambda: ValueError("v"), lambda: RuntimeError("r"), lambda: TimeoutError("t"), lambda: KeyError("k"), lambda: TypeError("y"), lambda: OSError(2, "o")]
FNS = ["plain", "plain", "lambda", "dual", "dual", "dual sync", "dual def", "leading", "leading dual", "partial", "callable", "bound", "bound sync", "bound def", "class", "class deco", "class def", "property", "cached property"]
BY_INSTANCE = FNS[14:]
LEADING = ("leading", "leading dual")  # the fixed arguments come before the key
UNDECORATED = ("plain", "lambda", "leading", "partial", "callable")
SOURCES = ["list", "list", "tuple", "dict", "iter", "generator", "agen", "agen", "agen", "wrapped", "coroutine", "coroutine of agen", "task", "aiterable", "sized", "keys of another"]
CONTAINERS = ("list", "tuple", "dict", "coroutine", "task")
AGG = ["any", "all", "min", "max", "sum"]
STYLES = ["await", "gather", "gather exceptions", "exclude", "iter", "iter", "iter pop", "map", "map", "keys", "values", "items", "by keys", "by values", "index", "pop", "two", "later"] + AGG
EMPTY = (exceptions.MappingIsEmptyError, exceptions.EmptySequenceError, ValueError)


class Acc:
    """A number whose in-place addition would be noticed."""

    def __init__(self, v):
        self.v = v

    def __add__(self, o):
        return Acc(self.v + (o.v if isinstance(o, Acc) else o))

    def __radd__(self, o):
        return self if o == 0 else Acc(self.v + o)

    def __iadd__(self, o):
        self.v += o.v
        return self

    def __lt__(self, o):
        return self.v < o.v

    def __gt__(self, o):
        return self.v > o.v

    def __bool__(self):
        return self.v != 0

    def __repr__(self):
        return "Acc(%r)" % self.v


ANY = [None, 0, False, "", "x", [], [1], True, 7, Boom(3), (), {}, ..., Later()]
NUM = [0, 1, 2, 3, -1, -2, 5]


def strategy(agg=False):
    out = rec(d=small, yields=tiny, v=st.integers(0, 20), fail=weighted((14, st.none()), (1, st.integers(0, len(EXC) - 1))))
    source = rec(kind=st.sampled_from(SOURCES), keys=weighted((3, st.lists(st.integers(0, len(KEYS) - 1), min_size=2, max_size=6)), (1 if not agg else 6, st.lists(st.integers(0, len(KEYS) - 1), max_size=2))), gaps=st.lists(tiny, min_size=1, max_size=3),
                 fail=weighted((9, st.none()), (1, st.integers(0, len(EXC) - 1))))
    return rec(fn=st.sampled_from(FNS), outs=st.lists(out, min_size=len(KEYS), max_size=len(KEYS)), vals=st.sampled_from(["any", "num", "num", "acc"] if not agg else ["any", "num", "acc"]), sources=st.lists(source, min_size=1, max_size=3),
               how=st.sampled_from(["init", "init", "fn.map", "fn.map", "fn.agg", "map arg", "none"] if not agg else ["init", "fn.map", "fn.agg", "none"]), conc=weighted((3, st.none()), (1, st.integers(1, 3))),
               style=st.sampled_from(STYLES if not agg else AGG), pop=st.booleans(), keys_only=st.booleans(), reverse=st.booleans(), await_view=st.booleans(), pre=st.lists(st.integers(0, len(KEYS) - 1), max_size=2), pre_wait=tiny,
               add=maybe(st.integers(0, 3)), name=st.sampled_from(["", "", "some name"]), pauses=one_of(st.just([]), st.lists(tiny, max_size=3)), start=tiny, clean=weighted((3, st.just(True)), (1, st.just(False))))


class World:
    """The mapped function as described, what it was called with, and what each key gives."""

    def __init__(self, spec):
        self.spec = spec
        self.calls = []      # (key index, added)
        self.done = {}
        pool = {"any": ANY, "num": NUM, "acc": [Acc(v) for v in NUM]}[spec["vals"]]
        self.pool = pool
        self.outs = []
        for o in spec["outs"]:
            v = pool[o["v"] % len(pool)]
            self.outs.append(("raise", EXC[o["fail"]]) if o["fail"] is not None and not spec["clean"] else ("ok", v))
        w = self
        fn = spec["fn"]
        dec = a_sync.a_sync

        def finish(i, add):
            w.done[i] = now() if w.clock else 0
            kind, v = w.outs[i]
            if kind == "raise":
                raise v()
            return v

        async def work(i, add):
            w.calls.append((i, add))
            o = spec["outs"][i]
            await delay(o["d"] if w.clock else 0, o["yields"])
            return finish(i, add)

        def work_now(i, add):
            w.calls.append((i, add))
            return finish(i, add)
        self.clock = True
        self.keys = KEYS
        index = w.index

        async def f(key, add=None):
            return await work(index(key), add)

        def g(key, add=None):
            return work_now(index(key), add)

        async def lead(add, other, key):
            return await work(index(key), (add, other))

        class Callable:
            async def __call__(self, key, add=None):
                return await work(index(key), add)

        class C(ASyncGenericBase):
            def __init__(self, number, sync):
                super().__init__()
                self.number = number
                self.sync = sync

            async def m(self, key, add=None):
                return await work(index(key), add)

            @dec(executor=INLINE)
            def s(self, key, add=None):
                return work_now(index(key), add)

            async def own(self, add=None):
                return await work(self.number, add)

            @dec("sync")
            async def deco(self, add=None):
                return await work(self.number, add)

            @dec(executor=INLINE)
            def plain(self, add=None):
                return work_now(self.number, add)

            @a_sync.property
            async def prop(self):
                return await work(self.number, None)

            @a_sync.cached_property
            async def cached(self):
                return await work(self.number, None)
        self.takes_add = True
        self.instant = fn in ("dual def", "bound def", "class def")
        if fn == "plain":
            self.fn = f
        elif fn == "lambda":
            self.fn = lambda key, add=None: f(key, add)
        elif fn == "dual":
            self.fn = dec(f)
        elif fn in LEADING:
            self.fn = lead if fn == "leading" else dec(lead)
        elif fn == "partial":
            self.fn = functools.partial(f)
        elif fn == "callable":
            self.fn = Callable()
        elif fn == "dual sync":
            self.fn = dec(f, default="sync")
        elif fn == "dual def":
            self.fn = dec(executor=INLINE)(g)
        elif fn in ("bound", "bound sync", "bound def"):
            self.holder = C(-1, fn == "bound sync")
            self.fn = self.holder.s if fn == "bound def" else self.holder.m
        else:
            self.keys = [C(i, spec["outs"][i]["v"] % 2 == 1) for i in range(len(KEYS))]
            self.fn = {"class": C.own, "class deco": C.deco, "class def": C.plain, "property": C.prop, "cached property": C.cached}[fn]
            self.takes_add = "property" not in fn
        self.add = spec["add"] if self.takes_add else None
        self.kw = {} if self.add is None else {"add": self.add}
        if fn in LEADING:
            first = self.add or 0
            self.add = (first, first + 5)
            self.kw = dict(zip(("add", "other"), self.add))

    def index(self, key):
        for i, k in enumerate(self.keys):
            if k is key or (type(k) is type(key) and not isinstance(k, ASyncGenericBase) and k == key):
                return i
        raise Violation("the function was called with %r, which is not a key" % (key,))

    def source(self, s):
        keys = [self.keys[i] for i in s["keys"]]
        kind, fail = s["kind"], self.source_failure(s)
        w = self

        async def agen():
            for n, k in enumerate(keys):
                await delay(s["gaps"][n % len(s["gaps"])] if w.clock else 0)
                yield k
            if fail is not None:
                raise fail()

        def gen():
            for k in keys:
                yield k
            if fail is not None:
                raise fail()

        async def coro():
            if s["gaps"][0] and w.clock:
                await asyncio.sleep(s["gaps"][0])
            return agen() if kind == "coroutine of agen" else keys
        if kind == "tuple":
            return tuple(keys)
        if kind == "dict":
            return dict.fromkeys(keys, 1)
        if kind == "iter":
            return iter(keys)
        if kind == "generator":
            return gen()
        if kind == "agen":
            return agen()
        if kind == "wrapped":
            return ASyncIterator(agen())
        if kind in ("coroutine", "coroutine of agen"):
            return coro()
        if kind == "task":
            return asyncio.get_running_loop().create_task(coro())
        if kind in ("aiterable", "sized"):
            class Source:
                def __aiter__(self):
                    return agen()
                if kind == "sized":
                    def __len__(self):
                        return 0
            return Source()
        if kind == "keys of another":
            async def other(k):
                return 5
            self.other = TaskMapping(other, agen())
            return self.other.keys()
        return list(keys)

    def source_failure(self, s):
        return EXC[s["fail"]] if s["fail"] is not None and s["kind"] in ("generator", "agen", "wrapped", "aiterable", "sized", "coroutine of agen", "keys of another") else None


def check_calls(w, complete, wanted):
    if w.spec["vals"] == "acc":
        require([a.v for a in w.pool] == NUM, "the results themselves were modified: %r", w.pool)
    counts = {}
    for i, add in w.calls:
        counts[i] = counts.get(i, 0) + 1
        require(add == w.add, "the function was called with add=%r, the mapping was given %r", add, w.add)
    for i, n in counts.items():
        require(n == 1, "the function ran %d times for key %r", n, w.keys[i])
        require(i in wanted, "the function ran for %r, which nothing asked for", w.keys[i])
    if complete:
        require(set(counts) == set(wanted), "the function ran for %r, expected %r", sorted(counts), sorted(wanted))


def expect_exception(e, possible, what):
    if len(e.args) > 1 and isinstance(e.args[-1], dict) and "property" in e.args[-1]:
        e.args = e.args[:-1]  # cached properties say which property of which instance failed
    require(any(same_exc(e, p) for p in possible), "%s raised %r, expected one of %r", what, e, possible)


def same_items(got, want, what):
    """Multisets of objects, by identity."""
    rest = list(want)
    for g in got:
        for n, x in enumerate(rest):
            if x is g or (isinstance(g, tuple) and isinstance(x, tuple) and len(g) == len(x) == 2 and g[0] is x[0] and g[1] is x[1]):
                del rest[n]
                break
        else:
            raise Violation("%s gave %r, which is unexpected or a repetition; expected %r" % (what, g, want))
    return rest


def aggregate_possible(name, values):
    """What the built-in gives; min and max as a predicate on the result."""
    if name == "any":
        return lambda r: r is any(values)
    if name == "all":
        return lambda r: r is all(values)
    if name == "sum":
        want = 0
        for v in values:
            want = want + v
        return lambda r: type(r) is type(want) and (r.v == want.v if isinstance(r, Acc) else r == want)
    best = min if name == "min" else max
    if not values:
        return lambda r: False
    want = best(values)
    return lambda r: (any(r is v for v in values) and not (want < r or r < want)) if len(values) > 1 else r is values[0]


def is_truth(v):
    return bool(v)


async def judge_aggregate(w, name, coro, wanted, possible, what, refusable):
    try:
        r = await coro
    except Exception as e:
        if refusable and isinstance(e, EMPTY):
            return e
        if not wanted and not possible and name in ("min", "max"):
            require(isinstance(e, exceptions.EmptySequenceError), "%s of nothing raised %r", what, e)
            return None
        require(possible, "%s raised %r although nothing fails", what, e)
        expect_exception(e, possible, what)
        return e
    oks = [v for k, v in (w.outs[i] for i in wanted) if k == "ok"]
    if possible:
        if name == "any":
            require(r is True and any(oks), "%s is %r although something fails and the results are %r", what, r, oks)
        elif name == "all":
            require(r is False and not all(oks), "%s is %r although something fails and the results are %r", what, r, oks)
        else:
            raise Violation("%s is %r although something fails" % (what, r))
        return None
    require(wanted or name not in ("min", "max"), "%s of nothing is %r", what, r)
    require(aggregate_possible(name, oks)(r), "%s is %r, the results are %r", what, r, oks)
    return None


async def consume(spec, case):
    w = World(spec)
    style, how, fn = spec["style"], spec["how"], spec["fn"]
    sources = spec["sources"]
    if fn in ("property", "cached property"):
        sources = sources[:1]
    if fn in LEADING and how in ("none", "map arg"):
        how = "init"  # left to Python otherwise
    if how == "fn.agg":
        if style not in AGG:
            style = AGG[spec["start"] + (2 if spec["pop"] else 0)]
        if fn in UNDECORATED:
            how = "init"
    if how == "map arg":
        style = "map"
    if how == "fn.map" and fn in UNDECORATED:
        how = "init"
    if how == "none":
        sources = []
    wanted = {i for s in sources for i in s["keys"]}
    pre = [] if how in ("fn.agg", "map arg") else spec["pre"]
    if len(sources) == 1 and not sources[0]["keys"]:
        pre = []  # whether a lone empty container is refused although something was started by hand is left open
    if spec["pop"] or style in ("iter pop", "pop"):
        # a key that was popped before a source asks for it is asked for again
        pre = [i for i in pre if i not in wanted]
    if style in ("by keys",):
        # sorting needs comparable keys
        if fn in BY_INSTANCE:
            style = "keys"
        else:
            wanted_ok = all(isinstance(KEYS[i], int) for i in wanted | set(pre))
            style = "by keys" if wanted_ok else "keys"
    if style in ("by values", "sum", "min", "max") and spec["vals"] == "any" and len(wanted | set(pre)) != 1:
        style = "values" if how != "fn.agg" else "any"
    if style == "sum" and spec["vals"] == "any":
        style = "max"
    failures = [w.source_failure(s)() for s in sources if w.source_failure(s)]
    wanted |= set(pre)
    failing = [i for i in wanted if w.outs[i][0] == "raise"]
    possible = failures + [w.outs[i][1]() for i in failing]
    oks = {i: w.outs[i][1] for i in wanted if w.outs[i][0] == "ok"}
    pairs = [(w.keys[i], v) for i, v in oks.items()]
    what = "%s of a mapping (%s, %s)" % (style, how, fn)
    # nothing to yield: refusing is allowed
    refusable = not wanted
    if how == "fn.agg":
        await delay(spec["start"])
        given = [w.source(s) for s in sources]
        kw = dict(w.kw)
        if fn in BY_INSTANCE:
            kw["sync"] = False
            if spec["name"]:
                kw["name"] = spec["name"]
        elif spec["name"]:
            kw["task_name"] = spec["name"]
        if spec["conc"]:
            kw["concurrency"] = spec["conc"]
        case.label("how fn.agg", "fn " + fn, "style " + style)
        e = await judge_aggregate(w, style, getattr(w.fn, style)(*given, **kw), wanted, possible, what, refusable)
        check_calls(w, e is None and not possible and style in ("sum", "min", "max"), wanted)
        case.mark(len(w.calls) > 1)
        return
    given = [w.source(s) for s in sources]
    kw = dict(w.kw)
    if spec["conc"]:
        kw["concurrency"] = spec["conc"]
    if how == "fn.map":
        if spec["name"]:
            kw["name" if fn in BY_INSTANCE else "task_name"] = spec["name"]
        m = w.fn.map(*given, **kw)
    else:
        if spec["name"]:
            kw["name"] = spec["name"]
        m = TaskMapping(w.fn, *([] if how == "map arg" else given), **kw)
    case.label("how " + how, "fn " + fn, "style " + style, "conc %s" % bool(spec["conc"]), *["source " + s["kind"] for s in sources])
    for i in pre:
        t = m[w.keys[i]]
        require(m[w.keys[i]] is t, "indexing a mapping twice gave two tasks for %r", w.keys[i])
    if pre:
        case.label("started by hand")
        await delay(spec["pre_wait"])
    await delay(spec["start"])
    pop = spec["pop"] and style not in ("await", "gather", "gather exceptions", "exclude", "index", "two", "later")
    pauses = spec["pauses"]
    got, times = [], []
    failure = None
    complete = True
    popped = False

    async def take(it):
        n = 0
        async for x in it:
            got.append(x)
            times.append(now())
            n += 1
            if pauses:
                await delay(pauses[n % len(pauses)])
    shape = "pairs"
    try:
        if style in ("await", "gather"):
            r = await (m if style == "await" else m.gather(sync=False))
            require(type(r) is dict, "%s gave %r", what, r)
            got = list(r.items())
        elif style == "gather exceptions":
            r = await m.gather(return_exceptions=True, sync=False)
            for k, v in r.items():
                i = w.index(k)
                if w.outs[i][0] == "raise":
                    expect_exception(v, [w.outs[i][1]()], "%s for %r" % (what, k))
                    failing.remove(i)
                else:
                    got.append((k, v))
            require(not failing or failures, "%s left out %r", what, failing)
            possible = failures
        elif style == "exclude":
            r = await m.gather(exclude_if=lambda v: not v, sync=False)
            got = list(r.items())
            require(all(got_v for _, got_v in got), "exclude_if kept %r", got)
            got += [(k, v) for k, v in pairs if not v]
        elif style == "iter":
            await take(m.__aiter__() if not pop else m.__aiter__(pop=True))
            popped = pop
        elif style == "iter pop":
            await take(m.__aiter__(pop=True))
            popped = pop = True
        elif style == "map":
            shape = "keys" if spec["keys_only"] else "pairs"
            okw = {"yields": "keys"} if spec["keys_only"] else {}
            if not pop:
                okw["pop"] = False
            await take(m.map(*(given if how == "map arg" else []), **okw))
            popped = pop
        elif style in ("keys", "values", "items"):
            shape = "pairs" if style == "items" else style
            view = getattr(m, style)(pop=True) if pop else getattr(m, style)()
            if spec["await_view"]:
                r = await view
                require(type(r) is list, "%s gave %r", what, r)
                got = r
            else:
                await take(view)
            popped = pop
        elif style in ("by keys", "by values"):
            shape = ["keys", "values", "pairs"][spec["start"]]
            view = getattr(m, {"keys": "keys", "values": "values", "pairs": "items"}[shape])(**({"pop": True} if pop else {}))
            it = (view.aiterbykeys if style == "by keys" else view.aiterbyvalues)(**({"reverse": True} if spec["reverse"] else {}))
            if spec["await_view"]:
                got = await it
            else:
                await take(it)
            popped = pop
        elif style in ("index", "pop"):
            if style == "pop":
                await asyncio.sleep(500)
            for i in sorted(wanted):
                k = w.keys[i]
                try:
                    if style == "index":
                        got.append((k, await m[k]))
                    else:
                        m[k]
                        t = m.pop(k)
                        require(k not in m, "a popped key is still there")
                        got.append((k, await t))
                except Exception as e:
                    expect_exception(e, [w.outs[i][1]()] if w.outs[i][0] == "raise" else [], "awaiting %r" % (k,))
            possible = []
            pop = True if style == "pop" else pop
            complete = False
        elif style == "two":
            async def one():
                return [x async for x in m]

            async def other():
                return await m.items()
            a, b, c = await asyncio.gather(one(), other(), m.gather(sync=False))
            for x in (a, list(c.items())):
                require(not same_items(x, pairs, what), "%s left something out: %r of %r", what, x, pairs)
            got = b
        elif style == "later":
            await asyncio.sleep(500)
            await take(m.yield_completed(pop=False) if not spec["pop"] else m.yield_completed())
            if spec["pop"]:
                require(not len(m) or possible, "yield_completed left %d keys", len(m))
                pop = True
            if failures:
                possible = [] if len(got) == len(pairs) else possible
                complete = False
        else:
            shape = None
            failure = await judge_aggregate(w, style, getattr(m, style)(sync=False, **({"pop": pop} if pop or style == "sum" else {"pop": False})), wanted, possible, what, refusable)
            complete = style in ("sum", "min", "max")
            popped = pop
    except Violation:
        raise
    except Exception as e:
        failure = e
        if refusable and isinstance(e, EMPTY):
            case.label("empty refused")
            return
        require(possible, "%s raised %r although nothing fails", what, e)
        expect_exception(e, possible, what)
        case.label("failed")
    want = {"pairs": pairs, "keys": [w.keys[i] for i in wanted], "values": [v for _, v in pairs], None: []}[shape]
    rest = same_items(got, want, what)
    if failure is None and shape is not None:
        if not (shape == "keys" and style != "map") and style != "later":
            require(not possible, "%s swallowed a failure: %r gave %r", what, possible, got)
        elif failures and style != "later":
            raise Violation("%s swallowed the failure of a source" % what)
        require(not rest or (style == "later" and possible), "%s left out %r", what, rest)
    if style == "by keys" and failure is None:
        ks = [x[0] if shape == "pairs" else x for x in got] if shape != "values" else []
        require(ks == sorted(ks, reverse=spec["reverse"]), "%s is not sorted: %r", what, got)
        if shape == "values":
            order = sorted((w.keys[i] for i in wanted), reverse=spec["reverse"])
            require(all(a is w.outs[w.index(k)][1] for a, k in zip(got, order)), "%s is not sorted by key: %r", what, got)
    if style == "by values" and failure is None and shape != "keys":
        vs = [x[1] if shape == "pairs" else x for x in got]
        require(not any((b < a if not spec["reverse"] else a < b) for a, b in zip(vs, vs[1:])), "%s is not sorted: %r", what, got)
    if style in ("iter", "iter pop") and failure is None and not pauses and not pre and not possible:
        # as each task completes
        for (k, _), t in zip(got, times):
            done = max(w.done[w.index(k)], times[0] if fn == "never" else spec["start"])
            require(t == done, "%r was yielded at %s, its call ended at %s", k, t, done)
        case.label("prompt")
    if popped and (style not in ("keys", "values", "items", "by keys", "by values") or failure is None):
        require(len(m) == 0, "%s with pop left %r", what, list(dict.keys(m)))
    if not pop and failure is None and not possible and complete and style not in AGG:
        # the tasks stay, with their results
        n = len(w.calls)
        require(set(map(id, dict.keys(m))) <= {id(k) for k in w.keys} and len(m) == len(wanted), "after %s the mapping has %r", what, list(dict.keys(m)))
        for i in wanted:
            if w.outs[i][0] == "raise":
                continue
            r = await m[w.keys[i]]
            require(r is w.outs[i][1], "afterwards %r gives %r, expected %r", w.keys[i], r, w.outs[i][1])
        require(len(w.calls) == n or shape == "keys", "looking at the results ran the function again")
    await asyncio.sleep(500)
    full = failure is None and complete and not possible and not (shape == "keys" and pop)
    check_calls(w, full, wanted)
    m2 = len(w.calls)
    case.mark(m2 > 1)
    if len(w.calls) < len(set(wanted)):
        case.label("not every key ran")
    if any(len(set(s["keys"])) < len(s["keys"]) for s in sources):
        case.label("repeated keys")
    if len(sources) > 1 and any(not s["keys"] for s in sources):
        case.label("one source empty")


def run_consume(spec, case):
    run(consume, spec, case)


# ---- without a running loop

def strategy_sync():
    s = strategy()
    return st.tuples(s, st.sampled_from(["for map", "for map arg", "gather", "any", "all", "sum", "min", "max", "fn.agg"]),
                     st.sampled_from(["here", "here", "thread", "after run"]))


def run_sync(args, case):
    spec, style, where = args
    case.label("made " + where)
    if where == "thread":
        # a thread that never had an event loop
        return in_thread(run_sync_here, spec, style, case)
    if where == "after run":
        def after():
            asyncio.run(spin(1))
            run_sync_here(spec, style, case)
        return in_thread(after)
    run_sync_here(spec, style, case)


class NoBench:
    """Stands for the Bench in a thread whose loops are left to the library."""
    loop = types.SimpleNamespace(run_until_complete=lambda c: asyncio.run(c))

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass


def run_sync_here(spec, style, case):
    with Bench() if threading.current_thread() is threading.main_thread() else NoBench() as bench:
        spec = dict(spec, clean=True, how="init", fn="plain" if style == "fn.agg" and spec["fn"] in ("lambda", "partial", "callable") else spec["fn"])
        w = World(spec)
        w.clock = False
        if spec["fn"] in LEADING and style == "for map arg":
            style = "for map"
        fn = spec["fn"]
        sources = spec["sources"][:1] if "property" in fn else spec["sources"]
        wanted = {i for s in sources for i in s["keys"]}
        failures = [w.source_failure(s)() for s in sources if w.source_failure(s)]
        if style in ("sum", "min", "max") or style == "fn.agg":
            if spec["vals"] == "any":
                style = "any"
        sources = [dict(s, kind="agen" if s["kind"] in ("task", "keys of another") else s["kind"]) for s in sources]
        failures = [w.source_failure(s)() for s in sources if w.source_failure(s)]
        given = [w.source(s) for s in sources]
        kw = dict(w.kw)
        if spec["conc"]:
            kw["concurrency"] = spec["conc"]
        what = "%s of a mapping without a running loop (%s)" % (style, fn)
        case.label("style " + style, "fn " + fn)
        oks = [w.outs[i][1] for i in wanted]
        pairs = [(w.keys[i], w.outs[i][1]) for i in wanted]
        try:
            if style == "fn.agg":
                agg = AGG[(spec["start"] + len(wanted)) % 5]
                f = w.fn if fn not in UNDECORATED else a_sync.a_sync(w.fn)
                r = getattr(f, agg)(*given, **kw, **({"sync": True} if fn in BY_INSTANCE else {}))
                if asyncio.iscoroutine(r) or hasattr(r, "__await__"):
                    async def go(r):
                        return await r
                    r = bench.loop.run_until_complete(go(r))
                style = agg
            elif style == "for map arg":
                got = []
                m = TaskMapping(w.fn, **kw)
                for x in m.map(*given):
                    got.append(x)
            else:
                m = TaskMapping(w.fn, *given, **kw) if spec["pop"] or fn in UNDECORATED else w.fn.map(*given, **kw)
                if style == "for map":
                    got = []
                    for x in m.map():
                        got.append(x)
                elif style == "gather":
                    got = list(m.gather().items())
                else:
                    r = getattr(m, style)()
        except Violation:
            raise
        except Exception as e:
            if not wanted and not failures and isinstance(e, EMPTY):
                return
            require(failures, "%s raised %r although nothing fails", what, e)
            expect_exception(e, failures, what)
            check_calls(w, False, wanted)
            return
        if style in AGG:
            if failures:
                require(style in ("any", "all"), "%s swallowed %r", what, failures)
            else:
                require(aggregate_possible(style, oks)(r), "%s is %r, the results are %r", what, r, oks)
        else:
            require(not failures, "%s swallowed %r", what, failures)
            rest = same_items(got, pairs, what)
            require(not rest, "%s left out %r", what, rest)
        check_calls(w, style not in ("any", "all"), wanted)
        case.mark(len(w.calls) > 1)


# ---- many keys

def strategy_many():
    return rec(n=st.integers(10, 150), lat=st.lists(small, min_size=1, max_size=7), conc=st.sampled_from([None, 1, 3, 16, 64]), style=st.sampled_from(["await", "gather", "iter", "map", "items", "by keys", "by values", "values", "pop each", "sum", "max", "all"]),
               source=st.sampled_from(["list", "agen", "range", "two"]), dual=st.booleans(), fail=maybe(st.integers(0, 149), 4), start=tiny)


def run_many(spec, case):
    run(many, spec, case)


async def many(spec, case):
    n = spec["n"]
    calls, running, most = [], [0], [0]

    async def f(k):
        calls.append(k)
        running[0] += 1
        most[0] = max(most[0], running[0])
        try:
            await asyncio.sleep(spec["lat"][k % len(spec["lat"])])
            if k == spec["fail"]:
                raise Boom(k)
            return 1 + 7 * k % n
        finally:
            running[0] -= 1
    fn = a_sync.a_sync(f) if spec["dual"] else f
    keys = list(range(n))

    async def agen():
        for k in keys:
            if k % 16 == 5:
                await asyncio.sleep(1)
            yield k
    given = {"list": lambda: [keys], "agen": lambda: [agen()], "range": lambda: [range(n)], "two": lambda: [keys[:n // 2], keys[n // 3:]]}[spec["source"]]()
    m = TaskMapping(fn, *given, **({"concurrency": spec["conc"]} if spec["conc"] else {}))
    want = {k: 1 + 7 * k % n for k in keys}
    failing = spec["fail"] is not None and spec["fail"] < n
    if spec["start"]:
        await asyncio.sleep(spec["start"])
    style, got = spec["style"], None
    pairs = lambda it: sorted(it) == sorted(want.items())
    try:
        if style == "await":
            got = await m
            ok = got == want
        elif style == "gather":
            got = await m.gather(sync=False)
            ok = got == want
        elif style in ("iter", "map", "items"):
            got = [x async for x in (m if style == "iter" else m.map() if style == "map" else m.items())]
            ok = pairs(got)
        elif style == "by keys":
            got = [x async for x in m.items().aiterbykeys()]
            ok = got == sorted(want.items())
        elif style == "by values":
            got = [x async for x in m.values().aiterbyvalues()]
            ok = got == sorted(want.values())
        elif style == "values":
            got = [x async for x in m.values()]
            ok = sorted(got) == sorted(want.values())
        elif style == "pop each":
            if spec["source"] == "agen":
                await m
            elif spec["source"] == "two":
                await m
            got = {}
            for k in keys:
                got[k] = await m.pop(k) if k in m else await m[k]
            ok = got == want
        else:
            got = await getattr(m, style)(sync=False, pop=False)
            ok = got == {"sum": sum, "max": max, "all": all}[style](want.values())
    except Boom as e:
        require(failing and e == Boom(spec["fail"]), "%s of %d keys raised %r", style, n, e)
    else:
        require(not failing, "%s of %d keys swallowed the failure of one: %r", style, n, got)
        require(ok, "%s of %d keys gave %r", style, n, got)
        require(sorted(calls) == keys, "%s of %d keys ran %r", style, n, calls)
    require(len(set(calls)) == len(calls), "%s of %d keys ran the function twice for %r", style, n, sorted(k for k in set(calls) if calls.count(k) > 1)[:5])
    require(most[0] <= (spec["conc"] or n), "%d runs at once with a limit of %s", most[0], spec["conc"])
    case.label("style " + style, "limit %s" % spec["conc"])
    case.mark()


SUBS = [
    Sub("many", strategy_many, run_many, "at least ten keys", quick=600, thorough=10000),
    Sub("consume", strategy, run_consume, "the function ran for at least two keys", quick=6000, thorough=40000, shards=4),
    Sub("aggregate", lambda: strategy(True), run_consume, "the function ran for at least two keys", quick=2000, thorough=20000, shards=2),
    Sub("sync", strategy_sync, run_sync, "the function ran for at least two keys", quick=500, thorough=5000),
]
