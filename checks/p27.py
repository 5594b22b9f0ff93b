"""P27: generated chains of filters and sorts with sync, async and dual-mode functions over generated sources, consumed in every way, compared with the built-in filter and sorted: property-based differential testing"""
import asyncio
import functools
import inspect

import a_sync
from a_sync import ASyncIterable, ASyncIterator
from a_sync.iter import ASyncFilter, ASyncGeneratorFunction, ASyncSorter

from .common import *
from .dual import Bench, in_thread


class Item:
    """Not comparable, not hashable; compared by identity."""
    __hash__ = None

    def __init__(self, k, n):
        self.k, self.n = k, n

    def __eq__(self, other):
        raise TypeError("items must not be compared")

    __lt__ = __gt__ = __eq__

    def __bool__(self):
        return self.k % 2 == 0

    def __repr__(self):
        return "Item(%d, %d)" % (self.k, self.n)


class LessOnly:
    """Comparable with < only, as sorted() asks for."""

    def __init__(self, k):
        self.k = k

    def __lt__(self, other):
        return self.k < other.k


SOURCES = ["iterable", "iterator", "generator", "generator function", "method", "mapping", "list", "tuple", "sync generator", "dict", "sized iterator", "sized async iterator"]
KEYS = ["none", "k", "neg", "mod", "tuple", "str", "less only", "none value", "raise", "const", "mixed types"]
PREDS = ["odd", "truthy value", "none value", "lt", "raise", "always", "never", "weird truth"]
FKINDS = ["def", "def", "async", "async", "async", "lambda awaitable", "dual sync", "dual async", "dual def", "partial", "async partial", "method", "async method", "object", "task", "awaitable object"]
ITEMS = ["Item", "Item", "int", "str", "tuple"]


class Weird:
    def __init__(self, v):
        self.v = v

    def __bool__(self):
        return self.v


class Later:
    """An awaitable that is neither a coroutine nor a future."""

    def __init__(self, coro):
        self.coro = coro

    def __await__(self):
        return self.coro.__await__()


def strategy():
    fn = rec(kind=st.sampled_from(FKINDS), spins=tiny, lat=st.lists(small, max_size=5))
    step = weighted(
        (1, rec(op=st.just("filter"), f=fn, pred=st.sampled_from(PREDS), via=st.sampled_from(["method", "method", "class", "module"]))),
        (1, rec(op=st.just("sort"), f=fn, key=st.sampled_from(KEYS), reverse=st.booleans(), via=st.sampled_from(["method", "method", "class", "module"]))),
    )
    return rec(source=st.sampled_from(SOURCES), items=lists(st.integers(0, 5), 0, 9, 50), type=st.sampled_from(ITEMS), d=tiny, fail=weighted((4, st.none()), (1, small)),
               steps=st.lists(step, min_size=1, max_size=3),
               use=st.sampled_from(["for", "for", "list", "materialized", "next", "async for", "async for", "await", "anext", "comprehension"]),
               thread=st.booleans(), resume=st.booleans(), describe=st.booleans())


def build_items(spec):
    out = []
    for n, k in enumerate(spec["items"]):
        out.append({"Item": lambda: Item(k, n), "int": lambda: k, "str": lambda: "abcdef"[k], "tuple": lambda: (k, [n])}[spec["type"]]())
    return out


def kof(x):
    return x.k if isinstance(x, Item) else x if isinstance(x, int) else "abcdef".index(x) if isinstance(x, str) else x[0]


def key_of(name):
    def f(x):
        k = kof(x)
        if name == "k":
            return k
        if name == "neg":
            return -k
        if name == "mod":
            return k % 2
        if name == "tuple":
            return k % 2, "x" * (k // 2)
        if name == "str":
            return str(k % 3)
        if name == "less only":
            return LessOnly(k % 3)
        if name == "none value":
            return None
        if name == "raise":
            if k == 3:
                raise Boom(k)
            return k % 2
        if name == "const":
            return 0
        if name == "mixed types":
            return k if k < 4 else str(k)
        raise HarnessError(name)
    return f


def pred_of(name):
    def f(x):
        k = kof(x)
        if name == "odd":
            return k % 2 == 1
        if name == "truthy value":
            return [0, 1, "", "x", [], [0]][k]
        if name == "none value":
            return None if k % 2 else 5
        if name == "lt":
            return k < 3
        if name == "raise":
            if k == 3:
                raise Boom(k)
            return k % 2 == 0
        if name == "always":
            return True
        if name == "never":
            return 0
        if name == "weird truth":
            return Weird(k % 3 == 0)
        raise HarnessError(name)
    return f


def wrap(f, spec, log, virtual):
    kind = spec["kind"]
    lat = spec["lat"]

    async def af(x):
        log.append(x)
        n = len(log)
        if virtual and lat:
            await delay(lat[n % len(lat)])
        await spin(spec["spins"])
        return f(x)

    def sf(x):
        log.append(x)
        return f(x)
    if kind == "def":
        return sf
    if kind == "async":
        return af
    if kind == "lambda awaitable":
        return lambda x: af(x)
    if kind == "task":
        return lambda x: asyncio.ensure_future(af(x))
    if kind == "awaitable object":
        return lambda x: Later(af(x))
    if kind == "dual sync":
        return a_sync.a_sync("sync")(sf)
    if kind == "dual async":
        return a_sync.a_sync(af)
    if kind == "dual def":
        return a_sync.a_sync(sf)
    if kind == "partial":
        return functools.partial(lambda pad, x: sf(x), 0)
    if kind == "async partial":
        async def padded(pad, x):
            return await af(x)
        return functools.partial(padded, 0)

    class H:
        def m(self, x):
            return sf(x)

        async def am(self, x):
            return await af(x)

        def __call__(self, x):
            return sf(x)
    h = H()
    return {"method": h.m, "async method": h.am, "object": h}[kind]


class Source:
    def __init__(self, spec, items, virtual):
        self.spec, self.items, self.virtual = spec, items, virtual
        self.fail = spec["fail"]

    async def gen(self, *_):
        for n, x in enumerate(self.items):
            if self.virtual:
                await delay(self.spec["d"])
            else:
                await spin(self.spec["d"])
            if n == self.fail:
                raise KeyError("source")
            yield x
        if self.fail is not None and self.fail >= len(self.items):
            raise KeyError("source")

    def sync(self):
        for n, x in enumerate(self.items):
            if n == self.fail:
                raise KeyError("source")
            yield x
        if self.fail is not None and self.fail >= len(self.items):
            raise KeyError("source")

    def make(self):
        k = self.spec["source"]
        me = self
        if k in ("list", "tuple", "sized iterator", "sized async iterator", "mapping", "dict"):
            self.fail = None
        if k == "iterable":
            class It:
                def __aiter__(self):
                    return me.gen()
            return ASyncIterable(It())
        if k == "iterator":
            return ASyncIterator(self.gen())
        if k == "generator":
            return self.gen()
        if k == "generator function":
            return ASyncGeneratorFunction(self.gen)()
        if k == "method":
            class C:
                @ASyncGeneratorFunction
                async def g(self):
                    async for x in me.gen():
                        yield x
            self.keep = C()
            return self.keep.g()
        if k == "list":
            return list(self.items)
        if k == "tuple":
            return tuple(self.items)
        if k == "dict":
            return {i: 0 for i in self.items}.keys() if self.spec["type"] in ("int", "str") else list(self.items)
        if k == "sync generator":
            return self.sync()
        if k == "mapping":
            class M:
                def __aiter__(self):
                    return me.gen()

                def __len__(self):
                    return 0
            return M()
        if k == "sized iterator":
            class S:
                def __init__(self):
                    self.left = list(me.items)

                def __iter__(self):
                    return self

                def __len__(self):
                    return len(self.left)

                def __next__(self):
                    if not self.left:
                        raise StopIteration
                    return self.left.pop(0)
            return S()

        class S:
            def __init__(self):
                self.left = list(me.items)

            def __aiter__(self):
                return self

            def __len__(self):
                return len(self.left)

            async def __anext__(self):
                await spin(1)
                if not self.left:
                    raise StopAsyncIteration
                return self.left.pop(0)
        return S()

    def native(self):
        if self.spec["source"] == "dict" and self.spec["type"] in ("int", "str"):
            return iter(dict.fromkeys(self.items))
        return self.sync()


def drain(it):
    """Everything the iterator gives, failures in place, until it ends."""
    out = []
    for _ in range(200):
        try:
            out.append(("item", next(it)))
        except StopIteration:
            return out
        except Exception as e:
            out.append(("raise", e))
    raise HarnessError("endless")


def lazily(f, it, reverse):
    """sorted() as a lazy iterator."""
    yield from sorted(it, key=f, reverse=reverse)


def plain(spec, source):
    cur = source.native()
    for s in spec["steps"]:
        if s["op"] == "filter":
            cur = filter(pred_of(s["pred"]), cur)
        else:
            key = None if s["key"] == "none" else key_of(s["key"])
            cur = lazily(key, cur, s["reverse"])
    return drain(cur)


def wrapped(spec, source, logs, virtual):
    cur = source.make()
    for s in spec["steps"]:
        log = []
        logs.append(log)
        via = s["via"]
        if s["op"] == "filter":
            f = wrap(pred_of(s["pred"]), s["f"], log, virtual)
            if via == "method" and hasattr(type(cur), "materialized"):
                cur = cur.filter(f)
            else:
                cur = (a_sync.filter if via == "module" else ASyncFilter)(f, cur)
        else:
            kw = {} if s["key"] == "none" else {"key": wrap(key_of(s["key"]), s["f"], log, virtual)}
            if s["reverse"] or len(logs) % 2:
                kw["reverse"] = s["reverse"]
            if via == "method" and hasattr(type(cur), "materialized"):
                cur = cur.sort(**kw)
            else:
                cur = (a_sync.sorted if via == "module" else ASyncSorter)(cur, **kw)
    return cur


def sync_use(it, use):
    out = []
    try:
        if use == "list":
            return [("item", x) for x in list(it)]
        if use == "materialized":
            return [("item", x) for x in it.materialized]
        if use == "next":
            return drain(iter(it))
        for x in it:
            out.append(("item", x))
    except Exception as e:
        out.append(("raise", e))
    return out


async def async_use(it, use):
    out = []
    try:
        if use == "await":
            return [("item", x) for x in await it]
        if use == "comprehension":
            return [("item", x) async for x in it]
        if use == "anext":
            it = it.__aiter__()
            for _ in range(200):
                try:
                    out.append(("item", await it.__anext__()))
                except StopAsyncIteration:
                    return out
                except Exception as e:
                    out.append(("raise", e))
            return out
        async for x in it:
            out.append(("item", x))
    except Exception as e:
        out.append(("raise", e))
    return out


def judge(spec, got, want, source):
    use = spec["use"]
    if use not in ("next", "anext"):
        cut = next((i for i, w in enumerate(want) if w[0] == "raise"), None)
        if cut is not None:
            want = want[:cut + 1] if use in ("for", "async for") else [want[cut]]
    what = "%s of %s" % (use, " ".join([spec["source"]] + ["%s(%s %s%s)" % (s["op"], s["f"]["kind"], s.get("pred") or s.get("key"), " reversed" if s.get("reverse") else "")
                                                          for s in spec["steps"]]))
    require(len(got) == len(want) and all(g[0] == w[0] for g, w in zip(got, want)), "%s gave %r, the built-ins give %r", what, got, want)
    for g, w in zip(got, want):
        if g[0] == "item":
            require(g[1] is w[1] or not isinstance(g[1], Item) and g[1] == w[1] and type(g[1]) is type(w[1]), "%s gave %r, the built-ins give %r", what, got, want)
        else:
            require(type(g[1]) is type(w[1]), "%s raised %r, the built-ins %r", what, g[1], w[1])


def finish(spec, case, got, want, items):
    judge(spec, got, want, None)
    case.label(spec["source"], spec["use"], *[s["op"] + " " + s["f"]["kind"] for s in spec["steps"]])
    if any(w[0] == "raise" for w in want):
        case.label("raise")
    ks = [kof(w[1]) for w in want if w[0] == "item"]
    ties = len(set(ks)) < len(ks)
    if ties:
        case.label("ties")
    case.mark(len(ks) > 1 and (ks != [kof(i) for i in items] or ties))


def run_case(spec, case):
    items = build_items(spec)
    sync = spec["use"] in ("for", "list", "materialized", "next")
    if sync:
        with Bench() as bench:
            want = plain(spec, Source({**spec, "fail": effective_fail(spec)}, items, False))
            got = in_thread(lambda: sync_use(wrapped(spec, Source(spec, items, False), [], False), spec["use"])) if spec["thread"] else \
                sync_use(wrapped(spec, Source(spec, items, False), [], False), spec["use"])
            finish(spec, case, got, want, items)
    else:
        async def main(spec, case):
            want = plain(spec, Source({**spec, "fail": effective_fail(spec)}, items, True))
            got = await async_use(wrapped(spec, Source(spec, items, True), [], True), spec["use"])
            finish(spec, case, got, want, items)
        run(main, spec, case)


def effective_fail(spec):
    return None if spec["source"] in ("list", "tuple", "sized iterator", "sized async iterator", "mapping", "dict") else spec["fail"]


SUBS = [Sub("chains", strategy, run_case, "two items or more came out, reordered, removed or with ties", quick=24000, thorough=300000, shards=6)]
