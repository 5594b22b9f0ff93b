"""P26: generated async sources wrapped for dual use and consumed by generated mixtures of for, next, async for, anext, awaiting and materialising, differentially compared with the raw source: property-based differential testing"""
import asyncio
import copy
import gc
from typing import List

import a_sync
from a_sync import ASyncGenericBase, ASyncIterable, ASyncIterator
from a_sync.iter import ASyncGeneratorFunction

from .common import *
from .dual import Bench, N_EXC, POOL, exc_of, in_thread, same_value

# which raw source is wrapped, and how
ITERABLES = ["iterable", "iterable", "iterable of generators", "iterable subclass", "own __aiter__", "typed iterable"]
ITERATORS = ["generator", "generator", "iterator", "sized iterator", "iterator subclass", "own __anext__", "wrap function", "generator function", "wrap iterator",
             "method", "method", "inherited method", "overriding method", "generic method", "class access"]


def sources():
    return rec(kind=st.sampled_from(ITERABLES + ITERATORS), items=lists(st.integers(0, len(POOL) - 1), 0, 6, 40),
               fail=weighted((3, st.just([])), (2, st.lists(st.tuples(small, st.integers(0, N_EXC - 1)).map(list), min_size=1, max_size=2))), yields=tiny, inst=tiny, kw=st.booleans(), falsy=st.booleans())


def strategy():
    op = rec(src=tiny, how=st.sampled_from(["for", "for", "list", "next", "next", "break", "unpack", "materialized", "async for", "async for", "anext", "anext",
                                            "async break", "await", "await", "comprehension", "interleave", "async interleave"]),
             n=small, new=st.sampled_from([False, True, True]), other=tiny, thread=st.sampled_from([False, False, False, True]), gc=st.booleans())
    return rec(sources=st.lists(sources(), min_size=1, max_size=3), ops=st.lists(op, min_size=1, max_size=7))


class FailingIterator:
    """An async iterator whose failures do not end it."""

    def __init__(self, src):
        self.src = src
        self.k = 0
        self.failed = set()

    def __aiter__(self):
        return self

    async def __anext__(self):
        await self.src.wait()
        for i, (pos, e) in enumerate(self.src.fails):
            if pos == self.k and i not in self.failed:
                self.failed.add(i)
                raise exc_of(e)
        if self.k >= len(self.src.items):
            raise StopAsyncIteration
        self.k += 1
        return self.src.items[self.k - 1]


class SizedIterator(FailingIterator):
    def __len__(self):
        return len(self.src.items) - self.k


class Src:
    def __init__(self, spec, n):
        self.kind = spec["kind"]
        self.items = [POOL[i] for i in spec["items"]]
        self.fails = [(p, e) for p, e in spec["fail"]]
        self.yields = spec["yields"]
        self.spec = spec
        me = self

        async def gen():
            for k, v in enumerate(self.items):
                await self.wait()
                for pos, e in self.fails:
                    if pos == k:
                        raise exc_of(e)
                yield v
            for pos, e in self.fails:
                if pos >= len(self.items):
                    raise exc_of(e)
        self.gen = gen
        self.ask = lambda: None
        self.iterable = self.kind in ITERABLES
        doc = {"__doc__": [None, "doc of {cls} holding {obj}.", "doc\n", "doc\n\n"][n % 4]}

        if self.kind in ("method", "inherited method", "overriding method", "generic method", "class access"):
            base = ASyncGenericBase if self.kind == "generic method" else object

            class A(base):
                def __init__(self, i):
                    self.i = i
                    self.sync = bool(i % 2)
                    if base is not object:
                        base.__init__(self)

                async def g(self, shift=0, *, mark=None):
                    async for v in gen():
                        yield (self.i, shift, mark, v)

                async def h(self, shift=0, *, mark=None):
                    async for v in gen():
                        yield ("h", self.i)
                if spec["falsy"]:
                    def __bool__(self):
                        return False
                if base is object:
                    g = ASyncIterator.wrap(g)
                    h = ASyncGeneratorFunction(h)
            cls = A
            if self.kind == "inherited method":
                class B(A):
                    pass
                cls = B
            elif self.kind == "overriding method":
                class B(A):
                    @ASyncGeneratorFunction
                    async def g(self, shift=0, *, mark=None):
                        async for v in super().g(shift, mark=mark):
                            yield v
                cls = B
            self.cls = cls
            self.instances = [cls(i) for i in range(3)]
        elif self.kind in ("iterable subclass", "own __aiter__", "typed iterable"):
            if self.kind == "own __aiter__":
                class T(ASyncIterable[int]):
                    def __init__(self):
                        pass

                    def __aiter__(self):
                        return gen()
            elif self.kind == "typed iterable":
                class T(ASyncIterable[List[str]]):
                    async def more(self):
                        """of {cls} and {obj}"""
                T.__doc__ = doc["__doc__"]
            else:
                T = type("T", (ASyncIterable,), dict(doc))
            self.T = T
        elif self.kind in ("iterator subclass", "own __anext__"):
            if self.kind == "own __anext__":
                class T(ASyncIterator[dict]):
                    """{cls}"""
                    def __init__(self):
                        self.raw = FailingIterator(me)

                    async def __anext__(self):
                        return await self.raw.__anext__()
            else:
                T = type("T", (ASyncIterator,), dict(doc))
            self.T = T

    async def wait(self):
        self.ask()
        await delay(self.spec.get("d", 0), self.yields)

    def make(self, n):
        """A new wrapper and, for iterators, the raw iterator that mirrors it."""
        k = self.kind
        inst = self.spec["inst"] if n % 2 else n % 3
        me = self
        if k == "iterable":
            class It:
                def __aiter__(self):
                    return FailingIterator(me)
            return ASyncIterable(It()), lambda: FailingIterator(me)
        if k == "iterable of generators":
            class It:
                async def __aiter__(self):
                    async for v in me.gen():
                        yield v
            return (ASyncIterable.wrap if n % 2 else ASyncIterable)(It()), me.gen
        if k in ("iterable subclass", "typed iterable"):
            class It:
                def __aiter__(self):
                    return me.gen()
            return self.T(It()), me.gen
        if k == "own __aiter__":
            return self.T(), me.gen
        if k == "generator":
            return ASyncIterator(self.gen()), self.gen
        if k == "wrap iterator":
            return ASyncIterator.wrap(self.gen()), self.gen
        if k == "iterator":
            return ASyncIterator(FailingIterator(self)), lambda: FailingIterator(self)
        if k == "sized iterator":
            return ASyncIterator(SizedIterator(self)), lambda: SizedIterator(self)
        if k == "iterator subclass":
            return self.T(self.gen()), self.gen
        if k == "own __anext__":
            return self.T(), lambda: FailingIterator(self)
        if k in ("wrap function", "generator function"):
            async def agen(a, /, *b, c=0, **d):
                async for v in me.gen():
                    yield a, b, c, d, v
            f = ASyncIterator.wrap(agen) if k == "wrap function" else ASyncGeneratorFunction(agen)
            args, kw = ([n], {}) if not self.spec["kw"] else ([n, inst], {"c": n, "sync": False, "asynchronous": inst, "self": n, "fn": inst})
            return f(*args, **kw), lambda: agen(*args, **kw)
        obj = self.instances[inst]
        if (n + inst) % 3 == 1:
            # a copy of an instance that was used is an instance of its own
            if k != "class access":
                obj.g
            obj = copy.copy(obj)
            obj.i = 10 + n
        shift = n

        async def raw():
            async for v in me.gen():
                yield obj.i, shift, inst if self.spec["kw"] else None, v
        kw = {"mark": inst} if self.spec["kw"] else {}
        if k == "class access":
            return self.cls.g(obj, shift, **kw), raw
        return obj.g(shift, **kw), raw


async def take(it, n):
    """Up to n items (None: all) of the raw iterator and how it ended."""
    out = []
    try:
        while n is None or len(out) < n:
            try:
                out.append(await it.__anext__())
            except StopAsyncIteration:
                return out, ("end",)
        return out, ("more",)
    except BaseException as e:
        return out, ("raise", e)


def agree(got, want, what):
    same_value(got[0], want[0], what + " items")
    require(got[1][0] == want[1][0], "%s ended with %r, the source ends with %r", what, got[1], want[1])
    if want[1][0] == "raise":
        require(type(got[1][1]) is type(want[1][1]) and got[1][1].args == want[1][1].args, "%s raised %r, the source raises %r", what, got[1][1], want[1][1])


def sync_take(it, n, how):
    out = []
    try:
        if how == "list":
            return list(it), ("end",)
        if how == "unpack":
            return [*it], ("end",)
        if how == "materialized":
            return it.materialized, ("end",)
        if how == "next":
            it = iter(it)
            while len(out) < n:
                try:
                    out.append(next(it))
                except StopIteration:
                    return out, ("end",)
            return out, ("more",)
        if how == "break":
            if not n:
                return out, ("more",)
            for x in it:
                out.append(x)
                if len(out) >= n:
                    return out, ("more",)
            return out, ("end",)
        for x in it:
            out.append(x)
        return out, ("end",)
    except BaseException as e:
        return out, ("raise", e)


async def async_take(it, n, how):
    out = []
    try:
        if how == "await":
            return await it, ("end",)
        if how == "comprehension":
            return [x async for x in it], ("end",)
        if how == "anext":
            it = it.__aiter__()
            while len(out) < n:
                try:
                    out.append(await it.__anext__())
                except StopAsyncIteration:
                    return out, ("end",)
            return out, ("more",)
        if how == "async break":
            if not n:
                return out, ("more",)
            async for x in it:
                out.append(x)
                if len(out) >= n:
                    return out, ("more",)
            return out, ("end",)
        async for x in it:
            out.append(x)
        return out, ("end",)
    except BaseException as e:
        return out, ("raise", e)


WHOLE = ("await", "comprehension", "list", "unpack", "materialized")


def run_mixture(spec, case):
    import logging
    logging.disable(logging.CRITICAL)
    try:
        with Bench() as bench:
            mixture(spec, case, bench)
    finally:
        logging.disable(logging.NOTSET)


def mixture(spec, case, bench):
    srcs = [Src(s, n) for n, s in enumerate(spec["sources"])]
    made = {}
    count = [0]
    kinds = set()

    def get(i, new):
        """[wrapper, raw iterator or None, raw factory, the list it materialised]"""
        i %= len(srcs)
        if new or i not in made:
            count[0] += 1
            w, raw = srcs[i].make(count[0])
            made[i] = [w, None if srcs[i].iterable else raw(), raw, None]
        return srcs[i], made[i]

    for op in spec["ops"]:
        how, n = op["how"], op["n"]
        s, e = get(op["src"], op["new"])
        if op["gc"]:
            gc.collect()
        if how in ("interleave", "async interleave"):
            s2, e2 = get(op["other"], False)
            if e2 is e and not s.iterable:
                continue
            its, raws, res, want = [], [], [[], []], [[], []]
            for (src, ent) in ((s, e), (s2, e2)):
                raws.append(ent[1] if not src.iterable else ent[2]())
            if how == "interleave":
                its = [iter(e[0]), iter(e2[0])]
            else:
                its = [e[0].__aiter__(), e2[0].__aiter__()]
            for r in range(n + 1):
                for j in range(2):
                    want[j].append(bench.inside(lambda: take(raws[j], 1)))
                    if how == "interleave":
                        res[j].append(sync_take(its[j], 1, "next"))
                    else:
                        res[j].append(bench.inside(lambda: async_take(its[j], 1, "anext")))
                    if want[j][-1][1][0] != "more" and (s, s2)[j].iterable and how == "interleave":
                        # the generator behind a for loop over an iterable ends with the failure
                        raws[j] = Ended()
                    agree(res[j][-1], want[j][-1], "%s of %s" % (how, (s, s2)[j].kind))
            case.label(how)
            kinds.add(how)
            continue
        iterable = s.iterable
        whole = how in ("await", "materialized")
        if whole and e[3] is not None:
            # the list is kept: the same one, or that of a new iteration
            again = e[3]
        else:
            again = None
        raw = e[2]() if iterable else e[1]
        sync = how in ("for", "list", "next", "break", "unpack", "materialized")
        sync_thread = op["thread"]
        limit = None if how in ("for", "async for") + WHOLE else n
        if again is not None:
            want = again, ("end",)
        else:
            want = bench.inside(lambda: take(raw, limit))
        if sync:
            got = in_thread(sync_take, e[0], n, how) if sync_thread else sync_take(e[0], n, how)
        else:
            got = bench.inside(lambda: async_take(e[0], n, how))
        what = "%s over a %s" % (how, s.kind)
        if want[1][0] == "raise" and how in WHOLE:
            want = [], want[1]
        agree(got, want, what)
        if whole and want[1][0] == "end":
            require(type(got[0]) is list, "%s gave a %s", what, type(got[0]))
            e[3] = list(got[0])
        case.label(s.kind, how, want[1][0])
        kinds.add(how)
        case.mark(len(want[0]) > 1 and len(kinds) > 1)


class Ended:
    async def __anext__(self):
        raise StopAsyncIteration


def schedules():
    task = rec(src=tiny, n=maybe(small, 3), start=small, pause=tiny, how=st.sampled_from(["async for", "async for", "await", "anext", "comprehension"]))
    return rec(sources=st.lists(rec(kind=st.sampled_from(ITERABLES + ITERATORS), items=st.lists(st.integers(0, len(POOL) - 1), max_size=5), d=tiny,
                                    fail=st.just([]), yields=tiny, inst=tiny, kw=st.booleans(), falsy=st.booleans()), min_size=1, max_size=3),
               tasks=st.lists(task, min_size=1, max_size=5))


async def concurrent(spec, case):
    """Each consumer sees its own items when the raw source gives them, and the source works only when asked."""
    import logging
    logging.disable(logging.CRITICAL)
    try:
        runs = []
        for raw in (True, False):
            srcs = [Src(s, n) for n, s in enumerate(spec["sources"])]
            log = []
            zero = now()

            for n, s in enumerate(srcs):
                s.ask = lambda n=n: log.append(("asked", n, now() - zero))
            async def consumer(i, t):
                await delay(t["start"])
                s = srcs[t["src"] % len(srcs)]
                w, make = s.make(i)
                it = make() if raw else w
                out = []
                if not raw and t["how"] == "await":
                    out = await it
                    log.append((i, "all", now() - zero))
                elif t["how"] == "await" or t["how"] == "comprehension":
                    out = [x async for x in it]
                    log.append((i, "all", now() - zero))
                else:
                    it = it.__aiter__()
                    while t["n"] is None or len(out) < t["n"]:
                        try:
                            out.append(await it.__anext__())
                        except StopAsyncIteration:
                            log.append((i, "end", now() - zero))
                            break
                        log.append((i, len(out), now() - zero))
                        await delay(t["pause"])
                return out
            tasks = [asyncio.ensure_future(consumer(i, t)) for i, t in enumerate(spec["tasks"])]
            await settle(tasks)
            runs.append(([outcome(t) for t in tasks], sorted(log, key=repr)))
            del srcs
        for (a, b) in zip(*[r[0] for r in runs]):
            require(a[0] == b[0] == "ok", "a consumer ended with %r, over the raw source with %r", b, a)
            same_value(b[1], a[1], "a concurrent consumer's items")
        require(runs[0][1] == runs[1][1], "the consumers got their items as %r, from the raw sources as %r", runs[1][1], runs[0][1])
        case.mark(len(spec["tasks"]) > 1 and sum(len(r[1]) > 1 for r in runs[0][0]) > 1)
        case.label(*{s["kind"] for s in spec["sources"]})
    finally:
        logging.disable(logging.NOTSET)


def run_concurrent(spec, case):
    run(concurrent, spec, case)


SUBS = [
    Sub("mixture", strategy, run_mixture, "some consumption gave two items or more and two ways of consumption were used", quick=5000, thorough=80000, shards=4),
    Sub("concurrent", schedules, run_concurrent, "several consumers of which two got two items or more", quick=1500, thorough=30000, shards=2),
]
