"""P10: generated blocking uses of every dual-mode entry point at random nesting inside a running loop, each judged for the dedicated error, no side effect and a loop and callables that still work: property-based testing with an invariant oracle"""
import asyncio
import warnings

import a_sync
from a_sync import ASyncFuture, ASyncGenericBase, ASyncIterable, ASyncIterator, TaskMapping
from a_sync.exceptions import SyncModeInAsyncContextError
from a_sync.iter import ASyncFilter, ASyncSorter

from .common import *
from .dual import in_thread

KINDS = ["function", "function", "method", "method", "async-instance method", "property", "cached property", "getter", "cached getter",
         "descriptor", "generator", "generator method", "iterable", "iterator", "filter", "sorter", "materialized", "next", "mapping", "future",
         "sync function", "sync method", "map property", "singleton"]
MODS = [{}, {}, {"ram_cache_maxsize": None}, {"ram_cache_ttl": 500}, {"semaphore": 1}, {"semaphore": 2}, {"runs_per_minute": 600},
        {"semaphore": 1, "ram_cache_maxsize": 8}]
AGG = ["gather", "any", "all", "min", "max", "sum"]


def strategy():
    target = rec(kind=st.sampled_from(KINDS), mods=st.integers(0, len(MODS) - 1), spell=st.integers(0, 3), agg=st.sampled_from(AGG), n=st.integers(1, 3),
                 is_async=st.booleans())
    step = rec(target=small, then=st.sampled_from(["block", "block", "block", "await", "await", "thread"]), scene=st.sampled_from(
        ["task", "task", "callback", "nested", "deep", "method body", "getter body", "generator body", "mapping body", "done callback"]), yields=tiny)
    return rec(targets=st.lists(target, min_size=1, max_size=3), steps=st.lists(step, min_size=1, max_size=8),
               outer=st.sampled_from(["run", "run", "blocking function", "blocking method"]), after=st.booleans())


class Target:
    """One callable: block() uses it synchronously, via() asynchronously, want is what either gives."""

    def __init__(self, n, t):
        self.runs = 0
        self.kind = kind = t["kind"]
        self.refuse = True  # whether a blocking use needs the loop
        self.either = False  # whether it is open if it needs the loop
        self.once = False  # whether the body runs once for many uses
        self.error = SyncModeInAsyncContextError
        self.via = None
        self.usable = True  # blocking works outside of the loop
        mods = dict(MODS[t["mods"]])
        cached = any(k.startswith("ram") for k in mods)
        me = self
        want = ["r", n]
        spell = t["spell"]
        flag = [{}, {"sync": True}, {"asynchronous": False}, {}][spell]

        async def body(x):
            await asyncio.sleep(0)
            me.runs += 1
            return want

        def sync_body(x):
            me.runs += 1
            return want
        self.want = want
        if kind == "function":
            f = a_sync.a_sync("async" if flag else ["sync", "sync", "sync", None][spell] or "sync", **mods)(body)
            self.block = lambda: f(1, **flag)
            self.via = lambda: f(1, sync=False)
            self.once = cached
        elif kind == "sync function":
            f = a_sync.a_sync(default="async" if flag else "sync")(sync_body)
            self.block = lambda: f(1, **flag)
            self.via = lambda: f(1, sync=False)
            self.refuse = False
        elif kind in ("method", "async-instance method", "sync method", "descriptor", "singleton"):
            if kind == "async-instance method" and not flag:
                flag = {"sync": True}
            sync_instance = kind != "async-instance method"
            base = a_sync.ASyncGenericSingleton if kind == "singleton" else ASyncGenericBase

            class C(base):
                if kind == "singleton":
                    sync = True

                def __init__(self):
                    if kind != "singleton":
                        self.sync = sync_instance
                    ASyncGenericBase.__init__(self)
                if kind == "sync method":
                    def m(self, x):
                        return sync_body(x)
                elif kind == "descriptor":
                    @a_sync.a_sync(default=None, **mods)
                    async def m(self, x):
                        return await body(x)
                else:
                    async def m(self, x):
                        return await body(x)
            c = C()
            self.keep = c
            if kind == "sync method" and flag:
                flag = {}
            self.block = lambda: c.m(1, **flag)
            self.via = lambda: c.m(1, sync=False)
            self.refuse = kind != "sync method"
            self.once = cached and kind == "descriptor"
        elif kind in ("property", "cached property", "getter", "cached getter"):
            deco = a_sync.aka.cached_property if "cached" in kind else a_sync.aka.property
            hidden = "getter" in kind
            async_instance = spell == 3

            class C(ASyncGenericBase):
                def __init__(self):
                    self.sync = not async_instance
                    ASyncGenericBase.__init__(self)

            async def p(self):
                return await body(1)

            def q(self):
                return sync_body(1)
            fget = p if t["is_async"] else q
            fget.__name__ = "p"
            C.p = deco(**({"default": "sync"} if async_instance or spell == 2 else {}))(fget)
            C.p.__set_name__(C, "p")
            setattr(C, "__p__", C.p.hidden_method_descriptor)
            c = C()
            self.keep = c
            self.block = (lambda: c.__p__(**(flag or {"sync": True}))) if hidden else (lambda: c.p)
            self.via = lambda: c.__p__(sync=False)
            self.once = "cached" in kind
            self.either = not t["is_async"]
        elif kind in ("generator", "generator method", "iterable", "iterator", "filter", "sorter", "materialized", "next"):
            items = list(range(t["n"]))

            async def agen(*_):
                for i in items:
                    await asyncio.sleep(0)
                    if i == 0:
                        me.runs += 1
                    yield i

            class Items:
                def __aiter__(self):
                    return agen()

            class G(ASyncGenericBase):
                def __init__(self):
                    self.sync = True
                    ASyncGenericBase.__init__(self)

                async def g(self):
                    async for i in agen():
                        yield i
            g = self.keep = G()
            make = {
                "generator": lambda: ASyncIterator.wrap(agen)(),
                "generator method": lambda: g.g(),
                "iterable": lambda: ASyncIterable(Items()),
                "iterator": lambda: ASyncIterator(agen()),
                "filter": lambda: ASyncFilter(lambda x: True, [Items(), agen()][spell % 2]),
                "sorter": lambda: ASyncSorter([Items(), agen(), items][spell % 3], key=lambda x: x),
                "materialized": lambda: [ASyncIterable(Items()), ASyncIterator(agen())][spell % 2],
                "next": lambda: ASyncIterator(agen()),
            }[kind]
            plain = kind == "sorter" and spell % 3 == 2
            self.want = items

            def consume(it):
                if kind == "materialized":
                    return it.materialized
                if kind == "next":
                    return [next(it)] + list(it)
                if spell == 0:
                    return list(it)
                if spell == 1:
                    return [x for x in it]
                out = []
                for x in it:
                    out.append(x)
                return out
            made = []

            def block():
                it = made[-1] if made else make()
                made[:] = [it]
                r = consume(it)
                made.clear()
                return r

            async def via():
                it = made[-1] if made else make()
                made.clear()
                return [x async for x in it]
            self.block, self.via = block, via
            self.count_runs = not plain
            self.no_runs = plain
        elif kind == "mapping":
            agg = t["agg"]
            self.want = {"gather": {i: i + 1 for i in range(t["n"])}, "any": True, "all": True, "min": 1, "max": t["n"], "sum": t["n"] * (t["n"] + 1) // 2}[agg]

            async def inc(i):
                if i == 0:
                    me.runs += 1
                return i + 1
            made = []

            def mapping():
                if not made:
                    made.append(TaskMapping(inc, range(t["n"]) if spell % 2 else list(range(t["n"]))))
                return made[0]
            self.kw = {} if agg == "gather" else {"pop": False}

            def block():
                r = getattr(mapping(), agg)(**(flag or {}), **self.kw)
                made.clear()
                return r

            async def via():
                r = await getattr(mapping(), agg)(sync=False, **self.kw)
                made.clear()
                return r
            self.block, self.via = block, via
            self.no_runs = True
        elif kind == "map property":
            class C(ASyncGenericBase):
                def __init__(self, i):
                    self.i = i
                    self.sync = True
                    ASyncGenericBase.__init__(self)

                @a_sync.aka.property
                async def p(self):
                    return self.i
            instances = [C(i) for i in range(t["n"])]
            self.want = t["n"] * (t["n"] - 1) // 2
            self.block = lambda: C.p.sum(instances, sync=True)
            self.via = lambda: C.p.sum(instances, sync=False)
            self.no_runs = True
        elif kind == "future":
            f = ASyncFuture(body(1))
            ops = [lambda: bool(f), lambda: f[0], lambda: f.result(), lambda: f == want]
            self.want = [True, "r", want, True][spell]
            self.block = ops[spell]

            async def via():
                await f
                return self.want
            self.via = via
            self.once = True
            self.either = spell == 3
            if spell != 3:
                self.done = f
        else:
            raise HarnessError(kind)
        if not hasattr(self, "no_runs"):
            self.no_runs = False


def run_case(spec, case):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore", RuntimeWarning)  # refused coroutines are never awaited
        go(spec, case)


def go(spec, case):
    targets = [Target(n, t) for n, t in enumerate(spec["targets"])]
    rec_ = Recorder()
    ticks = []
    refused = set()

    def attempt(t, scene):
        """A blocking use of t while the loop of this thread runs."""
        before = t.runs
        loop = asyncio.get_running_loop()
        try:
            r = t.block()
        except t.error as e:
            rec_.require(t.refuse and (not isinstance(getattr(t, "done", None), ASyncFuture) or not t.done.done()),
                         "a blocking use of a %s in a %s was refused: %r", t.kind, scene, e)
            rec_.require(t.runs == before, "a refused %s ran its body", t.kind)
            refused.add(t)
        except BaseException as e:
            rec_.require(False, "a blocking use of a %s in a %s raised %s: %s", t.kind, scene, type(e).__name__, str(e)[:200])
        else:
            done = getattr(t, "done", None)
            rec_.require(not t.refuse or t.either or (done is not None and done.done()), "a blocking use of a %s in a %s was not refused but gave %r", t.kind, scene, r)
            rec_.require(r == t.want, "a blocking use of a %s in a %s gave %r, not %r", t.kind, scene, r, t.want)
        rec_.require(asyncio.get_running_loop() is loop, "the running loop changed")
        case.label(t.kind, scene)

    def judge_run(t, before, r, how):
        rec_.require(r == t.want, "%s of a %s gave %r, not %r", how, t.kind, r, t.want)
        if not t.no_runs:
            rec_.require(t.runs == before + 1 or (t.once and t.runs == 1), "%s of a %s ran its body %d times", how, t.kind, t.runs - before)

    async def act(step, depth=0):
        t = targets[step["target"] % len(targets)]
        scene = step["scene"]
        await spin(step["yields"])
        if step["then"] == "await":
            before = t.runs
            judge_run(t, before, await t.via(), "awaiting")
            case.label("awaited in the loop")
            return
        if step["then"] == "thread":
            if t.kind in ("future", "mapping"):
                return
            # a thread without a running loop may block
            before = t.runs
            loop = asyncio.get_running_loop()
            if any(k in ("semaphore", "runs_per_minute") for k in MODS[spec["targets"][step["target"] % len(targets)]["mods"]]) or t.once:
                return
            judge_run(t, before, await loop.run_in_executor(None, in_thread, t.block), "blocking in a thread")
            case.label("blocked in a thread")
            return
        if scene == "callback":
            done = asyncio.get_running_loop().create_future()

            def cb():
                try:
                    attempt(t, scene)
                except Violation:
                    pass
                done.set_result(None)
            asyncio.get_running_loop().call_soon(cb)
            await done
        elif scene == "done callback":
            task = asyncio.ensure_future(asyncio.sleep(0))
            done = asyncio.get_running_loop().create_future()

            def cb2(_):
                try:
                    attempt(t, scene)
                except Violation:
                    pass
                done.set_result(None)
            task.add_done_callback(cb2)
            await task
            await done
        elif scene in ("nested", "deep"):
            @a_sync.a_sync("sync")
            async def inner(d):
                await asyncio.sleep(0)
                if d:
                    return await inner(d - 1, sync=False)
                attempt(t, scene)
                return "done"
            rec_.require(await inner(2 if scene == "deep" else 0, sync=False) == "done", "the nested call failed")
        elif scene == "method body":
            class M(ASyncGenericBase):
                def __init__(self):
                    self.sync = False
                    super().__init__()

                async def run(self):
                    attempt(t, scene)
                    return "done"
            rec_.require(await (m := M()).run() == "done", "the method failed")
        elif scene == "getter body":
            class M(ASyncGenericBase):
                def __init__(self):
                    self.sync = False
                    super().__init__()

                @a_sync.aka.cached_property
                async def p(self):
                    attempt(t, scene)
                    return "done"
            rec_.require(await (m := M()).p == "done", "the property failed")
        elif scene == "generator body":
            @ASyncIterator.wrap
            async def gen():
                attempt(t, scene)
                yield "done"
            rec_.require([x async for x in gen()] == ["done"], "the generator failed")
        elif scene == "mapping body":
            async def fn(k):
                attempt(t, scene)
                return k
            rec_.require(await TaskMapping(fn, [1]) == {1: 1}, "the mapping failed")
        else:
            attempt(t, scene)

    async def main():
        async def ticker():
            while True:
                ticks.append(1)
                await asyncio.sleep(0)
        tick = asyncio.ensure_future(ticker())
        for step in spec["steps"]:
            before = len(ticks)
            await act(step)
            await spin(2)
            rec_.require(len(ticks) > before, "the loop does not run on")
        tick.cancel()
        return "finished"

    loop = RealLoop()
    asyncio.set_event_loop(loop)
    try:
        if spec["outer"] == "run":
            r = loop.run_until_complete(main())
        elif spec["outer"] == "blocking function":
            r = a_sync.a_sync("sync")(main)()
        else:
            class O(ASyncGenericBase):
                def __init__(self):
                    self.sync = True
                    super().__init__()

                async def go(self):
                    return await main()
            o = O()
            r = o.go()
        rec_.check()
        require(r == "finished", "the program gave %r", r)
        for t in targets:
            # everything works again once the loop does not run
            before = t.runs
            judge_run(t, before, t.block(), "blocking after the loop ended")
        rec_.check()
        case.mark(bool(refused))
    finally:
        from vlib.vloop import _drain
        _drain(loop)
        loop.close()
        asyncio.set_event_loop(None)


SUBS = [
    Sub("refusals", strategy, run_case, "a blocking use was refused in the running loop and worked later", quick=3500, thorough=50000, shards=4),
]
