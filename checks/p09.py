"""P09: random arrival patterns in virtual time against generated rate limits, the start times judged by the bucket inequality over every window: randomized schedule testing with an invariant oracle"""
import inspect

import a_sync
from a_sync import ASyncGenericBase
from a_sync.a_sync.modifiers.limiter import apply_rate_limit
from aiolimiter import AsyncLimiter

from .common import *
from .p03 import INLINE


def strategy():
    call = rec(t=st.sampled_from([0, 0, 0, 1, 5, 13, 20, 30, 47, 60, 61, 90, 125, 310, 400]), fn=tiny, d=st.sampled_from([0, 0, 1, 17, 70, 400]), fail=st.sampled_from([False, False, True]),
               cancel=maybe(st.sampled_from([0, 3, 20, 50]), 5), sync=st.booleans())
    return rec(shape=st.sampled_from(["functions", "functions", "apply", "class", "methods", "methods", "plain function", "sync mode", "sync mode"]), limiter=st.booleans(),
               n=st.sampled_from([1, 2, 3, 4, 6, 10]), fns=st.integers(1, 3), sem=maybe(st.integers(1, 2), 4), calls=lists(call, 2, 12, 40))


def given(i, c):
    return () if i % 2 else (c["fail"],)


def named(i, c):
    """Every other call gives an argument by name."""
    return {"fail": c["fail"]} if i % 2 else {}


def run_case(spec, case):
    n, shape = spec["n"], spec["shape"]
    starts = {}  # group -> start times
    order = []
    limit = AsyncLimiter(n) if spec["limiter"] else n
    shared = spec["limiter"]
    # calls that also wait for a semaphore start no earlier for it, and no faster
    more = {"semaphore": spec["sem"]} if spec["sem"] and shape != "apply" else {}

    def body(group, i, fail):
        starts.setdefault(group, []).append(now())
        order.append(i)
        if fail:
            raise Boom(i)
        return ["r", i]

    def afn(group):
        async def f(i, d, fail):
            r = None
            try:
                r = body(group, i, fail)
            finally:
                await delay(d)
            return r
        return f

    def sfn(group):
        def f(i, d, fail):
            return body(group, i, fail)
        return f

    k = spec["fns"]
    group = (lambda i: 0) if shared else (lambda i: i)
    if shape in ("functions", "sync mode"):
        deco = a_sync.a_sync(default="async" if shape == "functions" else "sync", runs_per_minute=limit, **more)
        fns = [deco(afn(group(i))) for i in range(k)]
    elif shape == "apply":
        fns = [apply_rate_limit(afn(group(i)), limit) if i % 2 else apply_rate_limit(limit)(afn(group(i))) for i in range(k)]
    elif shape == "plain function":
        fns = [a_sync.a_sync(default="async", runs_per_minute=limit, executor=INLINE, **more)(sfn(group(i))) for i in range(k)]
    elif shape == "methods":
        # an integer limits every method of every instance
        class C(ASyncGenericBase):
            def __init__(self, i):
                self.sync = False
                self.i = i
                super().__init__()

            @a_sync.a_sync(runs_per_minute=limit, **more)
            async def m0(self, *args, **kw):
                return await afn(group(self.i))(*args, **kw)

            @a_sync.a_sync("async", runs_per_minute=limit, **more)
            async def m1(self, *args, **kw):
                return await afn(group(self.i + 2))(*args, **kw)
        c1, c2 = C(0), C(1)
        fns = [lambda *a, **k: c1.m0(*a, **k), lambda *a, **k: c2.m0(*a, **k), lambda *a, **k: c1.m1(*a, **k)][:k]
    else:
        group = lambda i: 0

        class C(ASyncGenericBase):
            runs_per_minute = limit
            if more:
                semaphore = spec["sem"]

            def __init__(self):
                self.sync = False
                super().__init__()

            async def m0(self, *args, **kw):
                return await f0(*args, **kw)

            async def m1(self, *args, **kw):
                return await f0(*args, **kw)
        f0 = afn(0)
        c1, c2 = C(), C()
        fns = [lambda *a, **k: c1.m0(*a, **k), lambda *a, **k: c2.m0(*a, **k), lambda *a, **k: c1.m1(*a, **k)]
    case.label(shape, *(["with a semaphore"] if more else []))
    done, arrivals = {}, {}
    cancelled = set()

    def judge(i, c, f):
        try:
            r = ("ok", f())
        except Boom as e:
            r = ("raise", e)
        require(r == (("raise", Boom(i)) if c["fail"] else ("ok", ["r", i])), "call %d gave %r", i, r)
        done[i] = True

    if shape == "sync mode":
        loop = VirtualLoop()
        asyncio.set_event_loop(loop)
        try:
            for i, c in enumerate(spec["calls"]):
                f = fns[c["fn"] % len(fns)]
                before = loop.time()
                if c["sync"]:
                    judge(i, c, lambda: f(i, c["d"], *given(i, c), **named(i, c)))
                else:
                    async def together():
                        return await f(i, c["d"], *given(i, c), sync=False, **named(i, c))
                    judge(i, c, lambda: loop.run_until_complete(together()))
                require(loop.time() - before <= c["d"] + 3 * 60 / n + 1, "call %d took %s", i, loop.time() - before)
                if c["t"]:
                    loop.run_until_complete(asyncio.sleep(c["t"] / 4))
            require(order == list(range(len(spec["calls"]))), "ran %r", order)
        finally:
            loop.close()
            asyncio.set_event_loop(None)
    else:
        async def main():
            tasks = []

            async def call(i, c):
                g = group(c["fn"] % len(fns))
                arrivals.setdefault(g, []).append(now())
                r = fns[c["fn"] % len(fns)](i, c["d"], *given(i, c), **named(i, c))
                require(inspect.isawaitable(r), "call %d gave %r", i, r)
                try:
                    r = ("ok", await r)
                except Boom as e:
                    r = ("raise", e)
                except CancelledError:
                    require(i in cancelled, "call %d was cancelled", i)
                    return
                judge_value(i, c, r)

            def judge_value(i, c, r):
                require(r == (("raise", Boom(i)) if c["fail"] else ("ok", ["r", i])), "call %d gave %r", i, r)
                done[i] = True

            async def play(i, c):
                await delay(c["t"])
                t = asyncio.create_task(call(i, c))
                tasks.append((i, t))
                if c["cancel"] is not None:
                    await delay(c["cancel"])
                    if not t.done():
                        cancelled.add(i)
                        t.cancel()
                        case.label("cancelled")
            plays = [asyncio.create_task(play(i, c)) for i, c in enumerate(spec["calls"])]
            await settle(plays)
            for p in plays:
                p.result()
            for i, t in tasks:
                if i in cancelled:
                    await asyncio.wait([t])
            last = now()
            await asyncio.wait([t for _, t in tasks], timeout=3 * 60 / n * (len(tasks) + 2) + 6000)
            for i, t in tasks:
                require(t.done(), "call %d did not run until %s", i, now())
                if not t.cancelled():
                    t.result()
                require(i in done or i in cancelled, "call %d has no result", i)
        run(main)
        require(len(set(order)) == len(order) and set(done) <= set(order), "ran %r", order)
    for g, times in arrivals.items():
        if len(times) <= n and not more:
            # the bucket holds them all
            require(len(starts.get(g, ())) >= len(times) - len(cancelled) and (cancelled or sorted(starts[g]) == sorted(times)),
                    "%d calls with %d runs per minute arrived at %r and started at %r", len(times), n, times, starts.get(g))
            case.label("below the limit")
    waited = False
    for g, times in starts.items():
        times.sort()
        for a in range(len(times)):
            for b in range(a, len(times)):
                count = b - a + 1
                require(count <= n + (times[b] - times[a]) * n / 60 + 1e-6,
                        "%d starts between %s and %s with %d runs per minute", count, times[a], times[b], n)
        if len(times) > n:
            waited = True
    case.mark(waited)
    if cancelled:
        case.label("with cancellations")


SUBS = [
    Sub("arrivals", strategy, run_case, "more calls than the bucket holds", quick=4000, thorough=60000, shards=4),
]
