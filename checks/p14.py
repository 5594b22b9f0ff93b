"""P14: ThreadsafeSemaphore in several threads with a loop each; DummySemaphore."""
import asyncio
import gc
import threading
from itertools import count

from a_sync.primitives.locks import CounterLock, DummySemaphore, Event, PrioritySemaphore, Semaphore, ThreadsafeSemaphore

from .common import *


def strategy():
    actor = rec(style=st.sampled_from(["with", "with", "deco", "property"]), start=tiny, yields=tiny,
                hold=st.integers(0, 3), fail=st.booleans(),
                cancel=one_of(st.none(), st.none(), st.integers(0, 6)))
    return rec(
        value=st.integers(1, 3),
        named=st.booleans(),
        together=st.booleans(),
        # all threads hold all of their permits at one moment
        meet=st.booleans(),
        same_name=st.booleans(),
        # permits that a thread still holds when it ends
        leak=st.lists(st.integers(0, 2), min_size=4, max_size=4),
        threads=st.lists(st.lists(actor, min_size=1, max_size=7), min_size=1, max_size=4),
    )


def run_case(spec, case):
    sem = ThreadsafeSemaphore(spec["value"], *(["n"] if spec["named"] else []))
    flags = set()
    lock = threading.Lock()
    errors = []

    async def limited(ident, ctl, a):
        return await ctl(ident, a)

    deco = sem(limited)

    def thread(n, actors):
        try:
            run(_thread, spec, n, actors, sem, deco, flags, meet)
        except BaseException as e:
            if meet is not None:
                meet.abort()
            with lock:
                if not isinstance(e, threading.BrokenBarrierError):
                    errors.insert(0, e)
                else:
                    errors.append(Violation("a thread could not take all of its permits while others hold theirs"))

    barrier = threading.Barrier(len(spec["threads"]) if spec["together"] else 1)
    meet = barrier if spec["together"] and spec["meet"] else None

    def target(n, actors):
        if spec["together"]:
            barrier.wait(60)
        thread(n, actors)

    threads = [threading.Thread(target=target, args=(n, a), name="worker" if spec["same_name"] else None) for n, a in enumerate(spec["threads"])]
    for t in threads:
        t.start()
        if not spec["together"]:
            t.join()
    for t in threads:
        t.join()
    if errors:
        raise errors[0]
    case.label(*flags)
    if len(threads) > 1:
        case.label("several threads")
    case.mark("contended" in flags)


async def _thread(spec, n, actors, sem, deco, flags, meet):
    loop = asyncio.get_running_loop()
    if meet is not None:
        for k in range(spec["value"]):
            await asyncio.wait_for(sem.__aenter__(), 1)
        meet.wait(60)
        for k in range(spec["value"]):
            await sem.__aexit__(None, None, None)
    holders, waiting, gone, done = set(), {}, set(), set()
    seq = count()

    async def ctl(i, a):
        mine = waiting.pop(i)
        holders.add(i)
        require(len(holders) <= spec["value"], "%d holders of %d permits in one thread", len(holders), spec["value"])
        for j, s in waiting.items():
            require(j in gone or s > mine, "actor %s was admitted before %s", i, j)
        try:
            await delay(a["hold"])
            if a["fail"]:
                raise Boom(i)
            done.add(i)
            return ("r", n, i)
        finally:
            holders.discard(i)

    async def actor(i, a):
        await delay(a["start"], a["yields"])
        waiting[i] = next(seq)
        try:
            if a["style"] == "with":
                async with sem:
                    r = await ctl(i, a)
            elif a["style"] == "property":
                async with sem.semaphore:
                    r = await ctl(i, a)
            else:
                r = await deco(i, ctl, a=a)
            require(r == ("r", n, i), "got %r", r)
        except Boom as e:
            require(a["fail"] and e.ident == i, "wrong exception")
        finally:
            waiting.pop(i, None)

    tasks = [loop.create_task(actor(i, a)) for i, a in enumerate(actors)]

    def kill(i):
        if not tasks[i].done():
            gone.add(i)
            tasks[i].cancel()

    for i, a in enumerate(actors):
        if a["cancel"] is not None:
            loop.call_later(a["cancel"], kill, i)
    while loop.time() < 60:
        await until(int(loop.time()) + 0.5)
        for t in tasks:
            if t.done() and not t.cancelled() and t.exception():
                raise t.exception()
        live = [i for i in waiting if i not in gone]
        if live:
            flags.add("contended")
        require(not live or len(holders) == spec["value"], "%d holders of %d permits but %s wait",
                len(holders), spec["value"], live)
        if all(t.done() for t in tasks):
            break
        await until(int(loop.time()) + 1)
    for i, t in enumerate(tasks):
        if not t.cancelled():
            t.result()
        else:
            require(i in gone, "actor %s was cancelled by nobody", i)
    # all permits are back in this thread
    for k in range(spec["value"]):
        await asyncio.wait_for(sem.__aenter__(), 1)
    for k in range(spec["value"] - min(spec["value"], spec["leak"][n])):
        await sem.__aexit__(None, None, None)


def dummies():
    op = one_of(
        rec(op=st.just("new"), name=st.sampled_from([None, "", "a", "sem\u00e4", "x" * 40])),
        rec(op=st.just("acquire"), k=small),
        rec(op=st.just("release"), k=small),
        rec(op=st.just("with"), k=small, n=st.integers(1, 4)),
        rec(op=st.just("drop"), k=small),
    )
    return rec(ops=st.lists(op, min_size=1, max_size=15))


def run_dummies(spec, case):
    run(_dummies, spec, case)


async def _dummies(spec, case):
    loop = asyncio.get_running_loop()
    pool = []
    for o in spec["ops"]:
        if o["op"] == "new":
            d = DummySemaphore(o["name"]) if o["name"] is not None else DummySemaphore()
            same(d.name, o["name"] or "", "name of the dummy")
            require((o["name"] or "") in repr(d), "repr %r", repr(d))
            pool.append(d)
            continue
        if not pool:
            continue
        k = o["k"] % len(pool)
        t0 = loop.time()
        if o["op"] == "acquire":
            r = await asyncio.wait_for(pool[k].acquire(), 1)
            require(r is True, "acquire() gave %r", r)
        elif o["op"] == "release":
            pool[k].release()
        elif o["op"] == "with":
            inside = []

            async def use(i):
                async with pool[k]:
                    inside.append(i)
                    await asyncio.sleep(1)

            ts = [loop.create_task(use(i)) for i in range(o["n"])]
            await asyncio.sleep(0.5)
            require(len(inside) == o["n"], "only %d of %d entered a dummy semaphore", len(inside), o["n"])
            await settle(ts)
            for t in ts:
                t.result()
            t0 = loop.time()
            case.label("entered together")
        elif o["op"] == "drop":
            del pool[k]
            case.label("dropped")
        require(loop.time() == t0, "a dummy semaphore blocked")
    case.mark(len(spec["ops"]) > 2)
    pool.clear()


SUBS = [
    Sub("threads", strategy, run_case,
        "actors in 1-4 threads, each with its own loop, share one ThreadsafeSemaphore; non-trivial: actors had to wait",
        quick=1600, thorough=12000, shards=4),
    Sub("dummy", dummies, run_dummies, "histories on DummySemaphores that are dropped at some point; non-trivial: "
        "more than two operations", quick=1000, thorough=8000),
]
