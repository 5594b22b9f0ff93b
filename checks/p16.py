"""P16: ProcessingQueue: each item once, its own outcome, bounded workers, FIFO starts, join."""
import asyncio
import functools
import weakref

from a_sync.primitives import ProcessingQueue

from .common import *


def strategy():
    item = rec(
        t=small, y=tiny, dur=st.integers(0, 3), dy=tiny,
        out=st.sampled_from(["ok", "ok", "ok", "none", "boom", "boom", "cancelled", "invalid"]),
        how=st.sampled_from(["put", "nowait", "call", "await"]),
        fate=st.sampled_from(["keep", "keep", "keep", "drop", "cancel", "timeout"]),
        ft=st.integers(0, 5),
    )
    return rec(
        workers=st.integers(1, 3),
        data=st.sampled_from([True, True, True, False]),
        fn=st.sampled_from(["def", "def", "partial", "object", "method"]),
        named=st.booleans(),
        joins=st.lists(st.integers(0, 9), max_size=2),
        close=one_of(st.none(), st.none(), st.integers(0, 6)),
        items=lists(item, 2, 10, 50),
    )


def run_case(spec, case):
    run(_case, spec, case)


async def _case(spec, case):
    loop = asyncio.get_running_loop()
    items = spec["items"]
    W = spec["workers"]
    enqueued, started, running, finished = [], [], set(), set()
    free_to_skip = set()  # cancelled or dropped before it started
    refs = {}
    flags = set()
    closed = [False]

    def cancelled(j):
        fut = refs[j]() if j in refs else None
        return fut is not None and fut.cancelled()
    R = Recorder()

    async def process(i, kw=None, *rest, extra=None, **more):
        R.require((kw, rest, extra, more) == ("a%d" % i, (i, i), ("x", i), more_of(i)), "the function got %r", (i, kw, rest, extra, more))
        R.require(i not in started, "item %d was started twice", i)
        for j in enqueued:
            if j == i:
                break
            R.require(j in started or j in free_to_skip or cancelled(j), "item %d was started before item %d", i, j)
        R.require(not cancelled(i), "item %d was cancelled before it was started", i)
        started.append(i)
        running.add(i)
        R.require(len(running) <= W, "%d items run at once with %d workers", len(running), W)
        if len(running) == W and len(enqueued) > len(started):
            flags.add("saturated")
        try:
            a = items[i]
            await delay(a["dur"], a["dy"])
            if a["out"] == "boom":
                raise Boom(i)
            if a["out"] == "cancelled":
                raise CancelledError()
            if a["out"] == "invalid":
                raise asyncio.InvalidStateError(i)
            return None if a["out"] == "none" else ("r", i)
        finally:
            running.discard(i)
            finished.add(i)

    def more_of(i):
        return {"self": i, "fn": i, "fut": i} if i % 4 == 1 else {}

    class Obj:
        async def __call__(self, /, *a, **k):
            return await process(*a, **k)

        async def meth(self, /, *a, **k):
            return await process(*a, **k)

    fn = {"def": process, "partial": functools.partial(process), "object": Obj(), "method": Obj().meth}[spec["fn"]]
    q = ProcessingQueue(fn, W, return_data=spec["data"], **({"name": "q"} if spec["named"] else {}))

    def judge(i, o):
        a = items[i]
        if a["out"] == "boom":
            require(o == ("raise", Boom(i)), "item %d gave %r", i, o)
        elif a["out"] == "invalid":
            require(o[0] == "raise" and type(o[1]) is asyncio.InvalidStateError and o[1].args == (i,),
                    "item %d gave %r", i, o)
        elif a["out"] == "cancelled":
            require(o[0] == "cancelled" or (o[0] == "raise" and isinstance(o[1], CancelledError)),
                    "item %d gave %r", i, o)
        else:
            require(o == ("ok", None if a["out"] == "none" else ("r", i)), "item %d gave %r", i, o)

    async def user(i, a):
        await delay(a["t"], a["y"])
        args, kwargs = (i, "a%d" % i, i, i), {"extra": ("x", i), **more_of(i)}
        fut = None
        try:
            enqueued.append(i)
            if a["how"] == "put":
                fut = await q.put(*args, **kwargs)
            elif a["how"] == "nowait":
                fut = q.put_nowait(*args, **kwargs)
            else:
                fut = q(*args, **kwargs)
        except RuntimeError:
            enqueued.remove(i)
            require(closed[0], "an open queue refused item %d", i)
            flags.add("refused")
            return
        require(not closed[0], "a closed queue took item %d", i)
        if not spec["data"]:
            require(fut is None, "put without return_data gave %r", fut)
            return
        if hasattr(fut, "cancelled"):
            refs[i] = weakref.ref(fut)
        if a["fate"] == "drop":
            await asyncio.sleep(a["ft"]) if a["ft"] < 4 else None
            if i not in started:
                free_to_skip.add(i)
                flags.add("dropped before start")
            elif i in running:
                flags.add("dropped while running")
            del fut
            return
        if a["fate"] == "cancel":
            await asyncio.sleep(a["ft"])
            if not fut.done():
                if i not in started:
                    free_to_skip.add(i)
                flags.add("cancelled future")
                fut.cancel()
            return
        if a["fate"] == "timeout":
            try:
                await asyncio.wait_for(fut, a["ft"])
            except BaseException:
                pass
            if fut.cancelled() and (a["out"] != "cancelled" or i not in finished):
                if i not in started:
                    free_to_skip.add(i)
                flags.add("timed out future")
                return
        else:
            await asyncio.wait([fut])
        require(i in finished, "the future of item %d is done before the item", i)
        judge(i, outcome(fut))

    us = [loop.create_task(user(i, a)) for i, a in enumerate(items)]

    async def joiner(t):
        await asyncio.sleep(t + 0.25)
        mine = list(enqueued)
        await q.join()
        left = [i for i in mine if i not in finished and i not in free_to_skip]
        require(not left, "join() returned while items %s are unprocessed", left)
        if mine:
            flags.add("joined")

    js = [loop.create_task(joiner(t)) for t in spec["joins"]]

    def close():
        closed[0] = True
        q.close()

    if spec["close"] is not None:
        loop.call_later(spec["close"] + 0.125, close)

    def reraise():
        R.check()
        for t in us + js:
            if t.done() and not t.cancelled() and t.exception():
                raise t.exception()

    for t in range(60 + 8 * len(items)):
        await until(t + 0.5)
        reraise()
        todo = [i for i in enqueued if i not in started and i not in free_to_skip]
        require(not todo or len(running) >= W, "items %s wait while %d of %d workers are busy", todo, len(running), W)
        if all(x.done() for x in us + js) and not todo and not running:
            break
    for x in us + js:
        if not x.done():
            raise Violation("%s never finished; started %s, finished %s" % (
                "join()" if x in js else "the user of item %d" % us.index(x), started, sorted(finished)))
        if x.cancelled():
            raise Violation("a waiter was cancelled")
    missing = [i for i in enqueued if i not in started and i not in free_to_skip]
    require(not missing, "items %s were never processed", missing)
    await asyncio.wait_for(q.join(), 1)
    R.check()
    # the queue still works
    if not closed[0]:
        async def again(i, a):
            pass
        items.append(dict(dur=0, dy=0, out="ok", fate="keep"))
        i = len(items) - 1
        enqueued.append(i)
        f = q(i, "a%d" % i, i, i, extra=("x", i), **more_of(i))
        if spec["data"]:
            same(await asyncio.wait_for(f, 5), ("r", i), "a late item")
        else:
            await asyncio.wait_for(q.join(), 5)
            require(i in finished, "a late item was not processed")
    case.label(*flags)
    case.mark("saturated" in flags or bool(flags & {"dropped before start", "dropped while running",
                                                    "cancelled future", "timed out future"}))
    q.close()


SUBS = [
    Sub("history", strategy, run_case,
        "arrival schedules with failing items and abandoned futures; non-trivial: items queued behind busy workers or a "
        "future was dropped or cancelled", quick=6000, thorough=60000, shards=5),
]
