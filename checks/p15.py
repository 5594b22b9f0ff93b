"""P15: Queue bulk operations: exact model for sequential histories, conservation for concurrent ones."""
import asyncio
from collections import deque

from a_sync.primitives import Queue

from .common import *

# --- sequential -------------------------------------------------------------------------------


def seq_strategy():
    i = st.sampled_from([2, 2, 3, 4, 5])
    op = weighted(
        (5, rec(op=st.just("put"), wait=st.booleans(), n=st.integers(1, 4))),
        (2, rec(op=st.just("get"), wait=st.booleans())),
        (2, rec(op=st.just("all"), wait=st.booleans())),
        (5, rec(op=st.just("multi"), wait=st.booleans(), i=i, less=st.booleans())),
        (1, rec(op=st.just("bad"), wait=st.booleans(), i=st.sampled_from([1, 0, -1, "2", None, 2.0]))),
        (3, rec(op=st.just("done"), n=st.integers(1, 5))),
        (2, rec(op=st.just("join"))),
    )
    return rec(maxsize=st.sampled_from([0, 0, 0, 1, 2, 3]), ops=lists(op, 4, 24, 100))


def run_seq(spec, case):
    run(_seq, spec, case)


class _Blocked(Exception):
    pass


async def _seq(spec, case):
    q = Queue(spec["maxsize"])
    model, unfinished, nxt = deque(), 0, 0
    flags = set()

    async def attempt(make, wait):
        """('ok', value) | ('empty',) | ('full',) | ('blocked',)"""
        try:
            if not wait:
                return ("ok", make())
            try:
                return ("ok", await asyncio.wait_for(make(), 1))
            except asyncio.TimeoutError:
                return ("blocked",)
        except asyncio.QueueEmpty:
            return ("empty",)
        except asyncio.QueueFull:
            return ("full",)

    for o in spec["ops"]:
        op, wait = o["op"], o.get("wait")
        no = ("blocked",) if wait else ("empty",)
        if op == "put":
            for _ in range(o["n"]):
                item = nxt if nxt % 3 else [None, 0, ""][nxt % 9 // 3]  # falsy and repeated items too
                item = (item, nxt)
                got = await attempt((lambda: q.put(item)) if wait else (lambda: q.put_nowait(item)), wait)
                if spec["maxsize"] and len(model) >= spec["maxsize"]:
                    want = ("blocked",) if wait else ("full",)
                else:
                    want = ("ok", None)
                    model.append(item)
                    unfinished += 1
                    nxt += 1
                same(got, want, "put")
        elif op == "get":
            got = await attempt(q.get if wait else q.get_nowait, wait)
            same(got, ("ok", model.popleft()) if model else no, "get")
        elif op == "all":
            got = await attempt(q.get_all if wait else q.get_all_nowait, wait)
            same(got, ("ok", list(model)) if model else no, "get_all")
            if len(model) > 1:
                flags.add("get_all of several")
            model.clear()
        elif op == "multi":
            i, less = o["i"], o["less"]
            fn = q.get_multi if wait else q.get_multi_nowait
            got = await attempt(lambda: fn(i, can_return_less=less) if less else fn(i), wait)
            if len(model) >= i or (less and model):
                want = ("ok", [model.popleft() for _ in range(min(i, len(model)))])
                flags.add("get_multi gave items")
            else:
                want = no
                if model:
                    flags.add("get_multi ran short")
            same(got, want, "get_multi(%d, %s)" % (i, less))
        elif op == "bad":
            fn = q.get_multi if wait else q.get_multi_nowait
            try:
                r = fn(o["i"])
                if wait:
                    r = await asyncio.wait_for(r, 1)
            except (TypeError, ValueError):
                pass
            else:
                raise Violation("get_multi(%r) was accepted" % (o["i"],))
        elif op == "done":
            for _ in range(o["n"]):
                try:
                    q.task_done()
                except ValueError:
                    require(unfinished == 0, "task_done() refused with %d unfinished", unfinished)
                else:
                    require(unfinished > 0, "task_done() called too often was accepted")
                    unfinished -= 1
        elif op == "join":
            got = await attempt(q.join, True)
            same(got, ("ok", None) if unfinished == 0 else ("blocked",), "join with %d unfinished" % unfinished)
            if unfinished == 0 and nxt:
                flags.add("joined")
        require(len(q) == q.qsize() == len(model), "%d items in the queue, expected %d", len(q), len(model))
        require(bool(q) is True, "a queue must be truthy")
        require(q.empty() is (not model), "empty() is %s", q.empty())
    rest = []
    while not q.empty():
        rest.append(q.get_nowait())
    same(rest, list(model), "items left at the end")
    for _ in range(unfinished):
        q.task_done()
    same(await attempt(q.join, True), ("ok", None), "final join")
    case.label(*flags)
    case.mark("get_multi gave items" in flags or "get_multi ran short" in flags or "get_all of several" in flags)


# --- concurrent -------------------------------------------------------------------------------


def con_strategy():
    producer = rec(t=small, y=tiny, n=st.integers(1, 4), gap=tiny, nowait=st.booleans())
    consumer = rec(
        t=small, y=tiny,
        kind=st.sampled_from(["get", "all", "multi", "multi", "multi"]),
        i=st.integers(2, 4), less=st.booleans(),
        repeat=st.integers(1, 3),
        cancel=one_of(st.none(), st.none(), rec(t=st.integers(0, 8), y=tiny)),
        timeout=one_of(st.none(), st.none(), st.integers(1, 4)),
    )
    return rec(maxsize=st.sampled_from([0, 0, 0, 1, 3]), producers=lists(producer, 1, 4, 20),
               consumers=lists(consumer, 1, 5, 25))


def run_con(spec, case):
    run(_con, spec, case)


async def _con(spec, case):
    q = Queue(spec["maxsize"])
    loop = asyncio.get_running_loop()
    put, got = [], []
    pending = {}
    gone = set()
    flags = set()
    single = len(spec["producers"]) == 1
    interrupted = [False]

    async def producer(p, a):
        await delay(a["t"], a["y"])
        for k in range(a["n"]):
            item = (p, k)
            if a["nowait"] and not spec["maxsize"]:
                q.put_nowait(item)
            else:
                await q.put(item)
            put.append(item)
            await delay(a["gap"])

    async def consumer(c, a):
        await delay(a["t"], a["y"])
        for _ in range(a["repeat"]):
            if a["kind"] == "get":
                co = q.get()
            elif a["kind"] == "all":
                co = q.get_all()
            else:
                co = q.get_multi(a["i"], a["less"])
            if a["timeout"]:
                co = asyncio.wait_for(co, a["timeout"])
            pending[c] = loop.time()
            try:
                r = await co
            except asyncio.TimeoutError:
                flags.add("timed out")
                interrupted[0] = True
                return
            finally:
                if loop.time() > pending[c]:
                    flags.add("waited")
                pending.pop(c)
            if a["kind"] == "get":
                r = [r]
            require(isinstance(r, list) and r, "consumer got %r", r)
            if a["kind"] == "multi":
                if a["less"]:
                    require(len(r) <= a["i"], "get_multi(%d) gave %d items", a["i"], len(r))
                else:
                    require(len(r) == a["i"], "get_multi(%d) gave %d items", a["i"], len(r))
            got.append((c, r))
            for _ in r:
                q.task_done()

    ps = [loop.create_task(producer(p, a)) for p, a in enumerate(spec["producers"])]
    cs = [loop.create_task(consumer(c, a)) for c, a in enumerate(spec["consumers"])]

    async def canceller(c, x):
        await delay(x["t"], x["y"])
        if not cs[c].done():
            if c in pending:
                flags.add("cancelled consumer")
                interrupted[0] = True
            gone.add(c)
            cs[c].cancel()

    hs = [loop.create_task(canceller(c, a["cancel"])) for c, a in enumerate(spec["consumers"]) if a["cancel"]]

    def reraise():
        for t in ps + cs + hs:
            if t.done() and not t.cancelled() and t.exception():
                raise t.exception()

    for t in range(40):
        await until(t + 0.5)
        reraise()
        live = [c for c in pending if c not in gone]
        require(not (live and q.qsize()), "consumers %s sleep while %d items are there", live, q.qsize())
    for c, t in enumerate(cs):
        if not t.done():
            flags.add("left waiting")
            interrupted[0] = True
            t.cancel()
    await settle(cs)
    await spin(5)
    reraise()
    for p in ps:
        if not p.done():  # blocked on a full queue nobody drains
            require(spec["maxsize"] and q.qsize() >= spec["maxsize"], "a producer is stuck at %d items", q.qsize())
    n_before = len(put)
    rest = []
    while not all(p.done() for p in ps) or not q.empty():
        rest.append(await asyncio.wait_for(q.get(), 5))
        await spin(3)
        if len(rest) > 2000:
            raise Violation("the queue never runs empty")
        if q.empty():
            await asyncio.sleep(12)
    reraise()
    delivered = [x for _, r in got for x in r] + rest
    want = [(p, k) for p, a in enumerate(spec["producers"]) for k in range(a["n"])]
    require(sorted(delivered) == sorted(want), "put %s, delivered %s", sorted(want), sorted(delivered))
    if not interrupted[0]:
        for c, r in got:
            for p in range(len(ps)):
                mine = [x for x in r if x[0] == p]
                require(mine == sorted(mine), "consumer %s got %s out of order", c, r)
        if len(cs) == 1:
            for p in range(len(ps)):
                mine = [x for x in delivered if x[0] == p]
                require(mine == sorted(mine), "items were delivered as %s", delivered)
    j = loop.create_task(q.join())
    for k in range(len(rest)):
        await spin(2)
        require(not j.done(), "join() finished with %d items not done", len(rest) - k)
        q.task_done()
    await asyncio.wait_for(j, 1)
    case.label(*flags)
    case.mark("waited" in flags and any(a["kind"] != "get" for a in spec["consumers"]))


SUBS = [
    Sub("sequential", seq_strategy, run_seq,
        "histories of single and bulk operations against a deque model; non-trivial: a bulk get returned several items "
        "or ran short", quick=8000, thorough=80000, shards=4),
    Sub("concurrent", con_strategy, run_con,
        "producers and bulk consumers in virtual time with cancellations and timeouts; non-trivial: a bulk consumer "
        "had to wait", quick=5000, thorough=50000, shards=4),
]
