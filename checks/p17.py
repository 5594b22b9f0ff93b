"""P17: which job starts next in priority, variable-priority and smart queues; shared duplicates."""
import asyncio
import functools
import gc

from a_sync import _smart
from a_sync.primitives.queue import PriorityProcessingQueue, SmartProcessingQueue, VariablePriorityQueue

from .common import *


# ----------------------------------------------------------------- priority
def priority_strategy():
    item = rec(
        t=small, y=tiny, p=st.sampled_from([-1, 0, 1, 2, 5, 1.5]), dur=st.integers(0, 3), dy=tiny,
        out=st.sampled_from(["ok", "ok", "ok", "none", "boom", "cancelled"]),
        how=st.sampled_from(["put", "nowait", "call", "await", "kw"]),
        fate=st.sampled_from(["keep", "keep", "keep", "cancel", "drop"]), ft=st.integers(0, 5),
    )
    return rec(workers=st.integers(1, 3), data=st.sampled_from([True, True, True, False]),
               named=st.booleans(), partial=st.booleans(),
               joins=st.lists(st.integers(0, 9), max_size=2),
               items=lists(item, 2, 10, 50))


def priority_run(spec, case):
    run(_priority, spec, case)


async def _priority(spec, case):
    items, W = spec["items"], spec["workers"]
    enqueued, started, running, finished = [], [], set(), set()
    abandoned = set()
    flags = set()
    R = Recorder()

    async def process(box, i, **kw):
        R.require(kw == {"extra": i, **({"self": i} if i % 3 == 1 else {})} and isinstance(box, dict), "item %d: the function got %r", i, (box, kw))
        R.require(i not in started, "item %d was started twice", i)
        pending = [j for j in enqueued if j not in started and j != i and j not in abandoned]
        for j in pending:
            R.require((items[j]["p"], enqueued.index(j)) > (items[i]["p"], enqueued.index(i)),
                      "item %d (priority %s) was started before item %d (priority %s)", i, items[i]["p"], j, items[j]["p"])
        if any(items[j]["p"] == items[i]["p"] for j in pending):
            flags.add("tie")
        if any(enqueued.index(j) < enqueued.index(i) for j in pending):
            flags.add("overtakes")
        started.append(i)
        running.add(i)
        R.require(len(running) <= W, "%d items run at once with %d workers", len(running), W)
        try:
            a = items[i]
            await delay(a["dur"], a["dy"])
            if a["out"] == "boom":
                raise Boom(i)
            if a["out"] == "cancelled":
                raise CancelledError()
            return None if a["out"] == "none" else ("r", i)
        finally:
            running.discard(i)
            finished.add(i)

    fn = functools.partial(process) if spec["partial"] else process
    q = PriorityProcessingQueue(fn, W, return_data=spec["data"], **({"name": "q"} if spec["named"] else {}))
    todo = []

    async def actor(i):
        a = items[i]
        await until(a["t"])
        await spin(a["y"])
        enqueued.append(i)
        kw = {"self": i} if i % 3 == 1 else {}
        if a["how"] == "put":
            fut = await q.put(a["p"], {}, i, extra=i, **kw)
        elif a["how"] == "kw":
            fut = q.put_nowait(priority=a["p"], box={}, i=i, extra=i, **kw)
        elif a["how"] == "call":
            fut = q(a["p"], {}, i, extra=i, **kw)
        else:
            fut = q.put_nowait(a["p"], {}, i, extra=i, **kw)
        if not spec["data"]:
            same(fut, None, "a put without return_data returns")
            return
        if a["fate"] == "drop":
            abandoned.add(i)
            return
        if a["fate"] == "cancel":
            await asyncio.sleep(a["ft"])
            if not fut.done():
                abandoned.add(i)
                fut.cancel()
                return
        await settle([fut])
        o = outcome(fut)
        want = {"ok": ("ok", ("r", i)), "none": ("ok", None), "boom": ("raise", Boom(i)),
                "cancelled": ("cancelled",)}[a["out"]]
        R.require(o == want, "item %d: the future has %r, expected %r", i, o, want)

    async def joiner(t):
        await until(t + 0.5)
        before = list(enqueued)
        await q.join()
        R.require(all(i in finished or i in abandoned for i in before),
                  "join returned with %r unprocessed", [i for i in before if i not in finished])

    tasks = [asyncio.ensure_future(actor(i)) for i in range(len(items))]
    tasks += [asyncio.ensure_future(joiner(t)) for t in spec["joins"]]
    await settle(tasks)
    R.check()
    for t in tasks:
        t.result()
    await q.join()
    R.check()
    R.require(not running, "join returned while %r ran", running)
    for i in range(len(items)):
        R.require(i in finished or i in abandoned, "item %d was never processed", i)
    same(q.qsize(), 0, "qsize after join")
    case.label(*flags)
    case.mark("overtakes" in flags)


# ----------------------------------------------------------------- variable priorities
class Mut:
    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return self.v < o.v


def variable_strategy():
    op = one_of(
        rec(op=st.just("put"), v=st.integers(0, 9)),
        rec(op=st.just("put"), v=st.integers(0, 9)),
        rec(op=st.just("change"), i=st.integers(0, 9), v=st.integers(0, 9)),
        rec(op=st.just("change"), i=st.integers(0, 9), v=st.integers(0, 9)),
        rec(op=st.just("get")),
    )
    return rec(ops=st.lists(op, min_size=3, max_size=20), coro=st.booleans())


def variable_run(spec, case):
    run(_variable, spec, case)


async def _variable(spec, case):
    q = VariablePriorityQueue()
    model = []
    changed = False
    for op in spec["ops"]:
        if op["op"] == "put":
            m = Mut(op["v"])
            model.append(m)
            await q.put(m) if spec["coro"] else q.put_nowait(m)
        elif op["op"] == "change":
            if model:
                model[op["i"] % len(model)].v = op["v"]
                changed = True
        elif model:
            got = await q.get() if spec["coro"] else q.get_nowait()
            best = min(m.v for m in model)
            require(got in model, "the queue returned an item that was not in it")
            require(got.v == best, "get returned priority %s while %s was waiting", got.v, best)
            model.remove(got)
            case.mark(changed and len(model) > 1)
        same(q.qsize(), len(model), "qsize")
    while model:
        got = q.get_nowait()
        require(got.v == min(m.v for m in model), "wrong order in the final drain")
        model.remove(got)
    require(q.empty(), "the queue is not empty after all was taken")


# ----------------------------------------------------------------- smart
def smart_strategy():
    caller = rec(
        t=small, y=tiny, key=st.integers(0, 4), kw=st.integers(0, 1),
        how=st.sampled_from(["put", "nowait", "call"]),
        # what the caller does with the future
        act=st.sampled_from(["await"] * 6 + ["shield", "shield", "drop", "wait", "cancel"]),
        wt=st.integers(0, 5), swap=st.booleans(), extra=st.sampled_from([0, 0, 0, 1, 3]),
    )
    job = rec(dur=st.integers(0, 3), dy=tiny, out=st.sampled_from(["ok", "ok", "ok", "none", "boom", "cancelled"]))
    return rec(workers=st.integers(1, 2), jobs=st.lists(job, min_size=10, max_size=10), block=st.integers(0, 4),
               partial=st.booleans(), named=st.booleans(), smart_tasks=st.booleans(),
               joins=st.lists(st.integers(0, 9), max_size=1),
               callers=st.lists(caller, min_size=2, max_size=14))


def smart_run(spec, case):
    run(_smart_case, spec, case)


class JobState:
    """One pending request for one key: from the first put until its future is done."""

    def __init__(self, key, n):
        self.key, self.n = key, n
        self.waiters = 0  # tasks (and shields) that are waiting for certain
        self.maybe = 0  # those that may still be counted: they left in the current instant
        self.left_at = None
        self.started = False
        self.over = False
        self.done_at = None
        self.killed = None  # cancelled by one of its callers
        self.ref = None


async def _smart_case(spec, case):
    loop = asyncio.get_running_loop()
    if spec["smart_tasks"]:
        _smart.set_smart_task_factory(loop)
    callers, W = spec["callers"], spec["workers"]
    R = Recorder()
    current = {}  # key -> JobState of the pending request
    all_jobs = []
    running = []
    flags = set()
    dropped_keys = set()

    def bounds(j):
        hi = j.waiters + (j.maybe if j.left_at == now() else 0)
        return j.waiters, hi

    async def process(key, *, kw=0, pad=None, self=None):
        if key == -1:
            await asyncio.sleep(spec["block"])
            return "blocker"
        k = (key, kw)
        j = current.get(k)
        R.require(j is not None, "the job %r was run though it was not requested", k)
        R.require(not j.started, "the job %r was run twice for one request", k)
        lo, hi = bounds(j)
        for o in all_jobs:
            if o is j or o.started or o.over or o.killed is not None:
                continue
            olo, ohi = bounds(o)
            R.require(olo <= hi, "a job with %s waiters was started before one with %s", hi, olo)
            if ohi < lo:
                flags.add("most_waiters_first")
                if all_jobs.index(o) < all_jobs.index(j):
                    flags.add("overtakes")
        j.started = True
        running.append(k)
        R.require(len(running) <= W, "%d jobs run at once with %d workers", len(running), W)
        spec_job = spec["jobs"][key * 2 + kw]
        try:
            await delay(spec_job["dur"], spec_job["dy"])
            out = spec_job["out"]
            if out == "boom":
                raise Boom(j.n)
            if out == "cancelled":
                raise CancelledError()
            return None if out == "none" else ("r", j.n)
        finally:
            running.remove(k)
            j.over = True
            j.done_at = now()

    fn = functools.partial(process) if spec["partial"] else process
    q = SmartProcessingQueue(fn, W, **({"name": "q"} if spec["named"] else {}))
    blockers = [q.put_nowait(-1, kw=i) for i in range(W)] if spec["block"] else []

    async def actor(i):
        a = callers[i]
        await until(a["t"])
        await spin(a["y"])
        k = (a["key"], a["kw"])
        old = current.get(k)
        args = (a["key"],)
        kw = {"kw": a["kw"]} if a["kw"] else {}
        if kw:
            # the order of keywords is no part of a request
            kw = {"pad": 0, "self": 0, **kw} if a["swap"] else {**kw, "self": 0, "pad": 0}
        # what may happen to the request: join the pending one or start another
        fresh = JobState(k, len(all_jobs))
        settling = old is not None and (old.done_at == now() or old.killed == now())
        must_join = old is not None and not old.over and old.killed is None and old.ref is not None
        if not must_join:
            current[k] = fresh
            all_jobs.append(fresh)
        fut = q(*args, **kw) if a["how"] == "call" else (await q.put(*args, **kw) if a["how"] == "put" else q.put_nowait(*args, **kw))
        if must_join:
            pend = old.ref()
            R.require(pend is None or fut is pend, "an identical pending job was not shared")
            if pend is None:  # every caller dropped it: it may start anew
                current[k] = fresh
                all_jobs.append(fresh)
                j = fresh
            else:
                j = old
                flags.add("shared")
        elif settling and old.ref is not None and fut is old.ref():
            all_jobs.remove(fresh)
            current[k] = j = old
            flags.add("just_done")
            R.require(not fut.cancelled() or spec["jobs"][a["key"] * 2 + a["kw"]]["out"] == "cancelled",
                      "a new request got the cancelled future of an earlier one")
        else:
            j = fresh
        import weakref
        if j.ref is None:
            j.ref = weakref.ref(fut)
        act = a["act"]
        if act == "drop":
            del fut
            return
        if a["extra"]:
            await asyncio.sleep(a["extra"])
        if act == "cancel":
            await asyncio.sleep(a["wt"])
            if not fut.done():
                j.killed = now()
                fut.cancel()
                flags.add("killed")
            return
        if act == "shield":
            if not fut.done():
                j.waiters += 1
            done = False
            try:
                async with asyncio.timeout(a["wt"] + 0.5):
                    v = await _smart.shield(fut)
                o = ("ok", v)
                done = True
            except TimeoutError:
                flags.add("shield_timeout")
                j.waiters -= 1
                j.maybe = (j.maybe if j.left_at == now() else 0) + 1
                j.left_at = now()
                R.require(j.killed is None or j.killed == now() or j.over or fut.done(), "a shield outlived the cancelled future")
                return
            except CancelledError:
                o = ("cancelled",)
            except Exception as e:
                o = ("raise", e)
        elif act == "wait":
            await asyncio.wait([fut])
            o = outcome(fut)
        else:
            if not fut.done():
                j.waiters += 1
            try:
                o = ("ok", await fut)
            except CancelledError:
                o = ("cancelled",)
            except Exception as e:
                o = ("raise", e)
        out = spec["jobs"][a["key"] * 2 + a["kw"]]["out"]
        want = {"ok": ("ok", ("r", j.n)), "none": ("ok", None), "boom": ("raise", Boom(j.n)),
                "cancelled": ("cancelled",)}[out]
        if j.killed is not None:
            want = ("cancelled",)
        else:
            R.require(j.over, "caller %d got %r before the job ended", i, o)
        R.require(o == want, "caller %d of %r: got %r, expected %r", i, k, o, want)

    async def joiner(t):
        await until(t + 0.5)
        before = list(all_jobs)
        await q.join()
        R.require(all(j.over or j.killed is not None or not j.started and j.ref() is None for j in before), "join returned with work left")

    async def monitor():
        for t in range(12):
            await until(t + 0.75)
            for j in all_jobs:
                f = j.ref and j.ref()
                if f is not None and not f.done():
                    R.require(f.num_waiters == max(j.waiters, 0), "num_waiters is %s while %s wait", f.num_waiters, j.waiters)

    tasks = [asyncio.ensure_future(actor(i)) for i in range(len(callers))]
    tasks += [asyncio.ensure_future(joiner(t)) for t in spec["joins"]]
    tasks.append(asyncio.ensure_future(monitor()))
    await settle(tasks)
    R.check()
    for t in tasks:
        t.result()
    await q.join()
    R.check()
    R.require(not running, "join returned while %r ran", running)
    for b in blockers:
        same(b.result(), "blocker", "the first jobs")
    for j in all_jobs:
        if j.killed is None and j.waiters:
            R.require(j.started, "the job %r was never run", j.key)
    same(q.qsize(), 0, "qsize after join")
    case.label(*flags)
    case.mark("shared" in flags and "most_waiters_first" in flags)


SUBS = [
    Sub("priority", priority_strategy, priority_run,
        "a job of better priority was started before one put earlier", quick=900, thorough=9000, shards=2),
    Sub("variable", variable_strategy, variable_run,
        "a get after a priority was changed, with other items left", quick=500, thorough=5000, debug=False),
    Sub("smart", smart_strategy, smart_run,
        "callers shared a pending job and one with more waiters was started first", quick=1500, thorough=15000, shards=4),
]
