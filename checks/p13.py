"""P13: Event, CounterLock and CounterLockCluster against a model of who must be released when."""
import asyncio

from a_sync.primitives.locks import CounterLock, Event
from a_sync.primitives.locks.counter import CounterLockCluster

from .common import *
from .dual import in_thread

TARGET = st.integers(0, 5)
EXTREME = st.sampled_from([-2, 10**12, -(10**12), 7])


def strategy():
    lock = tiny
    step = weighted(
        (8, rec(op=st.just("wait"), lock=lock, v=TARGET, n=st.integers(1, 3))),
        (1, rec(op=st.just("wait"), lock=lock, v=EXTREME, n=st.just(1))),
        (2, rec(op=st.just("cluster"), v=TARGET, timeout=one_of(st.none(), st.none(), st.integers(1, 3)))),
        (2, rec(op=st.just("set"), lock=lock, v=TARGET, attr=st.booleans())),
        (1, rec(op=st.just("set"), lock=lock, v=EXTREME, attr=st.booleans())),
        (5, rec(op=st.just("bump"), lock=lock, v=st.integers(0, 2), attr=st.booleans())),
        (2, rec(op=st.just("clear"), lock=lock)),
        (2, rec(op=st.just("cancel"), k=st.integers(0, 12))),
    )
    return rec(
        kind=st.sampled_from(["event", "counter", "counter", "cluster"]),
        locks=st.sampled_from([1, 1, 2, 3]),
        start=st.lists(st.sampled_from([0, 0, 1, -1]), min_size=3, max_size=3),
        outside=st.integers(0, 2),  # made in the running loop, where no loop runs, in a thread without a loop
        steps=lists(rec(s=step, tick=st.booleans(), spin=tiny), 3, 20, 80),
    )


def make(spec):
    if spec["kind"] == "event":
        return [Event(name="e%d" % i) for i in range(spec["locks"])]
    return [CounterLock(spec["start"][i], "c%d" % i) for i in range(spec["locks"])]


def run_case(spec, case):
    run(_case, spec, case, make(spec) if spec["outside"] == 1 else
        in_thread(make, spec) if spec["outside"] == 2 else None)


async def _case(spec, case, locks):
    locks = locks or make(spec)
    loop = asyncio.get_running_loop()
    event = spec["kind"] == "event"
    n = len(locks)
    value = [False] * n if event else spec["start"][:n]
    cluster = CounterLockCluster(iter(locks)) if spec["kind"] == "cluster" else None
    # waiter: dict(task, where=set of lock indexes, v, due: condition met, cancelled: "no"/"yes"/"either", deadline)
    waiters = []
    flags = set()

    def ready(i, v):
        return value[i] if event else value[i] >= v

    def update():
        for w in waiters:
            if not w["due"]:
                # a cluster waiter needs each member to have reached v (counters never fall back)
                if all(ready(i, w["v"]) for i in w["where"]):
                    w["due"] = True
                    w["due_at"] = loop.time()

    def check_now():
        """Everything has settled at this point."""
        for k, w in enumerate(waiters):
            t = w["task"]
            if w["deadline"] is not None and loop.time() > w["deadline"] and not w["due"]:
                require(t.done() and isinstance(outcome(t)[1], asyncio.TimeoutError) if not t.cancelled() else
                        w["cancelled"] != "no", "waiter %s did not time out: %s", k, t)
                continue
            if t.done():
                o = outcome(t)
                if o[0] == "cancelled":
                    require(w["cancelled"] != "no", "waiter %s was cancelled by nobody", k)
                elif o[0] == "raise" and isinstance(o[1], asyncio.TimeoutError) and w["deadline"] is not None:
                    require(loop.time() >= w["deadline"], "waiter %s timed out early", k)
                elif o[0] == "raise":
                    raise Violation("waiter %s failed: %r" % (k, o[1]))
                else:
                    require(w["cancelled"] != "yes", "cancelled waiter %s returned", k)
                    require(w["due"], "waiter %s for %s of %s was released early at %s", k, w["v"], w["where"], value)
                    require(o[1] is True, "waiter %s got %r", k, o[1])
            else:
                require(w["cancelled"] == "no", "cancelled waiter %s still waits", k)
                require(not w["due"], "waiter %s for %s of locks %s sleeps at %s", k, w["v"], w["where"], value)

    async def waiter(where, v):
        if event:
            return await locks[where[0]].wait()
        if len(where) == 1:
            return await locks[where[0]].wait_for(v)
        return await cluster.wait_for(v)

    async def add(where, v, timeout=None):
        co = cluster.wait_for(v) if where is None else waiter(where, v)
        where = list(range(n)) if where is None else where
        if timeout is not None:
            co = asyncio.wait_for(co, timeout)
        t = loop.create_task(co)
        w = dict(task=t, where=where, v=v, due=False, due_at=None, cancelled="no",
                 deadline=None if timeout is None else loop.time() + timeout)
        waiters.append(w)
        await spin(3)  # it is registered now
        update()
        if not w["due"]:
            flags.add("had to wait")

    for step in spec["steps"]:
        s = step["s"]
        op = s["op"]
        i = s.get("lock", 0) % n
        if op == "wait":
            for _ in range(s["n"]):
                await add([i], s["v"])
        elif op == "cluster":
            if cluster is not None:
                await add(None, s["v"], s["timeout"])
                flags.add("cluster waiter")
        elif op == "clear":
            if event:
                locks[i].clear()
                value[i] = False
        elif op in ("set", "bump"):
            if event:
                locks[i].set()
                value[i] = True
            else:
                v = s["v"] if op == "set" else value[i] + s["v"]
                try:
                    if s["attr"]:
                        locks[i].value = v
                    else:
                        locks[i].set(v)
                except ValueError:
                    require(v < value[i], "setting %s at %s was refused", v, value[i])
                    flags.add("refused")
                else:
                    require(v >= value[i], "the counter went from %s back to %s", value[i], v)
                    if v > value[i]:
                        pend = [w for w in waiters if w["where"] == [i] and not w["due"]]
                        value[i] = v
                        if pend and any(w["v"] <= v for w in pend):
                            flags.add("released some")
                            if any(w["v"] > v for w in pend):
                                flags.add("released some, kept some")
            update()
        elif op == "cancel":
            if waiters:
                w = waiters[s["k"] % len(waiters)]
                if not w["task"].done():
                    w["task"].cancel()
                    w["cancelled"] = "either" if w["due"] else "yes"
                    flags.add("cancelled a waiter")
        for k in range(n):
            if event:
                require(locks[k].is_set() is value[k], "is_set() is %s", locks[k].is_set())
            else:
                same(locks[k].value, value[k], "counter value")
                for v in (value[k] - 1, value[k], value[k] + 1):
                    require(locks[k].is_ready(v) is (value[k] >= v), "is_ready(%s) at %s", v, value[k])
        await spin(step["spin"])
        if step["tick"]:
            await asyncio.sleep(0.5)
            check_now()
            await asyncio.sleep(0.5)
    await asyncio.sleep(0.25)
    check_now()
    # release everything that is left
    for k in range(n):
        if event:
            locks[k].set()
            value[k] = True
        else:
            value[k] = max(value[k], 2 * 10**12)
            locks[k].set(value[k])
    update()
    await asyncio.sleep(0.25)
    check_now()
    case.label(spec["kind"], *flags)
    case.mark("had to wait" in flags and ("cancelled a waiter" in flags or "released some" in flags or event
                                          or "cluster waiter" in flags))


SUBS = [
    Sub("history", strategy, run_case,
        "random histories of waits, sets, clears and cancellations; non-trivial: a waiter had to wait and was later "
        "released or cancelled", quick=12000, thorough=90000, shards=6),
]
