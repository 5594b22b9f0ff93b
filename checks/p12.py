"""P12: PrioritySemaphore: best waiter first, permits conserved, nobody left asleep."""
import asyncio
from itertools import count

from a_sync.primitives.locks import PrioritySemaphore

from .common import *

PRIOS = one_of(st.none(), st.integers(-1, 3), st.sampled_from([0, -1, 100, 127, 128, 255, 256, 257, 65536, -2, -129, 2 ** 31 - 1, -2 ** 31]))


def strategy():
    actor = rec(
        prio=PRIOS,
        style=st.sampled_from(["with", "with", "acquire", "plain", "abandon"]),
        keep=st.booleans(),  # use the context manager object obtained at the very start
        start=small, yields=tiny, hold=small, hold_yields=tiny, again=st.integers(0, 1),
        cancel=one_of(st.none(), st.none(), rec(t=st.integers(0, 8), y=st.integers(0, 4))),
        fail=st.booleans(),
    )
    return rec(
        value=st.sampled_from([1, 1, 1, 2, 2, 3, 0]),
        extra=st.lists(rec(t=st.integers(0, 8), y=tiny), max_size=2),
        actors=lists(actor, 2, 9, 40),
    )


def run_case(spec, case):
    run(_case, spec, case)


async def _case(spec, case):
    sem = PrioritySemaphore(spec["value"], name="p")
    loop = asyncio.get_running_loop()
    total = [spec["value"]]
    holders = set()
    waiting = {}  # actor -> (prio, seq, time)
    gone = set()
    granted_now = []  # (prio, seq, requested, granted, actor), this tick
    seq = count()
    flags = set()

    def prio_of(a):
        return -1 if a["prio"] is None or a["style"] == "plain" else a["prio"]

    def request(i, a):
        waiting[i] = (prio_of(a), next(seq), loop.time())

    def granted(i):
        p, s, t = waiting.pop(i)
        holders.add(i)
        require(len(holders) <= total[0], "%d holders of %d permits", len(holders), total[0])
        granted_now.append((p, s, t, loop.time(), i))
        if loop.time() > t:
            flags.add("waited")

    async def body(i, a):
        granted(i)
        try:
            await delay(a["hold"], a["hold_yields"])
            if a["fail"]:
                raise Boom(i)
        finally:
            holders.discard(i)

    async def actor(i, a):
        kept = sem[a["prio"]] if a["keep"] else None
        await delay(a["start"], a["yields"])
        for _ in range(1 + a["again"]):
            try:
                cm = kept if a["keep"] else sem[a["prio"]]
                request(i, a)
                if a["style"] == "with":
                    async with cm:
                        await body(i, a)
                elif a["style"] == "plain":
                    if a["keep"]:
                        async with sem:
                            await body(i, a)
                    else:
                        require((await sem.acquire()) is True, "acquire() is not True")
                        try:
                            await body(i, a)
                        finally:
                            sem.release()
                elif a["style"] == "acquire":
                    require((await cm.acquire()) is True, "acquire() is not True")
                    try:
                        await body(i, a)
                    finally:
                        (cm if a["fail"] else sem).release()
                else:
                    waiting.pop(i)
                    cm.acquire().close()
                    flags.add("abandoned")
            except Boom:
                pass
            finally:
                waiting.pop(i, None)

    tasks = [loop.create_task(actor(i, a)) for i, a in enumerate(spec["actors"])]

    async def canceller(i, c):
        await delay(c["t"], c["y"])
        if not tasks[i].done():
            flags.add("cancelled waiter" if i in waiting else "cancelled other")
            gone.add(i)
            tasks[i].cancel()

    async def releaser(r):
        await delay(r["t"], r["y"])
        total[0] += 1
        sem.release()

    helpers = [loop.create_task(canceller(i, a["cancel"])) for i, a in enumerate(spec["actors"]) if a["cancel"]]
    helpers += [loop.create_task(releaser(r)) for r in spec["extra"]]

    def quiescent():
        live = {i: w for i, w in waiting.items() if i not in gone}
        free = total[0] - len(holders)
        require(free >= 0, "%d holders of %d permits", len(holders), total[0])
        require(not (free and live), "%d permits are free but actors %s sleep", free, sorted(live))
        require(bool(sem.locked()) == (free == 0), "locked() is %s with %d free permits", sem.locked(), free)
        for n, (p, s, t, g, i) in enumerate(granted_now):
            for j, (pj, sj, tj) in live.items():
                require(not (tj < g and (pj, sj) < (p, s)),
                        "actor %s (priority %s, #%s) was admitted, actor %s (priority %s, #%s) was waiting",
                        i, p, s, j, pj, sj)
            for (pj, sj, tj, gj, j) in granted_now[n + 1:]:
                if gj == g and t < g and tj < g:
                    require(not (pj, sj) < (p, s),
                            "actor %s (priority %s, #%s) was admitted before actor %s (priority %s, #%s)",
                            i, p, s, j, pj, sj)
        granted_now.clear()
        if live:
            flags.add("contended")
            if len({w[0] for w in live.values()}) > 1:
                flags.add("mixed priorities waiting")

    def reraise(ts):
        for t in ts:
            if t.done() and not t.cancelled() and t.exception():
                raise t.exception()

    while loop.time() < 120:
        await until(int(loop.time()) + 0.5)
        reraise(tasks + helpers)
        quiescent()
        if all(t.done() for t in tasks + helpers):
            break
        await until(int(loop.time()) + 1)
    for i, t in enumerate(tasks):
        if not t.done():
            gone.add(i)
            t.cancel()
    await settle(tasks)
    reraise(tasks)
    for k in range(total[0]):
        require(not sem.locked(), "only %d of %d permits are left at the end", k, total[0])
        await asyncio.wait_for(sem.acquire(), 1)
    require(sem.locked(), "more than %d permits at the end", total[0])
    case.label(*flags)
    case.mark("mixed priorities waiting" in flags or "cancelled waiter" in flags)


SUBS = [
    Sub("history", strategy, run_case,
        "random actors with priorities on one PrioritySemaphore in virtual time; non-trivial: waiters of different "
        "priorities waited together or a waiter was cancelled", quick=6000, thorough=60000, shards=4),
]
