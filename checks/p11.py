"""P11: Semaphore permits, order and wake-ups against quiescent-point invariants."""
import asyncio
from itertools import count

from a_sync.primitives.locks import Semaphore

from .common import *

STYLES = ["with", "acquire", "wait_for", "deco", "task", "abandon"]


def strategy():
    actor = rec(
        style=st.sampled_from(STYLES),
        start=small, yields=tiny, hold=small, hold_yields=tiny,
        timeout=small,
        cancel=maybe(rec(t=st.integers(0, 8), y=st.integers(0, 4)), 2),
        fail=st.booleans(),
    )
    return rec(
        value=st.integers(0, 3),
        outside=st.booleans(),
        extra=st.lists(rec(t=st.integers(0, 8), y=tiny), max_size=2),
        actors=lists(actor, 1, 8, 40),
    )


def run_case(spec, case):
    state = {"sem": Semaphore(spec["value"], name="s") if spec["outside"] else None}
    run(_case, spec, case, state)


async def _case(spec, case, state):
    sem = state["sem"] or Semaphore(spec["value"])
    loop = asyncio.get_running_loop()
    total = [spec["value"]]  # permits there are
    holders = set()
    waiting = {}  # actor -> (seq, time, direct)
    gone = set()  # cancelled actors
    inner = {}  # actor -> its acquire task
    seq = count()
    flags = set()

    def request(i, direct=True):
        waiting[i] = (next(seq), loop.time(), direct)

    def granted(i):
        mine = waiting.pop(i)
        holders.add(i)
        require(len(holders) <= total[0], "%d holders of %d permits", len(holders), total[0])
        for j, other in waiting.items():
            if j in gone or (j in inner and inner[j].done()):
                continue
            b = spec["actors"][j]
            if b["style"] == "wait_for" and loop.time() >= other[1] + b["timeout"]:
                continue  # timing out just now
            if mine[2] and other[2]:
                before = other[0] < mine[0]
            else:
                before = other[1] < mine[1]
            require(not before, "actor %s was admitted before actor %s, which asked earlier", i, j)
        if loop.time() > mine[1]:
            flags.add("waited")

    async def body(i, a):
        granted(i)
        try:
            await delay(a["hold"], a["hold_yields"])
            if a["fail"]:
                raise Boom(i)
            return i
        finally:
            holders.discard(i)

    async def actor(i, a):
        await delay(a["start"], a["yields"])
        style = a["style"]
        try:
            if style == "with":
                request(i)
                async with sem:
                    await body(i, a)
            elif style == "deco":
                async def fn(x, *, k):
                    require((x, k) == (i, "k"), "decorated function got %r", (x, k))
                    return await body(i, a)

                wrapped = sem(fn) if i % 2 else sem.decorate(fn)
                request(i)
                r = await wrapped(i, k="k")
                same(r, i, "result of the decorated function")
            elif style in ("acquire", "wait_for"):
                request(i)
                if style == "acquire":
                    got = await sem.acquire()
                else:
                    if a["timeout"] == 0:
                        waiting[i] = (waiting[i][0], waiting[i][1], False)
                    try:
                        got = await asyncio.wait_for(sem.acquire(), a["timeout"])
                    except asyncio.TimeoutError:
                        flags.add("timeout")
                        waiting.pop(i)
                        return
                require(got is True, "acquire() gave %r", got)
                try:
                    await body(i, a)
                finally:
                    sem.release()
            elif style == "task":
                # the acquire runs in its own task, which may be cancelled before its first step
                t = inner[i] = asyncio.ensure_future(sem.acquire())
                request(i, False)
                try:
                    await spin(a["timeout"])
                    if a["fail"]:
                        gone.add(i)
                        t.cancel()
                        flags.add("cancelled acquire task")
                    await t
                except CancelledError:
                    t.cancel()
                    (outcome_t,) = await asyncio.gather(t, return_exceptions=True)
                    if outcome_t is True:
                        sem.release()
                    waiting.pop(i, None)
                    return
                gone.discard(i)
                try:
                    await body(i, dict(a, fail=False))
                finally:
                    sem.release()
            elif style == "abandon":
                c = sem.acquire()
                await spin(a["timeout"])
                c.close()
                flags.add("abandoned acquire")
        except Boom as e:
            require(e.ident == i, "wrong exception %r", e)
        finally:
            waiting.pop(i, None)

    tasks = [loop.create_task(actor(i, a)) for i, a in enumerate(spec["actors"])]

    async def canceller(i, c):
        await delay(c["t"], c["y"])
        if not tasks[i].done():
            if i in waiting:
                flags.add("cancelled waiter")
            elif i in holders:
                flags.add("cancelled holder")
            gone.add(i)
            tasks[i].cancel()

    async def releaser(r):
        await delay(r["t"], r["y"])
        total[0] += 1
        sem.release()

    helpers = [loop.create_task(canceller(i, a["cancel"])) for i, a in enumerate(spec["actors"]) if a["cancel"]]
    helpers += [loop.create_task(releaser(r)) for r in spec["extra"]]

    def quiescent():
        live = {i for i in waiting if i not in gone}
        free = total[0] - len(holders)
        require(free >= 0, "%d holders of %d permits", len(holders), total[0])
        require(not (free and live), "%d permits are free but actors %s sleep", free, sorted(live))
        require(bool(sem.locked()) == (free == 0), "locked() is %s with %d free permits", sem.locked(), free)
        require(len(sem) == len(waiting), "%d waiters reported, %d there are", len(sem), len(waiting))
        if live:
            flags.add("contended")

    horizon = 60
    while loop.time() < horizon:
        await until(int(loop.time()) + 0.5)
        for t in tasks + helpers:
            if t.done() and not t.cancelled() and t.exception():
                raise t.exception()
        quiescent()
        if all(t.done() for t in tasks + helpers):
            break
        await until(int(loop.time()) + 1)
    for t in tasks:
        if not t.done():
            gone.add(tasks.index(t))
            t.cancel()
    await settle(tasks)
    for t in tasks:
        if not t.cancelled() and t.exception():
            raise t.exception()
    # everything was given back: exactly total permits can be taken
    for k in range(total[0]):
        require(not sem.locked(), "only %d of %d permits are left at the end", k, total[0])
        await asyncio.wait_for(sem.acquire(), 1)
    require(sem.locked(), "more than %d permits at the end", total[0])
    require(len(sem) == 0, "%d waiters left", len(sem))
    case.label(*flags)
    case.mark("contended" in flags or bool(flags & {"abandoned acquire", "cancelled acquire task", "timeout"}))


SUBS = [
    Sub("history", strategy, run_case,
        "random actors on one Semaphore in virtual time; non-trivial: some actor had to wait, or an acquire was "
        "cancelled, timed out or abandoned", quick=3000, thorough=40000, shards=4),
]
