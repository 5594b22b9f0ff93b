"""P18: smart tasks, smart futures and shield, against asyncio's own and against a waiter count."""
import asyncio
import contextvars

from a_sync import _smart

from .common import *

VAR = contextvars.ContextVar("p18", default="unset")
T_END = 14


def waiter(depth):
    base = dict(
        t=small, y=tiny,
        how=st.sampled_from(["await", "await", "shield", "shield", "shield", "shield2", "held", "wait", "gather", "timeout_shield"]),
        cancel=one_of(st.none(), st.integers(0, 9)), cancel_y=tiny,
        again=st.booleans(),
    )
    if depth:
        base["subs"] = st.lists(waiter(depth - 1), max_size=2)
    return rec(**base)


def history_strategy():
    return rec(
        inner=st.sampled_from(["task", "task", "future", "coro", "plain_task", "plain_future"]),
        dur=st.integers(0, 8), dy=tiny,
        out=st.sampled_from(["ok", "ok", "none", "boom", "boom", "cancelled"]),
        stubborn=st.sampled_from([0, 0, 0, 1, 2]),
        kill=one_of(st.none(), st.none(), st.integers(0, 9)),
        smart_waiters=st.booleans(), factory=st.booleans(),
        waiters=lists(waiter(1), 1, 7, 25),
    )


def history_run(spec, case):
    got = {}
    flags = set()
    for smart in (False, True):
        log = []
        run(_history, spec, smart, log, flags if smart else set())
        got[smart] = sorted(log, key=repr)
    if got[True] != got[False]:
        extra = [e for e in got[True] if e not in got[False]]
        missing = [e for e in got[False] if e not in got[True]]
        raise Violation("smart: %r where asyncio has %r" % (extra, missing))
    case.label(*flags)
    case.mark("cancelled_shield" in flags and "survivor" in flags)


async def _history(spec, smart, log, flags):
    loop = asyncio.get_running_loop()
    if smart and spec["factory"]:
        _smart.set_smart_task_factory(loop)
    shield = _smart.shield if smart else asyncio.shield
    cancels_seen = 0

    async def work():
        nonlocal cancels_seen
        stubborn = spec["stubborn"]
        log.append(("work starts", now()))
        end = now() + spec["dur"]
        while True:
            try:
                if end > now():
                    await asyncio.sleep(end - now())
                break
            except CancelledError:
                cancels_seen += 1
                log.append(("work cancelled", now()))
                if not stubborn:
                    raise
                stubborn -= 1
        await spin(spec["dy"])
        log.append(("work ends", now()))
        if spec["out"] == "boom":
            raise Boom(1)
        if spec["out"] == "cancelled":
            raise CancelledError()
        return None if spec["out"] == "none" else "result"

    async def driver(fut):
        await asyncio.sleep(spec["dur"])
        await spin(spec["dy"])
        if fut.done():
            return
        if spec["out"] == "boom":
            fut.set_exception(Boom(1))
        elif spec["out"] == "cancelled":
            fut.cancel()
        else:
            fut.set_result(None if spec["out"] == "none" else "result")

    kind = spec["inner"]
    keep = []
    if kind == "task":
        inner = _smart.SmartTask(work(), loop=loop, name="n") if smart else asyncio.Task(work(), loop=loop, name="n")
        same(inner.get_name(), "n", "the name of the task")
    elif kind == "plain_task":
        inner = asyncio.Task(work(), loop=loop)
    elif kind == "plain_future":
        inner = loop.create_future()
    elif kind == "future":
        inner = _smart.create_future(loop=loop) if smart else loop.create_future()
    else:
        inner = None  # made by the first shield
    if kind in ("future", "plain_future"):
        keep.append(asyncio.Task(driver(inner), loop=loop))

    count = {}  # id of an awaited object -> its current waiters, each a zero-argument function

    def waiting(obj):
        return sum(c() for c in count.get(id(obj), {}).values())

    def enter(target, me, mine):
        count.setdefault(id(target), {})[me] = mine

    def leave(target, me):
        count[id(target)].pop(me, None)

    async def one(path, a, target, self_ref):
        """Wait for target in the way a says."""
        await until(a["t"])
        await spin(a["y"])
        how = a["how"]
        own = lambda: (waiting(self_ref[0]) or 1) if isinstance(self_ref[0], _smart.SmartTask) else 1  # noqa: E731
        for rnd in range(2 if a["again"] else 1):
            o = None
            tracked = False
            me = (path, rnd)
            try:
                if how == "await":
                    if not target.done():
                        enter(target, me, own)
                        tracked = True
                    v = await target
                elif how in ("shield", "held", "timeout_shield"):
                    s = shield(target)
                    if not target.done():
                        flags.add("shield")
                        # the shield counts as many waiters as wait for it, but at least itself
                        enter(target, me, own if how != "held" else (lambda: 1))
                        tracked = True
                    if how == "held":
                        await asyncio.sleep(1)
                        if tracked and id(target) in count and me in count[id(target)]:
                            enter(target, me, own)
                        v = await s
                    elif how == "timeout_shield":
                        v = await asyncio.wait_for(s, 2.5)
                    else:
                        v = await s
                elif how == "shield2":
                    s = shield(shield(target))
                    if not target.done():
                        enter(target, me, own)
                        tracked = True
                    v = await s
                elif how == "wait":
                    done, pending = await asyncio.wait([target], timeout=3.5)
                    o = ("waited", len(done), outcome(target) if done else None)
                    v = None
                else:
                    v = await asyncio.gather(target)
                if o is None:
                    o = ("ok", v)
                if tracked:
                    flags.add("survivor")
            except (TimeoutError, asyncio.TimeoutError):
                o = ("timeout",)
                flags.add("cancelled_shield")
            except CancelledError:
                o = ("cancelled",)
                if how in ("shield", "shield2", "held") and not target.done():
                    flags.add("cancelled_shield")
                log.append((path, rnd, "left", now()))
                if asyncio.current_task().cancelling() and rnd == 0 and a["again"]:
                    asyncio.current_task().uncancel()
                    log.append((path, rnd, now(), o))
                    continue
                raise
            except Boom as e:
                o = ("raise", e)
            finally:
                if tracked and not target.done() and (how == "shield2" or how == "held" and not s.done()):
                    enter(target, me, lambda: 1)  # the inner one of the two shields still waits
                elif tracked:
                    leave(target, me)
            log.append((path, rnd, now(), o))
        return ("waiter", path)

    async def canceller(task, a):
        await until(a["cancel"] + 0.5)
        await spin(a["cancel_y"])
        task.cancel()

    def launch(path, a, target):
        ref = [None]
        coro = one(path, a, target, ref)
        if smart and spec["smart_waiters"]:
            t = _smart.SmartTask(coro, loop=loop)
        else:
            t = asyncio.Task(coro, loop=loop)
        ref[0] = t
        keep.append(t)
        if a["cancel"] is not None:
            keep.append(asyncio.Task(canceller(t, a), loop=loop))
        for i, sub in enumerate(a.get("subs", [])):
            launch(path + (i,), sub, t)
        return t

    if kind == "coro":
        inner_outer = shield(work())
        # the shielded coroutine runs in a task nobody else sees
        inner = inner_outer
    for i, a in enumerate(spec["waiters"]):
        launch((i,), a, inner)
    if spec["kill"] is not None:
        async def killer():
            await until(spec["kill"] + 0.25)
            log.append(("kill", inner.cancel()))
        keep.append(asyncio.Task(killer(), loop=loop))

    everyone = list(keep)
    for t in range(T_END):
        await until(t + 0.75)
        if smart:
            for obj in [inner] + [k for k in keep if isinstance(k, _smart.SmartTask)]:
                if not hasattr(type(obj), "num_waiters"):
                    continue
                want = 0 if obj.done() else waiting(obj)
                got = obj.num_waiters
                if got != want:
                    raise Violation("num_waiters of %s is %s at %s, %s wait" % ("the inner" if obj is inner else "a waiter", got, now(), want))
                if want > 1:
                    flags.add("several")
                repr(obj)
    done, pending = await asyncio.wait(everyone, timeout=20)
    log.append(("unfinished", len(pending)))
    log.append(("inner", outcome(inner) if inner.done() else None, now()))
    for t in everyone:
        if t.done():
            o = outcome(t)
            if o[0] == "raise" and not isinstance(o[1], Boom):
                raise o[1]
            log.append(("task", o))
    for p in pending:
        p.cancel()
    if pending:
        await asyncio.wait(pending)


# ----------------------------------------------------------------- the task factory
def factory_strategy():
    child = rec(
        how=st.sampled_from(["create", "loop", "group", "gather", "ensure", "wait_for", "context", "group_context", "name"]),
        dur=st.integers(0, 3), out=st.sampled_from(["ok", "ok", "ok", "boom"]), n=st.integers(0, 3),
        cancel=one_of(st.none(), st.none(), st.integers(0, 3)),
    )
    return rec(children=lists(child, 1, 6, 25), arg=st.booleans())


def factory_run(spec, case):
    got = {}
    for smart in (False, True):
        log = []
        run(_factory, spec, smart, log)
        got[smart] = log
    same(got[True], got[False], "the program with the smart task factory")
    case.mark(any(c["how"] in ("context", "group_context", "name", "group") for c in spec["children"]))


async def _factory(spec, smart, log):
    loop = asyncio.get_running_loop()
    if smart:
        _smart.set_smart_task_factory(loop) if spec["arg"] else _smart.set_smart_task_factory()
    checked = []

    async def body(i, c):
        t = asyncio.current_task()
        if smart and c["how"] != "wait_for" and not isinstance(t, _smart.SmartTask):
            raise Violation("the factory made a %s" % type(t).__name__)
        v = VAR.get()
        VAR.set("changed")
        await asyncio.sleep(c["dur"])
        name = t.get_name() if c["how"] in ("name", "group_context") else None
        if c["out"] == "boom":
            raise Boom(i)
        return (i, v, name, VAR.get())

    async def one(i, c):
        VAR.set("outer%d" % c["n"])
        ctx = contextvars.copy_context()
        ctx.run(VAR.set, "ctx%d" % i)
        how = c["how"]
        b = body(i, c)
        if how == "create":
            t = asyncio.create_task(b)
        elif how == "loop":
            t = loop.create_task(b)
        elif how == "ensure":
            t = asyncio.ensure_future(b)
        elif how == "context":
            t = asyncio.create_task(b, context=ctx)
        elif how == "name":
            t = asyncio.create_task(b, name="task%d" % i)
        elif how == "gather":
            return (await asyncio.gather(b))[0]
        elif how == "wait_for":
            return await asyncio.wait_for(b, 1.5)
        else:
            async with asyncio.TaskGroup() as g:
                t = g.create_task(b, **({"context": ctx, "name": "g%d" % i} if how == "group_context" else {}))
                if c["cancel"] is not None:
                    await asyncio.sleep(c["cancel"] + 0.5)
                    t.cancel()
            return t.result() if not t.cancelled() else "cancelled"
        if c["cancel"] is not None:
            await asyncio.sleep(c["cancel"] + 0.5)
            t.cancel()
        return (await t, ctx[VAR])

    for i, c in enumerate(spec["children"]):
        try:
            r = await one(i, c)
            log.append((i, "ok", r, now()))
        except CancelledError:
            log.append((i, "cancelled", now()))
        except ExceptionGroup as g:
            log.append((i, "group", [repr(e) for e in g.exceptions], now()))
        except (Boom, TimeoutError) as e:
            log.append((i, repr(e), now()))
    if smart:
        loop.set_task_factory(None)


SUBS = [
    Sub("history", history_strategy, history_run,
        "a shielded waiter was cancelled before the work ended and another waiter got its outcome",
        quick=2000, thorough=20000, shards=4),
    Sub("factory", factory_strategy, factory_run,
        "a child task with a name, a context or in a group", quick=400, thorough=4000),
]
