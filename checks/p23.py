"""P23: generated histories of task creations, dropped references, garbage collections, cancellations and failures, judged against the outcome of each awaitable by itself: property-based testing with an invariant oracle"""
import asyncio
import gc
import sys
import weakref

import a_sync

from .common import *

KINDS = ["coroutine", "coroutine", "coroutine", "task", "future", "object", "async future", "dual function", "gather"]
EXC = [lambda: Boom(1), lambda: ValueError("v"), lambda: RuntimeError("r"), lambda: NotImplementedError("n"), lambda: KeyError("k"), lambda: StopAsyncIteration(2), lambda: TimeoutError()]


class Token:
    """A result whose lifetime is watched."""

    def __init__(self, n):
        self.n = n


class Obj:
    def __init__(self, coro):
        self.coro = coro

    def __await__(self):
        return self.coro.__await__()


def strategy():
    create = rec(op=st.just("create"), kind=st.sampled_from(KINDS), name=st.sampled_from(["", "", "n", "näme {x}", "0"]), skip=st.booleans(), log=st.sampled_from([True, True, False]),
                 hold=st.booleans(), wait=st.sampled_from(["sleep", "sleep", "weak", "weak", "none"]), d=small, yields=tiny, fail=weighted((3, st.none()), (1, st.integers(0, len(EXC) - 1))))
    op = weighted((4, create), (2, rec(op=st.just("gc"))), (2, rec(op=st.just("sleep"), d=small, yields=tiny)), (1, rec(op=st.just("cancel"), i=small)),
                  (1, rec(op=st.just("drop"), i=small)))
    return rec(ops=st.lists(op, min_size=1, max_size=12))


class Made:
    pass


async def main(spec, case):
    loop = asyncio.get_running_loop()
    made = []
    finished = []
    started = []
    unraisable = []
    old_hook = sys.unraisablehook
    sys.unraisablehook = lambda u: unraisable.append("%s: %s" % (u.exc_type.__name__, u.exc_value))
    released = []

    async def body(c, n):
        started.append(n)
        if c["wait"] == "weak":
            # only this coroutine refers to the future
            fut = loop.create_future()
            ref = weakref.ref(fut)

            def fire():
                f = ref()
                if f is not None and not f.done():
                    f.set_result(None)
            loop.call_later(c["d"] + 1, fire)
            await fut
            del fut
        elif c["wait"] == "sleep":
            await asyncio.sleep(c["d"])
        await spin(c["yields"])
        finished.append(n)
        if c["fail"] is not None:
            raise EXC[c["fail"]]()
        t = Token(n)
        released.append((n, weakref.ref(t)))
        return t

    def create(c):
        n = len(made)
        m = Made()
        m.spec, m.n, m.at = c, n, now()
        m.cancelled = False
        co = body(c, n)
        k = c["kind"]
        m.owner = None
        if k == "task":
            x = asyncio.ensure_future(co)
            m.owner = x
        elif k == "object":
            x = Obj(co)
        elif k == "async future":
            x = a_sync.ASyncFuture(co)
        elif k == "dual function":
            co.close()

            @a_sync.a_sync
            async def f():
                return await body(c, n)
            x = f()
        elif k == "gather":
            x = asyncio.gather(co)
        elif k == "future":
            co.close()
            x = loop.create_future()

            def finish(x=x):
                finished.append(n)
                if x.done():
                    return
                if c["fail"] is not None:
                    x.set_exception(EXC[c["fail"]]())
                else:
                    t = Token(n)
                    released.append((n, weakref.ref(t)))
                    x.set_result(t)
            started.append(n)
            loop.call_later(c["d"], finish)
        else:
            x = co
        kw = {}
        if c["name"]:
            kw["name"] = c["name"]
        if c["skip"]:
            kw["skip_gc_until_done"] = True
        if not c["log"]:
            kw["log_destroy_pending"] = False
        m.arg = x if k in ("task", "future", "gather") else None
        t = a_sync.create_task(x, **kw)
        require(isinstance(t, asyncio.Task), "create_task gave a %s", type(t))
        if c["name"]:
            require(t.get_name() == c["name"], "the task is called %r, not %r", t.get_name(), c["name"])
        m.task = t if c["hold"] else None
        m.ref = weakref.ref(t)
        m.owner = None
        if not c["hold"]:
            m.arg = None
        made.append(m)

    try:
        for op in spec["ops"]:
            if op["op"] == "create":
                create(op)
            elif op["op"] == "gc":
                gc.collect()
            elif op["op"] == "sleep":
                await delay(op["d"], op["yields"])
            elif made:
                m = made[op["i"] % len(made)]
                if op["op"] == "drop":
                    m.task = m.arg = None
                else:
                    t = m.ref()
                    if t is not None and not t.done():
                        m.cancelled = t.cancel() or m.cancelled
                    del t
        gc.collect()
        await asyncio.sleep(20)
        gc.collect()
        await asyncio.sleep(20)
        weak_survivors = 0
        for m in made:
            c = m.spec
            what = "the task of a %s%s" % (c["kind"], " kept alive" if c["skip"] else "")
            if m.task is not None:
                require(m.task.done(), "%s never finished", what)
                o = outcome(m.task)
                if m.cancelled:
                    require(o[0] == "cancelled" or finished.count(m.n), "a cancelled task gave %r", o)
                    continue
                if c["kind"] == "gather" and o[0] == "ok":
                    require(type(o[1]) is list and len(o[1]) == 1, "%s gave %r", what, o)
                    o = "ok", o[1][0]
                if c["fail"] is None:
                    require(o[0] == "ok" and isinstance(o[1], Token) and o[1].n == m.n, "%s gave %r", what, o)
                else:
                    e = EXC[c["fail"]]()
                    wraps = isinstance(e, RuntimeError) and c["kind"] not in ("coroutine", "dual function")
                    if wraps:
                        # documented: raised with additional context
                        require(o[0] == "raise" and isinstance(o[1], RuntimeError) and (p := o[1].args) and (
                            type(p[0]) is type(e) and p[0].args == e.args or type(o[1]) is type(e) and p == e.args), "%s gave %r instead of %r", what, o, e)
                    else:
                        require(o[0] == "raise" and type(o[1]) is type(e) and o[1].args == e.args, "%s gave %r instead of %r", what, o, e)
                require(finished.count(m.n) == 1, "%s ran %d times", what, finished.count(m.n))
            elif c["skip"] and not m.cancelled:
                require(finished.count(m.n) == 1, "%s, of which nobody holds a reference, was lost", what)
                if c["wait"] == "weak" and c["kind"] != "future":
                    weak_survivors += 1
            require(started.count(m.n) <= 1 and finished.count(m.n) <= 1, "%s ran %d times", what, finished.count(m.n))
        pending = [u for u in loop.unhandled if "destroyed but it is pending" in u.get("message", "") and u.get("task") is not None]
        for u in pending:
            quiet = [m.spec["name"] for m in made if not m.spec["log"] and m.spec["name"]]
            loud = [m.spec["name"] for m in made if m.spec["log"] and m.spec["name"]]
            require(u["task"].get_name() not in quiet or u["task"].get_name() in loud, "a dropped task that asked for silence was reported")
        # finished tasks are let go of
        persisted = {m.n for m in made if m.spec["skip"] and m.task is None}
        loop.unhandled.clear()
        pending = u = None
        a_sync.create_task(spin(1))
        await spin(3)
        a_sync.create_task(spin(1))
        await spin(3)
        loop.unhandled.clear()
        gc.collect()
        for n, ref in released:
            if n in persisted:
                require(ref() is None, "the result of a finished task is still held although nobody asked to")
        require(not unraisable, "create_task reported %s", unraisable)
        case.mark(weak_survivors > 0 or sum(m.task is not None and m.spec["fail"] is not None for m in made) > 0 and len(made) > 2)
        case.label(*{m.spec["kind"] for m in made})
        if weak_survivors:
            case.label("survivor")
        if persisted:
            case.label("persisted")
    finally:
        sys.unraisablehook = old_hook


def run_case(spec, case):
    run(main, spec, case)


SUBS = [Sub("tasks", strategy, run_case, "a dropped task survived on the keep-alive option, or one of three tasks or more failed", quick=6000, thorough=100000, shards=4)]
