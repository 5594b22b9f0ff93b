"""P25: generated awaitables with truth values, latencies and failures given to the async any and all, compared with the built-ins over the results in completion order in virtual time: model-based property testing"""
import asyncio

import a_sync
from a_sync import utils

from .common import *
from .p21 import Custom
from .p24 import same_exc


class Truth:
    """A result whose truth value is counted or fails."""

    def __init__(self, v):
        self.v = v

    def __bool__(self):
        if self.v is None:
            raise Boom(50)
        return self.v


VALS = [True, False, 0, 1, "", "x", None, [], [0], 0.0, Boom(1), Truth(True), Truth(False), Truth(None)]
EXC = [lambda: Boom(1), lambda: ValueError("v"), lambda: RuntimeError("r"), lambda: KeyError("k"), lambda: asyncio.CancelledError(), lambda: TimeoutError("t"), lambda: NotImplementedError()]
KINDS = ["coroutine", "coroutine", "task", "future", "object", "async future", "done future", "dual function", "smart task"]


def strategy():
    item = rec(kind=st.sampled_from(KINDS), d=st.integers(0, 5), yields=tiny, v=st.integers(0, len(VALS) - 1), bias=st.sampled_from([None, True, False]),
               fail=weighted((6, st.none()), (1, st.integers(0, len(EXC) - 1))))
    return rec(fn=st.sampled_from(["any", "all"]), items=lists(item, 0, 6, 40), dup=st.sampled_from([None, None, None, 0, 1]), via=st.booleans(), cancel=maybe(st.integers(0, 5), 8))


def value(it, fn):
    if it["bias"] is None:
        return VALS[it["v"]]
    # mostly undecided results make the later ones matter
    v = VALS[it["v"]]
    if isinstance(v, Truth) and v.v is None:
        return v
    undecided = fn == "all"
    return v if bool(v) is undecided else ([1] if undecided else ())


async def body(it, n, fn, log):
    log.append((n, "start", now()))
    try:
        if it["d"]:
            await asyncio.sleep(it["d"])
        await spin(it["yields"])
    except asyncio.CancelledError:
        log.append((n, "cancelled", now()))
        raise
    log.append((n, "end", now()))
    if it["fail"] is not None:
        raise EXC[it["fail"]]()
    return value(it, fn)


def make(it, n, fn, log):
    loop = asyncio.get_running_loop()
    k = it["kind"]
    if k in ("future", "done future"):
        fut = loop.create_future()

        def finish():
            if fut.cancelled():
                log.append((n, "cancelled", now()))
                return
            log.append((n, "end", now()))
            if it["fail"] is None:
                fut.set_result(value(it, fn))
            elif it["fail"] == 4:
                fut.cancel()
            else:
                fut.set_exception(EXC[it["fail"]]())
        log.append((n, "start", now()))
        if k == "done future":
            finish()
        else:
            loop.call_later(it["d"], finish)
        return fut
    if k == "dual function":
        @a_sync.a_sync
        async def f():
            return await body(it, n, fn, log)
        return f()
    c = body(it, n, fn, log)
    if k == "task":
        return asyncio.ensure_future(c)
    if k == "object":
        return Custom(c)
    if k == "async future":
        return a_sync.ASyncFuture(c)
    if k == "smart task":
        from a_sync._smart import SmartTask
        return SmartTask(c, loop=loop)
    return c


async def main(spec, case):
    fn = spec["fn"]
    items = spec["items"]
    log = []
    t0 = now()
    aws = [make(it, n, fn, log) for n, it in enumerate(items)]
    args = list(aws)
    if spec["dup"] is not None and aws and items[spec["dup"] % len(aws)]["kind"] not in ("object", "async future", "coroutine", "dual function"):
        args.append(aws[spec["dup"] % len(aws)])
    f = getattr(a_sync if spec["via"] else utils, fn)
    cost = [0 if it["kind"] == "done future" else it["d"] for it in items]
    # the model: results in completion order; those of one moment in any order
    decide = fn == "any"
    want = set()
    at = None
    for t in sorted(set(cost)):
        now_ = [n for n in range(len(items)) if cost[n] == t]
        for n in now_:
            if items[n]["fail"] is not None:
                want.add(("raise", n))
                continue
            v = value(items[n], fn)
            if isinstance(v, Truth) and v.v is None:
                want.add(("raise", n))
            elif bool(v) is decide:
                want.add(("ok", decide))
        if want:
            at = t
            break
    if not want:
        want.add(("ok", not decide))
        at = max(cost, default=0)
    what = "%s of %s" % (fn, [(it["d"], EXC[it["fail"]]() if it["fail"] is not None else value(it, fn)) for it in items])
    try:
        got = "ok", await f(*args)
    except BaseException as e:
        got = "raise", e
    took = now() - t0
    if got[0] == "ok":
        require(type(got[1]) is bool, "%s gave a %s", what, type(got[1]))
        require(("ok", got[1]) in want, "%s gave %r, expected one of %r", what, got, want)
    else:
        excs = [Boom(50) if items[n]["fail"] is None else EXC[items[n]["fail"]]() for how, n in want if how == "raise"]
        require(any(same_exc(got[1], e) for e in excs), "%s raised %r, expected one of %r", what, got[1], excs or want)
    require(took == at, "%s was decided at %s, not at %s", what, took, at)
    # what remains is cancelled by a decision
    await asyncio.sleep(20)
    decided = got == ("ok", decide)
    for n, it in enumerate(items):
        ev = [e[1] for e in log if e[0] == n]
        require(ev.count("end") <= 1 and ev.count("start") <= 1, "awaitable %d of %s ran more than once", n, what)
        if decided and cost[n] > at:
            require("end" not in ev, "%s was decided at %s but the awaitable that takes %s ran on", what, at, cost[n])
            if it["kind"] in ("task", "future", "smart task"):
                require(aws[n].cancelled(), "%s was decided but a remaining %s was not cancelled", what, it["kind"])
        elif not decided and got[0] == "ok" or cost[n] < at:
            require("end" in ev, "awaitable %d of %s did not finish", n, what)
    case.label(fn, got[0] if got[0] == "raise" else str(got[1]), "decided" if decided else "undecided")
    case.mark(len(set(cost)) > 1 and (decided and max(cost) > at or got[0] == "raise" or len(items) > 2))


def run_case(spec, case):
    run(main, spec, case)


SUBS = [Sub("truth", strategy, run_case, "awaitables of different latency, decided before the last, failing, or three or more", quick=12000, thorough=200000, shards=4)]
