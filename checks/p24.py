"""P24: generated async iterators with latencies, failures and endless tails merged or exhausted by consumers that pause, stop or are cancelled, judged against a simulated merge in virtual time: model-based property testing"""
import asyncio
import gc

import a_sync
from a_sync import ASyncIterator
from a_sync.utils import as_yielded, exhaust_iterator, exhaust_iterators

from .common import *
from .dual import Later

ONE = object()

VALS = [0, None, False, "", [], Boom(3), ONE, 1, (), {}, asyncio.CancelledError(), ..., Later()]
EXC = [lambda: Boom(1), lambda: ValueError("v"), lambda: Boom2(4), lambda: KeyError("k"), lambda: RuntimeError("r"), lambda: OSError(2, "o")]
KINDS = ["generator", "generator", "iterator", "wrapped", "sized", "iterable"]


def iterators(endless):
    return lists(rec(kind=st.sampled_from(KINDS), items=lists(st.tuples(weighted((2, tiny), (1, small)), st.integers(0, len(VALS) - 1)).map(list), 0, 6, 25),
                        fail=weighted((3, st.none()), (1, st.integers(0, len(EXC)))) if not endless else st.none(),
                        fail_d=tiny, end_d=tiny, endless=st.booleans() if endless else st.just(False), yields=tiny), 0, 4, 10)


class Log:
    """What every iterator produced: [(time, iterator, value)]."""

    def __init__(self):
        self.made = []
        self.t0 = now()
        self.ended = {}
        self.failed = {}


def produce(spec, i, log):
    """An async iterator as described."""
    async def gen():
        for d, v in spec["items"]:
            await delay(d, spec["yields"])
            log.made.append((now() - log.t0, i, VALS[v]))
            yield VALS[v]
        k = 0
        while spec["endless"]:
            await asyncio.sleep(1)
            k += 1
            log.made.append((now() - log.t0, i, k))
            yield k
        if spec["fail"] is not None:
            await delay(spec["fail_d"])
            log.failed[i] = now() - log.t0
            if spec["fail"] == len(EXC):
                raise asyncio.CancelledError
            raise EXC[spec["fail"]]()
        await delay(spec["end_d"])
        log.ended[i] = now() - log.t0
    kind = spec["kind"]
    if kind == "generator":
        return gen()
    if kind == "wrapped":
        return ASyncIterator(gen())

    class It:
        def __init__(self):
            self.g = gen()

        async def __anext__(self):
            return await self.g.__anext__()

        def __aiter__(self):
            return self
        if kind == "sized":
            def __len__(self):
                return 0
        if kind == "iterable":
            def __aiter__(self):  # noqa
                return self.g
            __anext__ = None
    return It()


def plan(spec):
    """[(availability time, iterator, value)] of everything the finite iterators give, and the time each one ends or fails."""
    out, ends = [], []
    for i, s in enumerate(spec):
        t = 0
        for d, v in s["items"]:
            t += d
            out.append((t, i, VALS[v]))
        ends.append(t + (s["fail_d"] if s["fail"] is not None else s["end_d"]))
    out.sort(key=lambda x: x[0])
    return out, ends


def is_shuffle(got, seqs):
    """Whether got is an interleaving of the sequences (prefixes allowed), by identity."""
    states = {tuple(0 for _ in seqs)}
    for g in got:
        nxt = set()
        for s in states:
            for i, seq in enumerate(seqs):
                if s[i] < len(seq) and seq[s[i]] is g:
                    nxt.add(s[:i] + (s[i] + 1,) + s[i + 1:])
        states = nxt
        if not states:
            return False
    return True


def same_multiset(a, b):
    b = list(b)
    for x in a:
        for j, y in enumerate(b):
            if x is y:
                del b[j]
                break
        else:
            return False
    return not b


def strategy():
    return rec(its=iterators(False), pauses=st.lists(tiny, max_size=4), start=tiny)


def same_exc(a, b):
    return type(a) is type(b) and (a.args == b.args or isinstance(a, asyncio.CancelledError))


async def merge(spec, case):
    log = Log()
    its = spec["its"]
    merged = (a_sync.as_yielded if len(its) % 2 else as_yielded)(*[produce(s, i, log) for i, s in enumerate(its)])
    pauses = spec["pauses"]
    got = []
    failure = None
    try:
        async for x in merged:
            got.append((now() - log.t0, x))
            if pauses:
                await delay(pauses[len(got) % len(pauses)])
    except BaseException as e:
        failure = e
    end = now() - log.t0
    want, ends = plan(its)
    failing = [i for i, s in enumerate(its) if s["fail"] is not None]
    values = [x for _, x in got]
    seqs = [[VALS[v] for _, v in s["items"]] for s in its]
    require(is_shuffle(values, seqs), "merging %r gave %r", seqs, values)
    if failing:
        possible = [EXC[its[i]["fail"]]() if its[i]["fail"] < len(EXC) else asyncio.CancelledError() for i in failing]
        require(failure is not None, "the failure of an iterator was swallowed: merging %r gave %r", seqs, values)
        require(any(same_exc(failure, p) for p in possible), "merging raised %r, the iterators raise %r", failure, possible)
        first = min(ends[i] for i in failing)
        must = [w for w in want if w[0] < first]
        require(len(values) >= len(must), "merging raised a failure but lost items that came before it: got %r, by then there were %r", values, [w[2] for w in must])
        case.label("failure")
    else:
        require(failure is None, "merging raised %r", failure)
        require(len(values) == len(want), "merging %r gave %r", seqs, values)
    # in the order they became available, when they became available
    k = 0
    ready = 0
    while k < len(values):
        t = want[k][0]
        group = [w[2] for w in want if w[0] == t]
        part = values[k:k + len(group)]
        require(len(part) < len(group) and failing or same_multiset(part, group), "merging %r gave %r, available were first %r", seqs, values, group)
        for j in range(len(part)):
            at = max(t, ready)
            require(got[k][0] == at, "an item available at %s was given at %s instead of %s", t, got[k][0], at)
            k += 1
            ready = at + (pauses[k % len(pauses)] if pauses else 0)
    if not failing:
        require(end == max([ready if got else 0] + ends), "merging ended at %s, the iterators at %r", end, ends)
    else:
        require(end <= max([ready if got else 0] + ends), "merging failed at %s, the iterators ended by %r", end, ends)
    try:
        x = await merged.__anext__()
        require(False, "after its end a merge gave %r", x)
    except StopAsyncIteration:
        pass
    # all of it was asked for once
    n = len(log.made)
    await asyncio.sleep(30)
    require(failing or len(log.made) == n == len(want), "the iterators were consumed after the end")
    case.mark(sum(bool(s["items"]) for s in its) > 1 and len(values) > 2)
    case.label("%d iterators" % len(its))


def stops():
    return rec(its=iterators(True), pauses=st.lists(tiny, max_size=3), how=st.sampled_from(["aclose", "break", "cancel", "cancel", "raise"]), n=st.integers(0, 6), at=st.integers(0, 6), half=st.booleans())


async def stop(spec, case):
    log = Log()
    its = spec["its"]
    pauses = spec["pauses"]
    got = []

    async def consume():
        merged = as_yielded(*[produce(s, i, log) for i, s in enumerate(its)])
        if spec["how"] == "aclose" and spec["n"] == 0:
            await merged.aclose()
            return
        async for x in merged:
            got.append(x)
            if spec["how"] != "cancel" and len(got) > spec["n"]:
                if spec["how"] == "aclose":
                    await merged.aclose()
                    return
                if spec["how"] == "raise":
                    raise Boom(5)
                break
            if pauses:
                await delay(pauses[len(got) % len(pauses)])
        return

    t = asyncio.ensure_future(consume())
    if spec["how"] == "cancel":
        await asyncio.sleep(spec["at"] + 0.5 * spec["half"])
        early = not t.done()
        t.cancel()
    try:
        await asyncio.wait_for(asyncio.shield(t), 200)
    except asyncio.CancelledError:
        require(spec["how"] == "cancel", "the consumer was cancelled")
    except asyncio.TimeoutError:
        pass
    except Boom:
        pass
    if not t.done():
        # nothing to stop: all gave too little, some endlessly little
        raise HarnessError("endless")
    del t
    await spin(10)
    gc.collect()
    await spin(10)
    require(is_shuffle(got, [[VALS[v] for _, v in s["items"]] + [x[2] for x in log.made if x[1] == i][len(s["items"]):] for i, s in enumerate(its)]), "merging gave %r", got)
    n = len(log.made)
    ended = len(log.ended)
    await asyncio.sleep(40)
    require(len(log.made) == n, "after the consumer %s the iterators went on: %d more items", {"cancel": "was cancelled", "raise": "failed"}.get(spec["how"], "left"), len(log.made) - n)
    case.label(spec["how"])
    case.mark(any(s["endless"] for s in its) and ended < len(its) and len(got) > 0)


def exhausts():
    return rec(its=iterators(False), how=st.sampled_from(["one", "one queue", "many", "many queue", "many join"]), queue=st.sampled_from(["asyncio", "a_sync"]), take=tiny)


async def exhaust(spec, case):
    log = Log()
    how = spec["how"]
    its = spec["its"]
    if how.startswith("one"):
        its = its[:1]
        if not its:
            return
    sources = [produce(s, i, log) for i, s in enumerate(its)]
    q = None
    if "queue" in how or "join" in how:
        q = asyncio.Queue() if spec["queue"] == "asyncio" else a_sync.Queue()
    want, ends = plan(its)
    failing = [i for i, s in enumerate(its) if s["fail"] is not None]
    taken = []

    async def worker():
        while True:
            x = await q.get()
            await delay(spec["take"])
            taken.append((now() - log.t0, x))
            q.task_done()
    w = asyncio.ensure_future(worker()) if "join" in how else None
    failure = None
    try:
        if how.startswith("one"):
            r = await (exhaust_iterator(sources[0]) if q is None else exhaust_iterator(sources[0], queue=q))
        elif how == "many":
            r = await exhaust_iterators(sources)
        else:
            r = await exhaust_iterators(sources, queue=q, join="join" in how)
        require(r is None, "exhausting gave %r", r)
    except BaseException as e:
        if isinstance(e, Violation):
            raise
        failure = e
    end = now() - log.t0
    if w is not None:
        if failure is not None:
            await asyncio.sleep(3000)
        w.cancel()
    seqs = [[VALS[v] for _, v in s["items"]] for s in its]
    if failing:
        possible = [EXC[its[i]["fail"]]() if its[i]["fail"] < len(EXC) else asyncio.CancelledError() for i in failing]
        require(failure is not None and any(same_exc(failure, p) for p in possible), "exhausting gave %r, the iterators raise %r", failure, possible)
        case.label("failure")
    else:
        require(failure is None, "exhausting raised %r", failure)
        require(end >= max(ends, default=0), "exhausting returned at %s, the iterators end at %r", end, ends)
    # the iterators that do not fail are consumed to their end
    await asyncio.sleep(3000)
    for i in range(len(its)):
        if i not in failing:
            require(i in log.ended, "an iterator was not exhausted")
    if q is not None:
        items = [x for _, x in taken]
        while not q.empty():
            items.append(q.get_nowait())
        if items and type(items[-1]).__name__ == "_Done":
            items.pop()
        require(len(items) == len(want) and is_shuffle(items, seqs), "exhausting %r put %r in the queue", seqs, items)
        if "join" in how and not failing:
            require(not taken or end == taken[-1][0], "exhausting with join returned at %s, the last item was processed at %s", end, taken[-1][0] if taken else None)
    case.label(how)
    case.mark(len(want) > 2 and len(its) > 1)


def run_merge(spec, case):
    run(merge, spec, case)


def run_stop(spec, case):
    run(stop, spec, case)


def run_exhaust(spec, case):
    run(exhaust, spec, case)


SUBS = [
    Sub("merge", strategy, run_merge, "two iterators with items and three items merged", quick=6000, thorough=120000, shards=3),
    Sub("stop", stops, run_stop, "an endless iterator was left after an item was consumed", quick=4000, thorough=60000, shards=3),
    Sub("exhaust", exhausts, run_exhaust, "two iterators with three items together", quick=3000, thorough=60000, shards=2),
]
