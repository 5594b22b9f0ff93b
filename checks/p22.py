"""P22: generated awaitables and mappings iterated by completion in both styles with slow consumers, timeouts and failures, differentially compared with asyncio.as_completed over twin awaitables in virtual time: property-based differential testing"""
import asyncio
import io

import a_sync
from a_sync import TaskMapping
from a_sync.iter import ASyncIterator

from .common import *
from . import p21
from .p21 import EXC, KEYS, VALS, same_exc, same_result

MAPS = ["dict", "dict", "custom", "task mapping"]


def strategy():
    item = rec(kind=st.sampled_from([k for k in p21.KINDS if k != "done future"] + ["done future"]), d=st.integers(0, 6), v=st.integers(0, len(VALS) - 1),
               fail=weighted((4, st.none()), (1, st.integers(0, len(EXC) - 1))), yields=tiny)
    return rec(items=lists(item, 0, 6, 40), keys=st.permutations(list(range(len(KEYS)))).map(list), mapping=st.booleans(),
               map=st.sampled_from(MAPS), rex=st.booleans(), tqdm=st.sampled_from([False, False, True]), aiter=st.sampled_from([False, True]),
               timeout=weighted((3, st.none()), (2, st.sampled_from([0.25, 0.75, 1.25, 2.75, 3.75, 4.25, 10, 0]))), pauses=st.lists(tiny, max_size=4), stop=maybe(small, 4),
               container=st.sampled_from(["list", "tuple", "generator", "set"]), first=tiny, kw=st.booleans())


async def consume(it, spec, aiter, t0, limit):
    """[(time, outcome)] for each step until the end, a timeout or the limit."""
    out = []
    pauses = spec["pauses"]

    async def pause():
        if pauses:
            await delay(pauses[len(out) % len(pauses)])
    if aiter:
        it = it.__aiter__()
        while limit is None or len(out) < limit:
            try:
                r = await it.__anext__()
                out.append((now() - t0, "ok", r))
            except StopAsyncIteration:
                break
            except (Exception, asyncio.CancelledError) as e:
                out.append((now() - t0, "raise", e))
                break
            await pause()
    else:
        it = iter(it)
        while limit is None or len(out) < limit:
            try:
                c = next(it)
            except StopIteration:
                break
            try:
                r = await c
                out.append((now() - t0, "ok", r))
            except (Exception, asyncio.CancelledError) as e:
                out.append((now() - t0, "raise", e))
            await pause()
        if hasattr(it, "close"):
            it.close()
    return out


async def twin(item, n):
    if item["kind"] != "done future":
        await delay(item["d"], item["yields"])
    if item["fail"] is not None:
        raise EXC[item["fail"]]()
    return VALS[item["v"]]


async def main(spec, case):
    items = spec["items"]
    timeout = spec["timeout"]
    if timeout == 0:
        items = [dict(it, d=it["d"] + 1, kind="coroutine" if it["kind"] == "done future" else it["kind"]) for it in items]
    mapping = spec["mapping"]
    if mapping and spec["map"] == "task mapping":
        items = [dict(it, kind="coroutine") for it in items]
    if spec["aiter"] and not spec["rex"]:
        # the first failure ends the iteration: nothing else may finish together with it
        items = [it if it["fail"] is None else dict(it, d=it["d"] + 0.5, kind="future" if it["kind"] == "done future" else it["kind"]) for it in items]
    limit = spec["stop"]
    log = []
    kw = {}
    if timeout is not None or spec["kw"]:
        kw["timeout"] = timeout
    if spec["rex"] or spec["kw"]:
        kw["return_exceptions"] = spec["rex"]
    if spec["aiter"] or spec["kw"]:
        kw["aiter"] = spec["aiter"]
    if spec["tqdm"]:
        kw.update(tqdm=True, file=io.StringIO(), desc="d")
    keys = ([KEYS[i] for i in spec["keys"]] + ["key %d" % i for i in range(len(items))])[:len(items)]

    # the real thing
    t0 = now()
    if mapping:
        if spec["map"] == "task mapping":
            by_key = dict(zip([repr(k) for k in keys], range(len(keys))))

            async def run_key(k):
                return await p21.body(items[by_key[repr(k)]], by_key[repr(k)], log, t0)
            m = TaskMapping(run_key)
            for k in keys:
                m[k]
        else:
            pairs = list(zip(keys, [p21.make(it, n, log, t0) for n, it in enumerate(items)]))
            m = dict(pairs) if spec["map"] == "dict" else p21.Map(pairs)
        it = a_sync.as_completed(m, **kw)
    else:
        aws = [p21.make(it, n, log, t0) for n, it in enumerate(items)]
        fs = {"list": list, "tuple": tuple, "set": set, "generator": lambda x: (a for a in x)}["list" if spec["tqdm"] else spec["container"]](aws)
        it = a_sync.as_completed(fs, **kw)
    if spec["aiter"]:
        require(isinstance(it, ASyncIterator), "as_completed(aiter=True) gave a %s", type(it))
    await delay(0)
    got = await consume(it, spec, spec["aiter"], t0, limit)
    await asyncio.sleep(60)
    runs = [log.count(n) for n in range(len(items))]

    # its model: asyncio's own over twins that carry their index
    async def carry(n, item):
        try:
            return n, "ok", await twin(item, n)
        except (Exception, asyncio.CancelledError) as e:
            return n, "raise", e
    t1 = now()
    # the items that start by themselves are started before the iteration
    started = [carry(n, item) for n, item in enumerate(items)]
    for n, item in enumerate(items):
        if item["kind"] in ("task", "smart task", "future", "done future") or mapping and spec["map"] == "task mapping":
            started[n] = asyncio.ensure_future(started[n])
    model = []
    want = []
    pauses = spec["pauses"]
    i = 0
    for c in asyncio.as_completed(started, timeout=timeout):
        if limit is not None and i >= limit:
            if asyncio.iscoroutine(c):
                c.close()
            break
        i += 1
        try:
            n, how, r = await c
        except asyncio.TimeoutError as e:
            want.append((now() - t1, "timeout", None, e))
            if spec["aiter"]:
                break
        else:
            want.append((now() - t1, how, n, r))
            if how == "raise" and spec["aiter"] and not spec["rex"]:
                break
        if pauses:
            await delay(pauses[i % len(pauses)])
    what = "as_completed over %s%s%s" % ("a mapping" if mapping else "awaitables", ", async style" if spec["aiter"] else "", " with a progress bar" if spec["tqdm"] else "")
    require(len(got) == len(want), "%s gave %r, asyncio gives %r", what, got, want)
    # completions of the same moment may come in any order
    finish = [0 if it["kind"] == "done future" else it["d"] for it in items]

    def value_of(n, how, r):
        if mapping and (how == "ok" or spec["rex"]):
            return "ok", (keys[n], r)
        if spec["rex"]:
            return "ok", r
        return how, r
    left = list(range(len(items)))
    for (t, how, r), w in zip(got, want):
        require(t == w[0], "%s gave %r at %s, asyncio at %s", what, r, t, w[0])
        if w[1] == "timeout":
            require(how == "raise" and isinstance(r, asyncio.TimeoutError) and not same_exc(r, EXC[5]()), "%s gave %r instead of a timeout", what, (how, r))
            case.label("timeout")
            continue
        # any item that finished together with asyncio's choice will do
        ok = False
        for n in left:
            if finish[n] != finish[w[2]]:
                continue
            res = ("raise", EXC[items[n]["fail"]]()) if items[n]["fail"] is not None else ("ok", VALS[items[n]["v"]])
            whow, wr = value_of(n, *res)
            if whow != how:
                continue
            if mapping and how == "ok":
                if not (type(r) is tuple and len(r) == 2 and type(r[0]) is type(wr[0]) and r[0] == wr[0] and same_result(r[1], wr[1])):
                    continue
            elif how == "ok":
                if not same_result(r, wr):
                    continue
            elif not same_exc(r, wr):
                continue
            ok = True
            left.remove(n)
            break
        require(ok, "%s gave %r, asyncio gives %r", what, got, want)
    if not (limit is not None and limit == 0):
        for n, c in enumerate(runs):
            require(c == 1, "%s ran awaitable %d %d times", what, n, c)
    case.label("mapping " + spec["map"] if mapping else spec["container"], "aiter" if spec["aiter"] else "iter")
    case.mark(len(got) > 1 and len(set(finish)) > 1)


def run_case(spec, case):
    run(main, spec, case)


SUBS = [Sub("completions", strategy, run_case, "two completions or more at different times", quick=12000, thorough=200000, shards=4)]
