"""P21: generated awaitables, kinds, latencies, failures and options gathered by position, by mapping and with a progress bar, compared with a sequential model in virtual time: model-based property testing"""
import asyncio
import collections
import io
import types

import a_sync
from a_sync import TaskMapping

from .common import *
from .dual import Later

KINDS = ["coroutine", "coroutine", "task", "future", "object", "async future", "done future", "smart task", "dual function"]
MAPS = ["dict", "dict", "ordered", "proxy", "user dict", "custom", "task mapping", "counter"]
EXC = [lambda: Boom(1), lambda: Boom(2), lambda: ValueError("v"), lambda: RuntimeError("r"), lambda: TimeoutError("t"), lambda: KeyError("k"), lambda: OSError(3, "o"), lambda: asyncio.CancelledError()]
CANCELLED = len(EXC) - 1
# bare floats and truthiness matter to exclusions
VALS = [0, 1, "", "x", None, [], [1], False, True, 2.5, (), KeyError("not raised"), Later()]
KEYS = ["k", "", 0, 1, 2, None, (1, 2), "mapping", 3.5, frozenset()]


def strategy():
    item = rec(kind=st.sampled_from(KINDS), d=small, v=st.integers(0, len(VALS) - 1), fail=weighted((4, st.none()), (1, st.integers(0, len(EXC) - 1))), yields=tiny)
    return rec(items=lists(item, 0, 6, 40), keys=st.permutations(list(range(len(KEYS)))).map(list), mapping=st.sampled_from(["no", "no", "yes", "yes"]),
               map=st.sampled_from(MAPS), rex=st.booleans(), tqdm=st.sampled_from([False, False, True]), exclude=st.sampled_from([None, None, "falsy", "all", "none", "odd truth", "exceptions", "raise"]),
               dup=st.sampled_from([None, None, None, 0, 1]), start=tiny, cancel=maybe(st.integers(0, 3), 6))


class Custom:
    def __init__(self, coro):
        self.coro = coro

    def __await__(self):
        return self.coro.__await__()


class Map(collections.abc.Mapping):
    def __init__(self, pairs):
        self.pairs = pairs

    def __getitem__(self, k):
        for a, b in self.pairs:
            if a == k:
                return b
        raise KeyError(k)

    def __iter__(self):
        return iter([k for k, _ in self.pairs])

    def __len__(self):
        return len(self.pairs)


def excluder(name, seen):
    def f(v):
        seen.append(v)
        if name == "falsy":
            return not v
        if name == "all":
            return 1
        if name == "none":
            return ""
        if name == "odd truth":
            return [v] if isinstance(v, str) else []
        if name == "exceptions":
            return isinstance(v, BaseException)
        raise Boom(77)
    return f


async def body(item, n, log, t0):
    log.append(n)
    await delay(item["d"], item["yields"])
    if item["fail"] is not None:
        raise EXC[item["fail"]]()
    return VALS[item["v"]]


def make(item, n, log, t0):
    k = item["kind"]
    c = body(item, n, log, t0)
    if k == "coroutine":
        return c
    if k == "task":
        return asyncio.ensure_future(c)
    if k == "object":
        return Custom(c)
    if k == "async future":
        return a_sync.ASyncFuture(c)
    if k == "smart task":
        from a_sync._smart import SmartTask
        return SmartTask(c, loop=asyncio.get_running_loop())
    if k == "dual function":
        c.close()

        @a_sync.a_sync
        async def f():
            return await body(item, n, log, t0)
        return f()
    c.close()
    fut = asyncio.get_running_loop().create_future()

    def finish():
        log.append(n)
        if fut.done():
            return
        if item["fail"] == CANCELLED:
            fut.cancel()
        elif item["fail"] is not None:
            fut.set_exception(EXC[item["fail"]]())
        else:
            fut.set_result(VALS[item["v"]])
    if k == "done future":
        finish()
    else:
        asyncio.get_running_loop().call_later(item["d"], finish)
    return fut


def cost(item):
    return 0 if item["kind"] == "done future" else item["d"]


def same_exc(a, b):
    if isinstance(b, asyncio.CancelledError):
        return isinstance(a, asyncio.CancelledError)
    return type(a) is type(b) and a.args == b.args


def same_result(g, w):
    if isinstance(w, BaseException):
        return same_exc(g, w)
    return g is w or type(g) is type(w) and g == w


async def main(spec, case):
    log = []
    t0 = now()
    items = spec["items"]
    mapping = spec["mapping"] == "yes"
    if spec["tqdm"] and spec["dup"] is not None or mapping:
        dup = None
    else:
        dup = spec["dup"]
    kw = {}
    if spec["rex"]:
        kw["return_exceptions"] = True
    seen = []
    if spec["exclude"]:
        kw["exclude_if"] = excluder(spec["exclude"], seen)
    if spec["tqdm"]:
        kw.update(tqdm=True, file=io.StringIO(), desc="d")
    index = list(range(len(items)))
    if mapping:
        keys = ([KEYS[i] for i in spec["keys"]] + ["key %d" % i for i in range(len(items))])[:len(items)]
        if spec["map"] == "task mapping":
            if any(it["kind"] != "coroutine" for it in items):
                items = [dict(it, kind="coroutine") for it in items]
            by_key = dict(zip([repr(k) for k in keys], range(len(keys))))

            async def run_key(k):
                return await body(items[by_key[repr(k)]], by_key[repr(k)], log, t0)
            m = TaskMapping(run_key)
            for k in keys:
                m[k]
        else:
            pairs = list(zip(keys, [make(it, n, log, t0) for n, it in enumerate(items)]))
            m = {"dict": dict, "ordered": collections.OrderedDict, "proxy": lambda p: types.MappingProxyType(dict(p)), "user dict": lambda p: collections.UserDict(dict(p)),
                 "custom": Map, "counter": lambda p: collections.defaultdict(list, p)}[spec["map"]](pairs)
        args = [m]
    else:
        args = [make(it, n, log, t0) for n, it in enumerate(items)]
        if dup is not None and args:
            args.append(args[dup % len(items)])
            index.append(dup % len(items))
    stopped = None
    try:
        if spec["cancel"] is None:
            got = "ok", await a_sync.gather(*args, **kw)
        else:
            gathering = asyncio.ensure_future(a_sync.gather(*args, **kw))
            done, waiting = await asyncio.wait([gathering], timeout=spec["cancel"] + 0.5)
            if waiting:
                stopped = now() - t0
                gathering.cancel()
            got = "ok", await gathering
    except (Exception, asyncio.CancelledError) as e:
        got = "raise", e
    took = now() - t0
    plain = [EXC[items[i]["fail"]]() if items[i]["fail"] is not None else VALS[items[i]["v"]] for i in index]
    failing = [i for i in index if items[i]["fail"] is not None]
    what = "gather of %s" % ("a mapping" if mapping else "awaitables") + (" with a progress bar" if spec["tqdm"] else "")
    case.label(spec["map"] if mapping else "positional", *(["tqdm"] if spec["tqdm"] else []), *(["rex"] if spec["rex"] else []), *([spec["exclude"]] if spec["exclude"] else []))
    if stopped is not None:
        require(isinstance(got[1], asyncio.CancelledError) and got[0] == "raise" and took == stopped, "%s that was cancelled after %s gave %r after %s", what, stopped, got, took)
        until = min([cost(items[i]) for i in failing], default=99) if not spec["rex"] else max([cost(items[i]) for i in index], default=0)
        require(until > stopped or spec["exclude"] == "raise", "%s was still unfinished after %s", what, stopped)
        await asyncio.sleep(10)
        for i in set(index):
            require(log.count(i) <= 1, "after a cancellation awaitable %d ran %d times", i, log.count(i))
        case.label("cancelled")
        case.mark(len(index) > 1)
        return
    if failing and not spec["rex"]:
        first = min(cost(items[i]) for i in failing)
        want = [EXC[items[i]["fail"]]() for i in failing if cost(items[i]) == first]
        excl_first = spec["exclude"] == "raise" and any(cost(items[i]) <= first for i in index if items[i]["fail"] is None)
        if mapping and excl_first and got[0] == "raise" and same_exc(got[1], Boom(77)):
            return
        require(got[0] == "raise" and any(same_exc(got[1], w) for w in want), "%s gave %r, the first failure is %r", what, got, want)
        require(took == first or excl_first, "%s raised after %s, the first failure came after %s", what, took, first)
        # the other awaitables are not disturbed
        await asyncio.sleep(10)
        for i in set(index):
            require(log.count(i) == 1, "after a failure awaitable %d ran %d times", i, log.count(i))
        case.label("failed")
        case.mark(len(index) > 2)
        return
    if spec["exclude"] == "raise" and index:
        require(got[0] == "raise" and same_exc(got[1], Boom(77)), "%s gave %r with a failing exclusion", what, got)
        return
    require(got[0] == "ok", "%s raised %r", what, got[1])
    r = got[1]
    keep = [j for j, v in enumerate(plain) if not (spec["exclude"] and spec["exclude"] != "raise" and excluder(spec["exclude"], [])(v))]
    longest = max([cost(items[i]) for i in index], default=0)
    require(took == longest, "%s took %s, its slowest awaitable takes %s", what, took, longest)
    for i in set(index):
        require(log.count(i) == 1, "awaitable %d ran %d times", i, log.count(i))
    if mapping:
        require(type(r) is dict, "%s gave a %s", what, type(r))
        require(list(r) == [keys[j] for j in keep] and all(type(a) is type(keys[j]) for a, j in zip(r, keep)), "%s gave the keys %r, expected %r", what, list(r), [keys[j] for j in keep])
        vals = list(r.values())
    else:
        require(type(r) is list, "%s gave a %s", what, type(r))
        vals = r
    require(len(vals) == len(keep) and all(same_result(g, plain[j]) for g, j in zip(vals, keep)), "%s gave %r, expected %r", what, vals, [plain[j] for j in keep])
    if spec["exclude"]:
        require(len(seen) == len(index), "the exclusion saw %d of %d results", len(seen), len(index))
    costs = [cost(items[i]) for i in index]
    case.mark(len(index) > 2 and costs != sorted(costs) or len(keep) not in (0, len(index)))
    if failing:
        case.label("exceptions returned")
    if len(keep) < len(index):
        case.label("excluded")


def run_case(spec, case):
    run(main, spec, case)


SUBS = [Sub("gather", strategy, run_case, "three awaitables or more that do not finish in order, a failure, or a partial exclusion", quick=12000, thorough=200000, shards=4)]
