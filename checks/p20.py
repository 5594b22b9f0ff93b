"""P20: generated key arrivals, durations, failures, limits, pops, cancellations, clears and early exits driven through task mappings, compared with a simulated worker pool in virtual time: model-based property testing"""
import asyncio
import heapq

import a_sync
from a_sync import TaskMapping

from .common import *
from .p24 import same_exc

NKEYS = 9
FAILS = [lambda: Boom(1), lambda: ValueError("v"), lambda: KeyError("k"), lambda: asyncio.TimeoutError("t"), lambda: RuntimeError("r")]
LIMITS = weighted((1, st.none()), (3, st.integers(1, 4)))
durs = st.lists(rec(d=st.integers(0, 4), yields=tiny, fail=weighted((5, st.none()), (1, st.integers(0, len(FAILS) - 1)))), min_size=NKEYS, max_size=NKEYS)
source = rec(kind=st.sampled_from(["list", "agen", "agen", "iter", "none"]), keys=weighted((3, st.lists(st.integers(0, NKEYS - 1), min_size=3, max_size=NKEYS)), (1, st.lists(st.integers(0, NKEYS - 1), max_size=NKEYS))), gaps=st.lists(tiny, min_size=1, max_size=3))


class Work:
    """The mapped function; what ran when."""

    def __init__(self, spec):
        self.spec = spec
        self.runs = []       # [key, start, end, how]
        self.running = 0
        self.most = 0
        self.rec = Recorder()
        self.limit = spec["conc"]
        self.given = []

    async def __call__(self, key, factor=1):
        run = [key, now(), None, None]
        self.runs.append(run)
        self.running += 1
        self.most = max(self.most, self.running)
        o = self.spec["durs"][key]
        try:
            self.rec.require(factor == 3, "a fixed argument was %r", factor)
            if self.limit:
                self.rec.require(self.running <= self.limit, "%d calls run at once, the limit is %d", self.running, self.limit)
            await delay(o["d"], o["yields"])
            run[3] = "end"
            if o["fail"] is not None:
                raise FAILS[o["fail"]]()
            return key * factor
        except asyncio.CancelledError:
            run[3] = "cancelled"
            raise
        finally:
            run[2] = now()
            self.running -= 1

    def make(self, iterables):
        kw = {"factor": 3}
        if self.limit:
            kw["concurrency"] = self.limit
        work = self

        async def f(key, factor=1):
            return await work(key, factor)
        if self.spec["dual"]:
            return a_sync.a_sync(f).map(*iterables, **kw)
        return TaskMapping(f, *iterables, **kw)

    def source(self, s):
        async def agen():
            for n, k in enumerate(s["keys"]):
                await delay(s["gaps"][n % len(s["gaps"])])
                yield k
        return [{"list": list(s["keys"]), "agen": agen(), "iter": iter(s["keys"])}[s["kind"]]] if s["kind"] != "none" and s["keys"] else []

    def arrivals(self, s):
        """[(time, key)] as the source asks."""
        out, t = [], 0
        if s["kind"] != "none":
            for n, k in enumerate(s["keys"]):
                t += s["gaps"][n % len(s["gaps"])] if s["kind"] == "agen" else 0
                out.append((t, k))
        return out


def pool(limit, jobs, dur):
    """Start time of each job [(request time, key, cancel time or None)] in first-in first-out order; None if it never starts."""
    free = [0] * (limit or 0)
    out = []
    for r, k, c in jobs:
        start = max(r, free[0]) if limit else r
        if c is not None and c < start:
            out.append(None)
            continue
        out.append(start)
        if limit:
            heapq.heappushpop(free, start + dur(k)) if free else None
    return out


# ---- limits

def strategy_limit():
    return rec(conc=LIMITS, durs=durs, source=source, consume=st.sampled_from(["nothing", "gather", "iter", "iter pop", "map", "map keep", "values", "index", "map arg"]), start=tiny, dual=st.booleans())


async def limits(spec, case):
    w = Work(spec)
    s = dict(spec["source"])
    if s["kind"] == "none" or not s["keys"]:
        s = {"kind": "list", "keys": [0, 3, 1, 2], "gaps": [0]}
    style = spec["consume"]
    given = w.source(s)
    m = w.make([] if style == "map arg" else given)
    t0 = now()
    await delay(spec["start"])
    got = []
    failing = [k for k in s["keys"] if spec["durs"][k]["fail"] is not None]
    want = {k: k * 3 for k in s["keys"] if k not in failing}
    try:
        if style == "nothing":
            await asyncio.sleep(200)
        elif style == "gather":
            r = await m.gather(return_exceptions=True, sync=False)
            require(set(r) == set(s["keys"]), "gather gave %r for %r", r, s["keys"])
            for k, v in r.items():
                f = spec["durs"][k]["fail"]
                require(same_exc(v, FAILS[f]()) if f is not None else v == k * 3, "gather gave %r for %r", v, k)
            failing = []
        elif style == "index":
            await asyncio.sleep(0)
            for k in s["keys"]:
                f = spec["durs"][k]["fail"]
                try:
                    v = await m[k]
                    require(f is None and v == k * 3, "%r gave %r", k, v)
                except Violation:
                    raise
                except Exception as e:
                    require(f is not None and same_exc(e, FAILS[f]()), "%r raised %r", k, e)
            failing = []
        else:
            it = {"iter": lambda: m.__aiter__(), "iter pop": lambda: m.__aiter__(pop=True), "map": lambda: m.map(), "map keep": lambda: m.map(pop=False),
                  "values": lambda: m.values(), "map arg": lambda: m.map(*given)}[style]()
            async for x in it:
                got.append(x)
            require(not failing, "%s swallowed the failure of %r", style, failing)
            require(sorted(got) == sorted(want.items() if style != "values" else want.values()), "%s gave %r, expected %r", style, got, want)
    except Violation:
        raise
    except Exception as e:
        require(failing, "%s raised %r", style, e)
        require(any(same_exc(e, FAILS[spec["durs"][k]["fail"]]()) for k in failing), "%s raised %r", style, e)
    await asyncio.sleep(200)
    w.rec.check()
    jobs, seen = [], set()
    if style == "index" and not w.limit:
        pass
    for r, k in w.arrivals(s):
        if k not in seen:
            seen.add(k)
            jobs.append((r, k, None))
    case.label("style " + style, "limit %s" % w.limit)
    if w.limit and w.most == w.limit and len(jobs) > w.limit:
        case.label("saturated")
        case.mark()
    case.mark(not w.limit and w.most > 1)
    shift = spec["start"] if style == "map arg" else 0
    if style == "index":
        # indexing asks in order as well, possibly before the source
        require(len({r[0] for r in w.runs}) == len(w.runs), "a key ran twice: %r", w.runs)
        return
    if failing and style not in ("nothing",):
        require(len({r[0] for r in w.runs}) == len(w.runs), "a key ran twice: %r", w.runs)
        return  # a consumer that failed may have stopped the work
    starts = pool(w.limit, jobs, lambda k: spec["durs"][k]["d"])
    actual = [(r[0], r[1] - t0 - shift) for r in w.runs]
    model = [(j[1], t) for j, t in zip(jobs, starts)]
    require(sorted(actual) == sorted(model), "calls started as %r, with limit %r a free slot takes the next key: %r", actual, w.limit, model)
    require([k for k, _ in actual] == [k for k, _ in model], "calls started in the order %r, the keys came as %r", actual, model)


def run_limits(spec, case):
    run(limits, spec, case)


# ---- histories of pops, cancellations and clears

OPS = ["index", "index", "pop", "pop", "pop cancel", "pop cancel", "pop missing", "del", "cancel", "clear", "clear cancel", "close", "pop default", "set"]


def strategy_life():
    return rec(conc=LIMITS, durs=durs, source=source, dual=st.booleans(),
               ops=st.lists(rec(t=st.integers(0, 6), op=st.sampled_from(OPS), key=st.integers(0, NKEYS - 1), keep=st.booleans()), min_size=1, max_size=7))


class Job:
    def __init__(self, key, t):
        self.key, self.t, self.cancel, self.fut, self.popped = key, t, None, None, False


async def life(spec, case):
    w = Work(spec)
    w.limit = spec["conc"]
    s = spec["source"]
    dur = lambda k: spec["durs"][k]["d"]
    if s["kind"] == "none" or not s["keys"]:
        s = dict(s, kind="none")
    # when each operation happens: asking at .5, everything else at .25
    ops = sorted(({**o, "t": o["t"] + (0.5 if o["op"] == "index" else 0.25)} for o in spec["ops"]), key=lambda o: o["t"])
    m = w.make(w.source(s))
    t0 = now()
    # the model: what is in the mapping, in order of the requests
    jobs, held, stopped, closed = [], {}, None, False
    arrivals = w.arrivals(s)
    loaded = set()
    futs = []

    def load(t):
        while arrivals and arrivals[0][0] < t:
            a, k = arrivals.pop(0)
            if stopped is not None and a > stopped:
                continue
            if k in loaded:
                continue
            loaded.add(k)
            if k not in held:
                held[k] = Job(k, a)
                jobs.append(held[k])

    def finished(job, t):
        starts = pool(w.limit, [(j.t, j.key, j.cancel) for j in jobs], dur)
        st_ = starts[jobs.index(job)]
        return st_ is not None and st_ + dur(job.key) < t

    def cancel(job, t):
        if not finished(job, t) and job.cancel is None:
            job.cancel = t
    labels = set()
    for o in ops:
        if closed:
            break
        await until(t0 + o["t"])
        t, k, op = o["t"], o["key"], o["op"]
        load(t)
        require(set(dict.keys(m)) == set(held), "at %s the mapping has %r, expected %r", t, sorted(dict.keys(m)), sorted(held))
        labels.add(op)
        if held and k % 4 != 3 and op != "index":
            k = sorted(held)[k % len(held)]  # mostly a key that is there
        if op == "index":
            if k not in held:
                held[k] = Job(k, t)
                jobs.append(held[k])
            f = m[k]
            require(f is m[k], "two tasks for one key")
            if o["keep"]:
                held[k].fut = f
        elif op in ("pop", "pop cancel", "pop default", "pop missing"):
            c = op != "pop" if op != "pop default" else o["keep"]
            job = held.pop(k, None)
            args = (k, "default") if op in ("pop default", "pop missing") else (k,)
            before = dict.get(m, k)
            try:
                got = m.pop(*args, cancel=True) if c else m.pop(*args)
            except KeyError:
                require(job is None and len(args) == 1, "popping %r raised a KeyError", k)
            else:
                if job is None:
                    require(len(args) == 2 and got == "default", "popping the missing %r gave %r", k, got)
                else:
                    require(got is before, "popping %r gave %r, not its task", k, got)
                    require(k not in m, "the popped %r is still there", k)
                    if o["keep"]:
                        job.fut = got
                    if c:
                        cancel(job, t)
            before = got = None
        elif op == "del":
            job = held.pop(k, None)
            try:
                del m[k]
            except KeyError:
                require(job is None, "deleting %r raised a KeyError", k)
            else:
                require(job is not None, "the missing %r was deleted", k)
                cancel(job, t)
        elif op == "cancel":
            if k in held:
                m[k].cancel()
                cancel(held[k], t)
        elif op == "set":
            try:
                m[k] = 5
            except NotImplementedError:
                pass
            else:
                raise Violation("an item was set")
        elif op in ("clear", "clear cancel"):
            c = op == "clear cancel"
            for j in held.values():
                if o["keep"]:
                    j.fut = dict.get(m, j.key)
                if c:
                    cancel(j, t)
            if c:
                stopped = t
            held.clear()
            m.clear(cancel=True) if c else m.clear()
            require(len(m) == 0, "a cleared mapping has %d keys", len(m))
        elif op == "close":
            for j in held.values():
                if o["keep"]:
                    j.fut = dict.get(m, j.key)
                cancel(j, t)
            held.clear()
            stopped = t
            closed = True
            await m.close()
            require(len(m) == 0, "a closed mapping has %d keys", len(m))
    load(1000)
    await asyncio.sleep(1000)
    w.rec.check()
    starts = pool(w.limit, [(j.t, j.key, j.cancel) for j in jobs], dur)
    want = []
    for j, st_ in zip(jobs, starts):
        if st_ is None:
            continue
        end, how = st_ + dur(j.key), "end"
        if j.cancel is not None and not w.limit and j.cancel < end:
            end, how = j.cancel, "cancelled"
        want.append((j.key, st_, end, how))
    got = [(k, a - t0, b - t0 if b is not None else None, how) for k, a, b, how in w.runs]
    require(sorted(got, key=repr) == sorted(want, key=repr), "the calls (key, start, end, how) were %r, expected %r", got, want)
    require(set(dict.keys(m)) == set(held), "in the end the mapping has %r, expected %r", sorted(dict.keys(m)), sorted(held))
    for j, st_ in zip(jobs, starts):
        f = j.fut or (dict.get(m, j.key) if held.get(j.key) is j else None)
        if f is None:
            continue
        require(f.done(), "the task of %r never finished", j.key)
        o = outcome(f)
        if j.cancel is not None:
            require(o[0] == "cancelled", "the cancelled task of %r ended with %r", j.key, o)
        elif spec["durs"][j.key]["fail"] is not None:
            require(o[0] == "raise" and same_exc(o[1], FAILS[spec["durs"][j.key]["fail"]]()), "the task of %r ended with %r", j.key, o)
        else:
            require(o == ("ok", j.key * 3), "the task of %r ended with %r", j.key, o)
    if closed:
        try:
            await m.sum(pop=True, sync=False)
        except RuntimeError:
            pass
        else:
            raise Violation("a closed mapping was consumed again")
    case.label(*labels, "limit %s" % w.limit)
    if any(j.cancel is not None for j in jobs):
        case.label("cancelled some")
        case.mark()
    if any(s is None for s in starts):
        case.label("cancelled before start")
    case.mark(bool(labels & {"pop", "clear"}) and len(jobs) > 1)


def run_life(spec, case):
    run(life, spec, case)


# ---- consumers that leave early

def strategy_leave():
    return rec(conc=LIMITS, durs=durs, source=source, dual=st.booleans(), how=st.sampled_from(["iter", "map", "map arg", "any", "all", "fn.any", "cancelled", "cancelled sum", "wait_for"]), after=st.integers(0, 3), limit_t=st.integers(0, 6))


async def leave(spec, case):
    w = Work(spec)
    s = dict(spec["source"])
    if s["kind"] == "none" or not s["keys"]:
        s = {"kind": "agen", "keys": [0, 3, 1, 2, 5], "gaps": [1, 0]}
    how = spec["how"]
    given = w.source(s)
    m = w.make([] if how == "map arg" else given)
    got = []
    left = False

    async def consume():
        async for x in m.__aiter__(pop=True):
            got.append(x)
    try:
        if how in ("iter", "map", "map arg"):
            it = {"iter": lambda: m.__aiter__(pop=True), "map": lambda: m.map(), "map arg": lambda: m.map(*given)}[how]().__aiter__()
            for _ in range(spec["after"] + 1):
                try:
                    got.append(await it.__anext__())
                except StopAsyncIteration:
                    break
            else:
                left = True
            if hasattr(it, "aclose"):
                await it.aclose()
            else:
                it = None
        elif how in ("any", "all", "fn.any"):
            r = await (m.any if how != "all" else m.all)(pop=True, sync=False)
            left = True
            require(r is any(k for k in s["keys"]) if how != "all" else r is all(k for k in s["keys"]), "%s gave %r", how, r)
        else:
            t = asyncio.ensure_future(consume() if how != "cancelled sum" else m.sum(pop=True, sync=False))
            await asyncio.sleep(0.25 + spec["limit_t"])
            left = not t.done()
            if how == "wait_for":
                try:
                    await asyncio.wait_for(t, 0)
                except asyncio.TimeoutError:
                    pass
            else:
                t.cancel()
                await asyncio.wait([t])
                if not t.cancelled():
                    t.result()
    except Violation:
        raise
    except Exception as e:
        left = True
        failing = [k for k in s["keys"] if spec["durs"][k]["fail"] is not None]
        require(any(same_exc(e, FAILS[spec["durs"][k]["fail"]]()) for k in failing), "%s raised %r", how, e)
    it = None
    for _ in range(8):
        await asyncio.sleep(0)
    end = now()
    n = len(w.runs)
    open_calls = [r[0] for r in w.runs if r[3] is None]
    case.label("how " + how, "limit %s" % w.limit)
    if left and (open_calls or n < len(set(s["keys"]))):
        case.label("left work")
        case.mark()
    require(len(m) == 0, "%s left %r in the mapping", how, sorted(dict.keys(m)))
    if not w.limit:
        require(not open_calls, "%s left calls running: %r", how, open_calls)
    await asyncio.sleep(1000)
    w.rec.check()
    require(len(w.runs) == n, "after %s ended at %s further calls started: %r", how, end, w.runs[n:])
    require(len({r[0] for r in w.runs}) == len(w.runs), "a key ran twice: %r", w.runs)
    for k, v in got:
        require(v == k * 3, "%s gave %r for %r", how, v, k)


def run_leave(spec, case):
    run(leave, spec, case)


SUBS = [
    Sub("limit", strategy_limit, run_limits, "all slots were taken with keys waiting, or calls ran at once without a limit", quick=8000, thorough=60000, shards=3),
    Sub("life", strategy_life, run_life, "calls were cancelled, or keys popped or cleared from several", quick=15000, thorough=100000, shards=4),
    Sub("leave", strategy_leave, run_leave, "the consumer left while there was work", quick=6000, thorough=45000, shards=2),
]
