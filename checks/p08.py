"""P08: random schedules of overlapping, failing and cancelled calls of functions and methods limited by generated semaphore modifiers, under an invariant on the running bodies: randomized schedule testing with an invariant oracle"""
import concurrent.futures
import threading
import time

import a_sync
from a_sync import ASyncGenericBase
from a_sync.a_sync.modifiers.semaphores import apply_semaphore

from .common import *
from .dual import Bench

SPELL = ["int", "a_sync.Semaphore", "ThreadsafeSemaphore", "asyncio.Semaphore", "PrioritySemaphore"]


def strategy():
    call = rec(t=st.integers(0, 5), y=tiny, fn=tiny, d=st.integers(0, 3), dy=tiny, fail=st.sampled_from([False, False, False, True]),
               cancel=maybe(st.integers(0, 5), 4), cy=tiny, how=st.sampled_from(["task", "task", "wait_for", "gather"]))
    return rec(shape=st.sampled_from(["functions", "functions", "apply", "decorator", "class", "class override", "method objects", "methods", "methods"]), spell=st.integers(0, 4), n=st.integers(1, 3),
               fns=st.integers(1, 3), default=st.sampled_from([None, "async", "sync"]), calls=lists(call, 2, 14, 50), scale=weighted((3, st.just(1)), (1, st.just(150))))


def make_semaphore(spell, n):
    return {"int": lambda: n, "a_sync.Semaphore": lambda: a_sync.Semaphore(n), "ThreadsafeSemaphore": lambda: a_sync.ThreadsafeSemaphore(n),
            "asyncio.Semaphore": lambda: asyncio.Semaphore(n), "PrioritySemaphore": lambda: a_sync.PrioritySemaphore(n)}[spell]()


def run_case(spec, case):
    run(main, spec, case)


async def main(spec, case):
    rec_ = Recorder()
    n, shape, scale = spec["n"], spec["shape"], spec["scale"]
    spell = SPELL[spec["spell"]]
    sem = make_semaphore(spell, n)
    groups = {}  # group -> number of running bodies
    peak = {}
    state = {}

    def enter(group, ident):
        groups[group] = groups.get(group, 0) + 1
        peak[group] = max(peak.get(group, 0), groups[group])
        rec_.require(ident not in state or state[ident] == "waiting", "call %r ran twice", ident)
        state[ident] = "running"
        rec_.require(groups[group] <= n, "%d bodies run at once, the limit is %d", groups[group], n)

    async def body(group, ident, d, dy, fail):
        enter(group, ident)
        try:
            await delay(d * scale, dy)
            if fail:
                raise Boom(ident)
            return ["result", ident]
        finally:
            groups[group] -= 1
            state[ident] = "done"

    def plain(group):
        async def f(*args, **kw):
            return await body(group, *args, **kw)
        return f

    limit = n
    k = spec["fns"]
    if shape == "functions":
        # an integer makes every function its own semaphore, an object is shared
        deco = a_sync.a_sync(default=spec["default"], semaphore=sem)
        group = (lambda i: i) if spell == "int" else (lambda i: 0)
        gs = [deco(plain(group(i))) for i in range(k)]
        fns = [lambda *a, g=g, **k: g(*a, sync=False, **k) for g in gs]
    elif shape == "apply":
        group = (lambda i: i) if spell == "int" else (lambda i: 0)
        # applied to nothing, the integer is turned into one semaphore at once
        fns = [apply_semaphore(plain(group(i)), sem) if i % 2 or spell != "int" else apply_semaphore(sem)(plain(group(i))) for i in range(k)]
    elif shape == "decorator":
        if spell in ("int", "asyncio.Semaphore"):
            sem = a_sync.Semaphore(n)
        group = lambda i: 0
        fns = [sem(plain(0)) if i % 2 else sem.decorate(plain(0)) for i in range(k)]
    elif shape == "methods":
        # an integer gives every method of every instance a semaphore of its own
        class C(ASyncGenericBase):
            def __init__(self, i):
                self.sync = False
                self.i = i
                super().__init__()

            @a_sync.a_sync(semaphore=n)
            async def m0(self, *args, **kw):
                return await body(self.i, *args, **kw)

            @a_sync.a_sync(semaphore=n, default="async")
            async def m1(self, *args, **kw):
                return await body(self.i + 2, *args, **kw)
        insts = [C(0), C(1)]
        group = lambda i: i
        fns = [lambda *a, **k: insts[0].m0(*a, **k), lambda *a, **k: insts[1].m0(*a, **k), lambda *a, **k: insts[0].m1(*a, **k)]
    else:
        if spell == "PrioritySemaphore" and shape != "method objects":
            sem = n
        elif spell == "int" and shape == "method objects":
            sem = a_sync.Semaphore(n)

        class C(ASyncGenericBase):
            if shape != "method objects":
                semaphore = sem

            def __init__(self):
                self.sync = False
                super().__init__()
            if shape == "method objects":
                @a_sync.a_sync(semaphore=sem)
                async def m0(self, *args, **kw):
                    return await body(0, *args, **kw)

                @a_sync.a_sync(semaphore=sem, default="async")
                async def m1(self, *args, **kw):
                    return await body(0, *args, **kw)
            else:
                async def m0(self, *args, **kw):
                    return await body(0, *args, **kw)

                async def m1(self, *args, **kw):
                    return await body(0, *args, **kw)
            if shape == "class override":
                @a_sync.a_sync(semaphore=n)
                async def own(self, *args, **kw):
                    return await body(("own", id(self)), *args, **kw)
        group = lambda i: 0
        insts = [C(), C()]
        fns = [lambda *a, **k: insts[0].m0(*a, **k), lambda *a, **k: insts[1].m1(*a, **k), lambda *a, **k: insts[1].m0(*a, **k)]
        if shape == "class override":
            fns[2] = lambda *a, **k: insts[0].own(*a, **k)
            group = lambda i: 0 if i < 2 else ("own", id(insts[0]))
    waiting = {}
    cancelled = set()
    tasks = []

    async def call(i, c):
        g = group(c["fn"] % len(fns))
        # every other call gives some arguments by name
        args, kw = (i, c["d"], c["dy"], c["fail"]), {}
        if i % 2:
            args, kw = args[:2], {"dy": c["dy"], "fail": c["fail"]}
        f = fns[c["fn"] % len(fns)]
        state[i] = "waiting"
        waiting[i] = g
        try:
            if c["how"] == "gather":
                r = (await asyncio.gather(f(*args, **kw)))[0]
            elif c["how"] == "wait_for":
                r = await asyncio.wait_for(f(*args, **kw), 1000 * scale)
            else:
                r = await f(*args, **kw)
        except CancelledError:
            require(i in cancelled, "call %d was cancelled", i)
            return
        except Boom as e:
            require(c["fail"] and e.ident == i, "call %d raised %r", i, e)
            return
        finally:
            if state[i] != "running":
                waiting.pop(i, None)
            waiting.pop(i, None)
        require(not c["fail"] and r == ["result", i], "call %d gave %r", i, r)

    async def play(i, c):
        await delay(c["t"] * scale, c["y"])
        t = asyncio.create_task(call(i, c))
        tasks.append((i, t))
        if c["cancel"] is not None:
            await delay(c["cancel"] * scale, c["cy"])
            if not t.done():
                cancelled.add(i)
                case.label("cancelled while " + state[i] if i in state else "cancelled at once")
                t.cancel()

    async def monitor():
        # between two instants everything that could start has started
        await asyncio.sleep(0.5 * scale)
        while True:
            for g in set(waiting.values()):
                idle = [i for i, h in waiting.items() if h == g and state[i] == "waiting"]
                require(not idle or groups.get(g, 0) == limit, "at %s the calls %r wait although %d of %d run", now(), idle, groups.get(g, 0), limit)
                if idle:
                    case.label("waited")
                    case.mark()
            await asyncio.sleep(scale)

    m = asyncio.create_task(monitor())
    plays = [asyncio.create_task(play(i, c)) for i, c in enumerate(spec["calls"])]
    await settle(plays)
    for p in plays:
        p.result()
    await asyncio.sleep(200 * scale)
    if m.done():
        m.result()
    m.cancel()
    for i, t in tasks:
        require(t.done(), "call %d never finished", i)
        if not t.cancelled():
            t.result()
    rec_.check()
    case.label(shape)
    if len(peak) < len({c["fn"] % len(fns) for c in spec["calls"]}):
        case.label("shared by several functions")


# ------------------------------------------------------------------ plain functions in real threads
def strategy_threads():
    return rec(n=st.integers(1, 3), spell=st.integers(0, 3), workers=st.integers(2, 5), calls=st.lists(st.sampled_from(["ok", "ok", "ok", "fail"]), min_size=2, max_size=10))


def run_threads(spec, case):
    n = spec["n"]
    lock = threading.Lock()
    running = [0, 0]
    log = []

    def f(i):
        with lock:
            running[0] += 1
            running[1] = max(running)
            log.append(i)
        time.sleep(0.001)
        with lock:
            running[0] -= 1
        if spec["calls"][i] == "fail":
            raise Boom(i)
        return ["r", i]

    async def main():
        g = a_sync.a_sync(default="async", semaphore=make_semaphore(SPELL[spec["spell"]], n), executor=pool)(f)
        return await asyncio.gather(*(g(i) for i in range(len(spec["calls"]))), return_exceptions=True)
    with concurrent.futures.ThreadPoolExecutor(spec["workers"]) as pool, Bench() as bench:
        out = bench.inside(main)
    require(running[1] <= n, "%d calls ran at once, the limit is %d", running[1], n)
    require(sorted(log) == list(range(len(spec["calls"]))), "ran %r", log)
    for i, r in enumerate(out):
        require(r == (Boom(i) if spec["calls"][i] == "fail" else ["r", i]), "call %d gave %r", i, r)
    case.mark(len(spec["calls"]) > n)


# ------------------------------------------------------------------ a limit and a cache on one function
def strategy_cached():
    call = rec(t=st.integers(0, 6), y=tiny, key=st.integers(0, 3), cancel=maybe(st.integers(0, 5), 6), cy=tiny)
    return rec(shape=st.sampled_from(["function", "class", "method"]), spell=st.integers(0, 4), n=st.integers(1, 3), d=st.lists(st.integers(0, 4), min_size=4, max_size=4),
               fail=st.lists(st.sampled_from([False, False, False, True]), min_size=4, max_size=4), rpm=maybe(st.integers(20, 50), 3), calls=st.lists(call, min_size=2, max_size=14))


def run_cached(spec, case):
    run(main_cached, spec, case)


async def main_cached(spec, case):
    """Callers that wait for a computation that is on its way, or that find a cached value, take no permit."""
    rec_ = Recorder()
    n = spec["n"]
    running, started, cached = [], {}, set()

    async def body(key):
        running.append(key)
        started[key] = started.get(key, 0) + 1
        rec_.require(len(running) <= n, "%d bodies run at once, the limit is %d", len(running), n)
        rec_.require(key not in cached, "key %d was computed again", key)
        try:
            await delay(spec["d"][key])
            if spec["fail"][key]:
                raise Boom(key)
            cached.add(key)
            return ["r", key]
        finally:
            running.remove(key)

    mods = {"semaphore": make_semaphore(SPELL[spec["spell"]], n), "cache_type": "memory"}
    if spec["rpm"]:
        mods["runs_per_minute"] = spec["rpm"]
    if spec["shape"] == "function":
        f = a_sync.a_sync(default="async", **mods)(body)
    else:
        if spec["shape"] == "class":
            if not isinstance(mods["semaphore"], (int, a_sync.Semaphore)) or isinstance(mods["semaphore"], a_sync.PrioritySemaphore):
                mods["semaphore"] = n

            class C(ASyncGenericBase):
                semaphore = mods["semaphore"]
                cache_type = "memory"
                runs_per_minute = mods.get("runs_per_minute")
                sync = False

                async def f(self, key):
                    return await body(key)
        else:
            class C(ASyncGenericBase):
                sync = False

                @a_sync.a_sync(**mods)
                async def f(self, key):
                    return await body(key)
        obj = C()
        f = lambda key: obj.f(key)
    waiting = {}
    cancelled = set()
    tasks = []

    async def call(i, c):
        waiting[i] = c["key"]
        try:
            r = await f(c["key"])
        except CancelledError:
            require(i in cancelled, "call %d was cancelled", i)
            return
        except Boom as e:
            require(spec["fail"][c["key"]] and e.ident == c["key"], "call %d raised %r", i, e)
            return
        finally:
            waiting.pop(i, None)
        require(not spec["fail"][c["key"]] and r == ["r", c["key"]], "call %d gave %r", i, r)

    async def play(i, c):
        await delay(c["t"], c["y"])
        t = asyncio.create_task(call(i, c))
        tasks.append(t)
        if c["cancel"] is not None:
            await delay(c["cancel"], c["cy"])
            if not t.done():
                cancelled.add(i)
                t.cancel()

    async def monitor():
        await asyncio.sleep(0.5)
        while True:
            idle = [i for i, key in waiting.items() if key not in running]
            require(not idle or len(running) == n, "at %s the calls %r wait although %d of %d bodies run", now(), idle, len(running), n)
            if idle:
                case.label("waited")
                if len(waiting) - len(idle) > len(set(running)):
                    case.label("waited beside shared computations")
                    case.mark()
            await asyncio.sleep(1)

    m = asyncio.create_task(monitor())
    plays = [asyncio.create_task(play(i, c)) for i, c in enumerate(spec["calls"])]
    await settle(plays)
    for p in plays:
        p.result()
    await asyncio.sleep(100)
    if m.done():
        m.result()
    m.cancel()
    for i, t in enumerate(tasks):
        require(t.done(), "a call never finished")
        if not t.cancelled():
            t.result()
    rec_.check()
    for key in cached:
        require(await f(key) == ["r", key], "the cached value changed")
    rec_.check()
    case.label(spec["shape"])


SUBS = [
    Sub("schedules", strategy, run_case, "a call had to wait", quick=3000, thorough=40000, shards=4),
    Sub("cached", strategy_cached, run_cached, "a call waited for a permit beside callers that share a computation", quick=3000, thorough=40000, shards=4),
    Sub("threads", strategy_threads, run_threads, "more calls than permits", quick=150, thorough=1500, shards=2),
]
