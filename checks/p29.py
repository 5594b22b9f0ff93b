"""P29: generated histories of jobs, blocking jobs, bursts, idle pauses, cancellations and endings run on real thread and process pools and inline, compared at every quiet moment with a model of the pool: model-based property testing"""
import asyncio
import functools
import gc
import threading
import time

import a_sync
from a_sync import executor as ex_module

from .common import *
from .dual import Bench, Later
from .p24 import same_exc

PATIENCE = 8  # real seconds until something that must happen is called missing
IDLE = 0.02
POOL = [None, 0, "", [], {"a": 1}, object(), (1, 2), Boom(9), ..., 5, Later()]
FAILS = [lambda: Boom(1), lambda: ValueError("v"), lambda: KeyError("k"), lambda: TimeoutError("t"), lambda: RuntimeError("r"), lambda: OSError(2, "o"), lambda: TypeError("y"), lambda: asyncio.InvalidStateError("i")]


def jobs(gate):
    return rec(op=st.just("job"), how=st.sampled_from(["run", "submit", "submit", "dual"]), args=st.lists(st.integers(0, len(POOL) - 1), max_size=2), kw=st.sampled_from([[], [], ["k"], ["loop"], ["name", "timeout"], ["fn", "fut"], ["self"]]),
               fail=weighted((4, st.none()), (1, st.integers(0, len(FAILS) - 1))), gate=gate)


def strategy():
    op = weighted((5, jobs(st.booleans())), (1, rec(op=st.just("burst"), n=st.integers(2, 9))), (3, rec(op=st.just("open"), k=st.integers(0, 9))), (2, rec(op=st.just("pause"))),
                  (1, rec(op=st.just("cancel"), k=st.integers(0, 9))), (1, rec(op=st.just("collect"))))
    return rec(cls=st.sampled_from(["thread", "pruning", "pruning", "pruning"]), workers=st.integers(1, 4), short=weighted((5, st.just(True)), (1, st.just(False))),
               init=st.booleans(), ops=st.lists(op, min_size=2, max_size=12), end=st.sampled_from(["drop", "shutdown", "wait", "drop early"]))


class Job:
    def __init__(self, n, spec):
        self.n = n
        self.spec = spec
        self.gate = threading.Event()
        self.gated = spec["gate"]
        self.starts = 0
        self.ended = False
        self.cancelled = False
        self.fut = None
        if not spec["gate"]:
            self.gate.set()


class World:
    def __init__(self, workers, init):
        self.lock = threading.Lock()
        self.running = 0
        self.workers = workers
        self.errors = []
        self.jobs = []
        self.init = init
        self.known = set()
        self.me = threading.get_ident()
        self.threads = set()
        self.stock = False

    def initializer(self, a):
        if a != "x":
            self.errors.append("the initializer got %r" % (a,))
        self.known.add(threading.current_thread())

    def function(self, job):
        want_args = tuple(POOL[i] for i in job.spec["args"])
        want_kw = {k: "v" + k for k in job.spec["kw"]}

        def f(*args, **kw):
            with self.lock:
                job.starts += 1
                self.running += 1
                if job.starts > 1:
                    self.errors.append("job %d ran %d times" % (job.n, job.starts))
                if self.running > max(self.workers, 1):
                    self.errors.append("%d jobs ran at once with %d workers" % (self.running, self.workers))
                if len(args) != len(want_args) or any(a is not b for a, b in zip(args, want_args)) or kw != want_kw:
                    self.errors.append("job %d got %r %r, expected %r %r" % (job.n, args, kw, want_args, want_kw))
                if self.init and threading.current_thread() not in self.known:
                    self.errors.append("job %d ran in a thread that was not initialised" % job.n)
                if self.workers and threading.get_ident() == self.me:
                    self.errors.append("job %d ran in the calling thread" % job.n)
                self.threads.add(threading.current_thread())
            job.gate.wait(120)
            with self.lock:
                self.running -= 1
                job.ended = True
            if job.spec["fail"] is not None:
                raise FAILS[job.spec["fail"]]()
            return args[0] if args else job
        return f, want_args, want_kw

    def check(self):
        require(not self.errors, "%s", self.errors[:1])

    def expected(self):
        """Who must have started by now and who is in progress: first come, first served."""
        started, busy = set(), 0
        for j in self.jobs:
            if j.cancelled:
                continue
            if busy == self.workers:
                break
            started.add(j.n)
            if not j.gate.is_set():
                busy += 1
        return started, busy

    async def quiet(self, what):
        """Wait until the pool is where the model says."""
        started, busy = self.expected()
        end = time.monotonic() + PATIENCE
        while True:
            with self.lock:
                now_started = {j.n for j in self.jobs if j.starts}
                ok = now_started == started and self.running == busy
            self.check()
            if ok:
                return
            require(not now_started - started, "%s: jobs %r were started although %d were running", what, sorted(now_started - started), self.workers)
            if self.stock and time.monotonic() > end - PATIENCE + 0.05:
                return  # the pool of the standard library may miss that it could start a thread
            if time.monotonic() > end:
                raise Violation("%s: jobs %r never started, %d are running with %d workers" % (what, sorted(started - now_started), self.running, self.workers))
            await asyncio.sleep(0.0005)


async def poll(cond, msg, *args, patience=PATIENCE):
    end = time.monotonic() + patience
    while not cond():
        if time.monotonic() > end:
            raise Violation(msg % args)
        await asyncio.sleep(0.001)


async def retire(w, executor):
    """Wait until the threads that have nothing to do are gone."""
    for chance in range(4):
        try:
            return await poll(lambda: len(executor) <= max(1, w.expected()[1]), "%d threads do not retire although only %d jobs run", len(executor), w.expected()[1], patience=2)
        except Violation:
            if chance == 3 or w.expected()[1] == w.workers:
                raise
        # SimpleQueue.get of CPython 3.12 waits without its timeout when another thread takes the
        # item that woke it just before the deadline: a job wakes it
        poke = Job(len(w.jobs), {"how": "submit", "args": [], "kw": [], "fail": None, "gate": False})
        w.jobs.append(poke)
        poke.fut = give(w, executor, poke)
        await w.quiet("after a job for the threads that do not retire")


def make(spec, w):
    kw = {"initializer": w.initializer, "initargs": ("x",)} if spec["init"] else {}
    if spec["cls"] == "thread":
        return ex_module.AsyncThreadPoolExecutor(spec["workers"], **kw)
    return ex_module.PruningThreadPoolExecutor(spec["workers"], timeout=IDLE if spec["short"] else 60, **kw)


def give(w, executor, job):
    """Hand the job in; the awaitable of its outcome."""
    f, args, kw = w.function(job)
    how = job.spec["how"]
    if how == "run":
        return asyncio.ensure_future(executor.run(f, *args, **kw))
    if how == "dual":
        return asyncio.ensure_future(a_sync.a_sync(executor=executor)(f)(*args, **kw, sync=False))
    fut = executor.submit(f, *args, **kw)
    require(asyncio.isfuture(fut), "submit gave %r", fut)
    return fut


def judge(job):
    o = outcome(job.fut)
    fail = job.spec["fail"]
    if fail is not None:
        require(o[0] == "raise" and same_exc(o[1], FAILS[fail]()), "job %d gave %r, it raises %r", job.n, o, FAILS[fail]())
    else:
        want = POOL[job.spec["args"][0]] if job.spec["args"] else job
        require(o[0] == "ok" and o[1] is want, "job %d gave %r, it returns %r", job.n, o, want)


async def history(spec, case):
    w = World(spec["workers"], spec["init"])
    executor = make(spec, w)
    w.stock = spec["cls"] == "thread"
    debug = executor.debug_logs_enabled and spec["end"] in ("drop", "drop early")
    ops = list(spec["ops"])
    pruning = spec["cls"] == "pruning" and spec["short"]
    labels = set()
    case.label("class " + spec["cls"], "end " + spec["end"])
    try:
        for o in ops:
            op = o["op"]
            if op in ("job", "burst"):
                for _ in range(o.get("n", 1)):
                    js = o if op == "job" else {"how": "submit", "args": [], "kw": [], "fail": None, "gate": False}
                    job = Job(len(w.jobs), js)
                    w.jobs.append(job)
                    job.fut = give(w, executor, job)
                    if js["how"] != "submit":
                        await asyncio.sleep(0)  # tasks hand their jobs in when they start
                        await asyncio.sleep(0)
                if w.expected()[1] == w.workers:
                    labels.add("saturated")
                if len(w.expected()[0]) < len(w.jobs):
                    labels.add("queued")
            elif op == "open":
                closed = [j for j in w.jobs if j.starts and not j.gate.is_set()]
                if closed:
                    closed[o["k"] % len(closed)].gate.set()
            elif op == "pause":
                if pruning:
                    before = len(executor)
                    await retire(w, executor)
                    if len(executor) < before:
                        labels.add("retired")
                        case.mark()
            elif op == "cancel":
                alive = [j for j in w.jobs if not j.fut.done() and not j.cancelled]
                alive = [j for j in alive if not j.gate.is_set() or not j.starts]
                if alive:
                    j = alive[o["k"] % len(alive)]
                    j.fut.cancel()
                    for _ in range(5):
                        await asyncio.sleep(0)
                    require(j.fut.cancelled(), "a cancelled job's future is %r", j.fut)
                    labels.add("cancelled running" if j.starts else "cancelled queued")
                    if not j.starts:
                        j.cancelled = True
                    j.judged = True
            else:
                gc.collect()
            await w.quiet("after %s" % op)
            if "retired" in labels and op == "job" and w.expected()[1] > 1:
                labels.add("grew after retiring")
        end = spec["end"]
        workers_done = None
        if end == "drop early":
            executor = None
            gc.collect()
        for j in list(w.jobs):
            j.gate.set()
        live = [j.fut for j in w.jobs if not j.fut.cancelled()]
        if live:
            done, pending = await asyncio.wait(live, timeout=PATIENCE)
            require(not pending, "%d jobs never gave an outcome", len(pending))
        for j in w.jobs:
            if not j.fut.cancelled():
                judge(j)
                require(j.starts == 1, "job %d ran %d times", j.n, j.starts)
            elif j.cancelled:
                require(j.starts == 0, "the cancelled job %d ran", j.n)
        if executor is not None and end in ("shutdown", "wait"):
            extra = None
            if end == "wait":
                extra = Job(len(w.jobs), {"how": "submit", "args": [1], "kw": [], "fail": None, "gate": False})
                w.jobs.append(extra)
                extra.fut = give(w, executor, extra)
            executor.shutdown(wait=end == "wait")
            if extra:
                require(extra.ended, "shutdown(wait=True) did not wait for a job")
                await asyncio.wait([extra.fut], timeout=PATIENCE)
                judge(extra)
            try:
                executor.submit(int)
            except RuntimeError:
                pass
            else:
                raise Violation("an executor that was shut down took a job")
        # outcomes with tracebacks may refer to the pool
        executor = f = j = job = done = live = extra = None
        for j in w.jobs:
            j.fut = None
        j = None
        await asyncio.sleep(0)
        gc.collect()
        w.check()
        if not debug:  # the daemons of debug logs keep the pool for up to 15 seconds
            await poll(lambda: not any(t.is_alive() for t in w.threads), "threads live on after %s of the pool: %r", end, w.threads)
    finally:
        for j in w.jobs:
            j.gate.set()
        executor = None
    case.label(*labels)
    case.mark("queued" in labels)


def run_history(spec, case):
    with Bench() as bench:
        bench.inside(history, spec, case)


# ---- inline

def strategy_inline():
    return rec(cls=st.sampled_from(["thread", "pruning", "process"]), ops=st.lists(jobs(st.just(False)), min_size=1, max_size=5), running=st.booleans(),
               end=st.sampled_from(["drop", "shutdown", "wait", "with"]))


async def inline_job(w, executor, job):
    f, args, kw = w.function(job)
    how = job.spec["how"]
    if how == "submit":
        fut = executor.submit(f, *args, **kw)
        require(job.starts == 1 and job.ended, "submit returned before the job ran inline")
    elif how == "run":
        fut = asyncio.ensure_future(executor.run(f, *args, **kw))
    else:
        fut = asyncio.ensure_future(a_sync.a_sync(executor=executor)(f)(*args, **kw, sync=False))
    await asyncio.wait([fut])
    job.fut = fut
    judge(job)
    require(job.starts == 1, "job %d ran %d times", job.n, job.starts)


def run_inline(spec, case):
    with Bench() as bench:
        w = World(0, False)
        executor = {"thread": ex_module.AsyncThreadPoolExecutor, "pruning": ex_module.PruningThreadPoolExecutor, "process": ex_module.AsyncProcessPoolExecutor}[spec["cls"]](0)
        for js in spec["ops"]:
            job = Job(len(w.jobs), js)
            w.jobs.append(job)
            if spec["running"] or js["how"] != "submit":
                bench.inside(inline_job, w, executor, job)
            else:
                f, args, kw = w.function(job)
                job.fut = executor.submit(f, *args, **kw)
                require(job.ended, "submit returned before the job ran inline")
                judge(job)
            w.check()
            require(w.threads == {threading.current_thread()}, "a pool without workers ran a job in %r", w.threads)
        end = spec["end"]
        try:
            if end == "with":
                with executor as same:
                    require(same is executor, "entering a pool gives %r", same)
            elif end != "drop":
                executor.shutdown(wait=end == "wait")
        except Exception as e:
            require(False, "ending a pool without workers (%s) raised %r", end, e)
        case.label("class " + spec["cls"], "end " + end)
        case.mark(len(spec["ops"]) > 1)


# ---- initializers that fail

def strategy_broken():
    return rec(cls=st.sampled_from(["thread", "pruning"]), workers=st.integers(1, 3), good=weighted((2, st.just(0)), (1, st.integers(1, 2))), exc=st.integers(0, len(FAILS) - 1),
               ops=st.lists(jobs(st.booleans()), min_size=1, max_size=6), later=st.lists(st.sampled_from(["run", "submit", "dual"]), min_size=1, max_size=2), short=st.booleans())


async def broken(spec, case):
    from concurrent.futures.thread import BrokenThreadPool
    w = World(spec["workers"], True)
    calls = []

    def initializer(a, b):
        with w.lock:
            calls.append((a, b))
            bad = len(calls) > spec["good"]
        if bad:
            raise FAILS[spec["exc"]]()
        w.known.add(threading.current_thread())
    kw = {"initializer": initializer, "initargs": ("x", None)}
    if spec["cls"] == "thread":
        executor = ex_module.AsyncThreadPoolExecutor(spec["workers"], **kw)
    else:
        executor = ex_module.PruningThreadPoolExecutor(spec["workers"], timeout=IDLE if spec["short"] else 60, **kw)
    refused = 0
    try:
        for js in spec["ops"]:
            job = Job(len(w.jobs), js)
            try:
                job.fut = give(w, executor, job)
            except BrokenThreadPool:
                require(len(calls) > spec["good"], "a pool whose initializer did not fail refused a job")
                refused += 1
                continue
            w.jobs.append(job)
            await asyncio.sleep(0)
            await asyncio.sleep(0)
        for j in w.jobs:
            j.gate.set()
        if w.jobs:
            done, pending = await asyncio.wait([j.fut for j in w.jobs], timeout=PATIENCE)
            require(not pending, "%d jobs never gave an outcome after the initializer failed", len(pending))
        w.check()
        require(all(c == ("x", None) for c in calls), "the initializer got %r", calls)
        failed = len(calls) > spec["good"]
        for j in w.jobs:
            if j.starts:
                judge(j)
            else:
                o = outcome(j.fut)
                require(o[0] == "raise" and isinstance(o[1], BrokenThreadPool), "job %d, which no thread could run, gave %r", j.n, o)
                require(failed, "job %d gave %r although no initializer failed", j.n, o)
        if not spec["good"]:
            require(failed and not any(j.starts for j in w.jobs), "a job ran although every initializer failed")
        case.label("class " + spec["cls"], "failed" if failed else "did not fail")
        case.mark(failed)
        if failed:
            # the flag may be set a moment after the last outcome
            await poll(lambda: executor._broken, "the pool whose initializer failed does not know")
            for how in spec["later"]:
                job = Job(len(w.jobs), {"how": how, "args": [], "kw": [], "fail": None, "gate": False})
                try:
                    fut = give(w, executor, job)
                    done, pending = await asyncio.wait([fut], timeout=PATIENCE)
                    require(not pending, "a job for a broken pool gives no outcome (%s)", how)
                    o = outcome(fut)
                except BrokenThreadPool as e:
                    o = "raise", e
                require(o[0] == "raise" and isinstance(o[1], BrokenThreadPool), "a broken pool gave %r (%s)", o, how)
                require(not job.starts, "a broken pool ran a job")
            case.label("refused" if refused else "accepted all")
    finally:
        for j in w.jobs:
            j.gate.set()
        executor.shutdown(wait=False)


def run_broken(spec, case):
    import logging
    logging.getLogger("concurrent.futures").setLevel(logging.CRITICAL + 1)
    with Bench() as bench:
        bench.inside(broken, spec, case)


# ---- processes

def process_job(n, /, *args, fail=None, nap=0, **kw):
    import os
    time.sleep(nap)
    if fail is not None:
        raise FAILS[fail]()
    return os.getpid(), n, args, kw


PLAIN = [None, 0, "", [], {"a": 1}, (1, 2), 5]
_pools = {}


def strategy_process():
    job = rec(how=st.sampled_from(["run", "submit", "dual"]), args=st.lists(st.integers(0, len(PLAIN) - 1), max_size=2), kw=st.sampled_from([[], ["k"], ["name"], ["fn", "self"]]), fail=weighted((3, st.none()), (1, st.integers(0, len(FAILS) - 1))), nap=st.integers(0, 2))
    return rec(workers=st.integers(1, 2), jobs=st.lists(job, min_size=1, max_size=8))


async def process(spec, case):
    import os
    executor = _pools.get(spec["workers"])
    if executor is None:
        executor = _pools[spec["workers"]] = ex_module.AsyncProcessPoolExecutor(spec["workers"])
    futs = []
    for n, j in enumerate(spec["jobs"]):
        args = [PLAIN[i] for i in j["args"]]
        kw = {k: "v" for k in j["kw"]}
        if j["how"] == "dual":
            f = functools.partial(a_sync.a_sync(process_job, executor=executor), sync=False)
        else:
            f = functools.partial(getattr(executor, j["how"]), process_job)
        futs.append(asyncio.ensure_future(f(n, *args, fail=j["fail"], nap=j["nap"] * 0.001, **kw)))
    done, pending = await asyncio.wait(futs, timeout=PATIENCE * 2)
    require(not pending, "%d jobs never gave an outcome", len(pending))
    pids = set()
    for n, (j, fut) in enumerate(zip(spec["jobs"], futs)):
        o = outcome(fut)
        if j["fail"] is not None:
            require(o[0] == "raise" and same_exc(o[1], FAILS[j["fail"]]()), "job %d gave %r, it raises %r", n, o, FAILS[j["fail"]]())
        else:
            require(o[0] == "ok" and o[1][1:] == (n, tuple(PLAIN[i] for i in j["args"]), {k: "v" for k in j["kw"]}), "job %d gave %r", n, o)
            pids.add(o[1][0])
    require(os.getpid() not in pids and len(pids) <= spec["workers"], "jobs ran in the processes %r with %d workers", pids, spec["workers"])
    case.label("processes %d" % len(pids))
    case.mark(len(futs) > 1)


def run_process(spec, case):
    with Bench() as bench:
        bench.inside(process, spec, case)


SUBS = [
    Sub("history", strategy, run_history, "threads retired during the history, or jobs had to queue", quick=3000, thorough=60000, wall_limit=200),
    Sub("inline", strategy_inline, run_inline, "several jobs", quick=2000, thorough=20000),
    Sub("broken", strategy_broken, run_broken, "an initializer failed", quick=1500, thorough=20000, wall_limit=200),
    Sub("process", strategy_process, run_process, "several jobs", quick=100, thorough=1000, wall_limit=200),
]
