"""The observation program of P32: decorates functions and reports what calling them does.

As a script it reads {"functions": [...]} from stdin, with the environment variables under test set, and prints the
observations; P32 also calls observe() in a process without any of those variables.
"""
import asyncio
import concurrent.futures
import inspect
import json
import os
import sys
import threading
import time

VALUES = [1, True, 1.0, "1", 2, 3]
GATED = 5
# modifiers whose effect on threads would take real time
UNTIMED = {"runs_per_minute": None, "ram_cache_ttl": None}


def job(v):
    """Runs in the default executor of whatever type."""
    return v, os.getpid()


def decorate(fn, f, extra):
    import a_sync
    from a_sync.a_sync.function import ASyncFunction

    mods = dict(extra)
    for k, v in f["mods"].items():
        mods[k] = v
    if "executor" in mods and isinstance(mods["executor"], int):
        mods["executor"] = concurrent.futures.ThreadPoolExecutor(mods["executor"])
    if f["kind"] != "async":
        mods.update(UNTIMED)
    if f["default"] != "omit":
        mods["default"] = f["default"]
    if f["spell"] == 0:
        return a_sync.a_sync(fn, **mods)
    if f["spell"] == 1:
        return a_sync.a_sync(**mods)(fn)
    if f["spell"] == 2 and mods:
        return ASyncFunction(fn, **mods)
    if mods.get("default"):
        return a_sync.a_sync(mods.pop("default"), **mods)(fn)
    return a_sync.a_sync(**mods)(fn) if mods else a_sync.a_sync(fn)


def mode(f):
    """What a call without a flag does, made where no loop runs."""
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    try:
        r = f(6)
    finally:
        asyncio.set_event_loop(None)
        loop.close()
    if inspect.isawaitable(r):
        r.close()
        return "async"
    return "sync"


def observe_async(f, extra):
    from vlib.vloop import VirtualLoop, run

    log, ends = [], []

    async def main():
        async def body(v, n=None):
            if n is None:
                return v
            start = loop.time()
            log.append(["start", repr(v), start])
            if f["calls"][n]["d"]:
                await asyncio.sleep(f["calls"][n]["d"])
            log.append(["end", repr(v), loop.time()])
            return [repr(v), start]

        async def job(v):
            for n, c in enumerate(f["calls"]):
                if VALUES[c["v"]] is v:
                    return await body(v, n)
            return v

        loop = asyncio.get_running_loop()
        fn = decorate(job, f, extra)

        async def call(n, c):
            if c["t"]:
                await asyncio.sleep(c["t"])
            r = await fn(VALUES[c["v"]], sync=False)
            ends.append([n, r, loop.time()])
        await asyncio.gather(*(call(n, c) for n, c in enumerate(f["calls"])))

    run(main)

    async def plain(v):
        return v
    return {"mode": mode(decorate(plain, f, extra)), "log": log, "ends": ends}


def observe_sync(f, extra):
    lock = threading.Lock()
    runs = []
    active = [0, 0]
    gate = threading.Event()

    def body(v):
        with lock:
            runs.append(repr(v))
        if isinstance(v, int) and v >= 100:
            with lock:
                active[0] += 1
                active[1] = max(active)
            gate.wait(20)
            with lock:
                active[0] -= 1
        return v

    def plain(v):
        return v
    fn = decorate(body, f, extra)
    # how many of them the threads and the limits let run at once
    want = min(GATED, f["expect"])

    async def main():
        out = []
        for c in f["calls"]:
            out.append(repr(await fn(VALUES[c["v"]], sync=False)))
        n = len(runs)
        tasks = [asyncio.ensure_future(fn(100 + i, sync=False)) for i in range(GATED)]
        t = time.monotonic()
        while active[0] < want and time.monotonic() - t < 10:
            await asyncio.sleep(0.001)
        for _ in range(8):
            await asyncio.sleep(0.001)
        gate.set()
        await asyncio.gather(*tasks)
        return out, n

    out, n = asyncio.run(main())
    return {"mode": mode(decorate(plain, f, extra)), "runs": runs[:n], "results": out, "at once": active[1]}


def observe_default(f, extra):
    """A function that can be sent to another process."""
    fn = decorate(job, f, extra)

    async def main():
        return [await fn(VALUES[c["v"]], sync=False) for c in f["calls"]]
    got = asyncio.run(main())
    return {"mode": mode(decorate(job, f, extra)), "results": [repr(v) for v, _ in got], "elsewhere": [pid != os.getpid() for _, pid in got]}


def observe(functions, extra=()):
    extra = dict(extra)
    executor = extra.pop("executor", None)
    out = []
    for f in functions:
        if f["kind"] != "async" and executor is not None:
            extra["executor"] = executor
        else:
            extra.pop("executor", None)
        out.append({"async": observe_async, "sync": observe_sync, "job": observe_default}[f["kind"]](f, extra))
    return out


if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path[0] = os.path.dirname(here)
    import logging

    logging.disable(logging.CRITICAL)
    import checks.envprog as prog

    print("OBSERVED " + json.dumps(prog.observe(json.load(sys.stdin)["functions"])))
    sys.stdout.flush()
    import multiprocessing

    for p in multiprocessing.active_children():
        p.kill()
    os._exit(0)
