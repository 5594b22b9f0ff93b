"""P31: random programs that use methods, properties and generators of instances, drop instances, keep bound methods and arm timers of their own over hours of virtual time and several event loops, judged by the times at which the timers were armed to fire and by the garbage collector: property-based testing of timed histories"""
import asyncio
import gc
import weakref

import a_sync
from a_sync import ASyncGenericBase

from .common import *
from .p03 import INLINE

WHAT = ["plain", "plain", "mode", "cached", "limited", "rate", "blocking", "prop", "cprop", "hidden", "hidden cprop", "gen"]
METHODS = ["plain", "mode", "cached", "limited", "rate", "blocking"]
STEP = [0, 0, 0, 1, 7, 60, 100, 150, 299, 300, 301, 450]


def strategy():
    t, i = st.sampled_from(STEP), st.integers(0, 2)
    op = weighted(
        (8, rec(op=st.just("use"), t=t, i=i, what=st.sampled_from(WHAT), d=st.sampled_from([0, 0, 0, 1, 299, 300, 400]), fail=weighted((5, st.just(False)), (1, st.just(True))))),
        (4, rec(op=st.just("timer"), t=t, d=st.sampled_from(STEP + [2, 3, 50, 200, 298, 302, 600, 601, 900]), how=st.sampled_from(["later", "at", "sleep", "timeout"]), n=st.integers(1, 3))),
        (1, rec(op=st.just("stop"), t=t, k=st.integers(0, 9))),
        (1, rec(op=st.just("hold"), t=t, i=i, what=st.sampled_from(METHODS))),
        (1, rec(op=st.just("held"), t=t, k=st.integers(0, 9), d=st.sampled_from([0, 1, 300]))),
        (2, rec(op=st.just("drop"), t=t, i=i)),
        (1, rec(op=st.just("loop"), t=t)),
    )
    return rec(sync=st.booleans(), ops=lists(op, 2, 16, 60))


def make_class():
    class C(ASyncGenericBase):
        def __init__(self, sync, tag):
            self.sync = sync
            self.tag = tag
            super().__init__()

        async def mode(self, d, fail):
            return await self.__work("mode", d, fail)

        @a_sync.a_sync("async")
        async def plain(self, d, fail):
            return await self.__work("plain", d, fail)

        @a_sync.a_sync("async", ram_cache_maxsize=2)
        async def cached(self, d, fail):
            return await self.__work("cached", d, fail)

        @a_sync.a_sync("async", semaphore=1)
        async def limited(self, d, fail):
            return await self.__work("limited", d, fail)

        @a_sync.a_sync("async", runs_per_minute=1000)
        async def rate(self, d, fail):
            return await self.__work("rate", d, fail)

        @a_sync.a_sync("async", executor=INLINE)
        def blocking(self, d, fail):
            if fail:
                raise Boom("blocking")
            return self.tag, "blocking"

        @a_sync.aka.property
        async def prop(self):
            return self.tag, "prop"

        @a_sync.aka.cached_property
        async def cprop(self):
            return self.tag, "cprop"

        async def gen(self, d):
            for k in range(2):
                await asyncio.sleep(d)
                yield self.tag, "gen", k

        async def __work(self, name, d, fail):
            await delay(d)
            if fail:
                raise Boom(name)
            return self.tag, name
    return C


class World:
    def __init__(self, spec, case):
        self.spec, self.case = spec, case
        self.cls = make_class()
        self.insts = {}
        self.busy = {}  # tag -> calls in flight
        self.used = {}  # tag -> when something of the instance was used last
        self.slow = set()  # instances whose generators or caches keep them until their timers are over
        self.dropped = {}  # tag -> weak reference
        self.held = []
        self.serial = 0
        self.timers = []
        self.tasks = []
        self.fired = []

    def inst(self, i):
        if i not in self.insts:
            self.serial += 1
            self.insts[i] = self.cls(self.spec["sync"], self.serial)
            self.busy[self.serial] = 0
        return self.insts[i]

    async def use(self, inst, what, d, fail, bound=None):
        tag = inst.tag
        kw = {"sync": False} if self.spec["sync"] else {}
        start = now()
        self.busy[tag] += 1
        self.used[tag] = start
        if what in ("gen", "cached"):
            self.slow.add(tag)
        try:
            name = what.split()[-1]
            if what == "gen":
                got = []
                async for x in inst.gen(d):
                    got.append(x)
                require(got == [(tag, "gen", 0), (tag, "gen", 1)], "a generator of instance %d gave %r", tag, got)
                require(now() == start + 2 * d, "a generator that needs %d was done after %s", 2 * d, now() - start)
                return
            try:
                if bound is not None:
                    r = await bound(d, fail, **kw)
                elif what in METHODS:
                    r = await getattr(inst, what)(d, fail, **kw)
                elif what.startswith("hidden") or kw:
                    name = "prop" if what == "hidden" else name
                    r = await getattr(inst, "__%s__" % name)(**kw)
                else:
                    r = await getattr(inst, name)
            except Boom as e:
                require(fail and e.ident == what, "%s raised %r", what, e)
            else:
                require(r == (tag, name) and not (fail and what in METHODS), "%s of instance %d gave %r", what, tag, r)
            late = now() - start
            if what in ("plain", "mode", "rate"):
                require(late == d, "%s that needs %d was done after %s", what, d, late)
            elif what not in ("cached", "limited"):
                require(late == 0, "%s was done after %s", what, late)
        finally:
            self.busy[tag] -= 1
            inst = bound = None

    def arm(self, how, d):
        loop = asyncio.get_running_loop()
        t = {"due": now() + d, "at": None, "stop": None, "how": how}
        self.timers.append(t)

        def fire():
            t["at"] = now()
        if how == "later":
            t["stop"] = loop.call_later(d, fire).cancel
        elif how == "at":
            t["stop"] = loop.call_at(loop.time() + d, fire).cancel
        else:
            async def wait():
                if how == "sleep" or d == 0:
                    await asyncio.sleep(d)
                else:
                    try:
                        await asyncio.wait_for(loop.create_future(), d)
                    except asyncio.TimeoutError:
                        pass
                fire()
            task = asyncio.create_task(wait())
            self.tasks.append(task)
            t["stop"] = task.cancel
        t["when"] = now()

    def look(self):
        for t in self.timers:
            if t["at"] is not None:
                require(t["how"] != "stopped", "a timer that was cancelled fired")
                require(t["at"] == t["due"], "a timer due at %s fired at %s", t["due"], t["at"])
            elif t["how"] != "stopped":
                require(t["due"] >= now(), "a timer due at %s did not fire until %s", t["due"], now())
        todo = [tag for tag, ref in self.dropped.items() if not self.busy[tag] and (tag not in self.slow or now() > self.used[tag] + 300)]
        if todo:
            gc.collect()
            for tag in todo:
                ref = self.dropped.pop(tag)
                require(ref() is None, "instance %d is kept alive although nothing uses it", tag)
                self.case.label("collected")

    def done_tasks(self):
        keep = []
        for t in self.tasks:
            if t.done():
                if not t.cancelled():
                    t.result()
            else:
                keep.append(t)
        self.tasks = keep

    async def nap(self, t):
        target = now() + t
        await asyncio.sleep(t)
        require(now() == target, "slept until %s instead of %s", now(), target)
        await spin(20)

    async def phase(self, ops):
        for o in ops:
            op = o["op"]
            await self.nap(o["t"])
            self.done_tasks()
            self.look()
            if op == "use":
                self.tasks.append(asyncio.create_task(self.use(self.inst(o["i"]), o["what"], o["d"], o["fail"])))
                self.case.label(o["what"])
                await spin(5)
            elif op == "timer":
                for _ in range(o["n"]):
                    self.arm(o["how"], o["d"])
            elif op == "stop":
                alive = [t for t in self.timers if t["at"] is None and t["how"] != "stopped"]
                if alive:
                    t = alive[o["k"] % len(alive)]
                    t["how"] = "stopped"
                    t["stop"]()
            elif op == "hold":
                inst = self.inst(o["i"])
                self.held.append((inst.tag, o["what"], getattr(inst, o["what"])))
                self.used[inst.tag] = now()
                inst = None
            elif op == "held":
                by_tag = {i.tag: i for i in self.insts.values()}
                held = [h for h in self.held if h[0] in by_tag]
                if held:
                    tag, what, bound = held[o["k"] % len(held)]
                    self.tasks.append(asyncio.create_task(self.use(by_tag[tag], what, o["d"], False, bound)))
                    self.case.label("held")
                    await spin(5)
                by_tag = held = bound = None
            else:
                inst = self.insts.pop(o["i"], None)
                if inst is not None:
                    self.dropped[inst.tag] = weakref.ref(inst)
                    # a cache refers to the instances it was asked for, and bound methods to each other
                    self.held = [h for h in self.held if h[0] != inst.tag or inst.tag not in self.slow]
                    inst = None
                    self.done_tasks()
                    await spin(3)
                    self.look()
        # everything runs to its end, timers included
        for _ in range(4):
            await self.nap(1000)
        self.done_tasks()
        self.look()
        require(not self.tasks, "%d tasks never finished", len(self.tasks))
        self.timers = []


def run_case(spec, case):
    w = World(spec, case)
    ops = list(spec["ops"])
    phases = [[]]
    for o in ops:
        if o["op"] == "loop":
            phases.append([])
        else:
            phases[-1].append(o)
    phases[-1] += [{"op": "drop", "t": 0, "i": i} for i in range(3)]
    vtime = 0.0
    for ops in phases:
        loop = VirtualLoop(max_time=vtime + 100000)
        loop.vtime = vtime
        try:
            run(w.phase, ops, loop=loop)
            vtime = loop.vtime
            require(not loop.unhandled, "the event loop got %r", loop.unhandled)
        finally:
            loop.close()
            asyncio.set_event_loop(None)
    kinds = {o["op"] for o in spec["ops"]}
    case.mark("use" in kinds and "timer" in kinds)
    if len(phases) > 1:
        case.label("several loops")


SUBS = [
    Sub("history", strategy, run_case, "methods are used while timers of the program are armed", quick=3000, thorough=60000),
]
