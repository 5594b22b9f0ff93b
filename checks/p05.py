"""P05: random schedules of concurrent, failing and cancelled readers of cached properties, and random histories of reads, replacements and deletions, judged by a state machine of the cache: model-based testing"""
import copy
import gc
import inspect

import a_sync
from a_sync import ASyncGenericBase

from .common import *
from .dual import Bench, POOL, exc_of, in_thread
from . import p04
from .p03 import INLINE, capture

# ------------------------------------------------------------------ concurrent readers


def strategy():
    prop = rec(is_async=st.sampled_from([True] * 7 + [False]), default=st.sampled_from([None, None, "async"]),
               lat=st.lists(st.sampled_from([0, 1, 2, 3, 5, 5, 8]), min_size=1, max_size=3), yields=tiny,
               fails=st.lists(st.booleans(), min_size=1, max_size=3), exc=st.integers(0, 9))
    time = st.integers(0, 8)
    op = weighted(
        (8, rec(op=st.just("read"), t=time, y=tiny, inst=tiny, prop=st.integers(0, 1), how=st.sampled_from(["direct", "hidden", "call"]),
                hold=st.sampled_from([0, 0, 0, 1, 2]), n=st.integers(1, 3), cancel=st.lists(maybe(st.integers(0, 4), 3), max_size=3))),
        (1, rec(op=st.just("set"), t=time, y=tiny, inst=tiny, prop=st.integers(0, 1))),
        (1, rec(op=st.just("del"), t=time, y=tiny, inst=tiny, prop=st.integers(0, 1))),
    )
    return rec(props=st.lists(prop, min_size=1, max_size=2), insts=st.integers(1, 2), setter=st.booleans(), ops=st.lists(op, min_size=2, max_size=9))


class Cell:
    """What is known about one property of one instance."""

    def __init__(self, name):
        self.name = name
        self.cached = None  # (value,) or None
        self.sure = False  # certainly stored: set by the user or delivered to a reader
        self.current = None
        self.set_at = None
        self.runs = 0
        self.seq = 0
        self.values = []  # (seq, value) whenever something became the value
        self.errors = []  # (start, end, exception)


class Value:
    def __init__(self, *what):
        self.what = what

    def __repr__(self):
        return "<value %s>" % (self.what,)


def run_case(spec, case):
    run(main, spec, case)


async def main(spec, case):
    rec_ = Recorder()
    cells = {}
    clock = [0]

    def tick():
        clock[0] += 1
        return clock[0]

    def cell(i, p):
        return cells.setdefault((i, p), Cell("i%d.p%d" % (i, p)))

    def begin(self, p):
        c = cell(self.ident, p)
        seq = tick()
        if c.cached is not None and c.set_at == now():
            # the computation was requested before the value was replaced at this instant
            c.runs += 1
            return c, (c.runs, seq)
        rec_.require(c.cached is None, "%s: the getter ran although %r is cached", c.name, c.cached)
        rec_.require(c.current is None, "%s: the getter ran while it was already running", c.name)
        c.runs += 1
        c.current = me = (c.runs, seq)
        return c, me

    def finish(c, me, spec_):
        n, start = me
        seq = tick()
        mine = c.current is me
        if mine:
            c.current = None
        if spec_["fails"][(n - 1) % len(spec_["fails"])]:
            e = exc_of(spec_["exc"])
            c.errors.append((now(), seq, type(e), e.args))  # a sync getter may finish before its task does
            raise e
        v = Value(c.name, n)
        if mine:
            c.cached, c.sure = (v,), False
        c.values.append((seq, v))
        return v

    ns = {"executor": INLINE, "asynchronous": True}

    def make(p, s):
        if s["is_async"]:
            async def get(self):
                c, me = begin(self, p)
                try:
                    await delay(s["lat"][(me[0] - 1) % len(s["lat"])], s["yields"])
                except CancelledError:
                    rec_.require(ending[0], "%s: the computation was cancelled", c.name)
                    raise
                return finish(c, me, s)
        else:
            def get(self):
                c, me = begin(self, p)
                return finish(c, me, s)
        get.__name__ = "p%d" % p
        d = a_sync.aka.cached_property(default=s["default"], **({} if s["is_async"] else {"executor": INLINE}))(get)
        if spec["setter"]:
            def put(self, value):
                puts.append((self.ident, p, value))
            put.__name__ = "p%d" % p
            d = d.setter(put)
        return d

    puts = []
    ending = [False]

    def init(self, ident):
        self.ident = ident
        ASyncGenericBase.__init__(self)
    ns["__init__"] = init
    for p, s in enumerate(spec["props"]):
        ns["p%d" % p] = make(p, s)
    cls = type(ASyncGenericBase)("C", (ASyncGenericBase,), ns)
    insts = [cls(i) for i in range(spec["insts"])]
    readers = []

    async def reader(op, i, p, canceller):
        c = cell(i, p)
        name = "p%d" % p
        start = tick()
        known = c.cached
        inst = insts[i]
        if op["how"] == "direct":
            aw = getattr(inst, name)
        else:
            aw = getattr(inst, "__%s__" % name)
            if op["how"] == "call":
                aw = aw()
        if op["hold"]:
            await delay(op["hold"])
        running = c.current
        began, at = tick(), now()
        before = c.cached
        try:
            v = await aw
        except CancelledError:
            require(canceller.get("done"), "%s: an undisturbed reader was cancelled", c.name)
            return
        except Violation:
            raise
        except Exception as e:
            end = tick()
            if isinstance(e, Violation):
                raise
            require(any(type(e) is x and e.args[:len(a)] == a and f <= end and (f >= began or t == at) for t, f, x, a in c.errors),
                    "%s: raised %r, the failed computations are %r", c.name, e, c.errors)
            case.label("failure seen")
            return
        end = tick()
        if isinstance(v, Violation):
            raise v
        allowed = [x for s, x in c.values if s <= end and s >= start]
        if before is not None and not op["hold"]:
            allowed = [before[0]]
        else:
            allowed += [x[0] for x in (known, before) if x]
        require(any(v is x for x in allowed), "%s: read %r, expected one of %r", c.name, v, allowed)
        if c.cached and c.cached[0] is v:
            c.sure = True
        if running is not None:
            case.label("joined a computation")
            case.mark()

    async def play(op):
        await delay(op["t"], op["y"])
        i, p = op["inst"] % len(insts), op["prop"] % len(spec["props"])
        c = cell(i, p)
        name = "p%d" % p
        if op["op"] == "set":
            v = Value(c.name, "set", tick())
            n = len(puts)
            setattr(insts[i], name, v)
            if c.current:
                case.label("replaced during a computation")
            c.cached, c.sure, c.current, c.set_at = (v,), True, None, now()
            c.values.append((clock[0], v))
            if spec["setter"]:
                require(puts[n:] == [(i, p, v)], "%s: the setter got %r", c.name, puts[n:])
            case.label("set")
            return
        if op["op"] == "del":
            try:
                delattr(insts[i], name)
            except KeyError:
                require(not c.sure or c.cached is None, "%s: nothing to delete although %r is cached", c.name, c.cached)
            else:
                require(c.cached is not None, "%s: deleted a value that is not cached", c.name)
                c.cached, c.sure = None, False
                case.label("deleted")
            return
        tasks = []
        for k in range(op["n"]):
            canceller = {}
            t = asyncio.create_task(reader(op, i, p, canceller))
            at = op["cancel"][k] if k < len(op["cancel"]) else None
            tasks.append((t, at, canceller))
            readers.append(t)
        for t, at, canceller in sorted((x for x in tasks if x[1] is not None), key=lambda x: x[1]):
            asyncio.create_task(cancel(t, at, canceller))

    async def cancel(t, at, canceller):
        await delay(at)
        if not t.done():
            canceller["done"] = True
            t.cancel()
            case.label("cancelled reader")

    plays = [asyncio.create_task(play(op)) for op in spec["ops"]]
    await settle(plays)
    for t in plays:
        t.result()
    await asyncio.sleep(50)
    for t in readers:
        require(t.done(), "a reader never finished")
        if not t.cancelled():
            t.result()
    rec_.check()
    for c in cells.values():
        require(c.current is None, "%s: a computation never finished", c.name)
    ending[0] = True
    # what is cached in the end stays, for every instance on its own
    for (i, p), c in cells.items():
        if c.cached:
            require(await getattr(insts[i], "p%d" % p) is c.cached[0], "%s: the cached value changed", c.name)
            require(await getattr(insts[i], "__p%d__" % p) is c.cached[0], "%s: the hidden getter gives another value", c.name)
    rec_.check()


# ------------------------------------------------------------------ histories in both modes
def strategy_histories():
    base = p04.strategy()
    op = weighted(
        (10, rec(op=st.just("read"), inst=small, name=tiny, how=st.sampled_from(["direct", "direct", "direct", "hidden", "call", "flag"]),
                 flag=st.tuples(st.sampled_from(["sync", "asynchronous"]), st.booleans()).map(list),
                 where=st.sampled_from(["in", "out", "thread"]), then=st.sampled_from(["await", "await", "drop", "task", "hold"]))),
        (1, rec(op=st.just("set"), inst=small, name=tiny, value=st.integers(0, len(POOL) - 1))),
        (2, rec(op=st.just("del"), inst=small, name=tiny)),
        (1, rec(op=st.just("held"))),
        (1, rec(op=st.just("gc"))),
    )
    return st.tuples(base, st.lists(op, min_size=5, max_size=16), st.booleans()).map(lambda x: dict(x[0], ops=x[1], setter=x[2]))


def with_setter(aka):
    """Give every property a setter and a deleter, which are told about every change."""
    def wrap(d, g):
        def put(self, value):
            self.__dict__.setdefault("puts", []).append((g.__name__, value))

        def rem(self):
            self.__dict__.setdefault("puts", []).append((g.__name__,))
        put.__name__ = rem.__name__ = g.__name__
        return d.setter(put).deleter(rem)

    def outer(*args, **kw):
        if args and callable(args[0]):
            return wrap(aka(*args, **kw), args[0])
        d = aka(*args, **kw)
        return lambda g: wrap(d(g), g)
    return outer


def run_histories(spec, case):
    real, ideal = p04.Model(), p04.Model()
    prop, aka = a_sync.cached_property, a_sync.aka.cached_property
    if spec["setter"]:
        prop, aka = with_setter(prop), with_setter(aka)
        case.label("setter")
    classes, meanings = p04.make_classes(spec, real, prop, aka)
    insts = p04.make_instances(spec, classes)
    cache = {}
    held = []
    with Bench() as bench:
        for n, op in enumerate(spec["ops"]):
            if op["op"] == "gc":
                gc.collect()
                continue
            if op["op"] == "held":
                # awaitables that were looked up before
                for what, x, name, obj, key, p, ident, known in held:
                    before = len(real.log)
                    r = bench.inside(p04.awaited, x)
                    if known is not None and (ident, name) not in cache:
                        # looked up when there was a value: that value
                        require(r[0] == "ok" and r[1] is known[0], "%s: got %r instead of %r", what, r, known)
                        continue
                    expect(r, real, ideal, cache, key, p, ident, name, what, before, known, case)
                del held[:]
                continue
            obj, c, isync, ident = insts[op["inst"] % len(insts)]
            names = sorted(meanings[c])
            name = names[op["name"] % len(names)]
            key, p = meanings[c][name]
            puts = len(obj.__dict__.get("puts", []))
            if op["op"] == "set":
                setattr(obj, name, POOL[op["value"]])
                cache[ident, name] = POOL[op["value"]]
                case.label("set")
                if spec["setter"]:
                    require(obj.puts[puts:] == [(name, POOL[op["value"]])], "the setter of %s got %r", name, obj.puts[puts:])
                continue
            if op["op"] == "del":
                if (ident, name) not in cache:
                    continue
                delattr(obj, name)
                del cache[ident, name]
                case.label("deleted")
                if spec["setter"]:
                    require(obj.puts[puts:] == [(name,)], "the deleter of %s got %r", name, obj.puts[puts:])
                continue
            how, where = op["how"], op["where"]
            if spec["base"] == "plain":
                how = "direct"
            if how == "direct":
                if p["default"]:
                    sync = p["default"] == "sync"
                elif isync is not None:
                    sync = isync
                else:
                    sync = where != "in"
            elif how == "flag":
                sync = op["flag"][1] if op["flag"][0] == "sync" else not op["flag"][1]
            else:
                sync = False
            if sync and where == "in":
                where = "out"
            if not sync and where == "thread":
                where = "out"
                if spec["base"] == "plain" and not p["default"]:
                    sync = True
            if spec["base"] == "plain" and not p["default"]:
                sync = where != "in"
            what = "op %d: %s of %s instance %s, default %r, %s" % (n, key, {True: "sync", False: "async", None: "plain"}[isync], ident, p["default"], how)

            def read():
                if how == "direct":
                    return getattr(obj, name)
                h = getattr(obj, "__%s__" % name)
                if how == "hidden":
                    return h
                return h() if how == "call" else h(**{op["flag"][0]: op["flag"][1]})
            before = len(real.log)
            known = (cache[ident, name],) if (ident, name) in cache else None
            if where == "in":
                async def inside():
                    return [capture(read)]
                r = bench.loop.run_until_complete(inside())[0]
            elif where == "thread":
                r = in_thread(capture, read)
            else:
                r = capture(read)
            if not sync:
                require(r[0] == "ok" and inspect.isawaitable(r[1]), "%s: gave %r, not an awaitable", what, r)
                require(len(real.log) == before, "%s: the getter ran before the read was awaited", what)
                if op["then"] == "drop":
                    if inspect.iscoroutine(r[1]):
                        r[1].close()
                    continue
                if op["then"] == "hold" and how == "direct":
                    held.append((what, r[1], name, obj, key, p, ident, known))
                    case.label("held")
                    continue
                if op["then"] == "task":
                    r = bench.loop.run_until_complete(bench.loop.create_task(p04.awaited(r[1])))
                else:
                    r = bench.inside(p04.awaited, r[1])
            expect(r, real, ideal, cache, key, p, ident, name, what, before, None, case)
    if len({k[1] for k in cache}) < len(cache):
        case.label("one property on several instances")


def expect(r, real, ideal, cache, key, p, ident, name, what, before, known, case):
    if (ident, name) in cache:
        want = cache[ident, name]
        require(r[0] == "ok" and (r[1] is want or (known is not None and r[1] is known[0])), "%s: got %r, %r is cached", what, r, want)
        require(len(real.log) == before, "%s: the getter ran again", what)
        case.label("from the cache")
        case.mark()
        return
    want = capture(lambda: ideal.value(key, p, ident))
    p04.check(r, want, what)
    require(real.log[before:] == [(key, ident)], "%s: the getter ran %r", what, real.log[before:])
    if r[0] == "ok":
        cache[ident, name] = r[1]


# ------------------------------------------------------------------ overriding
def strategy_super():
    level = rec(sup=st.sampled_from([None, "prop", "hidden", "call"]), defines=st.sampled_from([True, True, True, False]), yields=tiny)
    op = weighted(
        (5, rec(op=st.just("read"), inst=tiny, how=st.sampled_from(["direct", "hidden", "call"]), n=st.integers(1, 2))),
        (1, rec(op=st.just("set"), inst=tiny)),
        (1, rec(op=st.just("del"), inst=tiny)),
    )
    return rec(levels=st.lists(level, min_size=2, max_size=3), insts=st.lists(tiny, min_size=1, max_size=3),
               default=st.sampled_from([None, "async"]), ops=st.lists(op, min_size=2, max_size=8))


def run_super(spec, case):
    log, classes, defs = [], [], []
    ns = {"LOG": log, "SPIN": spin, "a_sync": a_sync, "K_1": ASyncGenericBase}
    for n, lv in enumerate(spec["levels"]):
        lines = ["class K%d(%s):" % (n, "K%d" % (n - 1) if n else "K_1")]
        if not n:
            lines += ["    asynchronous = True"]
        defs.append(None)
        if lv["defines"] or not n:
            sup = lv["sup"] if n else None
            defs[-1] = sup
            e = {"prop": "await super().x", "hidden": "await super().__x__", "call": "await super().__x__(sync=False)", None: "None"}[sup]
            lines += ["    @a_sync.aka.cached_property(default=%r)" % spec["default"], "    async def x(self):", "        await SPIN(%d)" % lv["yields"],
                      "        v = %s" % e, "        LOG.append((%d, self.ident))" % n, "        return [%d, self.ident, v]" % n]
        else:
            defs[-1] = "absent"
            lines += ["    pass"]
        exec("\n".join(lines), ns)
        classes.append(ns["K%d" % n])
    insts = []
    for n, c in enumerate(spec["insts"]):
        obj = classes[c % len(classes)]()
        obj.ident = n
        insts.append((obj, c % len(classes)))
    cache = {}  # (instance, level) -> value

    def value(i, level, out):
        while defs[level] == "absent":
            level -= 1
        if (i, level) not in cache:
            v = value(i, level - 1, out) if defs[level] else None
            out.append((level, i))
            cache[i, level] = [level, i, v]
        return cache[i, level]

    async def main():
        for n, op in enumerate(spec["ops"]):
            i = op["inst"] % len(insts)
            obj, c = insts[i]
            top = c
            while defs[top] == "absent":
                top -= 1
            if op["op"] == "set":
                obj.x = cache[i, top] = ["set", n]
                continue
            if op["op"] == "del":
                if (i, top) in cache:
                    del obj.x
                    del cache[i, top]
                continue
            out = []
            before = len(log)
            if top and defs[top]:
                case.label("super")
                case.mark()

            async def read():
                return await (obj.x if op["how"] == "direct" else obj.__x__ if op["how"] == "hidden" else obj.__x__())
            want = value(i, c, out)
            for r in await asyncio.gather(*(read() for _ in range(op["n"]))):
                same(r, want, "op %d: x of instance %d of K%d" % (n, i, c))
            require(log[before:] == out, "op %d: ran %r, expected %r", n, log[before:], out)
    run(main)


SUBS = [
    Sub("readers", strategy, run_case, "a reader joined a running computation", quick=3000, thorough=40000, shards=4),
    Sub("histories", strategy_histories, run_histories, "a read was answered from the cache", quick=1500, thorough=15000, shards=4),
    Sub("overriding", strategy_super, run_super, "the getter read the property it overrides", quick=500, thorough=5000),
]
