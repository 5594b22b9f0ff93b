"""P04: generated classes with dual-mode properties, read in every way over several instances and compared with calling the getter: model-based testing"""
import gc
import inspect

import a_sync
from a_sync import ASyncGenericBase

from .common import *
from .dual import Bench, POOL, exc_of, in_thread, vals
from .p03 import capture

SPELL = ["direct", "aka", "aka()", "positional", "keyword"]


def strategy():
    result = weighted(
        (4, st.just(["ident"])),
        (3, st.tuples(st.just("value"), vals).map(list)),
        (2, st.tuples(st.just("raise"), st.integers(0, 9)).map(list)),
        (1, st.tuples(st.just("raise_once"), st.integers(0, 9)).map(list)),
    )
    prop = rec(name=tiny, is_async=one_of(st.just(True), st.just(True), st.just(False)), default=st.sampled_from([None, "sync", "async"]),
               spell=st.integers(0, 4), result=result, yields=tiny, uses=st.booleans())
    op = weighted(
        (10, rec(op=st.just("read"), inst=small, name=tiny, how=st.sampled_from(["direct", "direct", "direct", "hidden", "call", "flag"]),
                 flag=st.tuples(st.sampled_from(["sync", "asynchronous"]), st.booleans()).map(list),
                 where=st.sampled_from(["in", "out", "thread"]), then=st.sampled_from(["await", "await", "drop", "later", "task"]))),
        (1, rec(op=st.just("class"), name=tiny, cls=st.integers(0, 1))),
        (1, rec(op=st.just("gc"))),
    )
    return rec(base=st.sampled_from(["async", "async", "async", "plain"]), flag=st.sampled_from(["sync", "asynchronous"]), stems=weighted((2, st.just(0)), (1, st.integers(1, 2))),
               props=st.lists(prop, min_size=1, max_size=3), sub=st.lists(prop, max_size=2),
               insts=st.lists(rec(cls=st.integers(0, 1), mode=st.booleans()), min_size=1, max_size=3),
               ops=st.lists(op, min_size=4, max_size=14))


class Model:
    """The getters as plain functions."""

    def __init__(self):
        self.log = []
        self.counts = {}

    def value(self, key, p, ident):
        self.log.append((key, ident))
        n = self.counts[key, ident] = self.counts.get((key, ident), 0) + 1
        r = p["result"]
        if r[0] == "value":
            return POOL[r[1]]
        if r[0] == "raise" or (r[0] == "raise_once" and n == 1):
            raise exc_of(r[1])
        return [key, ident, n]


def stem(spec, p):
    return [["q0", "q1", "q2"], ["q_", "q", "q_1"], ["qué", "GETq", "q"]][spec.get("stems", 0)][p["name"]]


def getter(model, key, p, name):
    if p["is_async"]:
        async def get(self):
            await spin(p["yields"])
            return model.value(key, p, self.ident)
    else:
        def get(self):
            return model.value(key, p, self.ident)
    get.__name__ = get.__qualname__ = name
    get.__doc__ = "doc"
    return get


def decorate(p, g, prop, aka):
    d, s = p["default"], SPELL[p["spell"]]
    if d is None:
        return {"direct": prop, "aka": aka, "aka()": aka(), "positional": prop, "keyword": aka(default=None)}[s](g)
    if s in ("direct", "keyword"):
        return aka(default=d)(g)
    if s == "aka":
        return aka(g, default=d)
    return aka(d)(g)


def make_classes(spec, model, prop=None, aka=None):
    """The base class and a subclass, and for each the property that a name means."""
    prop, aka = prop or a_sync.property, aka or a_sync.aka.property
    flag = spec["flag"]

    def init(self, ident, **kw):
        self.ident = ident
        self.mode = kw.pop("mode", None)
        assert not kw

    if spec["base"] == "plain":
        ns = {"__init__": init}
        bases = ()
    else:
        if flag == "sync":
            def ainit(self, ident, sync):
                init(self, ident)
                self.sync = sync
                ASyncGenericBase.__init__(self)
        else:
            def ainit(self, ident, asynchronous):
                init(self, ident)
                self.asynchronous = asynchronous
                ASyncGenericBase.__init__(self)
        ns = {"__init__": ainit}
        bases = (ASyncGenericBase,)
    meanings = [{}, {}]
    for p in spec["props"]:
        key = "base.q%d" % p["name"]
        meanings[0][stem(spec, p)] = (key, p)
        ns[stem(spec, p)] = decorate(p, getter(model, key, p, stem(spec, p)), prop, aka)
    base = type(bases[0])("Base", bases, ns) if bases else type("Base", (), ns)
    meanings[1].update(meanings[0])
    ns = {}
    for p in spec["sub"]:
        key = "sub.q%d" % p["name"]
        meanings[1][stem(spec, p)] = (key, p)
        ns[stem(spec, p)] = decorate(p, getter(model, key, p, stem(spec, p)), prop, aka)
    sub = type(base)("Sub", (base,), ns)
    return [base, sub], meanings


def make_instances(spec, classes):
    out = []
    for n, s in enumerate(spec["insts"]):
        kw = {}
        if spec["base"] != "plain":
            kw[spec["flag"]] = s["mode"]
            sync = s["mode"] if spec["flag"] == "sync" else not s["mode"]
        else:
            sync = None
        out.append((classes[s["cls"]]("i%d" % n, **kw), s["cls"], sync, "i%d" % n))
    return out


def check(got, want, what):
    """The value by identity where there is one, the exception by type and leading arguments."""
    require(got[0] == want[0], "%s: got %r, the getter gives %r", what, got, want)
    g, w = got[1], want[1]
    if got[0] == "ok":
        if type(w) is list and w and isinstance(w[0], str) and "q" in w[0]:
            require(g == w, "%s: got %r, the getter gives %r", what, g, w)
        else:
            require(g is w, "%s: got %r, the getter gives %r", what, g, w)
    else:
        require(type(g) is type(w) and g.args[:len(w.args)] == w.args, "%s: raised %r, the getter raises %r", what, g, w)


async def awaited(x):
    try:
        return "ok", await x
    except Exception as e:
        return "raise", e


def run_case(spec, case):
    real, ideal = Model(), Model()
    classes, meanings = make_classes(spec, real)
    insts = make_instances(spec, classes)
    later = []
    modes = set()
    with Bench() as bench:
        for n, op in enumerate(spec["ops"]):
            if op["op"] == "gc":
                gc.collect()
                continue
            if op["op"] == "class":
                names = sorted(meanings[op["cls"]])
                name = names[op["name"] % len(names)]
                d = getattr(classes[op["cls"]], name)
                require(isinstance(d, a_sync.property) and d.__name__ == name and d.__doc__ == "doc",
                        "the property read from the class is %r", d)
                continue
            obj, c, isync, ident = insts[op["inst"] % len(insts)]
            names = sorted(meanings[c])
            name = names[op["name"] % len(names)]
            key, p = meanings[c][name]
            how, where = op["how"], op["where"]
            if spec["base"] == "plain":
                how = "direct"
            # the mode of this read
            if how == "direct":
                if p["default"]:
                    sync = p["default"] == "sync"
                elif isync is not None:
                    sync = isync
                    case.mark()
                    modes.add((key, sync))
                else:
                    sync = where != "in"
            elif how == "flag":
                sync = op["flag"][1] if op["flag"][0] == "sync" else not op["flag"][1]
            else:
                sync = False
            if sync and where == "in":
                where = "out"
            if not sync and where == "thread":
                where = "out"
                if spec["base"] == "plain" and not p["default"]:
                    sync = True
            if spec["base"] == "plain" and not p["default"]:
                sync = where != "in"
            what = "op %d: %s of %s instance %s, default %r, %s" % (n, key, {True: "sync", False: "async", None: "plain"}[isync], ident, p["default"], how)
            case.label(how, "sync" if sync else "async")

            def read():
                if how == "direct":
                    return getattr(obj, name)
                h = getattr(obj, "__%s__" % name)
                if how == "hidden":
                    return h
                return h() if how == "call" else h(**{op["flag"][0]: op["flag"][1]})
            before = len(real.log)
            if where == "in":
                async def inside():
                    return [capture(read)]
                r = bench.loop.run_until_complete(inside())[0]
            elif where == "thread":
                r = in_thread(capture, read)
            else:
                r = capture(read)
            if not sync:
                require(r[0] == "ok" and inspect.isawaitable(r[1]), "%s: gave %r, not an awaitable", what, r)
                require(len(real.log) == before, "%s: the getter ran before the read was awaited", what)
                if op["then"] == "drop":
                    if inspect.iscoroutine(r[1]):
                        r[1].close()
                    case.label("dropped")
                    continue
                if op["then"] == "later":
                    later.append((what, r[1], key, p, ident))
                    continue
                x = r[1]
                if op["then"] == "task":
                    x = bench.loop.create_task(awaited(x))
                    r = bench.loop.run_until_complete(x)
                else:
                    r = bench.inside(awaited, x)
            want = capture(lambda: ideal.value(key, p, ident))
            check(r, want, what)
            require(real.log[before:] == [(key, ident)], "%s: the getter ran %r", what, real.log[before:])
        if later:
            case.label("concurrent")
            before = len(real.log)

            async def both():
                return await asyncio.gather(*(awaited(x) for _, x, _, _, _ in later))
            got = bench.loop.run_until_complete(both())
            require(sorted(real.log[before:]) == sorted((k, i) for _, _, k, _, i in later), "the concurrent reads ran %r", real.log[before:])
            for (what, _, key, p, ident), r in zip(later, got):
                if p["result"][0] in ("value", "raise"):
                    check(r, capture(lambda: ideal.value(key, p, ident)), what)
                elif p["result"][0] == "ident":
                    require(r[0] == "ok" and r[1][:2] == [key, ident], "%s: got %r", what, r)
    if len({k for k, _ in modes}) < len(modes):
        case.label("one property in both modes")
    if spec["sub"]:
        case.label("overriding subclass")


SUBS = [
    Sub("reads", strategy, run_case, "the mode of an instance decided the mode of a read", quick=3000, thorough=30000, shards=4),
]
