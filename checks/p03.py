"""P03: generated class hierarchies of dual-mode objects driven by random histories of calls over several instances, compared with a model of the classes: model-based testing"""
import concurrent.futures
import copy
import gc
import inspect

import a_sync
from a_sync import ASyncGenericBase, ASyncIterator

from .common import *
from .dual import Bench, in_thread


class Inline(concurrent.futures.Executor):
    """Runs jobs where they are submitted, so that the virtual clock stays the only clock."""

    def submit(self, fn, /, *args, **kwargs):
        fut = concurrent.futures.Future()
        try:
            fut.set_result(fn(*args, **kwargs))
        except BaseException as e:
            fut.set_exception(e)
        return fut


INLINE = Inline()
KINDS = ["def", "async", "deco", "private", "dunder", "class", "gen", "prop"]


def strategy():
    meth = rec(name=st.integers(0, 2), kind=st.sampled_from(["def", "async", "async", "deco", "deco", "private", "dunder", "class", "gen", "prop"]),
               is_async=st.booleans(), default=st.sampled_from([None, "sync", "async"]), sup=st.booleans(), yields=tiny,
               aw=weighted((5, st.just(False)), (1, st.just(True))), deco_spell=tiny, fail=st.sampled_from([False, False, False, True]))
    klass = rec(base=st.integers(-1, 1), own=st.booleans(), val=st.booleans(), style=tiny, kwonly=st.booleans(), mixin=st.booleans(),
                meths=st.lists(meth, min_size=1, max_size=4))
    inst = rec(cls=tiny, flag=st.sampled_from([None, True, False]), other=st.booleans())
    op = weighted(
        (12, rec(op=st.just("call"), inst=small, name=st.integers(0, 2), kind=st.integers(0, 9), args=st.lists(st.integers(0, 5), max_size=2),
                 flag=one_of(st.none(), st.none(), st.tuples(st.sampled_from(["sync", "asynchronous"]), st.booleans()).map(list)),
                 where=st.sampled_from(["in", "out", "out", "thread"]),
                 how=st.sampled_from(["await", "await", "task", "later", "drop"]), held=st.booleans())),
        (1, rec(op=st.just("advance"), t=st.sampled_from([1, 150, 299, 300, 301, 700]))),
        (1, rec(op=st.just("copy"), inst=small)),
        (1, rec(op=st.just("gc"))),
        (1, rec(op=st.just("new"), spec=inst)),
    )
    return rec(virtual=st.booleans(), flag=st.sampled_from(["sync", "asynchronous"]), family=st.sampled_from(["init", "attr"]), stems=weighted((2, st.just(0)), (1, st.integers(1, 3))),
               classes=st.lists(klass, min_size=1, max_size=3), insts=st.lists(inst, min_size=1, max_size=3),
               ops=st.lists(op, min_size=5, max_size=14))


class Later(list):
    """A value that can itself be awaited; nobody but the caller may do that."""

    def __await__(self):
        yield
        return "awaited"


# only a leading underscore and a double one make a name private
STEMS = [["m0", "m1", "m2"], ["run_", "run", "run_1"], ["Größe", "GET", "x"], ["any", "a_sync_", "wrap_"]]


def attr_name(m, stems):
    n = STEMS[stems][m["name"]]
    return {"private": "_" + n, "dunder": n + "__x", "class": "c" + n, "gen": "g" + n, "prop": "p" + n}.get(m["kind"], n)


class World:
    def __init__(self, spec):
        self.spec = spec
        self.log = []
        self.bases = []
        self.defs = []  # per class: attribute -> method spec
        self.modes = []  # per class: None or ("init"|"set"|"attr"|"prop", value)
        self.classes = []
        flag = spec["flag"]
        ns = {"ASyncGenericBase": ASyncGenericBase, "a_sync": a_sync, "LOG": self.log, "SPIN": spin, "Boom": Boom, "INLINE": INLINE, "Later": Later, "ASyncIterator": ASyncIterator,
              "Mixin": type("Mixin", (), {"mixed": lambda self: self.ident})}
        for i, k in enumerate(spec["classes"]):
            base = k["base"] if k["base"] < i else i - 1
            self.bases.append(base)
            meths = {}
            for m in k["meths"]:
                meths[attr_name(m, spec["stems"])] = m
            self.defs.append(meths)
            own = k["own"] or base < 0
            mode = None
            if own:
                style = ("init" if k["style"] else "set") if spec["family"] == "init" else ("attr" if k["style"] else "prop")
                mode = (style, k["val"])
            self.modes.append(mode)
            name = "ASyncGenericBase" if base < 0 else "K%d" % base
            if k["mixin"] and base < 0:
                name = "Mixin, " + name if k["kwonly"] else name + ", Mixin"
            src = ["class K%d(%s):" % (i, name)]
            if spec["virtual"]:
                src.append("    executor = INLINE")
            if mode and mode[0] == "init":
                src.append("    def __init__(self, ident, %s%s=%r):" % ("*, " if k["kwonly"] else "", flag, mode[1]))
                src.append("        self.ident = ident\n        self.%s = %s\n        ASyncGenericBase.__init__(self)" % (flag, flag))
            elif mode and mode[0] == "set":
                src.append("    def __init__(self, ident):\n        self.ident = ident\n        self.%s = %r\n        ASyncGenericBase.__init__(self)" % (flag, mode[1]))
            elif base < 0:
                src.append("    def __init__(self, ident):\n        self.ident = ident\n        ASyncGenericBase.__init__(self)")
            if mode and mode[0] == "attr":
                src.append("    %s = %r" % (flag, mode[1]))
            elif mode and mode[0] == "prop":
                src.append("    @property\n    def %s(self):\n        return %r" % (flag, mode[1]))
            for a, m in meths.items():
                src.extend("    " + line for line in self.method_source(i, a, m))
            exec(compile("\n".join(src), "<generated K%d>" % i, "exec"), ns)
            self.classes.append(ns["K%d" % i])

    # ---- model
    def mro(self, c):
        while c >= 0:
            yield c
            c = self.bases[c]

    def find(self, c, attr):
        for k in self.mro(c):
            if attr in self.defs[k]:
                return k, self.defs[k][attr]
        return None

    def sup(self, k, attr):
        """The definition super() reaches from class k, when the body of k's one may call it."""
        m = self.defs[k][attr]
        if not m["sup"] or self.bases[k] < 0 or m["kind"] in ("class", "prop"):
            return None
        f = self.find(self.bases[k], attr)
        if f is None:
            return None
        mine, its = is_async_def(m), is_async_def(f[1])
        if m["kind"] == "gen":
            return f if f[1]["kind"] == "gen" else None
        if m["kind"] in ("private", "dunder"):
            return f if mine == its else None
        if its and not mine:
            return None
        return f

    def method_source(self, i, a, m):
        k = m["kind"]
        s = self.sup(i, a)
        call = ""
        if s:
            if k in ("private", "dunder"):
                call = ("await " if is_async_def(m) else "") + "super().%s(*args)" % a
            elif is_async_def(m):
                call = "await super().%s(*args, sync=False)" % a
            else:
                call = "super().%s(*args, sync=True)" % a
        fail = "    raise Boom(%d)" % i if m["fail"] and k not in ("class", "prop") else None
        out = []
        if k == "class":
            return ["@classmethod", "def %s(cls, *args):" % a, "    return [%d, %r, args]" % (i, a)]
        if k == "prop":
            return ["@property", "def %s(self):" % a, "    return [%d, %r, self.ident]" % (i, a)]
        if k == "gen":
            out += ["@ASyncIterator.wrap"] if m["deco_spell"] == 2 else []
            out += ["async def %s(self, *args):" % a, "    LOG.append((%d, %r, self.ident, args))" % (i, a), "    yield %d, self.ident" % i,
                    "    await SPIN(%d)" % m["yields"]]
            if s:
                out += ["    async for x in super().%s(*args):" % a, "        yield x"]
            out += ["    for x in args:", "        yield x"]
            if fail:
                out += [fail]
            return out
        if k == "deco":
            d = m["default"]
            out.append(["@a_sync.a_sync(default=%r)" % d, "@a_sync.a_sync(%s)" % (repr(d) if d else ""), "@a_sync.a_sync"][m["deco_spell"] if d is None else m["deco_spell"] % 2])
            if d is None and m["deco_spell"] == 1:
                out[-1] = "@a_sync.a_sync()"
        out += ["%sdef %s(self, *args):" % ("async " if is_async_def(m) else "", a)]
        if is_async_def(m):
            out += ["    await SPIN(%d)" % m["yields"]]
        out += ["    LOG.append((%d, %r, self.ident, args))" % (i, a)]
        if call:
            out += ["    r = " + call]
        if fail:
            out += [fail]
        # what a plain `def` may return that is awaitable is left open
        later = m["aw"] and is_async_def(m)
        out += ["    return %s[%d, %r, self.ident, args%s]%s" % ("Later(" if later else "", i, a, ", r" if call else "", ")" if later else "")]
        return out

    def value(self, k, attr, ident, args, log):
        m = self.defs[k][attr]
        log.append((k, attr, ident, args))
        r = [k, attr, ident, args]
        s = self.sup(k, attr)
        if s:
            r.append(self.value(s[0], attr, ident, args, log))
        if m["fail"]:
            raise Boom(k)
        return r

    def items(self, k, attr, ident, args, log):
        m = self.defs[k][attr]
        log.append((k, attr, ident, args))
        yield k, ident
        s = self.sup(k, attr)
        if s:
            yield from self.items(s[0], attr, ident, args, log)
        yield from args
        if m["fail"]:
            raise Boom(k)

    def instance_sync(self, c, flag):
        """The mode of an instance, and whether its constructor takes the flag."""
        for k in self.mro(c):
            mode = self.modes[k]
            if mode:
                v = mode[1]
                takes = mode[0] == "init"
                if takes and flag is not None:
                    v = flag
                return (v if self.spec["flag"] == "sync" else not v), takes
        raise HarnessError("no mode")


def is_async_def(m):
    if m["kind"] in ("def",):
        return False
    if m["kind"] in ("async", "gen"):
        return True
    return m["is_async"] if m["kind"] in ("deco", "private", "dunder") else False


def capture(f):
    try:
        return "ok", f()
    except Exception as e:
        return "raise", e


def equal(got, want, what):
    require(got[0] == want[0] and (got[1] == want[1] if got[0] == "ok" else type(got[1]) is type(want[1]) and got[1] == want[1]),
            "%s: got %r, the plain method gives %r", what, got, want)


def run_case(spec, case):
    w = World(spec)
    insts = []  # (object, class, sync, ident)

    def new(s, ident):
        c = s["cls"] % len(w.classes)
        sync, takes = w.instance_sync(c, s["flag"])
        kw = {}
        if takes and s["flag"] is not None:
            kw[spec["flag"]] = s["flag"]
        insts.append((w.classes[c](ident, **kw), c, sync, ident))

    for n, s in enumerate(spec["insts"]):
        new(s, "i%d" % n)
    later = []
    with Bench() as bench:
        if spec["virtual"]:
            bench.loop.close()
            bench.loop = VirtualLoop()
            asyncio.set_event_loop(bench.loop)
        run_ops(spec, case, w, insts, later, bench, new)
    modes = {(c, s) for _, c, s, _ in insts}
    if len({c for c, _ in modes}) < len(modes):
        case.label("one class in both modes")
    if any(w.sup(k, a) for k in range(len(w.classes)) for a in w.defs[k]):
        case.label("super call")


def run_ops(spec, case, w, insts, later, bench, new):
    held = {}
    for n, op in enumerate(spec["ops"]):
        kind = op["op"]
        if kind == "advance":
            if spec["virtual"]:
                bench.inside(asyncio.sleep, op["t"])
            continue
        if kind == "gc":
            gc.collect()
            continue
        if kind == "new":
            new(op["spec"], "n%d" % n)
            continue
        obj, c, isync, ident = insts[op["inst"] % len(insts)]
        if kind == "copy":
            if all(not (m["kind"] == "prop") for d in w.defs for m in d.values()) or True:
                dup = copy.copy(obj)
                dup.ident = "copy%d" % n
                insts.append((dup, c, isync, dup.ident))
                case.label("copy")
            continue
        attrs = sorted({a for k in w.mro(c) for a in w.defs[k]})
        # prefer the attribute with the wanted kind and name
        a = attrs[(op["name"] + 3 * op["kind"]) % len(attrs)]
        k, m = w.find(c, a)
        args = tuple(op["args"])
        what = "op %d: K%d(%s).%s (%s, defined by K%d)" % (n, c, "sync" if isync else "async", a, m["kind"], k)
        if m["kind"] == "class":
            equal(("ok", getattr(obj, a)(*args)), ("ok", [k, a, args]), what)
            equal(("ok", getattr(w.classes[c], a)(*args)), ("ok", [k, a, args]), what)
            continue
        if m["kind"] == "prop":
            equal(("ok", getattr(obj, a)), ("ok", [k, a, ident]), what)
            continue
        exp_log = []
        before = len(w.log)
        if m["kind"] == "gen":
            want_items, want_end = [], None
            try:
                for x in w.items(k, a, ident, args, exp_log):
                    want_items.append(x)
            except Boom as e:
                want_end = e
            got, end = [], None
            try:
                if op["where"] == "in":
                    async def consume():
                        async for x in getattr(obj, a)(*args):
                            got.append(x)
                    bench.inside(consume)
                elif op["where"] == "thread":
                    def consume():
                        for x in getattr(obj, a)(*args):
                            got.append(x)
                    in_thread(consume)
                else:
                    for x in getattr(obj, a)(*args):
                        got.append(x)
            except Boom as e:
                end = e
            require(got == want_items and end == want_end, "%s: yielded %r then %r, expected %r then %r", what, got, end, want_items, want_end)
            require(w.log[before:] == exp_log, "%s: ran %r", what, w.log[before:])
            case.label("generator")
            continue
        want = capture(lambda: w.value(k, a, ident, args, exp_log))
        if m["kind"] in ("private", "dunder"):
            r = capture(lambda: getattr(obj, a)(*args))
            if is_async_def(m):
                require(inspect.iscoroutine(r[1]), "%s: is not the plain coroutine function: %r", what, r)
                r = bench.inside(awaited, r[1])
            equal(r, want, what)
            require(w.log[before:] == exp_log, "%s: ran %r", what, w.log[before:])
            case.label("untouched name")
            continue
        flag = op["flag"]
        kw = {flag[0]: flag[1]} if flag else {}
        if flag:
            sync = flag[1] if flag[0] == "sync" else not flag[1]
            case.label("flag")
        elif m["kind"] == "deco" and m["default"]:
            sync = m["default"] == "sync"
            case.label("default")
        elif is_async_def(m):
            sync = isync
            case.label("instance mode")
            case.mark()
        else:
            # a plain `def` runs synchronously unless it is told otherwise, see DESIGN.md
            sync = True
        what += " flag %r" % (flag,)
        where = op["where"]
        if where == "in" and sync and (is_async_def(m) or True) and is_async_def(m):
            where = "out"
        if where == "thread" and not sync:
            where = "out"
        key = (op["inst"] % len(insts), a)
        if op["held"]:
            # a method that was looked up before
            bound = held.get(key)
            if bound is None:
                bound = held[key] = getattr(obj, a)

            def call():
                return bound(*args, **kw)
        else:
            def call():
                return getattr(obj, a)(*args, **kw)
        if where == "in":
            async def incall():
                return [capture(call)]
            r = bench.loop.run_until_complete(incall())[0]
        elif where == "thread":
            r = in_thread(capture, call)
        else:
            r = capture(call)
        if sync:
            if r[0] == "ok" and inspect.isawaitable(r[1]) and not isinstance(r[1], Later):
                r[1].close()
                raise Violation("%s: returned an awaitable" % what)
            equal(r, want, what)
            require(w.log[before:] == exp_log, "%s: ran %r, expected %r", what, w.log[before:], exp_log)
            continue
        require(r[0] == "ok" and inspect.isawaitable(r[1]), "%s: gave %r, not an awaitable", what, r)
        require(len(w.log) == before, "%s: ran before it was awaited", what)
        if op["how"] == "drop":
            r[1].close()
        elif op["how"] == "later":
            later.append((what, r[1], want, exp_log))
        else:
            equal(bench.inside(awaited, asyncio.ensure_future(r[1], loop=bench.loop) if op["how"] == "task" else r[1]), want, what)
            require(w.log[before:] == exp_log, "%s: ran %r, expected %r", what, w.log[before:], exp_log)
    if later:
        case.label("concurrent")
        before = len(w.log)

        async def both():
            return await asyncio.gather(*(awaited(x) for _, x, _, _ in later))
        for (what, _, want, _), r in zip(later, bench.loop.run_until_complete(both())):
            equal(r, want, what)
        require(sorted(map(repr, w.log[before:])) == sorted(repr(e) for _, _, _, lg in later for e in lg),
                "the concurrent calls ran %r", w.log[before:])


async def awaited(x):
    try:
        return "ok", await x
    except Exception as e:
        return "raise", e


# ------------------------------------------------------------------ the documented examples
def strategy_doc():
    # "temporary" and "sync def" are known findings, they are only replayed
    return rec(example=st.sampled_from(["held", "private mode error"]))


def run_doc(spec, case):
    class C(ASyncGenericBase):
        asynchronous = True

        def plain(self):
            return 5

        async def coro(self):
            return 6

    case.mark()
    with Bench() as bench:
        if spec["example"] == "temporary":
            async def main():
                return await C().coro()
            same(bench.inside(main), 6, "await C().coro()")
            same(C().coro(sync=True), 6, "C().coro(sync=True)")
        elif spec["example"] == "sync def":
            async def main():
                return await C().plain()
            c = C()

            async def main():
                return await c.plain()
            try:
                r = bench.inside(main)
            except TypeError as e:
                raise Violation("await c.plain() on an async instance: %s" % e)
            same(r, 5, "await c.plain()")
        elif spec["example"] == "held":
            c = C()

            async def main():
                return await c.coro()
            same(bench.inside(main), 6, "await c.coro()")
            same(c.coro(sync=True), 6, "c.coro(sync=True)")
        else:
            class D(ASyncGenericBase):
                async def coro(self):
                    return 1
            try:
                r = D().coro()
            except a_sync.exceptions.NoFlagsFound:
                pass
            else:
                raise Violation("a class without a mode gave %r" % (r,))


SUBS = [
    Sub("hierarchies", strategy, run_case, "the mode of an instance decided the mode of a call", quick=3000, thorough=30000, shards=5),
    Sub("documented", strategy_doc, run_doc, "always", quick=4, thorough=4, debug=False),
]
