"""Generated functions for the dual-mode checks (P01, P02, P07, P10, P30)."""
import asyncio
import functools
import inspect
import threading

from .common import *
from vlib.vloop import RealLoop, _drain


class Bang(BaseException):
    pass


class Unhashable:
    __hash__ = None

    def __eq__(self, other):
        return self is other


class Later:
    """A value that can itself be awaited; nobody but its owner may do that."""

    def __await__(self):
        yield
        return "awaited"


# the objects generated functions get and return; compared by identity
POOL = [None, True, False, 0, 1, -7, "", "sync", 0.0, 1.5, (), [], {}, [1, [2]], {"k": None}, {"sync": True}, object(),
        Unhashable(), Boom(9), int, print, b"x", frozenset([1]), float("nan"), asyncio, "asynchronous", Ellipsis, NotImplemented, Later()]
KWNAMES = ["a0", "a1", "a2", "p0", "k0", "k1", "x", "fn", "func", "function", "args", "kwargs", "executor", "coro_fn",
           "loop", "default", "modifiers", "instance", "owner", "flag", "name", "semaphore", "callback", "timeout", "cls",
           "self", "fut", "fn", "instance", "item", "key", "coro", "self", "fn", "fut"]


def exc_of(n):
    return [lambda: Boom(1), lambda: KeyError("k"), lambda: ValueError(), lambda: RuntimeError("x"), lambda: Boom2(2),
            lambda: ZeroDivisionError("z"), lambda: AttributeError("a", 1), lambda: TypeError("t"), lambda: asyncio.TimeoutError(),
            lambda: IndexError(), lambda: Bang(3), lambda: AssertionError(), lambda: OSError(2, "o"),
            lambda: NotImplementedError(), lambda: StopAsyncIteration(4)][n % 15]()


N_EXC = 15
vals = st.integers(0, len(POOL) - 1)


def signatures():
    return rec(po=tiny, pk=tiny, nd=tiny, va=st.booleans(), ko=tiny, kd=st.integers(0, 3), vk=st.booleans())


def results():
    return weighted(
        (3, st.tuples(st.just("args")).map(list)),
        (3, st.tuples(st.just("value"), vals).map(list)),
        (2, st.tuples(st.just("raise"), st.integers(0, N_EXC - 1)).map(list)),
        (1, st.tuples(st.just("first")).map(list)),
    )


def source(sig, is_async, name="f", extra=()):
    """Source of a function with the signature whose body hands all its arguments to BODY."""
    names, parts = [], []
    pos = ["p%d" % i for i in range(sig["po"])] + ["a%d" % i for i in range(sig["pk"])]
    first_default = len(pos) - min(sig["nd"], len(pos))
    for i, n in enumerate(pos):
        parts.append(n + ("=%r" % ("d" + n) if i >= first_default else ""))
        names.append(n)
        if sig["po"] and i == sig["po"] - 1:
            parts.append("/")
    kw = ["k%d" % i for i in range(sig["ko"])]
    if sig["va"]:
        parts.append("*va")
        names.append("va")
    elif kw or extra:
        parts.append("*")
    for i, n in enumerate(kw):
        parts.append(n + ("=%r" % ("d" + n) if sig["kd"] >> i & 1 else ""))
        names.append(n)
    parts.extend(extra)
    if sig["vk"]:
        parts.append("**vk")
        names.append("vk")
    given = "[%s]" % ", ".join("(%r, %s)" % (n, n) for n in names)
    if is_async:
        return "async def %s(%s):\n    'doc of %s'\n    return await BODY(%s)\n" % (name, ", ".join(parts), name, given)
    return "def %s(%s):\n    'doc of %s'\n    return BODY(%s)\n" % (name, ", ".join(parts), name, given)


class Made:
    """A function built from a spec, with its invocation log."""

    def __init__(self, sig, is_async, result, yields=0, wrap="def", name="f"):
        self.log = []
        self.raised = []
        self.threads = []

        def act(given):
            self.log.append(given)
            self.threads.append(threading.get_ident())
            kind = result[0]
            if kind == "raise":
                e = exc_of(result[1])
                self.raised.append(e)
                raise e
            if kind == "value":
                return POOL[result[1]]
            if kind == "first":
                for n, v in given:
                    return v
                return None
            return given

        async def async_act(given):
            await spin(yields)
            return act(given)

        ns = {"BODY": async_act if is_async else act}
        exec(compile(source(sig, is_async, name), "<generated %s>" % name, "exec"), ns)
        self.fn = ns[name]
        if wrap == "method":
            class Holder:
                pass

            fn = self.fn
            if is_async:
                async def m(self, /, *args, **kwargs):
                    return await fn(*args, **kwargs)
            else:
                def m(self, /, *args, **kwargs):
                    return fn(*args, **kwargs)
            Holder.m = m
            self.holder = Holder()
            self.fn = self.holder.m
        elif wrap in ("wraps", "wraps_other"):
            # a function decorated with functools.wraps, around one of its own kind or of the other kind
            fn = self.fn
            other = ns[name]
            if wrap == "wraps_other":
                exec(compile(source(sig, not is_async, name), "<generated %s>" % name, "exec"), ns)
                other = ns[name]
            if is_async:
                @functools.wraps(other)
                async def m(*args, **kwargs):
                    return await fn(*args, **kwargs)
            else:
                @functools.wraps(other)
                def m(*args, **kwargs):
                    return fn(*args, **kwargs)
            self.fn = m


def same_value(got, want, what):
    """Identity for leaves of the pool, structure for the argument records."""
    if got is want:
        return
    if type(got) is type(want) and isinstance(got, (list, tuple, dict)):
        if isinstance(got, dict):
            require(list(got) == list(want), "%s: keys %r, expected %r", what, list(got), list(want))
            for k in got:
                same_value(got[k], want[k], what)
            return
        require(len(got) == len(want), "%s: got %r, expected %r", what, got, want)
        for a, b in zip(got, want):
            same_value(a, b, what)
        return
    if isinstance(got, str) and isinstance(want, str) and got == want:
        return
    raise Violation("%s: got %r, expected %r" % (what, got, want))


def native(made, args, kw):
    """Outcome of the undecorated function: ("ok", value) or ("raise", exc)."""
    try:
        r = made.fn(*args, **kw)
        if inspect.iscoroutine(r):
            r = drive_coro(r)
        return "ok", r
    except BaseException as e:
        return "raise", e


def drive_coro(coro):
    """Run a coroutine that only ever spins, without any loop."""
    while True:
        try:
            coro.send(None)
        except StopIteration as e:
            return e.value


def compare(got, want, what):
    require(got[0] == want[0], "%s: got %r, the undecorated function gives %r", what, got, want)
    if want[0] == "raise":
        require(type(got[1]) is type(want[1]) and got[1].args == want[1].args,
                "%s: raised %r, the undecorated function raises %r", what, got[1], want[1])
    else:
        same_value(got[1], want[1], what)


def is_sync_call(flag, default, is_async):
    """The documented resolution: flag, then default, then the kind of the function."""
    if flag is not None:
        return flag[1] if flag[0] == "sync" else not flag[1]
    if default is not None:
        return default == "sync"
    return not is_async


flags = one_of(st.none(), st.none(), st.tuples(st.sampled_from(["sync", "asynchronous"]), st.booleans()).map(list))
defaults = st.sampled_from([None, "sync", "async"])


class Bench:
    """A real loop that is set as the thread's event loop, running or not."""

    def __enter__(self):
        self.loop = RealLoop()
        asyncio.set_event_loop(self.loop)
        return self

    def inside(self, f, *args):
        async def main():
            r = f(*args)
            if inspect.iscoroutine(r):
                r = await r
            return r
        return self.loop.run_until_complete(main())

    def __exit__(self, *exc):
        try:
            _drain(self.loop)
        finally:
            self.loop.close()
            asyncio.set_event_loop(None)


def in_thread(f, *args):
    out = []

    def target():
        try:
            out.append(("ok", f(*args)))
        except BaseException as e:
            out.append(("raise", e))
        try:
            loop = asyncio.get_event_loop_policy()._local._loop
            if loop is not None:
                loop.close()
        except AttributeError:
            pass

    t = threading.Thread(target=target)
    t.start()
    t.join()
    if out[0][0] == "raise":
        raise out[0][1]
    return out[0][1]
