"""P01: equivalence of a dual-mode function and the undecorated function; generated signatures, arguments, outcomes and call modes: differential testing"""
import concurrent.futures

import a_sync
from a_sync.a_sync.function import ASyncFunction

from .common import *
from .dual import *

_threads = concurrent.futures.ThreadPoolExecutor(2)


def modifiers():
    return st.fixed_dictionaries({}, optional={
        "semaphore": st.sampled_from([1, 2, 50]),
        "runs_per_minute": st.just(1000000),
        "executor": st.sampled_from(["own", "default"]),
    })


def strategy():
    call = rec(args=st.lists(vals, max_size=4), kw=st.dictionaries(st.sampled_from(KWNAMES), vals, max_size=3),
               flag=flags, how=st.sampled_from(["await", "await", "await", "task", "later", "later", "drop"]),
               where=st.sampled_from(["in", "out", "out", "thread"]),
               # most generated calls must fit the signature
               fit=st.sampled_from([True, True, True, False]))
    return rec(sig=signatures(), is_async=st.booleans(), result=results(), yields=tiny,
               wrap=st.sampled_from(["def", "def", "def", "method", "wraps", "wraps_other"]),
               default=defaults, spell=st.integers(0, 5), mods=modifiers(),
               calls=st.lists(call, min_size=1, max_size=5))


def decorate(fn, spell, default, mods):
    mods = dict(mods)
    if "executor" in mods:
        mods["executor"] = {"own": _threads, "default": a_sync.a_sync.config.default_sync_executor}[mods["executor"]] \
            if hasattr(a_sync.a_sync, "config") else _threads
    if default is not None or spell % 2:
        kw = {"default": default}
    else:
        kw = {}
    if spell == 0:
        return a_sync.a_sync(fn, **kw, **mods)
    if spell == 1:
        return a_sync.a_sync(**kw, **mods)(fn)
    if spell == 2:
        return a_sync.a_sync(default, **mods)(fn) if default else a_sync.a_sync(**mods)(fn)
    if spell == 3:
        return a_sync.a_sync(coro_fn=fn, **kw, **mods)
    if spell == 4:
        return a_sync.a_sync(None, default, **mods)(fn)
    return ASyncFunction(fn, **kw, **mods)


def fit_call(sig, c):
    """Positional and keyword arguments of the call; mostly ones the signature accepts."""
    args = [POOL[i] for i in c["args"]]
    kw = {k: POOL[i] for k, i in c["kw"].items()}
    if c["fit"]:
        n = sig["po"] + sig["pk"]
        need = n - min(sig["nd"], n)
        if not sig["va"]:
            args = args[:n]
        while len(args) < need:
            args.append(POOL[(len(args) * 5 + 3) % 10])
        for i in range(sig["ko"]):
            if not sig["kd"] >> i & 1:
                kw.setdefault("k%d" % i, POOL[i + 7])
        names = {"a%d" % i for i in range(sig["pk"])}
        taken = {"a%d" % i for i in range(max(0, len(args) - sig["po"]))}
        for k in list(kw):
            if k in taken and k in names:
                del kw[k]
            elif k not in names and not sig["vk"] and not (k[0] == "k" and k[1:].isdigit() and int(k[1:]) < sig["ko"]):
                del kw[k]
    return args, kw


def run_case(spec, case):
    made = Made(spec["sig"], spec["is_async"], spec["result"], spec["yields"], spec["wrap"])
    twin = Made(spec["sig"], spec["is_async"], spec["result"], spec["yields"], spec["wrap"])
    f = decorate(made.fn, spec["spell"], spec["default"], spec["mods"])
    require(f.__name__ == made.fn.__name__, "the name of the function is %r", f.__name__)
    require(f.__wrapped__ == made.fn, "__wrapped__ is %r", f.__wrapped__)
    later = []
    with Bench() as bench:
        for n, c in enumerate(spec["calls"]):
            args, kw = fit_call(spec["sig"], c)
            given = dict(kw)
            flag = c["flag"]
            if flag:
                given[flag[0]] = flag[1]
            sync = is_sync_call(flag, spec["default"], spec["is_async"])
            where = c["where"]
            if sync and spec["is_async"] and where == "in":
                where = "out"  # refused, see P10
            if where == "thread" and ("runs_per_minute" in spec["mods"] or not sync):
                where = "out"
            before = len(made.log)
            args_copy, given_copy = list(args), dict(given)
            what = "call %d (%s)" % (n, "sync" if sync else "async")
            try:
                if where == "in":
                    async def call():
                        return [f(*args, **given)]
                    r = bench.loop.run_until_complete(call())[0]
                elif where == "thread":
                    r = in_thread(lambda: f(*args, **given))
                else:
                    r = f(*args, **given)
                got = ("ok", r)
            except BaseException as e:
                got = ("raise", e)
            require(len(args) == len(args_copy) and given == given_copy, "%s changed the caller's arguments", what)
            want = native(twin, args, kw)
            ran = len(twin.log)
            twin_log = list(twin.log)
            del twin.log[:]
            if want[0] == "raise":
                case.label("raises" if ran else "bad arguments")
            if ran:
                case.mark(bool(args or kw))
            if sync:
                case.label("sync call in " + where)
                compare(got, want, what)
                require(len(made.log) - before == ran, "%s ran the body %d times", what, len(made.log) - before)
                same_value(made.log[before:], twin_log, what + ": arguments")
                if spec["is_async"] is False and ran:
                    require(where == "thread" or made.threads[-1] == threading.get_ident(), "%s ran in another thread", what)
                continue
            require(len(made.log) == before, "%s ran the body before it was awaited", what)
            if got[0] == "raise":
                require(not ran, "%s raised %r before it was awaited", what, got[1])
                compare(got, want, what)
                continue
            require(inspect.isawaitable(got[1]), "%s returned %r, not an awaitable", what, got[1])
            if c["how"] == "drop":
                case.label("dropped")
                if hasattr(got[1], "close"):
                    got[1].close()
                continue
            if c["how"] == "later":
                later.append((what, got[1], want, twin_log))
                continue
            case.label("awaited")
            res = bench.loop.run_until_complete(awaited(got[1], c["how"] == "task"))
            compare(res, want, what)
            require(len(made.log) - before == ran, "%s ran the body %d times", what, len(made.log) - before)
            same_value(made.log[before:], twin_log, what + ": arguments")
        if later:
            case.label("concurrent" if len(later) > 1 else "kept")
            before = len(made.log)

            async def both():
                return await asyncio.gather(*(awaited(a, False) for _, a, _, _ in later))
            for (what, _, want, _), res in zip(later, bench.loop.run_until_complete(both())):
                compare(res, want, what)
            want_log = [e for _, _, _, lg in later for e in lg]
            got_log = made.log[before:]
            require(len(got_log) == len(want_log), "%d concurrent calls ran the body %d times", len(later), len(got_log))
            for e in want_log:
                for i, g in enumerate(got_log):
                    try:
                        same_value(g, e, "")
                    except Violation:
                        continue
                    del got_log[i]
                    break
                else:
                    raise Violation("no call ran with the arguments %r" % (e,))
        bench.inside(spin, 2)
        total = len(made.log)
    require(len(made.log) == total, "the body ran after the calls")


async def awaited(a, as_task):
    try:
        if as_task:
            return "ok", await asyncio.ensure_future(a)
        return "ok", await a
    except BaseException as e:
        return "raise", e


SUBS = [
    Sub("equivalence", strategy, run_case, "the body ran with at least one argument", quick=2500, thorough=25000, shards=2),
]
