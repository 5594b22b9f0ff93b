"""P28: generated expressions over lazy futures with shared subexpressions, evaluated synchronously, by awaiting and by concurrent awaiters, compared with the same expression over plain values: model-based differential testing"""
import asyncio
import operator
from decimal import Decimal
from fractions import Fraction

import a_sync
from a_sync import ASyncFuture, ASyncGenericBase, future

from .common import *
from .dual import in_thread
from .p03 import INLINE
from vlib.vloop import _drain

VALUES = [0, 1, 2, -3, 4, 0.5, -2.0, True, Decimal("1.5"), Fraction(1, 3), "a", "ab", [1, 2], [], (1, "x"), {1: 2}, b"xy", None, {"k": 5}, "2"]
OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "**": operator.pow, "/": operator.truediv, "//": operator.floordiv,
       ">": operator.gt, ">=": operator.ge, "<": operator.lt, "<=": operator.le}
KINDS = ["future", "future", "future", "async function", "sync function", "method", "class method", "plain", "plain", "coroutine", "task"]
ATTRS = ["real", "denominator", "upper", "count", "nothing", "keys", "is_integer"]


def strategy():
    number = st.sampled_from([0, 1, 2, 2, 3, 4, 4, 5, 6, 7, 8, 9])
    leaf = rec(kind=st.sampled_from(KINDS), v=weighted((3, number), (1, st.integers(0, len(VALUES) - 1))), d=small,
               fail=st.sampled_from([None, None, None, None, None, 0, 1, 2]), args=st.booleans())
    node = rec(op=st.sampled_from(list(OPS)), a=st.integers(0, 11), b=st.integers(0, 11))
    use = rec(node=st.integers(0, 11), how=st.sampled_from(["await", "await", "result", "result", "bool", "int", "float", "str", "==", "in", "getitem", "attr", "list",
                                                            "thread", "bytes", "!=", "repr"]),
              other=st.integers(0, 11), v=st.integers(0, len(VALUES) - 1), key=st.sampled_from([0, 1, -1, 5, "k", "a"]), attr=st.sampled_from(ATTRS), t=small)
    return rec(leaves=st.lists(leaf, min_size=1, max_size=4), nodes=st.lists(node, max_size=6), uses=st.lists(use, min_size=1, max_size=5),
               mode=st.sampled_from(["sync", "sync", "concurrent", "concurrent"]))


def fail(n):
    return [lambda: Boom(n), lambda: ValueError("v"), lambda: RuntimeError("mine")][n]()


class Node:
    """An expression in both worlds.  fut is None for a plain value; out is the plain outcome:
    ("ok", value) or ("raise", set of possible exception types)."""

    def __init__(self, fut, out, leaves, cost):
        self.fut, self.out, self.leaves, self.cost = fut, out, leaves, cost


def outcome_of(f, *outs):
    bad = set()
    for o in outs:
        if o[0] == "raise":
            bad |= o[1]
    if bad:
        return "raise", bad
    try:
        return "ok", f(*[o[1] for o in outs])
    except Exception as e:
        return "raise", {type(e)}


def agree(got, want, what):
    if want[0] == "raise":
        require(got[0] == "raise" and type(got[1]) in want[1], "%s gave %r, the plain values raise one of %r", what, got, want[1])
    else:
        require(got[0] == "ok" and type(got[1]) is type(want[1]) and got[1] == want[1], "%s gave %r, the plain values give %r", what, got, want[1])


def grab(f):
    try:
        return "ok", f()
    except Exception as e:
        return "raise", e


class World:
    def __init__(self, spec):
        self.runs = {}
        self.nodes = []
        self.used = set()
        self.singles = set()
        self.uses = {}
        for i, lf in enumerate(spec["leaves"]):
            self.nodes.append(self.leaf(i, lf))
        for n in spec["nodes"]:
            self.nodes.append(self.op(n))

    def leaf(self, i, lf):
        v = VALUES[lf["v"]]
        kind = lf["kind"]
        if kind == "plain":
            return Node(None, ("ok", v), set(), 0)
        self.runs[i] = 0
        me = self

        def act():
            me.runs[i] += 1
            if lf["fail"] is not None:
                raise fail(lf["fail"])
            return v

        async def body(*args, **kw):
            require(not kw or kw == {"self": 3, "fn": 4}, "the function got %r", kw)
            if lf["d"]:
                await asyncio.sleep(lf["d"])
            return act()
        out = ("raise", {type(fail(lf["fail"]))}) if lf["fail"] is not None else ("ok", v)
        cost = lf["d"]
        if kind in ("future", "coroutine", "task"):
            f = body()
            if kind == "future":
                f = ASyncFuture(f)
            elif kind == "task":
                f = asyncio.get_event_loop().create_task(f)
        elif kind == "async function":
            f = (future(body) if i % 2 else future()(body))(*([1] if lf["args"] else []), **({"self": 3, "fn": 4} if i % 3 == 1 else {}))
        elif kind == "sync function":
            def sync_body(*args):
                return act()
            f = future(executor=INLINE)(sync_body)(*([1] if lf["args"] else []))
            cost = 0
        else:
            class C:
                def __init__(self, k):
                    self.k = k

                @future
                async def m(self, x):
                    require(self.k == i and x == 7, "the method got %r and %r", self.k, x)
                    return await body()
            c = C(i)
            C(-1)
            f = c.m(7) if kind == "method" else C.m(c, 7)
        if not isinstance(f, ASyncFuture):
            if kind not in ("coroutine", "task"):
                raise Violation("a %s gave %r" % (kind, f))
            if kind == "coroutine":
                self.singles.add(i)
        return Node(f, out, {i}, cost)

    def pick(self, k, taken=()):
        n = len(self.nodes)
        for j in range(n):
            c = (k + j) % n
            if c in self.singles and (c in self.used or c in taken):
                continue
            return c
        return None

    def op(self, n):
        a = self.pick(n["a"])
        b = self.pick(n["b"], (a,))
        if a is None or b is None:
            return Node(None, ("ok", 0), set(), 0)
        x, y = self.nodes[a], self.nodes[b]
        f = OPS[n["op"]]
        if n["op"] == "**":
            ok = all(o.out[0] == "ok" and isinstance(o.out[1], (int, float, Fraction)) and abs(o.out[1]) <= 10 for o in (x, y))
            if not ok and x.out[0] == y.out[0] == "ok":
                f = operator.add
            if x.fut is None and isinstance(x.out[1], Fraction):
                # a Fraction does not ask its exponent: it takes the power of its float
                f = operator.add
        if n["op"] == "*" and any(o.out[0] == "ok" and isinstance(o.out[1], (int, Fraction)) and abs(o.out[1]) > 10**6 for o in (x, y)):
            f = operator.add
        if not (isinstance(x.fut, ASyncFuture) or isinstance(y.fut, ASyncFuture)):
            # nothing lazy is involved
            if x.fut is None and y.fut is None:
                return Node(None, ("ok", 1), set(), 0)
            return Node(ASyncFuture(self.none()), ("ok", None), set(), 0)
        for c in (a, b):
            if c in self.singles:
                self.used.add(c)
        fut = f(x.out[1] if x.fut is None else x.fut, y.out[1] if y.fut is None else y.fut)
        require(isinstance(fut, ASyncFuture), "%s of %r and %r gave %r", n["op"], x.fut, y.fut, fut)
        return Node(fut, outcome_of(f, x.out, y.out), x.leaves | y.leaves, max(x.cost, y.cost))

    async def none(self):
        return None


def run_case(spec, case):
    loop = VirtualLoop()
    asyncio.set_event_loop(loop)
    rec_ = Recorder()
    ran = set()
    try:
        w = World(spec)

        def target(u):
            # the last nodes are the deepest
            n = len(w.nodes)
            c = (n - 1 - u["node"]) % n
            for j in range(n):
                x = w.nodes[(c - j) % n]
                if isinstance(x.fut, ASyncFuture):
                    return x, (c - j) % n
            return None, 0

        def repeated(x):
            return x.leaves & ran

        if spec["mode"] == "sync":
            for k, u in enumerate(spec["uses"]):
                x, i = target(u)
                if x is None:
                    continue
                how = u["how"]
                f = x.fut
                v = VALUES[u["v"]]
                what = "%s of node %d" % (how, i)
                ok = x.out[0] == "ok"
                if how == "await":
                    async def aw():
                        return await f
                    start = loop.time()
                    agree(grab(lambda: loop.run_until_complete(aw())), x.out, what)
                    if ok and not repeated(x):
                        require(loop.time() - start <= x.cost, "%s took %s, the slowest call %s", what, loop.time() - start, x.cost)
                elif how == "result":
                    agree(grab(lambda: f.result()), x.out, what)
                elif how == "thread":
                    agree(grab(lambda: f.result()), x.out, what)
                    agree(grab(lambda: in_thread(f.result)), x.out, what)
                elif how in ("bool", "int", "float", "str", "list", "bytes"):
                    conv = {"bool": bool, "int": int, "float": float, "str": str, "list": list, "bytes": bytes}[how]
                    if how == "bytes" and ok and isinstance(x.out[1], int) and x.out[1] > 10**5:
                        continue
                    got, want = grab(lambda: conv(f)), outcome_of(conv, x.out)
                    if how == "list" and want[0] == "raise":
                        require(got[0] == "raise", "%s gave %r", what, got)  # not an operator: the type is open
                    else:
                        agree(got, want, what)
                elif how == "repr":
                    require(isinstance(repr(f), str), "no repr")
                elif how in ("==", "!="):
                    y = w.nodes[u["other"] % len(w.nodes)]
                    g, out = (y.fut, y.out) if isinstance(y.fut, ASyncFuture) and u["t"] > 1 else (v, ("ok", v))
                    op = operator.eq if how == "==" else operator.ne
                    if u["t"] == 1 and type(v) in (int, str):
                        agree(grab(lambda: op(g, f)), outcome_of(op, out, x.out), what)
                    else:
                        agree(grab(lambda: op(f, g)), outcome_of(op, x.out, out), what)
                        if g is y.fut:
                            ran.update(y.leaves)
                elif how == "in":
                    agree(grab(lambda: v in f), outcome_of(lambda a: v in a, x.out), what)
                elif how == "getitem":
                    agree(grab(lambda: f[u["key"]]), outcome_of(lambda a: a[u["key"]], x.out), what)
                elif how == "attr":
                    got = grab(lambda: getattr(f, u["attr"]))
                    want = outcome_of(lambda a: getattr(a, u["attr"]), x.out)
                    if want[0] == "ok" and callable(want[1]):
                        require(got[0] == "ok" and callable(got[1]), "%s gave %r", what, got)
                    else:
                        agree(got, want, what)
                if how != "repr":
                    ran.update(x.leaves)
                case.label(how, "raises" if not ok else "value")
        else:
            async def awaiter(u):
                x, i = target(u)
                if x is None:
                    return
                await delay(u["t"])
                start = now()
                again = repeated(x)
                ran.update(x.leaves)
                if u["how"] == "result":
                    f = asyncio.ensure_future(x.fut)
                else:
                    f = x.fut
                try:
                    got = ("ok", await f)
                except Exception as e:
                    got = ("raise", e)
                agree(got, x.out, "awaiting node %d" % i)
                if x.out[0] == "ok":
                    require(now() - start <= x.cost, "awaiting node %d took %s, the slowest call %s", i, now() - start, x.cost)
                    if not again and len(x.leaves):
                        case.label("alone")
                    if type(x.out[1]) is not dict:
                        # a finished future can be used while the loop runs
                        agree(grab(lambda: bool(x.fut)), outcome_of(bool, x.out), "bool of the finished node %d" % i)
                        agree(grab(lambda: str(x.fut)), outcome_of(str, x.out), "str of the finished node %d" % i)
                require(x.fut.done(), "node %d is awaited and not done", i)

            async def main():
                ts = [asyncio.ensure_future(awaiter(u)) for u in spec["uses"]]
                await settle(ts)
                for t in ts:
                    t.result()
                await asyncio.sleep(10)
            loop.run_until_complete(main())
            targets = [target(u)[1] for u in spec["uses"]]
            if len(set(targets)) < len(targets):
                case.label("concurrent awaiters of one future")
        loop.run_until_complete(asyncio.sleep(10))
        for i in ran:
            if spec["leaves"][i]["kind"] == "task":
                continue
            require(w.runs[i] == 1, "the call of leaf %d ran %d times", i, w.runs[i])
        for i, n in w.runs.items():
            require(n <= 1, "the call of leaf %d ran %d times", i, n)
        rec_.check()
        depth = len([n for n in w.nodes[len(spec["leaves"]):] if n.leaves])
        case.mark(depth >= 2 and len(ran) >= 2)
        if depth >= 3:
            case.label("three operators")
    finally:
        for n in w.nodes if "w" in locals() else ():
            if asyncio.iscoroutine(n.fut):
                n.fut.close()
        _drain(loop)
        loop.close()
        asyncio.set_event_loop(None)


SUBS = [
    Sub("expressions", strategy, run_case, "at least two operators over at least two calls that ran", quick=6000, thorough=100000, shards=4),
]
