"""P06: random construction histories, from several threads too, over generated singleton classes and subclasses, compared with a table of instances: model-based testing"""
import gc
import inspect
import threading
import time

import a_sync
from a_sync import ASyncGenericSingleton

from .common import *
from .dual import Bench, in_thread
from .p03 import capture


def strategy():
    klass = rec(base=st.integers(-1, 1), own=st.booleans(), default=st.booleans(), style=st.booleans(), required=st.booleans(),
                init=st.booleans(), meta=st.booleans())
    flag = st.sampled_from([None, True, False])
    op = weighted(
        (5, rec(op=st.just("new"), cls=tiny, flag=flag, arg=tiny, how=st.sampled_from(["here", "here", "thread", "inside"]))),
        (2, rec(op=st.just("burst"), what=st.lists(st.tuples(tiny, flag).map(list), min_size=2, max_size=6), slow=st.booleans())),
        (1, rec(op=st.just("fail"), cls=tiny, flag=flag)),
        (3, rec(op=st.just("call"), n=small, x=tiny, flag=st.sampled_from([None, None, None, True, False]))),
        (1, rec(op=st.just("gc"))),
    )
    return rec(flag=st.sampled_from(["sync", "asynchronous"]), family=st.sampled_from(["init", "init", "attr", "kwargs"]),
               classes=st.lists(klass, min_size=1, max_size=3), ops=st.lists(op, min_size=3, max_size=12))


def run_case(spec, case):
    flag = spec["flag"]
    inits = []  # (class index, instance id)
    control = {"fail": False, "slow": 0}

    def started(self, n):
        if control["slow"]:
            time.sleep(0.002)
        if control["fail"]:
            raise Boom(n)
        inits.append((n, self))

    ns = {"ASyncGenericSingleton": ASyncGenericSingleton, "a_sync": a_sync, "started": started, "spin": spin}
    classes, default, requires = [], [], []
    for n, k in enumerate(spec["classes"]):
        base = k["base"] if k["base"] < n else n - 1
        own = k["own"] or base < 0
        src = ["class K%d(%s):" % (n, "ASyncGenericSingleton" if base < 0 else "K%d" % base)]
        required = False
        if spec["family"] == "init" and own:
            required = k["required"]
            src += ["    def __init__(self, arg, *, %s%s):" % (flag, "" if required else "=%r" % k["default"]),
                    "        self.arg = arg", "        self.%s = %s" % (flag, flag),
                    "        ASyncGenericSingleton.__init__(self)", "        started(self, %d)" % n]
        elif spec["family"] in ("attr", "kwargs"):
            if own:
                src += ["    %s = %r" % (flag, k["default"])]
            if (base < 0 or k["init"]) and spec["family"] == "kwargs":
                # the flag is not a parameter: the class says what it is by default
                src += ["    def __init__(self, arg, **flags):", "        self.arg = arg", "        self.__dict__.update(flags)", "        ASyncGenericSingleton.__init__(self)",
                        "        started(self, %d)" % n]
            elif base < 0 or k["init"]:
                src += ["    def __init__(self, arg):", "        self.arg = arg", "        ASyncGenericSingleton.__init__(self)",
                        "        started(self, %d)" % n]
        if base < 0:
            src += ["    async def m(self, x):", "        await spin(1)", "        return [self.arg, x]"]
        src += ["    y = %d" % n]
        exec(compile("\n".join(src), "<generated>", "exec"), ns)
        classes.append(ns["K%d" % n])
        default.append(k["default"] if own else default[base])
        requires.append(required if own else requires[base])
        if base >= 0 and not own:
            case.label("inherits its mode")

    def mode(c, f):
        v = default[c] if f is None else f
        return v if flag == "sync" else not v

    table = {}

    def build(c, f, arg):
        return classes[c](arg, **({flag: f} if f is not None else {}))

    def usable(c, f):
        if spec["family"] == "attr":
            return None
        if f is None and requires[c]:
            return default[c]
        return f

    with Bench() as bench:
        for n, op in enumerate(spec["ops"]):
            if op["op"] == "gc":
                gc.collect()
            elif op["op"] in ("new", "fail"):
                c = op["cls"] % len(classes)
                f = usable(c, op["flag"])
                key = (c, mode(c, f))
                before = len(inits)
                if op["op"] == "fail":
                    control["fail"] = True
                    r = capture(lambda: build(c, f, "f%d" % n))
                    control["fail"] = False
                    if key not in table:
                        require(r == ("raise", Boom(r[1].ident if isinstance(r[1], Boom) else None)), "op %d: a failing constructor gave %r", n, r)
                        case.label("failed construction")
                        continue
                    require(r[0] == "ok" and r[1] is table[key][0], "op %d: %r gave %r", n, key, r)
                    continue
                arg = "a%d" % n
                if op["how"] == "thread":
                    obj = in_thread(build, c, f, arg)
                elif op["how"] == "inside":
                    obj = bench.inside(build, c, f, arg)
                else:
                    obj = build(c, f, arg)
                require(type(obj) is classes[c], "op %d: K%d() gave %r", n, c, obj)
                if key in table:
                    require(obj is table[key][0], "op %d: a second instance of K%d in mode %s", n, c, key[1])
                    require(len(inits) == before, "op %d: the instance of K%d was initialised again", n, c)
                    case.mark()
                else:
                    require(all(obj is not x for x, _ in table.values()), "op %d: K%d in mode %s shares an instance", n, c, key[1])
                    require([o for _, o in inits[before:]] == [obj], "op %d: initialised %r", n, inits[before:])
                    table[key] = (obj, arg)
                require(obj.arg == table[key][1], "op %d: the instance holds %r", n, obj.arg)
            elif op["op"] == "burst":
                what = [(c % len(classes), usable(c % len(classes), f)) for c, f in op["what"]]
                gate = threading.Barrier(len(what))
                out = [None] * len(what)
                control["slow"] = op["slow"]

                def work(i, c, f):
                    gate.wait()
                    out[i] = capture(lambda: build(c, f, "b%d" % n))
                before = len(inits)
                ts = [threading.Thread(target=work, args=(i, c, f)) for i, (c, f) in enumerate(what)]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
                control["slow"] = 0
                fresh = []
                for (c, f), r in zip(what, out):
                    require(r[0] == "ok", "op %d: K%d(%r) in a thread raised %r", n, c, f, r[1])
                    key = (c, mode(c, f))
                    if key not in table:
                        require(all(r[1] is not x for x, _ in table.values()), "op %d: K%d in mode %s shares an instance", n, c, key[1])
                        table[key] = (r[1], "b%d" % n)
                        fresh.append(r[1])
                    require(r[1] is table[key][0], "op %d: threads got several instances of K%d in mode %s", n, c, key[1])
                require(sorted(id(o) for _, o in inits[before:]) == sorted(map(id, fresh)), "op %d: initialised %r", n, inits[before:])
                case.label("threads")
                case.mark(len({(c, mode(c, f)) for c, f in what}) < len(what))
            elif table:
                key = sorted(table)[op["n"] % len(table)]
                obj, arg = table[key]
                sync = key[1] if op["flag"] is None else op["flag"]
                kw = {} if op["flag"] is None else {"sync": op["flag"]}
                r = obj.m(op["x"], **kw)
                require(inspect.isawaitable(r) == (not sync), "op %d: method of K%d in mode %s gave %r", n, key[0], key[1], r)
                if not sync:
                    async def get():
                        return await r
                    r = bench.inside(get)
                same(r, [arg, op["x"]], "op %d: method of K%d" % (n, key[0]))
                case.label("called")
    if any((c, True) in table and (c, False) in table for c in range(len(classes))):
        case.label("one class in both modes")
    if len({c for c, _ in table}) > 1:
        case.label("several classes")


SUBS = [
    Sub("constructions", strategy, run_case, "an instance was asked for again, or by several threads at once", quick=3000, thorough=30000, shards=4),
]
