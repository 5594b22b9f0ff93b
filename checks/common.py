"""Helpers shared by the checks."""
import asyncio

from hypothesis import strategies as st

from vlib.core import Case, HarnessError, Sub, Violation, require, same  # noqa: F401
from vlib.vloop import Deadlock, Livelock, RealLoop, VirtualLoop, run  # noqa: F401

CancelledError = asyncio.CancelledError


class Boom(Exception):
    """The exception generated user code raises; carries an id."""

    def __init__(self, ident=0):
        super().__init__(ident)
        self.ident = ident

    def __eq__(self, other):
        return type(other) is type(self) and other.ident == self.ident

    def __hash__(self):
        return hash(("Boom", self.ident))


class Boom2(Boom):
    pass


def now():
    return asyncio.get_running_loop().time()


async def spin(n):
    """Give up the loop n times without letting time pass."""
    for _ in range(n):
        await asyncio.sleep(0)


async def delay(t, yields=0):
    """Wait until t more units of virtual time passed, then spin."""
    if t:
        await asyncio.sleep(t)
    await spin(yields)


async def until(t):
    d = t - now()
    if d > 0:
        await asyncio.sleep(d)


async def settle(tasks):
    """Wait for harness tasks; outcomes stay in the tasks."""
    if tasks:
        await asyncio.wait(tasks)


def outcome(fut):
    if fut.cancelled():
        return ("cancelled",)
    e = fut.exception()
    if e is not None:
        return ("raise", e)
    return ("ok", fut.result())


def _same(x):
    return x


def one_of(*strategies):
    """one_of that keeps repeated alternatives (Hypothesis drops the duplicates)."""
    return st.one_of(*[s.map(_same) for s in strategies])


# small pools reach collisions; values of many types, falsy ones included
def values():
    return one_of(
        st.integers(-3, 3),
        st.sampled_from([None, True, False, "", "a", "ab", 0.0, 1.5]),
        st.lists(st.integers(0, 2), max_size=2),
    )


small = st.integers(0, 4)
tiny = st.integers(0, 2)


def maybe(s, p=2):
    return one_of(*([st.none()] * (p - 1)), s)


def rec(**kw):
    return st.fixed_dictionaries(kw)


def weighted(*pairs):
    """one_of with integer weights."""
    return one_of(*[s for w, s in pairs for _ in range(w)])


def lists(x, lo, hi, big):
    """Mostly short lists, now and then one as long as `big`."""
    return weighted((12, st.lists(x, min_size=lo, max_size=hi)), (1, st.lists(x, min_size=hi + 1, max_size=big)))


class Recorder:
    """Violations seen inside callbacks whose exceptions the code under test may swallow."""

    def __init__(self):
        self.errors = []

    def require(self, cond, msg, *args):
        if not cond:
            e = Violation(msg % args if args else msg)
            self.errors.append(e)
            raise e

    def check(self):
        if self.errors:
            raise self.errors[0]
