"""Common machinery of all checks: sub-check registry, Hypothesis driver, replay."""
import asyncio
import faulthandler
import gc
import json
import os
import signal
import sys
import time
import traceback
from collections import Counter


class Violation(AssertionError):
    """The oracle says the property does not hold on this case."""


class HarnessError(Exception):
    """The harness itself is wrong; never reported as a violation."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def same(got, want, what):
    if type(got) is not type(want) or got != want:
        raise Violation("%s: got %r, expected %r" % (what, got, want))


class Case:
    """What a sub-check tells the driver about the case it ran."""

    __slots__ = ("labels", "nontrivial", "key")

    def __init__(self):
        self.labels = []
        self.nontrivial = False
        self.key = None

    def label(self, *names):
        self.labels.extend(names)

    def mark(self, cond=True):
        if cond:
            self.nontrivial = True


class Sub:
    """One generated-input search: a strategy of JSON-able specs and an oracle.

    ``run(spec, case)`` raises for a violation; any exception the sub-check does not
    expect counts as one too (HarnessError excepted).
    """

    def __init__(self, name, strategy, run, rule, quick=400, thorough=4000, shards=1,
                 cpu_limit=30, wall_limit=120, debug=True):
        self.debug = debug
        self.name = name
        self.strategy = strategy  # a function returning a strategy
        self.run = run
        self.rule = rule
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.cpu_limit = cpu_limit
        self.wall_limit = wall_limit


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = ""
    for fr in reversed(tb):
        if "/checks/" in fr.filename or "/a_sync/" in fr.filename:
            where = " at %s:%s" % (os.path.basename(fr.filename), fr.lineno)
            break
    return "%s: %s%s" % (type(exc).__name__, str(exc)[:1500], where)


class CaseTimeout(KeyboardInterrupt):  # asyncio re-raises this out of tasks
    pass


def _arm(cpu, wall):
    signal.setitimer(signal.ITIMER_PROF, cpu, 1.0)
    signal.setitimer(signal.ITIMER_REAL, wall, 1.0)


def _disarm():
    signal.setitimer(signal.ITIMER_PROF, 0)
    signal.setitimer(signal.ITIMER_REAL, 0)


def _on_timer(signum, frame):
    raise CaseTimeout("the case used up its %s limit" % ("cpu" if signum == signal.SIGPROF else "wall"))


def install_timers():
    signal.signal(signal.SIGPROF, _on_timer)
    signal.signal(signal.SIGALRM, _on_timer)


def run_one(sub, spec, case=None):
    """Run one case under its limits.  Returns None or the failure text."""
    case = case or Case()
    gc.freeze()  # collections inside the case look at its own objects only
    _arm(sub.cpu_limit, sub.wall_limit)
    try:
        sub.run(spec, case)
        return None
    except HarnessError:
        raise
    except CaseTimeout as e:
        return "HANG " + str(e)
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:  # noqa: an unexpected exception from the code is a violation
        return describe(e)
    finally:
        _disarm()
        gc.unfreeze()


def drive(sub, seed, n, journal):
    """Search with Hypothesis.  Returns a result dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    counts = Counter()
    state = {"evals": 0, "fail": None, "hang": 0}
    distinct = set()
    samples = []
    gc.collect()
    gc.freeze()
    gc.disable()

    class Failed(Exception):
        pass

    @hypothesis.seed(seed)
    @settings(
        max_examples=n,
        deadline=None,
        database=None,
        print_blob=False,
        report_multiple_bugs=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=(HealthCheck.too_slow, HealthCheck.data_too_large,
                               HealthCheck.large_base_example),
    )
    @given(sub.strategy())
    def test(spec):
        case = Case()
        text = json.dumps(spec, sort_keys=True)
        journal(text)
        if state["hang"]:
            # a hanging case has been found: do not shrink it, every attempt would cost a full limit
            if text != state["fail"][0]:
                return
            raise Failed(state["fail"][1])
        msg = run_one(sub, json.loads(text), case)
        state["evals"] += 1
        if state["evals"] % 100 == 0:
            gc.collect()
        for lab in set(case.labels):
            counts[lab] += 1
        if msg is None:
            if case.nontrivial:
                counts["nontrivial"] += 1
                h = hash(text)
                if h not in distinct:
                    distinct.add(h)
                    if len(samples) < 3 or (len(samples) < 8 and state["evals"] % 37 == 0):
                        samples.append(text[:600])
        else:
            state["fail"] = (text, msg)
            if msg.startswith("HANG"):
                state["hang"] = 1
            raise Failed(msg)

    error = None
    try:
        test()
    except HarnessError:
        error = traceback.format_exc()
    except Failed:
        pass
    except hypothesis.errors.Flaky:
        if state["fail"] is None:
            error = traceback.format_exc()
    except BaseException:
        if state["fail"] is None:
            error = traceback.format_exc()
    gc.enable()
    return {
        "sub": sub.name,
        "evaluations": state["evals"],
        "distinct_nontrivial": len(distinct),
        "labels": dict(counts),
        "samples": samples,
        "fail": state["fail"],
        "error": error,
        "rule": sub.rule,
    }
