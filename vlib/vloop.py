"""Deterministic event loops the harness owns.

``VirtualLoop``: time is virtual.  When nothing is ready the clock jumps to the next
timer; when there is no timer either the loop raises ``Deadlock`` out of
``run_until_complete``.  A case that runs on it is a pure function of its spec.

``run(coro_fn)``: run one case on a fresh loop, cancel what is left over, close.
"""
import asyncio
import selectors


class Deadlock(Exception):
    """Nothing runnable, no timer pending, main coroutine unfinished."""


class Livelock(Exception):
    """Too many loop iterations in one case."""


class _VSelector(selectors.SelectSelector):
    loop = None

    def select(self, timeout=None):
        events = super().select(0)
        if events:
            return events
        loop = self.loop
        loop.iterations += 1
        if loop.iterations > loop.max_iterations:
            loop.iterations = 0
            raise Livelock("more than %d loop iterations" % loop.max_iterations)
        if timeout is None:
            raise Deadlock("nothing runnable and no timer pending")
        if timeout > 0:
            # advance exactly to the next timer
            when = loop._scheduled[0]._when if loop._scheduled else loop.vtime + timeout
            if when > loop.vtime:
                loop.vtime = when
            if loop.vtime > loop.max_time:
                loop.max_time = float("inf")
                raise Deadlock("virtual time ran past %s" % loop.vtime)
        return events


class VirtualLoop(asyncio.SelectorEventLoop):
    def __init__(self, max_time=100000.0, max_iterations=200000):
        self.vtime = 0.0
        self.iterations = 0
        self.max_time = max_time
        self.max_iterations = max_iterations
        sel = _VSelector()
        super().__init__(sel)
        sel.loop = self
        self._clock_resolution = 1e-9
        self.unhandled = []
        self.set_exception_handler(self._on_unhandled)

    def time(self):
        return self.vtime

    def _on_unhandled(self, loop, context):
        self.unhandled.append(context)


class RealLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        super().__init__()
        self.unhandled = []
        self.set_exception_handler(lambda loop, ctx: self.unhandled.append(ctx))


def _drain(loop):
    """Cancel everything that is left on the loop; never raises."""
    loop.max_time = float("inf")
    for _ in range(20):
        tasks = [t for t in asyncio.all_tasks(loop) if not t.done()]
        if not tasks:
            break
        for t in tasks:
            t.cancel()
        loop.iterations = 0

        async def _spin():
            for _ in range(25):
                await asyncio.sleep(0)

        try:
            loop.run_until_complete(_spin())
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise


def run(coro_fn, *args, virtual=True, loop=None):
    """Run ``coro_fn(*args)`` to completion on a fresh loop and tear everything down."""
    own = loop is None
    if own:
        loop = VirtualLoop() if virtual else RealLoop()
    asyncio.set_event_loop(loop)
    main = None
    try:
        main = loop.create_task(coro_fn(*args))
        return loop.run_until_complete(main)
    finally:
        try:
            _drain(loop)
        finally:
            if main is not None and main.done() and not main.cancelled():
                main.exception()
            loop._ready.clear()
            loop._scheduled.clear()
            if own:
                loop.close()
                asyncio.set_event_loop(None)
