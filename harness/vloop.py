"""An asyncio event loop on a virtual clock.

Nothing here touches the wall clock, threads, sockets or signals: time jumps to
the next scheduled callback as soon as nothing is ready, so a 20 s protocol
timeout costs microseconds and every run is a pure function of the schedule the
generator produced.  When nothing is ready and nothing is scheduled the loop is
provably stuck: that is reported as Deadlock, never waited for.
"""
import asyncio
import asyncio.base_events
import time
import warnings


class Deadlock(Exception):
    """Nothing is runnable and nothing is scheduled, ever."""


class Runaway(Exception):
    """More loop iterations / virtual time than any legal behaviour needs."""


class _Selector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout=None):
        loop = self.loop
        loop.iterations += 1
        if loop.iterations > loop.max_iterations:
            raise Runaway("more than %d event loop iterations" % loop.max_iterations)
        if timeout is None:
            raise Deadlock("nothing left to run at t=%.3f" % loop.now)
        if timeout > 0:
            when = loop._scheduled[0]._when
            if when > loop.now:
                loop.now = when
            if loop.now > loop.max_time:
                raise Runaway("virtual time passed %.1f s" % loop.max_time)
        return []


class VirtualLoop(asyncio.base_events.BaseEventLoop):
    def __init__(self, max_time=100000.0, max_iterations=2000000):
        super().__init__()
        self.now = 1000.0
        self.start = self.now
        self.iterations = 0
        self.max_time = self.now + max_time
        self.max_iterations = max_iterations
        self._clock_resolution = 1e-9
        self._selector = _Selector(self)
        self.contexts = []
        self.set_exception_handler(self._on_exception)

    def time(self):
        return self.now

    @property
    def t(self):
        """Seconds since the case began."""
        return self.now - self.start

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass

    def _on_exception(self, loop, context):
        self.contexts.append(context)

    def pending_tasks(self):
        return [t for t in asyncio.all_tasks(self) if not t.done()]


class Clock:
    """The clocks of the time module follow a virtual one meanwhile."""

    NAMES = ("time", "monotonic", "perf_counter")

    def __init__(self, now, advance=lambda seconds: None):
        self.now = now
        self.advance = advance

    def __enter__(self):
        self.saved = [(n, getattr(time, n), getattr(time, n + "_ns")) for n in self.NAMES]
        for n, _, _ in self.saved:
            base = 1.7e9 if n == "time" else 0.0
            setattr(time, n, lambda base=base: base + self.now())
            setattr(time, n + "_ns", lambda base=base: int((base + self.now()) * 1e9))
        self.real_sleep, time.sleep = time.sleep, self.sleep
        return self

    def sleep(self, seconds):
        """Blocks the loop, as the real one would"""
        self.advance(max(seconds, 0))

    def __exit__(self, *exc):
        time.sleep = self.real_sleep
        for n, f, ns in self.saved:
            setattr(time, n, f)
            setattr(time, n + "_ns", ns)


def run(coro_fn, max_time=100000.0, max_iterations=2000000):
    """Run coro_fn(loop) to completion on a fresh virtual loop."""
    loop = VirtualLoop(max_time, max_iterations)
    def advance(seconds):
        loop.now += seconds

    with Clock(loop.time, advance):
        return _run(loop, coro_fn)


def _run(loop, coro_fn):
    asyncio.set_event_loop(loop)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                return loop.run_until_complete(coro_fn(loop))
            finally:
                # end everything the case left behind, without running timers
                for _ in range(20):
                    tasks = loop.pending_tasks()
                    if not tasks:
                        break
                    for task in tasks:
                        task.cancel()
                    loop._scheduled.clear()
                    try:
                        loop.run_until_complete(
                            asyncio.gather(*tasks, return_exceptions=True)
                        )
                    except (Deadlock, Runaway, RuntimeError):
                        break
    finally:
        loop._ready.clear()
        loop._scheduled.clear()
        asyncio.set_event_loop(None)
        loop.close()
