"""An event loop whose clock only moves when nothing else can happen."""

import asyncio
import selectors
from unittest import mock


class Idle(Exception):
    """Nothing is runnable and no timer is pending."""


# Set once the time for a scenario is up: what's raised in a task doesn't leave
# the loop.
OVERDUE: list[BaseException] = []


class _Selector(selectors.SelectSelector):
    loop: "VirtualLoop"

    def select(self, timeout=None):
        if OVERDUE:
            raise OVERDUE[0]
        ready = super().select(0)
        if ready:
            return ready
        if timeout is None:
            if self.loop.blocking:
                return super().select(0.05)
            self.loop.idle()
            return ready
        if timeout > 0:
            if self.loop.pending_real:
                got = super().select(0.005)
                if got:
                    return got
                return got
            self.loop.jump(timeout)
        return ready


class VirtualLoop(asyncio.SelectorEventLoop):
    """Deterministic virtual-time loop (no wall clock, FIFO ready queue)."""

    def __init__(self, start: float = 1000.0) -> None:
        self._vnow = start
        self.blocking = False
        self.pending_real = 0
        self.limit = None
        sel = _Selector()
        sel.loop = self
        super().__init__(sel)
        self._clock_resolution = 1e-9

    def time(self) -> float:
        return self._vnow

    def jump(self, delta: float) -> None:
        """Move virtual time forward."""
        self._vnow = round(self._vnow + delta, 9)

    def idle(self) -> None:
        """Called when the loop would block forever."""
        raise Idle()


async def settle(rounds: int = 40) -> None:
    """Let everything runnable at the present instant run."""

    loop = asyncio.get_running_loop()
    quiet = 0
    for _ in range(100000):
        before = len(loop._ready)  # pylint: disable=protected-access
        await asyncio.sleep(0)
        if before == 0:
            quiet += 1
            if quiet >= 3:
                return
        else:
            quiet = 0
    raise RuntimeError("never settles")


def run(coro, start: float = 1000.0):
    """Run a coroutine on a fresh virtual loop."""

    loop = VirtualLoop(start)

    # What's measured (how long an iteration of a task takes, for instance)
    # has to be virtual, too: real time depends on how busy the machine is.
    patch = mock.patch(
        "vcorelib.math.time._perf_counter_ns",
        lambda: round(loop.time() * 10**9),
    )
    try:
        asyncio.set_event_loop(loop)
        with patch:
            return loop.run_until_complete(coro)
    finally:
        try:
            pending = asyncio.all_tasks(loop)
            for task in pending:
                task.cancel()
            if pending:
                loop.run_until_complete(
                    asyncio.gather(*pending, return_exceptions=True)
                )
            loop.run_until_complete(loop.shutdown_asyncgens())
        except Idle:
            pass
        finally:
            asyncio.set_event_loop(None)
            if not OVERDUE:
                loop.close()
