"""A deterministic asyncio event loop running on virtual time."""
import asyncio
import selectors


class Stuck(Exception):
    """Nothing is ready and no timer is armed: the awaited operation can never finish."""


class _Selector(selectors.BaseSelector):
    def __init__(self):
        self._real = selectors.DefaultSelector()
        self.loop = None

    def register(self, fileobj, events, data=None):
        return self._real.register(fileobj, events, data)

    def unregister(self, fileobj):
        return self._real.unregister(fileobj)

    def modify(self, fileobj, events, data=None):
        return self._real.modify(fileobj, events, data)

    def close(self):
        self._real.close()

    def get_map(self):
        return self._real.get_map()

    def select(self, timeout=None):
        events = self._real.select(0)
        if events:
            return events
        if timeout is None:
            raise Stuck("event loop idle")
        if timeout > 0:
            self.loop.vtime += timeout
            self.loop.jumps += 1
        return []


class VirtualLoop(asyncio.SelectorEventLoop):
    """Time never passes while something can run; otherwise it jumps to the next timer."""

    def __init__(self):
        selector = _Selector()
        super().__init__(selector)
        selector.loop = self
        self.vtime = 1000.0
        # Timers due right now have to be recognized as such although time is a float of any magnitude.
        self._clock_resolution = 1e-4
        self.jumps = 0
        self.background_errors = []
        self.set_exception_handler(self._on_exception)

    def _on_exception(self, _loop, context):
        self.background_errors.append(context.get("exception") or context.get("message"))

    def time(self):
        return getattr(self, "vtime", 0.0)

    def reset(self):
        """Cancel everything that is left over from the previous case."""
        tasks = [t for t in asyncio.all_tasks(self) if not t.done()]
        for task in tasks:
            task.cancel()
        if tasks:
            async def settle():
                await asyncio.gather(*tasks, return_exceptions=True)
            self.run_until_complete(settle())
        for handle in list(self._scheduled):
            handle.cancel()
        self._scheduled.clear()
        self._timer_cancelled_count = 0
        self.vtime = 1000.0
        self.background_errors = []


_LOOP = None


def get_loop() -> VirtualLoop:
    global _LOOP  # pylint: disable=global-statement
    if _LOOP is None:
        _LOOP = VirtualLoop()
        asyncio.set_event_loop(_LOOP)
    return _LOOP
