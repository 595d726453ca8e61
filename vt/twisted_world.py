"""The world on Twisted's clock. Import before anything that imports Twisted's reactor."""
import sys

from twisted.internet.testing import MemoryReactorClock

if "twisted.internet.reactor" not in sys.modules:
    from twisted.internet.main import installReactor
    REACTOR = MemoryReactorClock()
    installReactor(REACTOR)
else:
    REACTOR = sys.modules["twisted.internet.reactor"]
    assert isinstance(REACTOR, MemoryReactorClock), "another reactor is already installed"

from twisted.internet import defer  # noqa: E402
from twisted.logger import globalLogBeginner  # noqa: E402

from .loop import Stuck  # noqa: E402
from .world import World  # noqa: E402


# Killed processes leave failed Deferreds behind.
globalLogBeginner.beginLoggingTo([lambda event: None], discardBuffer=True, redirectStandardIO=False)


class TwistedWorld(World):
    def __init__(self, rng, yields=False):
        for call in list(REACTOR.getDelayedCalls()):
            call.cancel()
        REACTOR.rightNow = 1000.0
        super().__init__(rng, False)
        self.background = []

    def now(self):
        return REACTOR.seconds()

    def complete(self, coro):
        deferred = defer.ensureDeferred(coro)
        box = []
        deferred.addCallbacks(lambda v: box.append((True, v)), lambda f: box.append((False, f.value)))
        if not box:
            raise Stuck()
        ok, value = box[0]
        if not ok:
            raise value
        return value

    def advance(self, seconds):
        target = REACTOR.seconds() + seconds
        while True:
            due = [c.getTime() for c in REACTOR.getDelayedCalls() if c.getTime() <= target]
            if not due:
                break
            REACTOR.advance(max(0, min(due) - REACTOR.seconds()))
        REACTOR.advance(max(0, target - REACTOR.seconds()))
        self.check_runaway()

    def settle(self, rounds=60):
        pass
