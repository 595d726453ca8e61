"""Basic vocabulary shared by the harness: verdicts and the per-case recorder."""
import hashlib
import json


class Violation(Exception):
    """The oracle saw the property broken."""


class Inconclusive(Exception):
    """The case could not be judged (never folded into either verdict)."""


class Recorder:
    """What the monitors of one worker process observed."""

    def __init__(self):
        self.counters = {}
        self.sigs = set()
        self.samples = []
        self.known_now = {}
        self.evaluations = 0
        self._case_sig = []

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sig(self, *parts):
        """Declare the case at hand non-trivial; a case is identified by everything it declares."""
        self._case_sig.append(json.dumps(parts, default=str, sort_keys=True))

    def begin(self):
        self.evaluations += 1
        self._case_sig = []
        self.known_now = {}

    def end(self):
        if self._case_sig:
            self.sigs.add(hashlib.sha256("\n".join(self._case_sig).encode()).hexdigest()[:16])

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def known_finding(self, key, text):
        self.known_now[key] = text

    @staticmethod
    def fail(message, /, **detail):
        raise Violation(message + ("" if not detail else " | " + ", ".join(f"{k}={v!r}" for k, v in detail.items())))

    def check(self, condition, message, /, **detail):
        self.count("oracle_checks")
        if not condition:
            self.fail(message, **detail)
