"""Signed pre key rotation over virtual time, under both frameworks, judged offline from the event log."""
import json

import omemo

from .twisted_world import TwistedWorld
from .world import NS, Node, Peer, World

PERIODS = (1, 10, 59, 60, 61, 100, 600, 3600, 86400, 7 * 86400, 30 * 86400)
DEFAULT_PERIOD = 7 * 24 * 60 * 60
EPS = 2  # seconds: ages are whole seconds


class Rotation:
    def __init__(self, rng, rec, twisted):
        self.rng, self.rec = rng, rec
        self.w = (TwistedWorld if twisted else World)(rng)
        self.twisted = twisted
        configured = rng.choice(PERIODS + (None,))
        self.period = DEFAULT_PERIOD if configured is None else configured
        rec.count("default_period", configured is None)
        self.node = Node(self.w, "alice@x", rng.sample(NS, rng.choice((1, 2, 2, 3, 3))), period=configured,
                         cache=rng.random() < 0.5, threshold=rng.choice((25, 99)))
        self.node.wander = rng
        self.failing = {}   # ns -> time until which uploads fail
        self.trace = []
        self.calls = []     # [first, last] event of the calls that publish bundles by themselves
        self.peer = None
        self.w.rule = self.network
        self.runs = []      # [start, end or None, [(time, purged ns)], namespaces]
        self.w.budget = 200_000

    def network(self, gen, op, info):
        # Uploads while creating work; from then on the scripted failures apply.
        if op == "upload_bundle":
            self.rec.check(set(info["bundle"].pre_keys) == self.node.pre_keys(info["ns"])[0],
                           "the bundle published isn't the current one", ns=info["ns"], dev=info["dev"])
        if op == "upload_bundle" and gen.created and self.w.now() < self.failing.get(info["ns"], -1):
            return omemo.BundleUploadFailed("offline")
        return None

    def start(self, nss):
        ages = {ns: self.created(ns) for ns in nss}
        mark = len(self.w.events)
        overrides = {"async_framework": omemo.AsyncFramework.TWISTED} if self.twisted else {}
        self.w.call(self.node.create(nss, **overrides))
        begun = next(e for e in self.w.events[mark:] if e.kind == "created")
        # Signed pre keys in use when the run began: the ones on disk, or the ones made by creating it.
        birth = {ns: begun.t if ages[ns] is None else ages[ns] for ns in nss}
        self.runs.append({"start": begun.t, "first": mark, "created": begun.i, "last": None, "end": None, "purged": [], "birth": birth})
        self.w.settle(4)
        if self.node.mgr is not None:
            self.node.drift()

    def stop(self):
        self.node.kill()
        self.runs[-1]["end"], self.runs[-1]["last"] = self.w.now(), len(self.w.events)

    def created(self, ns):
        text = self.node.disk.get(f"/toy/{ns}/state")
        return None if text is None else json.loads(text)["spk_created"]

    def step(self):
        rng, w, node, p = self.rng, self.w, self.node, self.period
        kind = rng.random()
        if kind < 0.6:
            amount = rng.choice((1, 30, 59, 60, 61, 119, 121, p, p + 1, p + 59, p + 60, p + 61, p // 2, 2 * p + 200,
                                 rng.uniform(0, 3 * p + 200), 3600, 7300))
            amount = min(amount, 25 * (p + 60))
            self.trace.append(("advance", round(amount / (p + 60), 1)))
            w.advance(amount)
        elif kind < 0.75:
            ns = rng.choice(node.namespaces)
            span = rng.choice((1, 59, 61, 200, 1000, 5000, 20000, rng.uniform(0, 100000)))
            self.failing[ns] = w.now() + min(span, 3000 * (p + 60))
            self.trace.append(("offline", ns, round(span, -2)))
        elif kind < 0.83:
            nss = rng.sample(NS, rng.randint(1, 3))
            self.judge_leftovers()
            self.stop()
            w.advance(rng.choice((0, 1, 100, p, p // 2, 3 * p)))
            self.start(nss)
            self.trace.append(("restart", nss))
        elif kind < 0.9 and len(node.namespaces) > 1:
            self.purge(rng.choice(node.namespaces))
        elif kind < 0.95 and len(node.namespaces) > 1:
            # While the rotation is stuck because one bundle can't be published, another backend is purged.
            stuck = rng.choice(node.namespaces[:-1])
            self.failing[stuck] = w.now() + 2 * p + 300
            w.advance(p + 61 + rng.choice((0, 1, 30)))
            self.trace.append(("stuck", stuck))
            self.purge(rng.choice([n for n in node.namespaces if n != stuck]))
            if rng.random() < 0.5:
                w.advance(rng.choice((p + 300, 3700, 7300)))
        elif kind < 0.98 and node.gen.created:
            self.contact()
        else:
            call = rng.choice((node.mgr.after_history_sync, node.mgr.after_history_sync, node.mgr.get_own_device_information, lambda: node.mgr.set_own_label("x"),
                               lambda: node.mgr.set_trust("bob@x", b"k" * 32, "T")))
            w.call(call())

    def contact(self):
        """A first message arrives: uses a one-time pre key and publishes the bundle."""
        w, node, rng = self.w, self.node, self.rng
        if self.peer is None:
            self.peer = Peer(w, "bob@x", 5, NS)
        stuck = [ns for ns in node.namespaces if w.now() < self.failing.get(ns, -1)]
        ns = rng.choice(stuck or node.namespaces)
        if (ns, "alice@x", self.device) not in w.bundles:
            return
        mark = len(w.events)
        message, _ = self.peer.send(ns, [("alice@x", self.device)], b"hello", fresh=True)
        outcome = w.call(node.mgr.decrypt(message), omemo.BundleUploadFailed, omemo.KeyExchangeFailed)
        self.calls.append((mark, len(w.events)))
        self.trace.append(("contact", ns, type(outcome.exc).__name__))
        self.rec.count("contacts")
        self.rec.count("contacts_while_stuck", ns in stuck)

    def purge(self, ns):
        w, node = self.w, self.node
        w.call(node.mgr.purge_backend(ns))
        node.namespaces = [n for n in node.namespaces if n != ns]
        node.backends = [b for b in node.backends if b.namespace != ns]
        self.runs[-1]["purged"].append((w.now(), len(w.events), ns))
        self.trace.append(("purge", ns))
        self.rec.count("purges")

    def judge_leftovers(self):
        """What is purged stays purged, as long as it isn't loaded again."""
        for _, _, ns in self.runs[-1]["purged"]:
            left = sorted(k for k in self.node.disk if k.startswith(f"/toy/{ns}/"))
            self.rec.check(not left, "key material of a purged backend created again", ns=ns, keys=left)

    # -- the offline checker ------------------------------------------------------------------------------------
    def judge(self):
        for run in self.runs:
            self.judge_run(run, self.w.events[run["first"]:run["last"]], run["end"])

    def judge_run(self, run, events, end):
        rec, p = self.rec, self.period
        created = dict(run["birth"])
        purged = {ns: (t, i) for t, i, ns in run["purged"]}
        stalls = []                      # [begin, end] of the waits between failed attempts
        pending = {}                     # ns -> (delay, time of the failed attempt, spk)

        def effective(begin, t):
            """Time passed, not counting the waiting for failed uploads."""
            return t - begin - sum(max(0, min(t, b) - max(begin, a)) for a, b in stalls)
        for e in events:
            ns = e.d.get("ns")
            if e.kind == "be.rotate":
                rec.check(ns in created, "signed pre key of a backend rotated that isn't loaded", ns=ns)
                rec.check(ns not in purged or e.i < purged[ns][1], "purged backend rotated", ns=ns)
                age = e.t - created[ns]
                rec.check(age > p, "signed pre key rotated too early", ns=ns, age=age, period=p)
                self.in_time(created[ns], run["start"], e.t, effective, ns)
                created[ns] = e.t
                pending[ns] = (0, e.t, e.spk)
                rec.count("rotations")
            failed = e.kind == "net_fail" and e.op == "upload_bundle"
            if any(a <= e.i < b for a, b in self.calls):
                continue
            if e.kind == "upload_bundle" or failed:
                rec.check(ns not in purged or e.i < purged[ns][1], "bundle of a purged backend published again", ns=ns)
                if ns not in pending and e.i < run["created"]:
                    continue  # published by the creation itself
                rec.check(ns in pending, "bundle published without need", ns=ns)
                delay, since, spk = pending[ns]
                rec.check(abs(e.t - since - delay) <= EPS, "publishing attempted at the wrong time", ns=ns,
                          waited=e.t - since, expected=delay)
                rec.check(e.bundle.spk == spk and e.dev == self.device, "bundle published isn't the rotated one")
                if failed:
                    delay = 60 if delay == 0 else min(2 * delay, 3600)
                    pending[ns] = (delay, e.t, spk)
                    stalls.append((e.t, min(e.t + delay, end)))
                    rec.count("failed_uploads")
                    rec.count("capped_delays", delay == 3600)
                else:
                    rec.count("republished")
                    if delay:
                        rec.count("retries_succeeded")
                    del pending[ns]
        for ns, (delay, since, _) in pending.items():
            if ns in purged:
                continue
            rec.check(since + delay + EPS >= end, "publishing not retried", ns=ns, last=since, delay=delay, end=end)
        for ns, t in created.items():
            if ns not in purged:
                self.in_time(t, run["start"], end, effective, ns)
                rec.count("backends_judged")

    def in_time(self, created, start, t, effective, ns):
        """The signed pre key created then is still (or just about to be not) in use at t."""
        p = self.period
        if start - created > p + 1:  # (ages are rounded down)
            late = effective(start, t)
            self.rec.check(late <= EPS, "overdue signed pre key not rotated at start", ns=ns, late=late)
        else:
            begin = max(created, start)
            age = begin - created + effective(begin, t)
            self.rec.check(age <= p + 60 + EPS, "signed pre key not rotated in time", ns=ns, age=age, period=p)


def rotation_case(rng, rec, twisted=False):
    s = Rotation(rng, rec, twisted)
    s.start(s.node.namespaces)
    s.device = s.node.own().device_id
    for _ in range(rng.randint(3, 14)):
        s.step()
    if rng.random() < 0.7:
        s.failing.clear()
        s.w.advance(rng.choice((10, s.period + 4000, 2 * s.period + 8000)))
        s.w.advance(3700)
        for ns in s.node.namespaces:
            local = s.w.run(s.node.backend(ns).get_bundle("alice@x", s.device))
            rotated = max((e.i for e in s.w.events if e.kind == "be.rotate" and e.ns == ns), default=-1)
            uploaded = max((e.i for e in s.w.events if e.kind == "upload_bundle" and e.ns == ns), default=-1)
            if rotated < s.runs[-1]["first"] and uploaded < rotated:
                continue  # the process ended before an upload that had failed could be repeated
            if uploaded < max((e.i for e in s.w.events if e.kind == "net_fail" and e.d.get("ns") == ns
                               and any(a <= e.i < b for a, b in s.calls)), default=-1):
                continue  # the failure to publish was reported by the call
            rec.check(s.w.bundles.get((ns, "alice@x", s.device)) == local, "the bundle online isn't the local one", ns=ns)
            rec.count("final_bundles")
    lists = {ns for ns in NS if s.device in s.w.lists.get((ns, "alice@x"), {})}
    rec.check(lists == set(s.node.namespaces), "rotation changed the device lists", got=lists)
    s.judge_leftovers()
    s.stop()
    s.judge()
    rec.sig(twisted, s.period, s.trace)


def twisted_case(rng, rec):
    rotation_case(rng, rec, twisted=True)
