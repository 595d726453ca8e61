"""
Whatever goes wrong, no message key is used twice: a monitor over everything that leaves the library (returned messages,
and messages handed to the sending hook, whether or not that fails) under failures and crashes at any operation.
"""
import omemo

from .create_engine import FAILURES, failure_for
from .decrypt_engine import GATE_ERRORS
from .rt import Violation
from .world import Crash, InjectedStorageFailure, NS, Node, Peer, World

ANY = GATE_ERRORS + FAILURES + (omemo.MessageSendingFailed, omemo.NoEligibleDevices, omemo.StillUndecided,
                                omemo.TrustDecisionFailed, omemo.UnknownTrustLevel)
REFUSED = (omemo.NoEligibleDevices, omemo.StillUndecided, omemo.TrustDecisionFailed, omemo.UnknownTrustLevel,
           omemo.UnknownNamespace)


class Refused(omemo.TrustDecisionFailed):
    pass


class KeyUse:
    def __init__(self, rng, rec):
        self.rng, self.rec = rng, rec
        self.w = w = World(rng)
        self.nss = rng.sample(NS, rng.randint(1, 2))
        self.node = Node(w, "alice@x", self.nss, cache=rng.random() < 0.6, threshold=rng.choice((25, 99)))
        self.node.start(live=rng.random() < 0.5)
        self.me = self.node.own().device_id
        self.peers = []
        for _ in range(rng.randint(1, 4)):
            jid = f"p{rng.randrange(3)}@x" if rng.random() < 0.8 else "alice@x"
            self.peers.append(Peer(w, jid, self.free_id(jid), rng.sample(self.nss, rng.randint(1, len(self.nss))), pre_keys=30))
        for p in self.peers:
            self.meet(p)
        self.used, self.content_keys = {}, set()
        self.seen_events = 0
        self.inbox = []     # messages for the node that may (again) be delivered
        self.outbox = []    # messages that left the node
        self.trace = []

        async def decide(mgr, undecided, _identifier):
            if rng.random() < 0.3:
                raise Refused()
            for d in undecided:
                if rng.random() < 0.8:
                    await mgr.set_trust(d.bare_jid, d.identity_key, rng.choice(("T", "D")))
        self.node.decide = decide

    def free_id(self, jid):
        """(Devices of different accounts often have the same id.)"""
        return self.rng.choice([d for d in range(100, 110) if all((p.jid, p.dev) != (jid, d) for p in self.peers)][:3])

    def meet(self, p):
        self.node.feed_lists(p.jid)
        self.node.info(p.jid)
        if self.rng.random() < 0.8:
            self.w.call(self.node.mgr.set_trust(p.jid, p.identity_key, "T"))

    # -- the monitor ----------------------------------------------------------------------------------------
    def left(self, message, how):
        for ekm, _ in message.keys:
            slot = ekm.slot()
            self.rec.check(self.used.get(slot, ekm.uid) == ekm.uid, "a message key was used twice", slot=slot, how=how,
                           before=self.used.get(slot), trace=self.trace[-6:])
            self.used[slot] = ekm.uid
            self.rec.count("keys_left_" + how)
        keys = {ekm.key for ekm, _ in message.keys}
        # (Empty messages carry no content, thus may share a key; the specification even fixes it.)
        if keys and not message.content.empty and message not in self.outbox:
            self.rec.check(len(keys) == 1, "the recipients of a message got different content keys", keys=sorted(keys), how=how)
            self.rec.check(not keys & self.content_keys, "two messages use the same content key", how=how, trace=self.trace[-6:])
            self.content_keys |= keys
            self.rec.count("content_keys")
        self.outbox.append(message)

    def collect(self):
        events = self.w.events[self.seen_events:]
        self.seen_events = len(self.w.events)
        for e in events:
            if e.kind == "send":
                self.left(e.message, "sent")
            elif e.kind in ("fault", "net_fail") and e.op == "send" and "message" in e.d and e.exc != "Crash":
                self.left(e.message, "failed")

    def attempt(self, name, coro, crash_rate=0.25, fail_rate=0.25):
        """One API call with at most a few faults."""
        rng, w = self.rng, self.w
        mode = rng.random()
        at = {rng.randrange(30)} if rng.random() < 0.7 else {rng.randrange(12) for _ in range(3)}
        when = rng.choice(("before", "after"))
        only = rng.choice((None, "send", "store", "store"))
        seen = [0]

        def plan(_index, _node, op, _info):
            if only is not None and op != only:
                return None
            seen[0] += 1
            if seen[0] - 1 not in (at if only is None else {a % 5 for a in at}):
                return None
            if mode < crash_rate:
                return when, Crash()
            return when, failure_for(op)
        if mode < crash_rate + fail_rate:
            w.plan = plan
        outcome = w.crashing(coro, *ANY, *((Violation,) if w.plan is not None else ()))
        faulty, w.plan = w.plan is not None, None
        self.collect()
        how = "ok" if outcome.ok else type(outcome.exc).__name__
        self.trace.append((name, how))
        self.rec.count(f"{name}:{'ok' if outcome.ok else 'crash' if isinstance(outcome.exc, Crash) else 'failed'}")
        if isinstance(outcome.exc, Violation):
            # A failure the API doesn't document for this call (such as a storage failure); not this property's business.
            if "Injected" not in str(outcome.exc) and "Failed" not in str(outcome.exc):
                raise outcome.exc
        if isinstance(outcome.exc, Crash):
            w.rule = None
            self.node.start(live=rng.random() < 0.3)
            self.collect()
        return outcome, faulty

    # -- steps ----------------------------------------------------------------------------------------------
    def do_encrypt(self):
        rng, node = self.rng, self.node
        jids = sorted({p.jid for p in self.peers} - {"alice@x"}) + (["nobody@x"] if rng.random() < 0.1 else [])
        if not jids:
            return
        to = frozenset(rng.sample(jids, rng.randint(1, min(2, len(jids)))))
        sessions = node.toy_sessions()
        mark = len(self.w.events)
        outcome, _ = self.attempt("encrypt", node.mgr.encrypt(
            to, {ns: b"text" for ns in node.namespaces}, rng.choice((None, rng.sample(self.nss, len(self.nss))))))
        if outcome.ok:
            for message in outcome.value[0]:
                self.left(message, "returned")
            if outcome.value[1]:
                self.rec.count("partial_encryptions")
        elif outcome.raised(*REFUSED):
            stored = self.w.since(mark, "be.store_session")
            self.rec.check(node.toy_sessions() == sessions and not stored,
                           "a refused encryption changed sessions", exc=type(outcome.exc).__name__)
            self.rec.count("refused_encryptions")

    def do_incoming(self):
        rng = self.rng
        p = rng.choice(self.peers)
        ns = rng.choice(p.namespaces)
        for _ in range(rng.choice((1, 1, 1, 3, 56))):
            message, _ = p.send(ns, [("alice@x", self.me)], rng.choice((b"hello", b"hello", None)),
                                fresh=rng.random() < 0.05)
            self.inbox.append(message)

    def do_decrypt(self):
        if self.inbox:
            message = self.rng.choice(self.inbox[-60:])
            if self.rng.random() < 0.85:
                self.inbox.remove(message)
            self.attempt("decrypt", self.node.mgr.decrypt(message))

    def do_drain(self):
        for message in self.inbox[:60]:
            self.attempt("decrypt", self.node.mgr.decrypt(message), 0.01, 0.02)
        del self.inbox[:60]

    def do_peer_receive(self):
        """Peers read what they got (they may have missed things, or their session may have been replaced)."""
        for message in self.rng.sample(self.outbox, min(len(self.outbox), 4)):
            for p in self.peers:
                if message.namespace in p.namespaces and p.key_for_me(message):
                    try:
                        p.receive(message)
                        self.rec.count("read_by_peers")
                    except (omemo.OMEMOException, AssertionError):
                        pass

    def do_sync(self):
        if self.rng.random() < 0.3:
            self.node.mgr.before_history_sync()
        else:
            self.attempt("sync", self.node.mgr.after_history_sync(), 0.3, 0.4)

    def do_replace(self):
        p = self.rng.choice(self.peers)
        info = self.node.info(p.jid).get(p.dev)
        if info is not None:
            self.attempt("replace", self.node.mgr.replace_sessions(info))

    def do_restart(self):
        self.w.rule = None
        self.node.start(live=self.rng.random() < 0.5)
        self.collect()

    def do_offline(self):
        """For a while, nothing can be sent (or no bundle can be published)."""
        op = self.rng.choice(("send", "send", "upload_bundle", "download_bundle"))
        self.w.rule = None if self.w.rule is not None else (
            lambda _n, o, _i: failure_for(op) if o == op else None)

    def do_newpeer(self):
        """Somebody new; often one no session can be built with (for now)."""
        rng = self.rng
        if len(self.peers) >= 7:
            return
        old = rng.choice(self.peers)
        jid = old.jid if rng.random() < 0.6 else f"p{rng.randrange(4)}@x"
        p = Peer(self.w, jid, self.free_id(jid), rng.sample(self.nss, rng.randint(1, len(self.nss))), pre_keys=30)
        self.peers.append(p)
        self.meet(p)
        if rng.random() < 0.6:
            for ns in p.namespaces:
                self.w.bundles.pop((ns, p.jid, p.dev), None)
            self.rec.count("unreachable_peers")

    def do_consistency(self):
        self.attempt("consistency", self.node.mgr.ensure_data_consistency())

    def run(self):
        actions = {"encrypt": 12, "incoming": 8, "decrypt": 14, "drain": 2, "peer_receive": 8, "sync": 4, "replace": 2,
                   "restart": 2, "offline": 2, "consistency": 1, "newpeer": 1.5}
        for _ in range(self.rng.randint(10, 50)):
            name = self.rng.choices(list(actions), list(actions.values()))[0]
            getattr(self, "do_" + name)()
        self.rec.sig(self.trace)


def keyuse_case(rng, rec):
    KeyUse(rng, rec).run()
