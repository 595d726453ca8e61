"""
Several complete devices talking to each other over a network that delays, reorders, loses and repeats messages, while
devices restart. An offline-style bookkeeping of every copy of every message decides: delivered exactly once, unaltered.
"""
import omemo
from omemo.session import Initiation

from .golden_real import FOREVER
from .real import OLD, TWO, RealNode, from_xml, to_xml
from .world import Env, NS, Node, World

REFUSALS = (omemo.KeyExchangeFailed, omemo.NoSession, omemo.DecryptionFailed, omemo.TooManySkippedMessageKeys)


class PickOnce:
    """Pre keys are picked without repetition (two initiators picking the same one is a protocol limitation)."""

    def __init__(self, rng, taken):
        self._rng, self._taken = rng, taken

    def choice(self, options):
        free = [o for o in options if o not in self._taken] or options
        pick = self._rng.choice(free)
        self._taken.add(pick)
        return pick


def completed_session(x, ns, y):
    """Has x a session with y whose key exchange doesn't have to be sent (again)?"""
    session = x.world.run(x.backend(ns).load_session(y.jid, y.dev))
    return session is not None and (session.initiation is not Initiation.ACTIVE or session.confirmed)


class SoakNode(Node):
    def make_backend(self, namespace):
        backend = super().make_backend(namespace)
        backend._env = Env(self.world, self.name)  # pylint: disable=protected-access
        backend._env.rng = PickOnce(self.world.rng, self.world.taken)
        return backend

    def has_session(self, ns, jid, dev):
        return f"/toy/{ns}/session/{jid}/{dev}" in self.disk

    def pack(self, message):
        return message

    def unpack(self, packed, _ns, _sender_jid):
        return packed

    def slots(self, message):
        return [ekm.slot() for ekm, _ in message.keys]


class RealSoakNode(RealNode):
    def has_session(self, ns, jid, dev):
        return self.world.run(self.backend(ns).load_session(jid, dev)) is not None

    def pack(self, message):
        return to_xml(message)

    def unpack(self, packed, ns, sender_jid):
        return self.world.run(from_xml(packed, ns, sender_jid, self))

    def slots(self, message):
        headers = [ekm.encrypted_message.header for ekm, _ in message.keys]
        return [(bytes(h.ratchet_pub), h.sending_chain_length) for h in headers]


class Copy:
    """One message on its way to one device."""

    def __init__(self, number, packed, ns, sender, receiver, plaintext, kex):
        self.number, self.packed, self.ns = number, packed, ns
        self.sender, self.receiver, self.plaintext, self.kex = sender, receiver, plaintext, kex
        self.delivered = 0


class Soak:
    def __init__(self, rng, rec, real=False, steps=60):
        self.rng, self.rec, self.real, self.steps = rng, rec, real, steps
        self.w = w = World(rng, yields=not real and rng.random() < 0.2)
        w.taken = set()
        w.budget = 10 ** 6
        self.nss = rng.choice(([TWO], [OLD], [TWO, OLD])) if real else rng.sample(NS, rng.randint(1, 2))
        self.nodes = []
        self.network = []    # copies that may still arrive
        self.numbers = 0
        self.slots = {}
        self.trace = []
        self.losses = rng.choice((0, 0, 0.1, 0.4))
        self.dups = rng.choice((0, 0.1, 0.3))
        self.order = rng.choice(("fifo", "random", "lifo"))
        count = rng.randint(2, 3) if real else rng.randint(2, 5)
        for i in range(count):
            self.add_device(f"user{rng.randrange(3) if i > 1 else i}@x")

    def add_device(self, jid):
        cls = RealSoakNode if self.real else SoakNode
        own = [ns for ns in self.nss if self.rng.random() < 0.7] or self.nss[:1]
        own = self.nss if self.real and self.rng.random() < 0.7 else own
        node = cls(self.w, jid, self.rng.sample(own, len(own)), name=f"n{len(self.nodes)}", undecided="T0",
                   cache=self.rng.random() < 0.6, period=FOREVER, threshold=self.rng.choice((25, 99)))
        # Devices of different accounts often have the same id (which messages of legacy OMEMO can't tell apart).
        free = [i for i in range(3) if all((n.jid, n.dev) != (jid, i + 1) for n in self.nodes)]
        self.w.randbelow_queue = [self.rng.choice(free)] if free and self.rng.random() < 0.6 and OLD not in self.nss else []
        node.start(live=self.rng.random() < 0.7)
        self.w.randbelow_queue = []
        node.dev = node.own().device_id
        self.nodes.append(node)
        for a in self.nodes:
            for b in {n.jid for n in self.nodes}:
                a.feed_lists(b)

    # -- network --------------------------------------------------------------------------------------------
    def post(self, sender, message, plaintext):
        """Something left the library."""
        for slot in sender.slots(message):
            self.rec.check(slot not in self.slots, "a message key was used twice", slot=str(slot))
            self.slots[slot] = True
        packed = sender.pack(message)
        self.numbers += 1
        for ekm, kex in message.keys:
            receiver = self.find(ekm.bare_jid, ekm.device_id)
            self.rec.check(receiver is not None and receiver is not sender, "message for an unexpected device")
            if self.rng.random() < self.losses:
                self.rec.count("lost")
                continue
            self.network.append(Copy(self.numbers, packed, message.namespace, sender, receiver, plaintext, kex is not None))

    def find(self, jid, dev):
        return next((n for n in self.nodes if (n.jid, n.dev) == (jid, dev)), None)

    def sent_since(self, mark):
        for node, message, jid in self.w.sent[mark:]:
            self.rec.check(message.content.empty, "automatic message with content")
            self.rec.check({k[0].bare_jid for k in message.keys} == {jid}, "automatic message for another account")
            self.post(next(n for n in self.nodes if n.name == node.name), message, None)
            self.rec.count("automatic")

    # -- steps ----------------------------------------------------------------------------------------------
    def may_send(self, x, targets):
        """Would an initiation cross another one (or, with real backends, possibly pick the same pre key)?"""
        for y in targets:
            for ns in x.namespaces:
                if ns not in y.namespaces:
                    continue
                mine, theirs = x.has_session(ns, y.jid, y.dev), y.has_session(ns, x.jid, x.dev)
                if theirs and not mine:
                    return False
                if self.real and not mine and any(
                        z is not x and z.has_session(ns, y.jid, y.dev) and not y.has_session(ns, z.jid, z.dev)
                        for z in self.nodes if ns in z.namespaces):
                    return False
        return True

    def do_send(self):
        rng, w, rec = self.rng, self.w, self.rec
        x = rng.choice(self.nodes)
        jids = sorted({n.jid for n in self.nodes} - {x.jid})
        if not jids:
            return
        to = frozenset(rng.sample(jids, rng.randint(1, len(jids))))
        targets = [n for n in self.nodes if n is not x and n.jid in to | {x.jid}]
        if not self.may_send(x, targets):
            rec.count("would_cross")
            return
        order = rng.choice((None, rng.sample(x.namespaces, len(x.namespaces))))
        number = self.numbers
        texts = {ns: f"{x.name}/{number}/{ns}".encode() for ns in x.namespaces}
        completed = {(ns, y.jid, y.dev) for y in targets for ns in x.namespaces if completed_session(x, ns, y)}
        outcome = w.call(x.mgr.encrypt(to, dict(texts), order), omemo.NoEligibleDevices)
        reachable = [y for y in targets if set(y.namespaces) & set(x.namespaces)]
        if not outcome.ok:
            rec.check(any(not any(y.jid == jid for y in reachable) for jid in to), "eligible devices not found")
            return
        messages, errors = outcome.value
        rec.check(not errors, "unexpected encryption errors", errors=errors)
        addressed = sorted((e.bare_jid, e.device_id) for m in messages for e, _ in m.keys)
        rec.check(addressed == sorted((y.jid, y.dev) for y in reachable), "not exactly the reachable devices addressed",
                  got=addressed)
        for m in messages:
            for ekm, kex in m.keys:
                known = (m.namespace, ekm.bare_jid, ekm.device_id) in completed
                rec.check((kex is None) == known, "key exchange information included/omitted wrongly",
                          device=(ekm.bare_jid, ekm.device_id))
                rec.count("confirmed_sessions_used", known)
            self.post(x, m, texts[m.namespace])
        rec.count("encrypted", len(addressed))
        self.trace.append(("send", x.name, len(addressed)))

    def pick(self):
        index = {"fifo": 0, "lifo": -1}.get(self.order, self.rng.randrange(len(self.network)))
        if self.rng.random() < 0.2:
            index = self.rng.randrange(len(self.network))
        return self.network[index]

    def do_deliver(self):
        if not self.network:
            return
        copy = self.pick()
        self.deliver(copy)
        if copy.delivered and self.rng.random() >= self.dups:
            self.network.remove(copy)

    def deliver(self, copy):
        w, rec, node = self.w, self.rec, copy.receiver
        mark = len(w.sent)
        outcome = w.call(node.mgr.decrypt(node.unpack(copy.packed, copy.ns, copy.sender.jid)), *REFUSALS)
        if copy.delivered:
            rec.check(not outcome.ok, "the same message was decrypted twice", number=copy.number)
            rec.check(len(w.sent) == mark, "a repeated message caused a response")
            rec.count("repeated_refused")
            self.trace.append(("again", node.name))
        else:
            rec.check(outcome.ok, "message not decrypted", number=copy.number, outcome=repr(outcome), kex=copy.kex,
                      sender=copy.sender.name, receiver=node.name)
            plaintext, device, _ = outcome.value
            rec.check(plaintext == copy.plaintext, "plaintext differs", got=plaintext, sent=copy.plaintext)
            rec.check((device.bare_jid, device.device_id) == (copy.sender.jid, copy.sender.dev), "wrong sender reported")
            rec.count("delivered" if plaintext is not None else "delivered_empty")
            if copy.kex:
                rec.count("delivered_with_key_exchange")
            self.trace.append(("got", node.name, copy.number))
        copy.delivered += 1
        self.sent_since(mark)

    def do_restart(self):
        node = self.rng.choice(self.nodes)
        node.start()
        self.rec.count("restarts")
        self.trace.append(("restart", node.name))

    def do_sync(self):
        node = self.rng.choice(self.nodes)
        mark = len(self.w.sent)
        if self.rng.random() < 0.3:
            node.mgr.before_history_sync()
        else:
            self.w.call(node.mgr.after_history_sync())
        self.sent_since(mark)

    def do_burst(self):
        """Long chains: staleness responses."""
        x = self.rng.choice(self.nodes)
        for _ in range(self.rng.choice((5, 30))):
            jids = sorted({n.jid for n in self.nodes} - {x.jid})
            targets = [n for n in self.nodes if n is not x]
            if not jids or not self.may_send(x, targets):
                return
            outcome = self.w.call(x.mgr.encrypt(frozenset(jids), {ns: b"burst" for ns in x.namespaces}),
                                  omemo.NoEligibleDevices)
            if not outcome.ok:
                return
            for m in outcome.value[0]:
                self.post(x, m, b"burst")

    def do_new(self):
        if len(self.nodes) < (3 if self.real else 6):
            self.add_device(f"user{self.rng.randrange(3)}@x")

    def run(self):
        rng = self.rng
        burst = 0 if self.real else rng.choice((0, 0, 1))
        actions = [(self.do_send, 30), (self.do_deliver, 50), (self.do_restart, 4), (self.do_sync, 6),
                   (self.do_burst, burst), (self.do_new, 1)]
        for _ in range(rng.randint(self.steps // 3, self.steps)):
            rng.choices([a for a, _ in actions], [n for _, n in actions])[0]()
        # Whatever is still under way arrives in the end, and the conversation can go on.
        for round_ in range(3):
            while self.network:
                copy = self.pick()
                self.network.remove(copy)
                self.deliver(copy)
            if round_ < 2:
                for _ in range(4):
                    self.do_send()
        self.rec.sig(self.real, self.nss, self.trace)
        self.rec.sample({"devices": [(n.jid, n.namespaces) for n in self.nodes], "order": self.order,
                         "losses": self.losses, "repetitions": self.dups, "messages": self.numbers})


def soak_case(rng, rec):
    Soak(rng, rec).run()


def real_soak_case(rng, rec):
    Soak(rng, rec, real=True, steps=40).run()
