"""Skipped message key limits: what is accepted as configuration, and what they mean for delivery."""
import omemo

from .decrypt_engine import GATE_ERRORS
from .golden_real import FOREVER
from .real import OLD, TWO, RealNode, from_xml, to_xml
from .toy import ToyBackend
from .world import NS, Node, Peer, World

FINE = list(range(0, 30)) + [99, 100, 101, 999, 1000, 1001, 10 ** 6, 2 ** 31, 2 ** 63]


def documented(session, message):
    """The documented rule, literally."""
    if message is None:
        return True
    if message == 0:
        return session == 0
    return 1 <= message <= session


def configuration_case(rng, rec):
    """One row of the table: a per-session limit against all per-message limits."""
    session = FINE[rec.index] if rec.index < len(FINE) else rng.choice((rng.randrange(200), rng.randrange(10 ** 9)))
    candidates = set(FINE) | {None} | {max(0, session + d) for d in (-2, -1, 0, 1, 2)} | {rng.randrange(session + 2)}
    for message in sorted(candidates, key=lambda v: -1 if v is None else v):
        for style in ("keywords", "positional"):
            try:
                if style == "keywords":
                    backend = ToyBackend(NS[0], None, None, max_num_per_session_skipped_keys=session,
                                         max_num_per_message_skipped_keys=message)
                else:
                    backend = omemo.Backend.__new__(ToyBackend)
                    omemo.Backend.__init__(backend, session, message)
                accepted = True
            except ValueError:
                accepted = False
            rec.check(accepted == documented(session, message), "limits wrongly accepted or rejected", session=session,
                      message=message, accepted=accepted)
            rec.count("accepted" if accepted else "rejected")
            if accepted:
                got = backend.max_num_per_session_skipped_keys, backend.max_num_per_message_skipped_keys
                want = session, session if message is None else message
                rec.check(got == want and type(got[0]) is int and type(got[1]) is int,
                          "limits reported differently", got=got, expected=want)
    only_session = ToyBackend(NS[0], None, None, max_num_per_session_skipped_keys=session)
    rec.check(only_session.max_num_per_message_skipped_keys == session, "per-message limit doesn't default to per-session")
    default = ToyBackend(NS[0], None, None)
    rec.check((default.max_num_per_session_skipped_keys, default.max_num_per_message_skipped_keys) == (1000, 1000),
              "default limits differ")
    rec.sig(session)


def limits(rng):
    session = rng.choice((0, 1, 2, 3, 5, 8))
    if rng.random() < 0.3:
        return session, None, {"max_num_per_session_skipped_keys": session}
    message = 0 if session == 0 else rng.randint(1, session)
    return session, message, {"max_num_per_session_skipped_keys": session, "max_num_per_message_skipped_keys": message}


class Chain:
    """Reference model of one receiving chain under the limits."""

    def __init__(self, session, message):
        self.session, self.message = session, session if message is None else message
        self.next, self.kept = 0, []

    def deliver(self, n):
        if n in self.kept:
            self.kept.remove(n)
            return "ok"
        if n < self.next:
            return "gone"
        skipped = list(range(self.next, n))
        if len(skipped) > self.message:
            return "too many"
        self.kept = (self.kept + skipped)[-self.session:] if self.session else []
        self.next = n + 1
        return "ok"


def order(rng, count):
    """A delivery order with jumps of all sizes and repetitions."""
    numbers = list(range(count))
    out = [0] if rng.random() < 0.7 else []
    position = 0
    for _ in range(count * 2):
        kind = rng.random()
        if kind < 0.55:
            position = min(count - 1, position + rng.choice((1, 1, 2, 3, 4, 5, 6, 7, 9)))
            out.append(position)
        else:
            out.append(rng.choice(numbers))
    return out


def judge(rec, want, outcome, text, n, strict):
    if want == "ok":
        rec.check(outcome.ok and outcome.value[0] == text, "message within the limits not decrypted", n=n,
                  outcome=repr(outcome))
    elif want == "too many":
        rec.check(outcome.raised(omemo.TooManySkippedMessageKeys) if strict else not outcome.ok, "message skipping too many keys not refused as such",
                  n=n, outcome=repr(outcome))
    else:
        rec.check(not outcome.ok, "message decrypted although its key must be gone", n=n)
    rec.count("delivered_" + want.replace(" ", "_"))


def toy_delivery_case(rng, rec):
    session, message, args = limits(rng)
    w = World(rng)
    node = Node(w, "alice@x", backend_args=args)
    node.wander = rng
    node.start()
    peer = Peer(w, "bob@x", 5)
    me = node.own().device_id
    node.feed_lists("bob@x")
    count = rng.randint(4, 14)
    mails = [peer.send(NS[0], [("alice@x", me)], b"m%d" % i)[0] for i in range(count)]
    run_chain(rng, rec, w, node, Chain(session, message), order(rng, count), lambda i: mails[i])


def run_chain(rng, rec, w, node, model, numbers, mail, strict=True):
    trace = []
    for n in numbers:
        established = model.next > 0
        want = model.deliver(n)
        outcome = w.call(node.mgr.decrypt(mail(n)), *GATE_ERRORS)
        if want == "too many" and not established:
            rec.check(not outcome.ok, "message skipping too many keys accepted")
        else:
            judge(rec, want, outcome, b"m%d" % n, n, strict)
        trace.append((n, want))
        if rng.random() < 0.1:
            node.start()
    rec.sig(model.session, model.message, trace)


def real_delivery_case(rng, rec):
    session, message, args = limits(rng)
    w = World(rng)
    ns = rng.choice((TWO, OLD))
    alice = RealNode(w, "alice@x", [ns], backend_args=args, period=FOREVER)
    bob = RealNode(w, "bob@x", [ns], period=FOREVER)
    alice.start()
    bob.start()
    alice.feed_lists("bob@x")
    bob.feed_lists("alice@x")
    alice.info("bob@x")
    for d in bob.info("alice@x").values():
        w.call(bob.mgr.set_trust("alice@x", d.identity_key, "T"))
    got = alice.backend(ns)
    want = session, session if message is None else message
    rec.check((got.max_num_per_session_skipped_keys, got.max_num_per_message_skipped_keys) == want,
              "limits of a real backend differ", expected=want)
    count = rng.randint(4, 12)
    xml = []
    for i in range(count):
        (m,) = w.call(bob.mgr.encrypt(frozenset({"alice@x"}), {ns: b"m%d" % i})).value[0]
        xml.append(to_xml(m))
    run_chain(rng, rec, w, alice, Chain(session, message), [0] + order(rng, count),
              lambda i: w.run(from_xml(xml[i], ns, "bob@x", alice)), strict=False)  # which exception is the backend's business
