"""
The private identity key: everything the library lets out (log records of all levels with tracebacks, output streams, data for the
server, messages, exceptions, callback arguments and returned values) is searched for it in the usual representations.
"""
import base64
import contextlib
import io
import json
import logging

import xeddsa
from omemo.identity_key_pair import IdentityKeyPair

from .errors_engine import Errors
from .real import RealNode, to_xml
from .world import PlainStorage, World
import oldmemo
import twomemo


class Tap(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.texts = []
        self.setFormatter(logging.Formatter("%(name)s %(levelname)s %(message)s"))

    def emit(self, record):
        self.texts.append(self.format(record))


@contextlib.contextmanager
def tapped():
    """Everything that is logged or printed."""
    tap, root = Tap(), logging.getLogger()
    level, disabled = root.level, root.manager.disable
    out = io.StringIO()
    root.addHandler(tap)
    root.setLevel(logging.DEBUG)
    logging.disable(logging.NOTSET)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            yield tap
    finally:
        root.removeHandler(tap)
        root.setLevel(level)
        logging.disable(disabled)
        tap.texts.append(out.getvalue())


def representations(secret):
    """Texts that give away (a good part of) the secret."""
    parts = (secret[:7], secret[-7:])
    texts = {str(int.from_bytes(secret, order)) for order in ("big", "little")}
    for part in parts:
        texts |= {part.hex(), part.hex().upper(), part.hex(" "), part.hex(":"), repr(part)[2:-1], str(list(part))[1:-1]}
    for encode in (base64.b64encode, base64.urlsafe_b64encode):
        texts |= {encode(secret).decode()[:9], encode(secret).decode()[-10:]}
    return texts


def secrets_of(disk):
    key = base64.urlsafe_b64decode(json.loads(disk["/ikp/key"]))
    return {key, xeddsa.seed_to_priv(key)} if json.loads(disk["/ikp/is_seed"]) else {key}


def plant(rng, disk):
    """Sometimes the device has a private key without a seed."""
    if rng.random() < 0.4:
        disk["/ikp/is_seed"] = "false"
        disk["/ikp/key"] = json.dumps(base64.urlsafe_b64encode(xeddsa.seed_to_priv(rng.randbytes(32))).decode())
        return True
    return False


def search(rec, disk, texts):
    needles = {n for s in secrets_of(disk) for n in representations(s)}
    for what, text in texts:
        for needle in needles:
            rec.check(needle not in text, "the private identity key got out", where=what)
        rec.count("texts_searched")


class Watched(Errors):
    def __init__(self, rng, rec):
        super().__init__(rng, rec)
        self.let_out = []
        self.rec.count("private_keys_without_seed", plant(rng, self.node.disk))

    def run(self, coroutine):
        outcome = super().run(coroutine)
        self.let_out.append(("result", repr(outcome.value)))
        if outcome.exc is not None:
            self.let_out.append(("exception", repr(outcome.exc) + str(outcome.exc) + repr(vars(outcome.exc))))
        return outcome


def secret_case(rng, rec):
    with tapped() as tap:
        s = Watched(rng, rec)
        s.peers = {}
        s.do_create()
        steps = [m for m in dir(Errors) if m.startswith("do_") and m not in ("do_create", "do_purge", "do_backends")]
        for _ in range(rng.randint(2, 7)):
            getattr(s, rng.choice(steps))()
        if rng.random() < 0.4:
            rng.choice((s.do_purge, s.do_backends))()
        s.w.advance(rng.choice((0, 8 * 86400)))
        pair = s.w.run(IdentityKeyPair.get(s.node.storage))
        s.let_out.append(("key pair", f"{pair!r} {pair} {pair.identity_key!r}"))
    texts = s.let_out + [("log", t) for t in tap.texts]
    texts += [(e.kind, repr(e.d)) for e in s.w.events if e.kind not in ("load", "store", "delete")]
    search(rec, s.node.disk, texts)
    for key, value in s.node.disk.items():
        if not key.startswith("/ikp/"):
            search(rec, s.node.disk, [("storage outside of the key pair's place", key + value)])
    rec.count("log_records", len(tap.texts))
    rec.sig(len(tap.texts), [t[0] for t in texts])
    rec.sample({"log records": len(tap.texts), "other texts": len(texts) - len(tap.texts)})


def real_secret_case(rng, rec):
    """The same with the real backends: bundles and messages as they go over the wire."""
    namespaces = [twomemo.twomemo.NAMESPACE, oldmemo.oldmemo.NAMESPACE]
    with tapped() as tap:
        w = World(rng)
        out = []
        nodes = [RealNode(w, jid, namespaces[:rng.choice((1, 2))]) for jid in ("alice@x", "bob@x")]
        for node in nodes:
            rec.count("private_keys_without_seed", plant(rng, node.disk))
            node.decide = decide_all
            node.start(live=True)
        alice, bob = nodes
        for a, b in ((alice, bob), (bob, alice)):
            for ns in a.namespaces:
                w.call(a.mgr.refresh_device_list(ns, b.jid))
        for _ in range(rng.randint(1, 3)):
            mark = len(w.sent)
            result = w.call(alice.mgr.encrypt(frozenset({bob.jid}), {ns: b"text" for ns in namespaces}, rng.choice(
                (None, rng.sample(alice.namespaces, len(alice.namespaces)))))).value
            out.append(("result", repr(result)))
            for message in result[0]:
                out.append(("message", to_xml(message)))
                if any(b.namespace == message.namespace for b in bob.backends) and message.keys:
                    out.append(("result", repr(w.call(bob.mgr.decrypt(message)).value)))
            out += [("message", to_xml(m)) for _, m, _ in w.sent[mark:]]
            alice, bob = bob, alice
        rec.count("real_messages", sum(1 for what, _ in out if what == "message"))
    texts = out + [("log", t) for t in tap.texts]
    texts += [("bundle", repr(b) + repr(vars(b))) for b in w.bundles.values()]
    texts += [(e.kind, repr(e.d)) for e in w.events if e.kind not in ("load", "store", "delete")]
    for node in nodes:
        search(rec, node.disk, texts)
    rec.count("log_records", len(tap.texts))
    rec.sig(len(tap.texts), [t[0] for t in texts])


async def decide_all(mgr, undecided, _identifier):
    for device in undecided:
        await mgr.set_trust(device.bare_jid, device.identity_key, "T")
