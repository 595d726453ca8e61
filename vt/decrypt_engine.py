"""
Hostile decryption scenarios: honest and dishonest messages in any order, in and out of history synchronization, with
restarts. The oracle knows what every message was made of and runs a shadow copy of the backend to know what is
cryptographically possible.
"""
import asyncio

import omemo
from omemo.session import Initiation

from .model import Lists
from .toy import ToyBackend, ToyBundle, ToyContent, ToyKex
from .world import NS, Node, Peer, PlainStorage, World, _SilentEnv, level_of

MAGIC = 53
GATE_ERRORS = (
    omemo.UnknownNamespace, omemo.UnknownTrustLevel, omemo.KeyExchangeFailed, omemo.MessageNotForUs,
    omemo.SenderNotFound, omemo.SenderDistrusted, omemo.NoSession, omemo.PublicDataInconsistency,
    omemo.DecryptionFailed, omemo.TooManySkippedMessageKeys, omemo.DeviceListDownloadFailed
)


SIMILAR = ("Alice@x", "alice@X", "alice@x.example", "alice@x/resource")


class MySendFailed(omemo.MessageSendingFailed):
    pass


class MyUploadFailed(omemo.BundleUploadFailed):
    pass


class Sent:
    """A message somebody made, and the truth about it."""

    def __init__(self, peer, message, plaintext, key, note="honest"):
        self.peer, self.message, self.plaintext, self.key, self.note = peer, message, plaintext, key, note
        self.delivered = 0


class DecryptScenario:
    def __init__(self, rng, rec, weights=None, limits=None, threshold=None, peers=None, nss=None, yields=None,
                 jids=("bob@x", "bob@x", None, "alice@x")):
        self.rng, self.rec = rng, rec
        self.w = w = World(rng, yields=rng.random() < 0.25 if yields is None else yields)
        self.weights = dict(DEFAULT_WEIGHTS, **(weights or {}))
        self.jids = [jid or rng.choice(("alice@x.example", "Alice@x", "alice@X", "al\u0131ce@x", "alic\u0065\u0301@x")) for jid in jids]
        self.nss = nss or rng.sample(NS, rng.choice((1, 1, 1, 2, 2, 3)))
        self.limits = limits if limits is not None else rng.choice((
            {}, {}, {"max_num_per_session_skipped_keys": 60}, {"max_num_per_session_skipped_keys": 70,
                                                              "max_num_per_message_skipped_keys": 5}))
        self.threshold = threshold if threshold is not None else rng.choice((99, 99, 98, 60, 25))
        w.randbelow_queue = [rng.randrange(4)]
        self.node = Node(w, "alice@x", self.nss, cache=rng.random() < 0.6, threshold=self.threshold,
                         backend_args=self.limits)
        self.node.start()
        self.synchronizing = True
        self.own = ("alice@x", self.node.own().device_id)
        self.lists = Lists()
        self.lists.dev["alice@x"] = {self.own[1]: {"ns": set(self.nss), "active": {n: True for n in self.nss},
                                                  "label": None}}
        self.trust, self.ik = {}, {}
        self.slack = set()        # backends whose pre keys may not have been refilled (after a crash)
        self.pending = set()      # (ns, jid, dev) we owe an empty message to
        self.peers, self.pool, self.outbox, self.old = [], [], [], []
        self.bundle_fail, self.list_fail, self.send_fail = set(), set(), set()
        w.rule = self.rule
        self.num_peers = peers or rng.randint(1, 4)
        for _ in range(self.num_peers):
            self.add_peer(fed=rng.random() < 0.6)

    def rule(self, _node, op, info):
        if op == "download_bundle" and (info["jid"], info["dev"]) in self.bundle_fail:
            return omemo.BundleDownloadFailed("scripted")
        if op == "download_list" and info["jid"] in self.list_fail:
            return omemo.DeviceListDownloadFailed("scripted")
        if op == "send":
            (ekm, _), = info["message"].keys
            if (info["message"].namespace, ekm.bare_jid, ekm.device_id) in self.send_fail:
                return MySendFailed("scripted")
        return None

    def add_peer(self, fed=True):
        jid = self.rng.choice(self.jids)
        taken = {(p.jid, p.dev) for p in self.peers} | {self.own}
        dev = self.rng.choice([d for d in range(1, 12) if (jid, d) not in taken])
        peer = Peer(self.w, jid, dev, self.rng.sample(self.nss, self.rng.randint(1, len(self.nss))), pre_keys=5)
        self.peers.append(peer)
        if fed:
            self.feed(jid)
        return peer

    def feed(self, jid):
        for ns in self.nss:
            current = dict(self.w.lists.get((ns, jid), {}))
            self.w.call(self.node.mgr.update_device_list(ns, jid, dict(current)))
            publish = self.lists.update(ns, jid, current, self.own)
            if publish is not None:
                self.rec.check(self.w.lists[(ns, jid)] == publish, "own device not put back on the list")

    # -- truth ----------------------------------------------------------------------------------------------------
    def lookup(self, jid, dev):
        """The identity key the library can know for a device right now, or None."""
        if dev not in self.lists.of(jid):
            return None
        if (jid, dev) in self.ik:
            return self.ik[(jid, dev)]
        if (jid, dev) in self.bundle_fail:
            return None
        for ns in sorted(self.lists.of(jid)[dev]["ns"]):
            if (ns, jid, dev) in self.w.bundles:
                return self.w.bundles[(ns, jid, dev)].identity_key
        return None

    def expect(self, message):
        """
        (set of admissible exception types, None) if the message has to be refused,
        (None, (plaintext, key, shadow session, sender identity)) if it has to be accepted.
        """
        if message.namespace not in self.nss:
            return {omemo.UnknownNamespace}, None
        mine = [k for k in message.keys if (k[0].bare_jid, k[0].device_id) == self.own]
        if not mine:
            return {omemo.MessageNotForUs}, None
        (ekm, kex), = mine
        sender = (message.bare_jid, message.device_id)
        key = self.lookup(*sender)
        if key is None:
            if message.bare_jid in self.list_fail:
                return {omemo.DeviceListDownloadFailed}, None
            self.lists.update(message.namespace, message.bare_jid,
                              self.w.lists.get((message.namespace, message.bare_jid), {}), self.own)
            key = self.lookup(*sender)
            if key is None:
                return {omemo.SenderNotFound}, None
        try:
            if level_of(self.trust.get((sender[0], key), self.node.undecided)) is omemo.TrustLevel.DISTRUSTED:
                return {omemo.SenderDistrusted}, None
        except omemo.UnknownTrustLevel:
            return {omemo.UnknownTrustLevel}, None
        if kex is not None and kex.identity_key != key:
            return {omemo.PublicDataInconsistency}, None
        return self.w.run(self._shadow(message, ekm, kex, key))

    async def _shadow(self, message, ekm, kex, key):
        storage = PlainStorage()
        storage.data = dict(self.node.disk)
        backend = ToyBackend(message.namespace, storage, _SilentEnv(self.w), **self.limits)
        session = await backend.load_session(message.bare_jid, message.device_id)
        try:
            if kex is None:
                if session is None:
                    return {omemo.NoSession}, None
                pkm = await backend.decrypt_key_material(session, ekm)
            elif session is not None and session.initiation is Initiation.PASSIVE \
                    and session.key_exchange.builds_same_session(kex):
                pkm = await backend.decrypt_key_material(session, ekm)
            else:
                session, pkm = await backend.build_session_passive(message.bare_jid, message.device_id, kex, ekm)
            plaintext = None if message.content.empty else await backend.decrypt_plaintext(message.content, pkm)
        except omemo.BackendException as e:
            return {type(e)}, None
        return None, (plaintext, pkm.key, session, key)

    # -- actions ----------------------------------------------------------------------------------------------------
    def act(self):
        kinds = [k for k, v in self.weights.items() if v > 0]
        kind = self.rng.choices(kinds, [self.weights[k] for k in kinds])[0]
        getattr(self, "do_" + kind)()
        return kind

    def a_peer(self):
        peer = self.rng.choice(self.peers)
        return peer, self.rng.choice(peer.namespaces)

    def text(self):
        return self.rng.getrandbits(72).to_bytes(9, "big") * self.rng.choice((0, 1, 1, 4))

    def compose(self, peer, ns, plaintext="", fresh=False):
        plaintext = self.text() if plaintext == "" else plaintext
        targets = [self.own]
        if (ns,) + self.own not in self.w.bundles and (fresh or not peer.has_session(ns, *self.own)):
            return None
        if self.rng.random() < 0.3:
            targets += [(p.jid, p.dev) for p in self.peers if p is not peer and ns in p.namespaces
                        and (p.jid, p.dev) != (peer.jid, peer.dev)]
        message, pkm = peer.send(ns, targets, plaintext, fresh=fresh)
        sent = Sent(peer, message, plaintext, pkm.key)
        self.pool.append(sent)
        return sent

    def do_send(self):
        """Somebody writes to us; the message arrives some time later."""
        peer, ns = self.a_peer()
        self.compose(peer, ns, None if self.rng.random() < 0.15 else "", fresh=self.rng.random() < 0.05)

    def do_deliver(self):
        """One of the messages in flight arrives."""
        if not self.pool:
            self.do_send()
        if not self.pool:
            return
        sent = self.pool.pop(self.rng.randrange(len(self.pool)) if self.rng.random() < 0.4 else 0)
        if self.rng.random() < 0.05:
            return  # lost
        self.deliver(sent)

    def do_replay(self):
        if self.old:
            self.deliver(self.rng.choice(self.old))

    def do_reply(self):
        """We write something back, they receive it (which advances the ratchets)."""
        if self.synchronizing and self.rng.random() < 0.5:
            return
        self.reply_to(*self.a_peer())

    def reply_to(self, peer, ns):
        session = self.node.toy_session(ns, peer.jid, peer.dev)
        if ns not in self.nss or (peer.jid, peer.dev) not in self.ik or session is None and self.rng.random() < 0.5:
            return
        key = self.ik[(peer.jid, peer.dev)]
        for other in self.peers:
            if other is not peer and other.jid in (peer.jid, "alice@x") and (other.jid, other.dev) in self.ik:
                self.set_trust(other.jid, self.ik[(other.jid, other.dev)], "D")
        self.set_trust(peer.jid, key, "T")

        async def decide(mgr, undecided, _identifier):
            for device in undecided:
                name = "T" if device.identity_key == key else "D"
                await mgr.set_trust(device.bare_jid, device.identity_key, name)
                self.trust[(device.bare_jid, device.identity_key)] = name
        self.node.decide = decide
        order = [ns] + [n for n in self.nss if n != ns]
        outcome = self.w.call(self.node.mgr.encrypt(frozenset({peer.jid}), {n: b"reply" for n in self.nss}, order),
                              omemo.NoEligibleDevices, omemo.UnknownTrustLevel)
        self.node.decide = None
        self.refresh_known()
        if outcome.ok:
            if session is None and self.node.toy_session(ns, peer.jid, peer.dev) is not None:
                self.rec.count("sessions_initiated")
            for message in outcome.value[0]:
                if peer.key_for_me(message) and self.rng.random() < 0.8:
                    try:
                        peer.receive(message)
                    except omemo.OMEMOException:
                        pass  # the peer may have moved on to another session, its problem

    def refresh_known(self, jids=None):
        """Observe which identity keys are on record (without giving the library the chance to download any)."""
        old, self.w.rule = self.w.rule, lambda n, op, info: (
            omemo.BundleDownloadFailed("offline") if op == "download_bundle" else None)
        for jid in sorted(self.lists.dev) if jids is None else jids:
            for dev, info in self.node.info(jid).items():
                if (jid, dev) == self.own:
                    continue
                if (jid, dev) in self.ik:
                    self.rec.check(info.identity_key == self.ik[(jid, dev)], "identity key on record changed",
                                   device=(jid, dev))
                else:
                    self.rec.check(info.identity_key in {
                        b.identity_key for (_, j, d), b in self.w.bundles.items() if (j, d) == (jid, dev)
                    }, "identity key on record was never published", device=(jid, dev))
                self.ik[(jid, dev)] = info.identity_key
        self.w.rule = old

    def do_read(self):
        """A peer reads the empty messages we sent to it."""
        if self.outbox:
            message, peer = self.outbox.pop(0)
            if self.rng.random() < 0.8:
                (ekm, kex), = message.keys
                session = peer.session(message.namespace, *self.own)
                current = session is not None and session.st["sid"] == ekm.sid and kex is None \
                    and session.st["pbid"] in (None, ekm.bid)
                try:
                    peer.receive(message)
                except omemo.OMEMOException as e:
                    # (a peer that moved on to another session can't read it, that's fine)
                    self.rec.check(not current, "automatic message not decryptable by the addressed device",
                                   error=repr(e), device=(peer.jid, peer.dev))
                else:
                    if current:
                        session = peer.session(message.namespace, *self.own)
                        self.rec.check(session.st["side"] == "P" or session.confirmed,
                                       "key exchange not completed by the automatic message")
                        self.rec.count("automatic_messages_read")

    def do_storm(self):
        """Many key exchanges in a row."""
        for _ in range(self.rng.randint(4, 20)):
            peer, ns = self.a_peer()
            sent = self.compose(peer, ns, fresh=True)
            if sent is not None:
                self.pool.remove(sent)
                self.deliver(sent)

    def do_burst(self):
        """Many messages in a row without a response: staleness."""
        self.burst_from(*self.a_peer())

    def burst_from(self, peer, ns):
        length = self.rng.choice((MAGIC - 2, MAGIC - 1, MAGIC, MAGIC + 1, MAGIC + 2, 20))
        session = peer.session(ns, *self.own)
        if session is None:
            return
        start = session.st["sn"]
        made = []
        while peer.session(ns, *self.own).st["sn"] < max(length, start + 1) and len(made) < 80:
            made.append(self.compose(peer, ns))
        for sent in made:
            self.pool.remove(sent)
        for sent in made[-self.rng.choice((1, 1, 2, 3)):]:
            self.deliver(sent)

    def do_group(self):
        """Several devices of one account, some in sessions that we initiated, become stale within one synchronization."""
        rng = self.rng
        ns = rng.choice(self.nss)
        able = [p for p in self.peers if ns in p.namespaces]
        jid = rng.choice(sorted({p.jid for p in able} or {""}))
        group = [p for p in able if p.jid == jid]
        if len(group) < 2:
            return
        if self.synchronizing and rng.random() < 0.7:
            self.leave_sync()
        self.bundle_fail.clear()
        self.list_fail.clear()
        self.feed(jid)
        self.refresh_known([jid])
        for peer in group:
            if rng.random() < 0.7:
                self.reply_to(peer, ns)
            if (jid, peer.dev) in self.ik:
                self.set_trust(jid, self.ik[(jid, peer.dev)], "T")
            sent = self.compose(peer, ns)
            if sent is not None:
                self.pool.remove(sent)
                self.deliver(sent)
            while self.outbox:
                self.do_read()
        if not self.synchronizing:
            self.node.mgr.before_history_sync()
            self.synchronizing = True
        for peer in rng.sample(group, len(group)):
            if rng.random() < 0.85:
                self.burst_from(peer, ns)
            if rng.random() < 0.2:
                self.do_restart()
        self.rec.count("groups")
        self.rec.count("groups_due", sum(p[:2] == (ns, jid) for p in self.pending) > 1)

    def do_collide(self):
        """Two devices pick the same one-time pre key (e.g. while we were offline)."""
        ns = self.rng.choice(self.nss)
        bundle = self.w.bundles[(ns,) + self.own]
        able = [p for p in self.peers if ns in p.namespaces]
        only = ToyBundle(ns, *self.own, bundle.identity_key, bundle.spk, (self.rng.choice(sorted(bundle.pre_keys)),))
        for peer in self.rng.sample(able, min(len(able), 2)):
            text = self.text()
            message, pkm = peer.send(ns, [self.own], text, bundles={self.own: only}, fresh=True)
            self.pool.append(Sent(peer, message, text, pkm.key))
            self.rec.count("colliding_pre_keys")

    def do_trust(self):
        peer, _ = self.a_peer()
        self.set_trust(peer.jid, peer.identity_key, self.rng.choice(("T", "D", "D", "U", "U2", "strange", "T")))

    def set_trust(self, jid, key, name):
        self.w.call(self.node.mgr.set_trust(jid, key, name))
        self.trust[(jid, key)] = name

    def do_network(self):
        peer, _ = self.a_peer()
        r = self.rng.random()
        if r < 0.4:
            self.bundle_fail ^= {(peer.jid, peer.dev)}
        elif r < 0.6:
            self.list_fail ^= {peer.jid}
        else:
            self.bundle_fail.clear()
            self.list_fail.clear()

    def do_newpeer(self):
        if len(self.peers) < 7:
            self.add_peer(fed=self.rng.random() < 0.3)

    def do_feed(self):
        self.feed(self.rng.choice(self.peers).jid)

    def do_purge(self):
        """An account is purged; whatever it sends afterwards comes from strangers."""
        peer, _ = self.a_peer()
        jid = peer.jid
        if jid == self.own[0]:
            return
        self.refresh_known([jid])
        self.w.call(self.node.mgr.purge_bare_jid(jid))
        for j, dev in [d for d in self.ik if d[0] == jid]:
            self.trust.pop((jid, self.ik.pop((j, dev))), None)
        self.lists.dev.pop(jid, None)
        self.pending = {p for p in self.pending if p[1] != jid or p[0] not in self.nss}
        self.rec.check(not self.node.info(jid), "purged account still known", jid=jid)
        self.rec.count("purges")

    def do_drop(self):
        """The sessions with an account are dropped directly at the backend."""
        peer, ns = self.a_peer()
        backend = next((b for b in self.node.backends if b.namespace == ns), None)
        if backend is not None:
            self.w.call(backend.purge_bare_jid(peer.jid))
            self.rec.count("sessions_dropped")

    def do_unpublished(self):
        """A key exchange arrives while bundles can't be published."""
        w, rec, node = self.w, self.rec, self.node
        peer, ns = self.a_peer()
        sent = self.compose(peer, ns, fresh=True) if ns in self.nss else None
        if sent is None:
            return
        self.pool.remove(sent)
        self.refresh_known([peer.jid])
        (_, kex), = [k for k in sent.message.keys if (k[0].bare_jid, k[0].device_id) == self.own]
        _, accepted = self.expect(sent.message)
        visible = node.pre_keys(ns)[0]
        if accepted is None or kex.pk not in visible:
            return self.deliver(sent)
        old, w.rule = w.rule, lambda n, op, info: MyUploadFailed("scripted") if op == "upload_bundle" else old(n, op, info)
        sent_before = len(w.sent)
        outcome = w.call(node.mgr.decrypt(sent.message), MyUploadFailed)
        w.rule = old
        rec.check(not outcome.ok, "key exchange accepted although the used pre key is still published")
        visible, hidden = node.pre_keys(ns)
        rec.check(kex.pk not in visible and (kex.pk in hidden) == self.synchronizing,
                  "used pre key not retired", hidden=kex.pk in hidden, synchronizing=self.synchronizing)
        rec.check(len(w.sent) == sent_before or not self.synchronizing, "message sent during history synchronization")
        self.judge_sent(sent_before)
        self.list_fail.discard(self.own[0])
        w.call(node.mgr.ensure_data_consistency())
        for other in self.nss:
            publish = self.lists.update(other, self.own[0], dict(w.lists[(other, self.own[0])]), self.own)
            rec.check(publish is None, "harness: own list")
        rec.check(w.bundles[(ns,) + self.own].pre_keys == frozenset(visible), "bundle not repaired")
        rec.count("publication_failures")

    def do_delist(self):
        """A device leaves some or all device lists (or comes back)."""
        peer, _ = self.a_peer()
        back = self.rng.random() < 0.4
        for ns in self.rng.sample(peer.namespaces, self.rng.choice((1, len(peer.namespaces)))):
            if back:
                self.w.lists.setdefault((ns, peer.jid), {})[peer.dev] = peer.label
            else:
                self.w.lists.setdefault((ns, peer.jid), {}).pop(peer.dev, None)
                self.rec.count("delisted")
        if self.rng.random() < 0.8:
            self.feed(peer.jid)

    def do_forge(self):
        """A message nobody would send: one aspect of a genuine one altered."""
        rng = self.rng
        peer, ns = self.a_peer()
        sent = self.compose(peer, ns)
        if sent is None:
            return
        self.pool.remove(sent)
        genuine = rng.random() < 0.6
        message = sent.message
        mine = next(k for k in message.keys if (k[0].bare_jid, k[0].device_id) == self.own)
        rest = message.keys - {mine}
        ekm, kex = mine
        how = rng.choice(("broken-key", "broken-key", "broken-content", "broken-content", "not-for-us", "wrong-jid",
                          "wrong-device", "similar-jid", "decoy", "decoy", "namespace", "other-sender", "other-sender", "unlisted-sender",
                          "kex-identity", "kex-stolen-identity", "kex-prekey", "kex-dropped", "kex-bogus"))
        if how == "broken-key":
            message = message._replace(keys=rest | {(ekm.clone(broken=True), kex)})
        elif how == "broken-content":
            content = ToyContent(message.content.ct + b"!", message.content.tag)
            message = message._replace(content=content)
        elif how == "not-for-us":
            message = message._replace(keys=rest)
        elif how == "wrong-jid":
            message = message._replace(keys=rest | {(ekm.clone(bare_jid="mallory@x"), kex)})
        elif how == "wrong-device":
            message = message._replace(keys=rest | {(ekm.clone(device_id=self.own[1] + 1000), kex)})
        elif how == "similar-jid":
            message = message._replace(keys=rest | {(ekm.clone(bare_jid=rng.choice(SIMILAR)), kex)})
        elif how == "decoy":
            jid, dev = rng.choice([(jid, self.own[1]) for jid in SIMILAR] + [(self.own[0], self.own[1] + 1)])
            extra = (ekm.clone(bare_jid=jid, device_id=dev, broken=True), rng.choice((kex, None)))
            message = message._replace(keys=message.keys | {extra})
            genuine = False
        elif how == "namespace":
            message = message._replace(namespace="urn:nobody:knows")
        elif how == "other-sender":
            other = rng.choice(self.peers)
            if other is peer:
                return
            message = message._replace(bare_jid=other.jid, device_id=other.dev)
        elif how == "unlisted-sender":
            message = message._replace(device_id=message.device_id + 5000)
        elif kex is not None and how.startswith("kex"):
            j = kex.to_json()
            if how == "kex-identity":
                j[0] = bytes(32).hex()
            elif how == "kex-stolen-identity":
                victim = rng.choice(self.peers)
                j[0] = victim.identity_key.hex()
                message = message._replace(bare_jid=victim.jid, device_id=victim.dev)
            elif how == "kex-prekey":
                j[5] = 10 ** 9
            elif how == "kex-bogus":
                j[3] = 10 ** 9
            new = None if how == "kex-dropped" else ToyKex.from_json(j)
            message = message._replace(keys=rest | {(ekm, new)})
        else:
            return
        forged = Sent(peer, message, sent.plaintext, sent.key, how)
        self.rec.count("forged:" + how)
        self.deliver(forged)
        if genuine:
            # The original still has to work afterwards, exactly as if the forgery had never arrived.
            self.deliver(sent)

    def do_sync(self):
        if self.synchronizing or self.rng.random() < 0.15:
            self.rec.count("sync_left_twice", not self.synchronizing)
            self.leave_sync()
        else:
            self.node.mgr.before_history_sync()
            self.synchronizing = True
            if self.rng.random() < 0.2:
                self.node.mgr.before_history_sync()

    def do_restart(self):
        if self.rng.random() < 0.2:
            self.node.undecided = self.rng.choice(("U0", "U1", "T", "D"))
        if self.rng.random() < 0.3:
            self.threshold = self.node.threshold = self.rng.choice((99, 60, 25))
            # (if the threshold was raised, the refill happens with the next use of a pre key)
            self.slack |= set(self.nss)
            self.rec.count("threshold_changed")
        self.node.start()
        self.synchronizing = True
        self.rec.count("restarts")

    def leave_sync(self):
        w, rec, rng = self.w, self.rec, self.rng
        if rng.random() < 0.35 and self.pending:
            self.send_fail = set(rng.sample(sorted(self.pending), rng.randint(1, len(self.pending))))
        sent_before = len(w.sent)
        here = {p for p in self.pending if p[0] in self.nss}
        sendable = {p for p in here if self.node.toy_session(*p) is not None}
        failing = sendable & self.send_fail
        inner = (sent_before, sent_before)
        if sendable and rng.random() < 0.3:
            outcome, inner = self.leave_sync_slowly()
        else:
            outcome = w.call(self.node.mgr.after_history_sync(), MySendFailed)
        self.synchronizing = False
        rec.count("sync_exits")
        rec.check(outcome.ok == (not failing), "failure to send a queued message not reported (or made up)",
                  outcome=outcome, failing=sorted(failing))
        got = self.judge_sent(sent_before, inner[0]) + self.judge_sent(inner[1])
        rec.check(sorted(got) == sorted(sendable - failing), "wrong empty messages after history synchronization",
                  sent=sorted(got), expected=sorted(sendable - failing))
        self.pending = set(failing) | (self.pending - here)
        if failing:
            rec.count("sync_exit_failures")
        for ns in self.nss:
            visible, hidden = self.node.pre_keys(ns)
            rec.check(not hidden, "pre keys kept after history synchronization", kept=len(hidden))
        self.send_fail = set()
        rec.count("sync_queue_sent", len(got))
        rec.sig("leave", len(got), len(failing))

    def leave_sync_slowly(self):
        """Other messages arrive while the queued ones are still being sent."""
        w, rng = self.w, self.rng
        state = {"left": rng.randrange(3), "gate": None}

        async def hold(_node, _message, _jid):
            state["left"] -= 1
            if state["left"] < 0 and state["gate"] is None:
                state["gate"] = asyncio.get_running_loop().create_future()
                await state["gate"]

        async def begin():
            task = asyncio.ensure_future(self.node.mgr.after_history_sync())
            while not task.done() and state["gate"] is None:
                await asyncio.sleep(0)
            return task
        w.hold = hold
        task = w.run(begin())
        start, owed = len(w.sent), {p[1:] for p in self.pending}
        self.synchronizing = False
        if state["gate"] is not None:
            for _ in range(rng.randint(1, 3)):
                peer, ns = self.a_peer()
                sent = None if (peer.jid, peer.dev) in owed else self.compose(peer, ns, fresh=rng.random() < 0.7)
                if sent is not None:
                    self.pool.remove(sent)
                    self.deliver(sent)
                    self.rec.count("arrived_during_exit")
        w.hold, end = None, len(w.sent)
        if state["gate"] is not None:
            state["gate"].set_result(None)

        async def finish():
            return await task
        return w.call(finish(), MySendFailed), (start, end)

    def judge_sent(self, sent_before, until=None):
        """Well-formedness of the messages the library sent by itself; returns their addressees."""
        out = []
        for node, message, jid in self.w.sent[sent_before:until]:
            self.rec.check(node is self.node and (message.bare_jid, message.device_id) == self.own,
                           "automatic message with a wrong sender", msg=message)
            self.rec.check(message.content.empty, "automatic message with content", msg=message)
            self.rec.check(len(message.keys) == 1, "automatic message for several devices", msg=message)
            (ekm, kex), = message.keys
            self.rec.check(ekm.bare_jid == jid, "automatic message sent to the wrong account", jid=jid)
            session = self.node.toy_session(message.namespace, jid, ekm.device_id)
            self.rec.check(session is not None and ekm.sid == session.st["sid"]
                           and (session.st["sn"] > ekm.n or session.st["se"] > ekm.epoch),
                           "automatic message does not belong to the persisted session", device=(jid, ekm.device_id))
            self.rec.check((kex is None) == (session.st["side"] == "P" or session.st["confirmed"]),
                           "key exchange information included/omitted wrongly", device=(jid, ekm.device_id))
            out.append((message.namespace, jid, ekm.device_id))
            peer = next((p for p in self.peers if (p.jid, p.dev) == (jid, ekm.device_id)), None)
            if peer is not None:
                self.outbox.append((message, peer))
        return out

    # -- the call and its judgement --------------------------------------------------------------------------------
    def deliver(self, sent):
        w, node, rec = self.w, self.node, self.rec
        message = sent.message
        self.refresh_known([message.bare_jid])
        before = node.toy_state()
        pre = {ns: node.pre_keys(ns) for ns in self.nss}
        bundles = {ns: w.bundles.get((ns,) + self.own) for ns in self.nss}
        refused, accepted = self.expect(message)
        mark, sent_before = len(w.events), len(w.sent)
        trust_calls = len(w.since(0, "trust_decision"))
        outcome = w.call(node.mgr.decrypt(message), *GATE_ERRORS)
        rec.count("decrypt_calls")
        rec.check(len(w.since(0, "trust_decision")) == trust_calls, "decryption asked for a trust decision")
        corrupt = [e for e in w.since(mark, "be.store_session", node.name) if e.corrupt]
        rec.check(not corrupt, "session persisted after a failed decryption step", events=corrupt)
        sender = (message.bare_jid, message.device_id)
        if refused:
            rec.count("refused:" + sorted(t.__name__ for t in refused)[0])
            rec.sig("refused", sorted(t.__name__ for t in refused), sent.note, self.synchronizing)
            rec.check(not outcome.ok, "message accepted that has to be refused", expected=refused, note=sent.note,
                      sender=sender)
            rec.check(type(outcome.exc) in refused, "refused for the wrong reason", expected=refused, outcome=outcome,
                      note=sent.note)
            rec.check(node.toy_state() == before, "refused message changed sessions or pre keys", note=sent.note,
                      changed=sorted(k for k in set(before) | set(node.toy_state())
                                     if before.get(k) != node.toy_state().get(k)))
            rec.check(len(w.sent) == sent_before, "refused message was answered", note=sent.note)
            rec.check(all(w.bundles.get((ns,) + self.own) is bundles[ns] for ns in self.nss),
                      "refused message changed the published bundle", note=sent.note)
            return
        plaintext, key, shadow, identity = accepted
        rec.check(outcome.ok, "message has to be accepted", outcome=outcome, note=sent.note, sender=sender)
        got_text, device, pkm = outcome.value
        rec.check(got_text == plaintext and type(got_text) is type(plaintext), "wrong plaintext",
                  got=got_text, expected=plaintext)
        if sent.note == "honest":
            rec.check(got_text == sent.plaintext and pkm.key == sent.key, "plaintext altered", sender=sender)
            rec.check(sender == (sent.peer.jid, sent.peer.dev), "harness: sender")
        rec.check(pkm.key == key, "wrong key material returned")
        rec.check((device.bare_jid, device.device_id) == sender and device.identity_key == identity,
                  "message attributed to the wrong device", sender=sender, got=device)
        rec.check(device.trust_level_name == self.trust.get((sender[0], identity), node.undecided),
                  "wrong trust level reported with the message", got=device.trust_level_name)
        rec.check(self.lists.matches(device), "wrong device information returned with the message", got=device,
                  expected=self.lists.of(sender[0]).get(sender[1]))
        if sent.delivered == 0:
            self.old.append(sent)
            self.old = self.old[-12:]
        sent.delivered += 1
        rec.count("accepted")
        rec.sig("accepted", message.namespace, self.synchronizing, shadow.st["side"], shadow.st["rn"], shadow.st["re"],
                len(message.keys), sent.note)

        # Session persisted
        stored = node.toy_session(message.namespace, *sender)
        rec.check(stored is not None and all(stored.st[k] == shadow.st[k] for k in ("sid", "side", "re", "rn", "skipped",
                                                                                    "confirmed")),
                  "session not persisted after decryption", sender=sender)
        (_, kex), = [k for k in message.keys if (k[0].bare_jid, k[0].device_id) == self.own]
        self.judge_pre_keys(message, kex, pre, bundles, mark)
        # Automatic responses
        due = kex is not None or shadow.st["rn"] > MAGIC and shadow.st["re"] > 0
        answered = self.judge_sent(sent_before)
        here = (message.namespace,) + sender
        if self.synchronizing:
            rec.check(not answered, "message sent during history synchronization", sent=answered)
            if due:
                self.pending.add(here)
                rec.count("responses_deferred")
        elif due:
            rec.check(answered == [here], "exactly one empty message to the sender has to be sent", sent=answered,
                      kex=kex is not None, received=shadow.st["rn"])
            rec.count("responses_kex" if kex is not None else "responses_staleness")
        else:
            rec.check(not answered, "empty message sent although none is due", sent=answered, received=shadow.st["rn"])
            rec.count("no_response_due")
        if not due:
            rec.sample({"namespace": message.namespace, "sender": list(sender), "sync": self.synchronizing,
                        "received_in_chain": shadow.st["rn"], "answered": bool(answered)})

    def judge_pre_keys(self, message, kex, pre, bundles, mark):
        """One-time pre keys after a message was accepted."""
        w, node, rec = self.w, self.node, self.rec
        for ns in self.nss:
            old_visible, old_hidden = pre[ns]
            visible, hidden = node.pre_keys(ns)
            bundle = w.bundles.get((ns,) + self.own)
            rec.check(bundle is not None and bundle.pre_keys == frozenset(visible),
                      "published bundle differs from the available pre keys")
            rec.check(self.threshold < len(visible) <= 100 or ns in self.slack, "number of one-time pre keys out of range",
                      visible=len(visible), threshold=self.threshold)
            if ns == message.namespace and kex is not None:
                rec.check(kex.pk not in visible and kex.pk not in bundle.pre_keys,
                          "one-time pre key still published after its use")
                if kex.pk in old_visible:
                    rec.count("pre_keys_consumed")
                    refill = len(old_visible) - 1 <= self.threshold
                    rec.check(old_visible - {kex.pk} <= visible, "unused one-time pre keys dropped")
                    rec.check(len(visible) == (100 if refill else len(old_visible) - 1),
                              "one-time pre keys not refilled to 100 exactly when the threshold is reached",
                              visible=len(visible), before=len(old_visible))
                    rec.check(bool(w.since(mark, "upload_bundle", node.name)), "bundle not republished")
                    self.slack.discard(ns)
                if self.synchronizing and (kex.pk in old_visible or kex.pk in old_hidden):
                    rec.check(kex.pk in hidden, "pre key not kept during history synchronization")
                    rec.check(old_hidden <= hidden, "kept pre keys dropped during history synchronization")
                    rec.count("pre_keys_kept")
                if not self.synchronizing:
                    rec.check(kex.pk not in hidden, "used pre key kept although history synchronization is over")
            else:
                rec.check(visible == old_visible and hidden == old_hidden,
                          "pre keys changed although no key exchange happened")
                rec.check(bundle is bundles[ns] or not w.since(mark, "upload_bundle", node.name)
                          or bundle == bundles[ns], "bundle changed although no key exchange happened")


DEFAULT_WEIGHTS = {
    "send": 8, "deliver": 14, "replay": 1.5, "reply": 3, "read": 4, "burst": 1.2, "trust": 2, "network": 1.5,
    "newpeer": 1, "feed": 1.5, "forge": 5, "sync": 2, "restart": 1, "collide": 0.5, "delist": 0.8, "purge": 0.5, "drop": 0.4, "unpublished": 0.4
}


def decrypt_case(rng, rec, steps=None, cls=DecryptScenario, **kwargs):
    scenario = cls(rng, rec, **kwargs)
    for _ in range(steps or rng.randint(15, 45)):
        scenario.act()
    if scenario.synchronizing:
        scenario.leave_sync()
