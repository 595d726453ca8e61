"""Session replacement and sending chain lengths."""
import omemo

from .decrypt_engine import DecryptScenario, MySendFailed
from .world import InjectedStorageFailure, Peer


class MyDownload(omemo.BundleDownloadFailed):
    pass


class ReplaceScenario(DecryptScenario):
    def do_chain(self):
        """Sending chain lengths, as reported for devices with and without sessions."""
        for jid in sorted(self.lists.dev):
            for dev, info in self.node.info(jid).items():
                asked = info
                if self.rng.random() < 0.3:
                    asked = info._replace(label="stale", trust_level_name="stale", active=frozenset())
                expected = {}
                for ns in info.namespaces & set(self.nss):
                    session = self.node.toy_session(ns, jid, dev)
                    expected[ns] = None if session is None else session.st["sn"]
                before = self.node.toy_state()
                got = self.w.call(self.node.mgr.get_sending_chain_length(asked)).value
                self.rec.check(got == expected, "wrong sending chain lengths", device=(jid, dev), got=got,
                               expected=expected)
                self.rec.check(self.node.toy_state() == before, "asking for chain lengths changed something")
                for n in expected.values():
                    self.rec.count("chains_without_session" if n is None else "chains_reported")

    def do_replace(self):
        rng, w, node, rec = self.rng, self.w, self.node, self.rec
        peer = rng.choice(self.peers)
        jid, dev = peer.jid, peer.dev
        self.feed(jid)
        info = node.info(jid).get(dev)
        self.refresh_known([jid])
        if info is None:
            return
        real_bundles = {}
        fate = {}
        old = {ns: node.toy_session(ns, jid, dev) for ns in self.nss}
        if any(old[ns] is not None and ns not in info.namespaces for ns in self.nss):
            # A session with a device that never announced this backend: replacing it or not is not judged
            rec.count("unannounced_sessions")
            return
        for ns in self.nss:
            if old[ns] is None:
                # Nothing to do here, whatever the state of the server
                fate[ns] = None
                continue
            r = rng.random()
            where = (ns, jid, dev)
            real_bundles[ns] = w.bundles.get(where)
            if info.identity_key != peer.identity_key or r < 0.12:
                other = Peer(w, jid, dev, [ns], publish=False).identity_key if rng.random() < 0.6 else \
                    node.own().identity_key
                peer.publish_bundle(ns, identity_key=other)
                fate[ns] = omemo.KeyExchangeFailed
                rec.count("foreign_identity_offered")
            elif r < 0.2:
                w.bundles.pop(where, None)
                fate[ns] = omemo.BundleNotFound
            elif r < 0.28:
                fate[ns] = MyDownload
            elif r < 0.36:
                peer.publish_bundle(ns, good_signature=False)
                fate[ns] = omemo.KeyExchangeFailed
            elif r < 0.44:
                peer.publish_bundle(ns, pre_keys=())
                fate[ns] = omemo.KeyExchangeFailed
            elif r < 0.54:
                fate[ns] = MySendFailed
            elif r < 0.6:
                fate[ns] = InjectedStorageFailure
            else:
                fate[ns] = "ok"
            if fate[ns] in ("ok", MyDownload, MySendFailed, InjectedStorageFailure):
                w.run(peer.backends[ns].generate_pre_keys(1))
                peer.publish_bundle(ns)
        asked = info
        if rng.random() < 0.4:
            asked = info._replace(namespaces=frozenset(rng.sample(sorted(info.namespaces), rng.randrange(
                len(info.namespaces) + 1))), identity_key=bytes(32), label="stale", trust_level_name="stale",
                                  active=frozenset())
            rec.count("stale_information_passed")
        old_rule = w.rule

        def rule(_node, op, i):
            if op == "download_bundle":
                return MyDownload("scripted") if fate.get(i["ns"]) is MyDownload else None
            if op == "send" and fate.get(i["message"].namespace) is MySendFailed:
                return MySendFailed("scripted")
            return None
        w.rule = rule

        def plan(_index, _node, op, i):
            if op == "store":
                for ns, f in fate.items():
                    if f is InjectedStorageFailure and i["key"] == f"/toy/{ns}/session/{jid}/{dev}":
                        return "before", InjectedStorageFailure("scripted")
            return None
        w.plan = plan
        before, others = node.toy_sessions(), dict(w.bundles)
        mark, sent_before = len(w.events), len(w.sent)
        outcome = w.call(node.mgr.replace_sessions(asked))
        w.rule, w.plan = old_rule, None
        failures = outcome.value
        after = node.toy_sessions()
        expected = {ns: f for ns, f in fate.items() if f not in (None, "ok")}
        rec.check(set(failures) == set(expected), "wrong backends reported as failed", got=failures, expected=expected)
        for ns, f in expected.items():
            rec.check(isinstance(failures[ns], f), "wrong reason reported", got=repr(failures[ns]), expected=f)
            rec.count("replacement_failed:" + f.__name__)
        for e in w.since(mark, "be.build_active", node.name):
            rec.check(e.identity == info.identity_key and e.bundle == (e.ns, jid, dev),
                      "session attempted with a foreign identity key", device=(jid, dev))
        sent = w.sent[sent_before:]
        reached = {ns for ns, f in fate.items() if f == "ok" or f is InjectedStorageFailure}
        rec.check(sorted(m.namespace for _, m, _ in sent) == sorted(reached), "wrong notifications sent",
                  got=[m.namespace for _, m, _ in sent], expected=sorted(reached))
        for _, message, to in sent:
            (ekm, kex), = message.keys
            rec.check(to == jid and (ekm.bare_jid, ekm.device_id) == (jid, dev) and message.content.empty
                      and kex is not None and (message.bare_jid, message.device_id) == self.own,
                      "notification malformed", message=message)
        replaced = {f"/toy/{ns}/session/{jid}/{dev}" for ns, f in fate.items() if f == "ok"}
        for key in set(before) | set(after):
            if key in replaced:
                continue
            rec.check(before.get(key) == after.get(key), "session changed that was not to be replaced", key=key)
        rec.check(w.bundles == others, "bundles changed")
        rec.sig("replace", sorted((ns, getattr(f, "__name__", f), old[ns].st["side"] if old[ns] else "-",
                                   old[ns].st["confirmed"] if old[ns] else "-") for ns, f in fate.items()),
                asked == info, self.synchronizing)
        for ns, f in fate.items():
            if f != "ok":
                continue
            new = node.toy_session(ns, jid, dev)
            message, = [m for _, m, _ in sent if m.namespace == ns]
            (ekm, kex), = message.keys
            rec.check(new.st["sid"] != old[ns].st["sid"] and new.st["sid"] == ekm.sid == kex.sid()
                      and new.st["side"] == "A" and new.st["sn"] == 1 and not new.st["confirmed"],
                      "session not replaced by the announced one", ns=ns)
            rec.count("sessions_replaced")
            # The other side learns about it, and both use it from now on.
            peer.receive(message)
            rec.check(peer.session(ns, *self.own).st["sid"] == new.st["sid"], "harness: peer session")
            reply = self.compose(peer, ns)
            if reply is not None:
                self.pool.remove(reply)
                rec.check(all(k[1] is None for k in reply.message.keys
                              if (k[0].bare_jid, k[0].device_id) == self.own), "harness: reply")
                self.deliver(reply)
                rec.count("replies_over_new_session")
        for ns, bundle in real_bundles.items():
            if bundle is not None and fate[ns] != "ok":
                w.bundles[(ns, jid, dev)] = bundle
        if asked == info:
            rec.sample({"device": [jid, dev], "fate": {ns: getattr(f, "__name__", f) for ns, f in fate.items()}})
