"""Decryption with the storage, the server or the process failing half-way."""
import omemo

from .create_engine import failure_for
from .decrypt_engine import GATE_ERRORS, DecryptScenario
from .world import InjectedStorageFailure

INJECTED = (InjectedStorageFailure, omemo.BundleUploadFailed, omemo.BundleDownloadFailed, omemo.MessageSendingFailed,
            omemo.DeviceListDownloadFailed, omemo.DeviceListUploadFailed)


class FaultyDecrypt(DecryptScenario):
    """One injected failure per delivery: the message can be decrypted afterwards, unless it was consumed already."""
    over = False

    def deliver(self, sent):
        if self.over:
            return None
        w, node, rec, rng = self.w, self.node, self.rec, self.rng
        if rng.random() < 0.5:
            return super().deliver(sent)
        at = rng.randrange(0, 45)
        hit = []

        def plan(index, _node, op, _info):
            if index == at and op != "download_bundle":
                hit.append(op)
                return "before", failure_for(op)
            return None
        before = node.toy_state()
        bundles = dict(w.bundles)
        mark, sent_before = len(w.events), len(w.sent)
        w.plan = plan
        outcome = w.call(node.mgr.decrypt(sent.message), *GATE_ERRORS, *INJECTED)
        w.plan = None
        self.learn_from_server(sent.message)
        if not hit:
            # Nothing was injected after all. The judgement is the usual one, of a second delivery.
            if outcome.ok:
                self.after_unjudged(sent, mark, sent_before)
            rec.count("fault_not_reached")
            return None
        if outcome.ok:
            # The failure was tolerated. Nothing is lost then.
            rec.check(sent.note != "honest" or outcome.value[0] == sent.plaintext, "plaintext altered")
            rec.count("faults_tolerated")
            self.over = True
            return None
        rec.count("decrypt_faults:" + hit[0])
        if node.toy_sessions() == {k: v for k, v in before.items() if "/session/" in k}:
            rec.check(node.toy_state() == before or self.only_index(before), "failed decryption changed key material",
                      op=hit[0])
            rec.check(len(w.sent) == sent_before, "failed decryption sent a message", op=hit[0])
            rec.check(w.bundles == bundles, "failed decryption changed a published bundle", op=hit[0])
            rec.sig("fault", hit[0], at, self.synchronizing)
            rec.count("retried_after_fault")
            return super().deliver(sent)
        # The session is persisted although decryption reports a failure: the content is lost.
        persisted = [e for e in w.since(mark, "store", node.name) if "/session/" in e.key]
        fault = [e for e in w.since(mark, "fault", node.name)]
        rec.check(len(persisted) >= 1 and fault and persisted[-1].i < fault[-1].i,
                  "session persisted after the failure")
        accepted = [e for e in w.since(mark, "be.decrypt_plaintext", node.name)]
        rec.check(sent.message.content.empty or accepted, "session persisted although the content was not decrypted")
        kind = "storage" if isinstance(outcome.exc, InjectedStorageFailure) else hit[0]
        rec.known_finding(
            f"K1/{kind}", "decrypt raised after the message was decrypted and its session persisted, because "
            f"a follow-up step ({kind}) failed; the plaintext is lost and a second delivery is refused"
        )
        rec.count("known_content_loss")
        self.over = True
        return None

    def only_index(self, before):
        """The backend's own list of sessions may be a step ahead."""
        now = self.node.toy_state()
        return all(before.get(k) == now.get(k) for k in set(before) | set(now) if not k.endswith("/index"))

    def learn_from_server(self, message):
        """An unknown sender makes the library refresh the sender's list, or not if that was what failed."""
        infos = self.node.info(message.bare_jid)
        if message.namespace not in self.nss:
            return
        # Feeding the list is what brings the model and the library to the same state.
        if message.bare_jid not in self.list_fail:
            self.feed(message.bare_jid)
        del infos

    def after_unjudged(self, sent, mark, sent_before):
        kex = next(k[1] for k in sent.message.keys if (k[0].bare_jid, k[0].device_id) == self.own)
        session = self.node.toy_session(sent.message.namespace, sent.message.bare_jid, sent.message.device_id)
        here = (sent.message.namespace, sent.message.bare_jid, sent.message.device_id)
        if self.synchronizing and (kex is not None or session.st["rn"] > 53 and session.st["re"] > 0):
            self.pending.add(here)
        self.judge_sent(sent_before)
        sent.delivered += 1

    def do_restart(self):
        if not self.over:
            super().do_restart()

    def leave_sync(self):
        if not self.over:
            super().leave_sync()

    def do_sync(self):
        if not self.over:
            super().do_sync()

    def do_burst(self):
        if not self.over:
            super().do_burst()
