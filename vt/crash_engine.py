"""The process dies at any operation of any API call; what was acknowledged before is there afterwards."""
import asyncio

import omemo

from .create_engine import FAILURES
from .decrypt_engine import GATE_ERRORS, DecryptScenario, MySendFailed
from .world import Crash

ANY = GATE_ERRORS + FAILURES + (omemo.MessageSendingFailed, omemo.NoEligibleDevices, omemo.StillUndecided)
LABELS = (None, "phone", "", "☃")


class CrashScenario(DecryptScenario):
    def __init__(self, rng, rec, **kwargs):
        super().__init__(rng, rec, **kwargs)
        own = self.node.own()
        self.identity = (own.device_id, own.identity_key)
        self.maybe = set()   # responses that may or may not still be due

    dies = True   # otherwise, the call is cancelled and the process goes on

    # -- infrastructure -----------------------------------------------------------------------------------------
    def crash_during(self, name, coro, most=40):
        """Runs a call and lets the process die at a random operation. Returns (whether it died, outcome)."""
        rng, w, rec = self.rng, self.w, self.rec
        self.list_fail.clear()
        at, when, hit = rng.randrange(most), rng.choice(("before", "after")), []

        def plan(index, _node, op, _info):
            if index == at and (self.dies or asyncio.current_task() is task[0]):
                hit.append(op)
                # (a download may fail by itself)
                return "before" if op == "download_bundle" else when, Crash() if self.dies else asyncio.CancelledError()
            return None
        w.plan = plan
        task = []

        async def main():
            task.append(asyncio.current_task())
            return await coro
        outcome = w.crashing(main(), asyncio.CancelledError, *ANY)
        w.plan = None
        crashed = isinstance(outcome.exc, (Crash, asyncio.CancelledError))
        rec.check(crashed or self.dies or not hit, "an interrupted operation goes on", name=name)
        if crashed:
            rec.count(f"crashed:{name}")
            rec.count(f"crashed_at:{hit[0]}")
            rec.sig("crash", name, hit[0], when, at)
        if crashed and self.dies:
            self.node.start()
            self.synchronizing = True
        return crashed, outcome

    def verify_all(self, what, skip=()):
        """Everything the model knows to be acknowledged."""
        rec, node = self.rec, self.node
        own = node.own()
        rec.check((own.device_id, own.identity_key) == self.identity, f"identity lost by {what}")
        old, self.w.rule = self.w.rule, lambda n, op, info: (
            omemo.BundleDownloadFailed("offline") if op == "download_bundle" else None)
        for jid in sorted(self.lists.dev):
            infos = node.info(jid)
            for (j, dev), key in self.ik.items():
                if j != jid:
                    continue
                rec.check(dev in infos and infos[dev].identity_key == key, f"device or identity key lost by {what}",
                          device=(jid, dev))
                if jid in skip:
                    continue
                rec.check(self.lists.matches(infos[dev]), f"device information lost by {what}", got=infos[dev],
                          expected=self.lists.of(jid)[dev])
                rec.check(infos[dev].trust_level_name == self.trust.get((jid, key), node.undecided),
                          f"trust lost by {what}", device=(jid, dev), got=infos[dev].trust_level_name)
                rec.count("devices_verified")
        self.w.rule = old
        if self.own[0] not in skip:
            rec.check(own.label == self.lists.of(self.own[0])[self.own[1]]["label"], f"label lost by {what}")

    def sessions_except(self, *devices):
        return {k: v for k, v in self.node.toy_sessions().items()
                if not any(k.endswith(f"/session/{j}/{d}") for j, d in devices)}

    def do_restart(self):
        super().do_restart()
        self.verify_all("a restart")

    # -- interrupted operations -------------------------------------------------------------------------------
    def do_crash_trust(self):
        self.refresh_known()
        peer, _ = self.a_peer()
        key = self.ik.get((peer.jid, peer.dev), peer.identity_key)
        old, new = self.trust.get((peer.jid, key)), self.rng.choice(("T", "D", "U", "T9"))
        before = self.node.toy_state()
        crashed, _ = self.crash_during("set_trust", self.node.mgr.set_trust(peer.jid, key, new), 3)
        if crashed:
            self.rec.check(self.node.toy_state() == before, "setting trust changed sessions")
            info = self.node.info(peer.jid).get(peer.dev)
            if info is not None and info.identity_key == key:
                self.rec.check(info.trust_level_name in (old or self.node.undecided, new),
                               "trust is neither the old nor the new one", got=info.trust_level_name)
            self.refresh_known()
            self.set_trust(peer.jid, key, new)
        self.trust[(peer.jid, key)] = new
        self.verify_all("an interrupted trust change")

    def do_crash_feed(self):
        self.refresh_known()
        peer, ns = self.a_peer()
        server = self.w.lists.setdefault((ns, peer.jid), {})
        if self.rng.random() < 0.5:
            server[peer.dev] = self.rng.choice(LABELS)
        elif self.rng.random() < 0.3:
            server.pop(peer.dev, None)
        current = dict(server)
        before = self.node.toy_state()
        crashed, _ = self.crash_during("update_device_list", self.node.mgr.update_device_list(ns, peer.jid, dict(current)),
                                       25)
        if crashed:
            self.rec.check(self.node.toy_state() == before, "a device list update changed sessions")
            self.verify_all("an interrupted device list update", skip=(peer.jid,))
            self.w.call(self.node.mgr.update_device_list(ns, peer.jid, dict(current)))
        self.lists.update(ns, peer.jid, current, self.own)
        self.verify_all("a repeated device list update")

    def do_crash_info(self):
        self.refresh_known()
        jid = self.rng.choice(self.peers).jid
        before = self.node.toy_state()
        crashed, _ = self.crash_during("get_device_information", self.node.mgr.get_device_information(jid), 25)
        if crashed:
            self.rec.check(self.node.toy_state() == before, "looking up devices changed sessions")
            self.verify_all("an interrupted lookup")
        self.refresh_known()

    def do_crash_label(self):
        old, new = self.node.own().label, self.rng.choice(LABELS)
        crashed, _ = self.crash_during("set_own_label", self.node.mgr.set_own_label(new), 8)
        if crashed:
            self.rec.check(self.node.own().label in (old, new), "label is neither the old nor the new one")
            self.verify_all("an interrupted label change", skip=(self.own[0],))
            self.w.call(self.node.mgr.set_own_label(new))
        self.lists.of(self.own[0])[self.own[1]]["label"] = new
        for ns in self.nss:
            self.rec.check(self.w.lists[(ns, self.own[0])][self.own[1]] == new, "label not published", ns=ns)
        self.verify_all("a repeated label change")

    def do_crash_decrypt(self):
        rng, w, node, rec = self.rng, self.w, self.node, self.rec
        self.list_fail.clear()
        if not self.pool:
            self.do_send()
        if not self.pool:
            return
        sent = self.pool.pop(rng.randrange(len(self.pool)))
        message = sent.message
        self.refresh_known()
        refused, accepted = self.expect(message)
        sender = (message.bare_jid, message.device_id)
        here = (message.namespace,) + sender
        others = self.sessions_except(sender)
        old = node.toy_session(*here)
        sent_before = len(w.sent)
        was_sync = self.synchronizing
        was_pending = set(self.pending)
        crashed, outcome = self.crash_during("decrypt", node.mgr.decrypt(message), 45)
        if not crashed:
            if accepted:
                rec.check(outcome.ok and outcome.value[0] == accepted[0], "message has to be accepted", outcome=outcome)
                sent.delivered += 1
            else:
                rec.check(not outcome.ok and type(outcome.exc) in refused, "message has to be refused", outcome=outcome)
        now = node.toy_session(*here)
        rec.check(self.sessions_except(sender) == others, "session of another device affected by an interrupted decryption")
        if accepted and was_sync:
            # The response may have been queued already, or not yet
            kex = next(k[1] for k in message.keys if (k[0].bare_jid, k[0].device_id) == self.own)
            if kex is not None or accepted[2].st["rn"] > 53 and accepted[2].st["re"] > 0:
                if crashed:
                    self.maybe.add(here)
                else:
                    self.pending.add(here)
        rec.check(was_pending <= self.pending, "harness: pending")
        if not crashed:
            self.judge_sent(sent_before)
            self.slack.update(self.nss)
            return
        def progress(session):
            return None if session is None else tuple(session.st[k] for k in ("sid", "side", "re", "rn"))
        allowed = {progress(old)} | ({progress(accepted[2])} if accepted else set())
        rec.check(progress(now) in allowed, "session damaged by an interrupted decryption", now=progress(now))
        for node_, m, jid in w.sent[sent_before:]:
            (ekm, _), = m.keys
            rec.check((jid, ekm.device_id) == sender, "message sent to somebody else")
        self.slack.update(self.nss)
        self.verify_all("an interrupted decryption", skip=(message.bare_jid,))
        self.feed(message.bare_jid)
        # The online bundle may be outdated, which is what this is for:
        w.call(node.mgr.ensure_data_consistency())
        for ns in self.nss:
            self.lists.update(ns, self.own[0], w.lists[(ns, self.own[0])], self.own)
        self.refresh_known()
        if progress(now) == progress(old) and accepted:
            rec.count("decryptions_repeated")
        self.deliver(sent)

    def do_crash_encrypt(self):
        rng, w, node, rec = self.rng, self.w, self.node, self.rec
        self.refresh_known()
        peer, ns = self.a_peer()
        if (peer.jid, peer.dev) not in self.ik:
            return
        for (jid, dev), key in sorted(self.ik.items()):
            if jid in (peer.jid, "alice@x"):
                self.set_trust(jid, key, "T" if (jid, dev) == (peer.jid, peer.dev) else "D")
        involved = [(j, d) for (j, d), k in self.ik.items() if j in (peer.jid, "alice@x")
                    and self.trust.get((j, k), "U")[0] == "T"]
        # (those whose identity key is looked up during the call may turn out to be trusted as well)
        involved += [(p.jid, p.dev) for p in self.peers if p.jid in (peer.jid, "alice@x") and (p.jid, p.dev) not in self.ik]
        others = self.sessions_except(*involved)
        trust = dict(self.trust)

        async def decide(mgr, undecided, _identifier):
            for device in undecided:
                trust[(device.bare_jid, device.identity_key)] = "D"
                await mgr.set_trust(device.bare_jid, device.identity_key, "D")
        node.decide = decide
        crashed, _ = self.crash_during("encrypt", node.mgr.encrypt(
            frozenset({peer.jid}), {n: b"interrupted" for n in self.nss}, [ns] + [n for n in self.nss if n != ns]), 60)
        node.decide = None
        self.refresh_known()
        for device, name in trust.items():
            if name != self.trust.get(device):
                # (decided while encrypting: repeat)
                self.set_trust(device[0], device[1], name)
        rec.check(self.sessions_except(*involved) == others, "session of another device affected by an interrupted "
                  "encryption")
        if crashed:
            self.verify_all("an interrupted encryption")
            outcome = w.call(node.mgr.encrypt(frozenset({peer.jid}), {n: b"again" for n in self.nss}, [ns] + [
                n for n in self.nss if n != ns]), omemo.NoEligibleDevices, omemo.StillUndecided)
            if outcome.ok:
                rec.count("encryptions_repeated")
                for message in outcome.value[0]:
                    mine = peer.key_for_me(message)
                    session = peer.session(message.namespace, *self.own) if mine else None
                    if mine and (mine[0][1] is not None or session is not None and session.st["sid"] == mine[0][0].sid
                                 and session.st["pbid"] in (None, mine[0][0].bid)):
                        if mine[0][1] is not None and mine[0][1].pk not in {
                                p for pool in ("pre", "hidden") for p in self.w.run(
                                    peer.backends[message.namespace]._state())[pool]} and session is None:
                            continue
                        if mine[0][1] is not None and session is not None:
                            continue
                        text, _ = peer.receive(message)
                        rec.check(text == b"again", "plaintext altered")
                        rec.count("repeated_encryptions_delivered")
            self.refresh_known()

    def do_crash_leave(self):
        w, node, rec = self.w, self.node, self.rec
        if not self.synchronizing:
            return
        sent_before = len(w.sent)
        due = {p for p in self.pending if node.toy_session(*p) is not None}
        crashed, outcome = self.crash_during("after_history_sync", node.mgr.after_history_sync(), 40)
        got = set()
        for _, m, jid in w.sent[sent_before:]:
            (ekm, _), = m.keys
            got.add((m.namespace, jid, ekm.device_id))
            peer = next((p for p in self.peers if (p.jid, p.dev) == (jid, ekm.device_id)), None)
            if peer is not None:
                self.outbox.append((m, peer))
        rec.check(got <= due | self.maybe, "response sent that is not due", got=sorted(got))
        if crashed:
            # What was sent may be sent again (it was not acknowledged), everything else is still due
            # (and those without a session may be forgotten already)
            self.maybe |= got | (self.pending - due)
            self.pending &= due - got
            self.verify_all("an interrupted end of the synchronization")
            if not self.dies:
                self.leave_sync()
        else:
            self.synchronizing = False
            rec.check(due <= got, "response lost over a crash", missing=sorted(due - got))
            self.pending, self.maybe = set(), set()

    def leave_sync(self):
        """As usual, except for responses of which nobody knows whether they are due."""
        w, node, rec = self.w, self.node, self.rec
        due = {p for p in self.pending if node.toy_session(*p) is not None}
        sent_before = len(w.sent)
        w.call(node.mgr.after_history_sync(), MySendFailed)
        self.synchronizing = False
        got = self.judge_sent(sent_before)
        rec.check(len(set(got)) == len(got), "more than one response to a device", sent=sorted(got))
        rec.check(due <= set(got) <= due | self.maybe, "wrong responses after a crash", sent=sorted(got),
                  due=sorted(due), maybe=sorted(self.maybe))
        rec.count("due_after_crash", len(due))
        self.pending, self.maybe = set(), set()


class CancelScenario(CrashScenario):
    """The application gives up waiting (a timeout, say) and goes on with the same session manager."""
    dies = False


WEIGHTS = {"crash_trust": 2, "crash_feed": 3, "crash_info": 1, "crash_label": 1, "crash_decrypt": 6, "crash_encrypt": 3,
           "crash_leave": 3, "restart": 1.5, "forge": 0.5, "burst": 0.3, "network": 0.5, "trust": 1, "collide": 0}
