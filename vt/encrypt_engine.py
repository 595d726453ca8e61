"""Hostile encryption scenarios, judged against an executable statement of what encryption has to do."""
import json

import omemo

from .model import Lists
from .world import NS, Node, Peer, World, level_of

UNLOADED = "urn:toy:unloaded"
FAILS = (omemo.BundleDownloadFailed, omemo.BundleNotFound, omemo.KeyExchangeFailed)


class MyTrustDecisionFailed(omemo.TrustDecisionFailed):
    pass


class MyDownloadFailed(omemo.BundleDownloadFailed):
    pass


class Scenario:
    def __init__(self, rng, rec, profile="mixed"):
        self.rng, self.rec, self.profile = rng, rec, profile
        self.w = w = World(rng, yields=rng.random() < 0.3)
        self.nss = rng.sample(NS, rng.choice((1, 1, 2, 2, 3)))
        self.own_id = rng.randrange(1, 5)
        w.randbelow_queue = [self.own_id - 1]
        self.node = Node(w, "alice@x", self.nss, cache=rng.random() < 0.6,
                         undecided=rng.choice(("U0", "U-initial", "Unknown?")))
        self.node.wander = rng
        self.node.start()
        self.own = ("alice@x", self.node.own().device_id)
        self.lists = Lists()
        self.lists.dev["alice@x"] = {self.own[1]: {"ns": set(self.nss), "active": {n: True for n in self.nss},
                                                  "label": None}}
        self.trust = {}
        self.known_ik = {}
        self.peers = {}
        self.faked = set()   # (ns, jid, dev) whose published bundle is not what the device itself would publish
        self.bundle_fail = set()
        w.rule = self.rule
        self.populate()

    # -- building the situation ---------------------------------------------------------------------------------
    def rule(self, _node, op, info):
        if op == "download_bundle" and (info["ns"], info["jid"], info["dev"]) in self.bundle_fail:
            return MyDownloadFailed("scripted")
        return None

    def populate(self):
        rng, w = self.rng, self.w
        universe = self.nss + ([UNLOADED] if rng.random() < 0.15 else [])
        others = ("bob@x", "Bob@x", rng.choice(("alice@x.example", "Alice@x")), rng.choice(("Dave@Ü.example", "bo\u0308b@x", "\uff42ob@x")))
        for jid in rng.sample(others, rng.randint(1, 3)) + ["alice@x"]:
            ids = rng.sample(range(1, 7), rng.choice((0, 1, 1, 2, 3)))
            if self.profile == "crowd":
                ids = rng.sample(range(1, 200), rng.choice((3, 40, 70)))
            for dev in ids:
                if (jid, dev) == self.own:
                    continue
                supported = rng.sample(universe, rng.randint(1, len(universe)))
                self.peers[(jid, dev)] = Peer(w, jid, dev, supported, label=rng.choice((None, "phone", "")))
        for jid in sorted({j for j, _ in self.peers}):
            self.feed(jid)
        self.learn()
        self.set_initial_trust()
        self.sessions_up_front()
        self.sabotage()
        if rng.random() < 0.3:
            if rng.random() < 0.3:
                self.node.undecided = rng.choice(("U0", "U-initial", "T", "D"))
            self.node.start()  # another run of the application

    def feed(self, jid):
        for ns in self.nss:
            current = dict(self.w.lists.get((ns, jid), {}))
            self.w.call(self.node.mgr.update_device_list(ns, jid, dict(current)))
            self.lists.update(ns, jid, current, self.own)

    def learn(self):
        """The application looks at some of the accounts, which makes the identity keys known."""
        for jid in sorted({j for j, _ in self.peers}):
            if self.rng.random() < 0.5:
                for dev, info in self.node.info(jid).items():
                    self.known_ik[(jid, dev)] = info.identity_key

    def set_initial_trust(self):
        for (jid, dev), peer in self.peers.items():
            r = self.rng.random()
            if self.profile == "unknown-levels" and r < 0.2:
                name = "strange"
            elif r < 0.5:
                name = self.rng.choice(("T", "Trusted", "T2"))
            elif r < 0.7:
                name = self.rng.choice(("D", "Distrusted"))
            elif r < 0.8:
                name = self.rng.choice(("U", "Undecided-again", self.node.undecided))
            else:
                continue
            self.set_trust(jid, peer.identity_key, name)

    def set_trust(self, jid, key, name):
        self.w.call(self.node.mgr.set_trust(jid, key, name))
        self.trust[(jid, key)] = name

    def sessions_up_front(self):
        node, rng = self.node, self.rng
        for (jid, dev), peer in list(self.peers.items()):
            for ns in [n for n in peer.namespaces if n in self.nss]:
                r = rng.random()
                if r < (0.1 if self.profile == "crowd" else 0.3):
                    # They wrote to us. We may have answered, they may have read it.
                    message, _ = peer.send(ns, [self.own], b"hello")
                    expected = (omemo.SenderDistrusted, omemo.UnknownTrustLevel)
                    self.w.call(node.mgr.decrypt(message), *expected)
                    info = node.info(jid)
                    if dev in info:
                        self.known_ik[(jid, dev)] = info[dev].identity_key
                        if rng.random() < 0.4:
                            self.session_of_ours(peer, info[dev])

    def session_of_ours(self, peer, info):
        """Replace the sessions by ones we initiated; they may read our messages and we may read their answers."""
        mark = len(self.w.sent)
        self.w.call(self.node.mgr.replace_sessions(info))
        for _, message, _ in self.w.sent[mark:]:
            if self.rng.random() < 0.75:
                peer.receive(message)
                peer.publish_bundle(message.namespace)
                answer, _ = peer.send(message.namespace, [self.own], self.rng.choice((b"answer", None)))
                if self.rng.random() < 0.75:
                    outcome = self.w.call(self.node.mgr.decrypt(answer), omemo.SenderDistrusted, omemo.UnknownTrustLevel)
                    self.rec.count("sessions_confirmed", outcome.ok)

    def sabotage(self):
        rng, w = self.rng, self.w
        for (jid, dev), peer in list(self.peers.items()):
            for ns in peer.namespaces:
                r = rng.random()
                where = (ns, jid, dev)
                if r < 0.08:
                    w.bundles.pop(where, None)
                elif r < 0.16:
                    self.bundle_fail.add(where)
                elif r < 0.22:
                    peer.publish_bundle(ns, good_signature=False)
                    self.faked.add(where)
                elif r < 0.25:
                    peer.publish_bundle(ns, pre_keys=())
                    self.faked.add(where)
                elif r < 0.36:
                    others = [p for p in self.peers.values() if p is not peer]
                    key = rng.choice(others).identity_key if others and rng.random() < 0.5 else \
                        Peer(w, jid, dev, [ns], publish=False).identity_key
                    peer.publish_bundle(ns, identity_key=key)
                    self.faked.add(where)
                    if rng.random() < 0.5:
                        self.set_trust(jid, key, rng.choice(("T", "D", "U")))
            if rng.random() < 0.15:
                # The device goes away again (for one of the backends)
                ns = rng.choice(self.nss)
                w.lists.get((ns, jid), {}).pop(dev, None)
                self.feed(jid)

    # -- expectations ---------------------------------------------------------------------------------------------
    def trust_name(self, jid, key):
        return self.trust.get((jid, key), self.node.undecided)

    def possible_identities(self, jid, dev):
        if (jid, dev) in self.known_ik:
            return {self.known_ik[(jid, dev)]}
        return {
            self.w.bundles[(ns, jid, dev)].identity_key for ns in self.lists.of(jid)[dev]["ns"]
            if (ns, jid, dev) in self.w.bundles and (ns, jid, dev) not in self.bundle_fail
        }

    def identities_after(self, jids):
        """What the library believes now, without giving it the chance to download anything."""
        old, self.w.rule = self.w.rule, lambda n, op, info: (
            MyDownloadFailed("offline") if op == "download_bundle" else None)
        try:
            return {(d.bare_jid, d.device_id): d for jid in sorted(jids) for d in self.node.info(jid).values()}
        finally:
            self.w.rule = old

    def has_session(self, ns, jid, dev):
        return self.node.toy_session(ns, jid, dev) is not None

    # -- the call and its judgement -----------------------------------------------------------------------------
    def encrypt(self):
        rng, w, node, rec = self.rng, self.w, self.node, self.rec
        jids = sorted({j for j, _ in self.peers} | {"alice@x"})
        pool = jids + ["nobody@x"] * (rng.random() < 0.1)
        recipients = frozenset(rng.sample(pool, rng.randint(0 if rng.random() < 0.1 else 1, len(pool))))
        priority = None
        if rng.random() < 0.5:
            priority = rng.sample(self.nss, rng.randint(1, len(self.nss)) if rng.random() < 0.95 else 0)
            if rng.random() < 0.05:
                priority.insert(rng.randrange(len(priority) + 1), rng.choice(("urn:nope", UNLOADED)))
        plaintext = {ns: rng.getrandbits(64).to_bytes(8, "big") * rng.choice((0, 1, 5)) for ns in self.nss}
        identifier = rng.choice((None, "", "tab-1", " tab\n", "chat with ☃"))
        script = self.decision_script()
        calls = []

        async def decide(mgr, undecided, ident):
            calls.append((undecided, ident))
            if rng.random() < 0.4:
                for jid in sorted({d.bare_jid for d in undecided}):
                    await mgr.get_device_information(jid)
            await script(mgr, undecided)
        node.decide = decide

        before = node.toy_sessions()
        trust_before = dict(self.trust)
        had_session = {
            (ns, j, d): node.toy_session(ns, j, d) for ns in self.nss for (j, d) in self.peers
        }
        possible = {(j, d): self.possible_identities(j, d) for j in jids for d in self.lists.of(j) if (j, d) != self.own}
        mark = len(w.events)
        outcome = w.call(
            node.mgr.encrypt(recipients, dict(plaintext), None if priority is None else list(priority), identifier),
            omemo.UnknownNamespace, omemo.UnknownTrustLevel, omemo.TrustDecisionFailed, omemo.StillUndecided,
            omemo.NoEligibleDevices
        )
        after = self.identities_after(recipients | {"alice@x"})

        # Identity keys: learned from one of the published bundles, never changed.
        for key, info in after.items():
            if key != self.own:
                rec.check(info.identity_key in possible[key],
                          "identity key on record is neither the known one nor a published one", device=key)
        rec.count("encrypt_calls")

        order = self.nss if priority is None else priority
        if any(ns not in self.nss for ns in order):
            rec.check(outcome.raised(omemo.UnknownNamespace), "unavailable namespace in the priority order accepted",
                      order=order, outcome=outcome)
            rec.check(not calls and node.toy_sessions() == before, "rejected encryption had effects")
            rec.count("reject_unknown_namespace")
            return rec.sig("unknown-ns", order)
        rec.check(not outcome.raised(omemo.UnknownNamespace), "all namespaces are available", order=order)

        # The candidates: everything of the recipients (and ours) that is active for a namespace in the order.
        candidates = {}
        for jid in recipients | {"alice@x"}:
            for dev, info in self.lists.of(jid).items():
                if (jid, dev) == self.own or not possible[(jid, dev)]:
                    continue
                usable = [ns for ns in order if ns in info["ns"] and info["active"].get(ns)]
                if usable:
                    if (jid, dev) not in after:
                        rec.check(not outcome.ok, "device with a known identity key ignored", device=(jid, dev))
                        return rec.count("judged_partially")
                    candidates[(jid, dev)] = (usable[0], after[(jid, dev)].identity_key)

        def levels(trust):
            out = {}
            for (jid, dev), (ns, key) in candidates.items():
                try:
                    out[(jid, dev)] = level_of(trust.get((jid, key), node.undecided))
                except omemo.UnknownTrustLevel:
                    out[(jid, dev)] = None
            return out

        before_levels = levels(trust_before)
        case = ["encrypt", len(self.nss), order == self.nss, len(recipients),
                sorted((str(before_levels[c]), candidates[c][0], bool(had_session.get((candidates[c][0],) + c)))
                       for c in candidates)]
        rec.sig(*case, type(outcome.exc).__name__)
        if None in before_levels.values():
            rec.check(outcome.raised(omemo.UnknownTrustLevel), "unknown trust level not reported", outcome=outcome)
            rec.check(node.toy_sessions() == before, "failed encryption persisted a session")
            return rec.count("unknown_trust_level")
        undecided = {c for c, level in before_levels.items() if level is omemo.TrustLevel.UNDECIDED}
        if undecided:
            rec.count("trust_decisions")
            rec.check(len(calls) == 1, "exactly one trust decision has to be requested", calls=len(calls))
            asked = {(d.bare_jid, d.device_id): d for d in calls[0][0]}
            rec.check(len(asked) == len(calls[0][0]) and set(asked) == undecided,
                      "trust decision about the wrong devices", asked=sorted(asked), undecided=sorted(undecided))
            for c, d in asked.items():
                rec.check(d.identity_key == candidates[c][1] and d.trust_level_name
                          == trust_before.get((c[0], d.identity_key), node.undecided),
                          "wrong key or trust level presented for decision", device=c)
            rec.check(calls[0][1] == identifier and type(calls[0][1]) is type(identifier),
                      "identifier altered", passed=identifier, got=calls[0][1])
        else:
            rec.check(not calls, "trust decision requested although everything is decided", calls=len(calls))

        if script.raises and undecided:
            rec.check(outcome.exc is script.raises, "failed trust decision not forwarded", outcome=outcome)
            rec.check(node.toy_sessions() == before, "failed encryption persisted a session")
            return rec.count("trust_decision_failed")
        rec.check(not outcome.raised(omemo.TrustDecisionFailed), "no trust decision failed", outcome=outcome)

        final = levels(self.trust)
        if None in final.values():
            rec.check(outcome.raised(omemo.UnknownTrustLevel) or (
                outcome.raised(omemo.StillUndecided) and omemo.TrustLevel.UNDECIDED in final.values()
            ), "unknown trust level not reported", outcome=outcome)
            rec.check(node.toy_sessions() == before, "failed encryption persisted a session")
            return rec.count("unknown_trust_level")
        rec.check(not outcome.raised(omemo.UnknownTrustLevel), "all trust levels are known", outcome=outcome)
        if omemo.TrustLevel.UNDECIDED in final.values():
            rec.check(outcome.raised(omemo.StillUndecided), "undecided device tolerated", outcome=outcome, levels=final)
            rec.check(node.toy_sessions() == before, "failed encryption persisted a session")
            return rec.count("still_undecided")
        rec.check(not outcome.raised(omemo.StillUndecided), "everything is decided", outcome=outcome)

        # Who can be reached, who can't, and why.
        expect_ok, expect_error = {}, {}
        for (jid, dev), (ns, key) in candidates.items():
            if final[(jid, dev)] is not omemo.TrustLevel.TRUSTED:
                continue
            where = (ns, jid, dev)
            if had_session.get(where) is not None:
                expect_ok[(jid, dev)] = (ns, key, False)
            elif where in self.bundle_fail:
                expect_error[where] = MyDownloadFailed
            elif where not in w.bundles:
                expect_error[where] = omemo.BundleNotFound
            elif (w.bundles[where].identity_key != key or not w.bundles[where].good_signature
                  or not w.bundles[where].pre_keys):
                expect_error[where] = omemo.KeyExchangeFailed
            else:
                expect_ok[(jid, dev)] = (ns, key, True)

        # Sessions are only ever built with the identity key on record.
        for e in w.since(mark, "be.build_active", node.name):
            rec.check(e.identity == after[(e.jid, e.dev)].identity_key, "session attempted with a foreign identity key",
                      device=(e.jid, e.dev))
            rec.check(e.bundle == (e.ns, e.jid, e.dev), "session built from another device's bundle", event=e)

        unreachable = {j for j in recipients if j != "alice@x"} - {j for j, _ in expect_ok}
        if unreachable:
            rec.check(outcome.raised(omemo.NoEligibleDevices), "recipient without eligible device not reported",
                      unreachable=sorted(unreachable), outcome=outcome)
            rec.check(outcome.exc.bare_jids == frozenset(unreachable), "wrong recipients reported as unreachable",
                      reported=sorted(outcome.exc.bare_jids), expected=sorted(unreachable))
            rec.check(node.toy_sessions() == before, "failed encryption persisted a session")
            return rec.count("no_eligible_devices")
        rec.check(outcome.ok, "encryption has to succeed", outcome=outcome, reachable=sorted(expect_ok))

        messages, errors = outcome.value
        got_errors = {(e.namespace, e.bare_jid, e.device_id): e.exception for e in errors}
        rec.check(len(got_errors) == len(errors) and set(got_errors) == set(expect_error),
                  "wrong set of per-device errors", got=sorted(got_errors), expected=sorted(expect_error))
        for where, exc in got_errors.items():
            rec.check(isinstance(exc, expect_error[where]), "wrong error for device", device=where, got=repr(exc))
        seen = {}
        rec.check(len({m.namespace for m in messages}) == len(messages), "more than one message for a backend")
        for message, pkm in messages.items():
            rec.check((message.bare_jid, message.device_id) == self.own, "message with a wrong sender", message=message)
            rec.check(message.namespace in self.nss, "message for a backend that is not loaded")
            rec.check(not message.content.empty, "content lost")
            for ekm, kex in message.keys:
                target = (ekm.bare_jid, ekm.device_id)
                rec.check(target not in seen, "device addressed twice", device=target)
                rec.check(target in expect_ok, "encrypted for a device that must not get the message", device=target,
                          level=str(final.get(target)))
                ns, key, fresh = expect_ok[target]
                seen[target] = ns
                rec.check(ns == message.namespace, "wrong backend chosen", device=target, expected=ns,
                          got=message.namespace)
                if fresh:
                    rec.check(ekm.sealed_for == key, "encrypted for a key other than the trusted one", device=target)
                    rec.check(kex is not None, "key exchange information missing", device=target)
                else:
                    old = had_session[(ns,) + target]
                    rec.check(ekm.sid == old.st["sid"], "existing session not used", device=target)
                    rec.check((kex is not None) == (old.st["side"] == "A" and not old.st["confirmed"]),
                              "key exchange information included/omitted wrongly", device=target)
                rec.check(ekm.key == pkm.key, "key material does not belong to the content", device=target)
                rec.count("device_encryptions")
        rec.check(set(seen) == set(expect_ok), "eligible device left out", left_out=sorted(set(expect_ok) - set(seen)))
        # Every addressed device can read it.
        for target, ns in seen.items():
            peer = self.peers[target]
            if (ns,) + target in self.faked or peer.identity_key != expect_ok[target][1]:
                continue
            message = next(m for m in messages if m.namespace == ns)
            text, key = peer.receive(message)
            rec.check(text == plaintext[ns], "plaintext arrived altered", device=target)
            rec.count("delivered")
        # The ratchets have moved on disk.
        for target, ns in seen.items():
            new = node.toy_session(ns, *target)
            old = had_session.get((ns,) + target)
            rec.check(new is not None and (old is None or new.st["sn"] == old.st["sn"] + 1),
                      "session not persisted after encryption", device=target)
        untouched = {f"/toy/{ns}/session/{j}/{d}" for (j, d), ns in seen.items()}
        for key in set(before) | set(node.toy_sessions()):
            if key not in untouched:
                rec.check(before.get(key) == node.toy_sessions().get(key), "session of an uninvolved device changed",
                          key=key)
        if seen:
            rec.sample({"recipients": sorted(recipients), "order": order,
                        "encrypted_for": sorted(map(list, seen)), "errors": sorted(map(list, expect_error)),
                        "decided_during_call": sorted(map(list, undecided))})
        return None

    def decision_script(self):
        """What the user does when asked."""
        rng = self.rng
        mode = rng.choice(("all-trust", "mixed", "mixed", "decisive", "decisive", "lazy", "fail", "strange"))

        async def script(mgr, undecided):
            for device in sorted(undecided, key=lambda d: (d.bare_jid, d.device_id)):
                names = {
                    "all-trust": ("T",), "mixed": ("T", "D", "T3"), "decisive": ("T", "D"),
                    "lazy": ("T", "U", None), "fail": ("T", "D", None), "strange": ("T", "D", "weird")
                }[mode]
                name = rng.choice(names)
                if name is not None:
                    await mgr.set_trust(device.bare_jid, device.identity_key, name)
                    self.trust[(device.bare_jid, device.identity_key)] = name
            if mode == "decisive":
                # The user takes the opportunity to reconsider earlier decisions
                for (jid, key), name in sorted(self.trust.items()):
                    if rng.random() < 0.3:
                        name = rng.choice(("T-re", "D-re"))
                        await mgr.set_trust(jid, key, name)
                        self.trust[(jid, key)] = name
            if script.raises:
                raise script.raises
        script.raises = MyTrustDecisionFailed("scripted") if mode == "fail" else None
        return script


def encrypt_case(rng, rec, profile="mixed", rounds=None):
    scenario = Scenario(rng, rec, profile)
    for _ in range(rounds or rng.randint(1, 3)):
        # What is known by now stays known
        scenario.known_ik.update({
            k: d.identity_key
            for k, d in scenario.identities_after({j for j, _ in scenario.peers} | {"alice@x"}).items()
            if k != scenario.own
        })
        scenario.encrypt()
        if rng.random() < 0.3:
            scenario.set_initial_trust()
