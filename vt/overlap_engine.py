"""
Operations on different accounts in flight at the same time. Storage, server and user take their time in random order; each
operation has to end as if it had been the only one, and afterwards everything has to be as after executing them in sequence.
"""
import asyncio
import json

import omemo
from omemo.session import Initiation

from .model import Lists
from .world import NS, Node, Peer, World, level_of

JIDS = ("bob@x", "bob@x.example", "Carol@y", "Dave@Ü.example", "erin@z")
LABELS = (None, "phone", "", "Ü", "laptop")


DAY = 86400


class Overlap:
    def __init__(self, rng, rec, joined=False):
        self.rng, self.rec = rng, rec
        self.w = w = World(rng, joined=joined)
        self.nss = rng.sample(NS, rng.choice((1, 2, 2)))
        self.jids = rng.sample(JIDS, rng.randint(2, 5))
        self.node = node = Node(
            w, "alice@x", self.nss, cache=rng.random() < 0.5, undecided=rng.choice(("U0", "U1")), label=rng.choice(LABELS),
            period=rng.choice((None, DAY, 3 * DAY)), threshold=rng.choice((25, 60, 99))
        )
        node.start(live=True)
        self.own = ("alice@x", node.own().device_id)
        self.label = node.label
        self.lists, self.trust, self.peers, self.plans = Lists(), {}, {}, {}
        self.number = 0
        self.late, self.unavailable, self.unsendable, self.identified = None, set(), set(), set()
        w.rule = self.rule
        node.decide = self.decide
        for jid in self.jids:
            for dev in rng.sample(range(1, 9), rng.randint(1, 3)):
                peer = Peer(w, jid, dev, rng.sample(self.nss, rng.randint(1, len(self.nss))), label=rng.choice(LABELS))
                self.peers[(jid, dev)] = peer
        for jid in self.jids:
            for ns in self.nss:
                if rng.random() < 0.8:
                    current = dict(w.lists.get((ns, jid), {}))
                    w.call(node.mgr.update_device_list(ns, jid, dict(current)))
                    self.lists.update(ns, jid, current)
        for (jid, _), peer in self.peers.items():
            if rng.random() < 0.6:
                self.set_trust_model(jid, peer.identity_key, rng.choice(("T", "T", "D")))
                w.call(node.mgr.set_trust(jid, peer.identity_key, self.trust[(jid, peer.identity_key)]))
        for target in self.peers:
            if rng.random() < 0.5:
                self.converse(target)
        self.period = node.period or 7 * DAY
        self.created, self.seen = {ns: w.now() - age for ns, age in self.ages().items()}, len(w.events)
        w.slow = rng.choice((0.1, 0.3, 0.6))

    def rule(self, _node, op, info):
        if op == "download_bundle" and (info["ns"], info["jid"], info["dev"]) in self.unavailable:
            return omemo.BundleDownloadFailed("scripted")
        if op == "send" and info["jid"] in self.unsendable:
            return omemo.MessageSendingFailed("scripted")
        return None

    def set_trust_model(self, jid, key, name):
        self.trust[(jid, key)] = name

    def known(self, target, ns):
        info = self.lists.of(target[0]).get(target[1])
        return info is not None and ns in info["ns"]

    def level(self, target):
        return level_of(self.trust.get((target[0], self.peers[target].identity_key), self.node.undecided))

    def converse(self, target):
        """There is a confirmed session afterwards."""
        peer = self.peers[target]
        for ns in peer.namespaces:
            if not self.known(target, ns) or self.level(target) is omemo.TrustLevel.DISTRUSTED:
                continue
            mark = len(self.w.sent)
            self.w.call(self.node.mgr.decrypt(peer.send(ns, [self.own], b"hello")[0]))
            for _, message, _ in self.w.sent[mark:]:
                peer.receive(message)

    # -- the user and what the application expects ------------------------------------------------------------------
    async def decide(self, mgr, undecided, identifier):
        jids, plan, expected = self.plans[identifier]
        self.rec.check({(d.bare_jid, d.device_id) for d in undecided} == expected, "asked about the wrong devices",
                       asked=sorted((d.bare_jid, d.device_id) for d in undecided), expected=sorted(expected))
        self.rec.count("decisions")
        if self.late is not None and jids[0] in self.late:
            await self.others_done
        for device in undecided:
            name = plan[(device.bare_jid, device.device_id)]
            await mgr.set_trust(device.bare_jid, device.identity_key, name)
            self.set_trust_model(device.bare_jid, device.identity_key, name)
            if self.rng.random() < 0.5:
                await asyncio.sleep(self.rng.uniform(0, 5))

    def change_server_list(self, ns, jid):
        supporting = [d for (j, d), p in self.peers.items() if j == jid and ns in p.namespaces]
        new = {d: self.rng.choice(LABELS) for d in supporting if self.rng.random() < 0.75}
        self.w.lists[(ns, jid)] = dict(new)
        return new

    # -- operations: each returns (coroutine, judge of its outcome) ----------------------------------------------------
    def op_push(self, jid):
        ns = self.rng.choice(self.nss)
        new = self.change_server_list(ns, jid)

        def judge(value):
            self.rec.check(value is None, "unexpected return value")
        self.lists.update(ns, jid, new)
        return self.node.mgr.update_device_list(ns, jid, dict(new)), judge

    def op_refresh(self, jid):
        if self.rng.random() < 0.5:
            ns = self.rng.choice(self.nss)
            self.lists.update(ns, jid, self.change_server_list(ns, jid))
            return self.node.mgr.refresh_device_list(ns, jid), lambda value: None
        for ns in self.node.namespaces:
            self.lists.update(ns, jid, self.change_server_list(ns, jid))
        return self.node.mgr.refresh_device_lists(jid), lambda value: None

    def judge_info(self, jid, infos):
        got = {d.device_id: d for d in infos}
        self.rec.check(set(got) == set(self.lists.of(jid)), "wrong set of devices", jid=jid, got=sorted(got),
                       expected=sorted(self.lists.of(jid)))
        for dev, info in got.items():
            key = self.peers[(jid, dev)].identity_key
            self.rec.check(info.bare_jid == jid and self.lists.matches(info), "wrong device information", got=info,
                           expected=self.lists.of(jid)[dev])
            self.rec.check(info.identity_key == key, "identity key of another device", device=(jid, dev))
            self.rec.check(info.trust_level_name == self.trust.get((jid, key), self.node.undecided), "wrong trust level",
                           device=(jid, dev), got=info.trust_level_name)

    def op_info(self, jid):
        return self.node.mgr.get_device_information(jid), lambda value: self.judge_info(jid, value)

    def op_trust(self, jid):
        peer = self.rng.choice([p for (j, _), p in self.peers.items() if j == jid])
        name = self.rng.choice(("T", "D", "U", "Undecided"))
        self.set_trust_model(jid, peer.identity_key, name)
        return self.node.mgr.set_trust(jid, peer.identity_key, name), lambda value: None

    def op_encrypt(self, *jids):
        """For one or several recipients."""
        rng = self.rng
        self.number += 1
        identifier = f"call {self.number}"
        plan = {target: rng.choice(("T", "T", "D")) for target in self.peers}
        undecided = set()
        self.plans[identifier] = (jids, plan, undecided)
        texts = {ns: f"{identifier} {ns}".encode() for ns in self.nss}
        order = rng.choice((None, rng.sample(self.nss, len(self.nss))))
        expected = {}
        for jid in jids:
            for dev, info in self.lists.of(jid).items():
                usable = [ns for ns in (order or self.node.namespaces) if info["active"].get(ns)]
                level = self.level((jid, dev))
                if usable and level is omemo.TrustLevel.UNDECIDED:
                    undecided.add((jid, dev))
                if usable and (plan[(jid, dev)] == "T" if level is omemo.TrustLevel.UNDECIDED
                               else level is omemo.TrustLevel.TRUSTED):
                    expected[(jid, dev)] = usable[0]
        failing = set()
        for target, ns in list(expected.items()):
            if target in self.identified and self.node.toy_session(ns, *target) is None and rng.random() < 0.25:
                failing.add((expected.pop(target),) + target)
        self.unavailable |= failing
        alone = frozenset(jids) - {jid for jid, _ in expected}
        before = {(ns,) + t: self.node.toy_session(ns, *t) for t, ns in expected.items()}
        self.rec.count("several_recipients", len(jids) > 1)

        def judge(value):
            if alone:
                self.rec.check(isinstance(value, omemo.NoEligibleDevices) and value.bare_jids == alone,
                               "encryption without eligible devices", got=repr(value))
                return self.rec.count("no_eligible_devices")
            self.rec.check(not isinstance(value, BaseException), "encryption failed", got=repr(value))
            messages, errors = value
            self.rec.check(len(errors) == len(failing) and {e[:3] for e in errors} == failing
                           and all(isinstance(e.exception, omemo.BundleDownloadFailed) for e in errors), "wrong errors",
                           errors=errors, expected=failing)
            self.rec.count("encryption_errors", len(errors))
            got = {}
            for message in messages:
                for ekm, kex in message.keys:
                    target = (ekm.bare_jid, ekm.device_id)
                    self.rec.check(target not in got, "device addressed twice", device=target)
                    got[target] = message.namespace
                    old = before.get((message.namespace,) + target)
                    self.rec.check((kex is None) == (old is not None and (
                        old.initiation is not Initiation.ACTIVE or old.confirmed)), "key exchange included/omitted wrongly")
            self.rec.check(got == expected, "not exactly the eligible devices of this call addressed", got=got,
                           expected=expected)
            for message in messages:
                for target, ns in got.items():
                    if ns == message.namespace:
                        text, _ = self.peers[target].receive(message)
                        self.rec.check(text == texts[ns], "another plaintext arrived", got=text, expected=texts[ns])
                        self.peers[target].publish_bundle(ns)
                        self.rec.count("delivered")
            return None
        return self.node.mgr.encrypt(frozenset(jids), dict(texts), order, identifier), judge

    def op_decrypt(self, jid):
        """Only in confirmed sessions without a response due."""
        usable = []
        for (j, dev), peer in self.peers.items():
            for ns in peer.namespaces if j == jid else ():
                mine, theirs = self.node.toy_session(ns, jid, dev), peer.session(ns, *self.own)
                if mine is not None and theirs is not None and mine.st["sid"] == theirs.st["sid"] \
                        and (theirs.initiation is not Initiation.ACTIVE or theirs.confirmed) and self.known((jid, dev), ns) \
                        and (mine.receiving_chain_length or 0) < 45 and self.level((jid, dev)) is not omemo.TrustLevel.DISTRUSTED:
                    usable.append((ns, dev, peer))
        if not usable:
            return self.op_info(jid)
        ns, dev, peer = self.rng.choice(usable)
        self.number += 1
        text = f"reply {self.number}".encode()
        message, pkm = peer.send(ns, [self.own], text)

        def judge(value):
            self.rec.check(not isinstance(value, BaseException), "decryption failed", got=repr(value))
            plaintext, device, key = value
            self.rec.check(plaintext == text and key.key == pkm.key, "another plaintext or key returned", got=plaintext)
            self.rec.check((device.bare_jid, device.device_id) == (jid, dev), "message attributed to another device", got=device)
            self.judge_info_one(device)
            self.rec.count("decrypted")
        return self.node.mgr.decrypt(message), judge

    def judge_info_one(self, device):
        key = self.peers[(device.bare_jid, device.device_id)].identity_key
        self.rec.check(self.lists.matches(device) and device.identity_key == key
                       and device.trust_level_name == self.trust.get((device.bare_jid, key), self.node.undecided),
                       "wrong device information returned", got=device)

    def op_replace(self, jid):
        known = sorted(self.lists.of(jid))
        if not known:
            return self.op_info(jid)
        dev = self.rng.choice(known)
        peer = self.peers[(jid, dev)]
        device = self.w.call(self.node.mgr.get_device_information(jid)).value
        device = next(d for d in device if d.device_id == dev)
        had = [ns for ns in self.nss if self.known((jid, dev), ns) and self.node.toy_session(ns, jid, dev) is not None]
        mark = len(self.w.sent)
        failing = self.rng.random() < 0.3
        if failing:
            self.unsendable.add(jid)
        before = {ns: self.node.disk[f"/toy/{ns}/session/{jid}/{dev}"] for ns in had}

        def judge(value):
            if failing:
                self.rec.check(set(value) == set(had) and all(isinstance(e, omemo.MessageSendingFailed) for e in value.values()),
                               "failed replacements not reported, or others", got=value, expected=had)
                self.rec.check(before == {ns: self.node.disk[f"/toy/{ns}/session/{jid}/{dev}"] for ns in had}
                               and jid not in [to for _, _, to in self.w.sent[mark:]], "failed replacement had an effect")
                return self.rec.count("failed_replacements", len(had))
            self.rec.check(not value, "sessions not replaced", got=value)
            sent = [m for _, m, to in self.w.sent[mark:] if to == jid]
            self.rec.check(sorted(m.namespace for m in sent) == sorted(had), "wrong automatic messages",
                           got=[m.namespace for m in sent], expected=had)
            for message in sent:
                peer.receive(message)
                peer.publish_bundle(message.namespace)
                self.rec.count("replaced")
            return None
        return self.node.mgr.replace_sessions(device), judge

    def op_chain(self, jid):
        known = sorted(self.lists.of(jid))
        if not known:
            return self.op_info(jid)
        dev = self.rng.choice(known)
        device = next(d for d in self.w.call(self.node.mgr.get_device_information(jid)).value if d.device_id == dev)
        sessions = {ns: self.node.toy_session(ns, jid, dev) for ns in device.namespaces}
        expected = {ns: None if s is None else s.sending_chain_length for ns, s in sessions.items()}

        def judge(value):
            self.rec.check(value == expected, "wrong sending chain lengths", got=value, expected=expected)
        return self.node.mgr.get_sending_chain_length(device), judge

    def op_label(self):
        self.label = self.rng.choice(LABELS)
        return self.node.mgr.set_own_label(self.label), lambda value: None

    def op_contact(self, jid):
        """The first message of a new session. At most one per round, as the own bundles belong to no account."""
        usable = [(ns, dev, p) for (j, dev), p in self.peers.items() if j == jid for ns in p.namespaces
                  if self.known((jid, dev), ns) and self.level((jid, dev)) is not omemo.TrustLevel.DISTRUSTED]
        if not usable:
            return self.op_info(jid)
        ns, dev, peer = self.rng.choice(usable)
        self.number += 1
        text = f"first {self.number}".encode()
        message, _ = peer.send(ns, [self.own], text, fresh=True)
        (_, kex), = message.keys
        mark = len(self.w.sent)
        self.contact = (ns, dev, jid, peer)
        left = len(self.node.pre_keys(ns)[0] - {kex.pk})

        def judge(value):
            self.rec.check(not isinstance(value, BaseException), "decryption failed", got=repr(value))
            self.rec.check(value[0] == text and (value[1].bare_jid, value[1].device_id) == (jid, dev),
                           "wrong plaintext or device", got=value[:2])
            self.judge_info_one(value[1])
            self.rec.check(kex.pk not in self.w.bundles[(ns,) + self.own].pre_keys, "used pre key still published")
            self.rec.check(len(self.node.pre_keys(ns)[0]) == (100 if left <= self.node.threshold else left),
                           "wrong number of pre keys", got=len(self.node.pre_keys(ns)[0]), left=left, threshold=self.node.threshold)
            if not self.synchronizing:
                self.judge_response(self.w.sent[mark:])
            self.rec.count("contacts")
        return self.node.mgr.decrypt(message), judge

    def judge_response(self, sent):
        ns, dev, jid, peer = self.contact
        self.contact = None
        mine = [m for _, m, to in sent if to == jid]
        self.rec.check(len(mine) == 1 and mine[0].namespace == ns and {k[0].device_id for k in mine[0].keys} == {dev},
                       "the response to a first message is missing or wrong", sent=[(m, to) for _, m, to in sent])
        peer.receive(mine[0])
        self.rec.count("deferred_responses" if self.synchronizing else "responses")

    # -- the rounds -------------------------------------------------------------------------------------------------
    def begin(self):
        """Choose the operations of a round; returns a coroutine executing them."""
        rng, w = self.rng, self.w
        self.slow, w.slow = w.slow, 0
        while any(-3600 < age - self.period < 120 for age in self.ages().values()):
            w.advance(600)  # Not now
        self.synchronizing, self.contact = rng.random() < 0.3, None
        if self.synchronizing:
            self.node.mgr.before_history_sync()
        self.jobs = jobs = []
        self.unavailable, self.unsendable = set(), set()
        contact = rng.random() < 0.5
        jids = rng.sample(self.jids, rng.randint(1, len(self.jids)))
        while jids:
            jid = jids.pop()
            name = rng.choices(("encrypt", "decrypt", "push", "refresh", "info", "trust", "replace", "chain"),
                               (6, 4, 3, 2, 2, 1, 1, 1))[0]
            if contact:
                name, contact = "contact", False
            concerned = [jid]
            while name == "encrypt" and jids and rng.random() < 0.35:
                concerned.append(jids.pop())
            jobs.append((name, tuple(concerned)) + getattr(self, "op_" + name)(*concerned))
        if rng.random() < 0.2:
            jobs.append(("label", ("alice@x",)) + self.op_label())
        rng.shuffle(jobs)
        # One of the operations may have to wait - for the user or the server - until all the others are done.
        late = rng.randrange(len(jobs)) if rng.random() < 0.3 and len(jobs) > 1 else None
        self.late = None if late is None else jobs[late][1]
        w.slow, w.ops, w.instant = self.slow, 0, (None, 0)
        self.sent_mark, self.finished = len(w.sent), []

        async def gate(op, info):
            if op in ("download_list", "download_bundle", "send") and info["jid"] in self.late:
                rec.count("waited_for_the_others", not self.others_done.done())
                await self.others_done

        rec = self.rec

        async def one(index, coroutine):
            try:
                return await coroutine
            except omemo.NoEligibleDevices as e:
                return e
            finally:
                self.finished.append(index)
                if self.late is not None and not self.others_done.done() and set(range(len(jobs))) - {late} <= set(self.finished):
                    self.others_done.set_result(None)

        async def together():
            self.others_done = asyncio.get_running_loop().create_future()
            w.gate = gate if self.late is not None else None
            self.values = await asyncio.gather(*(one(i, job[2]) for i, job in enumerate(jobs)))
        return together()

    def end(self):
        """Judge the round."""
        rec, w, jobs, finished = self.rec, self.w, self.jobs, self.finished
        w.slow, w.gate = 0, None
        self.unavailable, self.unsendable = set(), set()
        w.check_runaway()
        for (name, _, _, judge), value in zip(jobs, self.values):
            judge(value)
            rec.count("op:" + name)
        if self.synchronizing:
            mark = len(w.sent)
            if self.contact is not None:
                rec.check(self.contact[2] not in [to for _, _, to in w.sent[self.sent_mark:]],
                          "responded while synchronizing", sent=w.sent[self.sent_mark:])
            w.call(self.node.mgr.after_history_sync())
            if self.contact is not None:
                self.judge_response(w.sent[mark:])
            else:
                rec.check(len(w.sent) == mark, "response without reason", sent=w.sent[mark:])
        rec.count("overlapping", len(jobs) if len(jobs) > 1 else 0)
        rec.count("finished_in_another_order", finished != sorted(finished))
        rec.sig([j[0] for j in jobs], finished)
        rec.sample({"operations": [(j[0], j[1]) for j in jobs], "order of completion": list(finished)})
        for jid in self.jids:
            self.judge_info(jid, w.call(self.node.mgr.get_device_information(jid)).value)
            self.identified |= {(jid, dev) for dev in self.lists.of(jid)}
        own, others = w.call(self.node.mgr.get_own_device_information()).value
        rec.check((own.bare_jid, own.device_id) == self.own and own.label == self.label and not others,
                  "own device information disturbed", got=own)
        for ns in self.nss:
            rec.check(w.lists[(ns, "alice@x")] == {self.own[1]: self.label}, "own device list disturbed", ns=ns)
        w.slow = self.slow

    def ages(self):
        return {ns: self.w.now() - json.loads(self.node.disk[f"/toy/{ns}/state"])["spk_created"] for ns in self.nss}

    def judge_rotations(self):
        for ns, age in self.ages().items():
            self.rec.check(age <= self.period + 62, "signed pre key not rotated in time", ns=ns, age=age, period=self.period)
        for event in self.w.events[self.seen:]:
            if event.kind == "be.rotate":
                ns = event.d["ns"]
                age = event.t - self.created[ns]
                self.rec.check(age > self.period, "signed pre key rotated too early", ns=ns, age=age, period=self.period)
                self.created[ns] = event.t
                self.rec.count("rotations")
        self.seen = len(self.w.events)

    def restart(self):
        self.slow, self.w.slow = self.w.slow, 0
        self.node.start(live=True)
        self.w.slow = self.slow


def overlap_case(rng, rec):
    s = Overlap(rng, rec)
    for _ in range(rng.randint(2, 6)):
        s.w.call(s.begin())
        s.end()
        if rng.random() < 0.2:
            s.restart()


def neighbours_case(rng, rec):
    """Several session managers in one process, with the same account names but nothing else in common."""
    all_ = [Overlap(rng, rec, joined=i > 0) for i in range(rng.choice((2, 2, 3)))]
    rec.check(len({id(s.node.mgr) for s in all_}) == len(all_), "the same session manager twice")
    for _ in range(rng.randint(2, 4)):
        active = rng.sample(all_, rng.randint(1, len(all_)))
        runs = [s.begin() for s in active]

        async def together():
            await asyncio.gather(*runs)
        active[0].w.call(together())
        for s in rng.sample(active, len(active)):
            s.end()
        rec.count("managers_at_once", len(active) if len(active) > 1 else 0)
        rec.count("synchronizing_next_to_live", len({s.synchronizing for s in active}) > 1)
        if rng.random() < 0.4:
            for s in all_:
                s.slow, s.w.slow = s.w.slow, 0
            all_[0].w.advance(rng.uniform(0, 4 * DAY))
            for s in all_:
                s.judge_rotations()
                s.w.slow = s.slow
        if rng.random() < 0.2:
            rng.choice(all_).restart()


class Offline(Overlap):
    """The server can't be reached at all."""

    async def unreachable(self, op, info):
        self.rec.check(op in ("load", "store", "delete"), "the server was needed", op=op, info=info)

    def change_server_list(self, ns, jid):
        """Devices whose identity key isn't known yet would have to be looked up."""
        new = {dev: label for dev, label in super().change_server_list(ns, jid).items() if (jid, dev) in self.identified}
        self.w.lists[(ns, jid)] = dict(new)
        return new

    def in_session(self, jid):
        return all(self.node.toy_session(ns, jid, dev) is not None for dev, info in self.lists.of(jid).items()
                   for ns, active in info["active"].items() if active)

    def step(self):
        rng, w, rec, node = self.rng, self.w, self.rec, self.node
        name = rng.choices(("encrypt", "decrypt", "push", "info", "trust", "chain", "restart", "late", "sync", "purge", "forget"),
                           (6, 5, 2, 2, 1, 1, 1, 1, 1, 0.2, 0.5))[0]
        jid = rng.choice(self.jids)
        rec.count("offline:" + name)
        if name == "restart":
            node.start()
            self.synchronizing = True
        elif name == "sync":
            node.mgr.before_history_sync()
            self.synchronizing = True
        elif name == "late":
            self.many(jid)
        elif name == "purge":
            w.call(node.mgr.purge_bare_jid(jid))
            for dev in self.lists.of(jid):
                self.trust.pop((jid, self.peers[(jid, dev)].identity_key), None)
            self.lists.dev.pop(jid, None)
            self.jids.remove(jid)
        elif name == "forget":
            outcome = w.call(node.mgr.encrypt(frozenset({"nobody@x"}), {ns: b"" for ns in self.nss}), omemo.NoEligibleDevices)
            rec.check(outcome.raised(omemo.NoEligibleDevices), "encrypted for nobody")
        else:
            jids = [jid]
            if name == "encrypt":
                jids = [j for j in rng.sample(self.jids, rng.randint(1, len(self.jids))) if self.in_session(j)]
                if not jids:
                    return rec.count("nothing_to_encrypt")
            job, judge = getattr(self, "op_" + name)(*jids)
            outcome = w.call(job, omemo.NoEligibleDevices)
            judge(outcome.value if outcome.ok else outcome.exc)
        rec.sig(name)
        return None

    def many(self, jid):
        """Lots of messages in a row: no answer is due as long as the synchronization lasts."""
        if not self.synchronizing:
            return
        for (j, dev), peer in self.peers.items():
            for ns in peer.namespaces if j == jid else ():
                mine, theirs = self.node.toy_session(ns, jid, dev), peer.session(ns, *self.own)
                if mine is None or theirs is None or mine.st["sid"] != theirs.st["sid"] or not self.known((jid, dev), ns) \
                        or theirs.initiation is Initiation.ACTIVE and not theirs.confirmed \
                        or self.level((jid, dev)) is omemo.TrustLevel.DISTRUSTED:
                    continue
                for n in range(self.rng.choice((1, 60))):  # (beyond the staleness limit)
                    message, _ = peer.send(ns, [self.own], b"%d" % n)
                    self.rec.check(self.w.call(self.node.mgr.decrypt(message)).value[0] == b"%d" % n, "another plaintext arrived")
                    self.rec.count("decrypted_in_a_row")
                return


def offline_case(rng, rec):
    s = Offline(rng, rec)
    s.w.slow = 0
    for jid in s.jids:
        s.judge_info(jid, s.w.call(s.node.mgr.get_device_information(jid)).value)
        s.identified |= {(jid, dev) for dev in s.lists.of(jid)}
    while any(-3600 < age - s.period < 86400 for age in s.ages().values()):
        s.w.advance(1800)
    s.w.gate = s.unreachable
    s.late = None
    s.synchronizing = False
    for _ in range(rng.randint(5, 25)):
        if s.jids:
            s.step()
    s.w.gate = None
    if s.synchronizing:
        s.w.call(s.node.mgr.after_history_sync())
