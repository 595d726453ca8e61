"""Creation, loading, backend changes: fresh, repeated, and interrupted at every single operation."""
import json

import omemo

from .toy import ToyBundle
from .world import Crash, InjectedStorageFailure, NS, Node, Peer, World

LABELS = (None, "phone", "", "☃")
OPS = ("load", "store", "delete", "upload_bundle", "download_bundle", "delete_bundle", "upload_list", "download_list")


def failure_for(op):
    return {
        "load": InjectedStorageFailure, "store": InjectedStorageFailure, "delete": InjectedStorageFailure,
        "upload_bundle": omemo.BundleUploadFailed, "download_bundle": omemo.BundleDownloadFailed,
        "delete_bundle": omemo.BundleDeletionFailed, "upload_list": omemo.DeviceListUploadFailed,
        "download_list": omemo.DeviceListDownloadFailed, "send": omemo.MessageSendingFailed
    }[op]("injected")


FAILURES = (InjectedStorageFailure, omemo.BundleUploadFailed, omemo.BundleDownloadFailed, omemo.BundleDeletionFailed,
            omemo.DeviceListUploadFailed, omemo.DeviceListDownloadFailed)


class Account:
    """One account with other devices, on whose server the device under test is (repeatedly) created."""

    def __init__(self, rng, rec, nss, threshold=99, small_ids=False, cache=True, yields=False):
        self.rng, self.rec = rng, rec
        self.w = w = World(rng, yields=yields)
        self.jid = "alice@x"
        self.others = {}
        for ns in NS:
            ids = rng.sample(range(1, 6), rng.randint(0, 3)) if small_ids else \
                [rng.randrange(1, 2 ** 31) for _ in range(rng.randint(0, 3))] + rng.sample(
                    (1, 2 ** 31 - 1, 2 ** 31 - 2), rng.randint(0, 2))
            if rng.random() < 0.8:
                w.lists[(ns, self.jid)] = {i: rng.choice(LABELS) for i in ids}
                for i in ids:
                    if rng.random() < 0.7:
                        key = rng.getrandbits(256).to_bytes(32, "big")
                        w.bundles[(ns, self.jid, i)] = ToyBundle(ns, self.jid, i, key, 1, (1, 2, 3))
        self.lists0 = {ns: dict(w.lists.get((ns, self.jid), {})) for ns in NS}
        self.bundles0 = dict(w.bundles)
        self.node = Node(w, self.jid, nss, cache=cache, label=rng.choice(LABELS), threshold=threshold)
        self.node.wander = rng
        w.rule = self.monitor
        self.first_ids = set()

    def monitor(self, _node, op, info):
        """Online monitor: before this device is listed anywhere, its bundle has to be there and be complete."""
        if op == "upload_list":
            self.rec.count("list_publications")
            for dev in set(info["list"]) - set(self.lists0[info["ns"]]):
                bundle = self.w.bundles.get((info["ns"], self.jid, dev))
                self.rec.check(bundle is not None, "device listed before its bundle was published", ns=info["ns"],
                               device=dev)
                self.rec.check(self.node.threshold < len(bundle.pre_keys) <= 100,
                               "device listed while its bundle lacks one-time pre keys", keys=len(bundle.pre_keys))
            self.rec.check({k: v for k, v in info["list"].items() if k in self.lists0[info["ns"]]}
                           == self.lists0[info["ns"]], "entries of other devices disturbed", ns=info["ns"],
                           got=info["list"], expected=self.lists0[info["ns"]])
        if op == "upload_bundle":
            self.rec.check(info["jid"] == self.jid and info["dev"] not in self.lists0[info["ns"]],
                           "bundle published for another device", info=str(info))
        return None

    def mine(self, ns):
        return set(self.w.lists.get((ns, self.jid), {})) - set(self.lists0[ns])

    def my_bundles(self):
        return {k: b for k, b in self.w.bundles.items() if k not in self.bundles0}

    def check_listed_have_bundles(self, when):
        for ns in NS:
            for dev in self.mine(ns):
                self.rec.check((ns, self.jid, dev) in self.w.bundles, f"device listed without a bundle {when}", ns=ns,
                               device=dev)
        for k, b in self.bundles0.items():
            self.rec.check(self.w.bundles.get(k) is b, f"bundle of another device touched {when}", where=k)

    def check_complete(self, when, full=True, stale=False):
        """
        The published data of the running device is complete and consistent (except for what an interrupted removal may
        leave behind about a backend that is not loaded any more, if `stale`).
        """
        rec, w, node = self.rec, self.w, self.node
        own, others = w.call(node.mgr.get_own_device_information()).value
        rec.check(1 <= own.device_id <= 2 ** 31 - 1, "device id out of range", id=own.device_id)
        rec.check(own.device_id not in {d for ns in node.namespaces for d in self.lists0[ns]} or not full,
                  "device id taken by another device", id=own.device_id)
        rec.check(own.namespaces == frozenset(node.namespaces)
                  and {n: a for n, a in own.active if n in node.namespaces or not stale} == {
                      n: True for n in node.namespaces},
                  f"own device information incomplete {when}", got=own)
        keys = set()
        for ns in node.namespaces:
            bundle = w.bundles.get((ns, self.jid, own.device_id))
            rec.check(bundle is not None, f"bundle missing {when}", ns=ns)
            rec.check(node.threshold < len(bundle.pre_keys) <= 100, f"bundle lacks one-time pre keys {when}",
                      keys=len(bundle.pre_keys))
            local = w.run(node.backend(ns).get_bundle(self.jid, own.device_id))
            rec.check(local == bundle, f"published bundle differs from the local one {when}", ns=ns)
            keys.add(bundle.identity_key)
            listed = self.mine(ns)
            rec.check(listed == {own.device_id}, f"not exactly this device listed {when}", ns=ns, listed=sorted(listed),
                      own=own.device_id)
            expected = dict(self.lists0[ns])
            expected[own.device_id] = own.label
            rec.check(w.lists[(ns, self.jid)] == expected, f"device list damaged {when}", got=w.lists[(ns, self.jid)],
                      expected=expected)
        rec.check(keys == {own.identity_key}, f"backends don't share the identity key on record {when}")
        return own

    def check_works(self):
        """A stranger can start a conversation via every backend."""
        own = self.node.own()
        for ns in self.node.namespaces:
            peer = Peer(self.w, "zoe@x", self.rng.randrange(1, 10 ** 6), [ns], pre_keys=2)
            message, _ = peer.send(ns, [(self.jid, own.device_id)], b"hi")
            outcome = self.w.call(self.node.mgr.decrypt(message))
            self.rec.check(outcome.value[0] == b"hi", "message not received")
            self.rec.count("conversations_after_create")


def fresh_case(rng, rec):
    nss = rng.sample(NS, rng.randint(1, 3))
    small = rng.random() < 0.4
    threshold = rng.choice((99, 25, 60, 98))
    a = Account(rng, rec, nss, threshold, small, cache=rng.random() < 0.5, yields=rng.random() < 0.3)
    w, node = a.w, a.node
    taken = sorted({d for ns in nss for d in a.lists0[ns]})
    w.randbelow_queue = [d - 1 for d in rng.sample(taken, rng.randint(0, len(taken)))] + [
        rng.choice((0, lambda bound: bound - 1, lambda bound: rng.randrange(bound)))]
    collisions = len(w.randbelow_queue) - 1
    if small:
        node.class_attributes = {"DEVICE_ID_MAX": 8}
    rec.count("forced_collisions", collisions)
    if rng.random() < 0.15:
        bad = rng.choice((-1, 0, 24, 100, 1000))
        outcome = w.call(node.create(pre_key_refill_threshold=bad), ValueError)
        rec.check(not outcome.ok, "refill threshold out of range accepted", threshold=bad)
        rec.check(not a.my_bundles() and not any(a.mine(ns) for ns in NS), "rejected creation published something")
        rec.check(not node.disk, "rejected creation left something behind", keys=sorted(node.disk))
        rec.count("rejected_parameters")
    if rng.random() < 0.1:
        node.kill()
        gen_nss = nss + [rng.choice(nss)]
        outcome = w.call(node.create(namespaces=gen_nss), ValueError)
        node.namespaces = nss
        rec.check(not outcome.ok, "two backends for the same namespace accepted")
        rec.check(not a.my_bundles() and not any(a.mine(ns) for ns in NS), "rejected creation published something")
        rec.check(not node.disk, "rejected creation left something behind", keys=sorted(node.disk))
        rec.count("rejected_parameters")
    node.start()
    label = node.label
    own = a.check_complete("after the first creation")
    rec.check(own.label == label, "initial label lost", got=own.label)
    for ns in nss:
        rec.check(len(w.bundles[(ns, a.jid, own.device_id)].pre_keys) == 100, "not 100 one-time pre keys initially")
    rec.check(set(a.my_bundles()) == {(ns, a.jid, own.device_id) for ns in nss}, "unexpected bundles published")
    for ns in NS:
        if ns not in nss:
            rec.check(w.lists.get((ns, a.jid), {}) == a.lists0[ns], "list of a backend that is not loaded changed")
    rec.sig("fresh", len(nss), len(taken), collisions, small, threshold, label)
    # Loading again changes nothing at all
    for _ in range(rng.randint(1, 3)):
        lists, bundles = json.dumps(sorted(map(str, w.lists.items()))), dict(w.bundles)
        node.label = rng.choice(LABELS)
        node.start(namespaces=rng.sample(nss, len(nss)), live=rng.random() < 0.5)
        again = a.check_complete("after loading")
        rec.check(again == own, "own device changed by loading", before=own, after=again)
        rec.check(json.dumps(sorted(map(str, w.lists.items()))) == lists and w.bundles == bundles,
                  "published data changed by loading")
        rec.count("reloads")
    if rng.random() < 0.3:
        a.check_works()
    rec.sample({"taken": taken, "chosen": own.device_id, "backends": len(nss)})


CONFIGS = [
    # (backends at first, what the interrupted creation is about)
    (1, "first"), (2, "first"), (3, "first"), (1, "add"), (2, "add"), (2, "remove"), (3, "remove"), (2, "swap"),
    (1, "reload")
]
KINDS = ("crash-before", "crash-after", "fail-before", "fail-after")


def interrupt_plan(kind, k, seen):
    def plan(index, _node, op, _info):
        if index == k:
            seen.append(op)
            when = kind.split("-")[1]
            return when, (Crash() if kind.startswith("crash") else failure_for(op))
        return None
    return plan


def interrupted_case(rng, rec, max_ops=100, extra=True):
    """Enumerates (configuration, kind of interruption, operation) by the case index."""
    index = rec.index
    config = CONFIGS[index % len(CONFIGS)]
    kind = KINDS[(index // len(CONFIGS)) % len(KINDS)]
    k = (index // (len(CONFIGS) * len(KINDS))) % max_ops
    count, about = config
    nss = rng.sample(NS, count)
    a = Account(rng, rec, nss, rng.choice((99, 50)), cache=rng.random() < 0.5)
    w, node = a.w, a.node
    before = None
    target = list(nss)
    if about != "first":
        node.start()
        before = a.check_complete("after the first creation")
        rest = [n for n in NS if n not in nss]
        target = {"add": nss + rest[:1], "remove": nss[1:], "swap": nss[1:] + rest[:1], "reload": nss}[about]
        if rng.random() < 0.5:
            rng.shuffle(target)
    removed = [n for n in nss if n not in target]
    seen = []
    w.plan = interrupt_plan(kind, k, seen)
    outcome = w.crashing(node.create(target), *FAILURES)
    w.plan = None
    a.check_listed_have_bundles("after the interruption")
    if not seen:
        rec.check(outcome.ok, "creation failed without a reason", outcome=outcome)
        rec.count("beyond_last_operation")
        return
    # (a failing bundle download while looking for identity keys of other devices is tolerated, that's fine)
    rec.count(f"interrupted:{about}")
    rec.count(f"interrupted_op:{seen[0]}")
    rec.sig("interrupted", config, kind, k, seen[0])
    if extra and rng.random() < 0.4:
        # ...and the next attempt is interrupted as well
        seen2 = []
        w.plan = interrupt_plan(rng.choice(KINDS), rng.randrange(40), seen2)
        w.crashing(node.create(target), *FAILURES)
        w.plan = None
        a.check_listed_have_bundles("after the second interruption")
        rec.count("interrupted_twice", len(seen2))
    node.kill()
    node.start(target)
    own = a.check_complete("after resuming", stale=True)
    if before is not None:
        rec.check((own.device_id, own.identity_key, own.label) == (before.device_id, before.identity_key, before.label),
                  "the device became another one", before=before, after=own)
    for ns in removed:
        rec.check(not a.mine(ns), "still listed for a removed backend", ns=ns)
    ids = {k[2] for k in a.my_bundles()}
    rec.check(ids == {own.device_id}, "bundles left behind under another device id", ids=sorted(ids))
    a.check_listed_have_bundles("in the end")
    # A further load is a no-op
    bundles, lists = dict(w.bundles), {key: dict(v) for key, v in w.lists.items()}
    node.start(target)
    rec.check(w.bundles == bundles and w.lists == lists and node.own() == own, "loading again changes something")
    if rng.random() < 0.25:
        a.check_works()
    rec.count("resumed")
    rec.sample({"about": about, "backends": count, "interruption": f"{kind} operation {k} ({seen[0]})",
                "device": own.device_id})


def threshold_case(rng, rec):
    """Refill thresholds are accepted exactly from 25 to 99."""
    threshold = rec.index - 20 if rec.index < 160 else rng.choice((-10 ** 9, 10 ** 9, rng.randrange(-300, 300)))
    a = Account(rng, rec, rng.sample(NS, rng.randint(1, 2)), threshold)
    outcome = a.w.call(a.node.create(), ValueError)
    legal = 25 <= threshold <= 99
    rec.check(outcome.ok == legal, "refill threshold accepted/rejected wrongly", threshold=threshold, outcome=outcome)
    rec.count("thresholds_accepted" if legal else "thresholds_rejected")
    rec.sig("threshold", threshold)
    if not legal:
        rec.check(not a.my_bundles() and not any(a.mine(ns) for ns in NS), "rejected creation published something")
