"""Device lists, labels, identity keys and trust of everybody's devices over long histories, against a small model."""
import omemo

from .model import Lists
from .toy import ToyBundle
from .world import InjectedStorageFailure, NS, Node, World

LABELS = (None, None, "phone", "laptop", " phone\n", "", "☃ – ünïcode", "x" * 200)


class ListsScenario:
    def __init__(self, rng, rec, weights=None, max_id=9, jids=("alice@x", "bob@x", None),
                 sizes=(0, 1, 2, 2, 3, 5)):
        self.rng, self.rec = rng, rec
        self.w = w = World(rng, yields=rng.random() < 0.3)
        # (some device ids are huge)
        self.ids, self.sizes = list(range(1, max_id)), sizes
        if rng.random() < 0.4:
            self.ids[-1], self.ids[-2] = 2 ** 31 - 1, 2 ** 31 - 2
        self.weights = dict(WEIGHTS, **(weights or {}))
        self.nss = rng.sample(NS, rng.randint(1, 3))
        self.own_jid = "alice@x"
        other = ("Bob@x", "Bob@x", "Alice@x", "alice@X", "alice@x.example", "bo\u0308b@x", "\uff42ob@x", "bob@x ")
        self.jids = [jid or rng.choice(other) for jid in jids]
        self.trust, self.ik = {}, {}
        self.lists = Lists()
        self.bundle_fail, self.upload_fail, self.download_fail = set(), False, False
        w.rule = self.rule
        own_id = rng.choice(self.ids)
        self.own = (self.own_jid, own_id)
        self.keys = {}
        for _ in range(rng.choice((0, 2, 5, 8))):
            self.do_bundles()
        for ns in NS:
            for jid in self.jids:
                if rng.random() < 0.6:
                    w.lists[(ns, jid)] = self.random_list(exclude=own_id if jid == self.own_jid else None)
        w.randbelow_queue = [own_id - 1]
        self.label = rng.choice(LABELS)
        self.node = Node(w, self.own_jid, self.nss, cache=rng.random() < 0.6, label=self.label,
                         supported_ns=None)
        self.node.wander = rng
        self.node.supported_ns = set(self.nss) if rng.random() < 0.4 else None
        before = {k: dict(v) for k, v in w.lists.items()}
        self.initial = self.node.undecided
        self.node.start()
        self.own = (self.own_jid, self.node.own().device_id)
        rec.check(self.own[1] not in {d for (ns, j), v in before.items() if j == self.own_jid and ns in self.nss
                                      for d in v}, "device id collides with another device of the account")
        self.lists.dev[self.own_jid] = {self.own[1]: {"ns": set(), "active": {}, "label": self.label}}
        for ns in self.nss:
            self.expect_update(ns, self.own_jid, before.get((ns, self.own_jid), {}))
        self.verify("create")

    def rule(self, _node, op, info):
        if op == "download_bundle" and ((info["ns"], info["jid"], info["dev"]) in self.bundle_fail):
            return omemo.BundleDownloadFailed("scripted")
        if op == "upload_list" and self.upload_fail:
            return omemo.DeviceListUploadFailed("scripted")
        if op == "download_list" and self.download_fail in (True, info["ns"]):
            return omemo.DeviceListDownloadFailed("scripted")
        return None

    def random_list(self, exclude=None):
        ids = self.rng.sample(self.ids, self.rng.choice(self.sizes))
        return {i: self.rng.choice(LABELS) for i in ids if i != exclude}

    def key(self, jid, dev, n=0):
        if (jid, dev, n) not in self.keys:
            self.keys[(jid, dev, n)] = self.rng.getrandbits(256).to_bytes(32, "big")
        return self.keys[(jid, dev, n)]

    # -- expectations ----------------------------------------------------------------------------------------------
    def expect_update(self, ns, jid, device_list):
        publish = self.lists.update(ns, jid, device_list, self.own)
        if publish is not None:
            self.rec.count("own_device_restored")
            self.rec.check(self.w.lists.get((ns, jid)) == publish,
                           "own device missing from the published list, or other entries disturbed",
                           published=self.w.lists.get((ns, jid)), expected=publish)

    def possible(self, jid, dev):
        if (jid, dev) in self.ik:
            return {self.ik[(jid, dev)]}
        return {
            self.w.bundles[(ns, jid, dev)].identity_key for ns in self.lists.of(jid)[dev]["ns"]
            if (ns, jid, dev) in self.w.bundles and (ns, jid, dev) not in self.bundle_fail
            and (self.node.supported_ns is None or ns in self.node.supported_ns)
        }

    def verify(self, after):
        """Everything the API tells about every device has to agree with the model."""
        rec = self.rec
        for jid in sorted(set(self.jids)):
            possible = {dev: self.possible(jid, dev) for dev in self.lists.of(jid) if (jid, dev) != self.own}
            mark = len(self.w.events)
            outcome = self.w.call(self.node.mgr.get_device_information(jid))
            for e in self.w.events[mark:]:
                if e.kind == "download_bundle" or e.kind == "net_fail" and e.op == "download_bundle":
                    rec.check((e.jid, e.dev) not in self.ik and (e.jid, e.dev) != self.own,
                              "bundle downloaded although the identity key is on record", device=(e.jid, e.dev))
                    rec.count("lookups")
            infos = {d.device_id: d for d in outcome.value}
            rec.check(len(infos) == len(outcome.value), "device reported twice", jid=jid)
            expected = {dev for dev in possible if possible[dev]}
            if jid == self.own_jid:
                expected.add(self.own[1])
            rec.check(set(infos) == expected, f"wrong set of devices after {after}", jid=jid, got=sorted(infos),
                      expected=sorted(expected))
            for dev, info in infos.items():
                rec.check(info.bare_jid == jid and self.lists.matches(info), f"wrong device information after {after}",
                          got=info, expected=self.lists.of(jid)[dev])
                if (jid, dev) == self.own:
                    continue
                rec.check(info.identity_key in possible[dev], f"identity key changed or made up after {after}",
                          device=(jid, dev))
                if (jid, dev) not in self.ik:
                    rec.count("identities_learned")
                self.ik[(jid, dev)] = info.identity_key
                rec.check(info.trust_level_name == self.trust.get((jid, info.identity_key), self.node.undecided),
                          f"wrong trust level after {after}", device=(jid, dev), got=info.trust_level_name)
            rec.count("device_states_compared", len(infos))
        own, others = self.w.call(self.node.mgr.get_own_device_information()).value
        rec.check((own.bare_jid, own.device_id) == self.own, "own device mixed up", got=own)
        rec.check(own.trust_level_name == self.trust.get((self.own_jid, own.identity_key), self.initial),
                  "wrong trust level of this device's own key", got=own.trust_level_name)
        rec.check({d.device_id for d in others} == {
            d for d in self.lists.of(self.own_jid) if d != self.own[1] and (self.own_jid, d) in self.ik
        }, "own other devices mixed up")
        rec.check(own.namespaces == frozenset(self.nss) and dict(own.active) == {n: True for n in self.nss},
                  "own device is not active for all loaded backends", got=own)
        for ns in self.nss:
            rec.check(self.own[1] in self.w.lists.get((ns, self.own_jid), {}), f"own device not advertised after {after}",
                      ns=ns)

    # -- actions ------------------------------------------------------------------------------------------------
    def act(self):
        kinds = [k for k, v in self.weights.items() if v > 0]
        kind = self.rng.choices(kinds, [self.weights[k] for k in kinds])[0]
        what = getattr(self, "do_" + kind)()
        self.rec.count("op:" + kind)
        self.rec.sig(kind, what)
        self.verify(kind)

    def do_push(self):
        """A PEP event arrives (which is what the server has now)."""
        ns, jid = self.rng.choice(self.nss), self.rng.choice(self.jids)
        new = self.random_list()
        if jid == self.own_jid and self.rng.random() < 0.6:
            new[self.own[1]] = self.rng.choice((self.lists.of(jid)[self.own[1]]["label"], None, "renamed"))
        self.w.lists[(ns, jid)] = dict(new)
        self.push(ns, jid, new)
        return ns, jid, len(new), self.own[1] in new

    def do_repeat(self):
        """The same list again, or a modification of the current one."""
        ns, jid = self.rng.choice(self.nss), self.rng.choice(self.jids)
        new = dict(self.w.lists.get((ns, jid), {}))
        if new and self.rng.random() < 0.7:
            dev = self.rng.choice(sorted(new))
            if self.rng.random() < 0.5:
                new.pop(dev)
            else:
                new[dev] = self.rng.choice(LABELS)
        self.w.lists[(ns, jid)] = dict(new)
        self.push(ns, jid, new)
        return ns, jid, len(new)

    def push(self, ns, jid, new):
        given = dict(new)
        self.w.call(self.node.mgr.update_device_list(ns, jid, given))
        self.rec.check(given == new, "device list passed by the application was modified")
        self.expect_update(ns, jid, new)
        if not (jid == self.own_jid and self.own[1] not in new):
            self.rec.check(self.w.lists.get((ns, jid), {}) == new, "device list on the server changed without need",
                           got=self.w.lists.get((ns, jid)), expected=new)

    def do_interrupted_push(self):
        """The upload or the storage fails half-way; repeating the update has to complete it."""
        ns, jid = self.rng.choice(self.nss), self.rng.choice(self.jids)
        new = self.random_list()
        if jid == self.own_jid and self.rng.random() < 0.5:
            new[self.own[1]] = "renamed"
        self.w.lists[(ns, jid)] = dict(new)
        needs_upload = jid == self.own_jid and self.own[1] not in new
        if needs_upload and self.rng.random() < 0.5:
            self.upload_fail = True
            outcome = self.w.call(self.node.mgr.update_device_list(ns, jid, dict(new)), omemo.DeviceListUploadFailed)
            self.upload_fail = False
            self.rec.check(not outcome.ok, "failed device list upload not reported")
            how = "upload"
        else:
            at, when = self.rng.randrange(0, 25), self.rng.choice(("before", "after"))
            self.w.plan = lambda i, n, op, info: (when, InjectedStorageFailure("scripted")) \
                if i == at and op in ("store", "load") else None
            outcome = self.w.call(self.node.mgr.update_device_list(ns, jid, dict(new)), InjectedStorageFailure)
            self.w.plan = None
            how = "storage" if not outcome.ok else "none"
        if self.rng.random() < 0.4 and not needs_upload:
            self.restart(self.nss)
        self.rec.count("interrupted_updates", 0 if outcome.ok else 1)
        self.w.lists[(ns, jid)] = dict(new)
        self.push(ns, jid, new)
        return ns, jid, len(new), how

    def do_refresh(self):
        ns, jid = self.rng.choice(self.nss), self.rng.choice(self.jids)
        if self.rng.random() < 0.5:
            self.w.lists[(ns, jid)] = self.random_list()
        current = dict(self.w.lists.get((ns, jid), {}))
        if self.rng.random() < 0.2:
            self.download_fail = True
            outcome = self.w.call(self.node.mgr.refresh_device_list(ns, jid), omemo.DeviceListDownloadFailed)
            self.download_fail = False
            self.rec.check(not outcome.ok, "failed device list download not reported")
            self.w.lists[(ns, jid)] = current
            if jid == self.own_jid and self.own[1] not in current:
                self.w.call(self.node.mgr.refresh_device_list(ns, jid))
                self.expect_update(ns, jid, current)
            return "download failure"
        self.w.call(self.node.mgr.refresh_device_list(ns, jid))
        self.expect_update(ns, jid, current)
        return ns, jid, len(current)

    def do_refresh_all(self):
        jid = self.rng.choice(self.jids)
        current = {}
        for ns in self.nss:
            if self.rng.random() < 0.5:
                self.w.lists[(ns, jid)] = self.random_list()
            current[ns] = dict(self.w.lists.get((ns, jid), {}))
        if self.rng.random() < 0.25:
            self.download_fail = self.rng.choice(self.nss)
            outcome = self.w.call(self.node.mgr.refresh_device_lists(jid), omemo.DeviceListDownloadFailed)
            self.download_fail = False
            self.rec.check(not outcome.ok, "failed download of one of the device lists not reported")
            self.rec.count("failed_refreshes")
        self.w.call(self.node.mgr.refresh_device_lists(jid))
        for ns in self.nss:
            self.expect_update(ns, jid, current[ns])
        return jid, len(self.nss)

    def do_unknown_namespace(self):
        ns = self.rng.choice([n for n in NS if n not in self.nss] + ["urn:other"])
        outcome = self.w.call(self.node.mgr.update_device_list(ns, self.rng.choice(self.jids), self.random_list()),
                              omemo.UnknownNamespace)
        self.rec.check(outcome.raised(omemo.UnknownNamespace), "update for a backend that is not loaded accepted")
        return ns

    def do_label(self):
        label = self.rng.choice(LABELS)
        before = {ns: dict(self.w.lists.get((ns, self.own_jid), {})) for ns in self.nss}
        if self.rng.random() < 0.25:
            # Publishing the label fails for some backend; setting it again completes it.
            at = self.rng.randrange(0, 2 * len(self.nss))
            seen = []

            def rule(_node, op, _info):
                if op in ("upload_list", "download_list"):
                    seen.append(op)
                    if len(seen) == at + 1:
                        return (omemo.DeviceListUploadFailed if op == "upload_list" else
                                omemo.DeviceListDownloadFailed)("scripted")
                return None
            old, self.w.rule = self.w.rule, rule
            outcome = self.w.call(self.node.mgr.set_own_label(label), omemo.DeviceListUploadFailed,
                                  omemo.DeviceListDownloadFailed)
            self.w.rule = old
            self.rec.check(outcome.ok == (len(seen) <= at), "failure to publish the label not reported",
                           outcome=outcome)
            self.rec.count("label_failures", 0 if outcome.ok else 1)
            if self.rng.random() < 0.3:
                self.restart(self.nss)
        for ns in self.nss:
            if self.rng.random() < 0.1:
                # Somebody else removed this device from the list.
                self.w.lists.get((ns, self.own_jid), {}).pop(self.own[1], None)
                self.rec.count("labels_set_unlisted")
        self.w.call(self.node.mgr.set_own_label(label))
        self.lists.of(self.own_jid)[self.own[1]]["label"] = label
        for ns in self.nss:
            expected = dict(before[ns])
            expected[self.own[1]] = label
            self.rec.check(self.w.lists[(ns, self.own_jid)] == expected,
                           "own label not published everywhere, or other entries disturbed", ns=ns,
                           got=self.w.lists[(ns, self.own_jid)], expected=expected)
        self.rec.count("labels_set")
        return label

    def do_restart(self):
        nss = self.nss
        if self.rng.random() < 0.6:
            nss = self.rng.sample(NS, self.rng.randint(1, 3))
        self.restart(nss)
        return sorted(nss)

    def restart(self, nss):
        before = {k: dict(v) for k, v in self.w.lists.items()}
        old = list(self.nss)
        self.nss = list(nss)
        if self.node.supported_ns is not None:
            self.node.supported_ns = set(nss)
        if self.rng.random() < 0.5:
            self.node.label = self.rng.choice(LABELS)
        if self.rng.random() < 0.4:
            # Another version of the application, which starts out with another level
            self.node.undecided = self.rng.choice(("U0", "T", "D", "another"))
            self.rec.count("initial_level_changes")
        self.node.start(nss)
        mine = self.lists.of(self.own_jid)[self.own[1]]
        for ns in nss:
            if ns not in old:
                self.expect_update(ns, self.own_jid, before.get((ns, self.own_jid), {}))
                self.rec.count("backends_added")
        for ns in set(old) - set(nss):
            mine["ns"].discard(ns)
            mine["active"].pop(ns, None)
            expected = before.get((ns, self.own_jid), {})
            expected.pop(self.own[1], None)
            self.rec.check(self.w.lists.get((ns, self.own_jid), {}) == expected,
                           "removed backend still advertised, or other entries disturbed", ns=ns,
                           got=self.w.lists.get((ns, self.own_jid)), expected=expected)
            self.rec.count("backends_removed")
        for ns in nss:
            self.rec.check(self.own[1] in self.w.lists.get((ns, self.own_jid), {}), "own device not advertised", ns=ns)
            if ns in old:
                self.rec.check(self.w.lists.get((ns, self.own_jid)) == before.get((ns, self.own_jid)),
                               "device list of an unaffected backend changed", ns=ns)

    def do_bundles(self):
        """Bundles appear, disappear, fail to download, change their identity key."""
        for _ in range(self.rng.randint(1, 6) * (1 + len(self.ids) // 10)):
            ns, jid, dev = self.rng.choice(NS), self.rng.choice(self.jids), self.rng.choice(self.ids)
            if (jid, dev) == self.own:
                continue
            r = self.rng.random()
            if r < 0.6:
                self.w.bundles[(ns, jid, dev)] = ToyBundle(
                    ns, jid, dev, self.some_key(jid, dev), 1, (1, 2))
            elif r < 0.8:
                self.w.bundles.pop((ns, jid, dev), None)
            else:
                self.bundle_fail ^= {(ns, jid, dev)}
        return len(self.w.bundles), len(self.bundle_fail)

    def some_key(self, jid, dev):
        r = self.rng.random()
        if r < 0.1 and self.keys:
            # Two devices with the same key, of the same or of another account
            self.rec.count("shared_keys")
            return self.rng.choice(sorted(self.keys.values()))
        return self.key(jid, dev, 0 if r < 0.8 else 1)

    def do_trust(self):
        jid = self.rng.choice(self.jids)
        known = sorted(self.keys.values())
        if not known:
            return None
        key = self.rng.choice(known)
        name = self.rng.choice(("T", "D", "U", "anything at all", "", "☃", " T ", "t", "D\n", "a/b", self.node.undecided, self.node.undecided))
        self.w.call(self.node.mgr.set_trust(jid, key, name))
        self.trust[(jid, key)] = name
        self.rec.count("trust_set")
        return name


WEIGHTS = {"push": 6, "repeat": 3, "refresh": 2, "refresh_all": 1, "unknown_namespace": 0.5, "label": 1, "restart": 1.5,
           "bundles": 4, "trust": 1.5, "interrupted_push": 1}


def lists_case(rng, rec, steps=None, cls=ListsScenario, **kwargs):
    scenario = cls(rng, rec, **kwargs)
    for _ in range(steps or rng.randint(8, 25)):
        scenario.act()
    rec.sample({"namespaces": scenario.nss, "own": list(scenario.own),
                "known": {j: sorted(d) for j, d in scenario.lists.dev.items()},
                "identities": len(scenario.ik)})
