"""ensure_data_consistency against servers in any state."""
import omemo

from .create_engine import FAILURES, failure_for
from .lists_engine import LABELS, ListsScenario
from .toy import ToyBundle
from .world import NS


class ConsistencyScenario(ListsScenario):
    def damage(self):
        """Returns what is wrong with the online data, per backend."""
        rng, w = self.rng, self.w
        wrong = {}
        for ns in self.nss:
            where = (ns,) + self.own
            wrong[ns] = set()
            current = w.lists.setdefault((ns, self.own_jid), {})
            for what in rng.sample(("list", "others", "label", "bundle", "bundle-down"), rng.choice((0, 1, 1, 2, 3))):
                if what == "list":
                    if rng.random() < 0.3:
                        current = {}
                        if rng.random() < 0.5:
                            w.lists.pop((ns, self.own_jid))
                        else:
                            w.lists[(ns, self.own_jid)] = current
                    current.pop(self.own[1], None)
                elif what == "others":
                    for dev, label in self.random_list(exclude=self.own[1]).items():
                        current[dev] = label
                    if (ns, self.own_jid) in w.lists:
                        w.lists[(ns, self.own_jid)] = current
                elif what == "label" and self.own[1] in current:
                    current[self.own[1]] = rng.choice(LABELS)
                elif what == "bundle":
                    b = w.bundles.get(where)
                    local = w.run(self.node.backend(ns).get_bundle(*self.own))
                    options = [None, ToyBundle(ns, *self.own, local.identity_key, local.spk + 1, local.pre_keys),
                               ToyBundle(ns, *self.own, local.identity_key, local.spk, list(local.pre_keys)[1:]),
                               ToyBundle(ns, *self.own, local.identity_key, local.spk, set(local.pre_keys) | {-1}),
                               ToyBundle(ns, *self.own, bytes(32), local.spk, local.pre_keys),
                               ToyBundle(ns, *self.own, local.identity_key, local.spk, local.pre_keys, False)]
                    b = rng.choice(options)
                    if b is None:
                        w.bundles.pop(where, None)
                    else:
                        w.bundles[where] = b
                    wrong[ns].add("bundle")
                elif what == "bundle-down":
                    wrong[ns].add("down")
            if self.own[1] not in w.lists.get((ns, self.own_jid), {}):
                wrong[ns].add("list")
        return wrong

    def do_consistency(self):
        rng, w, rec = self.rng, self.w, self.rec
        wrong = self.damage()
        down = {ns for ns in self.nss if "down" in wrong[ns]}
        before = {k: dict(v) for k, v in w.lists.items()}
        bundles = dict(w.bundles)
        local = self.node.toy_state()
        old = w.rule

        def rule(node, op, info):
            if op == "download_bundle" and (info["jid"], info["dev"]) == self.own and info["ns"] in down:
                return omemo.BundleDownloadFailed("scripted")
            return old(node, op, info)
        w.rule = rule
        attempts = 0
        mark = len(w.events)
        while rng.random() < 0.5 and attempts < 3:
            at, when = rng.randrange(0, 12), rng.choice(("before", "after"))
            hit = []

            def plan(index, _node, op, info, at=at, when=when, hit=hit):
                net = op in ("upload_list", "upload_bundle", "download_list")
                if index >= at and (net or op in ("load", "store") and rng.random() < 0.1) and not hit:
                    hit.append(op)
                    return when, failure_for(op)
                return None
            w.plan = plan
            outcome = w.call(self.node.mgr.ensure_data_consistency(), *FAILURES)
            w.plan = None
            attempts += 1
            if hit:
                rec.check(not outcome.ok, "failed repair not reported", op=hit[0])
                rec.check(isinstance(outcome.exc, type(failure_for(hit[0]))), "failure reported wrongly", op=hit[0],
                          outcome=outcome)
                rec.count("repair_failures:" + hit[0])
        outcome = w.call(self.node.mgr.ensure_data_consistency())
        w.rule = old
        # A failed attempt may already have adopted another label for this device from one of the lists.
        mine = self.lists.of(self.own_jid)[self.own[1]]
        labels = {mine["label"]} | {before.get((ns, self.own_jid), {}).get(self.own[1], mine["label"]) for ns in self.nss}
        published = {ns: self.lists.update(ns, self.own_jid, before.get((ns, self.own_jid), {}), self.own)
                     for ns in self.nss}
        if attempts:
            mine["label"] = self.node.own().label
            rec.check(mine["label"] in labels, "own label lost", label=mine["label"])
        rec.check(self.node.toy_state() == local, "repair changed local key material or sessions")
        for key in set(before) | set(w.lists):
            ns, jid = key
            expected = dict(before.get(key, {}))
            if jid == self.own_jid and ns in self.nss and self.own[1] not in expected:
                expected[self.own[1]] = published[ns][self.own[1]]
                rec.check(self.own[1] in w.lists.get(key, {}), "own device still not listed", ns=ns)
                if attempts and w.lists[key][self.own[1]] in labels:
                    expected[self.own[1]] = w.lists[key][self.own[1]]
            got = w.lists.get(key, {})
            rec.check(got == expected, "device list not repaired, or other entries disturbed", where=key, got=got,
                      expected=expected)
        for ns in self.nss:
            where = (ns,) + self.own
            mine = w.run(self.node.backend(ns).get_bundle(*self.own))
            rec.check(w.bundles.get(where) == mine, "published bundle still differs from the local one", ns=ns)
            if "bundle" not in wrong[ns] and "down" not in wrong[ns] and not attempts:
                rec.check(not [e for e in w.since(mark, "upload_bundle") if e.ns == ns],
                          "bundle published although it was consistent", ns=ns)
                rec.count("consistent_bundles")
            if "list" not in wrong[ns] and not attempts:
                rec.check(not [e for e in w.since(mark, "upload_list") if e.ns == ns],
                          "device list published although it was consistent", ns=ns)
                rec.count("consistent_lists")
            for what in wrong[ns]:
                rec.count("repaired:" + what)
        for key, b in bundles.items():
            if key[1:] != self.own or key[0] not in self.nss:
                rec.check(w.bundles.get(key) is b, "other bundle touched", where=key)
        rec.check(not [e for e in w.since(mark, "upload_bundle") if e.ns not in self.nss], "backend not loaded published")
        # Once more: nothing to do
        mark = len(w.events)
        w.call(self.node.mgr.ensure_data_consistency())
        rec.check(not w.since(mark, "upload_bundle") and not w.since(mark, "upload_list"),
                  "published again although everything is consistent")
        rec.sample({"damage": {ns: sorted(v) for ns, v in wrong.items()}, "failed_attempts": attempts})
        return sorted((ns, tuple(sorted(v))) for ns, v in wrong.items()), attempts


assert NS
