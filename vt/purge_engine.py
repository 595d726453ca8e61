"""Backends coming and going, accounts being purged: what has to go goes, everything else stays."""
import json

import omemo

from .create_engine import FAILURES, failure_for
from .decrypt_engine import DecryptScenario
from .world import Crash, NS


def tokens(key):
    return key.split("/")


def mentions(value, jid):
    if isinstance(value, str):
        return value == jid
    if isinstance(value, list):
        return any(mentions(v, jid) for v in value)
    if isinstance(value, dict):
        return any(mentions(v, jid) or k == jid for k, v in value.items())
    return False


def without(value, jid):
    """A list without the elements concerning an account."""
    if isinstance(value, list):
        return [v for v in value if not mentions(v, jid)]
    return value


def canonical(value):
    """Lists are used as sets by the library."""
    return sorted(map(repr, value)) if isinstance(value, list) else value


class BackendScenario(DecryptScenario):
    """Loads the library with varying sets of backends and purges some, while messages keep coming."""

    def __init__(self, rng, rec, **kwargs):
        self.universe = rng.sample(NS, rng.choice((2, 3, 3)))
        super().__init__(rng, rec, nss=list(self.universe), **kwargs)
        own = self.node.own()
        self.identity = (own.device_id, own.identity_key)

    def compose(self, peer, ns, plaintext="", fresh=False):
        if ns not in self.nss and (ns,) + self.own not in self.w.bundles and fresh:
            return None
        return super().compose(peer, ns, plaintext, fresh)

    def do_collide(self):
        if self.nss:
            super().do_collide()

    def do_reply(self):
        if self.nss:
            super().do_reply()

    def do_newpeer(self):
        if self.nss:
            super().do_newpeer()

    def snapshot(self):
        # The number of backends may be zero for a while, devices are known nevertheless
        self.refresh_known()
        trust = {}
        old, self.w.rule = self.w.rule, lambda n, op, info: (
            omemo.BundleDownloadFailed("offline") if op == "download_bundle" else None)
        for jid in sorted(self.lists.dev):
            for dev, info in self.node.info(jid).items():
                if (jid, dev) != self.own:
                    trust[(jid, dev)] = info
        self.w.rule = old
        return (dict(self.node.disk), {k: dict(v) for k, v in self.w.lists.items()}, dict(self.w.bundles), trust)

    def compare(self, before, concerned, what):
        """Everything that does not concern the given backends is as it was."""
        rec, w = self.rec, self.w
        disk, lists, bundles, infos = before
        now = self.snapshot()
        # (identity keys of other own devices may be learned on the occasion)
        changed = sorted(k for k in set(infos) | set(now[3]) if infos.get(k) != now[3].get(k)
                         and not (k not in infos and k[0] == self.own[0] and self.lists.matches(now[3][k])))
        rec.check(not changed, f"devices or their trust changed by {what}", changed=changed)
        for ns in self.universe:
            if ns not in concerned:
                mine = {k: v for k, v in disk.items() if f"/{ns}/" in k or k.endswith(f"/{ns}")}
                after = {k: v for k, v in now[0].items() if f"/{ns}/" in k or k.endswith(f"/{ns}")}
                rec.check(mine == after, f"data of an unconcerned backend changed by {what}", ns=ns,
                          keys=sorted(k for k in set(mine) | set(after) if mine.get(k) != after.get(k)))
        for key in set(lists) | set(w.lists):
            ns, jid = key
            old, new = dict(lists.get(key, {})), dict(w.lists.get(key, {}))
            if jid == self.own[0] and ns in concerned:
                old.pop(self.own[1], None)
                new.pop(self.own[1], None)
            rec.check(old == new, f"device list disturbed by {what}", where=key, before=old, after=new)
        for key in set(bundles) | set(w.bundles):
            if key[1:] != self.own or key[0] not in concerned:
                rec.check(bundles.get(key) == w.bundles.get(key), f"bundle disturbed by {what}", where=key)
        own = self.node.own()
        rec.check((own.device_id, own.identity_key) == self.identity, f"identity changed by {what}")
        rec.check(own.namespaces == frozenset(self.nss) and dict(own.active) == {n: True for n in self.nss},
                  f"own device information wrong after {what}", got=own, loaded=self.nss)
        for ns in self.universe:
            listed = self.own[1] in w.lists.get((ns, self.own[0]), {})
            rec.check(listed == (ns in self.nss), f"device listed wrongly after {what}", ns=ns, listed=listed,
                      loaded=ns in self.nss)
            rec.check(((ns,) + self.own in w.bundles) == (ns in self.nss), f"bundle present/absent wrongly after {what}",
                      ns=ns, loaded=ns in self.nss)
            if ns in self.nss:
                local = w.run(self.node.backend(ns).get_bundle(*self.own))
                rec.check(local == w.bundles[(ns,) + self.own] and (len(local.pre_keys) > self.threshold or ns in self.slack)
                          and len(local.pre_keys) <= 100,
                          f"published bundle incomplete after {what}", ns=ns, keys=len(local.pre_keys))
            else:
                outcome = w.call(self.node.mgr.update_device_list(ns, "bob@x", {}), omemo.UnknownNamespace)
                rec.check(not outcome.ok, "update for a backend that is not loaded accepted", ns=ns)

    def forget_own(self, ns):
        mine = self.lists.of(self.own[0])[self.own[1]]
        mine["ns"].discard(ns)
        mine["active"].pop(ns, None)

    def do_backends(self):
        """Load with another set of backends."""
        rng = self.rng
        self.list_fail.clear()
        target = rng.sample(self.universe, rng.randint(0 if rng.random() < 0.1 else 1, len(self.universe)))
        before = self.snapshot()
        old = list(self.nss)
        server = {ns: dict(self.w.lists.get((ns, self.own[0]), {})) for ns in self.universe}
        added, removed = [n for n in target if n not in old], [n for n in old if n not in target]
        kept_data = {ns: {k: v for k, v in self.node.disk.items() if f"/{ns}/" in k or k.endswith(f"/{ns}")}
                     for ns in removed}
        self.node.start(target)
        self.synchronizing = True
        self.nss = list(target)
        for ns in added:
            self.lists.update(ns, self.own[0], server[ns], self.own)
            self.rec.count("backends_added")
        for ns in removed:
            self.forget_own(ns)
            self.rec.count("backends_removed")
            now = {k: v for k, v in self.node.disk.items() if f"/{ns}/" in k or k.endswith(f"/{ns}")}
            self.rec.check(now == kept_data[ns], "offline data of a removed backend lost", ns=ns)
        before = before[:3] + (self.with_own_list(before[3], added),)
        self.compare(before, set(added) | set(removed), "loading with other backends")
        self.rec.sig("backends", sorted(old), sorted(target))

    def with_own_list(self, infos, added):
        """Loading an added backend brings the own account's list for it up to date."""
        if not added:
            return infos
        now = self.snapshot()[3]
        out = {k: v for k, v in infos.items() if k[0] != self.own[0]}
        out.update({k: v for k, v in now.items() if k[0] == self.own[0]})
        for k, v in out.items():
            if k[0] == self.own[0]:
                self.rec.check(self.lists.matches(v), "own other device recorded wrongly", device=k)
                if k in infos:
                    self.rec.check(v.trust_level_name == infos[k].trust_level_name
                                   and v.identity_key == infos[k].identity_key, "own other device altered", device=k)
        return out

    def do_purge(self):
        """Purge a backend at run time (loaded or not)."""
        rng = self.rng
        loaded = rng.random() < 0.8 and (len(self.nss) > 1 or rng.random() < 0.2)
        pool = self.nss if loaded else [n for n in self.universe if n not in self.nss]
        if not pool:
            return
        ns = rng.choice(pool)
        self.list_fail.clear()
        if rng.random() < 0.2:
            # Somebody else removed this device from the list.
            self.w.lists.get((ns, self.own[0]), {}).pop(self.own[1], None)
            self.rec.count("purged_unlisted")
        before = self.snapshot()
        offline = {k: v for k, v in self.node.disk.items() if f"/{ns}/" in k or k.endswith(f"/{ns}")}
        if self.interrupt_purge(ns):
            before = before[:3] + (self.with_own_list(before[3], [ns]),)
        failing = rng.choice(("delete_bundle", "download_list", "upload_list", None, None, None))
        now = dict(self.node.disk)
        if failing is not None:
            old, self.w.rule = self.w.rule, lambda n, op, info: failure_for(op) if op == failing else old(n, op, info)
            outcome = self.w.call(self.node.mgr.purge_backend(ns), *FAILURES)
            self.w.rule = old
            if failing == "delete_bundle":
                # Everything else is done.
                self.rec.check(not outcome.ok, "failure to delete the bundle not reported")
                self.w.bundles.pop((ns,) + self.own, None)
            elif not outcome.ok:
                disk = {k: v for k, v in self.node.disk.items() if k.startswith("/toy/") or k.startswith("/queue")}
                self.rec.check(disk == {k: v for k, v in now.items() if k.startswith("/toy/") or k.startswith("/queue")},
                               "data deleted although the device could not be taken off the list", ns=ns)
                failing = None
            self.rec.count("failed_purges")
        if failing is None:
            self.w.call(self.node.mgr.purge_backend(ns))
        self.node.namespaces = [n for n in self.node.namespaces if n != ns]
        self.nss = [n for n in self.nss if n != ns]
        now = {k: v for k, v in self.node.disk.items() if f"/{ns}/" in k or k.endswith(f"/{ns}")}
        if loaded:
            self.rec.check(not now, "offline data of a purged backend left behind", ns=ns, keys=sorted(now))
            self.forget_own(ns)
            self.pending = {p for p in self.pending if p[0] != ns}
            self.rec.count("backends_purged")
            self.rec.count("purged_entries", len(offline))
        else:
            self.rec.check(now == offline, "offline data of a backend that is not loaded changed", ns=ns)
            self.rec.count("unloaded_backends_purged")
        self.compare(before, {ns}, "purging a backend")
        self.rec.sig("purge", ns, loaded, len(offline) > 3)


    def interrupt_purge(self, ns):
        """The process dies during the purge, and the application loads the same backends again to repeat it."""
        rng, listed_again = self.rng, False
        while rng.random() < 0.3:
            at, when = rng.randrange(0, 16), rng.choice(("before", "after"))
            self.w.plan = lambda index, _node, op, _info: (when, Crash()) if index == at else None
            outcome = self.w.crashing(self.node.mgr.purge_backend(ns))
            self.w.plan = None
            if outcome.ok:
                # (less to do than expected; it wasn't meant to be gone for good yet)
                self.rec.count("purged_completely_before")
            server = dict(self.w.lists.get((ns, self.own[0]), {}))
            active = [json.loads(self.node.disk[f"/devices/{self.own[0]}/{self.own[1]}/{what}"])
                      for what in ("namespaces", "active")]
            self.node.start()
            self.synchronizing = True
            if ns in self.nss and not all(ns in known for known in active):
                self.lists.update(ns, self.own[0], server, self.own)
                listed_again = True
            self.rec.count("interrupted_backend_purges")
        return listed_again


class PurgeJidScenario(DecryptScenario):
    def __init__(self, rng, rec, **kwargs):
        self.orphans = set()
        super().__init__(rng, rec, jids=("bob@x", "bob@x", "bob@x.org", "ob@x", "BOB@x", "alice@x"), **kwargs)

    def interrupt_update(self, jid):
        """A device list update with new devices that doesn't get to its end, and isn't repeated before the purge."""
        rng, w, node = self.rng, self.w, self.node
        ns = rng.choice(self.nss)
        new = {rng.randrange(10 ** 8, 2 * 10 ** 8): rng.choice((None, "phone")) for _ in range(rng.randint(1, 3))}
        at, crash, when = rng.randrange(0, 12), rng.random() < 0.5, rng.choice(("before", "after"))
        w.plan = lambda index, _node, op, _info: (
            None if index != at else (when, Crash() if crash else failure_for(op)))
        update = {**w.lists.get((ns, jid), {}), **new}
        outcome = w.crashing(node.mgr.update_device_list(ns, jid, dict(update)), *FAILURES)
        w.plan = None
        if not outcome.ok and crash:
            node.start()
            self.synchronizing = True
        listed = json.loads(node.disk.get(f"/devices/{jid}/list", "[]"))
        self.orphans |= {f"/devices/{jid}/{dev}/{what}" for dev in update if dev not in listed
                         for what in ("active", "label", "namespaces")}
        self.rec.count("interrupted_updates" if not outcome.ok else "updates_not_interrupted")

    def do_trust(self):
        # Only keys on record (trust in keys that were never seen can't be found again)
        self.refresh_known()
        if self.ik:
            (jid, _), key = self.rng.choice(sorted(self.ik.items()))
            self.set_trust(jid, key, self.rng.choice(("T", "D", "U", "U2", "strange", "T")))

    def do_purge_jid(self):
        rng, w, node, rec = self.rng, self.w, self.node, self.rec
        self.refresh_known()
        # (trust in a key that isn't on record for the account any more would not be found, see the property)
        jid = rng.choice([p.jid for p in self.peers if p.jid != "alice@x"] + ["nobody@x", "bob", "x"])
        disk = dict(node.disk)
        lists, bundles, sent = {k: dict(v) for k, v in w.lists.items()}, dict(w.bundles), len(w.sent)
        infos = {j: node.info(j) for j in sorted(self.lists.dev) if j != jid}
        disk = dict(node.disk)
        self.refresh_known()
        interrupted = 0
        if rng.random() < 0.25:
            self.interrupt_update(jid)
            disk = dict(node.disk)
        self.orphans -= {f"/devices/{jid}/{dev}/{what}" for dev in json.loads(disk.get(f"/devices/{jid}/list", "[]"))
                         for what in ("active", "label", "namespaces")}
        while rng.random() < 0.45 and interrupted < 3:
            at, crash, when = rng.randrange(0, 30), rng.random() < 0.5, rng.choice(("before", "after"))
            hit = []

            def plan(index, _node, op, _info, at=at, crash=crash, when=when, hit=hit):
                if index == at:
                    hit.append(op)
                    return when, Crash() if crash else failure_for(op)
                return None
            w.plan = plan
            w.crashing(node.mgr.purge_bare_jid(jid), *FAILURES)
            w.plan = None
            if hit:
                interrupted += 1
                rec.count("interrupted_purges")
                if crash:
                    node.start()
                    self.synchronizing = True
        w.call(node.mgr.purge_bare_jid(jid))
        self.check_gone(jid, disk)
        rec.check({k: dict(v) for k, v in w.lists.items()} == lists and w.bundles == bundles and len(w.sent) == sent,
                  "purging an account changed something online")
        self.lists.dev.pop(jid, None)
        self.trust = {k: v for k, v in self.trust.items() if k[0] != jid}
        self.ik = {k: v for k, v in self.ik.items() if k[0] != jid}
        self.pending = {p for p in self.pending if p[1] != jid}
        for other, known in infos.items():
            rec.check(node.info(other) == known, "information about another account changed", jid=other)
        rec.check(not node.info(jid), "devices of a purged account still reported")
        rec.count("accounts_purged")
        rec.sig("purge", jid, sum(jid in tokens(k) for k in disk), interrupted)
        if rng.random() < 0.6 and any(p.jid == jid for p in self.peers):
            # Contact afresh
            self.feed(jid)
            for dev, info in node.info(jid).items():
                if (jid, dev) not in self.bundle_fail:
                    rec.check(info.trust_level_name == node.undecided, "trust survived purging the account",
                              device=(jid, dev), trust=info.trust_level_name)
                    rec.check(self.lists.matches(info), "device recorded wrongly after purging", device=(jid, dev))
                    rec.count("contacted_afresh")
            self.refresh_known([jid])
            peer = rng.choice([p for p in self.peers if p.jid == jid])
            sent = self.compose(peer, rng.choice(peer.namespaces), fresh=True)
            if sent is not None:
                self.pool.remove(sent)
                self.deliver(sent)

    def check_gone(self, jid, before):
        rec, now = self.rec, self.node.disk
        left = sorted(k for k in now if jid in tokens(k) and k not in self.orphans)
        if any(jid in tokens(k) for k in now) and not left:
            rec.known_finding("K2", "purge_bare_jid leaves the entries of devices behind which an interrupted "
                                    "update_device_list stored without adding them to the list of known devices")
        rec.check(not left, "purged account still mentioned in the storage", keys=left)
        for key, text in now.items():
            rec.check(not mentions(json.loads(text), jid), "purged account still mentioned in the storage", key=key,
                      value=text)
        for key in set(before) | set(now):
            if jid in tokens(key):
                continue
            old = json.loads(before[key]) if key in before else None
            new = json.loads(now[key]) if key in now else None
            expected = without(old, jid)
            if key not in now:
                rec.check(isinstance(old, list) and mentions(old, jid) and not expected,
                          "unrelated data deleted by purging an account", key=key, value=old)
                continue
            rec.check(key in before and canonical(new) == canonical(expected),
                      "unrelated data changed by purging an account", key=key, before=old, after=new)
