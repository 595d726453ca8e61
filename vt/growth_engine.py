"""
Does use accumulate state? A script of operations with the same accounts and devices is repeated; what is in the storage and what the
library holds in memory (everything reachable from the session manager and from the modules of the library) must not keep growing.
"""
import asyncio
import collections
import functools
import gc
import json
import sys
import types

import omemo
from omemo.storage import Storage, StorageException

from .world import NS, Node, Peer, World

ANY = (omemo.OMEMOException, StorageException)
OWN = "alice@x"
CONTAINERS = (dict, list, set, frozenset, tuple, collections.deque)
CODE = (types.FunctionType, types.MethodType, types.CellType, functools.partial, type(functools.lru_cache(lambda: None)), property,
        staticmethod, classmethod)
PACKAGES = ("omemo", "btbv_session_manager")


def of_library(cls):
    return any(base.__module__.split(".")[0] in PACKAGES for base in cls.__mro__)


def in_memory(*roots):
    """The number of elements and characters in what is reachable without leaving the library's objects."""
    queue = collections.deque(roots)
    for name, module in list(sys.modules.items()):
        if name.split(".")[0] in PACKAGES:
            queue.append(vars(module))
    seen, elements = set(), 0
    while queue:
        thing = queue.popleft()
        if id(thing) in seen:
            continue
        seen.add(id(thing))
        if isinstance(thing, (str, bytes, bytearray)):
            elements += len(thing)
        elif isinstance(thing, dict):
            # (What the backends keep in the storage is theirs, also if it is cached.)
            elements += len(thing)
            for key, value in thing.items():
                queue.append(key)
                if not (isinstance(key, str) and key.startswith("/toy/")):
                    queue.append(value)
        elif isinstance(thing, CONTAINERS):
            elements += len(thing)
            queue.extend(gc.get_referents(thing))
        elif isinstance(thing, type):
            if of_library(thing) and thing.__module__.split(".")[0] in PACKAGES + ("vt",):
                queue.append(dict(vars(thing)))
        elif isinstance(thing, CODE):
            if (getattr(thing, "__module__", None) or "omemo").split(".")[0] in PACKAGES:
                queue.extend(gc.get_referents(thing))
        elif of_library(type(thing)) and (isinstance(thing, (omemo.SessionManager, Storage))
                                          or type(thing).__module__.split(".")[0] in PACKAGES):
            queue.extend(gc.get_referents(thing))
        elif type(thing).__module__ in ("builtins", "collections", "weakref", "functools") and not isinstance(thing, types.ModuleType):
            queue.extend(x for x in gc.get_referents(thing) if isinstance(x, CONTAINERS))
    return elements


class Growth:
    def __init__(self, rng, rec, endless):
        """With `endless`, the history synchronization never ends."""
        self.rng, self.rec, self.endless = rng, rec, endless
        self.w = w = World(rng)
        w.budget = 10 ** 6
        self.nss = rng.sample(NS, rng.randint(1, 2))
        self.node = Node(w, OWN, self.nss, cache=rng.random() < 0.7, threshold=rng.choice((25, 99)), undecided="T0", label="a")
        self.node.start(live=True)
        self.me = (OWN, self.node.own().device_id)
        self.peers = []
        for i in range(rng.randint(1, 4)):
            jid = rng.choice((OWN, "bob@x", "Bob@x", "carol@x"))
            self.peers.append(Peer(w, jid, 100 + i, rng.sample(self.nss, rng.randint(1, len(self.nss))), label="x", pre_keys=60))
        self.jids = sorted({p.jid for p in self.peers})
        for jid in self.jids:
            self.node.feed_lists(jid)
        self.sent = 0
        self.old = []
        names = [n[3:] for n in dir(self) if n.startswith("do_")]
        if endless:
            self.node.mgr.before_history_sync()
            names = ["incoming"] * 4 + [n for n in names if n not in ("history", "offline", "backends")]
        self.script = [(rng.choice(names), rng.getrandbits(32)) for _ in range(rng.randint(2, 9))]
        self.restarts = rng.random() < 0.3 and not endless

    def api(self, coro):
        outcome = self.w.call(coro, *ANY)
        self.rec.count("calls_ok" if outcome.ok else "calls_failed")
        return outcome

    # -- the operations (each with its own generator, the same in all rounds) --------------------------------
    def do_incoming(self, rng):
        p = rng.choice(self.peers)
        ns = rng.choice(p.namespaces)
        fresh = rng.random() < 0.3
        if (ns,) + self.me not in self.w.bundles:
            return   # (The bundle couldn't be published.)
        for i in range(rng.choice((1, 2, 55))):
            message, _ = p.send(ns, [self.me], rng.choice((b"hello", None)), fresh=fresh and i == 0)
            outcome = self.api(self.node.mgr.decrypt(message))
            self.rec.count("decrypted", outcome.ok)
            self.old = self.old[-5:] + [message]

    def do_outgoing(self, rng):
        to = rng.sample(self.jids, rng.randint(1, len(self.jids)))
        outcome = self.api(self.node.mgr.encrypt(frozenset(to), {ns: b"text" for ns in self.node.namespaces}))
        if outcome.ok:
            for message in outcome.value[0]:
                self.deliver(message)
            self.rec.count("encrypted")

    def do_refused(self, rng):
        for message in self.old[-rng.randint(1, 4):]:
            how = rng.choice(("repeated", "namespace", "device", "account", "not for us", "damaged"))
            if how == "namespace":
                message = message._replace(namespace="urn:unknown")
            elif how == "device":
                message = message._replace(device_id=rng.choice((4711, 4712)))
            elif how == "account":
                message = message._replace(bare_jid=rng.choice(("mallory@x", "nobody@x")))
            elif how == "not for us":
                message = message._replace(keys=frozenset())
            elif how == "damaged":
                message = message._replace(keys=frozenset((ekm.clone(broken=True), kex) for ekm, kex in message.keys))
            outcome = self.api(self.node.mgr.decrypt(message))
            self.rec.count("refused", not outcome.ok)

    def do_distrusted(self, rng):
        """Messages of a device that isn't trusted, and for one that can't be."""
        p = rng.choice(self.peers)
        level = rng.choice(("D", "D", "U", "anything"))
        self.api(self.node.mgr.set_trust(p.jid, p.identity_key, level))
        for step in rng.sample(("in", "in", "out", "replay"), rng.randint(1, 4)):
            if step == "in":
                self.do_incoming(rng)
            elif step == "out":
                self.do_outgoing(rng)
            else:
                self.do_refused(rng)
        self.api(self.node.mgr.set_trust(p.jid, p.identity_key, "T"))

    def do_impossible(self, rng):
        """Calls that can't succeed."""
        mgr, texts = self.node.mgr, {ns: b"text" for ns in self.node.namespaces}
        p = rng.choice(self.peers)
        ns = rng.choice(p.namespaces)
        for kind in rng.sample(("nobody", "order", "bundle", "identity", "list", "damaged"), rng.randint(1, 4)):
            if kind == "nobody":
                self.api(mgr.encrypt(frozenset({rng.choice(("nobody@x", "noone@x"))}), texts))
            elif kind == "order":
                self.api(mgr.encrypt(frozenset({p.jid}), texts, ["urn:unknown"]))
            elif kind == "list":
                self.api(mgr.update_device_list("urn:unknown", p.jid, {5: None}))
            elif kind == "damaged" and (ns,) + self.me in self.w.bundles:
                message, _ = p.send(ns, [self.me], b"hello", fresh=rng.random() < 0.5, store=False)
                self.api(mgr.decrypt(message._replace(
                    keys=frozenset((ekm.clone(broken=True), kex) for ekm, kex in message.keys))))
            elif kind in ("bundle", "identity"):
                p.publish_bundle(ns, **({"good_signature": False} if kind == "bundle" else {"identity_key": bytes(32)}))
                info = self.node.info(p.jid).get(p.dev)
                if info is not None:
                    self.api(mgr.replace_sessions(info))
                self.api(mgr.encrypt(frozenset({p.jid}), texts))
                p.publish_bundle(ns)

    def do_lists(self, rng):
        jid, ns = rng.choice(self.jids), rng.choice(self.node.namespaces)
        real = dict(self.w.lists.get((ns, jid), {}))
        for _ in range(rng.randint(1, 3)):
            changed = {dev: rng.choice(("x", "other label", None)) for dev in real if rng.random() < 0.7}
            if jid == OWN:
                changed[self.me[1]] = "a"
            self.api(self.node.mgr.update_device_list(ns, jid, changed))
        self.api(self.node.mgr.update_device_list(ns, jid, real))

    def do_refresh(self, rng):
        self.api(self.node.mgr.refresh_device_lists(rng.choice(self.jids)))
        self.api(self.node.mgr.get_device_information(rng.choice(self.jids + ["nobody@x"])))

    def do_trust(self, rng):
        p = rng.choice(self.peers)
        for level in ("D", "anything", rng.choice(("T", "T0"))):
            self.api(self.node.mgr.set_trust(p.jid, p.identity_key, level))

    def do_label(self, rng):
        for label in (rng.choice((None, "b", "c")), "a"):
            self.api(self.node.mgr.set_own_label(label))

    def do_replace(self, rng):
        p = rng.choice(self.peers)
        info = self.node.info(p.jid).get(p.dev)
        if info is not None:
            self.api(self.node.mgr.replace_sessions(info))
            self.api(self.node.mgr.get_sending_chain_length(info))

    def do_consistency(self, rng):
        if rng.random() < 0.5:
            self.w.bundles.pop((rng.choice(self.node.namespaces),) + self.me, None)
        self.api(self.node.mgr.ensure_data_consistency())

    def do_history(self, rng):
        self.node.mgr.before_history_sync()
        for _ in range(rng.randint(1, 3)):
            rng.choice((self.do_incoming, self.do_incoming, self.do_refused, self.do_outgoing, self.do_lists))(rng)
        if rng.random() < 0.4:
            self.w.rule = lambda _n, op, _i: omemo.MessageSendingFailed("offline") if op == "send" else None
            self.api(self.node.mgr.after_history_sync())
            self.w.rule = None
            self.node.mgr.before_history_sync()
        self.api(self.node.mgr.after_history_sync())

    def do_offline(self, rng):
        """Some operations while nothing (or not everything) works."""
        kinds = {"send": omemo.MessageSendingFailed, "upload_bundle": omemo.BundleUploadFailed,
                 "download_bundle": omemo.BundleDownloadFailed, "download_list": omemo.DeviceListDownloadFailed,
                 "upload_list": omemo.DeviceListUploadFailed}
        failing = rng.sample(sorted(kinds), rng.randint(1, 5))
        self.w.rule = lambda _n, op, _i: kinds[op]("offline") if op in failing else None
        for _ in range(rng.randint(1, 3)):
            rng.choice((self.do_incoming, self.do_outgoing, self.do_refresh, self.do_label, self.do_consistency, self.do_replace,
                        self.do_time, self.do_distrusted))(rng)
        self.w.rule = None
        self.api(self.node.mgr.set_own_label("a"))

    def do_purge(self, rng):
        others = [jid for jid in self.jids if jid != OWN]
        if others:
            jid = rng.choice(others)
            self.api(self.node.mgr.purge_bare_jid(jid))
            self.api(self.node.mgr.refresh_device_lists(jid))

    def do_backends(self, rng):
        if len(self.nss) > 1:
            ns = rng.choice(self.nss)
            if rng.random() < 0.5:
                self.api(self.node.mgr.purge_backend(ns))
            self.node.start([n for n in self.nss if n != ns], live=rng.random() < 0.5)
            self.node.start(self.nss, live=True)

    def do_time(self, rng):
        failing = rng.random() < 0.3
        if failing:
            self.w.rule = lambda _n, op, _i: omemo.BundleUploadFailed("offline") if op == "upload_bundle" else None
        self.w.advance(rng.choice((60, 86400, 9 * 86400)))
        self.w.rule = None
        self.w.advance(3700)

    def do_cancelled(self, rng):
        """Calls that are given up at some point."""
        mgr, p = self.node.mgr, rng.choice(self.peers)
        ns = rng.choice(p.namespaces)
        for _ in range(rng.randint(1, 3)):
            coro = rng.choice((
                lambda: mgr.encrypt(frozenset({p.jid}), {n: b"text" for n in self.node.namespaces}),
                lambda: mgr.refresh_device_lists(p.jid), mgr.after_history_sync, mgr.ensure_data_consistency,
                lambda: mgr.set_own_label("a"), lambda: mgr.get_device_information(p.jid),
                lambda: mgr.decrypt(p.send(ns, [self.me], b"hello")[0]) if (ns,) + self.me in self.w.bundles
                else mgr.get_own_device_information(),
            ))()
            steps = rng.randint(1, 60)

            async def given_up(coro=coro, steps=steps):
                task = asyncio.ensure_future(coro)
                for _ in range(steps):
                    await asyncio.sleep(0)
                task.cancel()
                try:
                    await task
                except asyncio.CancelledError:
                    self.rec.count("cancelled")
            self.w.yields = True
            self.api(given_up())
            self.w.yields = False
            if self.endless:
                mgr.before_history_sync()

    # ---------------------------------------------------------------------------------------------------------
    def deliver(self, message):
        for p in self.peers:
            if message.namespace in p.namespaces and p.key_for_me(message):
                try:
                    p.receive(message)
                except (omemo.OMEMOException, AssertionError):
                    self.rec.count("unreadable_for_peers")

    def round(self):
        for name, seed in self.script:
            getattr(self, "do_" + name)(type(self.rng)(seed))
            for _, message, _ in self.w.sent[self.sent:]:
                self.deliver(message)
            self.sent = len(self.w.sent)
        for jid in self.jids:
            self.node.feed_lists(jid)
            self.node.info(jid)
        if not self.endless:
            self.api(self.node.mgr.after_history_sync())
        if self.restarts:
            self.node.start(live=True)
            for jid in self.jids:
                self.node.info(jid)

    def measure(self):
        disk = self.node.disk
        core = {k: v for k, v in disk.items() if not k.startswith("/toy/")}
        # (What a process that ended left behind in the event loop isn't there in reality.)
        fresh_process = self.restarts or any(name == "backends" for name, _ in self.script)
        return {
            "entries in the storage": len(disk),
            "characters in the storage": sum(len(k) + len(v) for k, v in core.items()),
            "elements in memory": in_memory(self.node.mgr, self.node.storage),
            "background tasks": 0 if fresh_process else len(asyncio.all_tasks(self.w.loop)),
            "hidden pre keys": 0 if self.endless else sum(len(self.node.pre_keys(ns)[1]) for ns in self.nss),
            "published devices": sum(len(v) for v in self.w.lists.values()),
            "published bundles": len(self.w.bundles),
        }

    def rounds(self, number):
        for _ in range(number):
            self.round()
            queued = [k for k in self.node.disk if k.startswith("/queue/")]
            self.rec.check(not queued or self.endless, "responses stay queued although everything was sent", queued=queued)
        return self.measure()

    def run(self):
        rec, window = self.rec, 11
        seen = [self.rounds(3), self.rounds(window)]
        rec.count("measured", len(seen[1]))
        rec.count("unchanged", sum(value == seen[0][what] for what, value in seen[1].items()))
        growing = set(seen[1])
        while True:
            # Some things may grow up to a limit; what grows in one window after the other has none.
            growing = {what for what in growing if seen[-1][what] - seen[-2][what] >= window * 0.8}
            if not growing:
                break
            rec.check(len(seen) < 6, "something keeps growing", what=sorted(growing), measured=[
                {what: s[what] for what in growing} for s in seen], rounds=window, script=[s[0] for s in self.script])
            seen.append(self.rounds(window))
            rec.count("looked_again")
        rec.sig(self.script, sorted(seen[-1].items()))
        rec.sample({"script": [s[0] for s in self.script], "measured": seen})


def growth_case(rng, rec, endless=False):
    Growth(rng, rec, endless).run()
