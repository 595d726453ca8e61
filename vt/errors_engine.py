"""
Failures raised by the application's own code (network, storage, trust callbacks) while an API call is running: they have to
reach the caller as the very exception that was raised, except where they are documented to be collected or tolerated.
"""
import asyncio

import omemo
from omemo.session import Initiation
from omemo.storage import StorageException

from .rt import Violation
from .world import Crash, NS, Node, Outcome, Peer, Runaway, World, level_of
from .loop import Stuck

DOCUMENTED = {
    "load": (StorageException,), "store": (StorageException,), "delete": (StorageException,),
    "upload_bundle": (omemo.BundleUploadFailed,), "download_bundle": (omemo.BundleDownloadFailed, omemo.BundleNotFound),
    "delete_bundle": (omemo.BundleDeletionFailed,), "upload_list": (omemo.DeviceListUploadFailed,),
    "download_list": (omemo.DeviceListDownloadFailed,), "send": (omemo.MessageSendingFailed,),
    "evaluate": (omemo.UnknownTrustLevel,), "decide": (omemo.TrustDecisionFailed,),
}
OTHER = (Exception, KeyError, ValueError, RuntimeError, OSError, TypeError, AttributeError, asyncio.TimeoutError,
         omemo.OMEMOException, omemo.NoEligibleDevices)
# What each operation does with the outside world; storage is used by all of them
USES = {
    "create": ("upload_bundle", "upload_list", "download_list"),
    "add": ("upload_bundle", "upload_list", "download_list"),
    "remove": ("delete_bundle", "upload_list", "download_list"),
    "purge": ("delete_bundle", "upload_list", "download_list"),
    "consistency": ("download_list", "upload_list", "upload_bundle", "download_bundle"),
    "push": ("upload_list",),
    "refresh": ("download_list", "upload_list"),
    "label": ("download_list", "upload_list"),
    "info": ("download_bundle",),
    "own_info": ("download_bundle",),
    "replace": ("download_bundle", "send"),
    "chain": (), "trust": (), "purge_jid": (),
    "encrypt": ("download_bundle", "download_bundle", "evaluate", "decide"),
    "decrypt": ("download_list", "download_bundle", "upload_bundle", "send", "evaluate"),
    "after_sync": ("send", "send"),
}
# Tolerated or collected, as documented; everything else is forwarded
TOLERATED = {(api, "download_bundle") for api in ("consistency", "info", "own_info", "decrypt", "encrypt")}
COLLECTED = {("replace", kind) for kind in ("download_bundle", "send", "load", "store", "delete")}


def make_exception(rng, base):
    if base is omemo.NoEligibleDevices:
        return omemo.NoEligibleDevices(frozenset({"somebody@else"}), "raised by the application")
    if rng.random() < 0.3:
        return base(f"raised by the application {rng.random()}")

    class Own(base):
        """The application's own exception with its own signature."""
        def __init__(self, code, *, retry):  # pylint: disable=super-init-not-called
            Exception.__init__(self, code)
            self.retry = retry
    return Own(rng.randrange(10 ** 6), retry=rng.random())


class Errors:
    def __init__(self, rng, rec):
        self.rng, self.rec = rng, rec
        self.w = w = World(rng)
        self.nss = rng.sample(NS, rng.choice((1, 2, 2, 3)))
        self.node = node = Node(w, "alice@x", self.nss[:rng.choice((1, len(self.nss)))], cache=rng.random() < 0.5)
        self.fault = None   # [kind, calls left until it happens, when, exception, hit information]
        self.task = None
        node.decide = self.decide
        errors = self

        async def evaluate(_self, device):
            errors.tick("evaluate", {"jid": device.bare_jid, "dev": device.device_id})
            return level_of(device.trust_level_name)
        node.class_attributes = {"_evaluate_custom_trust_level": evaluate}
        w.plan = self.plan
        self.created = False

    # -- injecting ----------------------------------------------------------------------------------------------------
    def due(self, kind, info):
        fault = self.fault
        if fault is None or fault[0] != kind or fault[4] is not None or asyncio.current_task() is not self.task:
            return False
        fault[1] -= 1
        if fault[1] >= 0:
            return False
        fault[4] = dict(info)
        if "dev" in info:  # Whether the identity key of the device is known at that time
            fault[4]["known"] = f"/devices/{info['jid']}/{info['dev']}/identity_key" in self.node.disk
        return True

    def plan(self, _index, _node, op, info):
        return (self.fault[2], self.fault[3]) if self.due(op, info) else None

    def tick(self, kind, info):
        if self.due(kind, info):
            raise self.fault[3]

    async def decide(self, mgr, undecided, _identifier):
        if self.rng.random() < 0.5:
            self.tick("decide", {})
        for device in undecided:
            await mgr.set_trust(device.bare_jid, device.identity_key, "T")
        self.tick("decide", {})

    def run(self, coroutine):
        async def main():
            self.task = asyncio.current_task()
            return await coroutine
        self.w.ops, self.w.instant = 0, (None, 0)
        try:
            return Outcome(self.w.complete(main()))
        except (Violation, Crash):
            raise
        except (Stuck, Runaway) as e:
            raise Violation(f"the operation never finishes: {e!r}") from None
        except Exception as e:  # pylint: disable=broad-except
            return Outcome(exc=e)
        finally:
            self.task = None

    # -- the attempt --------------------------------------------------------------------------------------------------
    def attempt(self, api, make, allowed=(), repeat=True):
        rng, rec = self.rng, self.rec
        kind = rng.choice(USES[api] * 3 + ("load", "store", "delete"))
        documented = rng.random() < 0.65
        base = rng.choice(DOCUMENTED[kind] if documented else OTHER)
        exc = make_exception(rng, base)
        nth = rng.choice((0, 0, 0, 1, 1, 2, 3, 5) if kind not in ("load", "store", "delete") else range(10))
        self.fault = fault = [kind, nth, "before" if kind == "download_bundle" else rng.choice(
            ("before", "before", "after")), exc, None]
        outcome = self.run(make())
        self.fault = None
        info = fault[4]
        where = dict(api=api, kind=kind, raised=repr(exc), got=repr(outcome.exc))
        if info is None:
            rec.check(outcome.ok or isinstance(outcome.exc, allowed), "failed without any failure", **where)
            rec.count("nothing_raised")
            return outcome
        if kind == "download_bundle" and api == "replace" and not info["known"]:
            api = "info"  # While gathering information about the other devices
        tolerated = documented and (api, kind) in TOLERATED
        if issubclass(base, omemo.OMEMOException) and (api, kind) in COLLECTED:
            if kind in ("load", "store", "delete"):
                # Before or while working on a particular backend
                rec.check(outcome.exc is exc or (outcome.ok and [e for e in outcome.value.values() if e is exc]),
                          "a storage failure was neither raised nor returned", **where)
            else:
                rec.check(outcome.ok and outcome.value.get(info["ns"] if "ns" in info else info["message"].namespace) is exc
                          and len(outcome.value) == 1, "failure not returned for its backend", **where, value=outcome.value)
            rec.count("collected")
        elif tolerated and api == "encrypt" and info["known"]:
            # Needed to build a session: reported next to the successful ones
            if isinstance(outcome.exc, omemo.NoEligibleDevices) and outcome.exc is not exc:
                rec.count("no_eligible_devices")
            else:
                rec.check(outcome.ok, "a failing bundle download prevented the encryption for others", **where)
                errors = [e for e in outcome.value[1] if e.exception is exc]
                rec.check(len(errors) == 1 and len(outcome.value[1]) == 1 and (
                    errors[0].namespace, errors[0].bare_jid, errors[0].device_id) == (info["ns"], info["jid"], info["dev"]),
                    "failure not returned for its device", **where, errors=outcome.value[1])
            rec.count("collected")
        elif tolerated:
            rec.check(outcome.ok or (isinstance(outcome.exc, allowed) and outcome.exc is not exc),
                      "a failing bundle download is not tolerated", **where)
            rec.check(api != "encrypt" or not outcome.ok or not outcome.value[1], "error without reason", **where)
            rec.count("tolerated")
        else:
            rec.check(not outcome.ok, "an exception raised by the application was swallowed", **where)
            rec.check(outcome.exc is exc or (type(outcome.exc) is type(exc) and outcome.exc.args == exc.args
                                             and vars(outcome.exc) == vars(exc)),
                      "another exception than the one raised by the application arrived", **where)
            rec.count("forwarded_documented" if documented else "forwarded_other")
        rec.count(f"{api}:{kind}")
        rec.sig(api, kind, base.__name__, fault[2], nth)
        rec.sample({"api": api, "callback": kind, "raised": repr(exc), "outcome": repr(outcome.exc or outcome.value)[:120]})
        if repeat and not outcome.ok:
            again = self.run(make())
            rec.check(again.ok or isinstance(again.exc, allowed), "repeating the operation fails", **where,
                      again=repr(again.exc))
            rec.count("repeated")
            return again
        return outcome

    # -- operations ---------------------------------------------------------------------------------------------------
    def do_create(self):
        rng, w = self.rng, self.w
        for ns in self.nss:
            if rng.random() < 0.5:
                w.lists[(ns, "alice@x")] = {rng.randrange(1, 9): None}
        self.attempt("create", self.node.create)
        w.settle(4)
        self.start()

    def start(self):
        if self.node.mgr is None:
            self.node.start()
        self.synchronizing = self.node.gen is not None and not getattr(self.node.gen, "live", False)
        if self.rng.random() < 0.7:
            self.leave_sync()
        self.own = ("alice@x", self.node.own().device_id)

    def leave_sync(self):
        self.w.call(self.node.mgr.after_history_sync())
        self.node.gen.live = True
        self.synchronizing = False

    def do_backends(self):
        have, rest = self.node.namespaces, [n for n in self.nss if n not in self.node.namespaces]
        if rest and (len(have) == 1 or self.rng.random() < 0.5):
            new, api = have + [self.rng.choice(rest)], "add"
        elif len(have) > 1:
            new, api = [n for n in have if n != self.rng.choice(have)] or have[:1], "remove"
            if len(new) != len(have) - 1:
                new = have[1:]
        else:
            return
        # A failing deletion of the bundle is reported once, and not repeated the next time
        self.attempt(api, lambda: self.node.create(new))
        self.w.settle(4)
        self.start()

    def do_purge(self):
        if len(self.node.namespaces) < 2:
            return
        ns = self.rng.choice(self.node.namespaces)
        outcome = self.attempt("purge", lambda: self.node.mgr.purge_backend(ns))
        if outcome.ok or ns not in self.loaded():
            self.node.namespaces = [n for n in self.node.namespaces if n != ns]
        self.node.start(self.node.namespaces)
        self.start()

    def loaded(self):
        return [b.namespace for b in self.node.backends]

    def do_consistency(self):
        rng, w = self.rng, self.w
        for ns in self.node.namespaces:
            if rng.random() < 0.5:
                w.lists.get((ns, "alice@x"), {}).pop(self.own[1], None)
            if rng.random() < 0.5:
                w.bundles.pop((ns,) + self.own, None)
        self.attempt("consistency", self.node.mgr.ensure_data_consistency)

    def peer(self):
        rng, w = self.rng, self.w
        jid = rng.choice(("bob@x", "bob@x", "bob@x", "carol@x", "alice@x"))
        dev = rng.randrange(10, 14)
        if (jid, dev) not in self.peers:
            self.peers[(jid, dev)] = Peer(w, jid, dev, rng.sample(self.nss, rng.randint(1, len(self.nss))))
        return self.peers[(jid, dev)]

    def do_push(self):
        rng = self.rng
        jid, ns = self.peer().jid if rng.random() < 0.6 else "alice@x", rng.choice(self.node.namespaces)
        current = dict(self.w.lists.get((ns, jid), {}))
        if jid == "alice@x" and rng.random() < 0.7:
            current.pop(self.own[1], None)
        self.attempt("push", lambda: self.node.mgr.update_device_list(ns, jid, dict(current)))

    def do_refresh(self):
        rng = self.rng
        jid, ns = self.peer().jid, rng.choice(self.node.namespaces)
        if jid == "alice@x":
            self.w.lists.get((ns, jid), {}).pop(self.own[1], None)
        mgr = self.node.mgr
        self.attempt("refresh", rng.choice((lambda: mgr.refresh_device_list(ns, jid), lambda: mgr.refresh_device_lists(jid))))

    def do_label(self):
        label = self.rng.choice((None, "a", ""))
        self.attempt("label", lambda: self.node.mgr.set_own_label(label))

    def do_info(self):
        jid = self.peer().jid
        self.attempt("info", lambda: self.node.mgr.get_device_information(jid))

    def do_own_info(self):
        self.attempt("own_info", self.node.mgr.get_own_device_information)

    def do_trust(self):
        peer = self.peer()
        level = self.rng.choice("TTTDU")
        self.attempt("trust", lambda: self.node.mgr.set_trust(peer.jid, peer.identity_key, level))

    def do_purge_jid(self):
        jid = self.peer().jid
        if jid != "alice@x":
            self.attempt("purge_jid", lambda: self.node.mgr.purge_bare_jid(jid))

    def device(self):
        peer = self.peer()
        connected = [p for (j, d), p in self.peers.items()
                     if any(self.node.toy_session(ns, j, d) is not None for ns in self.node.namespaces)]
        if connected:
            peer = self.rng.choice(connected)
        infos = self.run(self.node.mgr.get_device_information(peer.jid)).value
        return peer, next((d for d in infos if d.device_id == peer.dev), None)

    def first_message(self):
        """Somebody else starts a session."""
        peer = self.peer()
        while not set(peer.namespaces) & set(self.node.namespaces):
            peer = self.peer()
            if self.rng.random() < 0.1:
                peer = Peer(self.w, "bob@x", self.rng.randrange(20, 10 ** 6), self.node.namespaces)
                self.peers[("bob@x", peer.dev)] = peer
        ns = next(n for n in peer.namespaces if n in self.node.namespaces)
        return peer.send(ns, [self.own], b"hi", fresh=True)[0]

    def do_replace(self):
        self.run(self.node.mgr.decrypt(self.first_message()))
        _, device = self.device()
        if device is not None:
            self.attempt("replace", lambda: self.node.mgr.replace_sessions(device), repeat=False)

    def do_chain(self):
        _, device = self.device()
        if device is not None:
            self.attempt("chain", lambda: self.node.mgr.get_sending_chain_length(device))

    def do_encrypt(self):
        rng = self.rng
        jids = frozenset(self.peer().jid for _ in range(rng.choice((1, 1, 2)))) - {"alice@x"}
        texts = {ns: b"hello" for ns in self.node.namespaces}
        self.attempt("encrypt", lambda: self.node.mgr.encrypt(jids, dict(texts)),
                     allowed=(omemo.NoEligibleDevices, omemo.StillUndecided))

    def do_decrypt(self):
        rng, w = self.rng, self.w
        peer = self.peer()
        usable = [ns for ns in peer.namespaces if ns in self.node.namespaces]
        if not usable:
            return
        ns = rng.choice(usable)
        fresh = rng.random() < 0.5 or not peer.has_session(ns, *self.own)
        if not fresh:
            mine, theirs = self.node.toy_session(ns, peer.jid, peer.dev), peer.session(ns, *self.own)
            fresh = mine is None or mine.st["sid"] != theirs.st["sid"] or (
                theirs.initiation is Initiation.ACTIVE and not theirs.confirmed)
        message, _ = peer.send(ns, [self.own], b"hi", fresh=fresh)
        mark = len(w.sent)
        self.attempt("decrypt", lambda: self.node.mgr.decrypt(message), repeat=False,
                     allowed=omemo.OMEMOException)  # Earlier failures may have left outdated bundles
        for _, response, to in w.sent[mark:]:
            if to == peer.jid and peer.key_for_me(response):
                try:
                    peer.receive(response)
                except omemo.OMEMOException:
                    pass  # A session that was lost by the failure

    def do_after_sync(self):
        mgr = self.node.mgr
        mgr.before_history_sync()
        for _ in range(self.rng.randrange(3)):
            peer = self.peer()
            for ns in peer.namespaces:
                if ns in self.node.namespaces:
                    message, _ = peer.send(ns, [self.own], b"hi", fresh=True)
                    self.run(mgr.decrypt(message))
        self.attempt("after_sync", mgr.after_history_sync)
        self.leave_sync()


def errors_case(rng, rec):
    s = Errors(rng, rec)
    s.peers = {}
    s.do_create()
    steps = [m for m in dir(Errors) if m.startswith("do_") and m not in ("do_create", "do_purge", "do_backends")]
    for _ in range(rng.randint(3, 9)):
        step = rng.choice(steps + ["do_encrypt", "do_decrypt", "do_after_sync"] * 2)
        getattr(s, step)()
    if rng.random() < 0.5:
        rng.choice((s.do_purge, s.do_backends))()
