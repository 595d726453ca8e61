"""
A proxy between the application and the library which watches the server operations each call makes: only what the call has to
fetch or publish in its situation is allowed, each of it once.
"""
import inspect
import json
from collections import Counter

from .world import Node

NETWORK = ("download_bundle", "upload_bundle", "delete_bundle", "download_list", "upload_list", "send")


class Call:
    """The server operations of one call, judged one by one at the time they are attempted."""

    def __init__(self, rec, node, name, allowed, session_building=lambda ns, jid, dev: False, missing=None):
        self.rec, self.node, self.name = rec, node, name
        self.allowed = Counter(allowed)
        self.session_building = session_building
        self.missing = missing      # does the own device list lack this device? (namespace -> bool)
        self.own = json.loads(node.disk["/own_device_id"]) if "/own_device_id" in node.disk else None
        self.mark = len(node.world.events)
        self.attempts = Counter()
        self.previous = node.world.gate
        node.world.gate = self.gate

    def known(self, jid, dev):
        return f"/devices/{jid}/{dev}/identity_key" in self.node.disk

    def lacking(self, ns):
        own = json.loads(self.node.disk["/own_device_id"])
        return own not in self.node.world.lists.get((ns, self.node.jid), {})

    async def gate(self, op, info):
        if op not in NETWORK:
            return
        rec, node = self.rec, self.node
        if op == "send":
            (ekm, _), = info["message"].keys
            what = (op, info["message"].namespace, info["jid"], ekm.device_id)
        elif op == "download_bundle":
            what = (op, info["ns"], info["jid"], info["dev"])
        elif op == "download_list":
            what = (op, info["ns"], info["jid"])
        else:
            what = (op, info["ns"])
        self.attempts[what] += 1
        if op == "upload_bundle" and node.world.since(self.mark, "be.rotate"):
            return
        if op == "download_bundle" and (not self.known(info["jid"], info["dev"])
                                        or self.session_building(info["ns"], info["jid"], info["dev"])):
            rec.count("bundles_needed")
            return
        if op == "upload_list" and what not in self.allowed and self.missing is not None:
            rec.check(self.missing(info["ns"]), f"device list published by {self.name} although nothing is missing",
                      ns=info["ns"])
            rec.check(self.attempts[what] == 1, f"device list published repeatedly by {self.name}", what=what)
            return
        rec.check(self.attempts[what] <= self.allowed[what], f"server operation not needed for {self.name}", what=what,
                  attempts=self.attempts[what])
        if op == "upload_bundle" and self.name != "create":
            current = node.world.bundles.get((info["ns"], node.jid, info["dev"]))
            failed = self.name == "ensure_data_consistency" and [
                e for e in node.world.since(self.mark, "net_fail") + node.world.since(self.mark, "fault")
                if e.d["op"] == "download_bundle"]
            rec.check(failed or current is None or current != info["bundle"], "equal bundle published again", ns=info["ns"])

    def done(self):
        rec, world = self.rec, self.node.world
        world.gate = self.previous
        rec.count("call:" + self.name)
        rec.count("server_operations", sum(self.attempts.values()))
        rec.count("calls_without_network", not self.attempts)
        if not world.since(self.mark, "trust_decision"):
            twice = [k for k, n in Counter((e.d["ns"], e.d["jid"], e.d["dev"]) for e in
                                           world.since(self.mark, "download_bundle")).items() if n > 1]
            rec.check(not twice, f"bundle downloaded twice by {self.name}", bundles=twice)
        often = [k for k, n in self.attempts.items() if k[0] == "download_bundle" and n > 3]
        rec.check(not often, f"bundle downloads repeated by {self.name}", bundles=often)


class Traffic:
    def __init__(self, rec):
        self.rec = rec

    def wrap(self, mgr, node):
        return Proxy(self.rec, mgr, node)

    async def create(self, cls, args, node):
        disk, jid = node.disk, node.jid
        first = "/own_device_id" not in disk
        active = set()
        if not first:
            # (an interrupted purge may have left only one of both)
            where = f"/devices/{jid}/{json.loads(disk['/own_device_id'])}/"
            active = set(json.loads(disk[where + "namespaces"])) & set(json.loads(disk[where + "active"]))
        loaded = {b.namespace for b in args["backends"]}
        allowed = Counter()
        for ns in loaded - active:
            allowed[("download_list", ns, jid)] = 2 if first else 1
            allowed[("upload_bundle", ns)] = allowed[("upload_list", ns)] = 1
        for ns in active - loaded:
            allowed[("download_list", ns, jid)] = 1
            allowed[("upload_list", ns)] = allowed[("delete_bundle", ns)] = 1
        call = Call(self.rec, node, "create", allowed)
        try:
            mgr = await cls.create(**args)
        finally:
            call.done()
        if loaded == active:
            self.rec.count("loaded_again")
        return mgr


class Proxy:
    def __init__(self, rec, mgr, node):
        self._rec, self._mgr, self._node = rec, mgr, node

    def _call(self, name, args):
        node = self._node
        loaded = [b.namespace for b in node.backends]
        own, disk = node.jid, node.disk
        dev_id = json.loads(disk["/own_device_id"])
        allowed, building, missing = {}, lambda ns, jid, dev: False, None
        if name == "update_device_list":
            missing = lambda ns: ns == args[0] and args[1] == own and dev_id not in args[2]
            args = (args[0], args[1], dict(args[2]))
        elif name in ("refresh_device_list", "refresh_device_lists"):
            jid = args[-1]
            allowed = {("download_list", ns, jid): 1 for ns in (args[:1] if len(args) == 2 else loaded)}
            missing = lambda ns: jid == own and call.lacking(ns)
        elif name == "set_own_label":
            allowed = {("download_list", ns, own): 1 for ns in loaded}
            allowed.update({("upload_list", ns): 1 for ns in loaded})
        elif name == "encrypt":
            building = lambda ns, jid, dev: f"/toy/{ns}/session/{jid}/{dev}" not in disk
        elif name == "replace_sessions":
            jid, dev = args[0].bare_jid, args[0].device_id
            for ns in loaded:
                if f"/toy/{ns}/session/{jid}/{dev}" in disk:
                    allowed[("download_bundle", ns, jid, dev)] = allowed[("send", ns, jid, dev)] = 1
        elif name == "decrypt":
            message, = args
            sender = (message.bare_jid, message.device_id)
            listed = message.device_id in json.loads(disk.get(f"/devices/{sender[0]}/list", "[]"))
            known = listed and f"/devices/{sender[0]}/{sender[1]}/identity_key" in disk
            kex = any(k[1] is not None and (k[0].bare_jid, k[0].device_id) == (own, dev_id) for k in message.keys)
            if not known:
                allowed[("download_list", message.namespace, message.bare_jid)] = 1
            if kex:
                allowed[("upload_bundle", message.namespace)] = 1
            allowed[("send", message.namespace) + sender] = 1
            missing = lambda ns: not known and sender[0] == own and ns == message.namespace and call.lacking(ns)
        elif name == "after_history_sync":
            for ns in loaded:
                for jid in json.loads(disk.get(f"/queue/{ns}", "[]")):
                    for dev in json.loads(disk.get(f"/queue/{ns}/{jid}", "[]")):
                        allowed[("send", ns, jid, dev)] = 1
        elif name == "ensure_data_consistency":
            for ns in loaded:
                allowed[("download_list", ns, own)] = allowed[("download_bundle", ns, own, dev_id)] = 1
                allowed[("upload_bundle", ns)] = 1
            missing = lambda ns: call.lacking(ns)
        elif name == "purge_backend":
            allowed = {("download_list", args[0], own): 1, ("delete_bundle", args[0]): 1}
            missing = lambda ns: ns == args[0] and not call.lacking(ns)
        call = Call(self._rec, node, name, allowed, building, missing)
        return call

    def __getattr__(self, name):
        attribute = getattr(self._mgr, name)
        if not inspect.iscoroutinefunction(attribute):
            return attribute

        async def run(*args, **kwargs):
            bound = inspect.signature(attribute).bind(*args, **kwargs).args
            call = self._call(name, bound)
            try:
                return await attribute(*args, **kwargs)
            finally:
                call.done()
        return run


def monitored(case):
    def run(rng, rec):
        Node.guard = Traffic(rec)
        try:
            case(rng, rec)
        finally:
            Node.guard = None
    return run
