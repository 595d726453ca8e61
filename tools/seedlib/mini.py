"""A small application on top of python-omemo with the real backends: server, storage that can fail, devices."""
import asyncio
import base64
import enum
import json
import os
import sys
import xml.etree.ElementTree as ET

sys.path.insert(0, os.getcwd())
import logging  # noqa: E402
import oldmemo  # noqa: E402
import oldmemo.etree  # noqa: E402
import omemo  # noqa: E402
import twomemo  # noqa: E402
import twomemo.etree  # noqa: E402
from omemo.storage import Just, Nothing, Storage, StorageException  # noqa: E402

assert os.path.realpath(omemo.__file__).startswith(os.path.realpath(os.getcwd())), omemo.__file__
logging.disable(logging.CRITICAL)
TWO, OLD = twomemo.twomemo.NAMESPACE, oldmemo.oldmemo.NAMESPACE


class Crash(BaseException):
    """The process dies."""


class SendFailed(omemo.MessageSendingFailed):
    pass


class Refused(omemo.TrustDecisionFailed):
    pass


class Broken(StorageException):
    pass


class Disk(Storage):
    def __init__(self, data=None, cache=False):
        super().__init__(not cache)
        self.data = {} if data is None else data
        self.hook = lambda op, key: None

    async def _load(self, key):
        self.hook("load", key)
        return Just(json.loads(self.data[key])) if key in self.data else Nothing()

    async def _store(self, key, value):
        self.hook("store", key)
        self.data[key] = json.dumps(value)

    async def _delete(self, key):
        self.hook("delete", key)
        self.data.pop(key, None)


class Net:
    def __init__(self):
        self.lists, self.bundles, self.log = {}, {}, []
        self.hook = lambda op, *args: None
        self.delay = 0


class Device:
    """One device; ``data`` is what survives a restart."""

    def __init__(self, net, jid, namespaces=(TWO,), label=None, **kwargs):
        self.net, self.jid, self.namespaces, self.label, self.kwargs = net, jid, list(namespaces), label, kwargs
        self.data, self.sent, self.asked = {}, [], []
        self.send_hook = lambda message, jid: None
        self.decide = None
        self.initial = "UNDECIDED"
        self.mgr = None

    async def start(self, sync_over=True, **limits):
        me, net = self, self.net

        class Manager(omemo.SessionManager):
            @staticmethod
            async def _upload_bundle(bundle):
                net.hook("upload_bundle", me.jid, bundle)
                net.log.append(("upload_bundle", bundle.namespace, bundle.bare_jid, bundle.device_id))
                net.bundles[(bundle.namespace, bundle.bare_jid, bundle.device_id)] = bundle

            @staticmethod
            async def _download_bundle(namespace, bare_jid, device_id):
                await asyncio.sleep(net.delay)
                net.hook("download_bundle", me.jid, namespace, bare_jid, device_id)
                net.log.append(("download_bundle", namespace, bare_jid, device_id))
                try:
                    return net.bundles[(namespace, bare_jid, device_id)]
                except KeyError:
                    raise omemo.BundleNotFound("not found") from None

            @staticmethod
            async def _delete_bundle(namespace, device_id):
                net.hook("delete_bundle", me.jid, namespace, device_id)
                net.bundles.pop((namespace, me.jid, device_id), None)

            @staticmethod
            async def _upload_device_list(namespace, device_list):
                net.hook("upload_list", me.jid, namespace, dict(device_list))
                net.log.append(("upload_list", namespace, me.jid, dict(device_list)))
                net.lists[(namespace, me.jid)] = dict(device_list)

            @staticmethod
            async def _download_device_list(namespace, bare_jid):
                await asyncio.sleep(net.delay)
                net.hook("download_list", me.jid, namespace, bare_jid)
                return dict(net.lists.get((namespace, bare_jid), {}))

            async def _evaluate_custom_trust_level(self, device):
                try:
                    return omemo.TrustLevel[device.trust_level_name]
                except KeyError:
                    raise omemo.UnknownTrustLevel(device.trust_level_name) from None

            async def _make_trust_decision(self, undecided, identifier):
                me.asked.append((undecided, identifier))
                if me.decide is not None:
                    await me.decide(undecided, identifier)
                    return
                for device in undecided:
                    await self.set_trust(device.bare_jid, device.identity_key, "TRUSTED")

            @staticmethod
            async def _send_message(message, bare_jid):
                me.send_hook(message, bare_jid)
                me.sent.append((message, bare_jid))

        self.disk = Disk(self.data, self.kwargs.get("cache", False))
        kwargs = {k: v for k, v in self.kwargs.items() if k != "cache"}
        cls = {TWO: twomemo.Twomemo, OLD: oldmemo.Oldmemo}
        self.backends = [cls[ns](self.disk, **limits) for ns in self.namespaces]
        self.mgr = await Manager.create(
            backends=self.backends, storage=self.disk, own_bare_jid=self.jid, initial_own_label=self.label,
            undecided_trust_level_name=self.initial, **kwargs)
        if sync_over:
            await self.mgr.after_history_sync()
        return self

    async def id(self):
        return (await self.mgr.get_own_device_information())[0].device_id

    async def me(self):
        return (await self.mgr.get_own_device_information())[0]

    async def about(self, other):
        mine = await other.id()
        return next((d for d in await self.mgr.get_device_information(other.jid) if d.device_id == mine), None)

    async def learn(self, *others):
        for other in others:
            await self.mgr.refresh_device_lists(other.jid)

    async def trust(self, other, level="TRUSTED"):
        await self.mgr.set_trust(other.jid, (await other.me()).identity_key, level)

    async def write(self, text, *jids, order=None, identifier=None):
        plaintexts = {ns: text.encode() for ns in self.namespaces}
        messages, errors = await self.mgr.encrypt(frozenset(jids), plaintexts, order, identifier)
        return list(messages), errors

    async def read(self, message, sender):
        etree = {TWO: twomemo.etree, OLD: oldmemo.etree}[message.namespace]
        element = ET.fromstring(ET.tostring(etree.serialize_message(message)))
        if message.namespace == TWO:
            parsed = etree.parse_message(element, sender.jid)
        else:
            parsed = await etree.parse_message(element, sender.jid, self.jid, self.mgr)
        plaintext, device, _ = await self.mgr.decrypt(parsed)
        return None if plaintext is None else plaintext.decode(), device

    async def read_responses(self, sender):
        """Receive everything that was sent automatically to this account by the given device."""
        mine, sender.sent = [m for m in sender.sent if m[1] == self.jid], [m for m in sender.sent if m[1] != self.jid]
        for message, _ in mine:
            await self.read(message, sender)
        return len(mine)


async def pair(namespaces=(TWO,), **kwargs):
    net = Net()
    alice = await Device(net, "alice@example.org", namespaces, **kwargs).start()
    bob = await Device(net, "bob@example.org", namespaces).start()
    await alice.learn(bob)
    await bob.learn(alice)
    return net, alice, bob


async def converse(alice, bob):
    """Afterwards there is a confirmed session, initiated by alice."""
    (message,), _ = await alice.write("hello", bob.jid)
    assert (await bob.read(message, alice))[0] == "hello"
    assert await alice.read_responses(bob) == 1
    (message,), _ = await bob.write("hi", alice.jid)
    assert (await alice.read(message, bob))[0] == "hi"


def run(main):
    async def wrapper():
        await asyncio.wait_for(main(), 120)
        for t in asyncio.all_tasks():
            if t is not asyncio.current_task():
                t.cancel()
    asyncio.run(wrapper())
    print("demo: fine")
