"""
The world a device lives in: a scripted XMPP server, disks that survive crashes, other people's devices, and
the glue that turns the real SessionManager into something the monitors can drive and observe.

Everything the code under test does to the outside goes through ``World.boundary``: that is where delays, network
conditions, injected failures and crashes come from, and where the event log is written.
"""
import asyncio
import json
import secrets

import omemo
from omemo.identity_key_pair import IdentityKeyPair
from omemo.session import Initiation
from omemo.storage import Just, Nothing, Storage, StorageException

from .loop import Stuck, get_loop
from .rt import Violation
from .toy import ToyBackend, ToyBundle, ToyContent, ToyPKM, ToySession, reset_counters, uid

# Namespaces differ in case only, or one is the beginning of another one
NS = ("urn:toy:2", "urn:toy:20", "URN:toy:2")


class Crash(BaseException):
    """The process dies here. Nothing the process would have done afterwards happens."""


class Runaway(BaseException):
    """The code under test performed absurdly many operations for what it was asked to do."""


class InjectedStorageFailure(StorageException):
    """A storage operation that was made to fail."""


class NetFail:
    """Marks exceptions raised by the scripted server, so that tracebacks are unambiguous."""


class LateBundleUpload(omemo.BundleUploadFailed):
    pass


class Ev:
    __slots__ = ("i", "t", "node", "kind", "d")

    def __init__(self, i, t, node, kind, d):
        self.i, self.t, self.node, self.kind, self.d = i, t, node, kind, d

    def __getattr__(self, name):
        try:
            return self.d[name]
        except KeyError:
            raise AttributeError(name) from None

    def __repr__(self):
        return f"#{self.i} t={self.t:g} {self.node} {self.kind} {self.d}"


class Outcome:
    """How an API call ended."""

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *types):
        return self.exc is not None and isinstance(self.exc, types)

    def __repr__(self):
        return f"returned {self.value!r}" if self.ok else f"raised {type(self.exc).__name__}({self.exc})"


class World:
    def __init__(self, rng, yields=False, joined=False):
        """A fresh start, except if this world exists next to others in the same process (``joined``)."""
        self.rng = rng
        self.loop = get_loop()
        if not joined:
            reset_counters()
            self.loop.reset()
        self.yields = yields
        self.slow = 0        # probability that an operation takes (virtual) time before or after its effect
        self.events = []
        self.lists = {}      # (ns, jid) -> {device id: label}
        self.bundles = {}    # (ns, jid, device id) -> bundle
        self.sent = []       # (node, message, bare jid) of messages the library sent by itself
        self.known_ns = None
        self.rule = None     # persistent network conditions: fn(node, op, info) -> exception to raise, or None
        self.plan = None     # one-off faults: fn(op number, node, op, info) -> None | ("before"|"after", exception)
        self.ops = 0
        self.hold = None     # async fn(node, message, jid) a message waits for before it is sent
        self.gate = None     # async fn(op, info) every operation waits for
        self.budget = 50_000
        self.instant = (None, 0)   # (virtual time, operations since)
        self.runaway = None        # raised in a background task, which may go unnoticed otherwise
        self.randbelow_queue = []
        secrets.randbelow = self._randbelow
        secrets.token_bytes = self._token_bytes

    # Deterministic randomness for the code under test (device ids, identity key seeds).
    def _randbelow(self, bound):
        while self.randbelow_queue:
            value = self.randbelow_queue.pop(0)
            value = value(bound) if callable(value) else value
            if 0 <= value < bound:
                return value
        return self.rng.randrange(bound)

    def _token_bytes(self, n=32):
        return self.rng.getrandbits(8 * n).to_bytes(n, "big")

    def now(self):
        return self.loop.time()

    def ev(self, node, kind, **d):
        self.events.append(Ev(len(self.events), self.now(), node, kind, d))

    def since(self, mark, kind=None, node=None):
        return [e for e in self.events[mark:]
                if (kind is None or e.kind == kind) and (node is None or e.node == node)]

    async def boundary(self, node, op, effect, **info):
        index = self.ops
        self.ops += 1
        self.instant = (self.now(), self.instant[1] + 1 if self.instant[0] == self.now() else 0)
        if self.ops > self.budget or self.instant[1] > 50_000:
            self.runaway = f"more than {min(self.ops, self.instant[1])} operations"
            raise Runaway(self.runaway)
        if self.yields:
            for _ in range(self.rng.choice((0, 0, 1, 2))):
                await asyncio.sleep(0)
        if self.slow and self.rng.random() < self.slow:
            await asyncio.sleep(self.rng.uniform(0, 3))
        if self.gate is not None:
            await self.gate(op, info)
        if node.gen_dead():
            raise Crash()
        fault = None if self.plan is None else self.plan(index, node, op, info)
        if fault is not None and fault[0] == "before":
            self.ev(node.name, "fault", op=op, when="before", exc=type(fault[1]).__name__, **info)
            raise fault[1]
        broken = None if self.rule is None else self.rule(node, op, info)
        if broken is not None:
            self.ev(node.name, "net_fail", op=op, exc=type(broken).__name__, **info)
            raise broken
        result = effect()
        self.ev(node.name, op, **info)
        if fault is not None:
            self.ev(node.name, "fault", op=op, when="after", exc=type(fault[1]).__name__)
            raise fault[1]
        if self.slow and self.rng.random() < self.slow:
            await asyncio.sleep(self.rng.uniform(0, 3))
        return result

    def run(self, coro):
        """Run harness code (exceptions propagate)."""
        return self.complete(coro)

    def complete(self, coro):
        result = self.loop.run_until_complete(coro)
        self.check_runaway()
        return result

    def check_runaway(self):
        if self.runaway is not None:
            raise Violation(f"runaway operation in the background: {self.runaway}")

    def call(self, coro, *expected):
        """
        Run one API call. Exceptions of the given types are returned as outcomes; every other exception is not
        part of the documented behaviour in the situation at hand, hence a violation.
        """
        self.ops, self.instant = 0, (None, 0)
        try:
            return Outcome(self.complete(coro))
        except expected as e:
            return Outcome(exc=e)
        except Stuck:
            raise Violation("the operation never finishes (deadlock)") from None
        except Runaway as e:
            raise Violation(f"runaway operation: {e}") from None
        except (Violation, Crash):
            raise
        except Exception as e:  # pylint: disable=broad-except
            import traceback  # pylint: disable=import-outside-toplevel
            tb = traceback.extract_tb(e.__traceback__)
            where = " <- ".join(f"{f.name}:{f.lineno}" for f in reversed(tb[-4:]))
            raise Violation(f"unexpected {type(e).__name__}: {e} [{where}]") from e

    def crashing(self, coro, *expected):
        """As call, but a crash is an outcome, too."""
        try:
            return self.call(coro, *expected)
        except Crash as e:
            return Outcome(exc=e)

    def advance(self, seconds):
        async def nap():
            await asyncio.sleep(seconds)
        self.complete(nap())

    def settle(self, rounds=60):
        """Let everything that can run without time passing run."""
        async def spin():
            for _ in range(rounds):
                await asyncio.sleep(0)
        self.loop.run_until_complete(spin())


class DiskStorage(Storage):
    """Values are kept as JSON text on a disk that survives the process."""

    def __init__(self, node, cache=True):
        super().__init__(disable_cache=not cache)
        self._node = node

    async def _load(self, key):
        disk = self._node.disk

        def effect():
            return Just(json.loads(disk[key])) if key in disk else Nothing()
        return await self._node.world.boundary(self._node, "load", effect, key=key)

    async def _store(self, key, value):
        disk, text = self._node.disk, json.dumps(value)

        def effect():
            disk[key] = text
        await self._node.world.boundary(self._node, "store", effect, key=key)

    async def _delete(self, key):
        disk = self._node.disk
        await self._node.world.boundary(self._node, "delete", lambda: disk.pop(key, None), key=key)


class Env:
    """What a toy backend sees of the world."""

    def __init__(self, world, name):
        self._world, self._name = world, name
        self.rng = world.rng

    def now(self):
        return self._world.now()

    def ev(self, kind, **d):
        self._world.ev(self._name, kind, **d)


class Gen:
    """One run of the process (from start to exit or crash)."""

    def __init__(self, node):
        self.node, self.world, self.name = node, node.world, node.name
        self.dead = self.created = False

    def gen_dead(self):
        return self.dead


def level_of(name):
    """How the application under test evaluates its custom trust levels."""
    if name[:1] == "T":
        return omemo.TrustLevel.TRUSTED
    if name[:1] == "D":
        return omemo.TrustLevel.DISTRUSTED
    if name[:1] == "U":
        return omemo.TrustLevel.UNDECIDED
    raise omemo.UnknownTrustLevel(name)


def make_manager_class(gen, base=omemo.SessionManager, **attributes):
    node, world = gen.node, gen.world

    class Manager(base):  # pylint: disable=abstract-method
        @staticmethod
        async def _upload_bundle(bundle):
            where = (bundle.namespace, bundle.bare_jid, bundle.device_id)

            def effect():
                world.bundles[where] = bundle
            await world.boundary(gen, "upload_bundle", effect, ns=where[0], jid=where[1], dev=where[2], bundle=bundle)

        @staticmethod
        async def _download_bundle(namespace, bare_jid, device_id):
            def effect():
                if (namespace, bare_jid, device_id) not in world.bundles:
                    raise omemo.BundleNotFound(f"{namespace} {bare_jid}/{device_id}")
                return world.bundles[(namespace, bare_jid, device_id)]
            node.check_ns(namespace)
            return await world.boundary(gen, "download_bundle", effect, ns=namespace, jid=bare_jid, dev=device_id)

        @staticmethod
        async def _delete_bundle(namespace, device_id):
            await world.boundary(
                gen, "delete_bundle", lambda: world.bundles.pop((namespace, node.jid, device_id), None),
                ns=namespace, jid=node.jid, dev=device_id
            )

        @staticmethod
        async def _upload_device_list(namespace, device_list):
            new = dict(device_list)

            def effect():
                world.lists[(namespace, node.jid)] = new
            await world.boundary(gen, "upload_list", effect, ns=namespace, jid=node.jid, list=new)

        @staticmethod
        async def _download_device_list(namespace, bare_jid):
            return await world.boundary(
                gen, "download_list", lambda: dict(world.lists.get((namespace, bare_jid), {})),
                ns=namespace, jid=bare_jid
            )

        @staticmethod
        async def _send_message(message, bare_jid):
            if world.hold is not None:
                await world.hold(node, message, bare_jid)
            await world.boundary(
                gen, "send", lambda: world.sent.append((node, message, bare_jid)),
                message=message, jid=bare_jid
            )

        if base is omemo.SessionManager:
            async def _evaluate_custom_trust_level(self, device):
                world.ev(gen.name, "evaluate", jid=device.bare_jid, dev=device.device_id,
                         ik=device.identity_key, trust=device.trust_level_name)
                return level_of(device.trust_level_name)

            async def _make_trust_decision(self, undecided, identifier):
                world.ev(gen.name, "trust_decision", undecided=frozenset(undecided), identifier=identifier)
                if node.decide is not None:
                    await node.decide(self, undecided, identifier)

    return type("Manager", (Manager,), attributes) if attributes else Manager


class Node:
    """A device running the real SessionManager on top of toy backends (or any others)."""
    guard = None

    def __init__(self, world, jid, namespaces=NS[:1], name=None, cache=True, undecided="U0", label=None, period=None,
                 threshold=99, backend_args=None, supported_ns=None):
        self.world, self.jid, self.namespaces = world, jid, list(namespaces)
        self.name = name or jid
        self.disk = {}
        self.cache, self.undecided, self.label = cache, undecided, label
        self.period, self.threshold = period, threshold
        self.backend_args = backend_args or {}
        self.supported_ns = supported_ns
        self.decide = None
        self.gen = None
        self.mgr = None
        self.storage = None
        self.backends = []
        self.class_attributes = {}
        self.base = omemo.SessionManager
        self.wander = None  # a random number generator: history synchronization is left at random after starting

    def check_ns(self, namespace):
        if self.supported_ns is not None and namespace not in self.supported_ns:
            raise omemo.UnknownNamespace(namespace)

    def make_backend(self, namespace):
        args = self.backend_args
        args = args.get(namespace, {}) if any(k in args for k in self.namespaces) else args
        return ToyBackend(namespace, self.storage, Env(self.world, self.name), **args)

    def kill(self):
        """The process ends. Whatever it was doing in the background stops."""
        if self.gen is not None:
            self.gen.dead = True
        self.gen = self.mgr = self.storage = None
        self.backends = []

    def create(self, namespaces=None, **overrides):
        """A coroutine running SessionManager.create in a fresh process on this node's disk."""
        self.kill()
        if namespaces is not None:
            self.namespaces = list(namespaces)
        self.gen = gen = Gen(self)
        gen.disk = self.disk
        self.storage = DiskStorage(_StorageView(self, gen), self.cache)
        self.backends = [self.make_backend(ns) for ns in self.namespaces]
        args = dict(
            backends=list(self.backends), storage=self.storage, own_bare_jid=self.jid, initial_own_label=self.label,
            undecided_trust_level_name=self.undecided, pre_key_refill_threshold=self.threshold
        )
        if self.period is not None:
            args["signed_pre_key_rotation_period"] = self.period
        args.update(overrides)
        cls = make_manager_class(gen, self.base, **self.class_attributes)

        async def go():
            mgr = await (cls.create(**args) if self.guard is None else self.guard.create(cls, args, self))
            self.world.ev(self.name, "created")
            gen.created = True
            if self.guard is not None:
                mgr = self.guard.wrap(mgr, self)
            if not gen.dead:
                self.mgr = mgr
            return mgr
        return go()

    def start(self, namespaces=None, live=False, **overrides):
        """Create (or load) and return the manager, which must work; optionally leave history synchronization."""
        self.world.call(self.create(namespaces, **overrides))
        self.world.settle(4)
        if live:
            self.world.call(self.mgr.after_history_sync())
        else:
            self.drift()
        return self.mgr

    def drift(self):
        """Leave history synchronization at random, as far as that makes no difference to the engine."""
        if self.wander is not None and self.wander.random() < 0.6:
            self.world.call(self.mgr.after_history_sync())
            if self.wander.random() < 0.15:
                self.mgr.before_history_sync()

    # -- convenience ------------------------------------------------------------------------------------------
    def own(self):
        return self.world.call(self.mgr.get_own_device_information()).value[0]

    def info(self, jid):
        return {d.device_id: d for d in self.world.call(self.mgr.get_device_information(jid)).value}

    def feed_lists(self, jid):
        """Deliver the current device lists of an account, as PEP would."""
        for ns in self.namespaces:
            self.world.call(self.mgr.update_device_list(ns, jid, dict(self.world.lists.get((ns, jid), {}))))

    def backend(self, namespace):
        return next(b for b in self.backends if b.namespace == namespace)

    def toy_sessions(self):
        """The sessions on disk, as far as the toy backends are concerned."""
        return {k: v for k, v in self.disk.items() if k.startswith("/toy/") and "/session/" in k}

    def toy_state(self):
        return {k: v for k, v in self.disk.items() if k.startswith("/toy/")}

    def toy_session(self, ns, jid, dev):
        text = self.disk.get(f"/toy/{ns}/session/{jid}/{dev}")
        return None if text is None else ToySession(json.loads(text))

    def pre_keys(self, ns):
        state = json.loads(self.disk[f"/toy/{ns}/state"])
        return set(state["pre"]), set(state["hidden"])


class _StorageView:
    """Binds a storage instance to one run of the process."""

    def __init__(self, node, gen):
        self.node, self.gen = node, gen
        self.disk = node.disk
        self.world = _BoundWorld(node.world, gen)


class _BoundWorld:
    def __init__(self, world, gen):
        self._world, self._gen = world, gen

    async def boundary(self, _view, op, effect, **info):
        return await self._world.boundary(self._gen, op, effect, **info)


class PlainStorage(Storage):
    """Storage of devices that are not under test."""

    def __init__(self):
        super().__init__(True)
        self.data = {}

    async def _load(self, key):
        return Just(json.loads(self.data[key])) if key in self.data else Nothing()

    async def _store(self, key, value):
        self.data[key] = json.dumps(value)

    async def _delete(self, key):
        self.data.pop(key, None)


class Peer:
    """Somebody else's device: the toy backends without a session manager around them."""

    def __init__(self, world, jid, dev, namespaces=NS[:1], label=None, publish=True, pre_keys=20):
        self.world, self.jid, self.dev, self.namespaces = world, jid, dev, list(namespaces)
        self.label = label
        self.storage = PlainStorage()
        self.backends = {ns: ToyBackend(ns, self.storage, _SilentEnv(world)) for ns in self.namespaces}
        self.identity_key = world.run(IdentityKeyPair.get(self.storage)).identity_key
        for ns in self.namespaces:
            world.run(self.backends[ns].generate_pre_keys(pre_keys))
            if publish:
                self.publish(ns)

    def publish(self, ns, **changes):
        self.world.lists.setdefault((ns, self.jid), {})[self.dev] = self.label
        self.publish_bundle(ns, **changes)

    def bundle(self, ns):
        return self.world.run(self.backends[ns].get_bundle(self.jid, self.dev))

    def publish_bundle(self, ns, identity_key=None, pre_keys=None, good_signature=True):
        b = self.bundle(ns)
        self.world.bundles[(ns, self.jid, self.dev)] = ToyBundle(
            ns, self.jid, self.dev, identity_key or b.identity_key, b.spk,
            b.pre_keys if pre_keys is None else pre_keys, good_signature
        )

    def has_session(self, ns, jid, dev):
        return self.world.run(self.backends[ns].load_session(jid, dev)) is not None

    def session(self, ns, jid, dev):
        return self.world.run(self.backends[ns].load_session(jid, dev))

    def send(self, ns, targets, plaintext, bundles=None, store=True, fresh=False):
        """Encrypt for [(jid, dev)]; ``plaintext`` None makes an empty message."""
        return self.world.run(self._send(ns, targets, plaintext, bundles or {}, store, fresh))

    async def _send(self, ns, targets, plaintext, bundles, store, fresh):
        backend = self.backends[ns]
        content, pkm = await (backend.encrypt_empty() if plaintext is None else backend.encrypt_plaintext(plaintext))
        keys = set()
        for jid, dev in targets:
            session = None if fresh else await backend.load_session(jid, dev)
            if session is None:
                bundle = bundles.get((jid, dev)) or self.world.bundles[(ns, jid, dev)]
                session, ekm = await backend.build_session_active(jid, dev, bundle, pkm)
            else:
                ekm = await backend.encrypt_key_material(session, pkm)
            if store:
                await backend.store_session(session)
            kex = session.key_exchange if session.initiation is Initiation.ACTIVE and not session.confirmed \
                else None
            keys.add((ekm, kex))
        message = omemo.Message(ns, self.jid, self.dev, content, frozenset(keys))
        return message, pkm

    def key_for_me(self, message):
        mine = [k for k in message.keys if (k[0].bare_jid, k[0].device_id) == (self.jid, self.dev)]
        return mine

    def receive(self, message):
        """Decrypt strictly; returns (plaintext or None, plain key). Raises the backend's exceptions."""
        return self.world.run(self._receive(message))

    async def _receive(self, message):
        backend = self.backends[message.namespace]
        (ekm, kex), = self.key_for_me(message)
        session = await backend.load_session(message.bare_jid, message.device_id)
        if kex is not None and not (
            session is not None and session.initiation is Initiation.PASSIVE
            and session.key_exchange.builds_same_session(kex)
        ):
            session, pkm = await backend.build_session_passive(message.bare_jid, message.device_id, kex, ekm)
            await backend.delete_pre_key(session)
        else:
            if session is None:
                raise omemo.DecryptionFailed("peer has no session")
            pkm = await backend.decrypt_key_material(session, ekm)
        plaintext = None if message.content.empty else await backend.decrypt_plaintext(message.content, pkm)
        await backend.store_session(session)
        return plaintext, pkm.key


class _SilentEnv:
    def __init__(self, world):
        self.rng, self._world = world.rng, world

    def now(self):
        return self._world.now()

    def ev(self, kind, **d):
        pass
