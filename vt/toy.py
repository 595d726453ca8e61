"""
A complete, strict OMEMO backend with toy cryptography. It implements the documented backend contract (one-time
pre keys, signed pre keys kept for one extra period, ratchet chains whose keys can be used exactly once, sessions
persisted only by store_session) and is deliberately unforgiving: everything a real backend would fail on, fails.
It reports what it is asked to do to the environment (``env.ev``), which is where the monitors listen.
"""
import asyncio
import hashlib
import json

from omemo.backend import Backend, DecryptionFailed, KeyExchangeFailed, TooManySkippedMessageKeys
from omemo.bundle import Bundle
from omemo.identity_key_pair import IdentityKeyPair
from omemo.message import Content, EncryptedKeyMaterial, KeyExchange, PlainKeyMaterial
from omemo.session import Initiation, Session

_COUNTER = [0]


def uid():
    """Process-wide unique number: makes every key, session and ciphertext unambiguous."""
    _COUNTER[0] += 1
    return _COUNTER[0]


_HASHES = [0]


def reset_counters():
    """Called at the start of every case, so that a case replays identically in a fresh process."""
    _COUNTER[0] = _HASHES[0] = 0


class Hashed:
    """Identity semantics, but a reproducible hash (the order of sets does not depend on addresses)."""

    def __hash__(self):
        h = self.__dict__.get("_hash_value")
        if h is None:
            _HASHES[0] += 1
            h = self.__dict__["_hash_value"] = hash(("toy", _HASHES[0]))
        return h


def _stream(key, length):
    out, counter = b"", 0
    while len(out) < length:
        out += hashlib.sha256(f"{key}/{counter}".encode()).digest()
        counter += 1
    return out[:length]


class ToyKex(Hashed, KeyExchange):
    def __init__(self, identity_key, true_identity, responder, eph, spk, pk):
        self._identity_key = identity_key
        self.true_identity = true_identity
        self.responder = responder
        self.eph, self.spk, self.pk = eph, spk, pk

    @property
    def identity_key(self):
        return self._identity_key

    def builds_same_session(self, other):
        return isinstance(other, ToyKex) and self.tup() == other.tup()

    def tup(self):
        return (self._identity_key, self.true_identity, self.responder, self.eph, self.spk, self.pk)

    def sid(self):
        return f"{self.eph}:{self.true_identity.hex()[:16]}:{self.responder.hex()[:16]}:{self.spk}:{self.pk}"

    def to_json(self):
        return [self._identity_key.hex(), self.true_identity.hex(), self.responder.hex(), self.eph, self.spk, self.pk]

    @staticmethod
    def from_json(j):
        return ToyKex(bytes.fromhex(j[0]), bytes.fromhex(j[1]), bytes.fromhex(j[2]), j[3], j[4], j[5])

    def __repr__(self):
        return f"Kex({self.sid()})"


class ToyPKM(Hashed, PlainKeyMaterial):
    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return f"PKM({self.key})"


class ToyContent(Hashed, Content):
    def __init__(self, ct, tag, empty=False):
        self.ct, self.tag, self._empty = ct, tag, empty

    @property
    def empty(self):
        return self._empty

    def __repr__(self):
        return "Content(empty)" if self._empty else f"Content({len(self.ct)}B)"


class ToyEKM(Hashed, EncryptedKeyMaterial):
    def __init__(self, bare_jid, device_id, sid, side, epoch, n, pn, key, sealed_for, bid, broken=False):
        self._bare_jid, self._device_id = bare_jid, device_id
        self.sid, self.side, self.epoch, self.n, self.pn, self.key = sid, side, epoch, n, pn, key
        self.sealed_for = sealed_for
        self.bid = bid
        self.broken = broken
        self.uid = uid()

    @property
    def bare_jid(self):
        return self._bare_jid

    @property
    def device_id(self):
        return self._device_id

    def slot(self):
        return (self.sid, self.side, self.bid, self.epoch, self.n)

    def clone(self, **changes):
        args = dict(
            bare_jid=self._bare_jid, device_id=self._device_id, sid=self.sid, side=self.side, epoch=self.epoch,
            n=self.n, pn=self.pn, key=self.key, sealed_for=self.sealed_for, bid=self.bid, broken=self.broken
        )
        args.update(changes)
        return ToyEKM(**args)

    def __repr__(self):
        return f"EKM({self._bare_jid}/{self._device_id} {self.side}{self.epoch}.{self.n})"


class ToyBundle(Bundle):
    def __init__(self, namespace, bare_jid, device_id, identity_key, spk, pre_keys, good_signature=True):
        self._ns, self._jid, self._dev, self._ik = namespace, bare_jid, device_id, identity_key
        self.spk, self.pre_keys, self.good_signature = spk, frozenset(pre_keys), good_signature

    namespace = property(lambda self: self._ns)
    bare_jid = property(lambda self: self._jid)
    device_id = property(lambda self: self._dev)
    identity_key = property(lambda self: self._ik)

    def _tup(self):
        return (self._ns, self._jid, self._dev, self._ik, self.spk, self.pre_keys, self.good_signature)

    def __eq__(self, other):
        return isinstance(other, ToyBundle) and self._tup() == other._tup()

    def __hash__(self):
        return hash(self._tup())

    def __repr__(self):
        return f"Bundle({self._ns} {self._jid}/{self._dev} ik={self._ik.hex()[:8]} spk={self.spk} #{len(self.pre_keys)})"


class ToySession(Hashed, Session):
    def __init__(self, state):
        self.st = state

    namespace = property(lambda self: self.st["ns"])
    bare_jid = property(lambda self: self.st["jid"])
    device_id = property(lambda self: self.st["dev"])
    confirmed = property(lambda self: self.st["confirmed"])

    @property
    def initiation(self):
        return Initiation.ACTIVE if self.st["side"] == "A" else Initiation.PASSIVE

    @property
    def key_exchange(self):
        return ToyKex.from_json(self.st["kex"])

    @property
    def receiving_chain_length(self):
        return None if self.st["re"] == 0 else self.st["rn"]

    @property
    def sending_chain_length(self):
        return self.st["sn"]

    def peer_identity(self):
        kex = self.key_exchange
        return kex.responder if self.st["side"] == "A" else kex.true_identity

    def __repr__(self):
        return f"Session({self.st['ns']} {self.st['jid']}/{self.st['dev']} {self.st['sid']})"


class ToyBackend(Hashed, Backend):
    """See the module documentation."""

    def __init__(self, namespace, storage, env, **limits):
        super().__init__(**limits)
        self._ns = namespace
        self._storage = storage
        self._env = env
        self._index_lock = asyncio.Lock()

    @property
    def namespace(self):
        return self._ns

    # -- state ------------------------------------------------------------------------------------------------
    async def _state(self):
        state = (await self._storage.load(f"/toy/{self._ns}/state")).maybe(None)
        if state is None:
            state = {"spk": uid(), "spk_created": self._env.now(), "old": None, "pre": [], "hidden": []}
            await self._save(state)
        return state

    async def _save(self, state):
        await self._storage.store(f"/toy/{self._ns}/state", state)

    async def own_identity(self):
        return (await IdentityKeyPair.get(self._storage)).identity_key

    # -- sessions ---------------------------------------------------------------------------------------------
    async def load_session(self, bare_jid, device_id):
        state = (await self._storage.load(f"/toy/{self._ns}/session/{bare_jid}/{device_id}")).maybe(None)
        self._env.ev("be.load_session", ns=self._ns, jid=bare_jid, dev=device_id, found=state is not None)
        return None if state is None else ToySession(state)

    async def store_session(self, session):
        assert isinstance(session, ToySession), "session of a foreign backend"
        self._env.ev("be.store_session", ns=self._ns, jid=session.bare_jid, dev=session.device_id,
                     sid=session.st["sid"], corrupt=bool(session.st.get("corrupt")), right=session.namespace == self._ns)
        entry = [session.bare_jid, session.device_id]
        async with self._index_lock:
            index = (await self._storage.load(f"/toy/{self._ns}/index")).maybe([])
            if entry not in index:
                await self._storage.store(f"/toy/{self._ns}/index", index + [entry])
        await self._storage.store(
            f"/toy/{self._ns}/session/{session.bare_jid}/{session.device_id}", json.loads(json.dumps(session.st))
        )

    async def build_session_active(self, bare_jid, device_id, bundle, plain_key_material):
        assert isinstance(bundle, ToyBundle) and isinstance(plain_key_material, ToyPKM)
        self._env.ev("be.build_active", ns=self._ns, jid=bare_jid, dev=device_id, identity=bundle.identity_key,
                     bundle=(bundle.namespace, bundle.bare_jid, bundle.device_id))
        if not bundle.good_signature:
            raise KeyExchangeFailed("signature")
        if not bundle.pre_keys:
            raise KeyExchangeFailed("no pre keys")
        own = await self.own_identity()
        kex = ToyKex(own, own, bundle.identity_key, uid(), bundle.spk, self._env.rng.choice(sorted(bundle.pre_keys)))
        session = ToySession({
            "ns": self._ns, "jid": bare_jid, "dev": device_id, "sid": kex.sid(), "side": "A", "confirmed": False,
            "kex": kex.to_json(), "se": 1, "sn": 0, "spn": 0, "re": 0, "rn": 0, "skipped": [],
            "bid": uid(), "pbid": None
        })
        return session, self._seal(session, plain_key_material)

    async def build_session_passive(self, bare_jid, device_id, key_exchange, encrypted_key_material):
        assert isinstance(key_exchange, ToyKex) and isinstance(encrypted_key_material, ToyEKM)
        self._env.ev("be.build_passive", ns=self._ns, jid=bare_jid, dev=device_id,
                     identity=key_exchange.identity_key, pk=key_exchange.pk)
        state = await self._state()
        if key_exchange.spk not in (state["spk"], state["old"]):
            raise KeyExchangeFailed("unknown signed pre key")
        if key_exchange.pk not in state["pre"] and key_exchange.pk not in state["hidden"]:
            raise KeyExchangeFailed("unknown pre key")
        if key_exchange.true_identity != key_exchange.identity_key:
            raise DecryptionFailed("identity key not owned by the sender")
        if key_exchange.responder != await self.own_identity():
            raise DecryptionFailed("key exchange made for somebody else")
        session = ToySession({
            "ns": self._ns, "jid": bare_jid, "dev": device_id, "sid": key_exchange.sid(), "side": "P",
            "confirmed": False, "kex": key_exchange.to_json(), "se": 0, "sn": 0, "spn": 0, "re": 0, "rn": 0,
            "skipped": [], "bid": uid(), "pbid": None
        })
        return session, self._open(session, encrypted_key_material)

    # -- symmetric --------------------------------------------------------------------------------------------
    async def encrypt_plaintext(self, plaintext):
        key = f"k{uid()}"
        ct = bytes(a ^ b for a, b in zip(plaintext, _stream(key, len(plaintext))))
        self._env.ev("be.encrypt_plaintext", ns=self._ns, plaintext=plaintext)
        return ToyContent(ct, hashlib.sha256(key.encode() + ct).hexdigest()), ToyPKM(key)

    async def encrypt_empty(self):
        return ToyContent(b"", "", True), ToyPKM(f"e{uid()}")

    async def decrypt_plaintext(self, content, plain_key_material):
        assert isinstance(content, ToyContent) and not content.empty
        if content.tag != hashlib.sha256(plain_key_material.key.encode() + content.ct).hexdigest():
            raise DecryptionFailed("content authentication failed")
        self._env.ev("be.decrypt_plaintext", ns=self._ns)
        return bytes(a ^ b for a, b in zip(content.ct, _stream(plain_key_material.key, len(content.ct))))

    # -- ratchet ----------------------------------------------------------------------------------------------
    def _seal(self, session, pkm):
        st = session.st
        ekm = ToyEKM(st["jid"], st["dev"], st["sid"], st["side"], st["se"], st["sn"], st["spn"], pkm.key,
                     session.peer_identity(), st["bid"])
        st["sn"] += 1
        return ekm

    def _open(self, session, ekm):
        st = session.st
        e, n, pn = ekm.epoch, ekm.n, ekm.pn
        # Any failure leaves the in-memory session unusable: it must never be persisted afterwards.
        try:
            if ekm.broken or ekm.sid != st["sid"] or ekm.side == st["side"]:
                raise DecryptionFailed("key material authentication failed")
            # The ratchet keys of the other side: a session it built anew from the same key exchange has other ones.
            if st["pbid"] not in (None, ekm.bid):
                raise DecryptionFailed("message of another incarnation of the session")
            if e == st["re"] + 1:
                skip = [[st["re"], i] for i in range(st["rn"], pn)] + [[e, i] for i in range(n)]
            elif e == st["re"] and n >= st["rn"]:
                skip = [[e, i] for i in range(st["rn"], n)]
            elif [e, n] in st["skipped"]:
                st["skipped"].remove([e, n])
                skip = None
            else:
                raise DecryptionFailed("message key not available (duplicate?)")
            if skip is not None:
                if len(skip) > self.max_num_per_message_skipped_keys:
                    raise TooManySkippedMessageKeys()
                st["skipped"] = (st["skipped"] + skip)[-self.max_num_per_session_skipped_keys:] \
                    if self.max_num_per_session_skipped_keys else []
                if e == st["re"] + 1:
                    st["re"] = e
                    st["spn"], st["sn"] = st["sn"], 0
                    st["se"] += 1
                st["rn"] = n + 1
        except Exception:
            st["corrupt"] = True
            raise
        st["pbid"] = ekm.bid
        if st["side"] == "A":
            st["confirmed"] = True
        return ToyPKM(ekm.key)

    async def encrypt_key_material(self, session, plain_key_material):
        assert isinstance(session, ToySession) and session.namespace == self._ns
        return self._seal(session, plain_key_material)

    async def decrypt_key_material(self, session, encrypted_key_material):
        assert isinstance(session, ToySession) and session.namespace == self._ns
        return self._open(session, encrypted_key_material)

    # -- own key material -------------------------------------------------------------------------------------
    async def signed_pre_key_age(self):
        return int(self._env.now() - (await self._state())["spk_created"])

    async def rotate_signed_pre_key(self):
        state = await self._state()
        state["old"], state["spk"], state["spk_created"] = state["spk"], uid(), self._env.now()
        await self._save(state)
        self._env.ev("be.rotate", ns=self._ns, spk=state["spk"])

    async def hide_pre_key(self, session):
        state = await self._state()
        pk = session.key_exchange.pk
        self._env.ev("be.hide_pre_key", ns=self._ns, pk=pk)
        if pk not in state["pre"]:
            return False
        state["pre"].remove(pk)
        state["hidden"].append(pk)
        await self._save(state)
        return True

    async def delete_pre_key(self, session):
        state = await self._state()
        pk = session.key_exchange.pk
        self._env.ev("be.delete_pre_key", ns=self._ns, pk=pk)
        found = False
        for pool in ("pre", "hidden"):
            if pk in state[pool]:
                state[pool].remove(pk)
                found = True
        await self._save(state)
        return found

    async def delete_hidden_pre_keys(self):
        state = await self._state()
        state["hidden"] = []
        await self._save(state)
        self._env.ev("be.delete_hidden", ns=self._ns)

    async def get_num_visible_pre_keys(self):
        return len((await self._state())["pre"])

    async def generate_pre_keys(self, num_pre_keys):
        state = await self._state()
        state["pre"] += [uid() for _ in range(num_pre_keys)]
        await self._save(state)
        self._env.ev("be.generate", ns=self._ns, num=num_pre_keys)

    async def get_bundle(self, bare_jid, device_id):
        state = await self._state()
        return ToyBundle(self._ns, bare_jid, device_id, await self.own_identity(), state["spk"], state["pre"])

    # -- purging ----------------------------------------------------------------------------------------------
    async def purge(self):
        self._env.ev("be.purge", ns=self._ns)
        for jid, dev in (await self._storage.load(f"/toy/{self._ns}/index")).maybe([]):
            await self._storage.delete(f"/toy/{self._ns}/session/{jid}/{dev}")
        await self._storage.delete(f"/toy/{self._ns}/index")
        await self._storage.delete(f"/toy/{self._ns}/state")

    async def purge_bare_jid(self, bare_jid):
        self._env.ev("be.purge_bare_jid", ns=self._ns, jid=bare_jid)
        index = (await self._storage.load(f"/toy/{self._ns}/index")).maybe([])
        for jid, dev in index:
            if jid == bare_jid:
                await self._storage.delete(f"/toy/{self._ns}/session/{jid}/{dev}")
        async with self._index_lock:
            index = (await self._storage.load(f"/toy/{self._ns}/index")).maybe([])
            left = [e for e in index if e[0] != bare_jid]
            if left != index:
                await self._storage.store(f"/toy/{self._ns}/index", left)
