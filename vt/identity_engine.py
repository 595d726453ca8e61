"""The identity key pair: independent arithmetic, interrupted generation, one key for everything."""
import base64
import json

import omemo
import xeddsa
from omemo.identity_key_pair import IdentityKeyPair, IdentityKeyPairPriv, IdentityKeyPairSeed

from . import curve
from .create_engine import failure_for, FAILURES
from .world import Crash, DiskStorage, Gen, NS, Node, World, _StorageView

SPECIAL = [bytes(32), b"\xff" * 32, b"\x01" + bytes(31), bytes(31) + b"\x80", bytes(31) + b"\x40", b"\x80" + bytes(31)]


def a_key(rng):
    return rng.choice(SPECIAL) if rng.random() < 0.05 else rng.randbytes(32)


def judge_pair(rec, pair, seed=None, priv=None):
    """The pair has to be the one made from this seed or private key."""
    true_priv = curve.seed_to_priv(seed) if priv is None else priv
    public = curve.priv_to_ed25519(true_priv)
    rec.check(bytes(pair.identity_key) == public, "public key doesn't belong to the private key", seed=seed, priv=priv,
              got=bytes(pair.identity_key).hex(), expected=public.hex())
    rec.check(pair.is_seed is (priv is None) and pair.is_priv is (priv is not None), "kind of key pair misreported",
              is_seed=pair.is_seed, is_priv=pair.is_priv)
    if priv is None:
        rec.check(isinstance(pair, IdentityKeyPairSeed) and bytes(pair.seed) == seed, "seed altered")
    else:
        rec.check(isinstance(pair, IdentityKeyPairPriv) and bytes(pair.priv) == priv, "private key altered")
    converted = pair.as_priv()
    rec.check(isinstance(converted, IdentityKeyPairPriv) and converted.is_priv is True and converted.is_seed is False,
              "conversion yields another kind")
    rec.check(bytes(converted.priv) == true_priv, "conversion yields another private key")
    rec.check(bytes(converted.identity_key) == public, "conversion yields another public key")
    rec.check(bytes(converted.as_priv().priv) == true_priv, "repeated conversion yields another private key")
    got = omemo.SessionManager.format_identity_key(public)
    rec.check(got == curve.fingerprint(public), "fingerprint wrong", got=got, expected=curve.fingerprint(public))
    rec.count("pairs_judged")
    return public


def arithmetic_case(rng, rec):
    secret = a_key(rng)
    rec.sig(secret.hex()[:8])
    if rng.random() < 0.5:
        judge_pair(rec, IdentityKeyPairSeed(secret), seed=secret)
    else:
        priv = curve.clamp(secret).to_bytes(32, "little")
        judge_pair(rec, IdentityKeyPairPriv(priv), priv=priv)


def fingerprint_case(rng, rec):
    """Fingerprints of valid public keys whose Curve25519 form has unusual bytes."""
    for _ in range(300):
        form = bytearray(rng.randbytes(32))
        for _ in range(rng.randint(1, 3)):
            start, length = rng.choice((0, 0, 4, 8, 28, 30, 31, rng.randrange(32))), rng.choice((1, 1, 2, 4))
            form[start:start + length] = (rng.choice((b"\0", b"\0", b"\0", b"\xff", bytes([rng.randrange(16)]))) * length)[:32 - start]
        form[31] &= 0x7f
        u = int.from_bytes(form, "little") % curve.P
        y = (u - 1) * pow(u + 1, curve.P - 2, curve.P) % curve.P
        public = (y | (rng.getrandbits(1) << 255)).to_bytes(32, "little")
        try:
            xeddsa.ed25519_pub_to_curve25519_pub(public)
        except xeddsa.XEdDSAException:
            continue  # No usable public key
        got = omemo.SessionManager.format_identity_key(public)
        text = u.to_bytes(32, "little").hex()
        rec.check(got == [text[i:i + 8] for i in range(0, 64, 8)], "fingerprint wrong", got=got, expected=text)
        rec.count("unusual_fingerprints")
        rec.count("leading_zero_fingerprints", text.startswith("0"))
        rec.sig(text[:6])
        return


def stored(disk):
    return (json.loads(disk["/ikp/is_seed"]), base64.urlsafe_b64decode(json.loads(disk["/ikp/key"]))) \
        if "/ikp/is_seed" in disk and "/ikp/key" in disk else None


def generation_case(rng, rec):
    """Repeated accesses, each possibly dying or failing at some operation, over restarts."""
    w = World(rng)
    node = Node(w, "alice@x", cache=rng.random() < 0.7)
    pre = None
    if rng.random() < 0.3:
        is_seed, key = rng.random() < 0.4, rng.randbytes(32)
        if not is_seed:
            key = curve.clamp(key).to_bytes(32, "little")
        pre = (is_seed, key)
        node.disk["/ikp/is_seed"] = json.dumps(is_seed)
        node.disk["/ikp/key"] = json.dumps(base64.urlsafe_b64encode(key).decode())
    fixed = None if pre is None else curve.priv_to_ed25519(curve.seed_to_priv(pre[1]) if pre[0] else pre[1])
    storage, trace = None, []
    for _ in range(rng.randrange(2, 7)):
        if storage is None or rng.random() < 0.4:
            node.kill()
            node.gen = Gen(node)
            storage = DiskStorage(_StorageView(node, node.gen), node.cache)
            trace.append("open")
        kind, at = rng.choice(("none", "crash-before", "crash-after", "fail-before", "fail-after")), rng.randrange(4)

        def plan(index, _n, op, _info, kind=kind, at=at):
            if kind == "none" or index != at:
                return None
            return kind.split("-")[1], (Crash() if kind.startswith("crash") else failure_for(op))
        w.plan = plan
        outcome = w.crashing(IdentityKeyPair.get(storage), *FAILURES)
        w.plan = None
        trace.append((kind, at, "ok" if outcome.ok else type(outcome.exc).__name__))
        if not outcome.ok:
            rec.count("interrupted_" + kind)
            if isinstance(outcome.exc, Crash):
                storage = None
            continue
        on_disk = stored(node.disk)
        rec.check(on_disk is not None, "a key pair was handed out that isn't persisted")
        is_seed, key = on_disk
        rec.check(len(key) == 32, "key of wrong size persisted", size=len(key))
        rec.check(pre is not None or is_seed is True, "a generated key pair is not based on a seed")
        public = judge_pair(rec, outcome.value, **({"seed": key} if is_seed else {"priv": key}))
        rec.check(fixed in (None, public), "the identity key changed", trace=trace)
        fixed = public
        rec.count("accesses_judged")
    rec.sig(trace)


def manager_case(rng, rec):
    """Everything a running library says about its identity is the one persisted key, over restarts."""
    w = World(rng)
    nss = rng.sample(NS, rng.randint(1, 3))
    node = Node(w, "alice@x", nss, cache=rng.random() < 0.5)
    node.wander = rng
    own_priv = None
    if rng.random() < 0.4:
        own_priv = curve.clamp(rng.randbytes(32)).to_bytes(32, "little")
        node.disk["/ikp/is_seed"] = "false"
        node.disk["/ikp/key"] = json.dumps(base64.urlsafe_b64encode(own_priv).decode())
    keys = set()
    for _ in range(rng.randint(1, 3)):
        node.start(rng.sample(NS, rng.randint(1, 3)))
        is_seed, key = stored(node.disk)
        rec.check(own_priv is None or (not is_seed and key == own_priv), "a private key in the storage was replaced")
        public = curve.priv_to_ed25519(curve.seed_to_priv(key) if is_seed else key)
        own = node.own()
        keys |= {own.identity_key, public}
        for ns in node.namespaces:
            keys.add(w.bundles[(ns, "alice@x", own.device_id)].identity_key)
        keys.add(w.call(IdentityKeyPair.get(node.storage)).value.identity_key)
        fp = node.mgr.format_identity_key(own.identity_key)
        rec.check(fp == curve.fingerprint(public), "fingerprint of the own device wrong", got=fp)
        rec.check(len(keys) == 1, "more than one identity key in use", keys=[k.hex()[:8] for k in keys])
        rec.count("starts_judged")
    other = Node(w, "bob@x", nss)
    other.start()
    rec.check(other.own().identity_key != public, "two devices got the same identity key")
    rec.sig(nss, own_priv is None, public.hex()[:6])
