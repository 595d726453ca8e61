"""
Storages written by the released version (see tools/mkgolden.py) and their continuation with the current code. What the
recorded device knew is recorded next to the storage, as reported by the released version itself.
"""
import glob
import json
import os

import omemo

from . import toy
from .curve import clamp
from .decrypt_engine import GATE_ERRORS
from .rt import Inconclusive
from .world import Node, Peer, PlainStorage, World, _SilentEnv

HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "golden")
JIDS = ("bob@x", "carol@x.example", "dave@ü", "bob@x.y")
NS = ("urn:toy:2", "urn:toy:1", "urn:toy:0")  # as recorded
LABELS = (None, "phone", "", "☃ snow")
TRUST = ("T1", "Tsome thing", "D1", "U0", "Uother")


def device_to_json(d):
    return {"ns": sorted(d.namespaces), "active": dict(sorted(dict(d.active).items())), "jid": d.bare_jid,
            "dev": d.device_id, "ik": d.identity_key.hex(), "trust": d.trust_level_name, "label": d.label}


def devices_to_json(devices):
    return sorted((device_to_json(d) for d in devices), key=lambda d: (d["jid"], d["dev"]))


def message_to_json(m):
    keys = [[{"jid": e.bare_jid, "dev": e.device_id, "sid": e.sid, "side": e.side, "epoch": e.epoch, "n": e.n,
              "pn": e.pn, "key": e.key, "for": e.sealed_for.hex(), "bid": e.bid}, None if k is None else k.to_json()]
            for e, k in m.keys]
    return {"ns": m.namespace, "jid": m.bare_jid, "dev": m.device_id, "keys": keys,
            "content": [m.content.ct.hex(), m.content.tag, m.content.empty]}


def message_from_json(j):
    keys = frozenset(
        (toy.ToyEKM(e["jid"], e["dev"], e["sid"], e["side"], e["epoch"], e["n"], e["pn"], e["key"],
                    bytes.fromhex(e["for"]), e["bid"]), None if k is None else toy.ToyKex.from_json(k))
        for e, k in j["keys"])
    content = toy.ToyContent(bytes.fromhex(j["content"][0]), j["content"][1], j["content"][2])
    return omemo.Message(j["ns"], j["jid"], j["dev"], content, keys)


def bundle_to_json(b):
    return [b.namespace, b.bare_jid, b.device_id, b.identity_key.hex(), b.spk, sorted(b.pre_keys)]


def bundle_from_json(j):
    return toy.ToyBundle(j[0], j[1], j[2], bytes.fromhex(j[3]), j[4], j[5])


def record(rng):
    """Runs a history (with whatever version of the library is imported) and returns everything worth keeping."""
    w = World(rng)
    nss = rng.sample(NS, rng.randint(1, 3))
    node = Node(w, "alice@x", nss, label=rng.choice(LABELS), undecided=rng.choice(("U0", "Uinitial")))
    if rng.random() < 0.3:
        import base64  # pylint: disable=import-outside-toplevel
        node.disk["/ikp/is_seed"] = "false"
        node.disk["/ikp/key"] = json.dumps(base64.urlsafe_b64encode(clamp(rng.randbytes(32)).to_bytes(32, "little")).decode())
    w.lists[(nss[0], "alice@x")] = {77: "other", 78: None}
    node.start()
    me = node.own()
    peers = []
    for jid in rng.sample(JIDS, rng.randint(1, 3)) + (["alice@x"] if rng.random() < 0.5 else []):
        for _ in range(rng.randint(1, 2)):
            peers.append(Peer(w, jid, rng.randrange(1, 2 ** 31), rng.sample(nss, rng.randint(1, len(nss))),
                              label=rng.choice(LABELS), pre_keys=12))
    for p in peers:
        node.feed_lists(p.jid)
    for p in peers:
        node.info(p.jid)
    levels = {}
    for p in peers:
        if rng.random() < 0.85:
            levels[(p.jid, p.dev)] = rng.choice(TRUST)
            w.call(node.mgr.set_trust(p.jid, p.identity_key, levels[(p.jid, p.dev)]))
    ghost = rng.randbytes(32)
    w.call(node.mgr.set_trust(peers[0].jid, ghost, "Dghost"))
    due, synchronizing = set(), True
    inflight = []
    for step in range(rng.randint(3, 14)):
        p = rng.choice(peers)
        ns = rng.choice(p.namespaces)
        kind = rng.random()
        blocked = levels.get((p.jid, p.dev), "U").startswith("D")
        if kind < 0.5 and not blocked:
            if node.toy_session(ns, p.jid, p.dev) is not None and not p.has_session(ns, "alice@x", me.device_id):
                continue  # initiations would cross
            text = f"to alice {step}".encode()
            message, _ = p.send(ns, [("alice@x", me.device_id)], text)
            if rng.random() < 0.4:
                inflight.append((message, text))
                continue
            kex = p.key_for_me is not None and next(iter(message.keys))[1] is not None
            mark = len(w.sent)
            got = w.call(node.mgr.decrypt(message), *GATE_ERRORS)
            if not got.ok:
                raise Inconclusive("not delivered")
            if synchronizing:
                if kex:
                    due.add((ns, p.jid, p.dev))
            for _, m, _ in w.sent[mark:]:
                p.receive(m)
        elif kind < 0.75:
            trusted = levels.get((p.jid, p.dev), "U").startswith("T")
            others = [q for q in peers if q is not p and q.jid in (p.jid, "alice@x")]
            flying = {(m.bare_jid, m.device_id) for m, _ in inflight}
            if flying & {(q.jid, q.dev) for q in others + [p]}:
                continue  # initiations would cross
            if trusted and all(levels.get((q.jid, q.dev), "U")[0] in "TD" for q in others):
                messages, _ = w.call(node.mgr.encrypt(frozenset({p.jid}), {n: f"out {step}".encode() for n in nss}),
                                     omemo.NoEligibleDevices).value or ({}, ())
                for message in messages:
                    for q in peers:
                        if message.namespace in q.namespaces and q.key_for_me(message) and rng.random() < 0.7:
                            q.receive(message)
        elif kind < 0.85 and synchronizing:
            for _, m, _ in _leave(w, node):
                for q in peers:
                    if m.namespace in q.namespaces and q.key_for_me(m):
                        q.receive(m)
            synchronizing, due = False, set()
        elif kind < 0.9 and not synchronizing:
            node.mgr.before_history_sync()
            synchronizing = True
        elif kind < 0.95:
            ns = rng.choice(nss)
            w.lists[(ns, p.jid)] = {k: v for k, v in w.lists.get((ns, p.jid), {}).items()
                                    if k == me.device_id or rng.random() < 0.6}
            node.feed_lists(p.jid)
        else:
            w.call(node.mgr.set_own_label(rng.choice(LABELS)))
    jids = sorted({p.jid for p in peers})
    own, others = w.call(node.mgr.get_own_device_information()).value
    known = {jid: devices_to_json(node.info(jid).values()) for jid in jids}
    chains = {f"{p.jid} {p.dev}": dict(w.call(node.mgr.get_sending_chain_length(node.info(p.jid)[p.dev])).value)
              for p in peers}
    return {
        "kind": "toy", "nss": nss, "undecided": node.undecided, "disk": dict(node.disk),
        "lists": [[ns, jid, sorted(l.items())] for (ns, jid), l in sorted(w.lists.items())],
        "bundles": [bundle_to_json(b) for _, b in sorted(w.bundles.items())],
        "peers": [{"jid": p.jid, "dev": p.dev, "nss": p.namespaces, "label": p.label, "ik": p.identity_key.hex(),
                   "data": p.storage.data} for p in peers],
        "inflight": [[message_to_json(m), t.decode()] for m, t in inflight],
        "own": device_to_json(own), "others": devices_to_json(others), "known": known, "chains": chains,
        "due": sorted(due), "ghost": [peers[0].jid, ghost.hex(), "Dghost"], "uid": toy.uid(),
    }


def _leave(w, node):
    mark = len(w.sent)
    w.call(node.mgr.after_history_sync())
    return w.sent[mark:]


_FIXTURES = {}


def fixtures(kind):
    if kind not in _FIXTURES:
        _FIXTURES[kind] = []
        for path in sorted(glob.glob(os.path.join(HERE, f"{kind}-*.json"))):
            with open(path, encoding="utf8") as f:
                _FIXTURES[kind].append((os.path.basename(path), f.read()))
    return _FIXTURES[kind]


class Restored:
    def __init__(self, rng, text):
        self.f = f = json.loads(text)
        self.w = w = World(rng)
        toy._COUNTER[0] = f["uid"] + 10  # pylint: disable=protected-access
        self.node = node = Node(w, "alice@x", f["nss"], cache=rng.random() < 0.7, undecided=f["undecided"],
                                label="must not be used")
        node.disk.update(f["disk"])
        for ns, jid, entries in f["lists"]:
            w.lists[(ns, jid)] = {k: v for k, v in entries}
        for j in f["bundles"]:
            b = bundle_from_json(j)
            w.bundles[(b.namespace, b.bare_jid, b.device_id)] = b
        self.peers = {}
        for p in f["peers"]:
            peer = Peer.__new__(Peer)
            peer.world, peer.jid, peer.dev, peer.namespaces, peer.label = w, p["jid"], p["dev"], p["nss"], p["label"]
            peer.storage = PlainStorage()
            peer.storage.data = dict(p["data"])
            peer.backends = {ns: toy.ToyBackend(ns, peer.storage, _SilentEnv(w)) for ns in peer.namespaces}
            peer.identity_key = bytes.fromhex(p["ik"])
            self.peers[(peer.jid, peer.dev)] = peer


def continue_case(rng, rec):
    options = fixtures("toy")
    name, text = options[rec.index % len(options)]
    r = Restored(rng, text)
    f, w, node = r.f, r.w, r.node
    publications = ("upload_bundle", "upload_list", "delete_bundle")
    offline = lambda n, op, info: (  # noqa: E731
        omemo.BundleDownloadFailed("x") if op == "download_bundle" else
        omemo.DeviceListDownloadFailed("x") if op == "download_list" else None)
    w.rule = offline
    node.start()
    rec.count("storages_loaded")
    rec.check(not [e for e in w.events if e.kind in publications], "loading recorded data published something",
              fixture=name)
    due, synchronizing = {tuple(d) for d in f["due"]}, True

    def leave():
        nonlocal due, synchronizing
        sent = _leave(w, node)
        got = sorted((m.namespace, jid, next(iter(m.keys))[0].device_id) for _, m, jid in sent)
        rec.check(got == sorted(due), "pending messages differ", got=got, recorded=sorted(due), fixture=name)
        for _, m, jid in sent:
            peer = r.peers[(jid, next(iter(m.keys))[0].device_id)]
            rec.check(peer.receive(m)[0] is None, "pending message with content")
            rec.count("pending_sent")
        synchronizing, due = False, set()
    answered = set()
    if rng.random() < 0.3:
        answered = due
        leave()
    own, others = w.call(node.mgr.get_own_device_information()).value
    rec.check(device_to_json(own) == f["own"], "own device reported differently", got=device_to_json(own),
              recorded=f["own"], fixture=name)
    rec.check(devices_to_json(others) == f["others"], "other own devices reported differently", fixture=name,
              got=devices_to_json(others), recorded=f["others"])
    for jid, recorded in f["known"].items():
        got = devices_to_json(node.info(jid).values())
        rec.check(got == recorded, "devices reported differently", jid=jid, got=got, recorded=recorded, fixture=name)
        rec.count("devices_compared", len(got))
    trust = {(d["jid"], d["ik"]): d["trust"] for ds in f["known"].values() for d in ds}
    for who, recorded in f["chains"].items():
        jid, dev = who.rsplit(" ", 1)
        info = node.info(jid)[int(dev)]
        got = dict(w.call(node.mgr.get_sending_chain_length(info)).value)
        for ns in [ns for ns in got if (ns, jid, int(dev)) in answered]:
            got[ns] = recorded[ns]  # (one message was sent by now)
        rec.check(got == recorded, "sending chain lengths differ", device=who, got=got, recorded=recorded, fixture=name)
        rec.count("chains_compared")
    w.rule = None
    steps = ["inflight", "sync", "send", "ghost"]
    rng.shuffle(steps)
    if steps.index("send") < steps.index("inflight"):  # initiations would cross
        i, j = steps.index("send"), steps.index("inflight")
        steps[i], steps[j] = steps[j], steps[i]
    order = list(steps)
    for step in steps:
        if step == "inflight":
            # In the order of sending: skipped message keys are the backend's business.
            for j, plaintext in f["inflight"]:
                message = message_from_json(j)
                peer = r.peers[(message.bare_jid, message.device_id)]
                level = trust.get((peer.jid, peer.identity_key.hex()), f["undecided"])
                had_session = f"/toy/{message.namespace}/session/{peer.jid}/{peer.dev}" in node.disk
                kex = next(iter(message.keys))[1]
                mark = len(w.sent)
                outcome = w.call(node.mgr.decrypt(message), *GATE_ERRORS)
                if level.startswith("D"):
                    rec.check(outcome.raised(omemo.SenderDistrusted), "distrusted sender accepted", fixture=name)
                    continue
                if kex is None and not had_session:
                    continue
                if not outcome.ok and outcome.raised(omemo.KeyExchangeFailed):
                    # Built from a key exchange that a later one already superseded: not a statement about the storage.
                    rec.count("inflight_superseded")
                    continue
                rec.check(outcome.ok and outcome.value[0] == plaintext.encode(), "message in flight not decrypted",
                          fixture=name, outcome=repr(outcome))
                rec.check(outcome.value[1].trust_level_name == level, "trust level of the sender differs")
                rec.count("inflight_decrypted")
                if synchronizing and kex is not None:
                    due.add((message.namespace, peer.jid, peer.dev))
                for _, m, _ in w.sent[mark:]:
                    peer.receive(m)
        elif step == "sync":
            leave()
        elif step == "ghost":
            jid, key, level = f["ghost"]
            dev = rng.randrange(1, 2 ** 31)
            ns = f["nss"][0]
            w.bundles[(ns, jid, dev)] = toy.ToyBundle(ns, jid, dev, bytes.fromhex(key), 1, (1,))
            w.lists.setdefault((ns, jid), {})[dev] = None
            node.feed_lists(jid)
            info = node.info(jid).get(dev)
            rec.check(info is not None and info.trust_level_name == level, "trust set for a key never seen is lost",
                      got=info, fixture=name)
            rec.count("ghosts")
        else:
            for jid in sorted({p.jid for p in r.peers.values()} - {"alice@x"}):
                node.decide = None
                infos = dict(node.info(jid))
                infos.update(node.info("alice@x"))
                undecided = [d for d in list(node.info(jid).values()) + list(node.info("alice@x").values())
                             if d.trust_level_name.startswith("U") and d.device_id != own.device_id]
                for d in undecided:
                    w.call(node.mgr.set_trust(d.bare_jid, d.identity_key, "Tnow"))
                    trust[(d.bare_jid, d.identity_key.hex())] = "Tnow"
                sessions = set(node.toy_sessions())
                mark = len(w.events)
                result = w.call(node.mgr.encrypt(frozenset({jid}), {n: b"continued" for n in f["nss"]}),
                                omemo.NoEligibleDevices)
                for e in w.since(mark, "be.build_active"):
                    rec.check(f"/toy/{e.ns}/session/{e.jid}/{e.dev}" not in sessions,
                              "an existing session was not continued", fixture=name)
                if not result.ok:
                    continue
                for message in result.value[0]:
                    for ekm, _ in message.keys:
                        peer = r.peers.get((ekm.bare_jid, ekm.device_id))
                        if peer is None:
                            continue
                        rec.check(peer.receive(message)[0] == b"continued", "message not readable", fixture=name)
                        rec.count("continued_sessions" if f"/toy/{message.namespace}/session/{peer.jid}/{peer.dev}"
                                  in sessions else "new_sessions")
            rec.check(True, "sent")
    if rng.random() < 0.3:
        jid = rng.choice(sorted(set(f["known"]) - {"alice@x"}))
        w.call(node.mgr.purge_bare_jid(jid))
        left = [k for k in node.disk if f"/{jid}/" in k + "/" and not k.startswith("/trust/")]
        rec.check(not left, "recorded data of a purged account left", left=left)
        rec.count("purged")
        order.append("purge")
    if rng.random() < 0.3:
        after = rng.sample(NS, rng.randint(1, 3))
        node.start(after)
        now = node.own()
        rec.check((now.device_id, now.identity_key, now.label) == (own.device_id, own.identity_key, own.label)
                  and now.namespaces == frozenset(after), "own device differs after changing the backends", got=now)
        for ns in NS:
            listed = own.device_id in w.lists.get((ns, "alice@x"), {})
            rec.check(listed == (ns in after), "device listed for the wrong backends after changing them", ns=ns)
            rec.check(((ns, "alice@x", own.device_id) in w.bundles) == (ns in after), "bundle left or missing", ns=ns)
        rec.count("backends_changed")
        order.append(sorted(after))
    w.settle(4)
    rec.sig(name, order)


def incomplete_case(rng, rec):
    """The released version could leave devices without activity information for a backend when it was interrupted."""
    options = fixtures("toy")
    name, text = options[rec.index % len(options)]
    r = Restored(rng, text)
    f, w, node = r.f, r.w, r.node
    expected = {jid: {d["dev"]: d for d in ds} for jid, ds in f["known"].items()}
    pool = [d for ds in expected.values() for d in ds.values() if d["ns"] and (d["jid"], d["dev"]) != ("alice@x", f["own"]["dev"])]
    damaged = rng.sample(pool, rng.randint(1, min(2, len(pool))))
    for d in damaged:
        gone = rng.sample(d["ns"], rng.randint(1, len(d["ns"])))
        d["lost"] = gone
        d["ns"] = [n for n in d["ns"] if n not in gone]
        d["active"] = {n: a for n, a in d["active"].items() if n not in gone}
        node.disk[f"/devices/{d['jid']}/{d['dev']}/active"] = json.dumps(d["active"])
    rec.count("incomplete_devices", len(damaged))
    node.wander = rng
    node.start()

    def compare():
        for jid, ds in expected.items():
            got = {d["dev"]: d for d in devices_to_json(node.info(jid).values())}
            want = {k: {a: b for a, b in d.items() if a != "lost"} for k, d in ds.items()}
            rec.check(got == want, "devices with incomplete information reported wrongly", got=got, expected=want, fixture=name)
    order = [s for s in ("info", "encrypt", "info", "restart") if rng.random() < 0.7]
    for step in order:
        if step == "info":
            compare()
        elif step == "restart":
            node.start()
        else:
            d = rng.choice(damaged)
            if d["jid"] == "alice@x":
                continue
            node.decide = _trust_everybody
            outcome = w.call(node.mgr.encrypt(frozenset({d["jid"]}), {n: b"text" for n in f["nss"]}), omemo.NoEligibleDevices)
            for message in outcome.value[0] if outcome.ok else ():
                for ekm, _ in message.keys:
                    rec.check((ekm.bare_jid, ekm.device_id) != (d["jid"], d["dev"]) or message.namespace in d["ns"],
                              "encrypted with a backend the device isn't known to be active for", fixture=name)
            for jid, ds in expected.items():
                for entry in ds.values():
                    if jid in (d["jid"], "alice@x") and entry["trust"].startswith("U") and outcome.ok:
                        now = node.info(jid)[entry["dev"]].trust_level_name
                        rec.check(now in ("Tnow", entry["trust"]), "trust changed")
                        entry["trust"] = now
            if not outcome.ok:
                for jid in expected:
                    for entry in expected[jid].values():
                        entry["trust"] = node.info(jid)[entry["dev"]].trust_level_name
            rec.count("encryptions_with_incomplete", outcome.ok)
    compare()
    for d in damaged:
        for ns in d.pop("lost"):
            w.lists.setdefault((ns, d["jid"]), {})[d["dev"]] = None
            w.lists[(ns, d["jid"])] = dict(w.lists[(ns, d["jid"])])
            listed = w.lists[(ns, d["jid"])]
            for other in expected[d["jid"]].values():
                # (everybody else keeps the status)
                if other is not d and other["active"].get(ns):
                    listed.setdefault(other["dev"], None)
                elif other is not d:
                    listed.pop(other["dev"], None)
            for dev, label in list(listed.items()):
                if dev in expected[d["jid"]]:
                    listed[dev] = expected[d["jid"]][dev]["label"]
                elif (d["jid"], dev) != ("alice@x", f["own"]["dev"]):
                    del listed[dev]
            w.call(node.mgr.update_device_list(ns, d["jid"], dict(listed)))
            d["ns"], d["active"] = sorted(d["ns"] + [ns]), dict(sorted({**d["active"], ns: True}.items()))
            rec.count("completed_again")
    compare()
    rec.sig(name, order, [(d["dev"], d["ns"]) for d in damaged])


async def _trust_everybody(mgr, undecided, _identifier):
    for d in undecided:
        await mgr.set_trust(d.bare_jid, d.identity_key, "Tnow")
