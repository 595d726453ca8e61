"""Recorded storages of the real backends (see golden.py)."""
import json

import omemo

from . import golden
from .real import OLD, TWO, RealNode, bundle_from_xml, bundle_to_xml, from_xml, to_xml
from .rt import Inconclusive
from .world import World

FOREVER = 60 * 60 * 24 * 365 * 100  # the recorded signed pre keys are arbitrarily old


def deliver(w, item, node):
    """item: {"ns", "from", "xml"}"""
    async def go():
        return await node.mgr.decrypt(await from_xml(item["xml"], item["ns"], item["from"], node))
    return w.call(go(), omemo.OMEMOException)


def posts(w, node, to_jid, plaintext, nss):
    result = w.call(node.mgr.encrypt(frozenset({to_jid}), {ns: plaintext for ns in nss}))
    return [{"ns": m.namespace, "from": node.jid, "xml": to_xml(m), "text": plaintext.decode()} for m in result.value[0]]


def automatic(w, mark, nodes):
    """Deliver what the library sent by itself."""
    while mark < len(w.sent):
        sender, message, jid = w.sent[mark]
        mark += 1
        receiver = nodes[jid]
        got = deliver(w, {"ns": message.namespace, "from": sender.jid, "xml": to_xml(message)}, receiver)
        if not got.ok or got.value[0] is not None:
            raise Inconclusive(f"automatic message not delivered: {got}")


def record(rng):
    w = World(rng)
    nss = rng.choice(([TWO], [OLD], [TWO, OLD], [OLD, TWO]))
    alice = RealNode(w, "alice@example.org", nss, label="desk", period=FOREVER)
    bob = RealNode(w, "bob@example.org", nss, label=None, period=FOREVER)
    nodes = {n.jid: n for n in (alice, bob)}
    alice.start(live=True)
    bob.start(live=True)
    for a, b in ((alice, bob), (bob, alice)):
        a.feed_lists(b.jid)
        for d in a.info(b.jid).values():
            w.call(a.mgr.set_trust(b.jid, d.identity_key, "Tverified"))
    first = rng.choice((alice, bob))
    other = bob if first is alice else alice
    flying = []
    stage = rng.randrange(4)
    for item in posts(w, first, other.jid, b"first", nss):
        if stage == 0:
            flying.append(item)  # not even the key exchange has arrived yet
        else:
            if stage == 1:
                other.mgr.before_history_sync()
            mark = len(w.sent)
            if deliver(w, item, other).value[0] != b"first":
                raise Inconclusive("conversation failed")
            automatic(w, mark, nodes)
    if stage >= 2:
        for i in range(rng.randint(1, 6)):
            a, b = rng.sample((alice, bob), 2)
            for item in posts(w, a, b.jid, f"chat {i}".encode(), nss):
                if rng.random() < 0.3:
                    flying.append(item)
                    continue
                mark = len(w.sent)
                if not deliver(w, item, b).ok:
                    raise Inconclusive("conversation failed")
                automatic(w, mark, nodes)
    return {
        "kind": "real", "nss": nss, "stage": stage, "first": first.jid, "disks": {n.jid: dict(n.disk) for n in nodes.values()},
        "lists": [[ns, jid, sorted(l.items())] for (ns, jid), l in sorted(w.lists.items())],
        "bundles": [[k[0], k[1], k[2], bundle_to_xml(b)] for k, b in sorted(w.bundles.items())],
        "inflight": flying,
        "own": {n.jid: golden.device_to_json(n.own()) for n in nodes.values()},
        "known": {a.jid: golden.devices_to_json(a.info(b.jid).values()) for a, b in ((alice, bob), (bob, alice))},
    }


def continue_real_case(rng, rec):
    options = golden.fixtures("real")
    name, text = options[rec.index % len(options)]
    f = json.loads(text)
    w = World(rng)
    nss = f["nss"]
    alice, bob = (RealNode(w, jid, nss, cache=rng.random() < 0.7, label="unused", period=FOREVER)
                  for jid in ("alice@example.org", "bob@example.org"))
    nodes = {n.jid: n for n in (alice, bob)}
    for ns, jid, entries in f["lists"]:
        w.lists[(ns, jid)] = {k: v for k, v in entries}
    for ns, jid, dev, xml in f["bundles"]:
        w.bundles[(ns, jid, dev)] = bundle_from_xml(xml, ns, jid, dev)
    for n in nodes.values():
        n.disk.update(f["disks"][n.jid])
        n.start()
        rec.count("storages_loaded")
        rec.check(golden.device_to_json(n.own()) == f["own"][n.jid], "own device reported differently", fixture=name)
        peer = bob if n is alice else alice
        got = golden.devices_to_json(n.info(peer.jid).values())
        rec.check(got == f["known"][n.jid], "devices reported differently", got=got, recorded=f["known"][n.jid])
        for ns in nss:
            local = w.run(n.backend(ns).get_bundle(n.jid, n.own().device_id))
            published = w.bundles[(ns, n.jid, n.own().device_id)]
            rec.check(bundle_to_xml(local) == bundle_to_xml(published) or set(local.bundle.pre_keys) ==
                      set(published.bundle.pre_keys), "published bundle is not the local one", fixture=name)
    rec.check(not [e for e in w.events if e.kind in ("upload_bundle", "upload_list", "delete_bundle")],
              "loading recorded data published something", fixture=name)
    flying = list(f["inflight"])
    rng.shuffle(flying)
    if rng.random() < 0.5:
        flying = f["inflight"]
    live = rng.random() < 0.5

    def leave():
        for n in rng.sample(list(nodes.values()), 2):
            mark = len(w.sent)
            w.call(n.mgr.after_history_sync())
            rec.count("pending_sent", len(w.sent) - mark)
            automatic_checked(rec, w, mark, nodes)
    if live:
        leave()
    for item in flying:
        receiver = next(n for n in nodes.values() if n.jid != item["from"])
        mark = len(w.sent)
        got = deliver(w, item, receiver)
        rec.check(got.ok and got.value[0] == item["text"].encode(), "message in flight not decrypted", fixture=name,
                  got=repr(got))
        rec.check(got.value[1].trust_level_name == "Tverified", "trust lost")
        rec.count("inflight_decrypted")
        if rng.random() < 0.2:
            receiver.start()
            live = False
        automatic_checked(rec, w, mark, nodes)
    if not live:
        leave()
    for i in range(4):
        sender, receiver = (alice, bob) if (i % 2 == 0) == (f["first"] == alice.jid) else (bob, alice)
        for item in posts(w, sender, receiver.jid, f"continued {i}".encode(), nss):
            got = deliver(w, item, receiver)
            rec.check(got.ok and got.value[0] == f"continued {i}".encode(), "session not continued", fixture=name,
                      got=repr(got))
            rec.count("continued_sessions")
    w.settle(4)
    rec.sig(name, [i["text"] for i in flying], live)


def automatic_checked(rec, w, mark, nodes):
    try:
        automatic(w, mark, nodes)
    except Inconclusive as e:
        rec.fail(str(e))
