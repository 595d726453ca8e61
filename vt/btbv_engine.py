"""The example trust manager (blind trust before verification) on top of the real library."""
import importlib.util
import os

import omemo

from .world import NS, Node, Peer, World

_SPEC = importlib.util.spec_from_file_location(
    "btbv_session_manager", os.path.join(os.environ.get("VT_REPO", "/repo"), "examples", "btbv_session_manager.py"))
btbv = importlib.util.module_from_spec(_SPEC)
_SPEC.loader.exec_module(btbv)

LEVELS = ("TRUSTED", "BLINDLY_TRUSTED", "UNDECIDED", "DISTRUSTED")


class DecisionRefused(omemo.TrustDecisionFailed):
    pass


def btbv_case(rng, rec):
    w = World(rng, yields=rng.random() < 0.3)
    nss = rng.sample(NS, rng.randint(1, 2))
    node = Node(w, "alice@x", nss, undecided="UNDECIDED", cache=rng.random() < 0.5)
    node.base = btbv.BTBVSessionManager
    node.wander = rng
    calls, plan = [], {}

    async def prompt(self, devices, identifier):
        calls.append(("prompt", {(d.bare_jid, d.device_id) for d in devices}, identifier, type(devices)))
        if plan.get("fail"):
            raise DecisionRefused()
        for d in devices:
            if plan.get("skip") != (d.bare_jid, d.device_id):
                await self.set_trust(d.bare_jid, d.identity_key, plan["level"])

    async def blindly(_self, devices, identifier):
        calls.append(("blind", {(d.bare_jid, d.device_id) for d in devices}, identifier, type(devices)))
    node.class_attributes = {"_prompt_manual_trust": prompt, "_devices_blindly_trusted": blindly}
    node.start(live=rng.random() < 0.6)
    jids = ["bob@x", "alice@x.example", "Bob@x"][:rng.randint(1, 3)]
    peers, model = [], {}
    trace = []

    def add(jid):
        p = Peer(w, jid, rng.randrange(1, 2 ** 31), rng.sample(nss, rng.randint(1, len(nss))), pre_keys=3)
        peers.append(p)
        node.feed_lists(jid)
        node.info(jid)
        model[(p.jid, p.identity_key)] = "UNDECIDED"
        if rng.random() < 0.3:  # an inactive device: its trust counts, it isn't addressed
            for ns in p.namespaces:
                w.lists[(ns, jid)].pop(p.dev)
            node.feed_lists(jid)
    for jid in jids:
        for _ in range(rng.randint(1, 2)):
            add(jid)
    for _ in range(rng.randint(2, 7)):
        kind = rng.random()
        if kind < 0.3:
            p = rng.choice(peers)
            level = rng.choice(LEVELS)
            model[(p.jid, p.identity_key)] = level
            w.call(node.mgr.set_trust(p.jid, p.identity_key, level))
            trace.append(("set", level))
            continue
        if kind < 0.45:
            add(rng.choice(jids + ["alice@x"]))
            trace.append("add")
            continue
        if kind < 0.55:
            node.start(live=rng.random() < 0.6)
            trace.append("restart")
            continue
        targets = frozenset(rng.sample(jids, rng.randint(1, len(jids))))
        active = [p for p in peers if p.jid in targets | {"alice@x"}
                  and any(p.dev in w.lists.get((ns, p.jid), {}) for ns in nss)]
        undecided = {p for p in active if model[(p.jid, p.identity_key)] == "UNDECIDED"}
        blind = {p for p in undecided if all(level in ("UNDECIDED", "BLINDLY_TRUSTED")
                                             for (jid, _), level in model.items() if jid == p.jid)}
        manual = undecided - blind
        plan.clear()
        plan["level"] = rng.choice(("TRUSTED", "DISTRUSTED", "BLINDLY_TRUSTED"))
        plan["fail"] = rng.random() < 0.15
        if manual and rng.random() < 0.15:
            p = rng.choice(sorted(manual, key=lambda p: p.dev))
            plan["skip"] = (p.jid, p.dev)
        identifier = rng.choice((None, "", "id-1", "ü"))
        calls.clear()
        before = dict(model)
        outcome = w.call(node.mgr.encrypt(targets, {ns: b"text" for ns in nss}, identifier=identifier),
                         omemo.NoEligibleDevices, omemo.StillUndecided, omemo.TrustDecisionFailed)
        want = []
        if blind:
            want.append(("blind", {(p.jid, p.dev) for p in blind}, identifier))
            for p in blind:
                model[(p.jid, p.identity_key)] = "BLINDLY_TRUSTED"
        failed = False
        if manual:
            want.append(("prompt", {(p.jid, p.dev) for p in manual}, identifier))
            failed = plan["fail"]
            if not failed:
                for p in manual:
                    if plan.get("skip") != (p.jid, p.dev):
                        model[(p.jid, p.identity_key)] = plan["level"]
        got = [c[:3] for c in calls]
        rec.check(sorted(got, key=repr) == sorted(want, key=repr), "callbacks differ", got=got, expected=want)
        rec.check(all(issubclass(c[3], frozenset) for c in calls), "not a frozen set handed out")
        rec.count("encryptions")
        rec.count("blind_devices", len(blind))
        rec.count("manual_devices", len(manual))
        for jid in sorted({p.jid for p in peers}):
            infos = node.info(jid)
            for p in peers:
                if p.jid == jid:
                    rec.check(infos[p.dev].trust_level_name == model[(jid, p.identity_key)],
                              "trust level differs", got=infos[p.dev].trust_level_name,
                              expected=model[(jid, p.identity_key)], before=before[(jid, p.identity_key)])
        if failed:
            rec.check(outcome.raised(DecisionRefused), "failed decision not reported", outcome=repr(outcome))
            rec.count("failed_decisions")
        elif plan.get("skip"):
            rec.check(outcome.raised(omemo.StillUndecided), "undecided device not reported", outcome=repr(outcome))
            rec.count("still_undecided")
        else:
            allowed = {(p.jid, p.dev) for p in active
                       if model[(p.jid, p.identity_key)] in ("TRUSTED", "BLINDLY_TRUSTED")}
            reachable = targets <= {jid for jid, _ in allowed}
            rec.check(outcome.ok if reachable else outcome.raised(omemo.NoEligibleDevices),
                      "wrong outcome after all devices were decided on", outcome=repr(outcome), reachable=reachable)
            rec.count("decided_encryptions")
        if outcome.ok:
            addressed = {(e.bare_jid, e.device_id) for m in outcome.value[0] for e, _ in m.keys}
            rec.check(addressed == allowed, "not encrypted for exactly the trusted devices", got=addressed,
                      expected=allowed)
        trace.append(("encrypt", sorted((p.jid, model[(p.jid, p.identity_key)], before[(p.jid, p.identity_key)])
                                        for p in active)))
    if rng.random() < 0.3:
        candidates = [p for p in peers if p.jid != "alice@x"
                      and any(p.dev in w.lists.get((ns, p.jid), {}) for ns in nss)]
        if candidates:
            p = rng.choice(candidates)
            w.call(node.mgr.set_trust(p.jid, p.identity_key, rng.choice(("trusted", "", "OTHER"))))
            outcome = w.call(node.mgr.encrypt(frozenset({p.jid}), {ns: b"text" for ns in nss}), omemo.UnknownTrustLevel)
            rec.check(not outcome.ok, "unknown trust level not reported")
            rec.count("unknown_levels")
    rec.sig(trace)
