from vt.decrypt_engine import decrypt_case
from vt.runner import Family
from vt.world import NS

LEVEL = "exploration"
RULE = (
    "each execution is a history of messages arriving at one running library; distinct: the sequence of (accepted/refused and why, kind of message, synchronization mode, side and position in the chain, responses sent) it produced"
)
ASSUMPTIONS = [
    "API calls on one session manager are serialized by the application",
    "backends follow their contract (the toy backend does so strictly)"
]
FAMILIES = [
    Family("synchronization", lambda rng, rec: decrypt_case(
        rng, rec, peers=rng.randint(2, 6), weights={"sync": 6, "restart": 3, "burst": 2, "forge": 2}), 900, 20000,
           need=("responses_deferred", "sync_queue_sent", "sync_exit_failures", "restarts")),
    Family("stale chains", lambda rng, rec: decrypt_case(
        rng, rec, peers=rng.randint(2, 4), jids=("bob@x", "bob@x", "bob@x", "carol@x"), steps=rng.randint(25, 50), weights={
            "burst": 6, "sync": 2, "reply": 8, "read": 5, "forge": 1, "trust": 0.3, "network": 0.3, "feed": 0.5}), 250, 6000,
           need=("responses_deferred", "sync_queue_sent", "sessions_initiated")),
    Family("stale groups", lambda rng, rec: decrypt_case(
        rng, rec, peers=rng.randint(3, 5), jids=("bob@x", "bob@x", "bob@x", "carol@x"), nss=rng.sample(NS, rng.randint(1, 2)),
        steps=rng.randint(4, 12), weights={"group": 25, "sync": 8, "trust": 0, "network": 0.3, "storm": 0}), 250, 6000,
           need=("groups", "groups_due", "sync_queue_sent")),
    Family("mixed", lambda rng, rec: decrypt_case(rng, rec), 300, 8000, need=("sync_exits",)),
]
