from vt.create_engine import threshold_case
from vt.decrypt_engine import decrypt_case
from vt.runner import Family

LEVEL = "exploration"
RULE = (
    "each execution is a history of messages arriving at one running library; distinct: the sequence of (accepted/refused and why, kind of message, synchronization mode, side and position in the chain, responses sent) it produced"
)
ASSUMPTIONS = [
    "API calls on one session manager are serialized by the application",
    "backends follow their contract (the toy backend does so strictly)"
]
FAMILIES = [
    Family("key exchanges", lambda rng, rec: decrypt_case(
        rng, rec, steps=rng.randint(8, 22), weights={"storm": 5, "collide": 4, "sync": 4, "forge": 2, "burst": 0}),
           450, 9000, need=("pre_keys_consumed", "pre_keys_kept", "colliding_pre_keys")),
    Family("mixed", lambda rng, rec: decrypt_case(rng, rec, weights={"collide": 3, "sync": 4}), 400, 9000,
           need=("pre_keys_consumed",)),
    Family("thresholds", threshold_case, 160, 400, need=("thresholds_accepted", "thresholds_rejected")),
]
