from vt.encrypt_engine import encrypt_case
from vt.runner import Family

LEVEL = "exploration"
RULE = (
    "each execution is an application history (devices, sessions, trust, sabotaged bundles) followed by encryptions; distinct: the per-encryption tuples of backend order, recipients, trust level, chosen backend and session state of each candidate, and outcome"
)
ASSUMPTIONS = [
    "API calls on one session manager are serialized by the application",
    "backends follow their contract (the toy backend does so strictly)"
]
FAMILIES = [
    Family("mixed", lambda rng, rec: encrypt_case(rng, rec), 1200, 25000,
           need=("device_encryptions", "delivered", "no_eligible_devices", "reject_unknown_namespace")),
    Family("long", lambda rng, rec: encrypt_case(rng, rec, rounds=8), 150, 3000, need=("delivered",)),
    Family("very long", lambda rng, rec: encrypt_case(rng, rec, rounds=45), 40, 1000, need=("delivered",)),
    Family("crowds", lambda rng, rec: encrypt_case(rng, rec, "crowd"), 12, 300, need=("delivered",)),
]
