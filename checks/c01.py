from vt.encrypt_engine import encrypt_case
from vt.runner import Family

LEVEL = "exploration"
RULE = (
    "each execution is an application history (devices, sessions, trust, sabotaged bundles) followed by encryptions; distinct: the per-encryption tuples of backend order, recipients, trust level, chosen backend and session state of each candidate, and outcome"
)
ASSUMPTIONS = [
    "API calls on one session manager are serialized by the application",
    "backends follow their contract (the toy backend does so strictly)"
]
FAMILIES = [
    Family("mixed", lambda rng, rec: encrypt_case(rng, rec), 1000, 25000,
           need=("device_encryptions", "trust_decisions", "still_undecided", "trust_decision_failed")),
    Family("levels", lambda rng, rec: encrypt_case(rng, rec, "unknown-levels"), 500, 10000,
           need=("unknown_trust_level",)),
    Family("crowds", lambda rng, rec: encrypt_case(rng, rec, "crowd"), 12, 300, need=("device_encryptions", "trust_decisions")),
]
