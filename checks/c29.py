from vt.lists_engine import lists_case
from vt.encrypt_engine import encrypt_case
from vt.runner import Family

LEVEL = "exploration"
RULE = (
    "each execution is a history of device list, bundle, label, trust and restart operations; distinct: the sequence of operations with their parameters' shape; each execution is an application history (devices, sessions, trust, sabotaged bundles) followed by encryptions; distinct: the per-encryption tuples of backend order, recipients, trust level, chosen backend and session state of each candidate, and outcome"
)
ASSUMPTIONS = [
    "API calls on one session manager are serialized by the application",
    "backends follow their contract (the toy backend does so strictly)"
]
FAMILIES = [
    Family("lookup", lambda rng, rec: lists_case(rng, rec, weights={"bundles": 12, "push": 6, "restart": 3}), 1100, 25000,
           need=("identities_learned", "lookups")),
    Family("encryption", lambda rng, rec: encrypt_case(rng, rec), 300, 5000, need=("device_encryptions",)),
]
