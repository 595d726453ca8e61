from vt.encrypt_engine import encrypt_case
from vt.decrypt_engine import decrypt_case
from vt.replace_engine import ReplaceScenario
from vt.runner import Family

LEVEL = "exploration"
RULE = (
    "each execution is an application history (devices, sessions, trust, sabotaged bundles) followed by encryptions; distinct: the per-encryption tuples of backend order, recipients, trust level, chosen backend and session state of each candidate, and outcome; each execution is a history of messages arriving at one running library; distinct: the sequence of (accepted/refused and why, kind of message, synchronization mode, side and position in the chain, responses sent) it produced"
)
ASSUMPTIONS = [
    "API calls on one session manager are serialized by the application",
    "backends follow their contract (the toy backend does so strictly)"
]
FAMILIES = [
    Family("sending", lambda rng, rec: encrypt_case(rng, rec), 900, 20000, need=("device_encryptions",)),
    Family("receiving", lambda rng, rec: decrypt_case(rng, rec, weights={"forge": 12, "network": 2, "newpeer": 2}),
           700, 15000, need=("refused:PublicDataInconsistency", "forged:kex-identity", "accepted")),
    Family("replacing", lambda rng, rec: decrypt_case(rng, rec, cls=ReplaceScenario, weights={"replace": 8, "forge": 1}),
           400, 8000, need=("foreign_identity_offered", "replacement_failed:KeyExchangeFailed", "sessions_replaced")),
]
