from vt.lists_engine import lists_case
from vt.encrypt_engine import encrypt_case
from vt.decrypt_engine import decrypt_case
from vt.runner import Family

LEVEL = "exploration"
RULE = (
    "each execution is a history of device list, bundle, label, trust and restart operations; distinct: the sequence of operations with their parameters' shape; each execution is an application history (devices, sessions, trust, sabotaged bundles) followed by encryptions; distinct: the per-encryption tuples of backend order, recipients, trust level, chosen backend and session state of each candidate, and outcome; each execution is a history of messages arriving at one running library; distinct: the sequence of (accepted/refused and why, kind of message, synchronization mode, side and position in the chain, responses sent) it produced"
)
ASSUMPTIONS = [
    "API calls on one session manager are serialized by the application",
    "backends follow their contract (the toy backend does so strictly)"
]
FAMILIES = [
    Family("reported", lambda rng, rec: lists_case(rng, rec, weights={"trust": 10, "bundles": 8, "restart": 3}), 1000, 20000,
           need=("trust_set", "device_states_compared", "shared_keys")),
    Family("encryption", lambda rng, rec: encrypt_case(rng, rec), 1000, 15000, need=("device_encryptions",)),
    Family("decryption", lambda rng, rec: decrypt_case(rng, rec, weights={"trust": 8, "restart": 2}), 400, 10000,
           need=("refused:SenderDistrusted", "accepted")),
]
