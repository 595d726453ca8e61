from vt.decrypt_engine import decrypt_case
from vt.runner import Family

LEVEL = "exploration"
RULE = (
    "each execution is a history of messages arriving at one running library; distinct: the sequence of (accepted/refused and why, kind of message, synchronization mode, side and position in the chain, responses sent) it produced"
)
ASSUMPTIONS = [
    "API calls on one session manager are serialized by the application",
    "backends follow their contract (the toy backend does so strictly)"
]
FAMILIES = [
    Family("live", lambda rng, rec: decrypt_case(rng, rec, weights={"burst": 5, "sync": 0.6, "restart": 0.3}), 700, 15000,
           need=("responses_kex", "responses_staleness", "no_response_due", "automatic_messages_read")),
    Family("mixed", lambda rng, rec: decrypt_case(rng, rec, weights={"burst": 2}), 400, 10000,
           need=("responses_kex", "no_response_due")),
]
