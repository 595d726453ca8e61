from vt.decrypt_engine import decrypt_case
from vt.decrypt_faults import FaultyDecrypt
from vt.runner import Family

LEVEL = "exploration"
RULE = ("each execution is a history of honest and forged messages against one running library; distinct: the sequence"
        " of (accepted/refused, reason, kind of forgery, synchronization mode, chain position, injected failure and its"
        " position) it produced")
ASSUMPTIONS = ["backends follow their contract: failing operations do not change persisted data",
               "API calls on one session manager are serialized by the application"]
FORGE = {"forge": 14, "replay": 3, "trust": 1, "network": 2}
FAMILIES = [
    Family("forgeries", lambda rng, rec: decrypt_case(rng, rec, weights=FORGE), 900, 20000,
           need=("accepted", "forged:broken-content", "forged:broken-key", "forged:kex-stolen-identity",
                 "refused:DecryptionFailed", "refused:KeyExchangeFailed")),
    Family("faults", lambda rng, rec: decrypt_case(rng, rec, cls=FaultyDecrypt, yields=False), 900, 20000,
           need=("retried_after_fault",)),
]
