from vt.decrypt_engine import decrypt_case
from vt.runner import Family

LEVEL = "exploration"
RULE = (
    "each execution is a history of messages arriving at one running library; distinct: the sequence of (accepted/refused and why, kind of message, synchronization mode, side and position in the chain, responses sent) it produced"
)
ASSUMPTIONS = [
    "API calls on one session manager are serialized by the application",
    "backends follow their contract (the toy backend does so strictly)"
]
FAMILIES = [
    Family("mixed", lambda rng, rec: decrypt_case(rng, rec), 1000, 25000,
           need=("accepted", "refused:MessageNotForUs", "refused:SenderNotFound", "refused:SenderDistrusted",
                 "refused:UnknownTrustLevel", "refused:UnknownNamespace", "refused:NoSession",
                 "refused:PublicDataInconsistency", "refused:DecryptionFailed", "refused:KeyExchangeFailed",
                 "refused:DeviceListDownloadFailed", "refused:TooManySkippedMessageKeys")),
    Family("gates", lambda rng, rec: decrypt_case(rng, rec, weights={"forge": 12, "trust": 6, "network": 4, "feed": 3}),
           500, 12000, need=("accepted",)),
]
