from vt.keyuse_engine import keyuse_case
from vt.runner import Family
from vt.soak_engine import real_soak_case, soak_case

LEVEL = "exploration"
RULE = (
    "each execution is a history of sending, receiving, failing and crashing; every key material leaving the library is "
    "recorded with its session and ratchet position; distinct: the history with the outcome of every call"
)
ASSUMPTIONS = ["API calls on one session manager are serialized by the application"]
FAMILIES = [
    Family("faults", keyuse_case, 1200, 40000, need=(
        "keys_left_returned", "keys_left_sent", "keys_left_failed", "encrypt:crash", "decrypt:crash", "sync:crash",
        "replace:crash", "encrypt:failed", "sync:failed", "replace:ok", "refused_encryptions", "read_by_peers",
        "partial_encryptions")),
    Family("conversations", soak_case, 150, 8000, need=("delivered",)),
    Family("real", real_soak_case, 25, 800, need=("delivered",)),
]
