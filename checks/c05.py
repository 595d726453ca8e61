from vt.runner import Family
from vt.soak_engine import real_soak_case, soak_case

LEVEL = "exploration"
RULE = (
    "each execution is a conversation of 2 to 6 devices over a network that reorders, loses and repeats, with restarts; "
    "distinct: the sequence of sends, deliveries and restarts"
)
ASSUMPTIONS = [
    "session initiations don't cross, and no two initiators pick the same one-time pre key at the same time",
    "API calls on one session manager are serialized by the application"
]
NEED = ("delivered", "delivered_empty", "delivered_with_key_exchange", "repeated_refused", "restarts", "lost", "automatic")
FAMILIES = [
    Family("toy", soak_case, 800, 25000, need=NEED),
    Family("real", real_soak_case, 60, 1500, need=NEED),
]
