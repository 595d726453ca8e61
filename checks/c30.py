from vt.btbv_engine import btbv_case
from vt.runner import Family

LEVEL = "exploration"
RULE = (
    "each execution is a history of trust changes, new devices, restarts and encryptions of an application using the "
    "example trust manager; distinct: the history with the trust levels before and after each encryption"
)
ASSUMPTIONS = ["API calls on one session manager are serialized by the application"]
FAMILIES = [
    Family("histories", btbv_case, 1500, 40000, need=(
        "encryptions", "blind_devices", "manual_devices", "failed_decisions", "still_undecided", "unknown_levels")),
]
