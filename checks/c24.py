from vt.golden import continue_case, incomplete_case
from vt.golden_real import continue_real_case
from vt.runner import Family

LEVEL = "exploration"
RULE = (
    "each execution loads one of the recorded storages with the current code and continues its history in some order; "
    "distinct: recorded storage and order of continuation"
)
ASSUMPTIONS = ["the recorded storages (golden/, written by the unmodified version 1.1.0) stand for all existing data"]
FAMILIES = [
    Family("toy", continue_case, 480, 12000, need=(
        "storages_loaded", "devices_compared", "chains_compared", "inflight_decrypted", "pending_sent", "ghosts",
        "continued_sessions", "purged")),
    Family("incomplete", incomplete_case, 240, 6000, need=(
        "incomplete_devices", "encryptions_with_incomplete", "completed_again")),
    Family("real", continue_real_case, 48, 1200, need=("storages_loaded", "inflight_decrypted", "continued_sessions")),
]
