from vt.identity_engine import arithmetic_case, fingerprint_case, generation_case, manager_case
from vt.runner import Family

LEVEL = "exploration"
RULE = (
    "each execution derives keys from one secret, or accesses the key pair over interruptions and restarts; distinct: the "
    "secret, or the sequence of accesses with their interruption points"
)
ASSUMPTIONS = ["the first access to a storage is not overlapped by another one", "the reference arithmetic in vt/curve.py"]
FAMILIES = [
    Family("arithmetic", arithmetic_case, 600, 60000, need=("pairs_judged",)),
    Family("fingerprints", fingerprint_case, 600, 60000, need=("unusual_fingerprints", "leading_zero_fingerprints")),
    Family("generation", generation_case, 800, 40000, need=(
        "accesses_judged", "interrupted_crash-before", "interrupted_crash-after", "interrupted_fail-before",
        "interrupted_fail-after")),
    Family("managers", manager_case, 300, 8000, need=("starts_judged",)),
]
