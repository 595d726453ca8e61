from vt.runner import Family
from vt.storage_engine import compare_case, isolation_case, schedule_case

LEVEL = "exploration"
RULE = (
    "each execution is a history of overlapping or sequential storage operations on a slow, failing underlying storage; "
    "distinct: the start and end of every operation, its kind and whether it landed"
)
ASSUMPTIONS = [
    "writes to one key are not overlapped by the caller; a failing write of the underlying storage may or may not have had its effect there"
]
FAMILIES = [
    Family("schedules", schedule_case, 20000, 400000,
           need=("loads_overlapping_writes", "writes_failed", "writes_failed_late", "loads_judged", "loads_failed")),
    Family("comparison", compare_case, 3000, 100000, need=(
        "loads_compared", "mutations_compared", "answered_without_cache")),
    Family("isolation", isolation_case, 2000, 60000, need=("values_mutated",)),
]
