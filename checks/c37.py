from vt.growth_engine import growth_case
from vt.runner import Family

LEVEL = "exploration"
RULE = (
    "each execution repeats a script of operations with the same accounts and devices 14 times (and more if something grew) and "
    "compares the storage, the memory reachable from the library's objects and modules, the background tasks and the published data "
    "after 3 and after 14 (25, 36, ...) rounds; distinct: the script with the final measurements"
)
ASSUMPTIONS = [
    "growth by less than one element in about every round isn't noticed",
    "data reachable only from the application's or the backends' objects is theirs",
]
FAMILIES = [
    Family("scripts", growth_case, 160, 4000, need=(
        "measured", "unchanged", "decrypted", "encrypted", "refused", "calls_failed", "cancelled")),
    Family("endless", lambda rng, rec: growth_case(rng, rec, True), 90, 2000, need=("measured", "unchanged", "decrypted")),
]
