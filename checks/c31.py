from vt.overlap_engine import overlap_case
from vt.runner import Family

LEVEL = "exploration"
RULE = (
    "each execution is a history of rounds; in each round one operation per account runs at the same time as those on the "
    "other accounts, with storage, server and user taking random time; distinct: the operations and the order they finish in"
)
ASSUMPTIONS = [
    "operations on the same account are serialized by the application; the operations in flight address different accounts, "
    "plus at most one change of the own label; at most one of them is the first message of a new session",
    "the session data of the test backends is written atomically per session",
]
FAMILIES = [
    Family("overlapping", overlap_case, 4000, 100000, need=(
        "delivered", "decrypted", "decisions", "replaced", "finished_in_another_order", "overlapping", "op:push",
        "op:refresh", "op:info", "op:trust", "op:chain", "op:label", "no_eligible_devices", "responses", "deferred_responses",
        "several_recipients", "waited_for_the_others", "encryption_errors", "failed_replacements")),
]
