from vt.overlap_engine import neighbours_case
from vt.runner import Family

LEVEL = "exploration"
RULE = (
    "each execution runs two or three session managers with the same account names, but separate storages, servers and "
    "contacts; their operations overlap within and between the managers; distinct: the operations and the order they finish in"
)
ASSUMPTIONS = ["operations of one session manager on the same account are serialized by the application"]
FAMILIES = [
    Family("neighbours", neighbours_case, 1500, 45000, need=(
        "delivered", "decrypted", "decisions", "replaced", "finished_in_another_order", "managers_at_once",
        "synchronizing_next_to_live", "responses", "deferred_responses", "op:label", "op:push", "rotations")),
]
