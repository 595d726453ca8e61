from vt.create_engine import interrupted_case
from vt.runner import Family

LEVEL = "fault_enumeration"
RULE = (
    "each execution interrupts one creation (first, added, removed, swapped backends, reload) at one operation by a failure or crash before or after it took effect, possibly twice, then resumes; distinct: (configuration, kind, operation index, operation)"
)
ASSUMPTIONS = [
    "API calls on one session manager are serialized by the application",
    "backends follow their contract (the toy backend does so strictly)"
]
FAMILIES = [
    Family("interrupted", interrupted_case, 3600, 15000, need=(
        "resumed", "interrupted_twice", "interrupted:first", "interrupted:add", "interrupted:remove", "interrupted:swap",
        "interrupted_op:upload_bundle", "interrupted_op:upload_list", "interrupted_op:store",
        "interrupted_op:delete_bundle")),
]
