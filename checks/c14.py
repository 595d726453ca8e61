from vt.create_engine import fresh_case
from vt.runner import Family

LEVEL = "exploration"
RULE = (
    "each execution creates a device on an account with other devices and reloads it several times; distinct: number of backends, other devices, forced device id collisions, thresholds and labels"
)
ASSUMPTIONS = [
    "API calls on one session manager are serialized by the application",
    "backends follow their contract (the toy backend does so strictly)"
]
FAMILIES = [
    Family("fresh", fresh_case, 900, 15000, need=("forced_collisions", "rejected_parameters", "reloads",
                                                 "list_publications")),
]
