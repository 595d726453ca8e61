from vt.lists_engine import lists_case
from vt.runner import Family

LEVEL = "exploration"
RULE = (
    "each execution is a history of device list, bundle, label, trust and restart operations; distinct: the sequence of operations with their parameters' shape"
)
ASSUMPTIONS = [
    "API calls on one session manager are serialized by the application",
    "backends follow their contract (the toy backend does so strictly)"
]
FAMILIES = [
    Family("labels", lambda rng, rec: lists_case(rng, rec, weights={"label": 6, "restart": 5, "trust": 0.3}), 1000, 25000,
           need=("labels_set", "label_failures", "backends_added", "backends_removed")),
]
