from vt.lists_engine import lists_case
from vt.runner import Family

LEVEL = "exploration"
RULE = (
    "each execution is a history of device list, bundle, label, trust and restart operations; distinct: the sequence of operations with their parameters' shape"
)
ASSUMPTIONS = [
    "API calls on one session manager are serialized by the application",
    "backends follow their contract (the toy backend does so strictly)"
]
FAMILIES = [
    Family("own", lambda rng, rec: lists_case(rng, rec, jids=("alice@x", "alice@x", "alice@x", "bob@x"), weights={
        "push": 8, "repeat": 5, "refresh": 5, "refresh_all": 3, "interrupted_push": 4}), 1000, 25000,
           need=("own_device_restored", "interrupted_updates")),
    Family("lists", lambda rng, rec: lists_case(rng, rec), 400, 8000, need=("own_device_restored",)),
]
