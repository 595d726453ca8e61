from vt.lists_engine import lists_case
from vt.runner import Family

LEVEL = "exploration"
RULE = (
    "each execution is a history of device list, bundle, label, trust and restart operations; distinct: the sequence of operations with their parameters' shape"
)
ASSUMPTIONS = [
    "API calls on one session manager are serialized by the application",
    "backends follow their contract (the toy backend does so strictly)"
]
FAMILIES = [
    Family("lists", lambda rng, rec: lists_case(rng, rec), 1200, 30000,
           need=("device_states_compared", "interrupted_updates", "op:unknown_namespace", "backends_added")),
    Family("updates", lambda rng, rec: lists_case(rng, rec, steps=40, max_id=6, weights={"push": 12, "repeat": 10}), 200,
           5000, need=("device_states_compared",)),
    Family("large lists", lambda rng, rec: lists_case(rng, rec, steps=5, max_id=rng.choice((150, 300, 700)), sizes=(0, 3, 90, 140)),
           16, 300, need=("device_states_compared",)),
    Family("huge lists", lambda rng, rec: lists_case(rng, rec, steps=4, max_id=700, sizes=(280, 420)), 4, 60,
           need=("device_states_compared",)),
]
