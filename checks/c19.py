from vt.consistency_engine import ConsistencyScenario
from vt.lists_engine import lists_case
from vt.runner import Family

LEVEL = "exploration"
RULE = (
    "each execution is a history of device list, bundle and restart operations interspersed with damage to the online "
    "data and its repair; distinct: the sequence of operations, with the damage per backend and the number of failed attempts"
)
ASSUMPTIONS = [
    "API calls on one session manager are serialized by the application",
    "a bundle that can't be downloaded counts as inconsistent (as documented)"
]
FAMILIES = [
    Family("damage", lambda rng, rec: lists_case(rng, rec, cls=ConsistencyScenario, weights={
        "consistency": 12, "push": 2, "repeat": 1, "trust": 0.3, "unknown_namespace": 0}), 900, 20000,
           need=("repaired:list", "repaired:bundle", "repaired:down", "consistent_bundles", "consistent_lists",
                 "repair_failures:upload_list", "repair_failures:upload_bundle", "repair_failures:download_list")),
]
