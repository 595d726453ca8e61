from vt.decrypt_engine import decrypt_case
from vt.lists_engine import lists_case
from vt.purge_engine import BackendScenario
from vt.runner import Family

LEVEL = "exploration"
RULE = (
    "each execution is a history of messages, restarts with varying backends and backend purges; distinct: the sequence of "
    "backend sets, purges (loaded or not, with or without data) and message outcomes"
)
ASSUMPTIONS = [
    "API calls on one session manager are serialized by the application",
    "an interrupted purge is repeated after loading the same backends again (C15 covers interrupted loading)"
]
FAMILIES = [
    Family("messages", lambda rng, rec: decrypt_case(rng, rec, cls=BackendScenario, weights={
        "backends": 4, "purge": 2, "restart": 0.5, "forge": 1, "burst": 0.5}), 800, 18000,
           need=("backends_added", "backends_removed", "backends_purged", "interrupted_backend_purges",
                 "unloaded_backends_purged", "accepted", "refused:UnknownNamespace", "responses_deferred", "sync_queue_sent")),
    Family("lists", lambda rng, rec: lists_case(rng, rec, weights={"restart": 8}), 400, 8000,
           need=("backends_added", "backends_removed")),
]
