from vt.errors_engine import errors_case
from vt.runner import Family

LEVEL = "exploration"
RULE = (
    "each execution makes the application's network, storage or trust callbacks fail at a random call during random API calls, "
    "with documented exceptions, subclasses of them, or unrelated ones; distinct: operation, callback, type and position"
)
ASSUMPTIONS = ["API calls on one session manager are serialized by the application", "one failure per call"]
FAMILIES = [
    Family("errors", errors_case, 9000, 150000, need=(
        "forwarded_documented", "forwarded_other", "tolerated", "collected", "repeated", "create:upload_bundle",
        "create:upload_list", "create:download_list", "add:upload_bundle", "remove:delete_bundle", "purge:delete_bundle",
        "consistency:upload_bundle", "push:upload_list", "refresh:download_list", "label:upload_list", "info:download_bundle",
        "replace:send", "replace:download_bundle", "encrypt:download_bundle", "encrypt:evaluate", "encrypt:decide",
        "encrypt:load", "encrypt:store", "decrypt:download_list", "decrypt:upload_bundle", "decrypt:send",
        "decrypt:evaluate", "decrypt:store", "after_sync:send", "purge_jid:delete", "trust:store")),
]
