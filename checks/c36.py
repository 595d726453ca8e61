from vt.consistency_engine import ConsistencyScenario
from vt.decrypt_engine import decrypt_case
from vt.encrypt_engine import encrypt_case
from vt.lists_engine import lists_case
from vt.overlap_engine import offline_case
from vt.purge_engine import BackendScenario
from vt.replace_engine import ReplaceScenario
from vt.runner import Family
from vt.traffic import monitored

LEVEL = "exploration"
RULE = (
    "each execution is an application history in which the server operations of every call are compared with what the call has "
    "to fetch or publish in its situation (traffic), or in which the server can't be reached at all (offline); distinct: the "
    "history's sequence of operations"
)
ASSUMPTIONS = [
    "API calls on one session manager are serialized by the application",
    "bundles that fail to download may be attempted again for another purpose within the same call",
]
FAMILIES = [
    Family("encryption", monitored(encrypt_case), 600, 10000, need=("call:encrypt", "bundles_needed", "calls_without_network")),
    Family("decryption", monitored(decrypt_case), 400, 8000, need=("call:decrypt", "call:after_history_sync", "loaded_again")),
    Family("lists", monitored(lists_case), 400, 8000, need=(
        "call:update_device_list", "call:refresh_device_lists", "call:set_own_label", "loaded_again")),
    Family("repair", monitored(lambda rng, rec: lists_case(rng, rec, cls=ConsistencyScenario, weights={
        "consistency": 12, "push": 2, "repeat": 1, "trust": 0.3, "unknown_namespace": 0})), 200, 5000,
           need=("call:ensure_data_consistency",)),
    Family("replacement", monitored(lambda rng, rec: decrypt_case(
        rng, rec, cls=ReplaceScenario, weights={"replace": 6, "chain": 4})), 200, 5000,
           need=("call:replace_sessions", "call:get_sending_chain_length")),
    Family("backends", monitored(lambda rng, rec: decrypt_case(rng, rec, cls=BackendScenario, weights={
        "backends": 4, "purge": 2, "restart": 0.5, "forge": 1, "burst": 0.5})), 200, 5000,
           need=("call:purge_backend", "backends_added", "backends_removed")),
    Family("offline", offline_case, 500, 12000, need=(
        "offline:encrypt", "offline:decrypt", "offline:push", "offline:info", "offline:restart", "offline:purge", "delivered",
        "decrypted", "decisions", "decrypted_in_a_row")),
]
