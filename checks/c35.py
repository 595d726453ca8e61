from vt.crash_engine import WEIGHTS, CancelScenario
from vt.decrypt_engine import decrypt_case
from vt.runner import Family

LEVEL = "exploration"
RULE = (
    "each execution is a history of API calls several of which are cancelled at a random storage or network operation; distinct: the "
    "sequence of (call, operation and its index at which it was cancelled) and message outcomes"
)
ASSUMPTIONS = [
    "API calls on one session manager are serialized by the application",
    "published bundles are repaired by ensure_data_consistency after a cancelled decryption, as documented"
]
FAMILIES = [
    Family("cancellations", lambda rng, rec: decrypt_case(rng, rec, cls=CancelScenario, weights=WEIGHTS), 1800, 30000,
           need=("crashed:set_trust", "crashed:update_device_list", "crashed:get_device_information",
                 "crashed:set_own_label", "crashed:decrypt", "crashed:encrypt", "crashed:after_history_sync",
                 "decryptions_repeated", "encryptions_repeated", "repeated_encryptions_delivered", "due_after_crash",
                 "devices_verified")),
]
