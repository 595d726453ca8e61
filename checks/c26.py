from vt.decrypt_engine import decrypt_case
from vt.encrypt_engine import encrypt_case
from vt.guard import guarded
from vt.lists_engine import lists_case
from vt.replace_engine import ReplaceScenario
from vt.runner import Family
from vt.storage_engine import isolation_case

LEVEL = "exploration"
RULE = (
    "each execution is an application history in which every argument is compared before and after each call and destroyed "
    "afterwards, and every returned container is destroyed after copying; distinct: the history's sequence of operations"
)
ASSUMPTIONS = [
    "API calls on one session manager are serialized by the application, which does not modify arguments during a call"
]
FAMILIES = [
    Family("lists", guarded(lists_case), 500, 10000,
           need=("guarded:update_device_list", "guarded:create", "guarded:set_trust")),
    Family("encryption", guarded(encrypt_case), 600, 10000, need=("guarded:encrypt", "device_encryptions")),
    Family("decryption", guarded(decrypt_case), 300, 8000, need=("guarded:decrypt", "accepted")),
    Family("replacement", guarded(lambda rng, rec: decrypt_case(
        rng, rec, cls=ReplaceScenario, weights={"replace": 6, "chain": 4})), 200, 5000,
           need=("guarded:replace_sessions", "guarded:get_sending_chain_length")),
    Family("storage", isolation_case, 1000, 20000, need=("values_mutated",)),
]
