from vt.decrypt_engine import decrypt_case
from vt.replace_engine import ReplaceScenario
from vt.runner import Family
from vt.world import NS

LEVEL = "exploration"
RULE = (
    "each execution is a history of messages and session replacements against one running library; distinct: the "
    "sequence of replacements (per backend: outcome, side and confirmation state of the old session; completeness of the "
    "device information passed) and message outcomes"
)
ASSUMPTIONS = [
    "API calls on one session manager are serialized by the application",
    "the device to replace sessions of is known, its device lists are up to date, and it announced every backend it has a session for"
]
WEIGHTS = {"replace": 8, "chain": 3, "forge": 1, "trust": 0.5, "network": 0.3, "burst": 0.5, "storm": 0}
FAMILIES = [
    Family("replace", lambda rng, rec: decrypt_case(rng, rec, cls=ReplaceScenario, weights=WEIGHTS,
                                                    nss=rng.sample(NS, rng.randint(1, 3))), 900, 20000,
           need=("sessions_replaced", "replies_over_new_session", "chains_reported", "chains_without_session",
                 "foreign_identity_offered", "stale_information_passed", "replacement_failed:MySendFailed",
                 "replacement_failed:KeyExchangeFailed", "replacement_failed:BundleNotFound",
                 "replacement_failed:InjectedStorageFailure")),
]
