from vt.decrypt_engine import decrypt_case
from vt.purge_engine import PurgeJidScenario
from vt.runner import Family

LEVEL = "exploration"
RULE = (
    "each execution is a history of messages, trust changes and purges of similarly named accounts; distinct: the sequence of "
    "purges (account, amount of data, number of interruptions) and message outcomes"
)
ASSUMPTIONS = [
    "API calls on one session manager are serialized by the application",
    "trust was only set for identity keys on record; all backends with data about the account are loaded"
]
FAMILIES = [
    Family("purge", lambda rng, rec: decrypt_case(rng, rec, cls=PurgeJidScenario, peers=rng.randint(2, 6), weights={
        "purge_jid": 4, "trust": 4, "newpeer": 2, "sync": 3, "burst": 0.3, "delist": 2}), 1000, 20000,
           need=("accounts_purged", "interrupted_purges", "contacted_afresh", "interrupted_updates", "accepted")),
]
