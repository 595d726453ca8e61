from vt.runner import Family
from vt.secret_engine import real_secret_case, secret_case

LEVEL = "exploration"
RULE = (
    "each execution records everything the library lets out during random API calls with failing callbacks and searches it for "
    "the private identity key; distinct: the kinds and number of recorded texts"
)
ASSUMPTIONS = [
    "searched for: decimal, hexadecimal, base64 and Python representations of the key or its first and last seven bytes",
    "what the installed backends put into the storage is theirs",
]
FAMILIES = [
    Family("toy", secret_case, 1500, 20000, need=(
        "texts_searched", "log_records", "private_keys_without_seed", "forwarded_documented")),
    Family("real", real_secret_case, 80, 1200, need=("texts_searched", "log_records", "real_messages")),
]
