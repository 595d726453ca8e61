from vt.runner import Family
from vt.storage_engine import maybe_case, typed_case

LEVEL = "exploration"
RULE = "each execution stores values and loads them through every accessor; distinct: the kinds and contents of the values"
ASSUMPTIONS = [
    "loading a bool as int or float, or an int as float, is not judged (Python treats them as compatible to varying degrees)",
    "strings that are not the encoding of bytes are not judged when loaded as bytes"
]
FAMILIES = [
    Family("typed", typed_case, 1500, 60000,
           need=("bytes_round_trips", "absent_loads", "typed_accepted", "typed_refused")),
    Family("maybe", maybe_case, 3000, 60000, need=("law_rounds",)),
]
