from vt.twisted_world import TwistedWorld  # noqa: F401  (installs the reactor: has to come first)
from vt.rotation_engine import rotation_case, twisted_case
from vt.runner import Family

LEVEL = "exploration"
RULE = (
    "each execution lets virtual time pass over a running library with failing uploads, purges and restarts and judges the "
    "log of rotations and publications; distinct: framework, period and sequence of events"
)
ASSUMPTIONS = [
    "time is virtual (asyncio loop or Twisted clock)", "the storage does not fail",
    "API calls don't overlap a rotation in progress (they happen while the rotation task waits)",
    "while one backend's bundle can't be uploaded, the rotation of the others stalls (documented)"
]
NEED = ("rotations", "failed_uploads", "capped_delays", "retries_succeeded", "purges", "backends_judged", "final_bundles")
FAMILIES = [
    Family("asyncio", rotation_case, 600, 20000, need=NEED),
    Family("twisted", twisted_case, 600, 20000, need=NEED),
]
