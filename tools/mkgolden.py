#!/usr/bin/env python3
"""
Writes golden/: storages as written by the released version. Run with the released version's source tree:
  git -C /repo worktree add /tmp/base eed4e74
  PYTHONHASHSEED=0 PYTHONPATH=/tmp/base:/verif /opt/venv/bin/python /verif/tools/mkgolden.py
"""
import json
import logging
import os
import random
import sys

logging.disable(logging.CRITICAL)
import omemo  # noqa: E402
from vt import golden, golden_real  # noqa: E402
from vt.rt import Inconclusive, Violation  # noqa: E402

assert "/repo/" not in omemo.__file__, omemo.__file__
os.makedirs(golden.HERE, exist_ok=True)
for kind, record, count in (("toy", golden.record, 60), ("real", golden_real.record, 12)):
    if len(sys.argv) > 1 and kind not in sys.argv[1:]:
        continue
    made = seed = 0
    while made < count:
        seed += 1
        try:
            data = record(random.Random(f"golden/{kind}/{seed}"))
        except (Inconclusive, Violation, omemo.OMEMOException, AssertionError, KeyError) as e:
            print(kind, seed, "skipped:", type(e).__name__, str(e)[:100])
            continue
        with open(os.path.join(golden.HERE, f"{kind}-{made:02}.json"), "w", encoding="utf8") as f:
            json.dump(data, f, ensure_ascii=True, sort_keys=True)
            f.write("\n")
        made += 1
