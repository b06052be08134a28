#!/bin/bash
# Builds everything the checks need from /repo into /verif/.cache (the checks rebuild what changed since).
cd "$(dirname "$0")/.." || exit 2
python3 harness/build.py
python3 - <<'E'
import sys
sys.path[:0] = ["harness", "checks"]
import c01_pool
import c26_logging
for c in (c01_pool, c26_logging):
    try:
        c.prepare(None)
    except Exception as ex:   # the check itself reports it
        print(ex)
E
