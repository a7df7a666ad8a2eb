#!/usr/bin/env python3
"""Builds every harness once from /repo's working tree (the checks rebuild whatever a change makes stale)."""
import sys
from checks import CHECKS
import run
for pid in sorted(CHECKS):
    try:
        exe, n, _ = run.build(CHECKS[pid])
        print(pid, "built", n, "objects", flush=True)
    except run.CheckError as e:
        print(pid, "ERROR", e)
        sys.exit(1)
