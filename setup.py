#!/usr/bin/env python3
"""Offline set-up: warms the Go build cache (every check also builds what it needs itself)."""
import shutil, subprocess, sys, tempfile, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from checks import CHECKS
done = set()
for p, spec in sorted(CHECKS.items()):
    k = (spec["pkg"], bool(spec.get("race")))
    if k in done:
        continue
    done.add(k)
    tmp = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        check.stage(tmp, spec)
        print("built", k)
    except Exception as e:  # the checks report it
        print("setup: %s: %s" % (k, e))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
