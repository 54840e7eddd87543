#!/usr/bin/env python3
"""Warms the Go build cache (plain and race builds) so that checks start fast."""
import os, sys, shutil, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
d = tempfile.mkdtemp(prefix="vp-setup-")
try:
    for race in (False, True):
        print("build race=%s: %.1f s" % (race, check.build(d, race)[0]))
finally:
    shutil.rmtree(d, ignore_errors=True)
