#!/usr/bin/env python3
"""Nothing to install: check that the tools are there and warm the Go build cache."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run
from checks import CHECKS
import tempfile
work = tempfile.mkdtemp()
for d in sorted({s["driver"] for c in CHECKS.values() for s in c.get("run", [])}):
    run.build(work, d)
subprocess.run(["rm", "-rf", work])
