#!/usr/bin/env python3
"""replay.py PROPERTY REPLAYFILE: rebuilds and re-executes one recorded schedule, printing its trace."""
import os, sys, tempfile, shutil, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
work = tempfile.mkdtemp(prefix="replay-", dir=os.path.join(run.ROOT, "build"))
try:
    os.environ["MC_SCRATCH"] = work
    exe = run.build(sys.argv[1], work)
    sys.exit(subprocess.call([exe, "--replay", sys.argv[2]]))
finally:
    shutil.rmtree(work, ignore_errors=True)
