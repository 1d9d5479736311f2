#!/usr/bin/env python3
"""replay.py PROPERTY TIER BUILD CASE SHARD [ITER]: run one case (one shard, one iteration) verbosely."""
import os, subprocess, sys, tempfile, shutil
sys.argv, a = [sys.argv[0], "C01"], sys.argv
import importlib.util
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin"))
src = open(os.path.join(VERIF, "bin", "check.py")).read().rsplit("\nmain()", 1)[0]
ns = {"__file__": os.path.join(VERIF, "bin", "check.py"), "__name__": "check"}
exec(compile(src, "check.py", "exec"), ns)
prop, tier, build, case, shard = a[1:6]
work = tempfile.mkdtemp(prefix="vh-replay-")
try:
    ns["builds"].BUILDS[prop] = [b for b in ns["builds"].BUILDS[prop] if b["name"] == build]
    (bd, exe), = ns["compile_all"](prop, work, tier)
    cmd = [exe, "--case", case, "--seed", os.environ.get("VERIF_SEED", "1"), "--tier", tier, "--shard", shard, "--verbose"]
    if len(a) > 6: cmd += ["--iter", a[6]]
    env = dict(os.environ); env.update(ns["ENV_SAN"])
    rc = subprocess.call(cmd, env=env)
finally: shutil.rmtree(work, ignore_errors=True)
sys.exit(rc)
