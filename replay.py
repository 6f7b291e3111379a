#!/usr/bin/env python3
"""python3-vt replay.py evidence/replay_C01_0.json: run the recorded case against /repo's current tree again"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vf import build
d = json.load(open(sys.argv[1]))
if "case" not in d:
    print(json.dumps(d, indent=1)[:20000])
    sys.exit(1)
env = build._env()
env.update(PYTHONPATH=f"{build.package()}:{HERE}", OMP_NUM_THREADS="1")
code = ("import json,sys,importlib\nfrom bounded import harness\nd=json.load(open(sys.argv[1]))\n"
        "m=importlib.import_module('bounded.'+d['module'])\nr=harness.run_case(m,d['case'])\nprint(d['case']);print(r)\n"
        "sys.exit(0 if r[0]=='ok' else 1)")
sys.exit(subprocess.run([build.QPY, "-W", "ignore", "-c", code, os.path.abspath(sys.argv[1])], env=env).returncode)
