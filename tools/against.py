#!/usr/bin/env python3
"""Runs the check of each planted bug's property against a scratch copy of /repo with the bug (development aid).
against.py [ID ...]"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
for i in ids:
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    wt = "/tmp/against-" + i
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", wt])
    a = subprocess.run(["git", "-C", wt, "apply", os.path.join(d, "patch.diff")])
    if a.returncode:
        print(i, "does not apply")
        continue
    e = dict(os.environ, VERIF_REPO=wt)
    r = subprocess.run([sys.executable, os.path.join(V, "bin/check.py"), prop], env=e, capture_output=True, text=True)
    print(i, prop, "caught" if r.returncode == 1 and "VIOLATION property=" + prop in r.stdout else "MISSED rc=%d" % r.returncode, "|", r.stdout.strip().replace("\n", " | ")[:300], flush=True)
    shutil.rmtree(wt, ignore_errors=True)
