#!/usr/bin/env python3
"""Warms the Go build cache and checks that the tools are there."""
import os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
s = tempfile.mkdtemp(prefix="verif-setup-")
try:
    for d in sorted({f["driver"] for f in check.FAMILIES.values()}):
        check.build(s, {"driver": d, "cli": True})
    subprocess.run(["java", "-cp", check.JAR, "tla2sany.SANY", "-error-codes", os.path.join(check.SPEC, "Bytes.tla")],
                   check=True, stdout=subprocess.DEVNULL)
    print("ready")
finally:
    shutil.rmtree(s, ignore_errors=True)
