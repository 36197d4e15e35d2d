#!/usr/bin/env python3
"""Builds the driver once (warms the Go build cache) and parses the specifications."""
import glob, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check

tmp = tempfile.mkdtemp(prefix="verif-setup-")
try:
    check.build(tmp)
    for f in sorted(f for f in glob.glob(os.path.join(check.SPEC, "*.tla")) if "_TTrace_" not in f):
        p = subprocess.run(["java", f"-Djava.io.tmpdir={tmp}", "-cp", check.CP, "tla2sany.SANY", f], cwd=check.SPEC, capture_output=True, text=True)
        if p.returncode:
            sys.exit(f"{f} does not parse:\n{p.stdout}{p.stderr}")
    print("the driver builds and the specifications parse")
finally:
    shutil.rmtree(tmp, ignore_errors=True)
