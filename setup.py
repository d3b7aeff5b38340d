#!/usr/bin/env python3
"""setup_cmd: checks the tools and parses the specification (nothing to build)"""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.argv = ["check.py"]
sys.path.insert(0, HERE)
import check
check.ensure_ext()
for f in sorted(os.listdir(check.SPEC)):
    if f.endswith(".tla"):
        r = subprocess.run(["java", "-cp", check.JARS, "tla2sany.SANY", f], cwd=check.SPEC, capture_output=True, text=True)
        if r.returncode:
            print(r.stdout[-2000:])
            sys.exit("specification %s does not parse" % f)
print("ok")
