#!/usr/bin/env python3
"""plant.py FILE.py [ID ...]: verify planted bugs described in FILE.py and keep them.

FILE.py defines BUGS = {id: dict(prop, needs, breaks, edits=[(file, old, new)], demo=python source)}.
For each: the demo must pass on /repo; with the edits applied the build and the stable
tests must pass and the demo must fail; then the property's check is run.  Kept under
/verif/seeded/<id>/ when the bug is genuine, whether or not the check catches it.
"""
import importlib.util
import json
import os
import subprocess
import sys

REPO = "/repo"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


DEMO_SH = """#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
export PATH=/opt/venv/bin:$PATH PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=agg
exec timeout 250 python "$(dirname "$0")/demo.py"
"""


def tests():
    sh("bash /opt/vp/test.sh /tmp/plant.json")
    d = json.load(open("/tmp/plant.json"))
    b = json.load(open("/opt/vp/BASELINE.json"))
    return sorted(set(b["stable"]) - set(d["passed"]))


def main():
    spec = importlib.util.spec_from_file_location("bugs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ids = sys.argv[2:] or list(m.BUGS)
    orig = subprocess.check_output("git -C /repo rev-list --max-parents=0 HEAD", shell=True, text=True).strip()
    if sh("git -C /repo status --porcelain").stdout.strip():
        sys.exit("/repo is not clean")
    for i in ids:
        b = m.BUGS[i]
        d = os.path.join(V, "seeded", i)
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(b["demo"].lstrip())
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        ok = False
        try:
            r = sh("bash %s/demo.sh" % d, cwd=REPO)
            if r.returncode:
                print(i, "DEMO FAILS ON CLEAN TREE\n", r.stdout[-1500:])
                continue
            for f, old, new in b["edits"]:
                p = os.path.join(REPO, f)
                s = open(p).read()
                if s.count(old) != 1:
                    raise SystemExit("%s: %d matches of %r" % (i, s.count(old), old))
                open(p, "w").write(s.replace(old, new))
            diff = subprocess.check_output(["git", "-C", REPO, "diff"], text=True)
            open(d + "/patch.diff", "w").write(diff)
            # removed lines that are not in the original repository
            alien = []
            for f, old, new in b["edits"]:
                o = set(subprocess.check_output(["git", "-C", REPO, "show", orig + ":" + f], text=True).split("\n"))
                fd = subprocess.check_output(["git", "-C", REPO, "diff", "-U0", f], text=True).split("\n")
                alien += [x for x in fd if x.startswith("-") and not x.startswith("---") and x[1:] not in o]
            if alien:
                print(i, "changes lines that are not original:", alien)
            r = sh("bash /opt/vp/build.sh")
            if r.returncode:
                print(i, "DOES NOT BUILD", r.stdout[-500:])
                continue
            r = sh("bash %s/demo.sh" % d, cwd=REPO)
            if not r.returncode:
                print(i, "DEMO PASSES WITH THE BUG", r.stdout[-500:])
                continue
            if not os.environ.get("NOTEST"):
                miss = tests()
                if miss:
                    print(i, "TESTS FAIL", miss[:5])
                    continue
            ok = True
            r = sh("python3 check.py %s" % b["prop"], cwd=V)
            print(i, b["prop"], "CAUGHT" if r.returncode == 1 else "MISSED rc=%d" % r.returncode)
            print("   ", "\n    ".join(r.stdout.strip().split("\n")[:3])[:600], flush=True)
        finally:
            sh("git -C /repo checkout -- .")
            if not ok:
                sh("mv %s /tmp/x/seeds/rejected-%s-$$" % (d, i))
    sh("bash /opt/vp/build.sh")


main()
