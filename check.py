#!/usr/bin/env python3
"""check.py PID [--thorough] [--seed N] [--only SCENARIO]

Decides one property of hatchet with the TLA+ specification in spec/:
  1. TLC checks the design model(s) of the property exhaustively and, where the
     model has `CASE' output, generates the inputs that are replayed below;
  2. drivers run scenarios (model-generated, directed and seeded-random) against the
     real code and record every operation with the observable state it leaves;
  3. TLC validates every recorded trace against spec/Trace.tla.
Exit 0: the property held; 1: VIOLATION; 2: no verdict (an error of the check).
"""
import argparse
import fcntl
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(HERE, "spec")
LIB = os.path.join(HERE, "lib")
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, LIB)
import props  # noqa: E402


def env():
    e = dict(os.environ)
    e.update(
        PATH="/opt/vp/no-npm:/opt/venv/bin:/usr/local/bin:/usr/bin:/bin",
        PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="agg",
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", HOME=os.environ.get("HOME", "/root"),
        LANG=os.environ.get("LANG", "C.UTF-8"),
    )
    return e


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def ensure_ext():
    """rebuild the Cython extensions if their inputs changed since they were built"""
    with open("/tmp/.verif-build.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        files = []
        for top, _, fs in os.walk(os.path.join(REPO, "hatchet")):
            files += [os.path.relpath(os.path.join(top, f), REPO) for f in fs if f.endswith((".pyx", ".pxd"))]
        lines = []
        for f in sorted(files + ["setup.py", "pyproject.toml"]):
            with open(os.path.join(REPO, f), "rb") as fh:
                lines.append("%s  %s" % (hashlib.sha256(fh.read()).hexdigest(), f))
        v = subprocess.run([PY, "-VV"], capture_output=True, text=True, env=env()).stdout
        want = "\n".join(lines) + "\n" + v
        try:
            with open(os.path.join(REPO, "build/.ext-inputs.sha256")) as fh:
                have = fh.read()
        except OSError:
            have = ""
        libs = os.path.join(REPO, "hatchet/cython_modules/libs")
        sos = [f for f in (os.listdir(libs) if os.path.isdir(libs) else []) if f.endswith(".so")]
        if have.strip() == want.strip() and len(sos) >= 2:
            return
        r = subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True, text=True, timeout=600)
        if r.returncode:
            die("building %s failed:\n%s\n%s" % (REPO, r.stdout[-2000:], r.stderr[-2000:]))


def java(mem):
    return ["java", "-XX:+UseSerialGC", "-Xss128m", "-Xmx" + mem, "-XX:TieredStopAtLevel=4", "-cp", JARS, "tlc2.TLC"]


def run(cmd, timeout, **kw):
    """-> (returncode or None on timeout, stdout+stderr)"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, out or ""


STATES = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)


class Check(object):
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.cfg = props.PROPS[pid]
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.out = os.path.join(HERE, "out", pid)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.states = self.transitions = 0
        self.models, self.viol, self.errors, self.samples = [], [], [], []
        self.traces = self.events = 0
        self.counts = {}
        self.lock = threading.Lock()
        self.t0 = time.time()

    # ------------------------------------------------------------- design models
    def model(self, m):
        """m: dict(module, cfg, [consts], [cases], [timeout])"""
        md = os.path.join(self.work, "md-%s-%s" % (m["module"], m["cfg"]))
        cfg = m["cfg"]
        cmd = java(m.get("mem", "8g")) + ["-workers", str(m.get("workers", 8)), "-config", cfg + ".cfg",
                                          "-metadir", md, "-noGenerateSpecTE", "-deadlock", m["module"] + ".tla"]
        cmd[cmd.index("-XX:+UseSerialGC")] = "-XX:+UseParallelGC"
        if m.get("deadlock"):
            cmd.remove("-deadlock")
        rc, out = run(cmd, m.get("timeout", 600), cwd=SPEC, env=env())
        s = STATES.search(out)
        ok = rc == 0 and s and "No error has been found" in out
        if m.get("expect"):
            ok = m["expect"] in out
        if not ok:
            # the models do not depend on /repo: a failure is an error of the check
            self.errors.append("model %s/%s: rc=%s\n%s" % (m["module"], cfg, rc, out[-1500:]))
            return []
        cases = []
        for line in out.splitlines():
            if line.startswith('"CASE ') or line.startswith('"CASE{'):
                cases.append(json.loads(json.loads(line)[5:]))
        cases = [json.loads(c) for c in sorted({json.dumps(c, sort_keys=True) for c in cases})]
        if s:
            self.transitions += int(s.group(1))
            self.states += int(s.group(2))
        self.models.append({"module": m["module"], "cfg": cfg, "expected": m.get("expect", "no error"), "states": int(s.group(2)) if s else 0,
                            "transitions": int(s.group(1)) if s else 0, "cases": len(cases)})
        return cases

    # ------------------------------------------------------------------ one shard
    def shard(self, j, jobs, n, cases, budget, only=None):
        o = os.path.join(self.work, "t%d.ndjson" % j)
        e = env()
        e["VERIF_BUDGET"] = str(budget)
        if only:
            e["VERIF_ONLY"] = only
        cmd = [PY, os.path.join(LIB, "run_driver.py"), self.pid, str(j), str(jobs), str(self.seed), str(n),
               self.tier, o] + ([cases] if cases else [])
        cwd = os.path.join(self.work, "d%d" % j)
        os.makedirs(cwd, exist_ok=True)
        rc, out = run(cmd, budget + 300, cwd=cwd, env=e)
        cur = ""
        if os.path.exists(o + ".cur"):
            cur = open(o + ".cur").read()
        if rc is None or rc < 0:
            if rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL):
                self.violation(cur, ["crash"], {"signal": -rc, "tail": out[-800:]}, None)
            elif rc is None:
                self.violation(cur, ["hang"], {"tail": out[-800:]}, None)
            else:
                self.error("driver died (rc %s) in %s" % (rc, cur))
            return
        if rc != 0 or not os.path.exists(o + ".meta"):
            if "VERIF-IMPORT-FAILED" in out:
                self.violation("import", ["import"], {"tail": out[-1500:]}, None)
            else:
                self.error("driver failed rc=%s in %s: %s" % (rc, cur, out[-1500:]))
            return
        meta = json.load(open(o + ".meta"))
        with self.lock:
            for k, v in meta["counts"].items():
                self.counts[k] = self.counts.get(k, 0) + v
            for k, v in meta["stats"].items():
                self.counts["stat." + k] = self.counts.get("stat." + k, 0) + v
        self.validate(j, o)
        if not self.keep:
            os.remove(o)
            shutil.rmtree(o + ".d", ignore_errors=True)
            shutil.rmtree(cwd, ignore_errors=True)

    keep = False

    def validate(self, j, o):
        with open(o) as f:
            lines = f.readlines()
        if not lines:
            return
        first = 1
        # a step the specification cannot even evaluate ends the run: go on after it
        for attempt in range(20):
            e = env()
            e["TRACE"] = o
            md = os.path.join(self.work, "mdt%d" % j)
            rc, out = run(java("2500m") + ["-workers", "1", "-config", "Trace.cfg", "-metadir", md, "-noGenerateSpecTE",
                                           "Trace.tla"], props.TLC_TIMEOUT, cwd=SPEC, env=e)
            shutil.rmtree(md, ignore_errors=True)
            bads = []
            for m in re.finditer(r'<<"BAD", (\d+), \{(.*?)\}>>', out.replace("\n", " ")):
                bads.append((int(m.group(1)), re.findall(r'"([^"]*)"', m.group(2))))
            done = "No error has been found" in out and rc == 0
            stuck = None
            if done and '"STUCK"' in out:
                done = False
            if not done and rc is None:
                self.error("TLC timed out on a trace (shard %d)" % j)
                return
            if not done:
                ls = [int(x) for x in re.findall(r"^/?\\? ?/?\\?\s*l = (\d+)", out, re.M)]
                ls = ls or [int(x) for x in re.findall(r"\bl = (\d+)", out)]
                if "OutOfMemory" in out or "could not create the Java" in out or not ls:
                    self.error("TLC failed on a trace (shard %d): %s" % (j, out[-1500:]))
                    return
                stuck = max(ls)
            s = STATES.search(out)
            with self.lock:
                if s:
                    self.transitions += int(s.group(1))
                    self.states += int(s.group(2))
            cur = lines[first - 1:]
            for l, cl in bads:
                self.report(cur, l, cl)
            if done:
                n = len(cur)
                with self.lock:
                    self.events += n
                    self.traces += sum(1 for x in cur if x.startswith('{"op": "begin"'))
                    if len(self.samples) < 3:
                        self.samples.append(self.sample(cur))
                return
            msg = [x for x in out.splitlines() if "rror" in x or "xception" in x or "CHOOSE" in x or "not in the domain" in x]
            self.report(cur, stuck, ["undefined"], " | ".join(msg)[:600])
            # continue with the scenario after the one that could not be judged
            k = stuck
            while k < len(cur) and not cur[k].startswith('{"op": "begin"'):
                k += 1
            if k >= len(cur):
                return
            first += k
            o = o + ".r"
            with open(o, "w") as f:
                f.writelines(lines[first - 1:])
        self.error("too many steps that could not be judged (shard %d)" % j)

    @staticmethod
    def sample(lines):
        evs = []
        for x in lines[:12]:
            d = json.loads(x)
            if d["op"] == "begin" and evs:
                break
            evs.append({"op": d["op"], "in": d["in"], "res": d["res"], "exc": d["exc"], "scn": d["scn"],
                        "changed": sorted(d["chg"])})
        return {"trace_of": evs[0]["scn"] if evs else "", "steps": evs}

    # ------------------------------------------------------------------- verdicts
    def report(self, lines, l, clauses, msg=""):
        ev = json.loads(lines[l - 1])
        k = l - 1
        while k > 0 and json.loads(lines[k])["op"] != "begin":
            k -= 1
        self.violation(ev.get("scn", "?"), clauses, {"msg": msg}, [json.loads(x) for x in lines[k:l]])

    def violation(self, scn, clauses, info, events):
        name = scn.split("#")[0]
        with self.lock:
            self.viol.append({"scenario": name, "clauses": sorted(clauses), "info": info, "events": events})

    def error(self, msg):
        with self.lock:
            self.errors.append(msg)

    # ------------------------------------------------------------------------ run
    def go(self, only=None):
        quick = self.tier == "quick"
        cases = []
        for m in self.cfg.get("models", []):
            if m.get("thorough_only") and quick:
                continue
            if only and not m.get("cases"):
                continue
            cs = self.model(m["thorough"] if (not quick and "thorough" in m) else m)
            lim = m.get("max_cases", {}).get(self.tier)
            if lim and len(cs) > lim:
                import random
                cs = random.Random(self.seed).sample(cs, lim)
            cases += cs
        cfile = None
        if cases:
            cfile = os.path.join(self.work, "cases.jsonl")
            with open(cfile, "w") as f:
                f.writelines(json.dumps(c) + "\n" for c in cases)
        workers = 8
        rounds = 1 if quick else self.cfg.get("rounds", 12)
        jobs = workers * rounds
        n = self.cfg["n"] * rounds * (1 if quick else 2)
        deadline = self.t0 + (150 if quick else 700)
        if only:
            self.shard(0, 1, n, cfile, 600, only)
        else:
            def one(j):
                left = deadline - time.time()
                if left > 5 or j < workers:
                    self.shard(j, jobs, n, cfile, max(20, min(left, 90 if quick else 200)))
            with ThreadPoolExecutor(workers) as ex:
                list(ex.map(one, range(jobs)))
        return self.finish(cases)

    def finish(self, cases):
        known = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
        new, hits = [], {}
        for v in self.viol:
            for f in known:
                if f["property"] == self.pid and re.fullmatch(f["scenario"], v["scenario"]) and set(v["clauses"]) <= set(f["clauses"]):
                    hits[f["id"]] = f
                    break
            else:
                new.append(v)
        for f in known:
            if f["property"] == self.pid and f["id"] in hits:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
        new.sort(key=lambda v: (v["scenario"], v["clauses"]))
        seen, k = set(), 0
        for v in new:
            key = tuple(v["clauses"])
            if key in seen and k >= 5:
                continue
            seen.add(key)
            k += 1
            path = os.path.join(self.out, "violation-%d.json" % k)
            with open(path, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier, "scenario": v["scenario"],
                           "clauses": v["clauses"], "info": v["info"],
                           "rerun": "python3 check.py %s --seed %d --only %s%s" % (
                               self.pid, self.seed, v["scenario"], "" if self.tier == "quick" else " --thorough"),
                           "events": v["events"]}, f, indent=1)
            if k <= 12:
                last = (v["events"] or [{}])[-1]
                print("  %s %s: %s %s %s" % (self.pid, v["scenario"], last.get("op", ""), v["clauses"],
                                             str(last.get("exc") or v["info"].get("msg") or "")[:160]))
                print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events_validated": self.events,
               "model_runs": self.models, "model_generated_cases": len(cases), "scenarios": self.counts,
               "samples": self.samples + [{"case": c} for c in cases[:2]], "exhaustive": False}
        if not cov["samples"]:
            cov["samples"] = ["none"]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.cfg.get("assumptions", props.ASSUMPTIONS),
              "wall_s": round(time.time() - self.t0, 1), "violations": len(new)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for x in self.errors:
            print("ERROR: " + x)
        print("%s %s: %d violations, %d errors; %d model states/steps, %d traces, %d events, %s, %.1f s" % (
            self.pid, self.tier, len(new), len(self.errors), self.states, self.traces, self.events, self.counts,
            time.time() - self.t0))
        if new:
            return 1
        if self.errors or self.traces == 0:
            return 2
        return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.thorough or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    ensure_ext()
    c = Check(a.pid, tier, a.seed)
    c.keep = a.keep
    try:
        rc = c.go(a.only)
    finally:
        if not a.keep:
            shutil.rmtree(c.work, ignore_errors=True)
        else:
            print("work directory:", c.work)
    sys.exit(rc)


if __name__ == "__main__":
    main()
