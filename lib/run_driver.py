"""run_driver.py PID SHARD NSHARDS SEED N TIER OUT [CASES]"""
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings

warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


class Hang(Exception):
    pass


def alarm(*_):
    raise Hang("scenario did not finish")


def main():
    pid, shard, nsh, seed, n, tier, out = sys.argv[1:8]
    shard, nsh, n = int(shard), int(nsh), int(n)
    cases = sys.argv[8] if len(sys.argv) > 8 else None
    try:
        import hatchet  # noqa: F401
    except Exception:
        print("VERIF-IMPORT-FAILED")
        raise
    import rec as recmod
    import drivers

    drv = drivers.DRIVERS[pid]
    scratch = out + ".d"
    os.makedirs(scratch, exist_ok=True)
    r = recmod.Rec(out)
    r.scratch = scratch
    r.tier = tier
    signal.signal(signal.SIGALRM, alarm)
    jobs = []
    for i, (name, fn) in enumerate(drv.directed()):
        if i % nsh == shard:
            jobs.append(("directed", name, fn))
    if cases:
        with open(cases) as f:
            for i, line in enumerate(f):
                if i % nsh == shard:
                    jobs.append(("case", "case%d" % i, json.loads(line)))
    for i in range(n):
        if i % nsh == shard:
            jobs.append(("random", "random%d" % i, i))
    counts = {"directed": 0, "case": 0, "random": 0, "skipped": 0}
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", "1e9"))
    only = os.environ.get("VERIF_ONLY")
    for kind, name, arg in jobs:
        if only and name != only:
            continue
        if time.time() - t0 > budget:
            counts["skipped"] += 1
            continue
        r.cur = name
        with open(out + ".cur", "w") as f:
            f.write(name)
        rng = random.Random("%s/%s/%s" % (seed, pid, name))
        started = False
        signal.alarm(120)
        try:
            r.events = []
            if kind == "directed":
                arg(r, rng)
            elif kind == "case":
                drv.case(r, rng, arg, name)
            else:
                drv.scenario(r, rng, name)
        except (Exception, RecursionError) as e:
            signal.alarm(0)
            tb = traceback.format_exc()
            if os.environ.get("VERIF_DEBUG"):
                sys.stderr.write(tb)
            try:
                if not r.events:
                    r.begin(name)
                r.events.append({"op": "crash", "in": [], "a": {"tb": tb[-1500:]}, "res": "",
                                 "exc": type(e).__name__, "chg": {}})
            except Exception:
                raise
        finally:
            signal.alarm(0)
        counts[kind] += 1
        if r.events:
            r.end()
    r.close()
    st = drv.stats() if hasattr(drv, "stats") else {}
    with open(out + ".meta", "w") as f:
        json.dump({"counts": counts, "events": r.nev, "scenarios": r.nscn, "wall": time.time() - t0,
                   "stats": st}, f)


main()
