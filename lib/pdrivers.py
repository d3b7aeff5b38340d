"""Scenario driver for the profiler wrapper and the phase timer (C27)."""
import os
import pstats
import re
import shutil
import time

import ops
import workload
from drivers import Base, driver
from hatchet.util.profiler import Profiler
from hatchet.util.timer import Timer

HERE = workload.__file__


def contents(path):
    """calls of the workload's functions recorded in a pstats file"""
    out = {}
    for (fn, line, name), (cc, nc, tt, ct, callers) in pstats.Stats(path).stats.items():
        if os.path.abspath(fn) != os.path.abspath(HERE):
            continue
        out[name] = nc
        for (fn2, l2, name2), v in callers.items():
            if os.path.abspath(fn2) == os.path.abspath(HERE):
                out[name2 + ">" + name] = v[0] if isinstance(v, tuple) else v
    return out


def files():
    return {f: contents(f) for f in sorted(os.listdir(".")) if not f.startswith("garbage")}


def ev(rec, op, a, fn, obs=None):
    out = {"exc": ""}
    try:
        fn()
    except Exception as e:
        out["exc"] = type(e).__name__
    if obs:
        out.update(obs())
    rec.add(op, [], a, out=out)
    return out


def show(rec, t):
    got = []
    for ln in str(t).split("\n")[1:]:
        m = re.match(r"^    (.*): *(\d+)\.(\d\d)s$", ln)
        if m:
            got.append((m.group(1), (int(m.group(2)) * 100 + int(m.group(3))) * 10))
    rec.add("t.show", [], {"id": "t"}, out={"names": [g[0] for g in got], "ms": [g[1] for g in got]})


def call_tree(rng, depth):
    return [rng.choice(list(workload.F)), [call_tree(rng, depth - 1) for _ in range(rng.randint(0, 2 if depth else 0))]]


def flat(t, by, out):
    out.append({"f": t[0], "by": by})
    for k in t[1]:
        flat(k, t[0], out)
    return out


@driver("C27")
class C27(Base):
    def directed(self):
        # more stops within a second than there are fallback names
        return [("manystops", lambda rec, rng: self.run(rec, rng, "manystops", self.profiler_case, ["start", "call", "stop"] * 6))]

    def case(self, rec, rng, case, name):
        if case["kind"] == "timer":
            ops.begin(rec, name)
            self.timer_case(rec, case["ops"])
        else:
            self.run(rec, rng, name, self.profiler_case, case["ops"])

    def timer_case(self, rec, seq):
        t = Timer()
        ev(rec, "t.new", {"id": "t"}, lambda: None)
        for op in seq:
            # no bounds on the times here
            if op == "end":
                ev(rec, "t.end", {"id": "t"}, t.end_phase, lambda: {"lo": -1000, "hi": 1000000})
            else:
                ev(rec, "t.start", {"id": "t", "phase": op}, lambda: t.start_phase(op), lambda: {"lo": -1000, "hi": 1000000})
            show(rec, t)

    def profiler_case(self, rec, rng, seq):
        p = Profiler()
        ev(rec, "p.new", {"id": "p"}, lambda: None)
        on = False
        try:
            for op in seq:
                if op == "call":
                    t = call_tree(rng, 2)
                    ev(rec, "p.call", {"calls": flat(t, "", [])}, lambda: workload.F[t[0]](t[1]))
                elif op == "start":
                    ev(rec, "p.start", {"id": "p"}, p.start)
                    on = True
                elif op == "reset":
                    ev(rec, "p.reset", {"id": "p"}, p.reset)
                else:
                    ev(rec, "p.stop", {"id": "p", "base": "hatchet-profile.pstats"}, p.stop, lambda: {"files": files()})
                    on = False
        finally:
            if on:
                p.stop()

    def scenario(self, rec, rng, name):
        if rng.random() < 0.5:
            ops.begin(rec, name)
            self.timer(rec, rng)
            return
        self.run(rec, rng, name, self.profiler)

    def run(self, rec, rng, name, fn, *args):
        ops.begin(rec, name)
        d = os.path.join(rec.scratch, "prof-" + name)
        cwd = os.getcwd()
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        os.chdir(d)
        try:
            fn(rec, rng, *args)
        finally:
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)

    def profiler(self, rec, rng):
        profs, on, started = {}, None, set()
        for k in range(rng.randint(1, 2)):
            profs["p%d" % k] = Profiler()
            ev(rec, "p.new", {"id": "p%d" % k}, lambda: None)

        def call(t):
            workload.F[t[0]](t[1])

        def base(b):
            return {"base": b}

        try:
            for _ in range(rng.randint(4, 14)):
                p = rng.choice(list(profs))
                r = rng.random()
                if r < 0.3:
                    t = call_tree(rng, 3)
                    ev(rec, "p.call", {"calls": flat(t, "", [])}, lambda: call(t))
                elif r < 0.5:
                    if on is None or on == p:
                        # starting twice is refused
                        ev(rec, "p.start", {"id": p}, profs[p].start)
                        on = p
                        started.add(p)
                elif r < 0.8:
                    if on == p:
                        ev(rec, "p.stop", dict(base("hatchet-profile.pstats"), id=p), profs[p].stop,
                           lambda: {"files": files()})
                        on = None
                elif r < 0.9:
                    ev(rec, "p.reset", {"id": p}, profs[p].reset)
                    if on != p:
                        started.discard(p)
                elif on is None and p in started:
                    have = sorted(f for f in os.listdir(".") if not f.startswith("garbage"))
                    add = [rng.choice(have) for _ in range(rng.choice([0, 0, 1, 2]))] if have else []
                    fn = rng.choice(["", "", "my.pstats"] + have[:1])
                    bad = bool(have) and rng.random() < 0.15
                    if bad:
                        with open("garbage.pstats", "wb") as f:
                            f.write(b"not a profile")
                    kw = {"add_pstats_files": add + (["garbage.pstats"] if bad else [])}
                    if fn:
                        kw["filename"] = fn
                    ev(rec, "p.write", dict(base(fn or "hatchet-profile.pstats"), id=p, add=add, bad=bad),
                       lambda: profs[p].write_to_file(**kw), lambda: {"files": files()})
        finally:
            if on:
                profs[on].stop()

    def timer(self, rec, rng):
        t = Timer()
        ev(rec, "t.new", {"id": "t"}, lambda: None)
        opened = [time.perf_counter(), time.perf_counter()]
        names = ["read", "build graph", "x", "write: all"]

        def step(op, a, fn):
            b = time.perf_counter()
            o = {"exc": ""}
            try:
                fn()
            except Exception as e:
                o["exc"] = type(e).__name__
            c = time.perf_counter()
            # the phase that was open started within `opened' and ended within b..c
            o["lo"] = int((b - opened[1]) * 1000)
            o["hi"] = int((c - opened[0]) * 1000) + 1
            opened[:] = [b, c]
            rec.add(op, [], a, out=o)

        for _ in range(rng.randint(3, 10)):
            r = rng.random()
            if r < 0.35:
                ph = rng.choice(names)
                step("t.start", {"id": "t", "phase": ph}, lambda: t.start_phase(ph))
            elif r < 0.65:
                step("t.end", {"id": "t"}, t.end_phase)
            elif r < 0.8:
                ph = rng.choice(names)
                cm = t.phase(ph)
                step("t.start", {"id": "t", "phase": ph}, cm.__enter__)
                if rng.random() < 0.3:
                    time.sleep(0.02)
                if rng.random() < 0.3:
                    p2 = rng.choice(names)
                    step("t.start", {"id": "t", "phase": p2}, lambda: t.start_phase(p2))
                step("t.end", {"id": "t"}, lambda: cm.__exit__(None, None, None))
            else:
                show(rec, t)
            if rng.random() < 0.15:
                time.sleep(0.03)
        show(rec, t)
