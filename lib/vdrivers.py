"""Scenario driver for the interactive tree visualization (C31): its real model and
controller (of the shipped bundle, or of the sources) in a stand-in page, a real
IPython shell, and the magics that connect them."""
import html
import importlib.util
import os
import re
import shutil
import sys
import types

import gen
import ops
from drivers import Base, driver, names_spec
from ndrivers import Notebook
from rec import Cell

import hatchet
import hatchet.external

VIS = os.path.join(os.path.dirname(os.path.abspath(hatchet.__file__)), "vis")
VALUES = [0, 0, 0, 0, 1, 1, 2, 3, 5, 7, 0.5, 2.25, 12, 40]
# values whose figures are abbreviated, and close to where that starts
BIG = [999, 1000, 1234, 99999.5, 45678.25, 123456, 999999, 1000000, 7654321]
FINE = [999.9, 999.999, 999.99, 999.994, 0.004, 12.5, 1000.5]
SCALE = {"": 1, "K": 10 ** 3, "M": 10 ** 6, "B": 10 ** 9, "T": 10 ** 12}


class Page(Notebook):
    """a notebook showing the visualization of the graphframe in variable gf"""

    def __init__(self, scratch):
        super().__init__()
        hatchet.external.Roundtrip = self.rt
        d = os.path.join(scratch, "vis")
        os.makedirs(os.path.join(d, "static"), exist_ok=True)
        # the shipped page names a script by the path it was built in
        with open(os.path.join(d, "static", "cct_bundle.html"), "w") as f:
            f.write("<html><head></head><body></body></html>")
        shutil.copy(os.path.join(VIS, "loader.py"), d)
        pkg = types.ModuleType("hatchet.vis")
        pkg.__path__ = [d]
        sys.modules["hatchet.vis"] = pkg
        spec = importlib.util.spec_from_file_location("hatchet.vis.loader", os.path.join(d, "loader.py"))
        m = importlib.util.module_from_spec(spec)
        sys.modules["hatchet.vis.loader"] = m
        spec.loader.exec_module(m)
        m.load_ipython_extension(Notebook.shell)

    def send(self, **c):
        c["names"] = []
        n = Notebook.node
        import json

        n.stdin.write(json.dumps(c) + "\n")
        n.stdin.flush()
        r = json.loads(n.stdout.readline())
        self.errs += r["errs"]
        if r.get("vis"):
            self.vis = r["vis"]
        return r["acts"]

    def open(self, gf, source, bins):
        Notebook.shell.user_ns["gf"] = gf
        self.serve(self.run_cell(1, "%cct gf"))
        self.vis = {}
        self.serve(self.send(vis={"dir": VIS, "source": source, "bins": bins}))

    def fetch(self, gf):
        """the query the page holds, taken to the notebook and used there"""
        self.serve(self.run_cell(2, "%cct_fetch_query wanted"))
        r = self.run_cell(3, "found = gf.filter(wanted, squash=False)")
        self.serve(r)
        f = Notebook.shell.user_ns.get("found")
        return sorted({int(n._hatchet_nid) for n in f.dataframe.index}) if f is not None else [-1]


def number(t):
    m = re.match(r"^(-?[0-9.]+)([KMBT]?)$", t)
    if not m:
        return {"v": Cell(t), "s": 0}
    from fractions import Fraction

    return {"v": Cell(Fraction(m.group(1))), "s": SCALE[m.group(2)]}


def table(t):
    rows = []
    for r in re.findall(r"<tr>(.*?)</tr>", t or "", re.S):
        rows.append([html.unescape(c).strip() for c in re.findall(r"<td>(.*?)</td>", r, re.S)])
    return rows


@driver("C31")
class C31(Base):
    def observe(self, rec, h, op, a, more=None):
        p, v = self.page, self.page.vis
        out = {"errs": p.errs, "trees": [], "menu": [], "bins": [], "metrics": [], "primary": "", "prune": False}
        if v:
            out["trees"] = [[dict(i, m={k: Cell(x) for k, x in i["m"].items()}) for i in t] for t in v["trees"]]
            out["bins"] = [{"lo": Cell(b["lo"]), "hi": Cell(b["hi"]), "ids": b["ids"]} for b in v["bins"]]
            for k in ("menu", "metrics", "primary", "prune"):
                out[k] = v[k]
        out.update(more or {})
        rec.add(op, [h], a, out=out)
        p.errs = []

    def start(self, rec, name, sp, source, bins=20):
        ops.begin(rec, name)
        h = ops.new(rec, sp)
        gf = rec.objs[h]
        d = os.getcwd()
        os.chdir(rec.scratch)
        try:
            self.page = Page(rec.scratch)
            self.page.open(gf, source, bins)
        finally:
            os.chdir(d)
        self.gf = gf
        self.observe(rec, h, "vis.open", {})
        return h

    # -------------------------------------------------------------- operations
    def event(self, rec, h, op, a, ev, more=None):
        p = self.page
        p.serve(p.send(ev=ev))
        self.observe(rec, h, op, a, more)

    def items(self):
        return [i for t in self.page.vis["trees"] for i in t]

    def ref(self, i):
        return [i["id"], i["agg"]]

    def toggle(self, rec, h, i):
        self.event(rec, h, "vis.toggle", {"id": i["id"], "agg": i["agg"]}, {"type": "COLLAPSESUBTREE", "node": self.ref(i)})

    def compose(self, rec, h, i):
        self.event(rec, h, "vis.compose", {"id": i["id"]}, {"type": "COMPOSEINTERNAL", "node": self.ref(i)})

    def prune(self, rec, h, lo, hi):
        self.event(rec, h, "vis.prune", {"lo": Cell(lo), "hi": Cell(hi)}, {"type": "PRUNERANGEUPDATE", "low": lo, "high": hi})

    def metric(self, rec, h, m, primary=True):
        self.event(rec, h, "vis.metric", {"m": m, "primary": primary},
                   {"type": "METRICCHANGE", "newMetric": m, "source": ("primary" if primary else "secondary") + " metric"})

    def mass(self, rec, h):
        self.event(rec, h, "vis.mass", {}, {"type": "ENABLEMASSPRUNE", "threshold": 1.5})

    def view(self, rec, h, rng):
        e = rng.choice([{"type": "RESET"}, {"type": "TOGGLEBRUSH"}, {"type": "TREECHANGE", "display": "Show all trees"},
                        {"type": "COLORCLICK", "value": "Inverted"}, {"type": "LEGENDCLICK", "value": "Individual"},
                        {"type": "TOGGLEMENU"}, {"type": "DECOMPOSENODE"}])
        self.event(rec, h, "vis.view", {}, e)

    def snapshot(self, rec, h, ask=True):
        p = self.page
        if ask:
            p.serve(p.send(ev={"type": "SNAPSHOT"}))
        got = p.fetch(self.gf)
        self.observe(rec, h, "vis.snapshot" if ask else "vis.query", {}, {"found": got})

    def select(self, rec, h, its):
        p = self.page
        p.serve(p.send(ev={"type": "CLICK", "node": [self.ref(i) for i in its]}))
        t = table(p.vis["tip"])
        self.observe(rec, h, "vis.select", {"items": [{"id": i["id"], "agg": i["agg"]} for i in its]},
                     {"head": t[0] if t else [], "rows": [{"label": r[0] if r else "", "vals": [number(c) for c in r[1:]]} for r in t[1:]]})

    # --------------------------------------------------------------- scenarios
    def values(self, rng, sp):
        """values of the metrics: many zeros, no negative ones"""
        style = rng.choice(["plain", "plain", "sparse", "big", "fine"])
        more = {"big": BIG, "fine": FINE}.get(style)
        for r in sp["rows"]:
            for j, c in enumerate(sp["cols"]):
                if c in sp["exc"] + sp["inc"]:
                    v = rng.choice(more + [0, 3] if more and rng.random() < 0.6 else VALUES)
                    if style == "sparse" and rng.random() < 0.5:
                        v = 0
                    r["c"][j] = float(v) if rng.random() < 0.6 or v != int(v) else int(v)
        # columns have one type
        for j, c in enumerate(sp["cols"]):
            if c in sp["exc"] + sp["inc"]:
                f = any(isinstance(r["c"][j], float) for r in sp["rows"])
                for r in sp["rows"]:
                    r["c"][j] = float(r["c"][j]) if f else int(r["c"][j])
        return sp

    def some(self, rng):
        exc = rng.choice([["time"], ["time", "cpu"], ["time", "hits", "_own"], ["_a", "_b", "time"], ["_x", "time"], ["wall"]])
        inc = [c + " (inc)" for c in exc if c[0] != "_" and rng.random() < 0.7]
        if len([c for c in exc + inc if c[0] != "_"]) < 2:
            inc = ["total (inc)"]
        sp = gen.random_spec(rng, n=rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 14]), kind=rng.choice(["tree", "forest"]), ixn=[], exc=exc, inc=inc,
                             pnan=0, neg=False, extra=False, strcols=False)
        return self.values(rng, sp)

    def scenario(self, rec, rng, name):
        sp = self.some(rng)
        h = self.start(rec, name, sp, rng.random() < 0.5, rng.choice([20, 20, 3]))
        if not self.page.vis:
            return
        if rng.random() < 0.3:
            self.snapshot(rec, h, ask=False)
        ms = [m for m in sp["exc"] + sp["inc"] if m[0] != "_"]
        calm = rng.random() < 0.4
        for _ in range(rng.randint(2, 10)):
            its = self.items()
            norm = [i for i in its if not i["agg"]]
            inner = [i for i in norm if i["up"] != -1]
            aggs = [i for i in its if i["agg"]]
            r = rng.random()
            if r < 0.3 and (inner or rng.random() < 0.2):
                self.toggle(rec, h, rng.choice(inner or norm))
            elif r < 0.5 and aggs:
                self.toggle(rec, h, rng.choice(aggs))
            elif r < 0.62 and inner and not calm:
                self.compose(rec, h, rng.choice(inner))
            elif r < 0.72 and not calm:
                bs = self.page.vis["bins"]
                if rng.random() < 0.5 and bs:
                    a, b = sorted([rng.randrange(len(bs)), rng.randrange(len(bs))])
                    lo, hi = bs[a]["lo"], bs[b]["hi"]
                else:
                    lo, hi = rng.choice([0, 1, 2, 5, 0.5, 1000]), rng.choice([3, 5, 40, 10 ** 6])
                if None in (lo, hi):
                    lo, hi = 0, 5
                self.prune(rec, h, lo, hi)
            elif r < 0.78 and not calm:
                self.metric(rec, h, rng.choice(ms), rng.random() < 0.8)
            elif r < 0.82:
                self.mass(rec, h)
            elif r < 0.85:
                self.view(rec, h, rng)
            elif r < 0.93:
                self.select(rec, h, rng.sample(its, rng.randint(1, min(3, len(its)))))
            else:
                self.snapshot(rec, h)
        self.snapshot(rec, h)

    def case(self, rec, rng, case, name):
        """a history of the design model: a tree, values, and what the user does"""
        names = ["f%d" % i for i in range(len(case["v"]))]
        sp = names_spec([(p - 1, i) for i, p in enumerate(case["p"]) if p], names)
        sp["rows"] = [{"u": i, "ix": [], "c": [float(v), float(w), names[i]]} for i, (v, w) in enumerate(zip(case["v"], case["w"]))]
        h = self.start(rec, name, sp, rng.random() < 0.5)
        if not self.page.vis:
            return
        for o in case["ops"]:
            by = {(i["id"], i["agg"]): i for i in self.items()}
            a = o["a"]
            if o["op"] == "vis.toggle":
                at = [i for i in self.items() if i["agg"] == a["agg"] and a["id"] - 1 in i["of"]]
                if at:
                    self.toggle(rec, h, at[0])
            elif o["op"] == "vis.compose":
                i = by.get((a["id"] - 1, False))
                if i:
                    self.compose(rec, h, i)
            elif o["op"] == "vis.prune":
                self.prune(rec, h, a["lo"], a["hi"])
            elif o["op"] == "vis.metric":
                self.metric(rec, h, {"m1": "time", "m2": "time (inc)"}[a["m"]])
            elif o["op"] == "vis.mass":
                self.mass(rec, h)
        self.snapshot(rec, h)
