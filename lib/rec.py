"""Recorder: runs operations on real hatchet objects and logs, as ndjson, what the
TLA+ trace specification needs: the operation, its arguments, its outcome and the
projection of every graphframe (or graph) whose projected state changed.

The projection only reads public state: graph roots, node children/parents/frame,
node ids and depths, dataframe index/columns/cells, metric lists, default metric,
metadata.  It decides nothing: all judgements are made by the specification.
"""
import json
import math
from fractions import Fraction

import numpy as np
import pandas as pd

from hatchet.graphframe import GraphFrame
from hatchet.graph import Graph
from hatchet.node import Node

LIM = 2 ** 31 - 1


class S(str):
    """a string inside a value cell (ranked when the scenario ends)"""


class Cell(object):
    """a Python value to be logged as a specification value"""

    def __init__(self, v):
        self.v = v


def num(fr):
    if abs(fr.numerator) > LIM or fr.denominator > LIM:
        return (7, 0, 0, S("num:%s" % fr))
    return (0, fr.numerator, fr.denominator, "")


def val(v):
    """value -> (kind, num, den, text)"""
    if isinstance(v, str):
        return (4, 0, 0, S(v))
    if v is None:
        return (6, 0, 0, "")
    if isinstance(v, (bool, np.bool_)):
        return (5, int(v), 0, "")
    if isinstance(v, (int, np.integer)):
        return num(Fraction(int(v)))
    if isinstance(v, Fraction):
        return num(v)
    if isinstance(v, (float, np.floating)):
        v = float(v)
        if math.isnan(v):
            return (1, 0, 0, "")
        if math.isinf(v):
            return (2 if v > 0 else 3, 0, 0, "")
        f = Fraction(v)
        if f.denominator > 5040:
            g = f.limit_denominator(5040)
            if g != 0 and abs(g - f) <= abs(f) * Fraction(1, 10 ** 9):
                f = g
        return num(f)
    if v is pd.NaT or v is pd.NA:
        return (1, 0, 0, "")
    return (7, 0, 0, S("%s:%s" % (type(v).__name__, v)))


def colname(c):
    return c if isinstance(c, str) else "!" + repr(c)


class Rec(object):
    def __init__(self, path, sid=""):
        self.f = open(path, "w")
        self.nscn = 0
        self.nev = 0
        self.sid = sid
        self.lines = 0
        self.reset()

    def reset(self):
        self.events = []
        self.objs = {}  # id -> GraphFrame | Graph
        self.proj = {}  # id -> projection
        self.nodes = {}  # id(node) -> uid
        self.graphs = {}  # id(graph) -> gid
        self.keep = []
        self.cnt = 0
        # parallel filters move rows between processes, so the nodes in the index
        # are copies: identify them by id and frame
        self.lenient = False

    # ------------------------------------------------------------ projection
    def uid(self, n):
        if not isinstance(n, Node):
            return "bad:" + type(n).__name__
        k = id(n)
        if k not in self.nodes:
            self.nodes[k] = "n%d" % (len(self.nodes) + 1)
            self.keep.append(n)
        return self.nodes[k]

    def gid(self, g):
        k = id(g)
        if k not in self.graphs:
            self.graphs[k] = "g%d" % (len(self.graphs) + 1)
            self.keep.append(g)
        return self.graphs[k]

    def frame(self, fr):
        return tuple((val(str(k)), val(fr.attrs[k])) for k in sorted(fr.attrs, key=str))

    def p_graph(self, g):
        nodes = {}
        stack = list(g.roots)
        while stack:
            n = stack.pop()
            u = self.uid(n)
            if u in nodes or not isinstance(n, Node):
                continue
            nid, dep = n._hatchet_nid, n._depth
            nodes[u] = {
                "f": self.frame(n.frame),
                "nid": int(nid),
                "dep": int(dep),
                "ch": [self.uid(c) for c in n.children],
                "pa": [self.uid(c) for c in n.parents],
            }
            stack.extend(n.children)
        return {
            "nodes": nodes,
            "roots": [self.uid(r) for r in g.roots],
            "gid": self.gid(g),
            "no": bool(g.node_ordering),
        }

    def p_gf(self, gf):
        if isinstance(gf, Graph):
            d = self.p_graph(gf)
            d.update(rows=[], cols=[], ixn=[], exc=[], inc=[], dm="", md="", err="")
            return d
        d = self.p_graph(gf.graph)
        d["err"] = ""
        df = gf.dataframe
        names = list(df.index.names)
        if "node" not in names:
            d["err"] = "index levels " + str(names)
            npos = None
        else:
            npos = names.index("node")
        d["ixn"] = [str(n) for i, n in enumerate(names) if i != npos]
        d["cols"] = [colname(c) for c in df.columns]
        rows = []
        if npos is not None:
            cells = [list(df.iloc[:, j]) for j in range(df.shape[1])]
            multi = isinstance(df.index, pd.MultiIndex)
            resolve = self.uid
            if self.lenient:
                own = {}
                for u, e in d["nodes"].items():
                    own.setdefault((e["nid"], repr(e["f"])), u)

                def resolve(n):
                    if id(n) in self.nodes or not isinstance(n, Node):
                        return self.uid(n)
                    k = (n._hatchet_nid, repr(self.frame(n.frame)))
                    return own.get(k) or self.uid(n)

            for i, key in enumerate(df.index):
                if not multi:
                    key = (key,)
                rows.append(
                    {
                        "u": resolve(key[npos]),
                        "ix": [val(k) for j, k in enumerate(key) if j != npos],
                        "c": [val(cells[j][i]) for j in range(len(cells))],
                    }
                )
        d["rows"] = rows
        d["exc"] = [colname(c) for c in gf.exc_metrics]
        d["inc"] = [colname(c) for c in gf.inc_metrics]
        d["dm"] = str(gf.default_metric)
        d["md"] = json.dumps(gf.metadata, sort_keys=True, default=str)
        return d

    # ------------------------------------------------------------ scenarios
    def begin(self, name, codes=False, inc=(), ranks=False, **a):
        self.reset()
        self.ranks = ranks
        self.name = "%s#%d" % (name, self.nscn)
        self.nscn += 1
        self.codes = codes
        # names of the inclusive columns of exclusive metrics, by the documented rule
        a["inc"] = dict(
            (e, e[: -len("(exc)")].strip() if e.endswith("(exc)") else e + " (inc)")
            for e in inc
        )
        self.events.append({"op": "begin", "in": [], "a": a, "res": "", "exc": "", "chg": {}})

    def new(self, obj):
        """register an object and return its id; it shows up in the next event"""
        self.cnt += 1
        i = "h%d" % self.cnt
        self.objs[i] = obj
        return i

    def drop(self, i):
        del self.objs[i]

    def changes(self):
        chg = {}
        for i, o in self.objs.items():
            p = self.p_gf(o)
            if self.proj.get(i) != p:
                chg[i] = p
                self.proj[i] = p
        return chg

    def add(self, op, ins=(), a=None, res="", exc="", **extra):
        """log an event that already happened"""
        ev = {"op": op, "in": list(ins), "a": a or {}, "res": res, "exc": exc, "chg": self.changes()}
        ev.update(extra)
        self.events.append(ev)
        return ev

    def op(self, op, ins, a, fn):
        """run fn, which returns a new GraphFrame/Graph (registered as the result),
        None, or a dict of plain outcome fields (logged as `out`)"""
        res, exc, out = "", "", {}
        try:
            r = fn()
        except RecursionError:
            exc = "RecursionError"
        except Exception as e:
            exc = type(e).__name__
            out = {"msg": str(e)[:200]}
        else:
            if isinstance(r, (GraphFrame, Graph)):
                known = [i for i, o in self.objs.items() if o is r]
                res = known[0] if known else self.new(r)
            elif isinstance(r, dict):
                out = r
            elif r is not None:
                out = {"msg": "returned " + type(r).__name__}
        self.add(op, ins, a, res, exc, out=out)
        return res, exc

    # --------------------------------------------------------------- output
    def end(self):
        texts = set()

        def collect(x):
            if isinstance(x, S):
                texts.add(str(x))
            elif isinstance(x, Cell):
                collect(val(x.v))
            elif isinstance(x, dict):
                for v in x.values():
                    collect(v)
            elif isinstance(x, (list, tuple)):
                for v in x:
                    collect(v)

        collect(self.events)
        order = {t: i for i, t in enumerate(sorted(texts))}

        def enc(x):
            if isinstance(x, Cell):
                return enc(val(x.v))
            if isinstance(x, tuple) and len(x) == 4 and isinstance(x[3], S):
                return [x[0], order[str(x[3])], 0, str(x[3])]
            if isinstance(x, dict):
                return {k: enc(v) for k, v in x.items()}
            if isinstance(x, (list, tuple)):
                return [enc(v) for v in x]
            if isinstance(x, (np.integer,)):
                return int(x)
            return x

        if self.codes:
            self.events[0]["a"]["codes"] = {t: [ord(c) for c in t] for t in texts}
        else:
            self.events[0]["a"]["codes"] = {}
        self.events[0]["a"]["rank"] = order if self.ranks else {}
        for ev in self.events:
            ev["scn"] = self.name
            ev.setdefault("out", {})
            self.f.write(json.dumps(enc(ev)) + "\n")
            self.lines += 1
        self.nev += len(self.events)
        self.reset()

    def close(self):
        self.f.close()
