"""Builds call graphs and graphframes from explicit descriptions, and draws random
descriptions.  A description (spec) is plain data:
  nodes: [{"f": {attr: value}, "ch": [index, ...]}], roots: [index, ...],
  order: bool (node_ordering), nids: [id per node] (only with order),
  ixn: other index level names, rows: [{"u": index, "ix": [...], "c": [...]}],
  cols: [...], exc, inc, dm, md
"""
import os

import numpy as np
import pandas as pd

from hatchet.frame import Frame
from hatchet.graph import Graph
from hatchet.graphframe import GraphFrame
from hatchet.node import Node

NAN = float("nan")
LARGE = float(os.environ.get("VERIF_LARGE", "0.03"))


def build_graph(sp):
    nodes = []
    for i, d in enumerate(sp["nodes"]):
        nodes.append(Node(Frame(dict(d["f"]))))
    par = {}
    for i, d in enumerate(sp["nodes"]):
        for c in d["ch"]:
            nodes[i].add_child(nodes[c])
            par.setdefault(c, []).append(i)
    # the order in which parents are listed
    for c in range(len(nodes)):
        ps = par.get(c, [])
        if sp.get("revpar"):
            ps = ps[::-1]
        for i in ps:
            nodes[c].add_parent(nodes[i])
    g = Graph([nodes[r] for r in sp["roots"]])
    if sp.get("order"):
        for n, k in zip(nodes, sp["nids"]):
            n._hatchet_nid = k
        g.node_ordering = True
    g.enumerate_traverse()
    return g, nodes


def build(sp):
    g, nodes = build_graph(sp)
    data = []
    for r in sp["rows"]:
        d = {"node": nodes[r["u"]]}
        for n, v in zip(sp["ixn"], r["ix"]):
            d[n] = v
        for n, v in zip(sp["cols"], r["c"]):
            d[n] = v
        data.append(d)
    ix = ["node"] + list(sp["ixn"])
    df = pd.DataFrame(data=data, columns=ix + list(sp["cols"]))
    df.set_index(ix, inplace=True)
    if not sp.get("unsorted"):
        df.sort_index(inplace=True)
    kw = {}
    if "dm" in sp:
        kw["default_metric"] = sp["dm"]
    if "md" in sp:
        kw["metadata"] = dict(sp["md"])
    gf = GraphFrame(g, df, list(sp["exc"]), list(sp["inc"]), **kw)
    return gf, nodes


# ------------------------------------------------------------------ random shapes
def shape(rng, n, kind, style=None):
    """children lists; kind: tree, forest, dag, dagforest"""
    ch = [[] for _ in range(n)]
    nroots = 1
    if kind in ("forest", "dagforest"):
        nroots = rng.randint(2, 3) if n > 2 else 1
    for i in range(nroots, n):
        r = rng.random()
        if style is not None:
            # deep graphs, wide ones, or in between
            p = i - 1 if r < style else rng.randrange(min(i, 3) if style < 0.1 else i)
        elif r < 0.3:
            p = i - 1
        else:
            p = rng.randrange(i)
        ch[p].append(i)
    if kind.startswith("dag"):
        for _ in range(rng.randint(1, max(1, n // 2))):
            a, b = sorted(rng.sample(range(n), 2)) if n > 1 else (0, 0)
            if b >= nroots and b not in ch[a] and a != b:
                ch[a].append(b)
    for c in ch:
        rng.shuffle(c)
    roots = list(range(nroots))
    rng.shuffle(roots)
    return ch, roots


def levels(ch, roots):
    """longest distance from a root"""
    n = len(ch)
    lv = [0] * n
    for _ in range(n):
        for i in range(n):
            for c in ch[i]:
                lv[c] = max(lv[c], lv[i] + 1)
    return lv


POOL = ["a", "b", "c", "d", "e", "main", "foo", "foobar", "MPI_Send", "x y"]


def frames(rng, ch, roots, pool, distinct=False, leveled=False, extra=False):
    n = len(ch)
    lv = levels(ch, roots)
    fr = []
    for i in range(n):
        nm = rng.choice(pool)
        if leveled:
            nm = "%s%d" % (nm, lv[i])
        f = {"name": nm}
        if extra:
            # frames may differ in attributes other than the name
            r = rng.random()
            if r < 0.5:
                f["type"] = rng.choice(["function", "region"])
            if r < 0.25:
                f["line"] = rng.randint(1, 3)
        else:
            f["type"] = "function"
        fr.append(f)
    if distinct:
        # siblings (and roots) with distinct frames, and no two parents of a
        # common child conflict
        groups = [list(roots)] + [list(c) for c in ch]
        for _ in range(50):
            ok = True
            for g in groups:
                seen = set()
                for u in g:
                    k = tuple(sorted((a, str(b)) for a, b in fr[u].items()))
                    if k in seen:
                        fr[u] = dict(fr[u], name="%s_%d" % (fr[u]["name"], u))
                        ok = False
                    seen.add(k)
            if ok:
                break
    return fr


def number(rng, neg=True, quarters=True):
    v = rng.randint(-3 if neg else 0, 12)
    return v / 4.0 if quarters and rng.random() < 0.5 else float(v)


def random_spec(
    rng,
    n=None,
    kind=None,
    pool=None,
    distinct=False,
    leveled=None,
    extra=None,
    order=None,
    ixn=None,
    pnan=0.15,
    pinf=0.0,
    holes=0.0,
    missing=0.0,
    strcols=None,
    exc=None,
    inc=None,
    neg=True,
    onlynum=False,
    nmax=7,
    ncol=None,
    nonecells=False,
    frac=True,
    deep=True,
):
    # now and then a larger graph (deep, wide or bushy)
    large = n is None and nmax >= 5 and kind in (None, "tree", "forest") and rng.random() < LARGE
    if large:
        n, kind = rng.randint(30, 80), rng.choice(["tree", "tree", "forest"])
        pool = POOL
    n = n or rng.randint(1, nmax)
    kind = kind or rng.choice(["tree", "tree", "forest", "dag", "dagforest"])
    ch, roots = shape(rng, n, kind, rng.choice([0.05, 0.3, 0.9] if deep else [0.05, 0.2]) if large else None)
    if pool is None:
        pool = POOL[: rng.choice([2, 2, 3, 5, len(POOL)])]
    if leveled is None:
        leveled = kind.startswith("dag")
    if extra is None:
        extra = rng.random() < 0.25
    fr = frames(rng, ch, roots, pool, distinct, leveled, extra)
    if order is None:
        order = rng.random() < 0.15
    nids = rng.sample(range(n), n) if rng.random() < 0.6 else rng.sample(range(3 * n), n)
    if ixn is None:
        ixn = rng.choice([[], [], ["rank"], ["rank", "thread"], ["thread"]])
    cols, kinds = [], []
    exc = list(exc) if exc is not None else rng.choice([["time"], ["time", "cpu"], ["time (exc)", "hits"], []])
    inc = list(inc) if inc is not None else [c + " (inc)" for c in exc if rng.random() < 0.7 and "(exc)" not in c]
    if not exc and not inc:
        inc = ["time (inc)"]
    for c in exc + inc:
        cols.append(c)
        kinds.append(rng.choice(["float", "float", "int"]) if frac else "int")
    cols.append("name")
    kinds.append("name")
    if not onlynum and (strcols or (strcols is None and rng.random() < 0.5)):
        for c in rng.sample(["module", "line", "opt"], rng.randint(1, 2)):
            cols.append(c)
            kinds.append({"module": "str", "line": "intattr", "opt": "none" if nonecells else "str"}[c])
    if ncol:
        pass
    ks = list(range(len(cols)))
    rng.shuffle(ks)
    cols, kinds = [cols[k] for k in ks], [kinds[k] for k in ks]
    lv = {"rank": [0, 1, 2][: rng.randint(1, 3)], "thread": [0, 1][: rng.randint(1, 2)]}
    if len(ixn) == 1 and rng.random() < 0.2:
        lv[ixn[0]] = rng.choice([[3, 7], [2, 10], [9, 10, 11]])
    combos = [[]]
    for nme in ixn:
        combos = [c + [v] for c in combos for v in lv[nme]]
    rows = []
    for u in range(n):
        if rng.random() < missing:
            continue
        cs = [c for c in combos if not ixn or rng.random() >= holes]
        if not cs:
            cs = [rng.choice(combos)]
        for c in cs:
            rows.append({"u": u, "ix": list(c), "c": [cell(rng, k, fr[u], pnan, pinf, neg) for k in kinds]})
    if not rows:
        c = combos[0]
        rows.append({"u": 0, "ix": list(c), "c": [cell(rng, k, fr[0], pnan, pinf, neg) for k in kinds]})
    sp = {
        "nodes": [{"f": fr[i], "ch": ch[i]} for i in range(n)],
        "roots": roots,
        "order": order,
        "nids": nids,
        "ixn": list(ixn),
        "rows": rows,
        "cols": cols,
        "exc": exc,
        "inc": inc,
        "dm": rng.choice(exc + inc),
        "md": rng.choice([{}, {"a": 1}, {"cluster": "x", "n": [1, 2]}]),
        "revpar": rng.random() < 0.3,
        "unsorted": rng.random() < 0.2,
    }
    if sp["unsorted"]:
        rng.shuffle(rows)
    return sp


def cell(rng, k, f, pnan, pinf, neg):
    if k == "name":
        return f["name"]
    if k == "str":
        return rng.choice(["p", "q", "libx.so", "", "P", " p", "p ", "pq", "qp", "Libx.so", "x/libx.so"])
    if k == "none":
        return rng.choice(["p", "q", None])
    if k == "intattr":
        return rng.randint(0, 20)
    r = rng.random()
    if k == "float":
        if r < pnan:
            return NAN
        if r < pnan + pinf:
            return rng.choice([float("inf"), float("-inf")])
        return number(rng, neg)
    return rng.randint(-2 if neg else 0, 9)


def edges_ok(sp):
    return True


# --------------------------------------------------------------- quotients
def merged(sp, kept=None):
    """True if merging equal-frame siblings (after removing the nodes not in kept)
    gives an acyclic graph: the domain of squash and union on general DAGs"""
    n = len(sp["nodes"])
    ch = [list(d["ch"]) for d in sp["nodes"]]
    kept = set(range(n)) if kept is None else set(kept)

    def near(start):
        seen, out, st = set(), set(), list(start)
        while st:
            u = st.pop()
            if u in seen:
                continue
            seen.add(u)
            if u in kept:
                out.add(u)
            else:
                st.extend(ch[u])
        return out

    kids = {u: near(ch[u]) for u in kept}
    roots = near(sp["roots"])
    return acyclic_quotient({u: fkey(sp["nodes"][u]["f"]) for u in kept}, kids, roots)


def fkey(f):
    return tuple(sorted((a, str(b)) for a, b in f.items()))


def acyclic_quotient(fr, kids, roots, sides=None):
    """is the graph that merges equal-frame siblings acyclic (and, with sides, does no
    class have two members of one side)?"""
    cls = {u: u for u in fr}

    def find(u):
        while cls[u] != u:
            u = cls[u]
        return u

    changed = True
    while changed:
        changed = False
        groups = [set(roots)]
        by = {}
        for u in fr:
            by.setdefault(find(u), set()).update(kids[u])
        groups += list(by.values())
        for g in groups:
            seen = {}
            for u in g:
                k = fr[u]
                r = find(u)
                if k in seen and find(seen[k]) != r:
                    cls[r] = find(seen[k])
                    changed = True
                else:
                    seen[k] = r
    if sides:
        if len({(find(u), sides[u]) for u in fr}) != len(fr):
            return False
    succ = {}
    for u in fr:
        succ.setdefault(find(u), set()).update(find(c) for c in kids[u])
    # cycle check
    state = {}

    def dfs(u):
        state[u] = 1
        for v in succ.get(u, ()):
            if state.get(v) == 1 or (v not in state and not dfs(v)):
                return False
        state[u] = 2
        return True

    return all(dfs(u) for u in list(succ) if u not in state)
