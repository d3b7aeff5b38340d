"""Scenario drivers, one per property."""
import copy as pycopy
import os

import gen
import ops
from hatchet import GraphFrame
from hatchet.query import ObjectQuery
from gen import NAN, random_spec

DRIVERS = {}


def driver(pid):
    def deco(cls):
        DRIVERS[pid] = cls()
        return cls

    return deco


class Base(object):
    def directed(self):
        return []

    def case(self, rec, rng, case, name):
        raise NotImplementedError


# ------------------------------------------------------------ small helpers
def names_spec(edges, names, roots=None, **kw):
    """a graph description from an edge list over 0..n-1"""
    n = len(names)
    ch = [[] for _ in range(n)]
    haspar = set()
    for a, b in edges:
        ch[a].append(b)
        haspar.add(b)
    nodes = []
    for i in range(n):
        f = names[i] if isinstance(names[i], dict) else {"name": names[i], "type": "function"}
        nodes.append({"f": f, "ch": ch[i]})
    sp = {"nodes": nodes, "roots": roots if roots is not None else [i for i in range(n) if i not in haspar],
          "order": False, "nids": list(range(n)), "ixn": [], "cols": ["time", "time (inc)", "name"],
          "exc": ["time"], "inc": ["time (inc)"],
          "rows": [{"u": i, "ix": [], "c": [float(2 ** i), float(100 + i), nodes[i]["f"]["name"]]} for i in range(n)]}
    sp.update(kw)
    return sp


def case_spec(case):
    """a graphframe from a model-checker case: [n, edges, names, kept]"""
    names = ["%s" % x for x in case["f"]]
    sp = names_spec([tuple(e) for e in case["e"]], names, case.get("r"))
    if "kept" in case:
        sp["rows"] = [r for r in sp["rows"] if r["u"] in case["kept"]]
    return sp


def perm_spec(rng, sp, order=True):
    """the same description with children, roots and node numbering shuffled"""
    n = len(sp["nodes"])
    p = list(range(n))
    rng.shuffle(p)
    inv = {p[i]: i for i in range(n)}
    nodes = [None] * n
    for i in range(n):
        ch = [p[c] for c in sp["nodes"][i]["ch"]]
        rng.shuffle(ch)
        nodes[p[i]] = {"f": dict(sp["nodes"][i]["f"]), "ch": ch}
    roots = [p[r] for r in sp["roots"]]
    rng.shuffle(roots)
    q = dict(sp, nodes=nodes, roots=roots, nids=[sp["nids"][inv[j]] for j in range(n)])
    q["rows"] = [dict(r, u=p[r["u"]]) for r in sp["rows"]]
    return q


def reroot(sp):
    """recompute the list of roots and drop unreachable nodes"""
    n = len(sp["nodes"])
    haspar = {c for d in sp["nodes"] for c in d["ch"]}
    roots = [i for i in range(n) if i not in haspar]
    return dict(sp, roots=roots)


def acyclic(sp):
    n = len(sp["nodes"])
    indeg = [0] * n
    for d in sp["nodes"]:
        for c in d["ch"]:
            indeg[c] += 1
    st = [i for i in range(n) if not indeg[i]]
    seen = 0
    while st:
        u = st.pop()
        seen += 1
        for c in sp["nodes"][u]["ch"]:
            indeg[c] -= 1
            if not indeg[c]:
                st.append(c)
    return seen == n


def mutate_graph(rng, sp):
    """a slightly different graph"""
    while True:
        q = mutate_once(rng, sp)
        if acyclic(q):
            return q


def mutate_once(rng, sp):
    sp = pycopy.deepcopy(sp)
    n = len(sp["nodes"])
    k = rng.choice(["rename", "addedge", "deledge", "leaf", "dropleaf", "unshare"])
    i = rng.randrange(n)
    if k == "rename":
        sp["nodes"][i]["f"]["name"] += "X"
    elif k == "addedge" and n > 1:
        a, b = sorted(rng.sample(range(n), 2))
        if b not in sp["nodes"][a]["ch"] and b not in sp["roots"]:
            sp["nodes"][a]["ch"].append(b)
    elif k == "deledge":
        es = [(a, c) for a in range(n) for c in sp["nodes"][a]["ch"]]
        if es:
            a, c = rng.choice(es)
            sp["nodes"][a]["ch"].remove(c)
    elif k == "leaf":
        sp["nodes"].append({"f": {"name": "new", "type": "function"}, "ch": []})
        sp["nids"] = list(sp["nids"]) + [max(sp["nids"]) + 1]
        sp["nodes"][i]["ch"].append(n)
    elif k == "unshare":
        par = {}
        for a in range(n):
            for c in sp["nodes"][a]["ch"]:
                par.setdefault(c, []).append(a)
        sh = [c for c in par if len(par[c]) > 1 and not sp["nodes"][c]["ch"]]
        if sh:
            c = rng.choice(sh)
            a = rng.choice(par[c])
            sp["nodes"].append({"f": dict(sp["nodes"][c]["f"]), "ch": []})
            sp["nids"] = list(sp["nids"]) + [max(sp["nids"]) + 1]
            sp["nodes"][a]["ch"].remove(c)
            sp["nodes"][a]["ch"].append(n)
    return reroot(sp)


def twisted(rng):
    """two graphs that differ, if at all, in which of several nodes with the same
    frame their callers share"""
    callers = ["p%d" % i for i in range(rng.randint(2, 5))]
    k = rng.choice([2, 2, 3])
    depth = rng.choice([0, 0, 1])
    top = rng.random() < 0.5

    def make(to, low):
        names = (["main"] if top else []) + callers + ["x"] * k + ["y"] * (2 if depth else 0)
        o = 1 if top else 0
        edges = [(0, o + i) for i in range(len(callers))] if top else []
        edges += [(o + i, o + len(callers) + t) for i, t in enumerate(to)]
        if depth:
            edges += [(o + len(callers) + j, o + len(callers) + k + t) for j, t in enumerate(low)]
        sp = names_spec(edges, names)
        used = {c for d in sp["nodes"] for c in d["ch"]} | set(range(o + len(callers)))
        keep = [i for i in range(len(names)) if i in used]
        # nodes nobody calls are left out
        while True:
            called = {c for i in keep for c in sp["nodes"][i]["ch"]}
            more = [i for i in keep if i < o + len(callers) or i in called]
            if more == keep:
                break
            keep = more
        new = {u: i for i, u in enumerate(keep)}
        return names_spec([(new[a], new[b]) for a, b in edges if a in new and b in new], [names[i] for i in keep])

    to = [rng.randrange(k) for _ in callers]
    low = [rng.randrange(2) for _ in range(k)]
    a = make(to, low)
    for _ in range(rng.choice([0, 1, 1, 2])):
        if depth and rng.random() < 0.5:
            low[rng.randrange(k)] = rng.randrange(2)
        else:
            to[rng.randrange(len(to))] = rng.randrange(k)
    if rng.random() < 0.3:
        # the shared nodes change names
        q = list(range(k))
        rng.shuffle(q)
        to = [q[t] for t in to]
        low = [low[q.index(j)] for j in range(k)]
    return a, make(to, low)


def distinct_siblings(sp):
    for g in [sp["roots"]] + [d["ch"] for d in sp["nodes"]]:
        ks = [gen.fkey(sp["nodes"][u]["f"]) for u in g]
        if len(set(ks)) != len(ks):
            return False
    return True


def union_ok(a, b, injective=False):
    na = len(a["nodes"])
    fr, kids = {}, {}
    sides = {i: i < na for i in range(na + len(b["nodes"]))} if injective else None
    for off, sp in ((0, a), (na, b)):
        for i, d in enumerate(sp["nodes"]):
            fr[off + i] = gen.fkey(d["f"])
            kids[off + i] = {off + c for c in d["ch"]}
    roots = set(a["roots"]) | {na + r for r in b["roots"]}
    return gen.acyclic_quotient(fr, kids, roots, sides)


def squashable(rng, **kw):
    """a graphframe description whose squashes are defined for the given rows"""
    for _ in range(60):
        sp = random_spec(rng, **kw)
        kept = {r["u"] for r in sp["rows"]}
        if gen.merged(sp, kept):
            return sp
    return random_spec(rng, **dict(kw, kind="tree"))


def always_squashable(rng, **kw):
    """every subset of rows may be kept: trees, forests and level-typed DAGs"""
    kind = kw.pop("kind", None) or rng.choice(["tree", "tree", "forest", "dag", "dagforest"])
    for _ in range(60):
        sp = random_spec(rng, kind=kind, leveled=kind.startswith("dag"), **kw)
        if not kind.startswith("dag"):
            return sp
        # frames grow along every edge, so no cycle can arise
        lv = gen.levels([d["ch"] for d in sp["nodes"]], sp["roots"])
        return sp
    return None


# ------------------------------------------------------------ C01
@driver("C01")
class C01(Base):
    def run(self, rec, rng, h, full=False):
        from hatchet.graph import Graph

        ns = ops.nodes_of(rec, h)
        attrs = [(), ("name",), ("name", "type"), ("line", "name"), ("nosuch",)]
        for order in ("pre", "post"):
            for byNid in (False, True):
                ops.traverse(rec, h, order, byNid, rng.choice(attrs))
        for start in rng.sample(ns, min(len(ns), 3)):
            ops.traverse(rec, h, rng.choice(["pre", "post"]), rng.random() < 0.3, rng.choice(attrs), start)
        if ns and rng.random() < 0.2:
            g = ops.graph_of(rec, h)
            what = rng.choice([g, rng.choice(ns)])
            m = rng.choice(["traverse", "node_order_traverse"])
            bad = rng.choice(["mid", "", "PRE", None, "prepost"])
            ops.refuse(rec, h, "ValueError", "order", lambda: list(getattr(what, m)(order=bad)))
        for u in ns:
            ops.paths(rec, h, u)

    def scenario(self, rec, rng, name):
        ops.begin(rec, name)
        sp = random_spec(rng, nmax=9 if rec.tier == "quick" else 11)
        if rng.random() < 0.6:
            h = ops.new_graph(rec, sp)
        else:
            h = ops.new(rec, sp)
            r = rng.random()
            if r < 0.4 and gen.merged(sp, {q["u"] for q in sp["rows"]}):
                h2, exc = ops.squash(rec, h)
                h = h2 or h
            elif r < 0.7:
                h2, exc = ops.deepcopy(rec, h)
                h = h2 or h
        self.run(rec, rng, h)

    def case(self, rec, rng, case, name):
        ops.begin(rec, name)
        sp = case_spec(case)
        if rng.random() < 0.5:
            sp = perm_spec(rng, sp)
        h = ops.new_graph(rec, sp)
        ops.traverse(rec, h, "pre", rng.random() < 0.3, ("name",))
        ops.traverse(rec, h, "post", rng.random() < 0.3)
        for u in ops.nodes_of(rec, h):
            ops.paths(rec, h, u)


# ------------------------------------------------------------ histories (C02, C26)
AGG1 = ["mean", "max", "min", "sum1"]


def history(rec, rng, steps, maxn=5, big=False):
    """random operations on a growing set of graphframes"""
    live = {}   # handle -> frames such that every squash is defined

    def fresh():
        sp = always_squashable(rng, nmax=maxn, pinf=0, distinct=True, extra=rng.random() < 0.2,
                               ixn=ixn, exc=exc, inc=inc, holes=0.2 if ixn else 0, pnan=0.1,
                               strcols=strs, neg=rng.random() < 0.5)
        h = ops.new(rec, sp)
        live[h] = True
        return h

    ixn = rng.choice([[], [], ["rank"], ["rank", "thread"]])
    exc, inc = rng.choice([(["time"], ["time (inc)"]), (["time"], []), (["time", "cpu"], ["time (inc)"]),
                           ([], ["time (inc)"]), (["time (exc)"], ["time"]), ([], ["total"])])
    strs = rng.random() < 0.3
    fresh()
    if rng.random() < 0.7:
        fresh()
    for _ in range(steps):
        h = rng.choice(list(live))
        step(rec, rng, live, h, fresh)


def replay(rec, rng, case):
    """a history of the generative model: the same operations on the real code"""
    live = {}
    for g in case["init"]:
        sp = names_spec([tuple(e) for e in g["e"]], g["f"], md={"n": [1]}, exc=["time"], inc=["time (inc)", "total"])
        n = len(sp["nodes"])
        sp["cols"] = ["time", "time (inc)", "total", "name"]
        ranks = g["ranks"]
        sp["ixn"] = ["rank"] if ranks else []
        sp["rows"] = [{"u": u, "ix": [k] if ranks else [],
                       "c": [float(2 ** u), float(100 + u), float(50 - u), sp["nodes"][u]["f"]["name"]]}
                      for u in range(n) for k in (ranks or [0]) if [u, k] not in g["drop"]]
        live[ops.new(rec, perm_spec(rng, sp))] = True
    for st in case["ops"]:
        hs = list(live)
        if max(st["h"], st["h2"]) >= len(hs):
            return  # an earlier operation was refused
        pred = None
        if st["k"] in ("filter", "filterns"):
            pred = {"k": "cmp", "col": "name", "op": "!=", "v": st["v"]}
            if st["rank"]:
                pred = {"k": "ix", "name": "rank", "op": "==", "v": 0}
        step(rec, rng, live, hs[st["h"]], None, st["k"], hs[st["h2"]], pred)
    for h in list(rec.objs):
        ops.wf(rec, h)


def complete(gf):
    """every node has a row for every combination of other index values"""
    df = gf.dataframe
    names = [x for x in df.index.names if x != "node"]
    n = len(gf.graph)
    if not names:
        return len(df) == n
    return len(df) == n * len(df.reset_index()[names].drop_duplicates())


def allnodes(gf):
    return len(set(gf.dataframe.index.get_level_values("node"))) == len(gf.graph)


def distinct_graph(g):
    for lst in [g.roots] + [n.children for n in g.traverse()]:
        fs = [n.frame for n in lst]
        if any(fs[i] == fs[j] for i in range(len(fs)) for j in range(i)):
            return False
    return True


def leveled_ok(g):
    """the merge of every squash is acyclic: every node is at one depth, or the graph
    has no shared nodes"""
    seen = {}
    st = [(r, 0) for r in g.roots]
    shared = any(len(n.parents) > 1 for n in g.traverse())
    if not shared:
        return True
    fr = {}
    for n in g.traverse():
        fr.setdefault(n.frame, []).append(n)
    return all(len(v) == 1 for v in fr.values())


def nest_ok(g, keep=None):
    """merging equal-frame siblings after removing nodes not kept stays acyclic"""
    nodes = list(g.traverse())
    kept = {id(n) for n in nodes} if keep is None else keep
    fr, kids = {}, {}

    def near(start):
        seen, out, st = set(), set(), list(start)
        while st:
            u = st.pop()
            if id(u) in seen:
                continue
            seen.add(id(u))
            if id(u) in kept:
                out.add(id(u))
            else:
                st.extend(u.children)
        return out

    for n in nodes:
        if id(n) in kept:
            fr[id(n)] = n.frame
            kids[id(n)] = near(n.children)
    return gen.acyclic_quotient(fr, kids, near(g.roots))


def pair_ok(g1, g2):
    fr, kids, sides = {}, {}, {}
    for g in (g1, g2):
        for n in g.traverse():
            fr[id(n)] = n.frame
            sides[id(n)] = g is g1
            kids[id(n)] = {id(c) for c in n.children}
    return gen.acyclic_quotient(fr, kids, {id(r) for g in (g1, g2) for r in g.roots}, sides)


def kept_ids(gf):
    ids = {}
    for n in gf.graph.traverse():
        ids[n._hatchet_nid] = id(n)
    return {ids.get(n._hatchet_nid) for n in gf.dataframe.index.get_level_values("node")}


def has_inf(gf):
    import numpy as np

    for c in gf.exc_metrics + gf.inc_metrics:
        for v in gf.dataframe[c]:
            if isinstance(v, float) and np.isinf(v):
                return True
    return False


def too_big(gf):
    """keeps numbers within the specification's exact arithmetic"""
    for c in set(gf.exc_metrics + gf.inc_metrics):
        for v in gf.dataframe[c]:
            if v == v and abs(v) not in (float("inf"),):
                if abs(v) > 20000:
                    return True
                if abs(v * 64 - round(v * 64)) > 1e-9:
                    return True
    return False


def put(rec, live, res):
    h, exc = res
    if h:
        live[h] = True


def step(rec, rng, live, h, fresh, k=None, h2=None, pred=None):
    """one operation, a random one or the given one; nothing when it is not applicable"""
    gf = rec.objs[h]
    multi = gf.dataframe.index.nlevels > 1
    g = gf.graph
    numeric = not has_inf(gf) and not too_big(gf)
    k = k or rng.choice(["copy", "deepcopy", "filter", "filter", "squash", "sum", "updinc", "genexc", "drop",
                    "groupby", "arith", "arith", "iarith", "unify", "fresh", "filterns", "render", "query", "traverse"])
    if len(live) > 6 and k in ("copy", "deepcopy", "fresh"):
        return
    if k == "fresh":
        fresh()
    elif k == "copy":
        put(rec, live, ops.copy(rec, h))
    elif k == "deepcopy":
        put(rec, live, ops.deepcopy(rec, h))
    elif k in ("filter", "filterns"):
        if not numeric:
            return
        p = pred or ops.rand_pred(rng, gf, 1)
        sq = k == "filter"
        if sq:
            rows = gf.dataframe.reset_index()
            keep = {r["node"]._hatchet_nid for _, r in rows.iterrows() if ops.ev_pred(p, r)}
            if not keep or not nest_ok(g, {id(n) for n in g.traverse() if n._hatchet_nid in keep}):
                return
        put(rec, live, ops.filt(rec, h, p, sq, rng.random() < 0.8))
    elif k == "squash":
        if numeric and nest_ok(g, kept_ids(gf)):
            put(rec, live, ops.squash(rec, h, rng.random() < 0.8))
    elif k == "sum":
        if numeric and allnodes(gf):
            cols = [c for c in gf.exc_metrics + gf.inc_metrics]
            cols = rng.sample(cols, rng.randint(1, min(2, len(cols))))
            if rng.random() < 0.5:
                ops.sums(rec, h, cols, None)
            else:
                ops.sums(rec, h, cols, ["out_%s" % c for c in cols])
    elif k == "updinc":
        if numeric and allnodes(gf):
            ops.updinc(rec, h)
    elif k == "genexc":
        if numeric and complete(gf):
            ops.genexc(rec, h)
    elif k == "drop":
        if multi and numeric:
            ops.drop(rec, h, rng.choice(["sum1", "max", "min"]))
    elif k == "groupby":
        if not multi and allnodes(gf) and numeric and "name" in gf.dataframe.columns and groupby_ok(gf, "name"):
            aggs = [(c, "sum1") for c in set(gf.exc_metrics + gf.inc_metrics)]
            put(rec, live, ops.groupby(rec, h, "name", aggs))
    elif k in ("arith", "iarith", "unify"):
        h2 = h2 or rng.choice(list(live))
        b = rec.objs[h2]
        if set(b.exc_metrics + b.inc_metrics) != set(gf.exc_metrics + gf.inc_metrics):
            return
        if list(b.dataframe.index.names) != list(gf.dataframe.index.names):
            return
        if k != "unify" and (has_inf(gf) or has_inf(b) or too_big(gf) or too_big(b)):
            return
        if b is gf and k != "arith":
            return
        if b.graph is not g and not (distinct_graph(g) and distinct_graph(b.graph) and pair_ok(g, b.graph)):
            return
        if b.graph is not g and ("_missing_node" in gf.dataframe or "_missing_node" in b.dataframe):
            return
        op = rng.choice(["add", "sub", "mul"])
        if k == "arith":
            put(rec, live, ops.arith(rec, h, h2, op, rng.choice(["method", "sign"])))
        elif k == "iarith":
            ops.iarith(rec, h, h2, op)
        else:
            ops.unify(rec, h, h2)
    elif k == "render":
        render(rec, rng, h)
    elif k == "query":
        q = rng.choice([["*"], [{"name": "a.*"}, "*"], ["+", {"name": ".*"}]])
        ops.pure(rec, [h], "query", lambda: run_query(gf, q, multi))
    elif k == "traverse":
        ops.traverse(rec, h)


def run_query(gf, q, multi):
    from hatchet.query import ObjectQuery

    if allnodes(gf):
        gf.query_engine.apply(ObjectQuery(q, "any" if multi else "off"), gf.graph, gf.dataframe)


def render(rec, rng, h):
    """exports and renderings, whose output other properties judge"""
    gf = rec.objs[h]
    names = [x for x in gf.dataframe.index.names if x != "node"]
    full = allnodes(gf) and (not names or complete(gf))
    mets = gf.exc_metrics + gf.inc_metrics
    if not mets or "name" not in gf.dataframe:
        return
    m = rng.choice(mets)
    what = rng.choice(["tree", "dot", "json", "dict", "literal", "flame", "len", "cols", "hdf"])
    kw = {}
    first = gf.dataframe.index[0]
    if "rank" in names:
        kw["rank"] = first[list(gf.dataframe.index.names).index("rank")]
    if "thread" in names:
        kw["thread"] = first[list(gf.dataframe.index.names).index("thread")]

    def f():
        if what == "tree" and full:
            gf.tree(metric_column=m, **kw)
        elif what == "dot" and full and not names:
            gf.to_dot(metric=m)
        elif what == "json":
            gf.to_json()
        elif what == "dict":
            gf.to_dict()
        elif what == "literal" and full:
            gf.to_literal(**kw)
        elif what == "flame" and full and all(len(n.parents) < 2 for n in gf.graph.traverse()):
            gf.to_flamegraph(metric=m, **kw)
        elif what == "len":
            len(gf.graph)
        elif what == "cols":
            gf.show_metric_columns()
        elif what == "hdf":
            import os

            p = os.path.join(rec.scratch, "p.h5")
            gf.to_hdf(p)
            os.unlink(p)

    if what == "flame" and any(gf.dataframe[m].isna()):
        return
    rec.op("pure", [h], {"what": what, "m": m}, lambda: (f(), None)[1])


def groupby_ok(gf, key):
    """the groups form an acyclic graph and no key is missing"""
    k = {id(n): gf.dataframe.loc[n, key] for n in gf.graph.traverse()}
    if any(v is None or v != v for v in k.values()):
        return False
    succ = {}
    for n in gf.graph.traverse():
        for c in n.children:
            if k[id(n)] != k[id(c)]:
                succ.setdefault(k[id(n)], set()).add(k[id(c)])
    state = {}

    def dfs(u):
        state[u] = 1
        for v in succ.get(u, ()):
            if state.get(v) == 1 or (v not in state and not dfs(v)):
                return False
        state[u] = 2
        return True

    return all(dfs(u) for u in list(succ) if u not in state)


@driver("C02")
class C02(Base):
    def scenario(self, rec, rng, name):
        ops.begin(rec, name)
        history(rec, rng, rng.randint(4, 8), maxn=6)
        for h in list(rec.objs):
            ops.wf(rec, h)
        h = rng.choice(list(rec.objs))
        gf = rec.objs[h]
        if rng.random() < 0.3 and hasattr(gf, "dataframe"):
            bad = rng.choice([
                lambda: GraphFrame(None, gf.dataframe), lambda: GraphFrame(gf.graph, None),
                lambda: GraphFrame(gf.graph, gf.dataframe.reset_index()),
                lambda: GraphFrame(gf.graph, gf.dataframe.rename_axis(index={"node": "Node"}))])
            ops.refuse(rec, h, "ValueError", "construct", bad)
        elif rng.random() < 0.3 and hasattr(gf, "dataframe"):
            rec.op("metrics", [h], {}, lambda: {"cols": gf.show_metric_columns()})
            rec.op("construct", [h], {}, lambda: GraphFrame(gf.graph, gf.dataframe.copy()))

    def case(self, rec, rng, case, name):
        ops.begin(rec, name)
        replay(rec, rng, case)


def failing(rec, rng):
    """a call that cannot succeed, which must leave everything as it was"""
    hs = [h for h, o in rec.objs.items() if isinstance(o, GraphFrame) and len(o.dataframe)]
    h = rng.choice(hs)
    gf = rec.objs[h]
    names = [x for x in gf.dataframe.index.names if x != "node"]
    mets = gf.exc_metrics + gf.inc_metrics

    def boom(*a, **k):
        raise ArithmeticError("no")

    cases = [("EmptyFilter", "filter empty", lambda: gf.filter(lambda r: False, num_procs=1)),
             ("ArithmeticError", "filter raises", lambda: gf.filter(boom, num_procs=1, squash=rng.random() < 0.5)),
             ("InvalidFilter", "filter object", lambda: gf.filter(3)),
             ("", "hdf path", lambda: gf.to_hdf(os.path.join(rec.scratch, "none", "x.h5"))),
             ("KeyError", "tree column", lambda: gf.tree(metric_column="nosuch")),
             ("", "dot column", lambda: gf.to_dot(metric="nosuch")),
             ("", "sum column", lambda: gf.subgraph_sum(["nosuch"], ["out"])),
             ("", "not a graphframe", lambda: rng.choice([gf.unify, gf.add, gf.sub, gf.div, gf.mul])(3))]
    if mets and allnodes(gf):
        cases.append(("InvalidQueryFilter", "query value",
                      lambda: run_query2(gf, [{mets[0]: "nonsense"}], "all" if names else "off")))
        cases.append(("InvalidQueryFilter", "query value",
                      lambda: gf.filter(ObjectQuery([{"name": 3}], "any" if names else "off"))))
    if not names and "name" in gf.dataframe and mets:
        cases.append(("ArithmeticError", "groupby raises", lambda: gf.groupby_aggregate(["name"], boom)))
    if names:
        cases.append(("ArithmeticError", "drop raises", lambda: gf.drop_index_levels(boom)))
    err, what, fn = rng.choice(cases)
    ops.refuse(rec, h, err, what, fn)


def run_query2(gf, q, mode):
    return gf.filter(ObjectQuery(q, mode), squash=False)


@driver("C26")
class C26(Base):
    def scenario(self, rec, rng, name):
        ops.begin(rec, name)
        history(rec, rng, rng.randint(6, 10), maxn=4)
        for _ in range(rng.choice([0, 0, 1, 2])):
            failing(rec, rng)

    def case(self, rec, rng, case, name):
        ops.begin(rec, name)
        replay(rec, rng, case)


# ------------------------------------------------------------ C03
@driver("C03")
class C03(Base):
    def scenario(self, rec, rng, name):
        ops.begin(rec, name)
        if rng.random() < 0.15:
            a, b = twisted(rng)
            h, hb = ops.new_graph(rec, perm_spec(rng, a)), ops.new_graph(rec, perm_spec(rng, b))
            ops.eq(rec, h, hb)
            ops.eq(rec, h, h)
            ns, nb = ops.nodes_of(rec, h), ops.nodes_of(rec, hb)
            for _ in range(3):
                ops.nodeeq(rec, h, rng.choice(ns), hb, rng.choice(nb))
            return
        sp = random_spec(rng, distinct=rng.random() < 0.8, nmax=8, missing=rng.choice([0, 0.2]))
        r = rng.random()
        h = ops.new(rec, sp)
        if r < 0.35:
            hc, _ = ops.copy(rec, h)
            if hc and rng.random() < 0.4:
                # a shallow copy has its own lists and (top-level) metadata
                for k in ("exc", "inc", "dm"):
                    ops.edit(rec, rng.choice([h, hc]), k, rng)
                rec.op("edit", [hc], {"what": "meta"}, lambda: rec.objs[hc].metadata.update(edited=1))
                return
            h2, _ = ops.deepcopy(rec, h)
            h3, _ = ops.gcopy(rec, h, rng.random() < 0.7)
            if distinct_siblings(sp):
                for x in (h2, h3):
                    if x:
                        ops.eq(rec, h, x)
            if h2:
                # a copy of the copy, after changing the copy
                if allnodes(rec.objs[h2]) and not has_inf(rec.objs[h2]):
                    ops.updinc(rec, h2)
                h4, _ = ops.deepcopy(rec, h2)
                for _ in range(rng.randint(2, 5)):
                    x = rng.choice([h, h2, h3, h4])
                    if x:
                        kinds = ["frame", "link", "root"]
                        if x != h3:
                            kinds += ["meta", "exc", "inc", "dm"] * 2
                        ops.edit(rec, x, rng.choice(kinds), rng)
            return
        if not distinct_siblings(sp):
            sp = random_spec(rng, kind="tree", distinct=True, leveled=False)
            if not distinct_siblings(sp):
                return
            h = ops.new(rec, sp)
        b = perm_spec(rng, sp)
        hb = ops.new_graph(rec, b)
        ops.eq(rec, h, hb)
        c = mutate_graph(rng, perm_spec(rng, sp))
        if distinct_siblings(c):
            hc = ops.new_graph(rec, c)
            ops.eq(rec, h, hc)
            ops.eq(rec, hc, hb)
            d = mutate_graph(rng, c)
            if distinct_siblings(d):
                hd = ops.new_graph(rec, d)
                ops.eq(rec, hd, hb)
                ops.eq(rec, hd, hc)
        ops.eq(rec, h, h)
        ns, nb = ops.nodes_of(rec, h), ops.nodes_of(rec, hb)
        for _ in range(3):
            ops.nodeeq(rec, h, rng.choice(ns), hb, rng.choice(nb))

    def case(self, rec, rng, case, name):
        ops.begin(rec, name)
        h1 = ops.new_graph(rec, perm_spec(rng, case_spec(case["a"])))
        h2 = ops.new_graph(rec, perm_spec(rng, case_spec(case["b"])))
        ops.eq(rec, h1, h2)


# ------------------------------------------------------------ C04
@driver("C04")
class C04(Base):
    def scenario(self, rec, rng, name):
        ops.begin(rec, name)
        if rng.random() < 0.4:
            self.unify(rec, rng)
            return
        dup = rng.random() < 0.15
        for _ in range(80):
            if not dup and rng.random() < 0.1:
                a, b = twisted(rng)
                break
            if dup:
                a = random_spec(rng, kind=rng.choice(["tree", "forest"]), pool=["a", "b"], extra=False, nmax=6)
                b = random_spec(rng, kind=rng.choice(["tree", "forest"]), pool=["a", "b"], extra=False, nmax=6)
                break
            pool = gen.POOL[: rng.choice([2, 3, 4, 5])]
            a = random_spec(rng, distinct=True, pool=pool, leveled=rng.random() < 0.5, extra=rng.random() < 0.2)
            if rng.random() < 0.4:
                b = mutate_graph(rng, perm_spec(rng, a))
                b["rows"] = [r for r in b["rows"]]
            else:
                b = random_spec(rng, distinct=True, pool=pool, leveled=rng.random() < 0.5, extra=rng.random() < 0.2)
            if distinct_siblings(a) and distinct_siblings(b) and union_ok(a, b):
                break
        else:
            return
        h1, h2 = ops.new_graph(rec, a), ops.new_graph(rec, b)
        u, _ = ops.union(rec, h1, h2, dup, rng.random() < 0.85)
        if u and not dup:
            if rng.random() < 0.4:
                ops.union(rec, h2, h1, dup)
            if rng.random() < 0.3 and pair_ok(rec.objs[u], rec.objs[h1]):
                ops.union(rec, u, h1)
            if rng.random() < 0.2:
                ops.union(rec, h1, h1)

    def unify(self, rec, rng):
        """graphframes of different metrics, their rows in any order"""
        pr = arith_pair(rng)
        if not pr:
            return
        hs = []
        for sp in pr:
            if rng.random() < 0.4:
                sp["unsorted"] = True
                rng.shuffle(sp["rows"])
            if rng.random() < 0.4:
                lone_metric(rng, sp)
            hs.append(ops.new(rec, sp))
        h1, h2 = hs
        for _ in range(rng.randint(1, 2)):
            ops.unify(rec, h1, h2)
            if rng.random() < 0.6:
                break
            # one of the two again with a third graphframe
            c = arith_pair(rng, ixn=list(rec.objs[h1].dataframe.index.names)[1:])
            if not c or not pair_ok(rec.objs[h1].graph, gen.build(c[1])[0].graph):
                break
            h2 = ops.new(rec, c[1])
            if rng.random() < 0.5:
                h1, h2 = h2, h1

    def case(self, rec, rng, case, name):
        ops.begin(rec, name)
        if rng.random() < 0.5:
            ops.unify(rec, ops.new(rec, perm_spec(rng, case_spec(case["a"]))),
                      ops.new(rec, perm_spec(rng, case_spec(case["b"]))))
            return
        h1 = ops.new_graph(rec, perm_spec(rng, case_spec(case["a"])))
        h2 = ops.new_graph(rec, perm_spec(rng, case_spec(case["b"])))
        ops.union(rec, h1, h2)


def lone_metric(rng, sp):
    """a metric the other operand does not have, or one less"""
    if rng.random() < 0.4 and len(sp["exc"] + sp["inc"]) > 1:
        c = rng.choice(sp["exc"] + sp["inc"])
        k = sp["cols"].index(c)
        sp["cols"] = [x for x in sp["cols"] if x != c]
        sp["rows"] = [dict(r, c=[v for i, v in enumerate(r["c"]) if i != k]) for r in sp["rows"]]
        sp["exc"] = [x for x in sp["exc"] if x != c]
        sp["inc"] = [x for x in sp["inc"] if x != c]
    else:
        c = rng.choice(["only", "only (inc)"])
        sp["cols"] = sp["cols"] + [c]
        sp["rows"] = [dict(r, c=r["c"] + [gen.number(rng)]) for r in sp["rows"]]
        k = "inc" if "inc" in c else "exc"
        sp[k] = list(sp[k]) + [c]


# ------------------------------------------------------------ C05
def arith_pair(rng, ixn=None, big=False):
    exc, inc = rng.choice([(["time"], ["time (inc)"]), (["time"], []), (["time", "cpu"], []), ([], ["total"]),
                           (["time", "cpu"], ["time (inc)", "cpu (inc)"]), (["a", "b", "c"], ["d (inc)", "e"])])
    ixn = rng.choice([[], [], ["rank"], ["rank", "thread"]]) if ixn is None else ixn
    for _ in range(80):
        pool = gen.POOL[: rng.choice([2, 3, 4])]
        kw = dict(distinct=True, pool=pool, exc=exc, inc=inc, ixn=ixn, nmax=5, holes=0.2, pinf=0.05,
                  order=False)
        a = random_spec(rng, missing=rng.choice([0, 0, 0.3]), leveled=rng.random() < 0.6, **kw)
        if rng.random() < 0.5:
            b = mutate_graph(rng, perm_spec(rng, a))
            cols = b["cols"]
            b["rows"] = [dict(r, c=[gen.number(rng) if isinstance(v, float) and c not in ("line",)
                                    else b["nodes"][r["u"]]["f"]["name"] if c == "name" else v
                                    for c, v in zip(cols, r["c"])]) for r in b["rows"]
                         if r["u"] < len(b["nodes"]) and rng.random() < 0.9] or b["rows"]
            n = len(b["nodes"])
            have = {r["u"] for r in b["rows"]}
            for u in range(n):
                if u not in have and rng.random() < 0.8:
                    r = dict(rng.choice(b["rows"]))
                    r["u"] = u
                    r["c"] = [b["nodes"][u]["f"]["name"] if c == "name" else v for c, v in zip(cols, r["c"])]
                    b["rows"].append(r)
        else:
            b = random_spec(rng, missing=rng.choice([0, 0, 0.3]), leveled=rng.random() < 0.6, **kw)
        if distinct_siblings(a) and distinct_siblings(b) and union_ok(a, b, True):
            return a, b
    return None


@driver("C05")
class C05(Base):
    def scenario(self, rec, rng, name):
        ops.begin(rec, name)
        pr = arith_pair(rng)
        if not pr:
            return
        a, b = pr
        h1 = ops.new(rec, a)
        op = rng.choice(["add", "sub", "mul", "div"])
        r = rng.random()
        if r < 0.3:
            # operands sharing one graph
            s = rng.random()
            gf = rec.objs[h1]
            if s < 0.4:
                h2, _ = ops.copy(rec, h1)
            elif s < 0.9:
                h2, _ = ops.filt(rec, h1, ops.rand_pred(rng, gf, 1), False)
            else:
                h2 = h1
            if not h2:
                return
            ops.arith(rec, h1, h2, op, rng.choice(["method", "sign"]))
            if rng.random() < 0.5:
                ops.arith(rec, h2, h1, op, rng.choice(["method", "sign"]))
            return
        h2 = ops.new(rec, b)
        if r < 0.45:
            ops.unify(rec, h1, h2)
            ops.arith(rec, h1, h2, op)
            return
        if r < 0.6:
            ops.iarith(rec, h1, h2, op)
            return
        res, exc = ops.arith(rec, h1, h2, op, rng.choice(["method", "sign"]))
        if rng.random() < 0.3:
            ops.arith(rec, h2, h1, op)
        if res and rng.random() < 0.2:
            ops.arith(rec, res, h1, "sub") if False else None

    def case(self, rec, rng, case, name):
        ops.begin(rec, name)
        h1 = ops.new(rec, perm_spec(rng, case_spec(case["a"])))
        h2 = ops.new(rec, perm_spec(rng, case_spec(case["b"])))
        ops.arith(rec, h1, h2, rng.choice(["add", "sub", "mul", "div"]), rng.choice(["method", "sign"]))


# ------------------------------------------------------------ C06
@driver("C06")
class C06(Base):
    def scenario(self, rec, rng, name):
        ops.begin(rec, name)
        sp = random_spec(rng, pinf=0.05, holes=0.2, missing=rng.choice([0, 0, 0.2]), nonecells=True)
        h = ops.new(rec, sp)
        gf = rec.objs[h]
        for _ in range(rng.randint(1, 3)):
            p = ops.rand_pred(rng, gf, 2)
            sq = rng.random() < 0.25
            if sq:
                rows = gf.dataframe.reset_index()
                keep = {r["node"]._hatchet_nid for _, r in rows.iterrows() if ops.ev_pred(p, r)}
                if has_inf(gf) or (keep and not nest_ok(gf.graph, {id(n) for n in gf.graph.traverse() if n._hatchet_nid in keep})):
                    sq = False
            h2, exc = ops.filt(rec, h, p, sq, rng.random() < 0.7)
            if h2 and not sq and rng.random() < 0.4:
                # filter the filtered graphframe again
                h, gf = h2, rec.objs[h2]
        r = rng.random()
        if r < 0.1:
            bad = rng.choice([7, 3.5, None, {"name": "a"}, ("x",), object()])
            rec.op("filterbad", [h], {"bad": str(type(bad))}, lambda: gf.filter(bad))
        elif r < 0.25:
            exc = rng.choice([ValueError, KeyError, ZeroDivisionError])
            u = rng.choice(list(gf.dataframe.index.get_level_values("node")))._hatchet_nid

            def f(row):
                if row["node"]._hatchet_nid == u:
                    raise exc("x")
                return True

            rec.op("filterraise", [h], {"raises": exc.__name__},
                   lambda: gf.filter(f, squash=rng.random() < 0.5, num_procs=1))

    def case(self, rec, rng, case, name):
        ops.begin(rec, name)
        kept = case.pop("kept")
        sp = case_spec(case)
        names = ["n%d" % i for i in range(len(sp["nodes"]))]
        sp["cols"] = sp["cols"] + ["id"]
        for r in sp["rows"]:
            r["c"] = r["c"] + [names[r["u"]]]
        h = ops.new(rec, perm_spec(rng, sp) if rng.random() < 0.5 else sp)
        ops.filt(rec, h, {"k": "in", "col": "id", "vs": [names[i] for i in kept]}, rng.random() < 0.5, rng.random() < 0.7)


# ------------------------------------------------------------ C07
@driver("C07")
class C07(Base):
    def scenario(self, rec, rng, name):
        ops.begin(rec, name)
        rec.lenient = True
        sp = always_squashable(rng, nmax=8, holes=0.1, pnan=0.1)
        if rng.random() < 0.4:
            sp["unsorted"] = True
            rng.shuffle(sp["rows"])
        h = ops.new(rec, sp)
        gf = rec.objs[h]
        procs = rng.choice([2, 3, 4, 8, 16])
        sq = rng.random() < 0.4
        p = ops.rand_pred(rng, gf, 1)
        # the delays make the workers finish in arbitrary orders
        import time as _t

        dl = {n._hatchet_nid: rng.choice([0, 0, 0.002, 0.01]) for n in gf.graph.traverse()}
        bad = rng.random() < 0.15
        badnode = rng.choice(list(dl))

        def fn(row):
            _t.sleep(dl[row["node"]._hatchet_nid])
            if bad and row["node"]._hatchet_nid == badnode:
                raise ValueError("x")
            return ops.ev_pred(p, row)

        upd = rng.random() < 0.7
        hasbad = bad and any(n._hatchet_nid == badnode for n in gf.dataframe.index.get_level_values("node"))
        if hasbad:
            rec.op("filterraise", [h], {"raises": "ValueError"},
                   lambda: gf.filter(fn, squash=sq, update_inc_cols=upd, num_procs=procs))
        else:
            rec.op("filter", [h], {"pred": ops.enc_pred(p), "squash": sq, "upd": upd, "procs": procs},
                   lambda: gf.filter(fn, squash=sq, update_inc_cols=upd, num_procs=procs))

    ERRS = (ValueError, KeyError, TypeError, ZeroDivisionError, IndexError, RuntimeError)

    def case(self, rec, rng, case, name):
        """a schedule of the model: the workers are made to finish in its order (by waiting, with a limit,
        in the predicate; a different distribution of the rows only makes the schedule another one)"""
        import multiprocessing as mp
        import time as _t

        ops.begin(rec, name)
        rec.lenient = True
        n, rows, keep, bad = case["n"], case["rows"], set(case["keep"]), set(case["bad"])
        multi = rows % 2 == 0 and rng.random() < 0.3
        nn = rows // 2 if multi else rows
        ch, roots = gen.shape(rng, nn, rng.choice(["tree", "forest", "dag"]))
        ixs = [[0], [1]] if multi else [[]]
        order = list(range(nn))
        rng.shuffle(order)
        sp = {"nodes": [{"f": {"name": "n%d" % i, "type": "function"}, "ch": ch[i]} for i in range(nn)],
              "roots": roots, "order": False, "nids": list(range(nn)), "ixn": ["rank"] if multi else [],
              "cols": ["time", "time (inc)", "name", "pos"], "exc": ["time"], "inc": ["time (inc)"], "dm": "time",
              "md": {}, "unsorted": True,
              "rows": [{"u": u, "ix": list(ix), "c": [float(rng.randint(0, 9)), float(rng.randint(0, 9)), "n%d" % u]}
                       for u in order for ix in ixs]}
        for i, r in enumerate(sp["rows"]):
            r["c"].append(float(i + 1))
        h = ops.new(rec, sp)
        gf = rec.objs[h]
        chunk, at = {}, 1
        for p in range(1, n + 1):
            size = rows // n + (1 if p <= rows % n else 0)
            for i in range(at, at + size):
                chunk[i] = p
            at += size
        seq = [p for p in case["order"] if p in chunk.values()]
        last = {p: max(i for i in chunk if chunk[i] == p) for p in seq}
        for p in seq:
            b = [i for i in chunk if chunk[i] == p and i in bad]
            if b:
                last[p] = min(b)
        turn = mp.Value("i", 0)

        def fn(row):
            i = int(row["pos"])
            if last[chunk[i]] == i:
                limit = _t.time() + 0.3
                while turn.value < seq.index(chunk[i]) and _t.time() < limit:
                    _t.sleep(0.001)
                _t.sleep(0.005)
                turn.value += 1
            if i in bad:
                raise self.ERRS[i % len(self.ERRS)]("x")
            return i in keep

        if bad:
            rec.op("filterraise", [h], {"raises": self.ERRS[min(bad) % len(self.ERRS)].__name__},
                   lambda: gf.filter(fn, squash=False, num_procs=n))
        else:
            p = {"k": "in", "col": "pos", "vs": [float(i) for i in sorted(keep)]}
            sq = rng.random() < 0.5
            rec.op("filter", [h], {"pred": ops.enc_pred(p), "squash": sq, "upd": True, "procs": n},
                   lambda: gf.filter(fn, squash=sq, update_inc_cols=True, num_procs=n))

    def directed(self):
        def big(nrows, procs, fail):
            def go(rec, rng):
                # results larger than a pipe's buffer
                ops.begin(rec, "big-%d-%d-%s" % (nrows, procs, fail))
                rec.lenient = True
                sp = {"nodes": [{"f": {"name": "n%d" % i, "type": "function"},
                                 "ch": [i + 1] if i + 1 < nrows else []} for i in range(nrows)],
                      "roots": [0], "order": False, "nids": list(range(nrows)), "ixn": [],
                      "cols": ["time", "name", "blob"], "exc": ["time"], "inc": [], "dm": "time", "md": {},
                      "rows": [{"u": i, "ix": [], "c": [float(i), "n%d" % i, "%d" % i * 40000]} for i in range(nrows)]}
                h = ops.new(rec, sp)
                gf = rec.objs[h]
                p = {"k": "cmp", "col": "time", "op": ">", "v": 0.0}

                def fn(row):
                    if fail and row["time"] == nrows - 1:
                        raise ValueError("x")
                    return ops.ev_pred(p, row)

                if fail:
                    rec.op("filterraise", [h], {"raises": "ValueError"},
                           lambda: gf.filter(fn, squash=False, num_procs=procs))
                else:
                    rec.op("filter", [h], {"pred": ops.enc_pred(p), "squash": False, "upd": True, "procs": procs},
                           lambda: gf.filter(fn, squash=False, num_procs=procs))
            return go

        return [("big-%d-%d-%s" % (r, p, f), big(r, p, f)) for r, p, f in
                ((4, 2, False), (6, 3, False), (3, 8, False), (4, 2, True), (9, 4, True))]


# ------------------------------------------------------------ C08 / C09
def dense_spec(rng, nmax=11, frac=0.5, **kw):
    """a DAG with much sharing and uniquely named nodes"""
    n = rng.randint(6, nmax)
    nroots = rng.choice([1, 1, 2])
    p = rng.choice([0.25, 0.35, 0.5])
    ch = [[] for _ in range(n)]
    for b in range(nroots, n):
        for a in range(b):
            if rng.random() < p:
                ch[a].append(b)
        if not any(b in c for c in ch):
            ch[rng.randrange(b)].append(b)
    for c in ch:
        rng.shuffle(c)
    # names in random order, so that the traversal order is not the index order
    names = ["f%02d" % i for i in rng.sample(range(40), n)]
    keep = [u for u in range(n) if rng.random() > frac] or [n - 1]
    ixs = [[]] if not kw.get("ixn") else [[0], [1]]
    rows = [{"u": u, "ix": list(ix), "c": [float(rng.randint(0, 9)), float(rng.randint(0, 9)), names[u]]}
            for u in keep for ix in ixs]
    return {"nodes": [{"f": {"name": names[i], "type": "function"}, "ch": ch[i]} for i in range(n)],
            "roots": list(range(nroots)), "order": False, "nids": list(range(n)), "ixn": list(kw.get("ixn") or []),
            "cols": ["time", "time (inc)", "name"], "exc": ["time"], "inc": ["time (inc)"], "rows": rows,
            "dm": "time", "md": {}}


class Squash(Base):
    upd = (True, False)

    def scenario(self, rec, rng, name):
        ops.begin(rec, name)
        kw = dict(nmax=8 if rec.tier == "quick" else 9, pool=gen.POOL[: rng.choice([1, 2, 2, 3, 5])],
                  extra=rng.random() < 0.15)
        self.tune(rng, kw)
        if rng.random() < 0.25:
            sp = dense_spec(rng, frac=rng.choice([0.3, 0.5, 0.65]), ixn=rng.choice([[], ["rank"]]))
        elif rng.random() < 0.6:
            sp = always_squashable(rng, missing=rng.choice([0.1, 0.3, 0.5]), **kw)
        else:
            sp = squashable(rng, missing=rng.choice([0.1, 0.3, 0.5]), leveled=False, **kw)
        h = ops.new(rec, sp)
        gf = rec.objs[h]
        if not gen.merged(sp, {r["u"] for r in sp["rows"]}):
            return
        h2, exc = ops.squash(rec, h, rng.choice(self.upd))
        if h2 and rng.random() < 0.5:
            g2 = rec.objs[h2]
            p = ops.rand_pred(rng, g2, 1)
            rows = g2.dataframe.reset_index()
            keep = {r["node"]._hatchet_nid for _, r in rows.iterrows() if ops.ev_pred(p, r)}
            if keep and nest_ok(g2.graph, {id(n) for n in g2.graph.traverse() if n._hatchet_nid in keep}):
                h3, exc = ops.filt(rec, h2, p, True, rng.choice(self.upd))
                if h3 and rng.random() < 0.3:
                    ops.squash(rec, h3, rng.choice(self.upd))

    def case(self, rec, rng, case, name):
        ops.begin(rec, name)
        sp = case_spec(case)
        if rng.random() < 0.5:
            sp = perm_spec(rng, sp)
        h = ops.new(rec, sp)
        ops.squash(rec, h, self.upd[0])


@driver("C08")
class C08(Squash):
    def scenario(self, rec, rng, name):
        if rng.random() < 0.15:
            self.merging(rec, rng, name)
        else:
            Squash.scenario(self, rec, rng, name)

    def merging(self, rec, rng, name):
        """equal siblings of a graph merged in place"""
        for _ in range(40):
            sp = random_spec(rng, nmax=9, pool=gen.POOL[: rng.choice([1, 2, 2, 3])],
                             kind=rng.choice(["tree", "forest", "dag", "dagforest"]),
                             leveled=rng.random() < 0.5, extra=rng.random() < 0.15)
            if gen.merged(sp):
                break
        else:
            return
        ops.begin(rec, name)
        h = ops.new_graph(rec, sp)
        ops.normalize(rec, h)
        if rng.random() < 0.2:
            ops.normalize(rec, h)

    def tune(self, rng, kw):
        kw.update(ixn=rng.choice([[], [], [], ["rank"]]), exc=["time"], inc=["time (inc)"], strcols=False)


@driver("C09")
class C09(Squash):
    upd = (True, True, False)

    def tune(self, rng, kw):
        kw.update(nmax=6, holes=0.25, pnan=0.3, nonecells=True)


# ------------------------------------------------------------ C10
@driver("C10")
class C10(Base):
    def scenario(self, rec, rng, name):
        ops.begin(rec, name)
        sp = random_spec(rng, nmax=7, holes=rng.choice([0, 0.25]), pnan=0.2,
                         exc=rng.choice([["time"], ["time", "cpu"], ["time (exc)", "hits"], ["time", "cpu", "hits"]]))
        h = ops.new(rec, sp)
        gf = rec.objs[h]
        nums = gf.exc_metrics + gf.inc_metrics
        for _ in range(rng.randint(1, 2)):
            r = rng.random()
            if r < 0.4:
                ops.updinc(rec, h)
            else:
                cols = rng.sample(nums, rng.randint(1, min(3, len(nums))))
                fn = rng.choice(["sum1", "sum1", "sum1", "max", "min", "prod"])
                if fn == "prod":
                    if sum(len(n.children) for n in gf.graph.traverse()) > 4 or has_wide(gf, cols):
                        fn = "max"
                outs = None
                if rng.random() < 0.6:
                    outs = ["o%d" % i for i in range(len(cols))]
                    if rng.random() < 0.1:
                        outs = outs[:-1] or ["o0", "o1"]
                ops.sums(rec, h, cols, outs, fn, gf.graph.is_tree() and rng.random() < 0.4)
                if outs and len(outs) != len(cols):
                    return
            if too_big(gf):
                return

    def case(self, rec, rng, case, name):
        ops.begin(rec, name)
        h = ops.new(rec, perm_spec(rng, case_spec(case)))
        ops.updinc(rec, h)
        ops.sums(rec, h, ["time"], ["o"], rng.choice(["sum1", "max"]))


def has_wide(gf, cols):
    return any(v == v and abs(v) > 8 for c in cols for v in gf.dataframe[c])


# ------------------------------------------------------------ C11
@driver("C11")
class C11(Base):
    def scenario(self, rec, rng, name):
        ops.begin(rec, name)
        incs = rng.choice([["time (inc)"], ["time (inc)", "cpu (inc)"], ["total"], ["total", "time (inc)"],
                           ["time (inc)", "x", "energy(inc)"]])
        exc = rng.choice([[], [], ["time"], ["hits"], ["time", "total (exc)"]])
        sp = random_spec(rng, nmax=7, exc=exc, inc=incs, pnan=0.2)
        txt = rng.random() < 0.2
        if txt:
            # an inclusive metric that is not numeric
            sp["cols"] = sp["cols"] + ["vers (inc)"]
            sp["inc"] = sp["inc"] + ["vers (inc)"]
            for r in sp["rows"]:
                r["c"] = r["c"] + [rng.choice(["v1", "v2"])]
        h = ops.new(rec, sp)
        r = rng.random()
        req = None
        if r < 0.15:
            req = rng.choice(sp["inc"])
        elif r < 0.35:
            req = rng.sample(sp["inc"], rng.randint(1, len(sp["inc"])))
        elif r < 0.4:
            req = "time"
        ops.genexc(rec, h, req)
        if rng.random() < 0.3:
            ops.genexc(rec, h)

    def case(self, rec, rng, case, name):
        ops.begin(rec, name)
        sp = case_spec(case)
        sp.update(exc=rng.choice([[], ["time"]]), inc=["time (inc)", "name (inc)"] if rng.random() < 0.2 else ["time (inc)"])
        if "name (inc)" in sp["inc"]:
            sp["cols"] = sp["cols"] + ["name (inc)"]
            for r in sp["rows"]:
                r["c"] = r["c"] + ["x"]
        ops.genexc(rec, ops.new(rec, perm_spec(rng, sp)))


# ------------------------------------------------------------ C12
@driver("C12")
class C12(Base):
    def scenario(self, rec, rng, name):
        ops.begin(rec, name)
        sp = random_spec(rng, nmax=6, ixn=rng.choice([["rank"], ["thread"], ["rank", "thread"], []]),
                         holes=rng.choice([0, 0.4]), pnan=0.25, missing=rng.choice([0, 0.2]), nonecells=True)
        h = ops.new(rec, sp)
        if rng.random() < 0.15 and sp["ixn"] and (rec.objs[h].exc_metrics + rec.objs[h].inc_metrics):
            # an aggregation that fails leaves the graphframe as it was
            def bad(x):
                raise ArithmeticError("no")
            ops.refuse(rec, h, "ArithmeticError", "drop", lambda: rec.objs[h].drop_index_levels(bad))
        ops.drop(rec, h, rng.choice(["mean", "mean", "max", "min", "sum1", "sum", "first", "last"]))
        if rng.random() < 0.2:
            ops.drop(rec, h, "max")


# ------------------------------------------------------------ C13
@driver("C13")
class C13(Base):
    def scenario(self, rec, rng, name):
        ops.begin(rec, name)
        for _ in range(40):
            sp = random_spec(rng, ixn=[], nmax=8, order=False, pool=gen.POOL[: rng.choice([2, 3, 4])], strcols=True,
                             leveled=False)
            key = rng.choice([c for c in sp["cols"] if c in ("name", "module", "opt", "line")])
            if key == "line":
                key = "name"
            ki = sp["cols"].index(key)
            if rng.random() < 0.5:
                # groups along the depth, so that the quotient is acyclic more often
                lv = gen.levels([d["ch"] for d in sp["nodes"]], sp["roots"])
                for r in sp["rows"]:
                    r["c"][ki] = "m%d" % (lv[r["u"]] // rng.choice([1, 2]))
            gf, _ = gen.build(sp)
            if groupby_ok(gf, key):
                break
        else:
            return
        h = ops.new(rec, sp)
        mets = sp["exc"] + sp["inc"]
        aggs = [(c, rng.choice(["sum1", "sum1", "max", "min", "mean"])) for c in mets if rng.random() < 0.9] or [(mets[0], "sum1")]
        ops.groupby(rec, h, key, aggs)

    def case(self, rec, rng, case, name):
        ops.begin(rec, name)
        sp = perm_spec(rng, case_spec(case))
        gf, _ = gen.build(sp)
        if groupby_ok(gf, "name"):
            ops.groupby(rec, ops.new(rec, sp), "name", [("time", "sum1"), ("time (inc)", "max")])


import qdrivers  # noqa: E402,F401
import rdrivers  # noqa: E402,F401
import sdrivers  # noqa: E402,F401
import pdrivers  # noqa: E402,F401
import hdrivers  # noqa: E402,F401
import ndrivers  # noqa: E402,F401
import vdrivers  # noqa: E402,F401
