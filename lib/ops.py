"""Public operations of hatchet wrapped as recorded events."""
import numpy as np

import gen
from rec import Cell
from hatchet.graph import Graph
from hatchet.graphframe import GraphFrame

UNIVERSE = ["time", "cpu", "time (exc)", "hits", "x", "y", "total", "total (exc)", "cpu (exc)",
            "hits (exc)", "energy", "energy (exc)", "x (exc)", "t0", "t1"]


def begin(rec, name, codes=False, **a):
    rec.begin(name, codes=codes, inc=UNIVERSE, **a)


def new(rec, sp):
    h, exc = rec.op("new", [], {}, lambda: gen.build(sp)[0])
    return h


def new_graph(rec, sp):
    h, exc = rec.op("new", [], {}, lambda: gen.build_graph(sp)[0])
    return h


def nodes_of(rec, h):
    """the nodes of a graph(frame), in traversal order"""
    o = rec.objs[h]
    g = o.graph if isinstance(o, GraphFrame) else o
    return list(g.traverse())


def graph_of(rec, h):
    o = rec.objs[h]
    return o.graph if isinstance(o, GraphFrame) else o


def wf(rec, h):
    """an event that checks everything about h again"""
    rec.proj.pop(h, None)
    rec.add("wf", [h])


# ------------------------------------------------------------- predicates
def enc_pred(p):
    k = p["k"]
    if k == "cmp":
        return dict(p, v=Cell(p["v"]))
    if k == "ix":
        return dict(p, v=Cell(p["v"]))
    if k == "in":
        return dict(p, vs=[Cell(v) for v in p["vs"]])
    if k == "anyrow":
        return dict(p, p=enc_pred(p["p"]))
    if k in ("and", "or"):
        return dict(p, l=enc_pred(p["l"]), r=enc_pred(p["r"]))
    if k == "not":
        return dict(p, l=enc_pred(p["l"]))
    return dict(p)


import operator

CMP = {"<": operator.lt, ">": operator.gt, "<=": operator.le, ">=": operator.ge,
       "==": operator.eq, "!=": operator.ne}


def ev_pred(p, row):
    k = p["k"]
    if k == "const":
        return p["b"]
    if k == "cmp":
        return bool(CMP[p["op"]](row[p["col"]], p["v"]))
    if k == "ix":
        return bool(CMP[p["op"]](row[p["name"]], p["v"]))
    if k == "isnull":
        v = row[p["col"]]
        return v is None or v != v
    if k == "nid":
        return bool(CMP[p["op"]](row["node"]._hatchet_nid, p["n"]))
    if k == "dep":
        return bool(CMP[p["op"]](row["node"]._depth, p["n"]))
    if k == "in":
        return row[p["col"]] in p["vs"]
    if k == "not":
        return not ev_pred(p["l"], row)
    if k == "and":
        return ev_pred(p["l"], row) and ev_pred(p["r"], row)
    if k == "or":
        return ev_pred(p["l"], row) or ev_pred(p["r"], row)
    raise KeyError(k)


def pred_fn(p):
    return lambda row: ev_pred(p, row)


def rand_pred(rng, gf, depth=2, nodes=True, ix=True):
    df = gf.dataframe
    r = rng.random()
    if depth > 0 and r < 0.3:
        k = rng.choice(["and", "or", "not"])
        if k == "not":
            return {"k": "not", "l": rand_pred(rng, gf, depth - 1, nodes, ix)}
        return {"k": k, "l": rand_pred(rng, gf, depth - 1, nodes, ix),
                "r": rand_pred(rng, gf, depth - 1, nodes, ix)}
    if nodes and r < 0.42:
        n = len(gf.graph)
        return {"k": "nid", "op": rng.choice(list(CMP)), "n": rng.randrange(n + 1)}
    if nodes and r < 0.5:
        return {"k": "dep", "op": rng.choice(list(CMP)), "n": rng.randrange(4)}
    names = [x for x in df.index.names if x != "node"]
    if ix and names and r < 0.6:
        nme = rng.choice(names)
        v = rng.choice(list(df.index.get_level_values(nme)))
        return {"k": "ix", "name": nme, "op": rng.choice(list(CMP)), "v": int(v)}
    col = rng.choice(list(df.columns))
    vals = list(df[col])
    v = rng.choice(vals)
    if isinstance(v, str):
        if rng.random() < 0.5:
            return {"k": "in", "col": col, "vs": [x for x in set(y for y in vals if isinstance(y, str)) if rng.random() < 0.5] or [v]}
        return {"k": "cmp", "col": col, "op": rng.choice(["==", "!="]), "v": v}
    if v is None or isinstance(v, bool):
        return {"k": "isnull", "col": col}
    if v != v or rng.random() < 0.1:
        return {"k": "isnull", "col": col}
    if not all(isinstance(x, (int, float, np.number)) for x in vals):
        return {"k": "isnull", "col": col}
    return {"k": "cmp", "col": col, "op": rng.choice(list(CMP)), "v": v + rng.choice([0, 0, 1, -1])}


# ------------------------------------------------------------- operations
def filt(rec, h, pred, squash=True, upd=True, procs=1):
    gf = rec.objs[h]
    return rec.op("filter", [h], {"pred": enc_pred(pred), "squash": squash, "upd": upd, "procs": procs},
                  lambda: gf.filter(pred_fn(pred), squash=squash, update_inc_cols=upd, num_procs=procs))


def squash(rec, h, upd=True):
    gf = rec.objs[h]
    return rec.op("squash", [h], {"upd": upd}, lambda: gf.squash(update_inc_cols=upd))


def copy(rec, h):
    gf = rec.objs[h]
    return rec.op("copy", [h], {}, lambda: gf.copy())


def deepcopy(rec, h):
    gf = rec.objs[h]
    return rec.op("deepcopy", [h], {}, lambda: gf.deepcopy())


def normalize(rec, h):
    """merge equal siblings of a graph in place"""
    g = rec.objs[h]
    a = {"map": []}

    def f():
        got = g.normalize()
        a["map"] = [{"o": rec.uid(o), "n": rec.uid(n)} for o, n in got.items()]
        g.enumerate_traverse()

    return rec.op("normalize", [h], a, f)


def gcopy(rec, h, withmap=True):
    m = {}
    a = {"map": []}
    if not withmap:
        a["nomap"] = True

    def f():
        if not withmap:
            return graph_of(rec, h).copy()
        r = graph_of(rec, h).copy(m)
        a["map"] = [{"o": rec.uid(o), "n": rec.uid(n)} for o, n in m.items()]
        return r

    return rec.op("gcopy", [h], a, f)


def union(rec, h1, h2, dup=False, withmap=True):
    m = {}
    a = {"map": []}
    g1, g2 = graph_of(rec, h1), graph_of(rec, h2)
    olds = list(g1.traverse()) + list(g2.traverse())
    if not withmap and not dup:
        a["nomap"] = True

    def f():
        if "nomap" in a:
            return g1.union(g2)
        r = g1.union(g2, m)
        a["map"] = [{"o": rec.uid(o), "n": rec.uid(m[id(o)])} for o in olds if id(o) in m]
        return r

    return rec.op("uniondup" if dup else "union", [h1, h2], a, f)


def unify(rec, h1, h2):
    a, b = rec.objs[h1], rec.objs[h2]
    return rec.op("unify", [h1, h2], {}, lambda: a.unify(b))


def arith(rec, h1, h2, op, form="method"):
    a, b = rec.objs[h1], rec.objs[h2]

    def f():
        if form == "method":
            return {"add": a.add, "sub": a.sub, "mul": a.mul, "div": a.div}[op](b)
        return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: a / b}[op]()

    return rec.op("arith", [h1, h2], {"op": op, "form": form}, f)


def iarith(rec, h1, h2, op):
    a, b = rec.objs[h1], rec.objs[h2]

    def f():
        x = a
        if op == "add":
            x += b
        elif op == "sub":
            x -= b
        elif op == "mul":
            x *= b
        else:
            x = x.__idiv__(b)
        return x

    return rec.op("iarith", [h1, h2], {"op": op}, f)


FUNCS = {
    "sum1": lambda x: x.sum(min_count=1),
    "max": np.max,
    "min": np.min,
    "mean": np.mean,
    "sum": np.sum,
    "prod": lambda x: x.prod(min_count=1),
    "first": lambda x: x.iloc[0],
    "last": lambda x: x.iloc[-1],
}


def sums(rec, h, cols, outs, fn="sum1", tree=False):
    gf = rec.objs[h]

    def f():
        m = gf.subtree_sum if tree else gf.subgraph_sum
        if fn == "sum1":
            m(list(cols), None if outs is None else list(outs))
        else:
            m(list(cols), None if outs is None else list(outs), FUNCS[fn])

    return rec.op("sum", [h], {"cols": cols, "outs": outs or [], "hasouts": outs is not None,
                               "fn": fn, "tree": tree}, f)


def updinc(rec, h):
    gf = rec.objs[h]
    return rec.op("updinc", [h], {}, lambda: gf.update_inclusive_columns())


def genexc(rec, h, req=None):
    gf = rec.objs[h]
    names = {}
    for c in gf.inc_metrics:
        suf = c.endswith("(inc)")
        names[c] = {"suffix": suf, "base": c[: -len("(inc)")].strip() if suf else c, "exc": c + " (exc)"}
    rq = [] if req is None else ([req] if isinstance(req, str) else list(req))
    return rec.op("genexc", [h], {"req": rq, "names": names},
                  lambda: gf.generate_exclusive_columns(req) if req is not None else gf.generate_exclusive_columns())


def drop(rec, h, fn="mean"):
    gf = rec.objs[h]
    return rec.op("drop", [h], {"fn": fn},
                  lambda: gf.drop_index_levels() if fn == "mean" else gf.drop_index_levels(function=FUNCS[fn]))


def groupby(rec, h, key, aggs):
    gf = rec.objs[h]
    pyf = {"first": "first", "last": "last", "sum1": FUNCS["sum1"], "sum": "sum", "max": "max", "min": "min",
           "mean": "mean"}
    return rec.op("groupby", [h], {"key": key, "aggs": [{"col": c, "fn": f} for c, f in aggs]},
                  lambda: gf.groupby_aggregate([key], {c: pyf[f] for c, f in aggs}))


def eq(rec, h1, h2):
    g1, g2 = graph_of(rec, h1), graph_of(rec, h2)
    return rec.op("eq", [h1, h2], {}, lambda: {"eq": bool(g1 == g2), "ne": bool(g1 != g2), "qe": bool(g2 == g1)})


def nodeeq(rec, h1, u, h2, v):
    return rec.op("nodeeq", [h1, h2], {"u": rec.uid(u), "v": rec.uid(v)},
                  lambda: {"eq": bool(u.dag_equal(v))})


def traverse(rec, h, order="pre", byNid=False, attrs=(), start=None):
    g = graph_of(rec, h)
    what = g if start is None else start

    def f():
        def go(**kw):
            return list(what.node_order_traverse(order=order, **kw) if byNid else what.traverse(order=order, **kw))

        vis = {}
        seq = go(visited=vis)
        ids = {id(n): n for n in rec.keep}
        vals = []
        if attrs:
            vals = [list(v) if isinstance(v, tuple) else [v] for v in go(attrs=list(attrs) if len(attrs) > 1 else attrs[0])]
        else:
            vals = [[] for _ in seq]
        out = {
            "seq": [rec.uid(n) for n in seq],
            "visited": {rec.uid(ids[k]) if k in ids else "bad:%s" % k: v for k, v in vis.items()},
            "vals": [[Cell(c) for c in v] for v in vals],
            "len": len(g),
            "tree": bool(g.is_tree()),
        }
        return out

    return rec.op("traverse", [h], {"order": order, "byNid": byNid, "attrs": list(attrs),
                                    "start": "" if start is None else rec.uid(start)}, f)


def paths(rec, h, node):
    def f():
        ps = node.paths()
        try:
            single = node.path()
            single = True if tuple(map(id, single)) == tuple(map(id, ps[0])) else "differs"
        except Exception as e:
            single = False if type(e).__name__ == "MultiplePathError" else type(e).__name__
        return {"paths": [[rec.uid(n) for n in p] for p in ps], "single": single}

    return rec.op("paths", [h], {"node": rec.uid(node)}, f)


def poke(rec, h, rng):
    """the user overwrites one cell"""
    gf = rec.objs[h]

    def f():
        df = gf.dataframe
        cols = [c for c in df.columns if c in gf.exc_metrics + gf.inc_metrics]
        c = rng.choice(cols)
        i = rng.randrange(len(df))
        df.iloc[i, list(df.columns).index(c)] = 77

    return rec.op("poke", [h], {}, f)


def pure(rec, hs, what, fn):
    """an operation that may not change any graphframe; its outcome is judged elsewhere"""
    rec.op("pure", hs, {"what": what}, lambda: (fn(), None)[1])


def edit(rec, h, what, rng):
    """the user changes one object directly: a frame attribute, a link, metadata, a metric list"""
    o = rec.objs[h]
    if what == "meta" and isinstance(o.metadata.get("n"), list) and rng.random() < 0.7:
        what = "metanested"

    def f():
        if what == "frame":
            n = rng.choice(nodes_of(rec, h))
            k = rng.choice(list(n.frame.attrs))
            n.frame.attrs[rng.choice([k, "line"])] = "edited"
        elif what == "link":
            es = [(p, c) for p in nodes_of(rec, h) for c in p.children]
            if es:
                p, c = rng.choice(es)
                p.children = [x for x in p.children if x is not c] if rng.random() < 0.5 else p.children
                if any(x is c for x in p.children):
                    p.children.remove(c)
                c.parents.remove(p)
        elif what == "root":
            graph_of(rec, h).roots.append(graph_of(rec, h).roots[0])
        elif what == "meta":
            o.metadata["edited"] = 1
        elif what == "metanested":
            o.metadata["n"].append(9)
        elif what == "exc":
            o.exc_metrics.append("edited")
        elif what == "inc":
            o.inc_metrics.append("edited")
        elif what == "dm":
            o.default_metric = "edited"

    return rec.op("edit", [h], {"what": what}, f)


def refuse(rec, h, err, what, fn):
    """a call that must raise err and change nothing"""
    return rec.op("refuse", [h], {"err": err, "what": what}, lambda: {} if fn() is None else {"got": "a result"})
