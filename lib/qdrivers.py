"""Drivers for the query properties C14-C17."""
import ops
import qgen
from drivers import Base, always_squashable, case_spec, driver, has_inf, nest_ok, perm_spec
from gen import random_spec
from hatchet.graphframe import GraphFrame  # noqa: F401
from hatchet.query import (
    AbstractQuery,
    AndQuery,
    ConjunctionQuery,
    CypherQuery,
    DisjunctionQuery,
    ExclusiveDisjunctionQuery,
    NegationQuery,
    NotQuery,
    ObjectQuery,
    OrQuery,
    Query,
    QueryEngine,
    QueryMatcher,
    StringQuery,
    XorQuery,
    parse_string_dialect,
)


def run_query(rec, rng, h, q, obj=None):
    """apply a query and log the nodes it returns; obj: reuse a query object"""
    gf = rec.objs[h]
    st = {}

    def f():
        x = obj if obj is not None else qgen.build(q, rng)
        st["obj"] = x
        if isinstance(x, AbstractQuery):
            r = x.apply(gf)
        elif rng.random() < 0.6:
            r = gf.query_engine.apply(x, gf.graph, gf.dataframe)
        else:
            r = QueryEngine().apply(x, gf.graph, gf.dataframe)
        return {"nodes": [rec.uid(n) for n in r], "form": type(x).__name__}

    rec.op("query", [h], {"q": qgen.enc(q)}, f)
    return st.get("obj")


def squash_ok(gf, nodes):
    return not has_inf(gf) and nest_ok(gf.graph, {id(n) for n in nodes})


def run_filter(rec, rng, h, q):
    """filter by the query, given as an object, a list or a string"""
    gf = rec.objs[h]
    upd = rng.random() < 0.7
    raw = q["k"] == "pat" and q["d"] in ("obj", "str") and rng.random() < 0.5
    mode = q.get("mode", "off")
    try:
        x = qgen.raw(q, rng) if raw else qgen.build(q, rng)
        nodes = (x.apply(gf) if isinstance(x, AbstractQuery) else
                 QueryEngine().apply(qgen.build(q, rng), gf.graph, gf.dataframe))
    except Exception:
        nodes = None
    sq = rng.random() < 0.4 and nodes is not None and squash_ok(gf, nodes)

    def f():
        y = x if not raw else qgen.raw(q, rng)
        kw = {"multi_index_mode": mode} if raw and (mode != "off" or rng.random() < 0.3) else {}
        if not upd:
            kw["update_inc_cols"] = False
        return gf.filter(y, squash=sq, **kw)

    if nodes is None and not raw:
        return None
    return rec.op("qfilter", [h], {"q": qgen.enc(q), "squash": sq, "upd": upd}, f)[0]


def base_spec(rng, mi=False, **kw):
    kw.setdefault("nmax", 7)
    ixn = rng.choice([["rank"], ["rank", "thread"], ["thread"]]) if mi else []
    kw.setdefault("holes", 0.2 if mi else 0)
    # hatchet's matcher backtracks: several wildcards on a long chain take
    # exponential time, so large graphs are bushy here
    kw.setdefault("deep", False)
    return random_spec(rng, ixn=ixn, **kw)


def strange(rng, sp):
    """names with unusual characters"""
    for i, d in enumerate(sp["nodes"]):
        if rng.random() < 0.4:
            nm = rng.choice(['say "hi"', "it's", "a+b", "f(x)", "x[0]", "A::B<int>", "p.q", "*", "é", "  a ", "IS LEAF",
                             "a AND b", "#1", "$x", "a|b"])
            d["f"]["name"] = nm
            j = sp["cols"].index("name")
            for r in sp["rows"]:
                if r["u"] == i:
                    r["c"][j] = nm
    return sp


# ------------------------------------------------------------ C14
@driver("C14")
class C14(Base):
    def scenario(self, rec, rng, name):
        ops.begin(rec, name, codes=True)
        mi = rng.random() < 0.15
        sp = base_spec(rng, mi, nonecells=False, nmax=8)
        h = ops.new(rec, sp)
        gf = rec.objs[h]
        mode = rng.choice(["any", "all"]) if mi else "off"
        kw = dict(mode=mode, full=rng.choice([0.3, 0.7, 1.0]), bad=0, maxitems=5)
        objs = []
        for _ in range(rng.randint(2, 4)):
            q = qgen.rand_pat(rng, gf, **kw)
            o = run_query(rec, rng, h, q)
            if rng.random() < 0.25:
                run_query(rec, rng, h, q)
            if o is not None:
                objs.append((q, o))
        if rng.random() < 0.5:
            run_filter(rec, rng, h, qgen.rand_pat(rng, gf, **kw))
        if objs and rng.random() < 0.5:
            # the same query object on another graphframe with the children stored in
            # another order, and again on the first one
            h2 = ops.new(rec, perm_spec(rng, sp))
            q, o = rng.choice(objs)
            run_query(rec, rng, h2, q, o)
            run_query(rec, rng, h, q, o)

    def case(self, rec, rng, case, name):
        """a graph and a pattern over frame names from the model checker"""
        ops.begin(rec, name, codes=True)
        sp = case_spec(case)
        if rng.random() < 0.5:
            sp = perm_spec(rng, sp)
        h = ops.new(rec, sp)
        for p in case["pats"]:
            for d in ("base", "obj", "str") if rec.tier == "thorough" else rng.sample(["base", "obj", "str"], 1):
                items = []
                for i, (q, f) in enumerate(p):
                    it = {"q": "n" if q == "2" else q, "n": 2 if q == "2" else 1, "nm": ""}
                    if d == "base":
                        it["pred"] = ({"k": "const", "b": True} if f == "" else
                                      {"k": "cmp", "col": "name", "op": "==", "v": f})
                    elif d == "obj":
                        it["pred"] = [] if f == "" else [
                            {"key": "name", "vals": [{"t": "re", "re": qgen.rx_lit(f)}], "list": False}]
                    else:
                        it["nm"] = "" if f == "" else qgen.NAMES[i]
                        it["pred"] = [] if f == "" else [
                            {"conn": "and", "neg": False, "key": "name", "t": "seq", "v": f, "re": {"r": "eps"}}]
                    items.append(it)
                run_query(rec, rng, h, {"k": "pat", "d": d, "mode": "off", "items": items})


# ------------------------------------------------------------ C15
def bad_strings(rng, gf):
    return rng.choice([
        "MATCH", "", "MATCH ()", "MATCH (p", 'MATCH ("*", p)-(q)', 'MATCH (p) WHERE', 'MATCH (p) WHERE p."time" >',
        'MATCH (p) WHERE p.time = 5', 'MATCH (p) WHERE p."name" = foo', 'MATCH (p) WHERE AND AND p."time" = 5',
        'MATCH (p) p."time" = 5', 'WHERE p."time" = 5', 'match (p)', 'MATCH (p)->', 'MATCH (p) WHERE NOT NOT p IS LEAF',
        'MATCH (p) WHERE p IS TREE', 'MATCH (p) WHERE p."time" == 5', 'MATCH (p) WHERE p."name" STARTS "a"',
        'MATCH (p) WHERE p."name" CONTAINS 5', 'MATCH (*, p)',
    ])


@driver("C15")
class C15(Base):
    def scenario(self, rec, rng, name):
        ops.begin(rec, name, codes=True)
        sp = base_spec(rng, False, nonecells=True, nmax=6, pinf=0.1, pnan=0.2, strcols=True)
        if rng.random() < 0.3:
            sp = strange(rng, sp)
        h = ops.new(rec, sp)
        gf = rec.objs[h]
        bad = rng.choice([0, 0, 0.15])
        for _ in range(rng.randint(3, 6)):
            d = rng.choice(["obj", "str"])
            if rng.random() < 0.7:
                # one node: the result is exactly the set of nodes that satisfy the predicate
                it = {"q": ".", "n": 1, "nm": "p"}
                kinds = qgen.col_kinds(gf)
                if d == "obj":
                    it["pred"] = qgen.obj_pred(rng, gf, kinds, rng.choice([1, 1, 2, 3]), bad)
                else:
                    it["pred"] = [qgen.str_cond(rng, gf, kinds, bad) for _ in range(rng.choice([1, 1, 2, 3, 4, 5]))]
                q = {"k": "pat", "d": d, "mode": "off", "items": [it]}
            else:
                q = qgen.rand_pat(rng, gf, (d,), bad=bad, full=1)
            run_query(rec, rng, h, q)
            if rng.random() < 0.1:
                run_filter(rec, rng, h, q)
        if rng.random() < 0.2:
            s = bad_strings(rng, gf)
            f = rng.choice([StringQuery, parse_string_dialect, CypherQuery, lambda t: gf.filter(t)])
            rec.op("badquery", [], {"errs": ["InvalidQueryPath"], "text": s}, lambda: (f(s), None)[1])
        if rng.random() < 0.15:
            lst = rng.choice([[1.5], [None], ["*", 2.5], [(1.5, {"name": "a"})], [(None, {})], [{"name": "a"}, 7.5]])
            f = rng.choice([ObjectQuery, QueryMatcher, lambda t: gf.filter(t)])
            rec.op("badquery", [], {"errs": ["InvalidQueryPath"], "text": str(lst)}, lambda: (f(lst), None)[1])
        if rng.random() < 0.08:
            f = rng.choice([lambda: Query().rel("."), lambda: QueryMatcher().rel("*"), lambda: Query().relation(2),
                            lambda: QueryMatcher("abc"), lambda: QueryMatcher({"name": "a"})])
            rec.op("badquery", [], {"errs": ["InvalidQueryPath"], "text": "base"}, lambda: (f(), None)[1])
        if rng.random() < 0.12:
            bad = rng.choice(["?", "", "**", "a", 1.5, None, ["."]])
            f = rng.choice([lambda: Query().match(bad), lambda: QueryMatcher().match(bad, lambda r: True),
                            lambda: Query().match("*").rel(bad), lambda: Query().match(".", bad or "x"),
                            lambda: QueryMatcher().match(".").rel("*", 5), lambda: ObjectQuery(bad),
                            lambda: ObjectQuery([(bad, {"name": "a"})]), lambda: ObjectQuery([("*", bad)]),
                            lambda: ObjectQuery(["*"], "some"), lambda: StringQuery("MATCH (p)", "some"),
                            lambda: QueryEngine().apply(bad, gf.graph, gf.dataframe)])
            if bad != ["."]:
                rec.op("badquery", [], {"errs": ["InvalidQueryPath", "InvalidQueryFilter", "AssertionError", "TypeError", "ValueError"],
                                        "text": repr(bad)}, lambda: (f(), None)[1])


# ------------------------------------------------------------ C16
@driver("C16")
class C16(Base):
    def scenario(self, rec, rng, name):
        ops.begin(rec, name, codes=True)
        sp = base_spec(rng, False, nonecells=False, nmax=7)
        h = ops.new(rec, sp)
        gf = rec.objs[h]
        kw = dict(mode="off", full=rng.choice([0.6, 1.0]), bad=0, maxitems=3)
        if rng.random() < 0.4:
            kw["dialects"] = ("str",)
        for _ in range(rng.randint(2, 4)):
            q = qgen.rand_query(rng, gf, rng.choice([1, 1, 2, 3]), **kw)
            if q["k"] == "pat":
                q = {"k": "not", "subs": [q]}
            if kw.get("dialects") and rng.random() < 0.4 and q["k"] != "not":
                # one MATCH part, several WHERE parts
                its = qgen.rand_items(rng, gf, "str", qgen.col_kinds(gf), False, 1.0, 2, 0)
                subs = []
                for _ in range(rng.choice([2, 2, 3])):
                    sub = [dict(it, pred=[qgen.str_cond(rng, gf, qgen.col_kinds(gf), 0)
                                          for _ in range(rng.choice([1, 1, 2]))] if it["nm"] else []) for it in its]
                    subs.append({"k": "pat", "d": "str", "mode": "off", "items": sub})
                q = {"k": q["k"], "subs": subs}
            run_query(rec, rng, h, q)
            if rng.random() < 0.2:
                run_filter(rec, rng, h, q)
        if rng.random() < 0.3:
            one = qgen.build(qgen.rand_pat(rng, gf, **kw), rng, False)
            two = qgen.build(qgen.rand_pat(rng, gf, **kw), rng, False)
            cls = rng.choice([ConjunctionQuery, DisjunctionQuery, ExclusiveDisjunctionQuery, AndQuery, OrQuery, XorQuery])
            k = rng.randrange(5)
            if k == 0:
                f, errs = (lambda: cls(one)), ["BadNumberNaryQueryArgs"]
            elif k == 1:
                f, errs = (lambda: cls()), ["BadNumberNaryQueryArgs"]
            elif k == 2:
                neg = rng.choice([NegationQuery, NotQuery])
                f, errs = (lambda: neg(one, two)), ["BadNumberNaryQueryArgs"]
            elif k == 3:
                neg = rng.choice([NegationQuery, NotQuery])
                f, errs = (lambda: neg()), ["BadNumberNaryQueryArgs"]
            else:
                b = rng.choice([5, None, 2.5, {"name": "a"}, object()])
                f, errs = (lambda: cls(one, b)), ["TypeError"]
            rec.op("badquery", [], {"errs": errs, "text": cls.__name__}, lambda: (f(), None)[1])
        if rng.random() < 0.15:
            s = rng.choice(['{MATCH ("*")} {MATCH (p)}', '{MATCH ("*")} NAND {MATCH (p)}',
                            '{MATCH ("*")} AND {p."time" = 5}', '{foo} AND {MATCH (p)}',
                            'MATCH (p) WHERE {p."time" = 5} FOO {p."time" = 6}'])
            rec.op("badquery", [], {"errs": ["ValueError", "InvalidQueryPath"], "text": s},
                   lambda: (parse_string_dialect(s), None)[1])


# ------------------------------------------------------------ C17
@driver("C17")
class C17(Base):
    def scenario(self, rec, rng, name):
        ops.begin(rec, name, codes=True)
        sp = base_spec(rng, True, nonecells=rng.random() < 0.5, nmax=5, pinf=0.08, pnan=0.2, strcols=True, holes=0.3)
        # string columns that differ between the rows of a node
        h = ops.new(rec, sp)
        gf = rec.objs[h]
        bad = rng.choice([0, 0, 0.15])
        for _ in range(rng.randint(3, 6)):
            mode = rng.choice(["any", "all"])
            d = rng.choice(["obj", "str"])
            r = rng.random()
            kinds = qgen.col_kinds(gf)
            if r < 0.6:
                it = {"q": ".", "n": 1, "nm": "p"}
                if d == "obj":
                    it["pred"] = qgen.obj_pred(rng, gf, kinds, rng.choice([1, 1, 2, 3]), bad)
                    if rng.random() < 0.15:
                        mode = "off"
                else:
                    it["pred"] = [qgen.str_cond(rng, gf, kinds, bad) for _ in range(rng.choice([1, 1, 2, 3]))]
                q = {"k": "pat", "d": d, "mode": mode, "items": [it]}
            elif r < 0.8:
                q = qgen.rand_pat(rng, gf, (d,), mode=mode, bad=bad, full=1)
            else:
                q = qgen.rand_query(rng, gf, rng.choice([1, 1, 2]), dialects=("str",) if rng.random() < 0.6 else ("str", "obj"),
                                    mode=mode, bad=0, maxitems=2)
            if rng.random() < 0.2:
                run_filter(rec, rng, h, q)
            else:
                run_query(rec, rng, h, q)


_ = (always_squashable, DisjunctionQuery)
