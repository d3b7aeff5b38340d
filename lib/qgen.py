"""Query syntax trees: random generation, rendering in every dialect and form."""
import numbers
import random
import re

import ops
from rec import Cell
from hatchet.query import (
    AndQuery,
    ConjunctionQuery,
    CypherQuery,
    DisjunctionQuery,
    ExclusiveDisjunctionQuery,
    IntersectionQuery,
    NegationQuery,
    NotQuery,
    ObjectQuery,
    OrQuery,
    Query,
    QueryMatcher,
    StringQuery,
    SymDifferenceQuery,
    UnionQuery,
    XorQuery,
    parse_cypher_query,
    parse_string_dialect,
)
from hatchet.query import AbstractQuery

NAN, INF = float("nan"), float("inf")


# ------------------------------------------------------------ regular expressions
def rx_text(t):
    r = {"r": "eps"}
    for c in t:
        x = {"r": "any"} if c == "." else {"r": "chr", "c": ord(c)}
        r = x if r["r"] == "eps" else {"r": "cat", "a": r, "b": x}
    return r


def rx_lit(t):
    r = {"r": "eps"}
    for c in t:
        x = {"r": "chr", "c": ord(c)}
        r = x if r["r"] == "eps" else {"r": "cat", "a": r, "b": x}
    return r


def rx_rand(rng, word, d=2):
    """a regex near a word"""
    if d == 0 or len(word) <= 1 and rng.random() < 0.6:
        if not word:
            return {"r": "eps"}
        c = rng.random()
        if len(word) == 1:
            if c < 0.6:
                return rx_lit(word)
            if c < 0.75:
                return {"r": "any"}
            return {"r": "cls", "cs": sorted({ord(word), ord(rng.choice("abfx1_"))}), "neg": c > 0.9}
        if c < 0.75:
            return rx_lit(word)
        return {"r": "star", "a": {"r": "any"}}
    k = rng.random()
    i = rng.randint(0, len(word))
    if k < 0.5:
        return {"r": "cat", "a": rx_rand(rng, word[:i], d - 1), "b": rx_rand(rng, word[i:], d - 1)}
    if k < 0.7:
        a, b = rx_rand(rng, word, d - 1), rx_rand(rng, rng.choice(["a", "b", "foo", ""]), d - 1)
        return {"r": "alt", "a": a, "b": b} if rng.random() < 0.5 else {"r": "alt", "a": b, "b": a}
    if k < 0.8:
        return {"r": "cat", "a": rx_lit(word[:i]), "b": {"r": rng.choice(["star", "plus", "opt"]), "a": {"r": "any"}}}
    if k < 0.9:
        return {"r": rng.choice(["opt", "plus", "star"]), "a": rx_lit(word)}
    return rx_lit(word)


SPECIAL = set(".^$*+?{}[]\\|()")


def rx_str(r, top=True):
    k = r["r"]
    if k == "eps":
        return "(?:)"
    if k == "chr":
        c = chr(r["c"])
        return "\\" + c if c in SPECIAL else c
    if k == "any":
        return "."
    if k == "cls":
        return "[%s%s]" % ("^" if r["neg"] else "", "".join(chr(c) for c in r["cs"]))
    if k == "cat":
        return rx_str(r["a"], False) + rx_str(r["b"], False)
    if k == "alt":
        return ("%s|%s" if top else "(?:%s|%s)") % (rx_str(r["a"]), rx_str(r["b"]))
    return "(?:%s)%s" % (rx_str(r["a"]), {"star": "*", "plus": "+", "opt": "?"}[k])


# ------------------------------------------------------------ predicates
OPS = ["<", ">", "<=", ">=", "==", "!="]


def col_kinds(gf):
    kinds = {}
    for c in gf.dataframe.columns:
        vs = list(gf.dataframe[c])
        if all(isinstance(v, str) for v in vs):
            kinds[c] = "str"
        elif all(isinstance(v, numbers.Real) for v in vs):
            kinds[c] = "num"
        else:
            kinds[c] = "none"
    return kinds


def rand_num(rng, vals):
    r = rng.random()
    vals = [v for v in vals if isinstance(v, numbers.Real)]
    if r < 0.1:
        return NAN
    if r < 0.2:
        return rng.choice([INF, -INF])
    if vals and r < 0.85:
        v = rng.choice(vals)
        v = float(v) if isinstance(v, float) else int(v)
        return v + rng.choice([0, 0, 0, 1, -1, 0.5])
    return rng.choice([0, 1, 2, -1, 0.25])


def num_text(v):
    if v != v:
        return "np.nan"
    if v in (INF, -INF):
        return "np.inf" if v > 0 else "-np.inf"
    return repr(v)


def obj_val(rng, gf, kinds, key, bad=0.03):
    """one value of an Object dialect entry"""
    ill = rng.random() < bad
    if key in ("depth", "node_id"):
        vals = [n._depth if key == "depth" else n._hatchet_nid for n in gf.graph.traverse()]
        kind = "num"
    elif key not in kinds:
        vals, kind = [], rng.choice(["num", "str"])
    else:
        vals, kind = list(gf.dataframe[key]), kinds[key]
    if kind == "none":
        return {"t": "re", "re": rx_lit("p")} if ill else None
    if (kind == "str") != ill:
        w = rng.choice([v for v in vals if isinstance(v, str)] or ["foo"])
        if rng.random() < 0.1:
            w = rng.choice([w.swapcase(), w.strip(), w + " ", " " + w, w[:1], w + w])
        return {"t": "re", "re": rx_rand(rng, w)}
    v = rand_num(rng, vals)
    if key == "depth" and rng.random() < 0.2:
        v = -1
    if key in ("depth", "node_id") and (v != v or v in (INF, -INF)):
        v = 1
    if rng.random() < 0.5:
        return {"t": "num", "v": v}
    op = rng.choice(OPS)
    if v != v:
        op = rng.choice(["==", "==", "<", ">="])
    txt = "%s %s" % (op, num_text(v)) if rng.random() < 0.8 else "%s%s" % (op, num_text(v))
    return {"t": "cmp", "op": op, "v": v, "txt": txt, "re": rx_text(txt)}


def obj_pred(rng, gf, kinds, n=None, bad=0.03, cols=None):
    keys = list(kinds) + ["depth", "node_id", "nosuch"]
    w = [3] * len(kinds) + [2, 1, 0.3]
    pred = []
    for _ in range(n if n is not None else rng.choice([0, 1, 1, 1, 2, 2, 3])):
        key = rng.choices(keys, w)[0]
        if key in [p["key"] for p in pred]:
            continue
        vals = [obj_val(rng, gf, kinds, key, bad) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        vals = [v for v in vals if v]
        if not vals and rng.random() < 0.9:
            continue
        lst = len(vals) != 1 or rng.random() < 0.2
        pred.append({"key": key, "vals": vals, "list": lst})
    return pred


def enc_objval(v):
    if v["t"] == "re":
        return {"t": "re", "re": v["re"]}
    if v["t"] == "num":
        return {"t": "num", "v": Cell(v["v"])}
    return {"t": "cmp", "op": v["op"], "v": Cell(v["v"]), "re": v["re"]}


def py_objval(v):
    return {"re": lambda: rx_str(v["re"]), "num": lambda: v["v"], "cmp": lambda: v["txt"]}[v["t"]]()


def py_objpred(p, rng):
    d = {}
    for e in p:
        vs = [py_objval(v) for v in e["vals"]]
        d[e["key"]] = (tuple(vs) if rng.random() < 0.3 else vs) if e["list"] else vs[0]
    return d


STRT = ["seq", "starts", "ends", "contains", "match"]
CMPT = {"eq": "=", "lt": "<", "gt": ">", "le": "<=", "ge": ">="}
WORDS = {"nan": "IS NAN", "notnan": "IS NOT NAN", "inf": "IS INF", "notinf": "IS NOT INF",
         "none": "IS NONE", "notnone": "IS NOT NONE", "leaf": "IS LEAF", "notleaf": "IS NOT LEAF"}


def str_cond(rng, gf, kinds, bad=0.03):
    keys = list(kinds) + ["depth", "node_id", "nosuch"]
    w = [3] * len(kinds) + [2, 1, 0.3]
    key = rng.choices(keys, w)[0]
    c = {"conn": rng.choice(["and", "and", "or"]), "neg": rng.random() < 0.25, "key": key,
         "t": "", "v": "", "re": {"r": "eps"}}
    r = rng.random()
    if r < 0.12:
        c["t"] = rng.choice(["leaf", "notleaf"])
        c["key"] = ""
        return c
    ill = rng.random() < bad
    kind = "num" if key in ("depth", "node_id") else kinds.get(key, rng.choice(["num", "str"]))
    if (r < 0.2 or kind == "none") and not ill:
        c["t"] = rng.choice(["none", "notnone"])
        return c
    if kind == "none":
        kind = "str"
    elif ill and key not in ("depth", "node_id"):
        kind = "num" if kind == "str" else "str"
    if kind == "str":
        c["t"] = rng.choice(STRT)
        vals = [v for v in gf.dataframe[key] if isinstance(v, str)] if key in kinds else []
        wd = rng.choice(vals or ["foo"])
        i, j = sorted((rng.randint(0, len(wd)), rng.randint(0, len(wd))))
        c["v"] = {"seq": wd, "starts": wd[:j], "ends": wd[i:], "contains": wd[i:j], "match": ""}[c["t"]]
        if rng.random() < 0.15:
            c["v"] += rng.choice(["x", "a", "_", " "])
        elif rng.random() < 0.15:
            c["v"] = rng.choice([c["v"].swapcase(), c["v"].upper(), c["v"].strip(), " " + c["v"], c["v"][::-1],
                                 c["v"] + c["v"], "", ".", c["v"][:1] + "." + c["v"][2:]])
        if c["t"] == "match":
            c["re"] = rx_rand(rng, wd[:j] if rng.random() < 0.4 else wd)
        return c
    c["t"] = rng.choice(list(CMPT) * 2 + ["nan", "notnan", "inf", "notinf"])
    c["v"] = 0
    if c["t"] in CMPT:
        if key == "depth":
            vals = [n._depth for n in gf.graph.traverse()] + [-1, -2]
        elif key == "node_id":
            vals = [n._hatchet_nid for n in gf.graph.traverse()] + [-1]
        else:
            vals = list(gf.dataframe[key]) if key in kinds else [1]
        v = rand_num(rng, vals)
        while v != v or v in (INF, -INF):
            v = rand_num(rng, vals)
        c["v"] = v
    return c


def enc_cond(c):
    return dict(c, v=Cell(c["v"]))


def q_str(v, rng):
    if '"' in v:
        return '"%s"' % v.replace('"', '\\"') if rng.random() < 0.5 or "'" in v else "'%s'" % v
    return "'%s'" % v if rng.random() < 0.3 and "'" not in v else '"%s"' % v


def cond_str(c, name, rng):
    t = c["t"]
    neg = "NOT " if c["neg"] else ""
    if t in ("leaf", "notleaf"):
        return "%s%s %s" % (neg, name, WORDS[t])
    left = '%s%s."%s" ' % (neg, name, c["key"])
    if t in WORDS:
        return left + WORDS[t]
    if t in CMPT:
        return left + "%s %s" % (CMPT[t], repr(c["v"]))
    val = rx_str(c["re"]) if t == "match" else c["v"]
    return left + {"seq": "=", "starts": "STARTS WITH", "ends": "ENDS WITH", "contains": "CONTAINS",
                   "match": "=~"}[t] + " " + q_str(val, rng)


NAMES = ["p", "q", "n0", "node_x", "r2", "s"]


def match_str(items, rng):
    parts = []
    for i, it in enumerate(items):
        q = str(it["n"]) if it["q"] == "n" else '"%s"' % it["q"]
        nm = it["nm"]
        if it["q"] == "." and nm and rng.random() < 0.5:
            parts.append("(%s)" % nm)
        elif nm:
            parts.append("(%s, %s)" % (q, nm))
        else:
            parts.append("(%s)" % q)
    return "MATCH " + "->".join(parts)


def where_str(items, rng):
    conds = [[(it["nm"], c) for c in it["pred"]] for it in items]
    order = []
    conds = [c for c in conds if c]
    while conds:
        k = rng.randrange(len(conds))
        order.append(conds[k].pop(0))
        if not conds[k]:
            del conds[k]
    if not order:
        return ""
    out = []
    for i, (nm, c) in enumerate(order):
        s = cond_str(c, nm, rng)
        out.append(s if i == 0 else "%s %s" % (c["conn"].upper(), s))
    return " WHERE " + " ".join(out)


# ------------------------------------------------------------ syntax trees
def rand_items(rng, gf, d, kinds, mi, full=1.0, maxitems=4, bad=0.03):
    """full: probability that an item has a predicate"""
    items = []
    for i in range(rng.choice([1, 1, 2, 2, 3, 3, maxitems])):
        q = rng.choice([".", ".", "*", "*", "+", "n"])
        it = {"q": q, "n": rng.choice([1, 2, 2, 3]) if q == "n" else 1, "pred": [], "nm": ""}
        if d == "obj":
            if rng.random() < full:
                it["pred"] = obj_pred(rng, gf, kinds, bad=bad)
        elif d == "str":
            if rng.random() < full:
                it["nm"] = NAMES[i]
                it["pred"] = [str_cond(rng, gf, kinds, bad) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        else:
            p = {"k": "const", "b": True}
            if rng.random() < full:
                p = ops.rand_pred(rng, gf, 1, ix=mi)
                if mi:
                    p = {"k": "anyrow", "p": p}
            it["pred"] = p
        items.append(it)
    return items


def rand_pat(rng, gf, dialects=("base", "obj", "str"), mode="off", full=0.8, bad=0.03, maxitems=4):
    d = rng.choice(dialects)
    mi = len(gf.dataframe.index.names) > 1
    return {"k": "pat", "d": d, "mode": mode,
            "items": rand_items(rng, gf, d, col_kinds(gf), mi, full, maxitems, bad)}


def rand_query(rng, gf, depth, **kw):
    if depth == 0 or rng.random() < 0.3:
        return rand_pat(rng, gf, **kw)
    k = rng.choice(["and", "or", "xor", "not", "and", "or", "xor"])
    n = 1 if k == "not" else rng.choice([2, 2, 3, 4])
    subs = [rand_query(rng, gf, depth - 1, **kw) for _ in range(n)]
    if rng.random() < 0.1 and n > 1:
        subs[-1] = subs[0]
    return {"k": k, "subs": subs}


def enc(q):
    if q["k"] != "pat":
        return {"k": q["k"], "subs": [enc(s) for s in q["subs"]]}
    its = []
    for it in q["items"]:
        if q["d"] == "obj":
            p = [{"key": e["key"], "vals": [enc_objval(v) for v in e["vals"]]} for e in it["pred"]]
        elif q["d"] == "str":
            p = [enc_cond(c) for c in it["pred"]]
        else:
            p = ops.enc_pred(it["pred"])
        its.append({"q": it["q"], "n": it["n"], "pred": p})
    return {"k": "pat", "d": q["d"], "mode": q["mode"], "items": its}


# ------------------------------------------------------------ Python objects
class Row(object):
    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        return self.s.name if k == "node" else self.s[k]


def base_fn(p):
    def f(row):
        import pandas as pd

        if isinstance(row, pd.DataFrame):
            rs = [r for _, r in row.reset_index().iterrows()]
            if p["k"] == "anyrow":
                return any(ops.ev_pred(p["p"], r) for r in rs)
            return ops.ev_pred(p, rs[0])
        return ops.ev_pred(p, Row(row))

    return f


def pyq(it):
    return it["n"] if it["q"] == "n" else it["q"]


def as_list(q, rng):
    out = []
    for it in q["items"]:
        w = pyq(it)
        d = py_objpred(it["pred"], rng)
        if not it["pred"] and rng.random() < 0.7:
            out.append(w)
        elif w == "." and rng.random() < 0.5:
            out.append(d)
        else:
            out.append((w, d))
    return out


def as_str(q, rng):
    return match_str(q["items"], rng) + where_str(q["items"], rng)


def can_raw(q):
    """may be passed as a list or string"""
    return q["k"] == "pat" and q["d"] in ("obj", "str") and q["mode"] == "off"


def raw(q, rng):
    return as_list(q, rng) if q["d"] == "obj" else as_str(q, rng)


def build_pat(q, rng, legacy):
    if q["d"] == "base":
        x = QueryMatcher() if legacy else Query()
        if rng.random() < 0.15:
            # match starts the query again
            x.match(rng.choice([".", "*", 2]), lambda row: rng.random() < 0.5)
            if rng.random() < 0.5:
                x.rel(rng.choice([".", "*", "+", 1]))
        for i, it in enumerate(q["items"]):
            a = []
            tr = it["pred"]["k"] == "const" and it["pred"]["b"]
            if not (tr and it["q"] == "." and rng.random() < 0.5):
                a.append(pyq(it))
                if not (tr and rng.random() < 0.5):
                    a.append(base_fn(it["pred"]))
            m = x.match if i == 0 else (x.rel if legacy or rng.random() < 0.7 else x.relation)
            y = m(*a)
            assert y is x
        return x
    if q["d"] == "obj":
        lst = as_list(q, rng)
        if legacy:
            return QueryMatcher(lst)
        if q["mode"] == "off" and rng.random() < 0.5:
            return ObjectQuery(lst)
        return ObjectQuery(lst, q["mode"])
    s = as_str(q, rng)
    if legacy:
        return CypherQuery(s) if rng.random() < 0.5 else parse_cypher_query(s)
    if q["mode"] == "off" and rng.random() < 0.5:
        return StringQuery(s) if rng.random() < 0.5 else parse_string_dialect(s)
    return StringQuery(s, q["mode"]) if rng.random() < 0.5 else parse_string_dialect(s, q["mode"])


NEW = {"and": [ConjunctionQuery], "or": [DisjunctionQuery], "xor": [ExclusiveDisjunctionQuery], "not": [NegationQuery]}
OLD = {"and": [AndQuery, IntersectionQuery], "or": [OrQuery, UnionQuery], "xor": [XorQuery, SymDifferenceQuery],
       "not": [NotQuery]}


def has_mode(q):
    return q["k"] != "pat" and any(has_mode(s) for s in q["subs"]) or q["k"] == "pat" and q["mode"] != "off"


def curly_ok(q):
    if q["k"] in ("pat", "not"):
        return False
    ss = q["subs"]
    return all(s["k"] == "pat" and s["d"] == "str" and s["mode"] == ss[0]["mode"] for s in ss)


def same_match(q):
    ss = q["subs"]
    return all([(it["q"], it["n"], it["nm"]) for it in s["items"]] == [(it["q"], it["n"], it["nm"]) for it in ss[0]["items"]]
               for s in ss) and all(where_str(s["items"], random.Random(1)) for s in ss)


def curly(q, rng):
    """the query as one string with curly braces"""
    op = " %s " % q["k"].upper()
    ss = q["subs"]
    if same_match(q) and rng.random() < 0.8:
        w = [where_str(s["items"], rng)[len(" WHERE "):] for s in ss]
        if all(re.match(r"[a-zA-Z0-9_]+\..*", x) for x in w):
            return match_str(ss[0]["items"], rng) + " WHERE " + op.join("{%s}" % x for x in w)
    return op.join("{%s}" % as_str(s, rng) for s in ss)


def build(q, rng, legacy=None):
    """(object, is legacy)"""
    if legacy is None:
        legacy = rng.random() < 0.25 and not has_mode(q)
    if q["k"] == "pat":
        return build_pat(q, rng, legacy)
    if curly_ok(q) and rng.random() < 0.6:
        s = curly(q, rng)
        if legacy:
            return parse_cypher_query(s)
        m = q["subs"][0]["mode"]
        return parse_string_dialect(s, m) if m != "off" or rng.random() < 0.5 else parse_string_dialect(s)
    subs = []
    for i, s in enumerate(q["subs"]):
        sl = legacy and rng.random() < 0.6
        if can_raw(s) and rng.random() < 0.3:
            subs.append(raw(s, rng))
        else:
            subs.append(build(s, rng, sl))
    k = q["k"]
    first = subs[0]
    isnew = not isinstance(first, AbstractQuery)
    if rng.random() < 0.5 and not isinstance(first, (list, str)):
        if k == "not" and (legacy != isnew):
            return ~first
        if legacy != isnew and k != "not":
            x = first
            for y in subs[1:]:
                x = x & y if k == "and" else (x | y if k == "or" else x ^ y)
            return x
    cls = rng.choice((OLD if legacy else NEW)[k])
    if rng.random() < 0.2:
        return cls(tuple(subs))
    return cls(*subs)
