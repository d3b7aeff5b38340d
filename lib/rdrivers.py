"""Scenario drivers for writing, rendering and construction (C18-C21)."""
import io
import os
import re
import sys

import gen
import ops
from drivers import (Base, acyclic, allnodes, arith_pair, complete, distinct_graph, distinct_siblings, driver, has_inf, kept_ids,
                     nest_ok, too_big)
from gen import random_spec
from hatchet.graphframe import GraphFrame
from rec import Cell, val

SYM = {"mid": "├─ ", "bar": "│  ", "last": "└─ ", "left": "◀ ", "right": "▶ ",
       "block": "█ ", "none": "", "constant": "\U00002192", "phased": "\U00002933", "dynamic": "\U000021DD", "sporadic": "\U0000219D"}


def treelike(gf):
    return all(len(n.parents) < 2 for n in gf.graph.traverse()) and not any(r.parents for r in gf.graph.roots)


def index_of(gf):
    return [n for n in gf.dataframe.index.names if n != "node"]


def pick_ix(rng, gf):
    """rank/thread values present for every node (the graphframe is complete)"""
    names = list(gf.dataframe.index.names)
    key = rng.choice(list(gf.dataframe.index))
    kw = {"rank": 0, "thread": 0}
    if len(names) > 1:
        for nme, v in zip(names, key):
            if nme in kw:
                kw[nme] = int(v)
    return kw


# ------------------------------------------------------------ operations
def roundtrip(rec, h, fmt):
    gf = rec.objs[h]

    a = {"fmt": fmt, "tree": treelike(gf), "lookup": True}

    def rw():
        if fmt == "json":
            return GraphFrame.from_json(gf.to_json())
        p = os.path.join(rec.scratch, "rt.h5")
        try:
            gf.to_hdf(p)
            return GraphFrame.from_hdf(p)
        finally:
            if os.path.exists(p):
                os.unlink(p)

    def f():
        r = rw()
        a["lookup"] = lookups(r)
        return r

    return rec.op("roundtrip", [h], a, f)


def lookups(gf):
    """every row is found through the nodes of the graph"""
    df = gf.dataframe
    c = df.columns[0]
    try:
        own = {n._hatchet_nid: n for n in gf.graph.traverse()}
        for k, want in zip(list(df.index), list(df[c])):
            if df.index.nlevels > 1:
                key = (own[k[0]._hatchet_nid],) + tuple(k[1:])
            else:
                key = own[k._hatchet_nid]
            got = df.loc[key, c]
            if not (got is want or got == want or got != got and want != want):
                return False
        return True
    except KeyError:
        return False


def h5_write(rec, h, file, key, mode="a"):
    gf = rec.objs[h]
    kw = {} if key == "hatchet_graphframe" else {"key": key}
    if mode != "a":
        kw["mode"] = mode
    rec.op("h5.write", [h], {"file": file, "key": key, "mode": mode},
           lambda: gf.to_hdf(os.path.join(rec.scratch, file), **kw))


def h5_read(rec, file, key=None):
    a = {"file": file, "key": key or "", "anykey": key is None, "fmt": "hdf", "tree": False, "lookup": True}
    kw = {"key": key} if key else {}

    def f():
        r = GraphFrame.from_hdf(os.path.join(rec.scratch, file), **kw)
        a["lookup"] = lookups(r)
        return r

    return rec.op("h5.read", [], a, f)


def literal_rt(rec, h, kw, name="name"):
    gf = rec.objs[h]
    names = index_of(gf)
    ix = [Cell(kw[n]) for n in names]
    return rec.op("literal", [h], {"name": name, "ix": ix, "tree": treelike(gf)},
                  lambda: GraphFrame.from_literal(gf.to_literal(**kw)))


def enc_frame(attrs):
    return tuple((val(str(k)), val(attrs[k])) for k in sorted(attrs, key=str))


def to_literal(rec, h, kw, name="name", cats=()):
    gf = rec.objs[h]

    def flat(lst, d, out):
        for e in lst:
            m = dict(e["metrics"])
            nid = m.pop("_hatchet_nid")
            out.append({"nid": int(nid), "d": d, "open": "children" in e, "name": val(e["name"]),
                        "f": enc_frame(e["frame"]), "m": {k: val(v) for k, v in m.items()},
                        "a": {k: val(v) for k, v in e["attributes"].items()}})
            flat(e.get("children", []), d + 1, out)

    def f():
        out = []
        lit = gf.to_literal(name=name, cat_columns=list(cats), **kw)
        flat(lit, 0, out)
        return {"ents": out}

    return rec.op("toliteral", [h], {"name": name, "cats": list(cats), "rank": Cell(kw["rank"]),
                                     "thread": Cell(kw["thread"])}, f)


class Tty(io.StringIO):
    def isatty(self):
        return True


SGR = re.compile("\033\\[([0-9;]*)m")


def coloured(text):
    """lines of runs [style, text]; a style is the codes in force, joined by +"""
    lines, cur, st, pos = [], [], [], 0

    def put(t):
        nonlocal cur
        for i, part in enumerate(t.split("\n")):
            if i:
                lines.append(cur)
                cur = []
            if part:
                k = "+".join(st)
                if cur and cur[-1][0] == k:
                    cur[-1][1] += part
                else:
                    cur.append([k, part])

    for m in SGR.finditer(text):
        put(text[pos:m.start()])
        pos = m.end()
        if m.group(1) in ("", "0"):
            st = []
        else:
            st = st + [m.group(1)]
    put(text[pos:])
    if cur:
        lines.append(cur)
    return lines


def tree(rec, h, a, kw):
    """a: recorded arguments; kw: what is passed to tree()"""
    gf = rec.objs[h]
    a = dict(a, sym=SYM)

    def f():
        if a["color"]:
            old = sys.stdout
            sys.stdout = Tty()
            try:
                text = gf.tree(**kw)
            finally:
                sys.stdout = old
        else:
            text = gf.tree(**kw)
        out = {"headlen": 6, "runs": [], "legend": []}
        if a["color"]:
            runs = coloured(text)
            plain = ["".join(r[1] for r in ln) for ln in runs]
            # the legend follows the last blank line before its title
            k = max([i for i, ln in enumerate(plain) if ln.startswith("Legend (Metric: ")] + [0])
            if k > 0:
                out["legend"] = runs[k - 1:]
                runs, plain = runs[:k - 1], plain[:k - 1]
            out["runs"] = runs[6:] if a["header"] else runs
            out["lines"] = plain
            return out
        lines = text.split("\n")
        if lines and lines[-1] == "":
            lines.pop()
        out["lines"] = lines
        return out

    return rec.op("tree", [h], a, f)


DOTN = re.compile(r'^"(\d+)" \[color="(#[0-9a-f]{6})", label="(.*)" shape=oval\];$')
DOTE = re.compile(r'^"(\d+)" -> "(\d+)";$')


def dot(rec, h, metric, name, kw, thr):
    gf = rec.objs[h]

    def f():
        text = gf.to_dot(metric=metric, name=name, threshold=thr, **kw)
        nodes, edges, rest = [], [], []
        for ln in text.split("\n"):
            m = DOTN.match(ln)
            if m:
                nodes.append([int(m.group(1)), m.group(3)])
                continue
            m = DOTE.match(ln)
            if m:
                edges.append([int(m.group(1)), int(m.group(2))])
            elif ln:
                rest.append(ln)
        ok = rest[:1] == ["strict digraph {"] and rest[-1:] == ["}"] and not any('"' in x for x in rest)
        return {"ok": ok, "nodes": nodes, "edges": edges}

    return rec.op("dot", [h], {"metric": metric or gf.default_metric, "name": name, "thr": Cell(thr), "rank": Cell(kw["rank"]),
                               "thread": Cell(kw["thread"])}, f)


def flame(rec, h, metric, name, kw):
    gf = rec.objs[h]

    def f():
        text = gf.to_flamegraph(metric=metric, name=name, **kw)
        lines = text.split("\n")
        return {"lines": lines[:-1] if lines[-1] == "" else lines + ["!no newline"]}

    return rec.op("flame", [h], {"metric": metric or gf.default_metric, "name": name, "rank": Cell(kw["rank"]),
                                 "thread": Cell(kw["thread"])}, f)


# ------------------------------------------------------------ making sources
def derived(rec, rng, h):
    """the graphframe itself, or one that operations derived from it"""
    gf = rec.objs[h]
    r = rng.random()
    if r < 0.25 and not has_inf(gf) and not too_big(gf):
        p = ops.rand_pred(rng, gf, 1)
        rows = gf.dataframe.reset_index()
        keep = {q["node"]._hatchet_nid for _, q in rows.iterrows() if ops.ev_pred(p, q)}
        if keep and nest_ok(gf.graph, {id(n) for n in gf.graph.traverse() if n._hatchet_nid in keep}):
            h2, _ = ops.filt(rec, h, p, True, rng.random() < 0.7)
            return h2 or h
    if r < 0.35:
        h2, _ = ops.deepcopy(rec, h)
        return h2 or h
    return h


# ------------------------------------------------------------ C18
def called_roots(gf):
    return any(r.parents for r in gf.graph.roots)


def named(gf):
    """the name column holds the names of the frames"""
    df = gf.dataframe
    return "name" in df.columns and all(
        n.frame.attrs.get("name") == v for n, v in zip(df.index.get_level_values("node"), df["name"]))


@driver("C18")
class C18(Base):
    def directed(self):
        # a squashed graph whose root is also called by another root
        def sc(fmt):
            def go(rec, rng):
                from drivers import names_spec
                sp = names_spec([(0, 1), (2, 1)], ["a", "b", "c"])
                ops.begin(rec, "rootcaller-" + fmt)
                h = ops.new(rec, sp)
                h2, _ = ops.filt(rec, h, {"k": "cmp", "col": "name", "op": "!=", "v": "c"}, True, False)
                if not h2 or not called_roots(rec.objs[h2]):
                    return
                if fmt == "literal":
                    literal_rt(rec, h2, {"rank": 0, "thread": 0})
                else:
                    roundtrip(rec, h2, fmt)

            return "rootcaller-" + fmt, go

        return [sc("json"), sc("hdf"), sc("literal")]

    def files(self, rec, rng, name):
        """several graphframes in HDF files, under several keys"""
        ops.begin(rec, name)
        hs = []
        for _ in range(rng.randint(2, 3)):
            h = ops.new(rec, random_spec(rng, nmax=5, holes=rng.choice([0, 0, 0.2]), nonecells=True, distinct=True))
            gf = rec.objs[h]
            if allnodes(gf) and distinct_graph(gf.graph) and not called_roots(gf):
                hs.append(h)
        if not hs:
            return
        keys, files, held = ["hatchet_graphframe", "k", "base", "sub/k2"], ["a.h5", "b.h5"], {}
        try:
            for _ in range(rng.randint(3, 6)):
                f = rng.choice(files[: rng.choice([1, 2])])
                k = rng.choice(keys[: rng.choice([1, 2, 4])])
                r = rng.random()
                if r < 0.5 or not held:
                    mode = "w" if rng.random() < 0.15 else "a"
                    h = rng.choice(hs)
                    h5_write(rec, h, f, k, mode)
                    if mode == "w":
                        held[f] = set()
                    held.setdefault(f, set()).add(k)
                    if rng.random() < 0.2:
                        ops.poke(rec, h, rng)
                elif r < 0.6 and len(held.get(f, ())) == 1:
                    h5_read(rec, f)
                elif r < 0.9:
                    f = rng.choice(sorted(held))
                    h5_read(rec, f, rng.choice(sorted(held[f])))
                else:
                    h5_read(rec, f, k)
            for f in sorted(held):
                for k in sorted(held[f]):
                    if rng.random() < 0.5:
                        h5_read(rec, f, k)
        finally:
            for f in files:
                if os.path.exists(os.path.join(rec.scratch, f)):
                    os.unlink(os.path.join(rec.scratch, f))

    def scenario(self, rec, rng, name):
        if rng.random() < 0.12:
            return self.files(rec, rng, name)
        ops.begin(rec, name)
        r = rng.random()
        if r < 0.2:
            pr = arith_pair(rng)
            if not pr:
                return
            h1, h2 = ops.new(rec, pr[0]), ops.new(rec, pr[1])
            if has_inf(rec.objs[h1]) or has_inf(rec.objs[h2]):
                return
            h, _ = ops.arith(rec, h1, h2, rng.choice(["add", "sub"]))
            if not h:
                return
        else:
            sp = random_spec(rng, nmax=7, pinf=rng.choice([0, 0, 0.1]), holes=rng.choice([0, 0, 0.2]),
                             missing=rng.choice([0, 0, 0, 0.2]), nonecells=True, distinct=rng.random() < 0.7)
            h = derived(rec, rng, ops.new(rec, sp))
        if called_roots(rec.objs[h]):
            return
        for _ in range(rng.randint(1, 2)):
            gf = rec.objs[h]
            fmts = ["json"]
            if allnodes(gf) and distinct_graph(gf.graph):
                fmts += ["hdf", "hdf"]
            if complete(gf) and named(gf):
                fmts += ["literal", "literal"]
            fmt = rng.choice(fmts)
            if fmt == "literal":
                kw = pick_ix(rng, gf)
                mets = gf.exc_metrics + gf.inc_metrics
                cats = [c for c in gf.dataframe.columns if c not in mets and rng.random() < 0.5]
                if rng.random() < 0.3:
                    cats.append("nosuch")
                to_literal(rec, h, kw, rng.choice(["name", "name"] + [c for c in gf.dataframe.columns if c == "module"]), cats)
                h2, _ = literal_rt(rec, h, kw)
            else:
                h2, _ = roundtrip(rec, h, fmt)
            if not h2:
                return
            if rng.random() < 0.5:
                h = h2

    def case(self, rec, rng, case, name):
        from drivers import case_spec, perm_spec
        ops.begin(rec, name)
        h = ops.new(rec, perm_spec(rng, case_spec(case)))
        gf = rec.objs[h]
        roundtrip(rec, h, "json")
        if distinct_graph(gf.graph) and rng.random() < 0.4:
            roundtrip(rec, h, "hdf")
        kw = {"rank": 0, "thread": 0}
        to_literal(rec, h, kw, "name", [])
        literal_rt(rec, h, kw)


# ------------------------------------------------------------ C19
LONG = ["a" * 39, "b" * 40, "std::__detail::_Map_base<unsigned int, pair>::operator[](unsigned int const&)",
        "x" * 19 + "y" * 19 + "zz", "<unknown procedure>", "<unknown file> 3"]


def render_spec(rng, dup=False):
    sp = random_spec(rng, nmax=8, pinf=rng.choice([0, 0, 0.1]), pnan=rng.choice([0, 0.1, 0.2]), strcols=True)
    ren = {}
    for d in sp["nodes"]:
        if rng.random() < 0.15:
            old = d["f"]["name"]
            ren[old] = rng.choice(LONG)
    if ren:
        k = sp["cols"].index("name")
        for d in sp["nodes"]:
            d["f"]["name"] = ren.get(d["f"]["name"], d["f"]["name"])
        for r in sp["rows"]:
            r["c"][k] = ren.get(r["c"][k], r["c"][k])
    if rng.random() < 0.6:
        # a context column
        sp["cols"] = sp["cols"] + ["file"]
        for r in sp["rows"]:
            r["c"] = r["c"] + [rng.choice(["f.c", "lib/g.c", "None"])]
    if rng.random() < 0.15:
        sp["cols"] = sp["cols"] + ["score_pattern"]
        for r in sp["rows"]:
            r["c"] = r["c"] + [rng.choice(["none", "constant", "phased", "dynamic", "sporadic"])]
    return sp


MAPS = ["RdYlGn", "BrBG", "PiYG", "PRGn", "PuOr", "RdBu", "RdGy", "RdYlBu", "Spectral"]


@driver("C19")
class C19(Base):
    def scenario(self, rec, rng, name):
        ops.begin(rec, name)
        if rng.random() < 0.25:
            pr = arith_pair(rng)
            if not pr:
                return
            h1, h2 = ops.new(rec, pr[0]), ops.new(rec, pr[1])
            if has_inf(rec.objs[h1]) or has_inf(rec.objs[h2]):
                return
            h, _ = ops.arith(rec, h1, h2, rng.choice(["add", "sub"]))
            if not h:
                return
            rec.proj  # the result is rendered below
        else:
            h = derived(rec, rng, ops.new(rec, render_spec(rng)))
        if not complete(rec.objs[h]):
            return
        for _ in range(rng.randint(2, 4)):
            self.one(rec, rng, h)
        if rng.random() < 0.08:
            # parameters that were renamed or removed are refused
            gf = rec.objs[h]
            old = rng.choice([("metric", "metric_column", "time"), ("name", "name_column", "name"), ("expand_names", "expand_name", True),
                              ("context", "context_column", "file"), ("invert_colors", "invert_colormap", True)])
            kw = {old[0]: old[2]}
            if rng.random() < 0.3:
                kw[old[1]] = old[2]
            ops.refuse(rec, h, "TypeError" if len(kw) > 1 else "ValueError", "deprecated", lambda: gf.tree(**kw))
        if rng.random() < 0.05:
            # so are metrics which do not exist
            gf = rec.objs[h]
            m = gf.default_metric
            bad = rng.choice(["nope", ["nope"], [m, "nope"], ["nope", m]])
            ops.refuse(rec, h, "KeyError", "nometric", lambda: gf.tree(metric_column=bad))

    def case(self, rec, rng, case, name):
        from drivers import case_spec, perm_spec
        ops.begin(rec, name)
        self.one(rec, rng, ops.new(rec, perm_spec(rng, case_spec(case))))

    def one(self, rec, rng, h):
        gf = rec.objs[h]
        df = gf.dataframe
        mets = gf.exc_metrics + gf.inc_metrics
        ix = pick_ix(rng, gf)
        kw = {}
        if rng.random() < 0.3:
            metrics = [gf.default_metric]
        elif rng.random() < 0.5:
            metrics = [rng.choice(mets)]
            kw["metric_column"] = metrics[0]
        else:
            metrics = [rng.choice(mets) for _ in range(rng.randint(1, 3))]
            kw["metric_column"] = list(metrics)
        if rng.random() < 0.06:
            metrics = metrics + ["nosuch"] if rng.random() < 0.5 and len(metrics) == 1 else ["nosuch"]
            kw["metric_column"] = list(metrics)
        for nme, v in ix.items():
            if nme in df.index.names or rng.random() < 0.2:
                kw[nme] = v
        strs = [c for c in df.columns if c in ("module", "line", "opt", "file", "name", "score_pattern")
                and not any(v != v for v in df[c])]
        strs = [c for c in strs if not (c == "line" and df[c].dtype.kind == "f")]
        annot = rng.choice([""] * 3 + strs)
        if annot:
            kw["annotation_column"] = annot
        prec = rng.choice([3, 3, 3, 0, 1, 2, 4, 5])
        if prec != 3:
            kw["precision"] = prec
        nm = "name"
        if rng.random() < 0.2:
            opts = [c for c in strs if c in ("module", "file")]
            if opts:
                nm = rng.choice(opts)
                kw["name_column"] = nm
        if any(not isinstance(v, str) for v in df[nm]):
            return
        expand = rng.random() < 0.4
        if expand:
            kw["expand_name"] = True
        ctx = "file"
        if rng.random() < 0.4:
            ctx = rng.choice(strs + ["nosuch"])
            if ctx == "score_pattern":
                ctx = "name"
            kw["context_column"] = ctx
        if ctx in df.columns and any(v != v for v in df[ctx]):
            return
        depth = 10000
        if rng.random() < 0.4:
            depth = rng.randint(0, 4)
            kw["depth"] = depth
        header = rng.random() < 0.3
        kw["render_header"] = header
        if header and rng.random() < 0.5:
            del kw["render_header"]
        color = rng.random() < 0.35
        mn = mx = None
        cmap, inv, hl = "RdYlGn", False, False
        apal = {"k": "none"}
        if annot and rng.random() < 0.5 and all(isinstance(v, str) for v in df[annot]):
            # colours for the annotations (ignored unless the output is a terminal)
            apal = self.palette(rng, kw, df[annot])
        if color:
            if rng.random() < 0.5:
                cmap = kw["colormap"] = rng.choice(MAPS)
            elif rng.random() < 0.05 and "nosuch" not in metrics:
                cmap = kw["colormap"] = "viridis"
            if rng.random() < 0.3:
                inv = kw["invert_colormap"] = True
            if rng.random() < 0.3:
                mn = rng.choice([-2, 1, 0])
                kw["min_value"] = mn
            if rng.random() < 0.3:
                mx = rng.choice([5, 20, 0])
                kw["max_value"] = mx
            if rng.random() < 0.3:
                hl = kw["highlight_name"] = True
            if "_pattern" in annot and depth == 0:
                return
        tree(rec, h, {"metrics": metrics, "annot": annot, "pattern": "_pattern" in annot, "prec": prec, "name": nm,
                      "expand": expand, "ctx": ctx, "rank": Cell(ix["rank"]), "thread": Cell(ix["thread"]), "depth": depth,
                      "header": header, "color": color, "min": Cell(mn), "max": Cell(mx), "cmap": cmap, "invert": inv, "hl": hl,
                      "apal": apal}, kw)

    def palette(self, rng, kw, col):
        styles = ["3%d" % i for i in range(1, 8)] + ["1;31", "38;5;99"]
        r = rng.random()
        if r < 0.4:
            nm = kw["colormap_annotations"] = rng.choice(MAPS)
            return {"k": "name", "name": nm}
        if r < 0.7:
            p = rng.sample(styles, rng.randint(1, 5))
            kw["colormap_annotations"] = ["\033[%sm" % t for t in p]
            return {"k": "list", "list": p}
        ks = sorted(set(col))
        vs = [rng.choice(styles) for _ in ks]
        kw["colormap_annotations"] = {k: "\033[%sm" % v for k, v in zip(ks, vs)}
        return {"k": "map", "keys": ks, "vals": vs}


# ------------------------------------------------------------ C20
@driver("C20")
class C20(Base):
    def scenario(self, rec, rng, name):
        ops.begin(rec, name)
        sp = random_spec(rng, nmax=8, pnan=rng.choice([0, 0.1]), strcols=True)
        h = derived(rec, rng, ops.new(rec, sp))
        gf = rec.objs[h]
        if not complete(gf):
            return
        df = gf.dataframe
        mets = gf.exc_metrics + gf.inc_metrics
        names = ["name"] + [c for c in df.columns if c in ("module", "line") and df[c].dtype.kind != "f"]
        for _ in range(rng.randint(2, 4)):
            ix = pick_ix(rng, gf)
            m = rng.choice(mets)
            nm = rng.choice(["name"] + names)
            r = rng.random()
            arg = None if m == gf.default_metric and rng.random() < 0.5 else m
            if r < 0.6 or not treelike(gf):
                dot(rec, h, arg, nm, ix, rng.choice([0.0, 0.25, 0.5, 0.75, 1.0, 0.125]))
            else:
                sel = [df.loc[k, m] for k in df.index]
                if any(v != v for v in sel):
                    continue
                flame(rec, h, arg, nm, ix)

    def case(self, rec, rng, case, name):
        from drivers import case_spec, perm_spec
        ops.begin(rec, name)
        h = ops.new(rec, perm_spec(rng, case_spec(case)))
        gf = rec.objs[h]
        ix = pick_ix(rng, gf)
        dot(rec, h, None, "name", ix, rng.choice([0.0, 0.25, 0.5, 0.75, 1.0, 0.125]))
        if treelike(gf):
            flame(rec, h, rng.choice([None, "time (inc)"]), "name", ix)
