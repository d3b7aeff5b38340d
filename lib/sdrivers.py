"""Scenario drivers for constructors and readers (C21-C25)."""
import json
import marshal
import os
import shutil

import gen
import ops
from drivers import Base, driver
from gen import NAN, random_spec
from hatchet.frame import Frame
from hatchet.graph import Graph
from hatchet.graphframe import GraphFrame
from hatchet.node import Node
from rec import Cell, val


def enc_frame(attrs):
    return tuple((val(str(k)), val(attrs[k])) for k in sorted(attrs, key=str))


# ------------------------------------------------------------ C21
def literal_doc(rng):
    """-> (python literal, abstract entries)"""
    kind = rng.choice(["tree", "tree", "forest", "dag", "dagforest"])
    sp = random_spec(rng, kind=kind, nmax=8, leveled=rng.random() < 0.7, ixn=[], pnan=0.1, pinf=0.05, strcols=False)
    nodes = sp["nodes"]
    n = len(nodes)
    share = kind.startswith("dag")
    ids = "all" if share else rng.choice(["none", "none", "all", "some"])
    nums = rng.sample(range(n), n) if rng.random() < 0.5 else rng.sample(range(4 * n), n)
    mets = rng.choice([["time", "time (inc)"], ["time"], ["time (inc)"], ["time (inc)", "cpu (inc) x", "hits", "time"]])
    ragged = rng.random() < 0.25
    given = {i for i in range(n) if ids == "all" or ids == "some" and rng.random() < 0.5}
    desc = []
    for i in range(n):
        f = dict(nodes[i]["f"])
        if rng.random() < 0.2:
            f.pop("type", None)
        nm = None
        r = rng.random()
        if r < 0.15:
            # statements have no name in their frame
            f = {"type": "statement", "file": rng.choice(["a.c", "b.c"]), "line": rng.randint(1, 30)}
            nm = "%s:%d" % (f["file"], f["line"])
        elif r < 0.3:
            nm = "other"
        m = {k: gen.cell(rng, rng.choice(["float", "int"]), None, 0.1, 0.05, True) for k in mets
             if not (ragged and rng.random() < 0.3)}
        if not m and i == 0:
            m = {mets[0]: 1.0}
        desc.append((f, nm, m))
    ents, seen = [], set()

    def emit(i, d):
        f, nm, m = desc[i]
        again = i in seen
        seen.add(i)
        e = {"frame": dict(f), "metrics": dict(m)}
        if nm is not None:
            e["name"] = nm
        if i in given:
            e["metrics"]["_hatchet_nid"] = nums[i]
        ents.append({"d": d, "f": enc_frame(f), "nm": Cell(nm), "nid": nums[i] if i in given else -1,
                     "m": {k: Cell(v) for k, v in m.items()}})
        if not again:
            kids = [emit(c, d + 1) for c in nodes[i]["ch"]]
            if kids or rng.random() < 0.2:
                e["children"] = kids
        return e

    roots = list(sp["roots"])
    if ids == "all" and rng.random() < 0.15:
        # a root that is also called
        k = [c for d in nodes for c in d["ch"]]
        if k:
            roots.append(rng.choice(k))
    return [emit(r, 0) for r in roots], ents


def lists_doc(rng):
    """-> (python lists, abstract entries)"""
    kind = rng.choice(["tree", "forest", "dag", "dagforest"])
    sp = random_spec(rng, kind=kind, nmax=8, leveled=rng.random() < 0.7, ixn=[], strcols=False)
    nodes = sp["nodes"]
    n = len(nodes)
    par = [0] * n
    for d in nodes:
        for c in d["ch"]:
            par[c] += 1
    for i in range(n):
        # shared nodes with children of their own
        if par[i] > 1 and rng.random() < 0.6:
            for _ in range(rng.randint(1, 3)):
                nodes[i]["ch"].append(len(nodes))
                nodes.append({"f": dict(rng.choice(nodes)["f"]), "ch": []})
                par.append(1)
    n = len(nodes)
    roots = list(sp["roots"])
    if rng.random() < 0.2:
        k = [c for c in range(n) if par[c]]
        if k:
            roots.insert(rng.randrange(len(roots) + 1), rng.choice(k))
    objs, desc = {}, {}
    whole = rng.choice([0.1, 0.7])
    for i in range(n):
        many = par[i] + roots.count(i) > 1
        if many or rng.random() < 0.3:
            f = dict(nodes[i]["f"])
            objs[i] = Node(Frame(dict(f)))
        else:
            f = {"name": nodes[i]["f"]["name"]}
        desc[i] = f
    ents, seen = [], set()
    split = {}

    def emit(i, d):
        ents.append({"d": d, "key": "k%d" % i, "f": enc_frame(desc[i])})
        head = objs.get(i, desc[i]["name"])
        kids = list(nodes[i]["ch"])
        if i in objs:
            # a shared node may get its children where it is first listed or spread over its uses
            rest = split.setdefault(i, kids)
            take = len(rest) if rng.random() < whole else rng.randint(0, len(rest))
            kids, split[i] = rest[:take], rest[take:]
        ls = [emit(c, d + 1) for c in kids]
        if ls or d == 0 or rng.random() < 0.2:
            return [head] + ls if rng.random() < 0.8 else tuple([head] + ls)
        return head

    return [emit(r, 0) for r in roots], ents


@driver("C21")
class C21(Base):
    def scenario(self, rec, rng, name):
        ops.begin(rec, name, ranks=True)
        for _ in range(rng.randint(1, 3)):
            r = rng.random()
            if r < 0.55:
                doc, ents = literal_doc(rng)
                rec.op("fromliteral", [], {"doc": {"ents": ents}}, lambda: GraphFrame.from_literal(doc))
                if rng.random() < 0.2:
                    # reading does not consume the document
                    rec.op("fromliteral", [], {"doc": {"ents": ents}}, lambda: GraphFrame.from_literal(doc))
            elif r < 0.95:
                doc, ents = lists_doc(rng)
                rec.op("fromlists", [], {"doc": {"ents": ents}}, lambda: GraphFrame.from_lists(*doc))
            else:
                bad = rng.choice([("a",), (["a", 3],), (["a", "b"], "c"), (["a", ["b", 1.5]],), (["a", None],)])
                rec.op("frombad", [], {"want": "ValueError"}, lambda: GraphFrame.from_lists(*bad))


# ------------------------------------------------------------ C25
def write(rec, name, text, mode="w"):
    p = os.path.join(rec.scratch, name)
    with open(p, mode) as f:
        f.write(text)
    return p


def fn_dag(rng, nmax, cyc):
    """random caller lists: each function after the first ones is called by an earlier one"""
    n = rng.randint(1, nmax)
    nroots = rng.randint(1, min(2, n))
    callers = [[] for _ in range(n)]
    for i in range(nroots, n):
        callers[i].append(rng.randrange(i))
        for _ in range(rng.choice([0, 0, 1, 2])):
            a = rng.randrange(i)
            if a not in callers[i]:
                callers[i].append(a)
    if cyc:
        # recursion, direct or mutual
        for _ in range(rng.randint(1, 2)):
            i = rng.randrange(n)
            a = rng.randrange(n)
            if callers[i] and a >= i and a not in callers[i]:
                callers[i].append(a)
    return callers


def perm(rng, callers):
    n = len(callers)
    p = list(range(n))
    rng.shuffle(p)
    out = [None] * n
    for i in range(n):
        c = [p[a] for a in callers[i]]
        rng.shuffle(c)
        out[p[i]] = c
    return out


def num(rng, hi=40):
    return rng.randint(0, hi) / 4.0


def cprofile_doc(rng):
    callers = perm(rng, fn_dag(rng, 8, rng.random() < 0.3))
    n = len(callers)
    used, fns = set(), []
    for i in range(n):
        while True:
            k = (rng.choice(["/a/x.py", "/b/x.py", "/a/__init__.py", "/b/__init__.py", "~", "z.py"]),
                 rng.choice([0, 1, 7, 12]), rng.choice(["f", "g", "<module>", "<built-in method len>", "main"]))
            if k not in used:
                used.add(k)
                break
        nc = rng.randint(1, 9)
        fns.append(dict(key=k, cc=rng.randint(1, nc), nc=nc, tt=num(rng), ct=num(rng)))
    stats = {}
    order = list(range(n))
    rng.shuffle(order)
    for i in order:
        f = fns[i]
        stats[f["key"]] = (f["cc"], f["nc"], f["tt"], f["ct"],
                           {fns[a]["key"]: (rng.randint(1, 5), rng.randint(1, 5), num(rng), num(rng)) for a in callers[i]})
    doc = [{"file": Cell(f["key"][0]), "line": Cell(f["key"][1]), "name": Cell(f["key"][2]), "cc": Cell(f["cc"]),
            "nc": Cell(f["nc"]), "tt": Cell(f["tt"]), "ct": Cell(f["ct"]), "callers": [a + 1 for a in callers[i]]}
           for i, f in enumerate(fns)]
    return stats, doc


DOTNAMES = ["main", "(below main)", "foo", "std::vector<int>::push_back(int const&)", "0x0000000000000ff0", "a b", "MPI_Send",
            "node", "graph_init", "_start", "operator->", "bar@@GLIBC_2.2.5", "x_y", "f1", "f2"]


def percent(rng):
    return rng.choice([0.0, 100.0]) if rng.random() < 0.4 else rng.randint(0, 400) / 4.0


def gprof_doc(rng):
    callers = perm(rng, fn_dag(rng, 8, rng.random() < 0.3))
    n = len(callers)
    names = rng.sample(DOTNAMES, n)
    fns, lines = [], []
    linked = {a for c in callers for a in c} | {i for i in range(n) if callers[i]}
    for i in range(n):
        label = i not in linked or rng.random() < 0.85
        fns.append({"name": Cell(names[i]), "label": label, "module": Cell(rng.choice(["libc-2.17.so", "cpi", "a.out"])),
                    "ct": Cell(percent(rng)), "tt": Cell(percent(rng)),
                    "callers": [a + 1 for a in callers[i]]})
    if not any(f["label"] for f in fns):
        fns[0]["label"] = True
    if rng.random() < 0.7:
        lines += ["graph [fontname=Arial, nodesep=0.125];", "node [fontcolor=white, shape=box];", "edge [fontname=Arial];"]

    def q(s):
        return s if s.isidentifier() and s not in ("node", "graph", "edge") and rng.random() < 0.5 else '"%s"' % s

    body = []
    for i, f in enumerate(fns):
        if f["label"]:
            body.append('%s [color="#0d1074", label="%s\\n%s\\n%.2f%%\\n(%.2f%%)\\n%d\u00d7"];' % (
                q(names[i]), f["module"].v, names[i], f["ct"].v, f["tt"].v, rng.randint(0, 99)))
        for a in callers[i]:
            body.append('%s -> %s [label="%.2f%%\\n3\u00d7", penwidth="0.5"];' % (q(names[a]), q(names[i]), num(rng)))
    rng.shuffle(body)
    text = "digraph {\n\t" + "\n\t".join(lines + body) + "\n}\n"
    return text, fns


def pyinstrument_doc(rng):
    ents = []

    def go(d):
        e = {"function": rng.choice(["main", "f", "g", "<module>", "run all"]), "file_path_short": rng.choice(["a.py", "lib/b.py"]),
             "file_path": "/x/a.py", "line_no": rng.randint(1, 90), "time": num(rng), "is_application_code": rng.random() < 0.5}
        if rng.random() < 0.1:
            e["is_application_code"] = None
        ents.append({"d": d, "fn": Cell(e["function"]), "file": Cell(e["file_path_short"]), "line": Cell(e["line_no"]),
                     "time": Cell(e["time"]), "app": Cell(e["is_application_code"])})
        k = rng.choice([0, 1, 2, 3]) if d < 3 and len(ents) < 9 else 0
        kids = [go(d + 1) for _ in range(k)]
        if kids or rng.random() < 0.6:
            e["children"] = kids
        if rng.random() < 0.3:
            e["group_id"] = "g"
        return e

    root = go(0)
    return {"start_time": 1.5, "duration": 2.0, "sample_count": 7, "program": "x", "cpu_time": 1.0, "root_frame": root}, ents


def timemory_doc(rng):
    """-> (timemory dictionary, list of metrics, abstract metrics, select)"""
    dist = rng.choice(["graph", "mpi", "mpi", "upc", "mpi+upc"])
    tids = rng.choice([[0], [0], [0, 1], [0, 2, 5], ["0,1", "0,2"]])
    nms = rng.sample(["wall_clock", "cpu_clock", "peak_rss", "papi_vector"], rng.randint(1, 3))
    nranks = rng.randint(1, 3)
    # one calling structure; every metric and rank records a part of it
    tree = []

    def prefix():
        form = rng.choice(["plain", "plain", "brackets", "head", "full", "tail", "line"])
        e = {"form": form, "head": rng.choice(["main", "a b", "compute", "loop x"]), "func": rng.choice(["foo", "bar", "run"]),
             "file": rng.choice(["x.cpp", "y.c"]), "line": str(rng.randint(1, 99)), "tail": ""}
        sep = rng.choice("@/")
        if form == "plain":
            p = e["head"]
        elif form == "brackets":
            p = "[%s][%s]" % (e["func"], e["file"])
        elif form == "head":
            p = "%s%s[%s/%s:%s]" % (e["head"], " " * rng.randint(1, 4), e["func"], e["file"], e["line"])
        elif form == "full":
            e["tail"] = rng.choice(["", "inner"])
            p = "%s%s%s:%s%s" % (e["func"], sep, e["file"], e["line"], "/" + e["tail"] if e["tail"] else "")
        elif form == "tail":
            e["tail"] = rng.choice(["inner", "z"])
            p = "%s%s%s/%s" % (e["func"], sep, e["file"], e["tail"])
        else:
            e["tail"] = rng.choice(["", "inner"])
            p = "%s:%s%s" % (e["func"], e["line"], "/" + e["tail"] if e["tail"] else "")
        e["prefix"] = p
        e["name"] = e["head"] if form in ("plain", "head") else e["func"] + ("/" + e["tail"] if e["tail"] else "")
        return e

    files = {}

    def grow(path, d, used):
        """children of a node with distinct (name, tid)"""
        out = []
        for _ in range(rng.choice([1, 1, 2, 3]) if d == 0 else rng.choice([0, 1, 2]) if d < 3 else 0):
            if rng.random() < 0.1:
                out.append({"dummy": True, "kids": grow(path, d + 1, used)})
                continue
            e = prefix()
            # one description per call path
            e = files.setdefault(path + (e["name"],), e)
            tid = rng.choice(tids)
            if (e["name"], tid) in used:
                continue
            used.add((e["name"], tid))
            out.append(dict(e, dummy=False, tid=tid, pid=rng.choice([100, 200]), laps=rng.randint(1, 9),
                            kids=grow(path + (e["name"],), d + 1, subs.setdefault(path + (e["name"],), set()))))
        return out

    subs = {}
    tree = grow((), 0, set())
    if not any(not e["dummy"] for e in walk(tree)):
        return None
    pidlist = rng.random() < 0.2
    doc, metrics = {}, []
    for nm in nms:
        vec = nm == "papi_vector"
        labels = ["Total_cycles", "Instr completed", "L2 cache_misses"][: rng.randint(1, 3)] if vec else []
        stats = rng.sample(["sum", "min", "max", "mean"], rng.randint(1, 2))
        if "sum" not in stats and rng.random() < 0.7:
            stats.append("sum")
        lists = rng.random() < 0.7

        def one_rank():
            ents = []

            def st():
                if not vec:
                    return {s: num(rng) for s in stats}
                return {s: [num(rng) for _ in labels] for s in stats}

            def enc(s):
                d = {k: dict(zip(labels, v)) if vec and not lists else v for k, v in s.items()}
                d["cereal_class_version"] = 0
                d["count"] = 3
                return d

            def go(es, d):
                out = []
                for e in es:
                    if not e["dummy"] and rng.random() < 0.1:
                        continue
                    inc, exc = st(), st()
                    cell = (lambda s: {k: [Cell(y) for y in v] if vec else Cell(v) for k, v in s.items()})
                    if e["dummy"]:
                        ents.append({"d": d, "dummy": True})
                        node = {"hash": 0, "prefix": "unknown-hash=0", "tid": 0, "pid": 1,
                                "inclusive": {"entry": {"laps": 0}, "stats": enc(inc)},
                                "exclusive": {"entry": {"laps": 0}, "stats": enc(exc)}}
                    else:
                        tid = e["tid"]
                        if isinstance(tid, str):
                            rt = [int(v) for v in tid.split(",")]
                        else:
                            rt = [tid] if rng.random() < 0.5 else tid
                        pid = "%d,%d" % (e["pid"], e["pid"] + 1) if pidlist else e["pid"]
                        rp = [e["pid"], e["pid"] + 1] if pidlist else [e["pid"]] if rng.random() < 0.5 else e["pid"]
                        ents.append({"d": d, "dummy": False, "form": e["form"], "head": e["head"], "func": e["func"],
                                     "file": e["file"], "line": e["line"], "tail": e["tail"], "tid": Cell(tid),
                                     "pid": Cell(pid), "laps": Cell(e["laps"]), "inc": cell(inc), "exc": cell(exc)})
                        node = {"hash": rng.randint(1, 10 ** 12), "prefix": e["prefix"], "tid": rt, "pid": rp,
                                "inclusive": {"entry": {"laps": e["laps"]}, "stats": enc(inc)},
                                "exclusive": {"entry": {"laps": e["laps"]}, "stats": enc(exc)}}
                    me = {"node": node}
                    kids = go(e["kids"], d + 1)
                    if kids or rng.random() < 0.7 or e["dummy"]:
                        me["children"] = kids
                    out.append(me)
                return out

            ents.append({"d": 0, "dummy": True})
            top = {"node": {"hash": 0, "prefix": "unknown-hash=0", "tid": 0, "pid": 1,
                            "inclusive": {"entry": {"laps": 0}, "stats": {}}, "exclusive": {"entry": {"laps": 0}, "stats": {}}},
                   "children": go(tree, 1)}
            return (top if rng.random() < 0.5 else [top]), ents

        parts = []
        md = {"properties": {"cereal_class_version": 0}, "type": labels if vec else nm, "description": "d", "unit_value": 1}
        if dist == "graph":
            g, ents = one_rank()
            md["graph"] = [g]
            parts.append({"rank": -1, "ents": ents})
        else:
            base = 0
            for k in dist.split("+"):
                lst = []
                for r in range(nranks):
                    g, ents = one_rank()
                    lst.append(g)
                    parts.append({"rank": base + r, "ents": ents})
                md["upcxx" if k == "upc" and rng.random() < 0.5 else k] = lst
                base += nranks
            if "mpi" in dist:
                md["mpi_size"] = nranks
        deco = rng.choice(["%s", "tim::component::%s", "tim::%s"]) % (nm.upper() if rng.random() < 0.2 else nm)
        doc[deco] = md
        metrics.append({"name": nm, "labels": labels, "parts": parts, "sel": True})
    select = None
    if rng.random() < 0.25:
        keep = [m for m in metrics if rng.random() < 0.6] or metrics[:1]
        for m in metrics:
            m["sel"] = m in keep
        select = [rng.choice([m["name"], m["name"].upper()]) for m in keep]
        if rng.random() < 0.3:
            s0 = select[0]
            select[0] = lambda: s0
    if not any(not e["dummy"] for m in metrics if m["sel"] for p in m["parts"] for e in p["ents"]):
        return None
    if not all(any(not e["dummy"] for e in p["ents"]) for m in metrics for p in m["parts"]):
        return None
    return doc, metrics, select


def walk(es):
    for e in es:
        yield e
        for k in walk(e["kids"]):
            yield k


@driver("C25")
class C25(Base):
    def scenario(self, rec, rng, name):
        ops.begin(rec, name, ranks=True)
        k = rng.choice(["cprofile", "gprof", "pyinstrument", "timemory", "timemory"])
        made = []
        try:
            getattr(self, k)(rec, rng, made)
        finally:
            for p in made:
                shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)

    def cprofile(self, rec, rng, made):
        stats, fns = cprofile_doc(rng)
        p = write(rec, "p.pstats", marshal.dumps(stats), "wb")
        made.append(p)
        rec.op("cprofile", [], {"doc": {"fns": fns}}, lambda: GraphFrame.from_cprofile(p))

    def gprof(self, rec, rng, made):
        text, fns = gprof_doc(rng)
        p = write(rec, "g.dot", text)
        made.append(p)
        rec.op("gprof", [], {"doc": {"fns": fns}}, lambda: GraphFrame.from_gprof_dot(p))

    def pyinstrument(self, rec, rng, made):
        doc, ents = pyinstrument_doc(rng)
        p = write(rec, "p.json", json.dumps(doc))
        made.append(p)
        rec.op("pyinstrument", [], {"doc": {"ents": ents}}, lambda: GraphFrame.from_pyinstrument(p))

    def timemory(self, rec, rng, made):
        d = timemory_doc(rng)
        if not d:
            return
        doc, metrics, select = d
        how = rng.choice(["dict", "file", "stream", "dir"])
        if how == "dict":
            f = lambda: GraphFrame.from_timemory({"timemory": doc}, select)  # noqa: E731
        elif how == "dir":
            dd = os.path.join(rec.scratch, "tm")
            os.makedirs(dd)
            made.append(dd)
            for i, (k, v) in enumerate(doc.items()):
                with open(os.path.join(dd, "%s%d.tree.json" % (rng.choice("abc"), i)), "w") as fh:
                    json.dump({"timemory": {k: v}}, fh)
            f = lambda: GraphFrame.from_timemory(dd, select)  # noqa: E731
        else:
            p = write(rec, "t.json", json.dumps({"timemory": doc}))
            made.append(p)
            if how == "file":
                f = lambda: GraphFrame.from_timemory(p, select)  # noqa: E731
            else:
                def f():
                    with open(p) as fh:
                        return GraphFrame.from_timemory(fh, select)
        rec.op("timemory", [], {"doc": {"metrics": metrics}}, f)


# ------------------------------------------------------------ C28
SPOT = ["m", "m#inclusive", "inclusive#sum#time", "avg#time", "inclusive (inc)", "note", "hits"]


def spot_run(rng, attrs):
    """one run: (region profile, metadata, abstract document)"""
    names = rng.choice([["a", "b"], ["a", "b", "c", "main", "solve mesh", ""], ["main", "a.b", "x:1", "-"]])
    paths, prof, recs = [], {}, []
    for _ in range(rng.randint(1, 8)):
        if paths and rng.random() < 0.6:
            path = rng.choice(paths) + [rng.choice(names)]
        else:
            path = [rng.choice(names) for _ in range(rng.randint(1, 4))]
        if path not in paths:
            paths.append(path)
    rng.shuffle(paths)
    if rng.random() < 0.3:
        paths.insert(rng.randrange(len(paths) + 1), [""])
    ks = rng.sample(SPOT, rng.randint(1, 4))
    for path in paths:
        if "/".join(path) in prof:
            continue
        vals, d = [], {}
        mine = [k for k in ks if rng.random() < 0.8] or ks[:1]
        rng.shuffle(mine)
        for k in mine:
            ty = attrs.get(k, {}).get("type", "string")
            v = float(rng.randint(0, 99)) if ty != "double" or rng.random() < 0.5 else rng.randint(-9, 99) / 4.0
            if ty in ("int", "uint"):
                v = int(v)
            raw = v
            if rng.random() < 0.4:
                raw = str(v) if ty != "double" or rng.random() < 0.5 else "%.6f" % v
            d[k] = raw
            vals.append({"k": k, "raw": Cell(raw), "num": Cell(v)})
        prof["/".join(path)] = d
        recs.append({"path": list(path), "vals": vals})
    if not any(r["path"] != [""] for r in recs):
        return spot_run(rng, attrs)
    md = rng.choice([{}, {"launchdate": 123456789}, {"cluster": "x", "figure_of_merit": 42.5, "l": [1, 2]}])
    return prof, dict(md, run=rng.randint(0, 99)), recs


class FakeDB(object):
    def __init__(self, runs, prof, md, attrs):
        self.runs, self.prof, self.md, self.attrs = runs, prof, md, attrs

    def get_all_run_ids(self):
        return list(self.runs)

    def get_regionprofiles(self, ids):
        return {i: self.prof[i] for i in sorted(ids, key=str, reverse=True) if i in self.prof}

    def get_global_data(self, ids):
        return {i: self.md[i] for i in sorted(ids, key=str) if i in self.md}

    def get_metric_attribute_metadata(self):
        return self.attrs


@driver("C28")
class C28(Base):
    def scenario(self, rec, rng, name):
        import sys
        import types
        from hatchet.readers.spotdb_reader import SpotDatasetReader, SpotDBReader

        ops.begin(rec, name, ranks=True)
        attrs = {}
        for k in SPOT:
            if rng.random() < 0.7:
                attrs[k] = {}
                if rng.random() < 0.85:
                    attrs[k]["type"] = "string" if k == "note" else rng.choice(["double", "double", "int", "uint", "string"])
                if rng.random() < 0.4:
                    attrs[k]["alias"] = {"m#inclusive": "M", "inclusive#sum#time": "Total time", "avg#time": "Avg (inc)"}.get(k, "The " + k)
        enc = {k: {"type": v.get("type", "string"), "alias": v.get("alias", "")} for k, v in attrs.items()}
        ids = rng.sample(range(1, 30), rng.choice([1, 1, 2, 3, 4]))
        if rng.random() < 0.3:
            ids = ["run%d" % i for i in ids]
        data = {i: spot_run(rng, attrs) for i in ids}
        dm = "Total time (inc)"
        if rng.random() < 0.35:
            i = ids[0]
            prof, md, recs = data[i]
            if rng.random() < 0.5:
                dm = rng.choice(["The hits", "m", "M (inc)", "hits", "name"])
            rd = SpotDatasetReader(prof, md, attrs)
            a = {"doc": {"recs": recs, "attrs": enc, "md": json.dumps(md, sort_keys=True)}, "dm": dm, "runs": 1, "want": 1}
            if rng.random() < 0.2:
                rd.read()
            rec.op("spot", [], a, (lambda: rd.read()) if dm == "Total time (inc)" else lambda: rd.read(dm))
            return
        db = FakeDB(ids, {i: data[i][0] for i in ids if rng.random() < 0.85}, {i: data[i][1] for i in ids}, attrs)
        want = None
        if rng.random() < 0.6:
            want = rng.sample(ids, rng.randint(1, len(ids)))
            if rng.random() < 0.3:
                want.insert(rng.randrange(len(want) + 1), "missing")
        asked = list(want) if want is not None else list(ids)
        found = [i for i in asked if i in db.prof]
        mod = types.ModuleType("spotdb")
        mod.connect = lambda key: {"db": db}[key]
        old = sys.modules.get("spotdb")
        sys.modules["spotdb"] = mod
        key = rng.choice([db, "db"])
        try:
            if rng.random() < 0.3:
                dm = rng.choice(["The hits", "m", "M (inc)", "hits"])
                gfs = SpotDBReader(key, want, dm).read()
            elif want is None and rng.random() < 0.5:
                gfs = GraphFrame.from_spotdb(key)
            else:
                gfs = GraphFrame.from_spotdb(key, want)
        except Exception as e:
            gfs = [e]
        finally:
            if old is None:
                del sys.modules["spotdb"]
            else:
                sys.modules["spotdb"] = old
        if gfs and isinstance(gfs[0], Exception):
            found = found or asked[:1]
        if len(gfs) != len(found) and found:
            gfs = list(gfs) + [ValueError("missing run")]
        for k, gf in enumerate(gfs):
            prof, md, recs = data[found[min(k, len(found) - 1)]] if found else ({}, {}, [])

            def one(gf=gf):
                if isinstance(gf, Exception):
                    raise gf
                return gf

            a = {"doc": {"recs": recs, "attrs": enc, "md": json.dumps(md, sort_keys=True)}, "dm": dm,
                 "runs": len(gfs), "want": len(found)}
            rec.op("spot", [], a, one)


# ------------------------------------------------------------ C29
def matrices(xs):
    m = lambda f: [[bool(f(a, b)) for b in xs] for a in xs]  # noqa: E731
    d = {"eq": m(lambda a, b: a == b), "ne": m(lambda a, b: a != b), "hash": m(lambda a, b: hash(a) == hash(b)),
         "n": len(set(xs))}
    return d


def orders(xs):
    m = lambda f: [[bool(f(a, b)) for b in xs] for a in xs]  # noqa: E731
    pos = {id(x): i + 1 for i, x in enumerate(xs)}
    return {"lt": m(lambda a, b: a < b), "gt": m(lambda a, b: a > b), "le": m(lambda a, b: a <= b),
            "ge": m(lambda a, b: a >= b), "sorted": [pos[id(x)] for x in sorted(xs)]}


@driver("C29")
class C29(Base):
    KEYS = ["name", "type", "file", "line", "module", "a", "Name", "opt"]
    VALS = ["a", "b", "main", "None", "", "x y", "B", "aa", "loop", "a'b"]

    def frames(self, rng, mixed):
        keys = rng.sample(self.KEYS, rng.randint(1, 4))
        vals = {k: rng.sample(self.VALS, rng.randint(1, 3)) for k in keys}
        if "line" in vals and rng.random() < 0.8:
            vals["line"] = rng.sample([0, 1, 2, 10, 101, -3], rng.randint(1, 3))
        if mixed and "opt" in vals:
            vals["opt"] = [None, 1, "x"]
        if "type" in vals and rng.random() < 0.5:
            vals["type"].append("None")
        out = []
        for _ in range(rng.randint(1, 5)):
            ks = [k for k in keys if rng.random() < 0.8] or keys[:1]
            rng.shuffle(ks)
            d = [(k, rng.choice(vals[k])) for k in ks]
            cut = rng.choice([0, len(d), rng.randint(0, len(d))])
            kw = d[cut:]
            d = d[:cut]
            if kw and rng.random() < 0.3:
                # keyword arguments override the dictionary
                k = kw[0][0]
                d = d + [(k, rng.choice(vals[k]))]
            out.append((d, kw))
        return out

    @staticmethod
    def make(f):
        d, kw = f
        if not kw:
            return Frame(dict(d))
        if not d:
            return Frame(**dict(kw))
        return Frame(dict(d), **dict(kw))

    def directed(self):
        def exhaustive(ks, vs):
            def go(rec, rng):
                # all frames over some attributes and values
                import itertools
                fs = [([(k, v) for k, v in zip(ks, c) if v], []) for c in itertools.product([""] + vs, repeat=len(ks)) if any(c)]
                rng.shuffle(fs)
                ops.begin(rec, "all-" + "-".join(ks), ranks=True)
                self.compare(rec, rng, fs, ks, True)
            return go
        return [("all-%s" % "-".join(k), exhaustive(k, v)) for k, v in
                ((["name", "type", "file"], ["x", "y", "None"]), (["type", "name"], ["None", "a", "b", "A"]))]

    def scenario(self, rec, rng, name):
        ops.begin(rec, name, ranks=True)
        if rng.random() < 0.04:
            rec.op("frames", [], {"fs": []}, lambda: Frame({}) if rng.random() < 0.5 else Frame())
            return
        mixed = rng.random() < 0.2
        fs = self.frames(rng, mixed)
        enc = self.enc(fs)
        # all the names and texts the specification may need a rank for
        extra = [val("type"), val("None"), val("name")]
        if rng.random() < 0.6:
            self.compare(rec, rng, fs, rng.sample(self.KEYS, rng.randint(1, 4)), not mixed)
        else:
            ids = [rng.randint(-1, 6) for _ in fs]
            out = {}

            def go():
                xs = [Node(self.make(f), hnid=i, depth=0) for f, i in zip(fs, ids)]
                p = Node(Frame(name="p"), hnid=50)
                for x in xs:
                    x.add_parent(p)
                    p.add_child(x)
                out.update(matrices(xs))
                out.update(orders(xs))
                out["foreign"] = any(x == y or not (x != y) for x in xs for y in (ids[0], "a", None, x.frame.attrs))
                try:
                    xs[0] < 3
                    out["unordered"] = ""
                except Exception as e:
                    out["unordered"] = type(e).__name__
                cs = [x.copy() for x in xs]
                out["copy"] = [rec.frame(c.frame) for c in cs]
                out["bare"] = all(c.parents == [] and c.children == [] and c is not x and c.frame is not x.frame
                                  for c, x in zip(cs, xs))
                out["str"] = [str(x) for x in xs]
                return out

            rec.op("nodes", [], {"fs": enc, "ids": ids, "extra": extra}, go)

    def compare(self, rec, rng, fs, names, order):
        out = {}

        def go():
            xs = [self.make(f) for f in fs]
            if order and rng.random() < 0.3:
                orders(xs)
            out.update(matrices(xs))
            if order:
                out.update(orders(xs))
            out["attrs"] = [rec.frame(x) for x in xs]
            cs = [x.copy() for x in xs]
            out["copies"] = [rec.frame(x) for x in cs]
            out["copyeq"] = all(a == b and hash(a) == hash(b) for a, b in zip(xs, cs))
            for c in cs:
                c.attrs["name"] = "changed"
                c.attrs["new"] = "x"
            out["after"] = [rec.frame(x) for x in xs]
            out["values"] = [[Cell(v) for v in x.values(names if rng.random() < 0.5 else tuple(names))] for x in xs]
            out["get"] = [[Cell(x.get(n)) for n in names] for x in xs]
            out["one"] = [[Cell(x[n] if n in x.attrs else x.values(n)) for n in names] for x in xs]
            out["str"] = [str(x) for x in xs]
            out["repr"] = [repr(x) for x in xs]
            return out

        extra = [val("type"), val("None"), val("name")]
        rec.op("frames", [], {"fs": self.enc(fs), "names": names, "order": order, "extra": extra}, go)

    @staticmethod
    def enc(fs):
        return [{"d": [(val(k), val(v)) for k, v in d], "k": [(val(k), val(v)) for k, v in kw]} for d, kw in fs]
