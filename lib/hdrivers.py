"""Scenario drivers for the readers of parallel profiles (C22-C24)."""
import json
import os
import shutil
import struct
from xml.sax.saxutils import quoteattr

import caliperreader
import numpy as np

import ops
from drivers import Base, driver
from hatchet.graphframe import GraphFrame
from rec import Cell


def num(rng, hi=40):
    return rng.randint(0, hi) / 4.0


# ------------------------------------------------------------ C22
PROCS = ["main", "<program root>", "foo", "bar(int, char*)", "std::vector<int>::push_back(int const&)", "MPI_Init", "operator&&", ""]
FILES = ["/usr/src/a.c", "b.c", "/usr/src/sub/a.c", "./lib/x.h", "<unknown file>"]
MODULES = ["/bin/app", "/lib/libc.so", "/lib/libmpi.so.1"]
HPCMETS = [
    ["CPUTIME (usec) (E)", "CPUTIME (usec) (I)"],
    ["CPUTIME (sec) (E)", "CPUTIME (sec) (I)"],
    ["CPUTIME (usec) (I)", "PAPI_TOT_CYC (E)", "PAPI_TOT_CYC (I)", "CPUTIME (usec) (E)"],
    ["PAPI_L2_TCM:Sum (E)", "PAPI_L2_TCM:Sum (I)"],
    ["REALTIME (usec) (I)", "REALTIME (usec) (E)", "GPUOP (sec) (E)"],
]


def hpc_tree(rng, nmax):
    """elements in document order: dict(d, tag, l, n, f, lm)"""
    els = []
    left = [rng.randint(1, nmax)]
    nodup = rng.random() < 0.6

    def el(d, tag, used):
        left[0] -= 1
        for _ in range(20):
            e = {"d": d, "tag": tag, "l": rng.choice([0, 0, 1, 7, 12, 30]), "n": "", "f": "", "lm": ""}
            if tag in ("PF", "Pr"):
                e["n"] = rng.choice(PROCS if tag == "Pr" else PROCS[:-1])
                e["lm"] = rng.choice(MODULES)
            if tag in ("PF", "Pr", "L"):
                e["f"] = rng.choice(FILES)
            k = (tag, e["n"], e["f"] if tag == "L" else "", e["l"] if tag in "CLS" else 0)
            if k not in used or not nodup:
                break
        used.add(k)
        els.append(e)
        kids = {"PF": ["C", "C", "L", "S", "S", "Pr"], "Pr": ["C", "L", "S", "Pr"], "L": ["C", "S", "S", "L", "Pr"],
                "C": ["PF", "PF"], "S": []}[tag]
        if tag == "Pr" and e["n"] == "":
            kids = ["C", "L", "Pr"]
        us = set()
        deep = rng.choice([0, 1, 1, 2, 3])
        for _ in range(deep if kids and d < 7 else 0):
            if left[0] > 0:
                el(d + 1, rng.choice(kids), us)

    us = set()
    for _ in range(rng.choice([1, 1, 2, 3])):
        left[0] = max(left[0], 1)
        el(0, "PF", us)
    return els


def hpc_db(rng, path):
    els = hpc_tree(rng, 9)
    # ids: all elements have one, in any order; other ids of the files stand for nothing
    nnodes = len(els) + rng.choice([0, 0, 1, 2])
    ids = rng.sample(range(1, nnodes + 1), len(els))
    if rng.random() < 0.6:
        ids.sort()
    for e, i in zip(els, ids):
        e["i"] = i
    mets = rng.choice(HPCMETS)
    nranks = rng.choice([1, 1, 2, 3, 11])
    cpu = rng.choice([1, 1, 1, 2, 3])
    gpu = rng.choice([0, 0, 0, 1, 2])
    threads = list(range(cpu)) + [500 + g for g in range(gpu)]

    def table(vals):
        v = list(vals)
        rng.shuffle(v)
        base = rng.randint(0, 20)
        return {x: str(base + j) for j, x in enumerate(v)}

    procs, files, mods = table(PROCS), table(FILES), table(MODULES)
    out = []

    def tbl(tag, item, t):
        out.append("<%s>" % tag)
        for n, i in t.items():
            out.append('<%s i="%s" n=%s/>' % (item, i, quoteattr(n)))
        out.append("</%s>" % tag)

    out.append('<?xml version="1.0"?><HPCToolkitExperiment version="2.0"><Header n="app"></Header>'
               '<SecCallPathProfile i="0" n="app"><SecHeader>')
    order = list(range(len(mets)))
    if rng.random() < 0.3:
        rng.shuffle(order)
    first = rng.choice([0, 9])
    out.append("<MetricDBTable>")
    for j in order:
        out.append('<MetricDB i="%d" n=%s t="exclusive"/>' % (first + j, quoteattr(mets[j])))
    out.append("</MetricDBTable>")
    tbl("LoadModuleTable", "LoadModule", mods)
    tbl("FileTable", "File", files)
    tbl("ProcedureTable", "Procedure", procs)
    out.append("</SecHeader><SecCallPathProfileData>")
    if rng.random() < 0.5:
        out.append('<M n="0" v="1.5"/>')
    stack = []
    for e in els:
        while len(stack) > e["d"]:
            out.append("</%s>" % stack.pop())
        a = 'i="%d" s="%d" l="%d"' % (e["i"], rng.randint(1, 99), e["l"])
        if e["tag"] in ("PF", "Pr"):
            a += ' n="%s" lm="%s"' % (procs[e["n"]], mods[e["lm"]])
        if e["f"]:
            a += ' f="%s"' % files[e["f"]]
        out.append("<%s %s>" % (e["tag"], a))
        stack.append(e["tag"])
        if rng.random() < 0.3:
            out.append('<M n="0" v="2.5"/>')
    while stack:
        out.append("</%s>" % stack.pop())
    out.append("</SecCallPathProfileData></SecCallPathProfile></HPCToolkitExperiment>")
    os.makedirs(path)
    with open(os.path.join(path, "experiment.xml"), "w") as f:
        f.write("\n".join(out))
    fdoc = []
    host = rng.choice(["a8c00270", "000000ff", "7f0101"])
    for r in range(nranks):
        for t in threads:
            v = np.array([[num(rng) for _ in mets] for _ in range(nnodes)], dtype=">f8")
            with open(os.path.join(path, "app-%06d-%03d-%s-%d-0.metric-db" % (r, t, host, 1000 + r)), "wb") as f:
                f.write(b"HPCPROF-metricdb__" + b"00.10" + b"b" + struct.pack(">ii", nnodes, len(mets)))
                f.write(v.tobytes())
            fdoc.append({"rank": r, "thread": t, "v": [[Cell(float(x)) for x in row] for row in v]})
    return {"els": els, "metrics": mets, "files": fdoc}


@driver("C22")
class C22(Base):
    def scenario(self, rec, rng, name):
        ops.begin(rec, name, ranks=True)
        p = os.path.join(rec.scratch, "hpct")
        try:
            doc = hpc_db(rng, p)
            rec.op("hpctoolkit", [], {"doc": doc}, lambda: GraphFrame.from_hpctoolkit(p))
        finally:
            shutil.rmtree(p, ignore_errors=True)


# ------------------------------------------------------------ C24
def tau_label(rng, i):
    """-> (text, [form, name, file, mod, l1, l2]); texts are distinct for distinct i"""
    form = rng.choice(["plain", "plain", "file", "file", "filetyped", "module", "unwindfile", "unwindmodule"])
    base = rng.choice(["foo", "main", "compute", "MPI_Send()", "std::vector<int>::at(int)", "void f(int, char **)"])
    f = rng.choice(["a.c", "/src/b.c", "/src/sub/kernel.cpp", "lulesh-util.cc", "/lib/libm.so"])
    a, b, c, d = rng.randint(1, 400), rng.randint(0, 9), rng.randint(401, 500), rng.randint(0, 9)
    a = a * 20 + i  # start lines tell labels apart
    k = rng.choice(["range", "point", "single"])
    lines, l1, l2 = {"range": ("{%d,%d}-{%d,%d}" % (a, b, c, d), a, c),
                     "point": ("{%d,%d}" % (a, b), a, b), "single": ("{%d}" % a, a, 0)}[k]
    lab = {"form": form, "name": "", "file": "", "mod": "", "l1": 0, "l2": 0}
    if form == "plain":
        lab["name"] = rng.choice(["%s%d", "[CONTEXT] %s%d", ".TAU %s%d", "[SAMPLE] %s%d"]) % (rng.choice(["foo", "MPI_Send()", "x y"]), i)
        return lab["name"], lab
    if form == "file":
        lab.update(name=base, file=f, l1=l1, l2=l2)
        return "%s C [{%s} %s]" % (base, f, lines), lab
    if form == "filetyped":
        lab.update(form="file", name="[%s] %s" % (rng.choice(["SAMPLE", "SUMMARY", "OpenMP"]), base), file=f, l1=l1, l2=l2)
        return "%s [{%s} %s]" % (lab["name"], f, lines), lab
    if form == "module":
        lab.update(name="[SAMPLE] fn%d" % i, mod=rng.choice(["/lib/libc.so.6", "/usr/bin/app"]))
        return lab["name"] + " " + lab["mod"], lab
    f = rng.choice(["/src/a.c", "/lib/libm.so", "a.c", "/lib/libc-2.17.so"])
    m = rng.choice([f, f, "/src/other.c", "/usr/bin/app", "libm.so"])
    if form == "unwindfile":
        nm = rng.choice(["foo", "bar(int, char)", "main"])
        lab.update(name=nm, file=f, mod=m, l1=l1, l2=l2)
        return "[UNWIND] %s [@] %s [{%s} %s]" % (f, nm, m, lines), lab
    lab.update(name="fn%d" % i, file=f, mod=m)
    return "[UNWIND] %s [@] fn%d %s" % (f, i, m), lab


def tau_dir(rng, path):
    nl = rng.randint(1, 6)
    texts, labels = [], []
    for i in range(nl):
        t, lab = tau_label(rng, i + 1)
        texts.append(t)
        labels.append(lab)
    roots = []
    for nm in rng.sample([".TAU application", "main", "thread root"], rng.choice([1, 1, 1, 2])):
        texts.append(nm)
        labels.append({"form": "plain", "name": nm, "file": "", "mod": "", "l1": 0, "l2": 0})
        roots.append(len(texts))
    # the union of callpaths
    paths = [[(r,)] for r in roots]
    for ps in paths:
        for _ in range(rng.randint(0, 7)):
            p = rng.choice(ps)
            q = p + (rng.randint(1, nl),)
            if q not in ps and len(q) < 6:
                ps.append(q)
    nr, nt = rng.choice([(1, 1), (1, 1), (3, 1), (1, 3), (2, 2), (12, 1), (3, 2)])
    r0, t0 = rng.choice([0, 0, 0, 1, 5]), rng.choice([0, 0, 0, 2])
    places = [(r0 + r, t0 + t) for r in range(nr) for t in range(nt)]
    if len(places) > 3 and rng.random() < 0.3:
        places.remove(rng.choice(places))
    metrics = rng.choice([["TIME"], ["CPU_TIME"], ["TIME", "PAPI_L2_TCM"], ["TIME", "PAPI_TOT_CYC", "PAPI_L1_DCM"]])
    profs, left = [], {p for ps in paths for p in ps}
    every = rng.random() < 0.3
    for n, (r, t) in enumerate(places):
        g = rng.randrange(len(roots)) if n >= len(roots) else n
        recs = []
        for p in paths[g]:
            if len(p) == 1 or every or rng.random() < 0.6:
                recs.append(p)
        profs.append([g, r, t, recs])
    used = {pr[0] for pr in profs}
    for pr in profs:
        for p in pr[3]:
            left.discard(p)
    for pr in profs:
        # whatever nobody recorded yet goes to one of them
        for p in list(left):
            if p in paths[pr[0]] and rng.random() < 0.5:
                pr[3].append(p)
                left.discard(p)
    for p in list(left):
        for pr in profs:
            if p in paths[pr[0]]:
                pr[3].append(p)
                break
    assert used
    events = rng.random() < 0.3
    flat = rng.random() < 0.7
    pad = rng.random() < 0.5

    def fmt(v):
        if v == int(v):
            return rng.choice(["%d" % v, "%d" % v, "%.3E" % v if v < 1000 else "%d" % v])
        return repr(v)

    sub = {m: os.path.join(path, "MULTI__" + m) if len(metrics) > 1 or rng.random() < 0.2 else path for m in metrics}
    for d in sub.values():
        os.makedirs(d, exist_ok=True)
    doc = []
    for g, r, t, recs in profs:
        rest = recs[1:]
        rng.shuffle(rest)
        recs = [recs[0]] + rest
        rows = [(p, rng.randint(1, 9), rng.randint(0, 9), [(num(rng), num(rng)) for _ in metrics]) for p in recs]
        doc.append({"rank": r, "thread": t, "recs": [
            {"p": list(p), "calls": Cell(c), "subrs": Cell(s), "v": [[Cell(x), Cell(y)] for x, y in v]} for p, c, s, v in rows]})
        blanks = [rng.choice([("", " => "), ("  ", "   => ")]) if pad else ("", " => ") for _ in rows]
        for j, m in enumerate(metrics):
            out = ["%d templated_functions_MULTI_%s" % (len(rows), m),
                   "# Name Calls Subrs Excl Incl ProfileCalls # <metadata><attribute><name>Metric Name</name><value>%s"
                   "</value></attribute><attribute><name>CPU Cores</name><value>16</value></attribute></metadata>" % m]
            for (p, c, s, v), (end, arrow) in zip(rows, blanks):
                nums = "%d %d %s %s 0" % (c, s, fmt(v[j][0]), fmt(v[j][1]))
                if flat and len(p) > 1:
                    out.append('"%s%s" %s GROUP="TAU_DEFAULT" ' % (texts[p[-1] - 1], end, nums))
                out.append('"%s%s" %s GROUP="%s" ' % (arrow.join(texts[k - 1] for k in p), end, nums,
                                                     "TAU_CALLPATH|MPI" if len(p) > 1 else "TAU_DEFAULT"))
            out.append("0 aggregates")
            if events:
                out += ["2 userevents", "# eventname numevents max min mean sumsqr", '"Message size for broadcast" 1 4 4 4 16',
                        '"Message size for broadcast : %s => MPI_Bcast()" 1 4 4 4 16' % texts[roots[g] - 1]]
            with open(os.path.join(sub[m], "profile.%d.0.%d" % (r, t)), "w") as f:
                f.write("\n".join(out) + "\n")
    return {"labels": labels, "metrics": metrics, "profs": doc}


@driver("C24")
class C24(Base):
    def scenario(self, rec, rng, name):
        ops.begin(rec, name, ranks=True)
        p = os.path.join(rec.scratch, "tau")
        try:
            doc = tau_dir(rng, p)
            rec.op("tau", [], {"doc": doc}, lambda: GraphFrame.from_tau(p))
        finally:
            shutil.rmtree(p, ignore_errors=True)


# ------------------------------------------------------------ C23
LABELS = ["main", "foo", "bar", "MPI_Send", "lulesh.cycle", "x y", "", "a:1", "main"]
ADDR = "source.function#callpath.address"
LOC = "sourceloc#cali.sampler.pc"
META = [("cali.caliper.version", "2.10.0-dev"), ("iterations", "10"), ("user", "me"), ("cluster", ["a", "b"]),
        ("problem", {"size": 3}), ("n", 5), ("cmdline", "[./app,-i,10]")]


def cali_json(rng):
    both = rng.random() < 0.25
    pn = ADDR if both or rng.random() < 0.4 else "path"
    lines = rng.random() < 0.35
    ranks = rng.choice([0, 0, 0, 2, 3, 11])
    ordered = not both and not lines and rng.random() < 0.3
    # the nodes section
    nodes, byc = [], {}

    def node(col, label, parent=0, file="", line=""):
        nodes.append({"label": label, "col": col, "parent": parent, "file": file, "line": line})
        byc.setdefault(col, []).append(len(nodes))
        return len(nodes)

    todo = [pn] * rng.randint(1, 8)
    if both:
        todo += ["path"] * rng.randint(1, 3)
    modules = rng.random() < 0.4
    if modules:
        todo += ["module#cali.sampler.pc"] * 2
    if lines:
        todo += [LOC] * rng.randint(1, 4)
    todo += ["other"] * rng.choice([0, 0, 2])
    if rng.random() < 0.7:
        rng.shuffle(todo)
    nroots = rng.choice([1, 1, 1, 2])
    seen = set()
    for c in todo:
        if c == LOC:
            f, ln = rng.choice(FILES + ["C:/a.c"]), str(rng.choice([1, 7, 12, 30, 7]))
            if (f, ln) not in seen:
                seen.add((f, ln))
                node(c, f + ":" + ln, 0, f, ln)
        elif c == "module#cali.sampler.pc":
            node(c, rng.choice(MODULES))
        else:
            have = byc.get(c, [])
            par = rng.choice(have) if have and (len(have) >= nroots or rng.random() < 0.5) else 0
            lab = rng.choice(LABELS) if rng.random() < 0.4 else "f%d" % len(nodes)
            if rng.random() < 0.8 and any(nodes[j - 1]["label"] == lab and nodes[j - 1]["parent"] == par for j in have):
                lab = "g%d" % len(nodes)
            node(c, lab, par)
    # the columns
    mets = rng.choice([["time"], ["sum#time.duration", "inclusive#sum#time.duration"], ["count", "time", "time (inc)"],
                       ["sum#avg#inclusive#sum#time.duration"], ["max#avg (inc)", "avg#x"], ["count", "sum#avg#sum#time.duration"]])
    cols = [(pn, False)] + [(c, True) for c in mets]
    if both:
        cols.append(("path", False))
    if ranks:
        cols.append(("mpi.rank", True))
    if modules:
        cols.append(("module#cali.sampler.pc", False))
    if lines:
        cols.append((LOC, False))
    if ordered:
        cols.append(("Node order", True))
    if rng.random() < 0.8:
        rng.shuffle(cols)
    # the records
    place = {i: k for k, i in enumerate(rng.sample(byc[pn], len(byc[pn])))}
    recs = []

    def record(i, r, loc):
        row = {}
        for c, isv in cols:
            if c == pn:
                row[c] = i
            elif c == "mpi.rank":
                row[c] = r
            elif c == LOC:
                row[c] = loc
            elif c == "Node order":
                row[c] = place[i] if i else 0
            elif isv:
                row[c] = None if not both and rng.random() < 0.06 else (rng.randint(0, 9) if "count" in c else num(rng))
            else:
                row[c] = rng.choice(byc.get(c, []) + [None]) if rng.random() < 0.9 else None
        recs.append(row)

    for i in byc[pn]:
        ls = rng.sample(byc[LOC], min(len(byc[LOC]), rng.choice([1, 1, 2, 3]))) if lines else [None]
        for r in range(max(ranks, 1)):
            for loc in ls:
                for _ in range(rng.choice([1, 2]) if both else 1):
                    if rng.random() < 0.65:
                        record(i, r, loc)
    have = {row.get("mpi.rank", 0) for row in recs}
    for r in range(max(ranks, 1)):
        if r not in have:
            record(byc[pn][0], r, byc[LOC][0] if lines else None)
    for _ in range(rng.choice([0, 0, 1, 2])):
        record(None, rng.randint(0, 30), byc[LOC][0] if lines else None)
    if rng.random() < 0.6:
        rng.shuffle(recs)
    meta = dict(rng.sample(META, rng.randint(0, len(META))))
    js = {"data": [[row[c] if isv or row[c] is None else row[c] - 1 for c, isv in cols] for row in recs],
          "columns": [c for c, _ in cols],
          "column_metadata": [{"is_value": isv} for _, isv in cols],
          "nodes": [dict({"label": n["label"], "column": n["col"]}, **({"parent": n["parent"] - 1} if n["parent"] else {})) for n in nodes]}
    js.update(meta)
    doc = {"nodes": nodes, "cols": [{"name": c, "value": isv} for c, isv in cols],
           "rows": [[Cell(row[c]) for c, _ in cols] for row in recs], "md": json.dumps(meta, sort_keys=True)}
    return js, doc


# name -> (type, props, alias); properties: 1 as value, 256 nested, 64 async events
CALI_ATTRS = {
    "sum#time.duration": ("double", 65, ""), "inclusive#sum#time.duration": ("double", 65, ""),
    "avg#inclusive#sum#time.duration": ("double", 65, "Avg time/rank (inc)"), "min#x": ("uint", 193 - 128, "Min x"),
    "count": ("int", 65, ""), "avg#inclusive#x": ("double", 1, "x incl"), "sum#y (inc)": ("double", 1, ""),
    "addr#z": ("addr", 1, ""), "flag": ("bool", 1, ""), "mode": ("int", 64, "Mode"), "note": ("string", 64, ""),
    "host": ("string", 64, "Host name"), "min#min#aggregate.slot": ("uint", 1, "Node order"), "aggregate.slot": ("uint", 1, ""),
    "mpi.rank": ("int", 1, ""), "spot.channel": ("string", 64, ""), "loop.iterations": ("int", 65, ""),
    "loop.start_iteration": ("int", 1, ""), "timeseries.snapshot": ("uint", 1, ""),
    "cupti.activity.kind": ("string", 64, ""), "cupti.kernel.name": ("string", 64, ""),
}
TYPEID = {"usr": 0, "int": 1, "uint": 2, "string": 3, "addr": 4, "double": 5, "bool": 6}


def esc(s):
    for a in "\\,=":
        s = s.replace(a, "\\" + a)
    return s.replace("\n", "\\n")


def render_attr(v):
    return ("true" if v else "false") if isinstance(v, bool) else str(v)


def cali_native(rng, series):
    pool = ["sum#time.duration", "inclusive#sum#time.duration", "avg#inclusive#sum#time.duration", "min#x", "count",
            "avg#inclusive#x", "sum#y (inc)", "addr#z", "flag", "mode", "note", "host"]
    use = rng.sample(pool, rng.randint(1, 5))
    if not any(CALI_ATTRS[c][1] & 1 for c in use):
        use.append("count")
    ranks = 0 if series else rng.choice([0, 0, 0, 2, 3, 11])
    ordered = rng.random() < 0.3
    slots = series or rng.random() < 0.2
    spot = not series and rng.random() < 0.25
    gpu = not series and rng.random() < 0.25
    paths = [("main",)]
    for _ in range(rng.randint(0, 7)):
        p = rng.choice(paths) + (rng.choice(["foo", "bar", "main", "a,b=c", "x y", "cycle"]),)
        if len(p) < 6 and p not in paths:
            paths.append(p)
    if rng.random() < 0.2:
        paths.append(("init",))
    for p in rng.sample(paths, rng.choice([0, 0, 1, 2]) if len(paths) > 2 else 0):
        if any(q != p and q[:len(p)] == p for q in paths):
            paths.remove(p)  # has no records of its own
    place = {p: k for k, p in enumerate(rng.sample(paths, len(paths)))}
    recs = []

    def value(c):
        t = CALI_ATTRS[c][0]
        return {"int": rng.randint(-5, 50), "uint": rng.randint(0, 50), "addr": rng.randint(0, 10 ** 6), "double": num(rng),
                "bool": rng.random() < 0.5, "string": rng.choice(["a", "b c", "n1"])}[t]

    def record(p, extra, act=("", ""), some=0.75):
        c = dict(extra)
        for n in use:
            if rng.random() < some:
                c[n] = value(n)
        ok = True
        if spot and rng.random() < 0.6:
            c["spot.channel"] = rng.choice(["regionprofile", "regionprofile", "timeseries"])
            ok = c["spot.channel"] == "regionprofile"
        if p and ordered and rng.random() < 0.9:
            c["min#min#aggregate.slot"] = place[p]
        if p and slots and rng.random() < 0.8:
            c["aggregate.slot"] = rng.randint(0, 9)
        if act[0]:
            c["cupti.activity.kind"] = act[1]
            if act[1] == "kernel":
                c["cupti.kernel.name"] = act[0]
        recs.append({"p": list(p), "act": act[0], "kind": act[1], "ok": ok, "c": c})

    if not series:
        for p in paths:
            for r in range(max(ranks, 1)):
                for _ in range(rng.choice([0, 1, 1, 1, 2])):
                    record(p, {"mpi.rank": r} if ranks else {})
                if gpu and rng.random() < 0.5:
                    record(p, {"mpi.rank": r} if ranks else {},
                           rng.choice([("memcpy", "memcpy"), ("void kern<int>(int, a)", "kernel"), ("kern2", "kernel")]))
        for r in range(ranks):
            if not any(x["ok"] and x["c"].get("mpi.rank") == r for x in recs):
                recs.append({"p": list(paths[0]), "act": "", "kind": "", "ok": True, "c": {"mpi.rank": r}})
        if rng.random() < 0.6:
            rng.shuffle(recs)
        if rng.random() < 0.4:
            record((), {"mpi.rank": 0} if ranks else {})
    else:
        first = rng.sample(paths, rng.randint(0, len(paths) - 1))
        for p in first:
            record(p, {"timeseries.snapshot": 0, "loop.iterations": 0})
        step = rng.choice([1, 20])
        for k in range(rng.randint(1, 4)):
            own = [p for p in paths if p not in first]
            own = rng.sample(own, rng.randint(1, len(own)))
            for p in paths:
                if p in own or (k == 0 and rng.random() < 0.7):
                    record(p, {"timeseries.snapshot": k + 1, "loop.iterations": step, "loop.start_iteration": k * step})
            if rng.random() < 0.3:
                record((), {"timeseries.snapshot": k + 1, "loop.iterations": step, "loop.start_iteration": k * step})
    if not any(x["p"] and x["ok"] and any(CALI_ATTRS[c][1] & 1 for c in x["c"] if c in use) for x in recs):
        n = [c for c in use if CALI_ATTRS[c][1] & 1][0]
        recs.insert(0, {"p": list(paths[0]), "act": "", "kind": "", "ok": True,
                        "c": dict({n: value(n)}, **({"mpi.rank": 0} if ranks else {}))})
    meta = {"cali.version": "2.9.1", "size": rng.randint(-9, 99), "fom": num(rng) + 0.25, "none": "",
            "libs": rng.choice([["a", "b", "c"], ["libm.so", "x y", "1"], ["one"]]), "text": "a, (b) [c]"}
    meta = {k: meta[k] for k in rng.sample(sorted(meta), rng.randint(1, len(meta)))}
    # the text
    out, nid, aid = [], [100], {}

    def emit(attr, data, parent=None):
        nid[0] += 1
        out.append("__rec=node,id=%d,attr=%d,data=%s%s" % (nid[0], attr, esc(data), "" if parent is None else ",parent=%d" % parent))
        return nid[0]

    aa = emit(8, "attribute.alias", emit(10, "64", 3))
    emit(8, "attribute.unit", emit(10, "64", 3))

    def attribute(name, typ, prop, alias):
        p = emit(10, str(prop), TYPEID[typ])
        if alias:
            p = emit(aa, alias, p)
        aid[name] = emit(8, name, p)

    blob = rng.random() < 0.2  # an attribute of a type that cannot be read is ignored
    if blob:
        attribute("blob", "usr", 1, "")
    names = sorted({c for x in recs for c in x["c"]} | {"loop.iterations", "loop.start_iteration", "timeseries.snapshot"})
    for n in names:
        attribute(n, *CALI_ATTRS[n])
    nested = ["function", "annotation"][:rng.choice([1, 2])]
    for n in nested:
        attribute(n, "string", 64 + 256, "")
    for n in meta:
        attribute(n, "string", 64 + 512, "")
    regions = {}

    def region(p):
        if not p:
            return None
        if p not in regions:
            regions[p] = emit(aid[rng.choice(nested)], p[-1], region(p[:-1]))
        return regions[p]

    for x in recs:
        refs = []
        top = region(tuple(x["p"]))
        vals = []
        for c, v in x["c"].items():
            if CALI_ATTRS[c][1] & 1:
                vals.append((c, v))
            else:  # properties that are no values hang on the tree
                top = emit(aid[c], render_attr(v), top)
        rng.shuffle(vals)
        if blob and rng.random() < 0.5:
            vals.append(("blob", "0xff"))
        line = "__rec=ctx"
        if top is not None:
            line += ",ref=%d" % top
        if vals:
            line += ",attr=" + "=".join(str(aid[c]) for c, v in vals) + ",data=" + "=".join(esc(render_attr(v)) for c, v in vals)
        out.append(line)
    g = None
    for k, v in meta.items():
        if isinstance(v, list):
            o, c = rng.choice(["[]", "()"])
            v = o + rng.choice([",", ", ", " , "]).join(v) + c
        g = emit(aid[k], str(v), g)
    out.append("__rec=globals,ref=%d" % g)
    attrs = {n: {"value": bool(CALI_ATTRS[n][1] & 1), "alias": CALI_ATTRS[n][2], "str": CALI_ATTRS[n][0] == "string"} for n in names}
    doc = {"attrs": attrs, "recs": [dict(x, c={k: Cell(v) for k, v in x["c"].items()}) for x in recs],
           "md": json.dumps(meta, sort_keys=True)}
    return "\n".join(out) + "\n", doc, names


@driver("C23")
class C23(Base):
    def scenario(self, rec, rng, name):
        ops.begin(rec, name, ranks=True)
        if rng.random() < 0.45:
            js, doc = cali_json(rng)
            p = os.path.join(rec.scratch, "c.json")
            with open(p, "w") as f:
                json.dump(js, f)

            def stream(mode):
                with open(p, mode) as f:
                    return GraphFrame.from_caliper(f)

            def converted():
                # a .cali file is converted by the first executable cali-query in the path
                q = "select * format json-split"
                dirs = [os.path.join(rec.scratch, d) for d in rng.sample(["bin1", "bin2", "bin3"], 3)]
                for d, mode, text in zip(dirs, (0o644, 0o755, 0o755),
                                         ("#!/bin/sh\nexit 1\n",
                                          '#!/bin/sh\n[ $# = 3 ] && [ "$1" = -q ] && [ "$2" = "%s" ] && exec /bin/cat "$3"\n' % q,
                                          "#!/bin/sh\nexit 1\n")):
                    os.makedirs(d)
                    with open(os.path.join(d, "cali-query"), "w") as f:
                        f.write(text)
                    os.chmod(os.path.join(d, "cali-query"), mode)
                c = p[:-len("json")] + "cali"
                os.rename(p, c)
                old = os.environ["PATH"]
                os.environ["PATH"] = os.pathsep.join([rec.scratch] + dirs)
                try:
                    return GraphFrame.from_caliper(c, q)
                finally:
                    os.environ["PATH"] = old
                    os.rename(c, p)
                    for d in dirs:
                        shutil.rmtree(d)

            def noquery():
                old = os.environ["PATH"]
                os.environ["PATH"] = rec.scratch
                try:
                    return GraphFrame.from_caliper(p[:-len("json")] + "cali", "format json-split")
                finally:
                    os.environ["PATH"] = old

            how = rng.choice(["name", "name", "text", "binary", "converted"])
            rec.op("caliper", [], {"doc": doc}, {"name": lambda: GraphFrame.from_caliper(p), "text": lambda: stream("r"),
                                                "binary": lambda: stream("rb"), "converted": converted}[how])
            if rng.random() < 0.03:
                rec.op("frombad", [], {"want": "ValueError"}, noquery)
        else:
            series = rng.random() < 0.3
            text, doc, names = cali_native(rng, series)
            p = os.path.join(rec.scratch, "c.cali")
            with open(p, "w") as f:
                f.write(text)
            strs = rng.choice([[], [], ["note"], ["note", "host"], ["host", "spot.channel"]])
            a = {"doc": doc, "strs": strs, "native": rng.random() < 0.3, "level": "", "part": 1, "parts": 1}
            kw = dict(native=a["native"], string_attributes=strs[0] if len(strs) == 1 else strs)

            def src():
                if rng.random() < 0.5:
                    return p
                r = caliperreader.CaliperReader()
                r.read(p)
                return r

            if not series or rng.random() < 0.2:
                for _ in range(rng.choice([1, 1, 2])):
                    s = src()
                    rec.op("calinative", [], a, lambda: GraphFrame.from_caliperreader(s, **kw))
            else:
                s = src()
                try:
                    gfs = GraphFrame.from_timeseries(s, **kw)
                except Exception as e:
                    gfs = [e]
                for k, gf in enumerate(gfs):
                    def one(gf=gf):
                        if isinstance(gf, Exception):
                            raise gf
                        return gf
                    rec.op("calinative", [], dict(a, level="loop.start_iteration", part=k + 1, parts=len(gfs)), one)
        os.remove(p)
