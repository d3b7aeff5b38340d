"""Scenario driver for the binding of notebook variables to visualizations (C30): a
real IPython shell and a real JavaScript engine with a stand-in for the page."""
import html.parser
import json
import os
import subprocess

import nbconv
import ops
from drivers import Base, driver

HERE = os.path.dirname(os.path.abspath(__file__))
CELLS = 6
VARS, JS = ["x", "y", "long_name"], ["u", "v", "w"]
TEXTS = ["", "a", "it's", 'say "hi"', "back\\slash", "two\nlines", "\\n", "tab\tend", "'", "\"'\\", "${x}", "{y}", "ü€", "</script>", "#5"]


class Notebook(object):
    shell = None
    node = None

    def __init__(self):
        cls = Notebook
        if cls.shell is None:
            os.environ["IPYTHONDIR"] = os.path.join(os.getcwd(), "ipython")
            from IPython.core.displaypub import CapturingDisplayPublisher
            from IPython.core.interactiveshell import InteractiveShell
            from traitlets.config import Config

            c = Config()
            c.HistoryManager.enabled = False
            c.InteractiveShell.banner1 = ""
            cls.shell = InteractiveShell.instance(config=c)
            cls.shell.display_pub = CapturingDisplayPublisher()
            cls.shell.showtraceback = lambda *a, **k: None
            cls.node = subprocess.Popen(["node", os.path.join(HERE, "nbpage.js")], stdin=subprocess.PIPE,
                                        stdout=subprocess.PIPE, text=True, encoding="utf-8")
        from hatchet.external.roundtrip.roundtrip import manager

        self.errs, self.ran, self.page = [], [], {}
        for f in list(cls.shell.events.callbacks["post_run_cell"]):
            cls.shell.events.unregister("post_run_cell", f)
        cls.shell.reset(new_session=False)
        cls.shell.display_pub.outputs.clear()
        self.rt = manager.RoundTrip(ipy_shell=cls.shell)

        def changed(*a):
            try:
                self.rt.manage_jupter_change()
            except Exception as e:
                self.errs.append(type(e).__name__)

        cls.shell.events.register("post_run_cell", changed)
        cls.shell.user_ns.update({"RT": self.rt, "wrap": nbconv.wrap, "tag": nbconv.tag})
        self.outputs()
        self.src = {}
        self.send(reset=os.path.join(os.path.dirname(manager.__file__), "roundtrip.js"), cells=CELLS)

    def send(self, **c):
        """one command to the page; returns what it wants the kernel to do"""
        c["names"] = JS
        n = Notebook.node
        n.stdin.write(json.dumps(c) + "\n")
        n.stdin.flush()
        r = json.loads(n.stdout.readline())
        self.page = r["js"]
        self.errs += r["errs"]
        return r["acts"]

    def outputs(self):
        o = list(Notebook.shell.display_pub.outputs)
        Notebook.shell.display_pub.outputs.clear()
        return [x["data"] for x in o]

    def run_cell(self, c, code, user=True):
        """the user executes a cell, which thereby becomes the selected one, or the page does"""
        r = Notebook.shell.run_cell(code, store_history=True)
        e = r.error_before_exec or r.error_in_exec
        if e is not None:
            self.errs.append("%s: %s" % (type(e).__name__, e))
        acts = []
        for d in self.outputs():
            if "application/javascript" in d:
                acts += self.send(run=d["application/javascript"], **({"cell": c} if user else {}))
        return acts

    def serve(self, acts):
        """the kernel works through what the page asked for"""
        acts = list(acts)
        again = bool(acts)
        while acts:
            a = acts.pop(0)
            if "exec" in a:
                r = Notebook.shell.run_cell(a["exec"], store_history=False, silent=True)
                e = r.error_before_exec or r.error_in_exec
                if e is not None:
                    self.errs.append("%s: %s" % (type(e).__name__, e))
            else:
                for c in a["cells"]:
                    self.ran.append(c)
                    if len(self.ran) > 200:
                        self.errs.append("endless re-execution")
                        return
                    if c in self.src:
                        acts += self.run_cell(c, self.src[c], user=False)
        if again:
            self.send(done=1)

    def observe(self, rec, op, a):
        ns = {}
        for k in VARS:
            if k in Notebook.shell.user_ns:
                ns[k] = value(Notebook.shell.user_ns[k])
        rec.add(op, [], a, out={"ns": ns, "js": dict(self.page), "ran": self.ran, "errs": self.errs})
        self.errs, self.ran = [], []


def value(v):
    if v is None:
        return {"k": "none", "t": ""}
    if isinstance(v, str):
        return {"k": "str", "t": v}
    if isinstance(v, bool):
        return {"k": "bool", "t": str(v)}
    if isinstance(v, (int, float)):
        return {"k": "num", "t": str(v)}
    return {"k": "json", "t": v.to_json() if hasattr(v, "to_json") else json.dumps(v)}


def some_value(rng):
    r = rng.random()
    if r < 0.15:
        return rng.randint(-3, 400)
    if r < 0.2:
        return None
    if r < 0.7:
        return "".join(rng.choice(TEXTS) for _ in range(rng.choice([1, 1, 2])))
    if r < 0.85:
        return [rng.choice(TEXTS) for _ in range(rng.randint(0, 2))] + [rng.randint(0, 9)]
    return {rng.choice(TEXTS): rng.choice([1, None, [rng.choice(TEXTS)], 2.5])}


class Markup(html.parser.HTMLParser):
    def __init__(self):
        super().__init__()
        self.scripts, self.marks, self.inside = [], [], False

    def handle_starttag(self, tag, attrs):
        d = dict(attrs)
        self.inside = tag == "script" and not d.get("id", "").startswith("script-")
        if tag == "link":
            self.marks.append("link " + d.get("href", ""))
        elif tag == "div" and not d.get("id", "").startswith("locator-"):
            self.marks.append("div " + d.get("id", ""))
        if self.inside:
            self.scripts.append("")

    def handle_endtag(self, tag):
        self.inside = False

    def handle_data(self, data):
        if self.inside:
            self.scripts[-1] += data


@driver("C30")
class C30(Base):
    def bind(self, nb, rec, cell, b):
        arg = ("?" if b["ask"] else "") + b["var"]
        kw = ""
        if b["watch"] is not None:
            kw += ", watch=%r" % bool(b["watch"])
        if b["pc"] != "default":
            kw += ", to_js_converter=%s" % b["pc"]
        if b["fc"] != "default":
            kw += ", from_js_converter=%s" % b["fc"]
        code = "RT.load_web_files([])\nRT.var_to_js(%r, %r%s)\nRT.initialize()" % (arg, b["js"], kw)
        nb.src[cell] = code
        nb.serve(nb.run_cell(cell, code))
        nb.observe(rec, "nb.bind", {"cell": cell, "b": dict(b, watch=bool(b["watch"]))})

    def data(self, nb, rec, cell, js, v, pc, fc):
        kw = (", to_js_converter=%s" % pc if pc != "default" else "") + (", from_js_converter=%s" % fc if fc != "default" else "")
        code = "RT.load_web_files([])\nRT.data_to_js(%r, %r%s)\nRT.initialize()" % (v, js, kw)
        nb.serve(nb.run_cell(cell, code))
        nb.observe(rec, "nb.data", {"cell": cell, "js": js, "v": value(v), "pc": pc, "fc": fc})

    def assign(self, nb, rec, code, sets):
        nb.serve(nb.run_cell(0, code))
        nb.observe(rec, "nb.assign", {"sets": {k: value(v) for k, v in sets.items()}})

    def jsset(self, nb, rec, js, click, t):
        nb.serve(nb.send(js=js, click=click, text=t))
        nb.observe(rec, "nb.jsset", {"js": js, "click": click, "t": t})

    def fetch(self, nb, rec, js, var, fc):
        kw = ", converter=%s" % fc if fc != "default" else ""
        nb.serve(nb.run_cell(0, "RT.load_web_files([])\nRT.fetch_data(%r, %r%s)" % (js, var, kw)))
        nb.observe(rec, "nb.fetch", {"js": js, "var": var, "fc": fc})

    def load(self, nb, rec, rng, files):
        """a web page bundle, or separate files"""
        d = os.path.join(rec.scratch, "web")
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, "page%d.html" % rng.randint(0, 1))
        bodies = ["var s%d = %d;" % (i, rng.randint(0, 99)) for i in range(rng.randint(0, 3))]
        marks = ["box%d" % rng.randint(0, 99) for _ in range(rng.randint(0, 2))]
        out = Markup()
        if rng.random() < 0.6:
            names = []
            for i, b in enumerate(bodies):
                names.append(os.path.join(d, "s%d.js" % i))
                with open(names[-1], "w") as f:
                    f.write(b)
            with open(fn, "w") as f:
                f.write("<html><head>%s</head><body>%s</body></html>" % (
                    "".join('<script src="%s"></script>' % n for n in names),
                    "".join('<div id="%s"></div>' % m for m in marks)))
            a = {"file": os.path.basename(fn), "cached": rng.random() < 0.5, "keep": True, "scripts": bodies,
                 "markup": ["div " + m for m in marks]}
            kw = "" if a["cached"] and rng.random() < 0.5 else ", cache=%r" % a["cached"]
            code = "RT.load_webpack(%r%s)\nRT.initialize()" % (fn, kw)
        else:
            names, a = [], {"file": "", "cached": False, "keep": False, "scripts": [], "markup": []}
            for i in range(rng.randint(1, 4)):
                k = rng.choice(["js", "css", "html"])
                n = os.path.join(d, "f%d.%s" % (i, k))
                t = "q%d.%s" % (rng.randint(0, 99), k)
                with open(n, "w") as f:
                    f.write("var f%d = %d;\n" % (i, i) if k == "js" else "" if k == "css" else '<div id="%s"></div>' % t)
                names.append(n)
                if k == "js":
                    a["scripts"].append("var f%d = %d;\n" % (i, i))
                else:
                    a["markup"].append("link " + n if k == "css" else "div " + t)
            code = "RT.load_web_files(%r)\nRT.initialize()" % (names,)
        nb.shell.display_pub.outputs.clear()
        r = Notebook.shell.run_cell(code, store_history=True)
        if r.error_in_exec is not None:
            nb.errs.append(type(r.error_in_exec).__name__)
        js = []
        for o in nb.outputs():
            if "application/javascript" in o:
                js.append(o["application/javascript"])
            elif "text/html" in o:
                out.feed(o["text/html"])
        scripts = list(out.scripts)
        if js:
            t = "".join(js)
            t = t[t.find(";") + 1:]  # the statement that finds the cell's element
            want = "".join(a["scripts"])
            scripts = a["scripts"] if t == want else [t]
        rec.add("nb.load", [], a, out={"scripts": scripts, "markup": out.marks, "errs": nb.errs})
        nb.errs = []

    def directed(self):
        def rebind(rec, rng):
            nb = self.start(rec, "rebind")
            b = {"var": "x", "ask": True, "watch": True, "pc": "default", "fc": "default"}
            for cell, js in ((1, "u"), (2, "v"), (1, "u")):
                self.bind(nb, rec, cell, dict(b, js=js))
            self.assign(nb, rec, "x = 'new'", {"x": "new"})
            self.jsset(nb, rec, "v", 2, "from page")
            self.jsset(nb, rec, "u", 3, "elsewhere")

        def texts(rec, rng):
            for k, t in enumerate(TEXTS):
                nb = self.start(rec, "texts%d" % k)
                self.data(nb, rec, 1, "u", t, "default", "default")
                self.bind(nb, rec, 2, {"var": "x", "ask": True, "watch": True, "js": "v", "pc": "wrap", "fc": "tag"})
                self.assign(nb, rec, "x = %r" % t, {"x": t})
                self.jsset(nb, rec, "v", 2, t)
                self.fetch(nb, rec, "u", "y", "default")
                rec.end()

        def assigns(rec, rng):
            nb = self.start(rec, "assigns")
            self.bind(nb, rec, 1, {"var": "x", "ask": True, "watch": True, "js": "u", "pc": "default", "fc": "default"})
            for o in ["+", "-", "*", "//", "%", "&", "|", "^", "<<", ">>", "/", "**"]:
                self.assign(nb, rec, "x = 19", {"x": 19})
                self.assign(nb, rec, "x %s= 2" % o, {"x": eval("19 %s 2" % o)})

        return [("rebind", rebind), ("texts", texts), ("assigns", assigns)]

    def start(self, rec, name):
        ops.begin(rec, name)
        d = os.getcwd()
        os.chdir(rec.scratch)
        try:
            return Notebook()
        finally:
            os.chdir(d)

    def case(self, rec, rng, case, name):
        """a history of the design model: [op, arguments]"""
        nb = self.start(rec, name)
        for o in case["ops"]:
            if o["op"] == "nb.bind":
                self.bind(nb, rec, o["a"]["cell"], o["a"]["b"])
            elif o["op"] == "nb.assign":
                k = sorted(o["a"]["sets"])
                v = {i: o["a"]["sets"][i]["t"] for i in k}
                self.assign(nb, rec, "%s = %s" % (", ".join(k), ", ".join(repr(v[i]) for i in k)), v)
            elif o["op"] == "nb.jsset":
                self.jsset(nb, rec, o["a"]["js"], o["a"]["click"], o["a"]["t"])
            elif o["op"] == "nb.fetch":
                self.fetch(nb, rec, o["a"]["js"], o["a"]["var"], o["a"]["fc"])

    def scenario(self, rec, rng, name):
        nb = self.start(rec, name)
        pcs = {v: rng.choice(["default", "default", "wrap"]) for v in VARS}
        fcs = {v: rng.choice(["default", "tag"]) for v in VARS}
        # each binding cell always binds the same pair
        plan = {c: (rng.choice(VARS[:2] if rng.random() < 0.8 else VARS), rng.choice(JS)) for c in range(1, 5)}
        known = {}
        for _ in range(rng.randint(3, 12)):
            r = rng.random()
            if r < 0.35 or not nb.page:
                c = rng.choice(list(plan))
                ask = rng.random() < 0.8
                self.bind(nb, rec, c, {"var": plan[c][0], "js": plan[c][1], "ask": ask,
                                       "watch": rng.random() < 0.85 if ask else rng.choice([None, False, True]),
                                       "pc": pcs[plan[c][0]], "fc": fcs[plan[c][0]]})
            elif r < 0.42:
                self.data(nb, rec, rng.choice([0, 5]), rng.choice(JS), some_value(rng), rng.choice(["default", "wrap"]),
                          rng.choice(["default", "tag"]))
            elif r < 0.68:
                self.some_assign(nb, rec, rng, plan)
            elif r < 0.88:
                self.jsset(nb, rec, rng.choice(JS), rng.choice([1, 2, 3, 4, 5]), rng.choice(TEXTS) + rng.choice(TEXTS))
            elif r < 0.95:
                self.fetch(nb, rec, rng.choice(sorted(nb.page)), rng.choice(VARS), rng.choice(["default", "tag"]))
            else:
                self.load(nb, rec, rng, None)

    def some_assign(self, nb, rec, rng, plan):
        ns = Notebook.shell.user_ns
        v, w = rng.sample(VARS, 2)
        uses = {k: {j for p, j in plan.values() if p == k} for k in VARS}
        if uses[v] & uses[w]:
            # which of two variables a view of both shows is not determined
            w = "other"
        a, b = some_value(rng), some_value(rng)
        r = rng.random()
        old = ns.get(v)
        if 0.75 <= r < 0.95 and type(old) not in (int, float, str):
            r = 0.1
            a = rng.choice([7, 12, -5, 2.5])
        if r < 0.2:
            code, sets = "%s = %r" % (v, a), {v: a}
        elif r < 0.3:
            code, sets = "%s, %s = %r, %r" % (v, w, a, b), {v: a, w: b}
        elif r < 0.4:
            code, sets = "(%s,\n    # the other one\n    %s) = %r, %r" % (v, w, a, b), {v: a, w: b}
        elif r < 0.5:
            code, sets = "%s: object = %r" % (v, a), {v: a}
        elif r < 0.65:
            code, sets = "if True:\n    %s = (%r,\n        %r)[0]\nother = 3" % (v, a, b), {v: a}
        elif r < 0.75:
            code, sets = "%s = %s = %r" % (v, w, a), {v: a, w: a}
        elif r < 0.95:
            ops = ["+", "-", "*", "//", "%", "&", "|", "^", "<<", ">>", "/", "**"]
            if isinstance(old, str):
                o, k = rng.choice([("+", "'z'"), ("*", "2")])
            elif isinstance(old, float) or abs(old) > 10**6:
                o, k = rng.choice(["+", "-", "*", "//", "%", "/"]), "2"
            else:
                o, k = rng.choice(ops), "2"
            code = "%s %s= %s" % (v, o, k)
            env = {v: old}
            exec(code, {}, env)
            sets = {v: env[v]}
        elif r < 0.97 and v in ns:
            code, sets = "%s = %s" % (w, v), {w: ns[v]}
        elif v in ns:
            code, sets = rng.choice(["len(str(%s))", "%s == 3", "[%s]", "(%s)\nother = 3"]) % v, {}
        else:
            code, sets = "other = 4", {}
        sets.pop("other", None)
        self.assign(nb, rec, code, sets)
