"""C31: what a notebook view receives is what the notebook holds."""
import contextlib
import importlib.util
import json
import pandas as pd
import os
import shutil
import subprocess
import tempfile

import hatchet
import hatchet.external.roundtrip.roundtrip.manager as M
from .common import *

PROPERTY = "C31"
TEXTS = ["plain", "it's", 'say "hi"', "C:\\new\\table", "two\nlines", "\\'", "\r\n", "\u00e9\u2028", "</script>", "{x}"]


class Code:
    """Stands for the notebook's Javascript and HTML objects."""

    def __init__(self, data=None, *a, **k):
        self.data = data


class Js(Code):
    pass


class Html(Code):
    pass


class Handle:
    def __init__(self, n):
        self.display_id = "display-%d" % n

    def update(self, obj, **k):
        shown.append(obj)


shown = []


def display(*objs, **k):
    shown.extend(objs)
    return Handle(len(shown)) if k.get("display_id") else None


class Shell:
    def __init__(self):
        self.user_ns = {"_ih": [""]}
        self.events = self

    def register(self, *a):
        pass


@contextlib.contextmanager
def notebook():
    new = {"display": display, "Javascript": Js, "HTML": Html}
    old = {k: getattr(M, k) for k in new}
    for k, v in new.items():
        setattr(M, k, v)
    del shown[:]
    cwd, d = os.getcwd(), tempfile.mkdtemp(prefix="view-")
    os.chdir(d)
    try:
        sh = Shell()
        rt = M.RoundTrip(ipy_shell=sh)
        del shown[:]
        yield sh, rt
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)
        for k, v in old.items():
            setattr(M, k, v)


# -- a reader of the JavaScript assignments the bridge emits ------------------------
class Bad(Exception):
    pass


SIMPLE = {"n": "\n", "r": "\r", "t": "\t", "b": "\b", "f": "\f", "v": "\v", "0": "\0"}


def js_string(s, i):
    q = s[i]
    i += 1
    out = ""
    while True:
        if i >= len(s):
            raise Bad("unterminated string")
        c = s[i]
        if c == q:
            return out, i + 1
        if c in "\n\r" and q != "`":
            raise Bad("line end in a string")
        if c != "\\":
            out += c
            i += 1
            continue
        c = s[i + 1]
        if c == "u":
            if s[i + 2] == "{":
                j = s.index("}", i)
                out += chr(int(s[i + 3:j], 16))
                i = j + 1
            else:
                out += chr(int(s[i + 2:i + 6], 16))
                i += 6
        elif c == "x":
            out += chr(int(s[i + 2:i + 4], 16))
            i += 4
        elif c == "\n":
            i += 2
        else:
            out += SIMPLE.get(c, c)
            i += 2


def space(s, i):
    while i < len(s) and s[i].isspace():
        i += 1
    return i


def js_value(s, i):
    i = space(s, i)
    if s[i] in "'\"`":
        return js_string(s, i)
    if s[i] in "{[":
        close, out, i = ("}" if s[i] == "{" else "]"), ({} if s[i] == "{" else []), i + 1
        while True:
            i = space(s, i)
            if s[i] == close:
                return out, i + 1
            if close == "}":
                if s[i] in "'\"":
                    k, i = js_string(s, i)
                else:
                    j = i
                    while s[j].isalnum() or s[j] in "_$":
                        j += 1
                    if j == i:
                        raise Bad("key at %r" % s[i:i + 20])
                    k, i = s[i:j], j
                i = space(s, i)
                if s[i] != ":":
                    raise Bad("no colon at %r" % s[i:i + 20])
                out[k], i = js_value(s, i + 1)
            else:
                v, i = js_value(s, i)
                out.append(v)
            i = space(s, i)
            if s[i] == ",":
                i += 1
            elif s[i] != close:
                raise Bad("no comma at %r" % s[i:i + 20])
    j = i
    while j < len(s) and (s[j].isalnum() or s[j] in "+-."):
        j += 1
    word = {"true": True, "false": False, "null": None}
    if s[i:j] in word:
        return word[s[i:j]], j
    try:
        return float(s[i:j]), j
    except ValueError:
        raise Bad("value at %r" % s[i:i + 20])


def assignments(code):
    """[(view variable, value)] that a script assigns, in order; strings are skipped as strings."""
    out = []
    i = 0
    while i < len(code):
        if code.startswith("window.Roundtrip", i):
            k = space(code, i + len("window.Roundtrip"))
            if code[k] == "[":
                name, k = js_string(code, space(code, k + 1))
                k = space(code, k)
                if code[k] != "]":
                    raise Bad("no ] at %r" % code[k:k + 20])
                k = space(code, k + 1)
                if code[k] == "=" and code[k + 1] != "=":
                    v, i = js_value(code, k + 1)
                    i = space(code, i)
                    if i < len(code) and code[i] not in ";}":
                        raise Bad("after the value: %r" % code[i:i + 20])
                    out.append((name, v))
                    continue
        if code[i] in "'\"`":
            i = js_string(code, i)[1]
        else:
            i += 1
    return out


def received(inp):
    """Assignments of all scripts shown since the last call."""
    out = []
    for o in shown:
        if isinstance(o, Js):
            try:
                out += assignments(o.data)
            except (Bad, IndexError, ValueError) as e:
                inp.check("javascript", False, "not JavaScript: %s in %r" % (e, o.data[-400:]))
    del shown[:]
    inp.check("javascript", True)
    return out


_loader = []


def loader():
    if not _loader:
        f = os.path.join(os.path.dirname(hatchet.__file__), "vis", "loader.py")
        spec = importlib.util.spec_from_file_location("hatchet_vis_loader", f)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        _loader.append(mod)
    return _loader[0]


# -- harnesses ----------------------------------------------------------------------
def value_of(inp, kind, tag):
    """(value, what JSON.parse or the text itself has to give in the view)"""
    if kind == "str":
        v = inp.choice("text" + tag, TEXTS)
        return v, ("text", v)
    if kind == "number":
        v = inp.choice("number" + tag, [0, -3, 2.5])
        return v, ("text", str(v))
    if kind == "none":
        return None, ("json", {})
    if kind == "dict":
        v = {inp.choice("key" + tag, TEXTS[:4]): inp.real("x" + tag), "k": [inp.choice("text" + tag, TEXTS), True, None]}
        return v, ("json", v)
    if kind == "list":
        v = [inp.choice("text" + tag, TEXTS), {"y": inp.real("x" + tag)}]
        return v, ("json", v)
    df = pd.DataFrame({"a": [inp.choice("text" + tag, TEXTS), "b"], "n": [1, 2]})
    if kind == "frame":
        return df, ("json", {"a": {"0": df["a"][0], "1": "b"}, "n": {"0": 1, "1": 2}})
    return df["a"], ("json", {"0": df["a"][0], "1": "b"})


def same(inp, a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and list(a) == list(b) and all(same(inp, a[k], b[k]) for k in b)
    if isinstance(b, (list, tuple)):
        return isinstance(a, list) and len(a) == len(b) and all(same(inp, x, y) for x, y in zip(a, b))
    if isinstance(b, (bool, str)) or b is None:
        return type(a) is type(b) and a == b
    return not isinstance(a, (str, bool, dict, list)) and a is not None and bool(inp.eqv(a, b))


def check_data(inp, label, data, want, info=""):
    kind, w = want
    if not isinstance(data, str):
        inp.check(label, False, "the view's data is no string: %r %s" % (data, info))
        return
    if kind == "text":
        inp.check(label, data == w, "the view has %r, not %r %s" % (data, w, info))
        return
    try:
        got = json.loads(data)
    except ValueError as e:
        inp.check(label, False, "JSON.parse fails: %s %r %s" % (e, data, info))
        return
    inp.check(label, same(inp, got, w), "the view has %r, not %r %s" % (got, w, info))


def passed(inp):
    with notebook() as (sh, rt):
        with open("v.html", "w") as f:
            f.write("<div>view</div>")
        bid = rt.load_web_files(["v.html"])
        inp.check("view", bid == rt.last_id and bid in rt.bridges)
        del shown[:]
        v, want = value_of(inp, inp.choice("kind", inp.params["kinds"]), "")
        how = inp.choice("how", ["data", "var", "unknown"])
        if how == "data":
            rt.data_to_js(v, "tree_def")
        elif how == "var":
            sh.user_ns["gf"] = v
            rt.var_to_js("gf", "tree_def")
            inp.check("view", sh.user_ns["gf"] is v)
        else:       # a variable the notebook does not have yet
            rt.var_to_js("gf", "tree_def")
            inp.check("view", "gf" in sh.user_ns and sh.user_ns["gf"] is None)
            want = ("json", {})
        got = received(inp)
        inp.check("passed", len(got) == 1 and got[0][0] == "tree_def", "assigned %s" % [n for n, _ in got])
        if len(got) != 1:
            return
        o = got[0][1]
        check_data(inp, "passed", o.get("data"), want)
        inp.check("passed", o.get("origin") == "INIT" and o.get("two_way") is False and
                  o.get("python_var") == ("" if how == "data" else "gf"), str(o)[:300])
        conv = o.get("converter")
        ns = {}
        exec(conv["code"], ns)
        inp.check("passed", ns[conv["name"]]("back") == "back")


def tree_view(inp):
    """The call-tree view parses the literal form of the graphframe it is given."""
    p = inp.params
    n = p["n"]
    parents = tree_parents(inp, n, roots=p.get("roots", 1))
    names = [inp.choice("text%d" % i, TEXTS) if i < p["texts"] else "xyz"[i] for i in range(n)]
    g, nodes = build_graph(n, par_edges(parents), names)
    kind = inp.choice("column", ["real", "int", "both"])
    vals = {i: inp.metric("t%d" % i, ("fin",)) for i in range(n)}
    cols = {}
    if kind != "int":
        cols["time"] = lambda i, ex: vals[i]
    df = build_df(nodes, "node", cols, names)
    if kind != "real":
        import numpy as np
        df["count"] = np.array([3 * names.index(x) + 1 for x in df["name"]], dtype="int64")
    mets = [c for c in df.columns if c != "name"]
    gf = GraphFrame(g, df, mets, [])
    literal = p.get("literal") and inp.flag("literal")
    with notebook() as (sh, rt):
        L = loader()
        old = L.RT
        L.RT = rt
        try:
            with open("cct_bundle.js", "w") as f:
                f.write("draw(window.Roundtrip['hatchet_tree_def']);")
            with open("cct_bundle.html", "w") as f:
                f.write('<html><head></head><body><script src="cct_bundle.js"></script></body></html>')
            cct = L.CCT.__new__(L.CCT)
            cct.vis_dist = os.getcwd()
            sh.user_ns["gf"] = gf.to_literal() if literal else gf
            before = os.listdir(".")
            cct.cct("gf")
            inp.check("tree", sorted(os.listdir(".")) == sorted(before), "files %s" % os.listdir("."))
            html = [o for o in shown if isinstance(o, Html) and o.data]
            inp.check("view", len(html) == 1 and "draw(window.Roundtrip['hatchet_tree_def']);" in html[0].data, "shown %s" % len(html))
            got = received(inp)
            inp.check("tree", len(got) == 1 and got[0][0] == "hatchet_tree_def", "%s" % got)
            if len(got) == 1:
                check_data(inp, "tree", got[0][1].get("data"), ("json", gf.to_literal()))
        finally:
            L.RT = old


NODE = r"""
let told = [];
const IPython = {notebook: {kernel: {execute: (code) => told.push(code)}}};
const Jupyter = IPython;
const Roundtrip = JSON.parse(process.argv[1]);
const window = {Roundtrip: Roundtrip, IPython: IPython, Jupyter: Jupyter};
eval(process.argv[2]);
console.log(JSON.stringify(told));
"""


def twice(data):
    """A converter that a user wrote."""
    return [data, "'" + data + '\n"']


def fetched(inp):
    """What a view variable holds is assigned to the notebook variable by code that the notebook runs."""
    p = inp.params
    with notebook() as (sh, rt):
        for f in ("v.html", "w.html"):
            with open(f, "w") as fh:
                fh.write("<div>view</div>")
        rt.load_web_files(["v.html"])
        text, want = inp.choice("text", [
            ("plain", "plain"), ("{x} ${y}", "{x} ${y}"), ("</script> `", "</script> `"), ("", ""),
            # as the call-tree view writes its queries
            ('MATCH (\\"*\\")->(n) WHERE n.\\"node_id\\" = 3', 'MATCH ("*")->(n) WHERE n."node_id" = 3')])
        how = inp.choice("how", ["fetch", "converter", "cct"])
        src = "jsNodeSelected" if how == "cct" else inp.choice("source", ["jsNodeSelected", "other"])
        dest = inp.choice("dest", ["query", "x1"])
        del shown[:]
        if how == "cct":
            L = loader()
            old, L.RT = L.RT, rt
            try:
                L.CCT.__new__(L.CCT).cct_fetch_query(dest)
            finally:
                L.RT = old
        elif how == "fetch":
            rt.fetch_data(src, dest)
        else:
            rt.fetch_data(src, dest, converter=twice)
            want = twice(want)
        js = [o.data for o in shown if isinstance(o, Js)]
        inp.check("fetched", len(js) == 1, "%d scripts" % len(js))
        if len(js) != 1:
            return
        held = {"jsNodeSelected": "no", "other": "no", src: text}
        r = subprocess.run(["node", "-e", NODE, json.dumps(held), js[0]], capture_output=True, text=True)
        inp.check("fetched", r.returncode == 0, r.stderr[-300:])
        if r.returncode:
            return
        ns = {"query": "before", "x1": "before"}
        for code in json.loads(r.stdout):
            try:
                exec(code, ns)
            except Exception as e:
                inp.check("fetched", False, "%r in the notebook code %r" % (e, code))
                return
        other = "x1" if dest == "query" else "query"
        inp.check("fetched", ns[dest] == want and ns[other] == "before", "%s has %r, not %r" % (dest, ns[dest], want))


CELLS = {
    "a = {v}": ["a"],
    "a={v}": ["a"],
    "b = {v}": ["b"],
    "x = 1\nif x:\n    a = {v}\n": ["a"],
    "a += {v}": ["a"],
    "a[0] //= {v}": ["a"],
    "a.field = {v}": ["a"],
    "a[\n  0  # it\n] = {v}": ["a"],
    "b = 0; a = {v}": ["b", "a"],
    "print(a)\na = {v}": ["a"],
    "if a:\n    b = a\na -= {v}": ["b", "a"],
    "a, b = {v}": ["a", "b"],
    "for i in a:\n    b = [\n        {v}]\n": ["b"],
    "x = a": [],
    "print('a =', 3)": [],
    "a == b": [],
    "ab = {v}  # a = 1": [],
    "": [],
}


def watched(inp):
    p = inp.params
    with notebook() as (sh, rt):
        with open("v.html", "w") as f:
            f.write("<div>view</div>")
        rt.load_web_files(["v.html"])
        del shown[:]
        ns = sh.user_ns
        ns.update(a="a0", b="b0")
        bound, view = {}, {}          # python variable -> view variables; what each view variable holds
        cells = list(CELLS) if p.get("cells") is None else p["cells"]
        log = []
        for k in range(p["steps"]):
            op = inp.choice("op%d" % k, ["bind", "pass", "cell"])
            if op == "cell":
                cell = inp.choice("cell%d" % k, cells)
                log.append(cell)
                sets = CELLS[cell]
                new = inp.choice("new%d" % k, p["texts"]) if sets else ""
                for v in sets:
                    ns[v] = new + v
                ns["_ih"].append(cell.format(v="f(1, (2))"))
                rt.manage_jupter_change()
                got = received(inp)
                for name, o in got:
                    inp.check("update", o.get("origin") == "PYASSIGN" and name in bound.get(o.get("python_var"), ()),
                              "%s: %s = %r" % (log, name, o))
                    view[name] = (o.get("python_var"), o.get("data"))
                for v in sets:
                    for name in bound.get(v, ()):
                        inp.check("update", (name, ns[v]) in [(m, o.get("data")) for m, o in got if o.get("python_var") == v],
                                  "%s: %s has not got %r: %r" % (log, name, ns[v], got))
                for name, o in got:       # nothing but the present value of a variable that the cell mentions
                    v = o.get("python_var")
                    inp.check("update", o.get("data") == ns[v] and v in cell, "%s: %s = %r" % (log, name, o))
                continue
            v, name = inp.choice("var%d" % k, ["a", "b"]), inp.choice("view%d" % k, ["one", "two"])
            log.append((op, v, name))
            # one view variable belongs to one notebook variable
            inp.assume(all(name not in vs for w, vs in bound.items() if w != v))
            rt.var_to_js("?" + v if op == "bind" else v, name, watch=op == "bind")
            got = received(inp)
            inp.check("binding", [m for m, _ in got] == [name] and got[0][1].get("data") == ns[v]
                      and got[0][1].get("python_var") == v and got[0][1].get("two_way") is (op == "bind")
                      and got[0][1].get("origin") == "INIT", "%s: %r" % (log, got))
            if op == "bind":
                bound.setdefault(v, [])
                if name not in bound[v]:
                    bound[v].append(name)


def views(inp):
    """Views loaded from files: own element, all files in order, scripts run with the view's own element."""
    p = inp.params
    import re
    with notebook() as (sh, rt):
        body = {"one.html": "<p>one</p>", "two.html": "<p>two</p>", "s.css": "s.css", "a.js": "a();", "b.js": "var b = 'x';"}
        for f, t in body.items():
            with open(f, "w") as fh:
                fh.write(t)
        with open("pack.html", "w") as f:
            f.write('<html><head><title>t</title></head><body><script src="a.js"></script><p>pack</p><script src="b.js"></script></body></html>')
        ids, elements = [], []
        for k in range(p["views"]):
            how = inp.choice("how%d" % k, ["files", "pack", "pack-cached"])
            if how == "files":
                fs = [inp.choice("file%d_%d" % (k, j), list(body)) for j in range(inp.choice("n%d" % k, [1, 2, 3][:p["files"]]))]
                bid = rt.load_web_files(list(fs))
            else:
                fs = ["pack.html"]
                bid = rt.load_webpack("pack.html", cache=how == "pack-cached")
            inp.check("own-element", bid not in ids and bid in rt.bridges and rt.last_id == bid, "id %r of %s" % (bid, ids))
            ids.append(bid)
            del shown[:]
            rt.initialize()
            html = "".join(o.data for o in shown if isinstance(o, Html))
            js = "".join(o.data for o in shown if isinstance(o, Js))
            if how == "files":
                at = 0
                for f in fs:
                    if f.endswith(".js"):
                        continue
                    j = html.find(body[f], at)
                    inp.check("files", j >= 0, "%s: %s missing in %r" % (fs, f, html))
                    at = j + len(body[f])
                at = 0
                for f in fs:
                    if f.endswith(".js"):
                        j = js.find(body[f], at)
                        inp.check("files", j >= 0, "%s: %s missing in %r" % (fs, f, js))
                        at = j + len(body[f])
                inp.check("files", all(html.count(body[f]) == fs.count(f) for f in fs if not f.endswith(".js")) and
                          all(js.count(body[f]) == fs.count(f) for f in fs if f.endswith(".js")), "%s: %r %r" % (fs, html, js))
                where, own = js, html
            else:
                inp.check("files", "<p>pack</p>" in html and "<title>t</title>" in html and html.count("a();") == 1 and
                          html.count("var b = 'x';") == 1 and html.index("a();") < html.index("var b = 'x';") and "src=" not in html,
                          "pack: %r" % html)
                where = own = html
            m = re.search(r"getElementById\(\s*[\"']([^\"']+)[\"']\s*\)", where)
            inp.check("own-element", m is not None and re.search(r"id=[\"']%s[\"']" % re.escape(m.group(1)), own) is not None,
                      "element of %r" % (m and m.group(1)))
            if m:
                inp.check("own-element", m.group(1) not in elements, "view %d draws into %s, of an earlier view" % (k, m.group(1)))
                elements.append(m.group(1))
                if how == "files":
                    first = min([js.find(body[f]) for f in fs if f.endswith(".js")] or [len(js)])
                    inp.check("own-element", where.index(m.group(0)) < first, "the element is looked up after the scripts")
                else:
                    inp.check("own-element", html.index(m.group(0)) < html.index("a();"))


def harnesses(tier):
    q = tier == "quick"
    hs = []
    hs.append(H("passed", passed, ["javascript", "view", "passed"],
                "texts with quotes, backslashes, line ends, braces and markup, numbers, None, dictionaries and lists of them with any real "
                "number, tables and columns; given as data, as a notebook variable, or as one that does not exist",
                dict(kinds=["str", "number", "none", "dict", "list", "frame", "series"]), validate=40))
    hs.append(H("tree", tree_view, ["javascript", "view", "tree"], "%%cct of every tree of %d nodes, all those names for %d of them, "
                "any finite metric values, integer metrics" % ((3, 1) if q else (4, 2)), dict(n=3 if q else 4, texts=1 if q else 2), validate=20))
    hs.append(H("tree-roots", tree_view, ["javascript", "view", "tree"], "the same for two roots, or of their literal form", dict(n=2, texts=2, roots=2, literal=True), validate=10))
    hs.append(H("fetched", fetched, ["fetched"], "5 texts, two view variables and two notebook variables, default and user-written converters, "
                "%cct_fetch_query; the emitted script is run by node", {}, validate=5))
    L = ["javascript", "update", "binding"]
    one = ["a = {v}", "a, b = {v}", "x = a"]
    hs.append(H("watched", watched, L, "%d steps: two watched variables bound to two view variables, or passed once, and cells with %d kinds "
                "of code" % (3 if q else 4, len(one)), dict(steps=3 if q else 4, cells=one, texts=["v"]), validate=20))
    hs.append(H("cells", watched, L, "a binding and cells: %d kinds of code, new values with quotes, backslashes and line ends" % len(CELLS),
                dict(steps=2, texts=["v", "it's", "C:\\n", "1\n2"]), validate=20))
    hs.append(H("views", views, ["files", "own-element"], "%d views in a row, each of up to %d files (page, style, script) or a packed page, "
                "cached or not" % (2, 2 if q else 3), dict(views=2, files=2 if q else 3), validate=20))
    return hs


ASSUMPTIONS = ["the notebook's display, Javascript and HTML objects are stand-ins that record what is shown; the assignments in the emitted "
               "JavaScript are read by a small parser of JavaScript literals; the browser side (roundtrip.js) is not executed"]
