"""C23: the readers build the graph and the table their input describes."""
import contextlib
import importlib
import io
import json
import os
import pstats
import re
import sys
import tempfile
import types

from .graphs import *
from .c17 import same_literal

PROPERTY = "C23"
ASSUMPTIONS = [
    "numbers in JSON, DOT and TAU text are read exactly (symbolic values travel through the text as markers; "
    "replays and the validation sample write real numbers)",
    "native Caliper files are given as an object with the records, globals and attributes the caliperreader package yields",
    "cProfile statistics are given as the table pstats loads (replays and the validation sample write real marshal files)",
]


# ------------------------------------------------------------------ stand-ins
@contextlib.contextmanager
def text_file(name, text, mode="w"):
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, name)
        with open(f, mode) as h:
            h.write(text)
        yield f


# --------------------------------------------------------------------- oracle
def match_tree(inp, gf, n, edges, names, frame):
    """node_of[i]: the node of entry i.  Siblings may have equal frames, then any
    matching of the subtrees will do (values are compared by the caller)."""
    kids = {b for _, b in edges}
    ch = {i: [b for a, b in edges if a == i] for i in range(n)}
    inp.check("nodes", len(all_nodes(gf.graph)) == n, "%d nodes for %d entries" % (len(all_nodes(gf.graph)), n))
    node_of = {}

    def go(idx, nodes):
        inp.check("paths", len(idx) == len(nodes), "%d entries, %d nodes" % (len(idx), len(nodes)))
        used = []
        for i in idx:
            m = [x for x in nodes if not has(used, x) and x.frame.attrs == frame(i)]
            inp.check("paths", len(m) >= 1, "no node %r among %r" % (frame(i), [x.frame.attrs for x in nodes]))
            used.append(m[0])
            if i in node_of:
                inp.check("paths", node_of[i] is m[0], "entry %d became two nodes" % i)
                continue
            inp.check("paths", not has(node_of.values(), m[0]), "two entries became one node")
            node_of[i] = m[0]
            go(ch[i], list(m[0].children))
    go([r for r in range(n) if r not in kids], list(gf.graph.roots))
    check_links(inp, gf.graph, "links")
    return node_of


def check_rows(inp, gf, node_of, keys, index, cells, columns):
    """Exactly one row per (node, key); cells(i, key) -> {column: value}."""
    df = gf.dataframe
    inp.check("rows", list(df.index.names) == index, "index %r" % (list(df.index.names),))
    inp.check("rows", sorted(df.columns) == sorted(columns), "columns %r" % (sorted(df.columns),))
    rows = rows_of(df)
    inp.check("rows", len(rows) == len(node_of) * len(keys), "%d rows for %d nodes and %d keys" % (len(rows), len(node_of), len(keys)))
    for i, x in node_of.items():
        for key in keys:
            k = [j for j, (nd, ex) in enumerate(rows) if nd is x and tuple(ex) == key]
            inp.check("rows", len(k) == 1, "%d rows for entry %d %r" % (len(k), i, key))
            for col, want in cells(i, key).items():
                got = df[col].iloc[k[0]]
                ok = got is None or (not isinstance(got, P.SymNum) and pd.isna(got)) if want is None else \
                    (got == want if isinstance(want, (str, bool)) else inp.eqv(got, want))
                inp.check("values", ok, "%s of entry %d %r: %r, not %r" % (col, i, key, got, want))


def check_rows_rt(inp, gf, node_of, has_rec, procs, key, index, cells, columns):
    """With ranks and threads, rows are filled in for all threads of the ranks that have the node."""
    df = gf.dataframe
    want = [(i, q) for i in node_of for q in procs if any(has_rec[i, u] for u in procs if u[0] == q[0])]
    rows = rows_of(df)
    inp.check("rows", list(df.index.names) == index and sorted(df.columns) == sorted(columns), "%r %r" % (list(df.index.names), sorted(df.columns)))
    inp.check("rows", len(rows) == len(want), "%d rows, expected %d" % (len(rows), len(want)))
    for i, q in want:
        j = [j for j, (nd, ex) in enumerate(rows) if nd is node_of[i] and tuple(ex) == key[q]]
        inp.check("rows", len(j) == 1)
        for c, v in cells(i, key[q]).items():
            got = df[c].iloc[j[0]]
            inp.check("values", got == v if isinstance(v, str) else inp.eqv(got, v), "%s of entry %d %r: %r" % (c, i, q, got))


def check_lists(inp, gf, exc, inc, default=None):
    inp.check("metric-lists", sorted(gf.exc_metrics) == sorted(exc) and sorted(gf.inc_metrics) == sorted(inc),
              "%r %r" % (gf.exc_metrics, gf.inc_metrics))
    if default is not None:
        inp.check("metric-lists", gf.default_metric == default, "default %r" % (gf.default_metric,))
        inp.check("metric-lists", default in gf.dataframe.columns, "default %r is not a column" % (default,))


def check_ids(inp, gf):
    inp.check("ids", preorder_ok(gf.graph))
    depths_ok(inp, gf.graph, "ids")


def check_order(inp, gf, n, edges, node_of, perm, recorded):
    """The ids are a pre-order walk in which recorded siblings follow the order of the file."""
    inp.check("ids", sorted(x._hatchet_nid for x in node_of.values()) == list(range(n)))
    down = descend(n, edges)
    for i, x in node_of.items():
        inp.check("ids", sorted(node_of[j]._hatchet_nid for j in down[i]) == list(range(x._hatchet_nid, x._hatchet_nid + len(down[i]))),
                  "ids of the subtree of entry %d" % i)
    for s in siblings(n, edges):
        for a, b in itertools.combinations([i for i in s if i in recorded], 2):
            inp.check("ids", (perm[a] < perm[b]) == (node_of[a]._hatchet_nid < node_of[b]._hatchet_nid), "order of siblings %d and %d" % (a, b))
    depths_ok(inp, gf.graph, "ids")


def shape(inp, p):
    n = p["n"]
    if p["shape"] == "tree":
        edges = par_edges(tree_parents(inp, n, roots=p.get("roots", 1)))
    else:
        edges = dag_edges(inp, n, max_roots=p.get("max_roots"))
    names = [inp.choice("nm%d" % i, p["names"][i] if isinstance(p["names"], list) else p["names"]) for i in range(n)]
    return n, edges, names


def parents_of(n, edges):
    par = [None] * n
    for a, b in edges:
        par[b] = a
    return par


def path_of(par, i):
    out = []
    while i is not None:
        out.append(i)
        i = par[i]
    return out[::-1]


# --------------------------------------------------------------- Caliper JSON
def caliper(inp):
    p = inp.params
    n, edges, names = shape(inp, p)
    par = parents_of(n, edges)
    R = p.get("ranks", 0)
    both = p.get("both", False)
    keys = [(r,) for r in range(R)] if R else [()]
    has_rec = {(i, k): True if p.get("full") else inp.flag("rec%d%s" % (i, "".join(map(str, k)))) for i in range(n) for k in keys}
    inp.assume(any(has_rec.values()))
    if R:   # the ranks of the run are 0..the largest that occurs
        keys = keys[:1 + max(k[0] for (i, k), f in has_rec.items() if f)]
    mets = {"sum#time.duration": "time", "inclusive#sum#time.duration": "time (inc)"}
    if p.get("one"):
        mets = {"sum#time.duration": "time"}
    if p.get("variants"):
        mets = inp.choice("variant", [{"sum#avg#sum#time.duration": "time", "sum#avg#inclusive#sum#time.duration": "time (inc)"},
                                      {"sum#time.duration": "time", "max#inclusive#x (inc)": "max#inclusive#x (inc)", "y": "y"},
                                      {"inclusive#sum#time.duration": "time (inc)", "y": "y"}, {"sum#avg#inclusive#sum#time.duration": "time (inc)"}, {"y": "y"}])
    acol = p.get("attr") if isinstance(p.get("attr"), str) else "kind"
    aname = "module" if acol.startswith("module#") else acol
    path_col = "source.function#callpath.address" if (both or p.get("callpath")) else "path"
    # the nodes section: other hierarchies' entries before, between and after those of the path
    nodes_sec, pos = [], {}
    attr = p.get("attr")

    def other(label):
        nodes_sec.append({"label": label, "column": "other"})
        return len(nodes_sec) - 1
    first = other("io") if p.get("interleave") else None
    for i in range(n):
        e = {"label": names[i], "column": path_col}
        if par[i] is not None:
            e["parent"] = pos[par[i]]
        pos[i] = len(nodes_sec)
        nodes_sec.append(e)
        if p.get("interleave"):
            other("between%d" % i)
    kinds = {None: None}
    for nm in ("net", "disk"):
        kinds[nm] = other(nm)
    cols = [path_col] + (["mpi.rank"] if R else []) + list(mets) + ([acol] if attr else []) + (["path"] if both else []) + (["Node order"] if p.get("order") else [])
    meta = [{"is_value": False}] + ([{"is_value": True}] if R else []) + [{"is_value": True}] * len(mets) + \
        ([{"is_value": False}] if attr else []) + ([{"is_value": False}] if both else []) + ([{"is_value": True}] if p.get("order") else [])
    perm = None
    if p.get("order"):
        perm = inp.choice("order", [list(q) for q in itertools.permutations(range(n)) if all(q[a] < q[b] for a, b in edges)])
    vals, kind, data = {}, {}, []
    for i in range(n):
        for k in keys:
            if not has_rec[i, k]:
                continue
            reps = 1 if not both else inp.choice("reps%d%s" % (i, k), [1, 2])
            kind[i, k] = inp.choice("kind%d%s" % (i, k), [None, "net", "disk"]) if attr else None
            for q in range(reps):
                rec = [pos[i]] + list(k)
                for m, c in mets.items():
                    v = inp.metric("%s_%d%s_%d" % (c, i, "".join(map(str, k)), q), p.get("kinds", ("fin",)))
                    vals[c, i, k] = v if q == 0 else vals[c, i, k] + v
                    rec.append(v)
                if attr:
                    rec.append(kinds[kind[i, k]])
                if both:
                    rec.append(kinds["net"] if q == 0 else kinds["disk"])
                if perm:
                    rec.append(perm[i])
                data.append(rec)
    if p.get("nullpath"):
        data.insert(inp.choice("null", [0, len(data)]), [None] + [0] * (1 if R else 0) + [7.0] * len(mets) + ([kinds["net"]] if attr else []) + ([None] if both else []) + ([9] if perm else []))
    if p.get("shuffle"):
        data = [data[j] for j in inp.choice("recorder", [list(range(len(data))), list(range(len(data)))[::-1]])]
    doc = {"data": data, "columns": cols, "column_metadata": meta, "nodes": nodes_sec, "run": "r1", "cores": 4}
    gf = read_caliper(inp, doc)
    ty = "function" if path_col != "path" else "region"
    node_of = match_tree(inp, gf, n, edges, names, lambda i: {"name": names[i], "type": ty})
    if perm:
        # nodes without records have no place in the order
        check_order(inp, gf, n, edges, node_of, perm, [i for i in range(n) if any(has_rec[i, k] for k in keys)])
    else:
        check_ids(inp, gf)

    def cells(i, k):
        d = {"name": names[i]}
        for c in mets.values():
            d[c] = vals[c, i, k] if has_rec[i, k] else 0
        if attr:
            d[aname] = kind.get((i, k))
        if both:
            d["path"] = "net" if has_rec[i, k] else None
        return d
    columns = ["nid", "name"] + list(mets.values()) + ([aname] if attr else []) + (["path"] if both else [])
    check_rows(inp, gf, node_of, keys, ["node"] + (["rank"] if R else []), cells, columns)
    check_lists(inp, gf, [c for c in mets.values() if "(inc)" not in c], [c for c in mets.values() if "(inc)" in c])
    inp.check("metadata", gf.metadata == {"run": "r1", "cores": 4}, "metadata %r" % (gf.metadata,))


def read_caliper(inp, doc):
    """Read a document from a stream, from a file, or from what the cali-query found on the PATH says of a .cali file."""
    mode = inp.choice("input", inp.params.get("inputs", ["stream"]))
    text = json.dumps(doc)
    if mode == "stream":
        return GraphFrame.from_caliper(io.BytesIO(text.encode("utf-8")))
    with text_file("a.cali" if mode == "query" else "a.json", text) as f:
        if mode == "json":
            return GraphFrame.from_caliper(f)
        d = os.path.dirname(f)
        query = "select *, format json-split"
        for k, name in enumerate(["first", "second", "third"]):
            os.mkdir(os.path.join(d, name))
            exe = os.path.join(d, name, "cali-query")
            if k == 0:
                os.mkdir(exe)                   # a folder
            else:
                with open(exe, "w") as h:
                    h.write("#!/bin/sh\n[ $# = 3 ] && [ \"$1\" = -q ] && [ \"$2\" = '%s' ] && exec /bin/cat \"$3\"\n" % query)
                os.chmod(exe, 0o755 if k == 2 else 0o644)      # (the second may not be executed)
        dirs = [os.path.join(d, x) for x in ("absent", "first", "second", "third")]
        old = os.environ.get("PATH")
        try:
            os.environ["PATH"] = os.pathsep.join(dirs[:3])
            try:
                GraphFrame.from_caliper(f, query)
                inp.check("refused", False, "a .cali file is read without cali-query")
            except ValueError:
                inp.check("refused", True)
            os.environ["PATH"] = os.pathsep.join(dirs)
            return GraphFrame.from_caliper(f, query)
        finally:
            os.environ["PATH"] = old


def caliper_unnamed(inp):
    """Regions without a label get names that tell them apart."""
    n, edges, names = shape(inp, inp.params)
    par = parents_of(n, edges)
    nodes_sec = [dict({"label": names[i], "column": "path"}, **({"parent": par[i]} if par[i] is not None else {})) for i in range(n)]
    vals = [inp.metric("t%d" % i) for i in range(n)]
    doc = {"data": [[i, vals[i]] for i in range(n)], "columns": ["path", "sum#time.duration"],
           "column_metadata": [{"is_value": False}, {"is_value": True}], "nodes": nodes_sec}
    gf = GraphFrame.from_caliper(io.BytesIO(json.dumps(doc).encode("utf-8")))
    df = gf.dataframe
    inp.check("nodes", len(gf.graph) == n and len(df) == n, "%d nodes, %d rows" % (len(gf.graph), len(df)))
    got = {df["nid"].iloc[j]: (nd, df["name"].iloc[j], df["time"].iloc[j]) for j, nd in enumerate(df.index)}
    inp.check("rows", sorted(got) == list(range(n)), "%r" % sorted(got))
    for i in range(n):
        nd, nm, t = got[i]
        inp.check("values", inp.eqv(t, vals[i]))
        inp.check("nodes", nd.frame["name"] == nm and (nm == names[i] if names[i] else nm != ""), "%r named %r, in the table %r" % (names[i], nd.frame["name"], nm))
    blank = [got[i][1] for i in range(n) if not names[i]]
    inp.check("nodes", len(set(blank)) == len(blank), "regions without a label are named %r" % (blank,))


def caliper_lines(inp):
    """Samples with source locations: a node with several becomes the parent of one
    statement node per (file, line)."""
    p = inp.params
    n, edges, names = shape(inp, p)
    par = parents_of(n, edges)
    R, both = p.get("ranks", 0), p.get("both", False)
    keys = [(r,) for r in range(R)] if R else [()]
    path_col = "source.function#callpath.address"
    locs = p["locs"]
    nodes_sec = [{"label": l, "column": "sourceloc"} for l in locs]
    base = len(nodes_sec)
    for i in range(n):
        e = {"label": names[i], "column": path_col}
        if par[i] is not None:
            e["parent"] = base + par[i]
        nodes_sec.append(e)
    notes = [len(nodes_sec), len(nodes_sec) + 1]
    nodes_sec += [{"label": "net", "column": "path"}, {"label": "disk", "column": "path"}]
    where, vals, incs, data = {}, {}, {}, []
    for i in range(n):
        for l in range(len(locs)):
            for k in keys:
                tag = "%d_%d%s" % (i, l, "".join(map(str, k)))
                if not inp.flag("loc" + tag):
                    continue
                for q in range(inp.choice("reps" + tag, [1, 2]) if both else 1):
                    t = inp.metric("time%s_%d" % (tag, q), p.get("kinds", ("fin",)))
                    u = inp.metric("inc%s_%d" % (tag, q), p.get("kinds", ("fin",)))
                    vals[i, l, k] = t if q == 0 else vals[i, l, k] + t
                    incs[i, l, k] = u if q == 0 else incs[i, l, k] + u
                    data.append([base + i] + list(k) + [t, u, l] + ([notes[q]] if both else []))
        where[i] = [l for l in range(len(locs)) if any((i, l, k) in vals for k in keys)]
    inp.assume(len(data) > 0)
    if R:   # the ranks of the run are 0..the largest that occurs
        keys = keys[:1 + max(k[0] for i, l, k in vals)]
    if p.get("shuffle"):
        data = [data[j] for j in inp.choice("recorder", [list(range(len(data))), list(range(len(data)))[::-1]])]
    doc = {"data": data, "columns": [path_col] + (["mpi.rank"] if R else []) + ["sum#time.duration", "inclusive#sum#time.duration", "sourceloc#cali.sampler.pc"] + (["path"] if both else []),
           "column_metadata": [{"is_value": False}] + ([{"is_value": True}] if R else []) + [{"is_value": True}, {"is_value": True}, {"is_value": False}] + ([{"is_value": False}] if both else []),
           "nodes": nodes_sec}
    gf = GraphFrame.from_caliper(io.BytesIO(json.dumps(doc).encode("utf-8")))
    split = {l: (l.rsplit(":", 1)[0], l.rsplit(":", 1)[1]) for l in locs}
    es, frames, at, nm, parent = list(edges), {i: {"name": names[i], "type": "function"} for i in range(n)}, {}, dict(enumerate(names)), set()
    m = n
    for i in range(n):
        if len(where[i]) <= 1:
            at[i] = (i, where[i][0]) if where[i] else None
            continue
        at[i] = None
        parent.add(i)
        for l in where[i]:
            f, ln = split[locs[l]]
            es.append((i, m))
            frames[m] = {"type": "statement", "file": f, "line": ln}
            nm[m] = "%s:%s" % (os.path.basename(f), ln)
            at[m] = (i, l)
            m += 1
    node_of = match_tree(inp, gf, m, es, None, lambda i: frames[i])

    def cells(i, key):
        here = at[i] is not None and at[i] + (key,) in vals
        d = {"name": nm[i], "time": vals[at[i] + (key,)] if here else 0, "time (inc)": incs[at[i] + (key,)] if here else 0}
        if here:
            d.update(dict(zip(("file", "line"), split[locs[at[i][1]]])))
        elif i not in parent:
            d.update({"file": None, "line": None})
        if both and here:
            d["path"] = "net"
        return d
    check_rows(inp, gf, node_of, keys, ["node"] + (["rank"] if R else []), cells, ["nid", "name", "time", "time (inc)", "file", "line"] + (["path"] if both else []))
    check_lists(inp, gf, ["time"], ["time (inc)"])
    inp.check("ids", sorted(x._hatchet_nid for x in node_of.values()) == list(range(m)))
    depths_ok(inp, gf.graph, "ids")


# ------------------------------------------------------------- native Caliper
class Attribute:
    def __init__(self, typ, value, alias=None):
        self.typ, self.value, self.alias = typ, value, alias

    def is_value(self):
        return self.value

    def attribute_type(self):
        return self.typ

    def get(self, key, default=None):
        return self.alias if key == "attribute.alias" else default


class Records:
    """What caliperreader.CaliperReader holds after reading a file."""

    def __init__(self, records, attrs, globs):
        self.records, self.attrs, self.globals = records, attrs, globs

    def attribute(self, name):
        return self.attrs[name]


@contextlib.contextmanager
def native_types(inp):
    m = importlib.import_module("hatchet.readers.caliper_native_reader")
    if not inp.symbolic:
        yield
        return

    def conv(f):
        return lambda v: v if isinstance(v, P.SymNum) else f(v)
    # the tables of conversions, whatever they are called
    tables = [v for o in (m.CaliperNativeReader, m) for v in list(vars(o).values()) if isinstance(v, dict) and "double" in v and callable(v["double"])]
    old = [dict(t) for t in tables]
    for t in tables:
        t.update({k: conv(f) for k, f in t.items() if k in ("double", "int", "uint")})
    try:
        with numbers_in(inp, "hatchet.readers.caliper_native_reader"):
            yield
    finally:
        for t, o in zip(tables, old):
            t.update(o)


@contextlib.contextmanager
def cali_file(inp, records):
    """The object with the records, or the name of a file in which the
    caliperreader package finds them (the package's parser is not ours)."""
    if not inp.params.get("file") or not inp.flag("by_name"):
        yield records
        return
    m = importlib.import_module("hatchet.readers.caliper_native_reader")
    package = importlib.import_module("caliperreader")
    old = package.CaliperReader
    here = [k for k, v in vars(m).items() if v is old]

    class Reader(Records):
        def __init__(self):
            Records.__init__(self, [], {}, {})

        def read(self, name):
            inp.check("paths", name == "a.b/run.cali", "read %r" % (name,))
            self.__dict__.update(records.__dict__)
    package.CaliperReader = Reader
    m.__dict__.update({k: Reader for k in here})
    try:
        yield "a.b/run.cali"
    finally:
        package.CaliperReader = old
        m.__dict__.update({k: old for k in here})


def native(inp):
    p = inp.params
    n, edges, names = shape(inp, p)
    for s in siblings(n, edges):
        for a, b in itertools.combinations(s, 2):
            inp.assume(names[a] != names[b])        # one node per call path
    par = parents_of(n, edges)
    R = p.get("ranks", 0)
    keys = [(r,) for r in range(R)] if R else [()]
    has_rec = {(i, k): inp.flag("rec%d%s" % (i, "".join(map(str, k)))) for i in range(n) for k in keys}
    # every region of a call path file occurs in the path of some record
    down = descend(n, edges)
    for i in range(n):
        inp.assume(any(has_rec[j, k] for j in down[i] for k in keys))
    if R:
        keys = keys[:1 + max(k[0] for (i, k), f in has_rec.items() if f)]
    use_native = inp.choice("native", p.get("native", [False]))
    attrs = {"path": Attribute("string", False), "mpi.rank": Attribute("int", True),
             "sum#sum#time.duration": Attribute("double", True, "Total time"),
             "sum#inclusive#sum#time.duration": Attribute("double", True, "Total time (inc)"),
             "count": Attribute("uint", True), "spot.channel": Attribute("string", False),
             "label": Attribute("string", False, "Label"), "min#min#aggregate.slot": Attribute("uint", True, "Node order"),
             "note": Attribute("string", False), "lab": Attribute("string", False), "labels": Attribute("string", False)}
    mets = ["sum#sum#time.duration", "sum#inclusive#sum#time.duration"] if not p.get("one") else ["sum#sum#time.duration"]
    if "sets" in p:
        attrs.update({"avg#inclusive#sum#time.duration": Attribute("double", True), "x#inclusive": Attribute("double", True),
                      "t": Attribute("double", True, "time"), "t#inclusive": Attribute("double", True, "time (inc)")})
        mets = inp.choice("mets", p["sets"])
    perm = None
    if p.get("order"):
        perm = inp.choice("order", [list(q) for q in itertools.permutations(range(n)) if all(q[a] < q[b] for a, b in edges)])
    recs, vals = [], {}
    for i in range(n):
        for k in keys:
            if not has_rec[i, k]:
                continue
            path = [names[j] for j in path_of(par, i)]
            if len(path) == 1 and (p.get("strroot") and inp.flag("str%d%s" % (i, k))):
                path = path[0]
            rec = {"path": path}
            if R:
                rec["mpi.rank"] = k[0]
            for m in mets:
                vals[m, i, k] = inp.metric("%s_%d%s" % (m, i, "".join(map(str, k))), p.get("kinds", ("fin",)))
                rec[m] = vals[m, i, k]
            if p.get("label"):
                rec["label"] = "L%d" % i
                rec["note"] = rec["lab"] = rec["labels"] = "unwanted"
            if perm:
                rec["min#min#aggregate.slot"] = perm[i]
            if p.get("channel"):
                rec["spot.channel"] = "regionprofile"
            recs.append(rec)
    if p.get("channel"):
        recs.insert(inp.choice("where", [0, len(recs)]), {"path": ["other"], mets[0]: 5.0, "spot.channel": "timeseries"})
        recs.append({"path": ["other", "more"], mets[0]: 6.0, "spot.channel": "timeseries"})
    if p.get("nopath"):
        recs.insert(inp.choice("where2", [0, len(recs)]), {mets[0]: 9.0})
    if p.get("reverse"):
        recs = recs[::-1] if inp.flag("reversed") else recs
    import copy
    globs = {"cores": "4", "ratio": "2.5", "opts": "[a, b]", "user": "me", "pair": "(1, b c)", "env": ["X=1", "Y"], "low": "-3", "none": ""}
    with native_types(inp), cali_file(inp, Records(recs, attrs, globs)) as source:
        gf = GraphFrame.from_caliperreader(source, native=use_native, string_attributes=inp.choice("asked", [["label"], "label", ["absent", "label"]]) if p.get("label") else [])
    node_of = match_tree(inp, gf, n, edges, names, lambda i: {"name": names[i], "type": "function"})
    if perm:
        check_order(inp, gf, n, edges, node_of, perm, [i for i in range(n) if any(has_rec[i, k] for k in keys)])
    else:
        check_ids(inp, gf)

    def col(m):
        return m if use_native else attrs[m].alias or m

    def cells(i, k):
        d = {"name": names[i]}
        for m in mets:
            d[col(m)] = vals[m, i, k] if has_rec[i, k] else 0
        if p.get("label"):
            d[col("label")] = "L%d" % i if has_rec[i, k] else None
        return d
    columns = ["nid", "name"] + [col(m) for m in mets] + ([col("label")] if p.get("label") else []) + (["spot.channel"] if p.get("channel") else [])
    check_rows(inp, gf, node_of, keys, ["node"] + (["rank"] if R else []), cells, columns)
    inc = [col(m) for m in mets if "inclusive" in m]
    every = [col(m) for m in mets]
    default = "time" if "time" in every and "time (inc)" in every else (
        [c for c in every if c == "avg#inclusive#sum#time.duration"] or inc or every)[0]
    check_lists(inp, gf, [c for c in every if c not in inc], inc, default)
    got = dict(gf.metadata)
    inp.check("metadata", list(got.pop("pair", [])) == ["1", "b c"], "metadata %r" % (gf.metadata,))
    inp.check("metadata", got == {"cores": 4, "ratio": 2.5, "opts": ["a", "b"], "user": "me", "env": ["X=1", "Y"], "low": -3, "none": ""}, "metadata %r" % (gf.metadata,))


def native_device(inp):
    """Records of work on a device: a kernel or a copy is a node below the region that launched it."""
    p = inp.params
    n, edges, names = shape(inp, p)
    for s in siblings(n, edges):
        for a, b in itertools.combinations(s, 2):
            inp.assume(names[a] != names[b])
    par = parents_of(n, edges)
    R = p.get("ranks", 0)
    keys = [(r,) for r in range(R)] if R else [()]
    attrs = {"path": Attribute("string", False), "mpi.rank": Attribute("int", True), "sum#t": Attribute("double", True, "time"),
             "cupti.activity.kind": Attribute("string", False), "cupti.kernel.name": Attribute("string", False)}
    entry = [("function", names[i], i, None) for i in range(n)]       # type, name, region, parent
    for i in range(n):
        for t, label in (("kernel", p["kernel"][0]), ("kernel", p["kernel"][1]), (p.get("copy", "memcpy"),) * 2):
            if label and inp.flag("%s%d" % (label, i)):
                entry.append((t, label, i, i))
    recs, vals, has = [], {}, {}
    for k, (t, label, i, up) in enumerate(entry):
        for key in keys:
            has[k, key] = inp.flag("rec%d%s" % (k, "".join(map(str, key)))) if up is None or R else True
            if not has[k, key]:
                continue
            path = [names[j] for j in path_of(par, i)]
            if len(path) == 1 and p.get("strroot") and inp.flag("str%d%s" % (k, key)):
                path = path[0]
            vals[k, key] = inp.metric("t%d%s" % (k, "".join(map(str, key))), ("fin",))
            rec = {"path": path, "sum#t": vals[k, key]}
            if R:
                rec["mpi.rank"] = key[0]
            if up is not None:
                rec["cupti.activity.kind"] = t
                if t == "kernel":
                    rec["cupti.kernel.name"] = label
            recs.append(rec)
    down = descend(n, edges)
    for i in range(n):
        inp.assume(any(has[k, key] for k in range(len(entry)) for key in keys if entry[k][2] in down[i]))
    for k in range(n, len(entry)):
        inp.assume(any(has[k, key] for key in keys))
    if R:
        keys = keys[:1 + max(key[0] for (k, key), f in has.items() if f)]
    recs = recs[::-1] if inp.flag("reversed") else recs
    with native_types(inp):
        gf = GraphFrame.from_caliperreader(Records(recs, attrs, {"cores": "4"}))
    es = edges + [(e[3], k) for k, e in enumerate(entry) if e[3] is not None]
    node_of = match_tree(inp, gf, len(entry), es, None, lambda k: {"name": entry[k][1], "type": entry[k][0]})
    check_ids(inp, gf)
    check_rows(inp, gf, node_of, keys, ["node"] + (["rank"] if R else []),
               lambda k, key: {"name": entry[k][1], "time": vals[k, key] if has[k, key] else 0}, ["nid", "name", "time"])
    check_lists(inp, gf, ["time"], [], "time")


def P_series(vals, index):
    import pandas as pd
    return pd.Series(vals, index=index, dtype=object)


def timeseries(inp):
    """One profile per value of the level column."""
    p = inp.params
    n, edges, names = shape(inp, p)
    for s in siblings(n, edges):
        for a, b in itertools.combinations(s, 2):
            inp.assume(names[a] != names[b])
    par = parents_of(n, edges)
    S = p["steps"]
    lvl = (p.get("level") or ["loop.start_iteration"])[0]
    has_rec = {(i, s): inp.flag("rec%d_%d" % (i, s)) for s in range(S) for i in range(n)}
    down = descend(n, edges)
    for i in range(n):
        inp.assume(any(has_rec[j, s] for j in down[i] for s in range(S)))
    for s in range(S):
        inp.assume(any(has_rec[i, s] for i in range(n)))
    attrs = {"path": Attribute("string", False), "t#time": Attribute("double", True, p.get("alias")), "inclusive#time": Attribute("double", True),
             lvl: Attribute("int", True), "timeseries.snapshot": Attribute("uint", True),
             "loop.iterations": Attribute("int", True)}
    level = [0] + [inp.choice("level", [1, 20])] * (S > 1) + [40] * (S > 2)
    first = inp.flag("level_missing_at_first")      # records before the loop carry no level
    late = p.get("late") and inp.flag("late")       # a metric that is not recorded in the first step
    recs, vals = [], {}
    for s in range(S):
        for i in range(n):
            if has_rec[i, s]:
                vals[i, s, "t#time"] = inp.metric("t%d_%d" % (i, s), p.get("kinds", ("fin",)))
                if not (late and s == 0):
                    vals[i, s, "inclusive#time"] = inp.metric("i%d_%d" % (i, s), p.get("kinds", ("fin",)))
                rec = {"path": [names[j] for j in path_of(par, i)]}
                rec.update({m: vals[i, s, m] for m in ("t#time", "inclusive#time") if (i, s, m) in vals})
                if not (first and s == 0):
                    rec[lvl] = level[s]
                if p.get("snapshots"):
                    rec["timeseries.snapshot"] = float(s)
                    rec["loop.iterations"] = 7
                recs.append(rec)
    with native_types(inp), cali_file(inp, Records(recs, attrs, {"cores": "4"})) as source:
        gfs = GraphFrame.from_timeseries(source, *p.get("level", []))
    inp.check("steps", isinstance(gfs, list) and len(gfs) == S, "%d profiles for %d steps" % (len(gfs), S))
    mets = ["t#time", "inclusive#time"]
    col = {"t#time": p.get("alias") or "t#time", "inclusive#time": "inclusive#time"}
    for s, gf in enumerate(gfs):
        node_of = match_tree(inp, gf, n, edges, names, lambda i: {"name": names[i], "type": "function"})
        check_ids(inp, gf)
        if (p.get("snapshots") or late) and inp.symbolic:      # (in columns of symbolic values pandas says None for NaN)
            for m in [c for c in col.values() if c in gf.dataframe.columns]:
                gf.dataframe[m] = P_series([float("nan") if v is None else v for v in gf.dataframe[m].values], gf.dataframe.index)
        # (regions recorded before the first step stay in the table, without values)
        none = lambda i: float("nan") if (p.get("snapshots") and s and has_rec[i, 0]) or has_rec[i, s] else 0
        present = mets
        if late and s == 0 and col["inclusive#time"] not in gf.dataframe.columns:
            present = mets[:1]
        cells = lambda i, k: dict({"name": names[i]}, **{col[m]: vals[i, s, m] if (i, s, m) in vals else none(i) for m in present})
        cols = ["nid", "name"] + [col[m] for m in present] + ["timeseries.snapshot", "loop.iterations"] * bool(p.get("snapshots"))
        if lvl in gf.dataframe.columns:
            cols.append(lvl)
        inp.check("rows", lvl in cols or (s == 0 and first))
        check_rows(inp, gf, node_of, [()], ["node"], cells, cols)
        inp.check("metric-lists", sorted(gf.exc_metrics) == sorted([col["t#time"]] + ["timeseries.snapshot", "loop.iterations"] * bool(p.get("snapshots"))
                                                                     + [c for c in p.get("level", []) if c in gf.dataframe.columns])
                  and gf.inc_metrics == [col[m] for m in present[1:]], "%r %r" % (gf.exc_metrics, gf.inc_metrics))
        inp.check("metadata", gf.metadata == {"cores": 4})


# ------------------------------------------------------------------ gprof DOT
def gprof(inp):
    p = inp.params
    n = p["n"]
    names = LETTERS[:n]
    edges = [(i, j) for i in range(n) for j in range(n) if (i < j or (i == j and p.get("self")) or (i > j and p.get("cycles"))) and inp.flag("e%d%d" % (i, j))]
    called = {b for a, b in edges if a != b}
    inp.assume(len(reached(edges, [i for i in range(n) if i not in called])) == n)
    vals = {(m, i): inp.metric("%s%d" % (m, i), p.get("kinds", ("fin",)), 0, 100) for m in ("inc", "exc") for i in range(n)}
    quote = inp.choice("quotes", ["", '"'])
    order = inp.choice("edges_first", [True, False])
    nodes = ['    %s%s%s [color="#0d1073", label="mod%s\\nfn %s\\n%s%%\\n(%s%%)\\n3x"];\n' % (quote, nm, quote, nm, nm, vals["inc", i], vals["exc", i])
             for i, nm in enumerate(names)]
    es = ['    %s%s%s -> %s%s%s [label="5%%\\n2x"];\n' % (quote, names[a], quote, quote, names[b], quote) for a, b in edges]
    text = "digraph {\n    graph [ranksep=0.25];\n    node [shape=box];\n    edge [fontsize=10];\n" + "".join(es + nodes if order else nodes + es) + "}\n"
    with numbers_in(inp, "hatchet.readers.gprof_dot_reader"), text_file("g.dot", text) as f:
        gf = GraphFrame.from_gprof_dot(f)
    call_graph(inp, gf, n, edges, lambda i: {"name": names[i], "type": "function"},
               lambda i: {"name": names[i], "module": "mod" + names[i], "time (inc)": vals["inc", i], "time": vals["exc", i]},
               ["name", "module", "time", "time (inc)"])


def reached(edges, todo):
    got, todo = set(), list(todo)
    while todo:
        x = todo.pop()
        if x not in got:
            got.add(x)
            todo.extend(b for a, b in edges if a == x)
    return got


def call_graph(inp, gf, n, edges, frame, cells, columns, match=None, direct=()):
    ns = all_nodes(gf.graph)
    inp.check("nodes", len(ns) == n, "%d nodes for %d functions" % (len(ns), n))
    df = gf.dataframe
    rows = rows_of(df)
    node_of = {}
    for i in range(n):
        if match:
            m = [x for x in ns if any(nd is x and match(i, df.iloc[j]) for j, (nd, _) in enumerate(rows))]
        else:
            m = [x for x in ns if x.frame.attrs == frame(i)]
        inp.check("nodes", len(m) == 1, "%d nodes for function %d" % (len(m), i))
        node_of[i] = m[0]
        inp.check("nodes", m[0].frame.attrs == frame(i), "frame %r" % (m[0].frame.attrs,))
    for i in range(n):
        for j in range(n):
            inp.check("paths", count(node_of[i].children, node_of[j]) == ((i, j) in edges), "edge %d->%d" % (i, j))
    # the functions without callers, and functions that are called directly where some could not be reached otherwise
    roots = [i for i in range(n) if has(gf.graph.roots, node_of[i])]
    uncalled = [i for i in range(n) if all(a == b for a, b in edges if b == i)]
    first = [i for i in uncalled if (i, i) not in edges]
    inp.check("paths", len(roots) == len(gf.graph.roots) and set(uncalled) <= set(roots), "roots %r" % (roots,))
    inp.check("paths", all(i in uncalled or (i in direct and i not in reached(edges, first)) for i in roots), "roots %r, edges %r, direct %r" % (roots, edges, direct))
    inp.check("paths", len(reached(edges, roots)) == n, "functions that are not reached")
    check_links(inp, gf.graph, "links", roots=False)
    inp.check("ids", sorted(x._hatchet_nid for x in ns) == list(range(n)))
    check_rows(inp, gf, node_of, [()], ["node"], lambda i, k: cells(i), columns)
    check_lists(inp, gf, ["time"], ["time (inc)"])


# ------------------------------------------------------------------- cProfile
@contextlib.contextmanager
def profile_file(inp, stats):
    if not inp.symbolic:
        import marshal
        with text_file("p.prof", marshal.dumps(stats), "wb") as f:
            yield f
        return
    old = pstats.Stats

    class Stats:
        def __init__(self, fn):
            assert fn == "p.prof"
            self.stats = dict(stats)
    pstats.Stats = Stats
    try:
        yield "p.prof"
    finally:
        pstats.Stats = old


def cprofile(inp):
    p = inp.params
    n = p["n"]
    cand = [("a.py", 1, "f"), ("a.py", 9, "f"), ("lib/a.py", 1, "f"), ("a.py", 1, "g"), ("~", 0, "<f>")]
    if p.get("few"):
        cand = cand[:3]
    fns = [cand[0]] + [inp.choice("fn%d" % i, cand[1:]) for i in range(1, n)]
    for a, b in itertools.combinations(fns, 2):
        inp.assume(a != b)
    edges = [(i, j) for i in range(n) for j in range(n) if (i < j or (i == j and p.get("self")) or (i > j and p.get("cycles"))) and inp.flag("e%d%d" % (i, j))]
    called = {b for _, b in edges}
    # functions that are called directly, and maybe by others as well
    direct = {i for i in range(n) if i not in called or (p.get("direct") and inp.flag("direct%d" % i))}
    inp.assume(len(reached(edges, direct)) == n)
    ncalls = [sum(1 + a for a, b in edges if b == i) + 2 * (i in direct) for i in range(n)]
    if p.get("counts"):     # callers as recorded by the profile module
        def caller(a):
            return 1 + a
    else:
        def caller(a):
            return 1 + a, 1, 0.5, 0.5
    vals = {(m, i): inp.metric("%s%d" % (m, i), p.get("kinds", ("fin",))) for m in ("inc", "exc") for i in range(n)}
    order = inp.choice("order", p.get("orders", [1, -1]))
    stats = {}
    for i in range(n)[::order]:
        stats[fns[i]] = (i + 1, ncalls[i], vals["exc", i], vals["inc", i], {fns[a]: caller(a) for a, b in edges if b == i})
    with profile_file(inp, stats) as f:
        gf = GraphFrame.from_cprofile(f)
    call_graph(inp, gf, n, edges, lambda i: {"name": fns[i][2], "type": "function"},
               lambda i: {"name": fns[i][2], "file": fns[i][0], "line": fns[i][1], "numcalls": i + 1, "nativecalls": ncalls[i],
                          "time": vals["exc", i], "time (inc)": vals["inc", i]},
               ["name", "file", "line", "numcalls", "nativecalls", "time", "time (inc)"],
               match=lambda i, row: (row["file"], row["line"], row["name"]) == fns[i], direct=direct)


# --------------------------------------------------------------- pyinstrument
def pyinstrument(inp):
    p = inp.params
    n, edges, names = shape(inp, p)
    ch = {i: [b for a, b in edges if a == i] for i in range(n)}
    vals = [inp.metric("t%d" % i, p.get("kinds", ("fin",))) for i in range(n)]

    def entry(i):
        d = {"function": names[i], "file_path_short": "f%d.py" % i, "line_no": 10 + i, "time": vals[i], "is_application_code": i % 2 == 0}
        if ch[i] or inp.choice("nokids%d" % i, p.get("nokids", ["list"])) == "list":
            d["children"] = [entry(c) for c in ch[i]]
        return d
    doc = {"duration": 1.0, "root_frame": entry(0)}
    with text_file("p.json", json.dumps(doc)) as f:
        gf = GraphFrame.from_pyinstrument(f)
    ns = all_nodes(gf.graph)
    inp.check("nodes", len(ns) == n, "%d nodes for %d entries" % (len(ns), n))
    # children stay in the order of the file
    node_of = {}

    def go(i, x):
        inp.check("paths", x.frame.attrs == {"name": names[i], "type": "function"} and len(x.children) == len(ch[i]))
        node_of[i] = x
        for c, y in zip(ch[i], x.children):
            go(c, y)
    inp.check("paths", len(gf.graph.roots) == 1)
    go(0, gf.graph.roots[0])
    check_links(inp, gf.graph, "links")
    check_ids(inp, gf)

    def exc(i):
        e = vals[i]
        for c in ch[i]:
            e = e - vals[c]
        return e
    check_rows(inp, gf, node_of, [()], ["node"], lambda i, k: {
        "name": names[i], "file": "f%d.py" % i, "line": 10 + i, "time (inc)": vals[i], "time": exc(i), "is_application_code": i % 2 == 0},
        ["name", "file", "line", "time", "time (inc)", "is_application_code"])
    check_lists(inp, gf, ["time"], ["time (inc)"])


# ----------------------------------------------------------------------- Spot
class SpotDB:
    def __init__(self, runs, profiles, globs, attrs):
        self.runs, self.profiles, self.globs, self.attrs = runs, profiles, globs, attrs

    def get_all_run_ids(self):
        return list(self.runs)

    def get_regionprofiles(self, runs):
        return {r: self.profiles[r] for r in runs if r in self.profiles}

    def get_global_data(self, runs):
        return {r: self.globs[r] for r in runs}

    def get_metric_attribute_metadata(self):
        return self.attrs


@contextlib.contextmanager
def spotdb_package():
    """The reader imports spotdb to connect to databases; it is given an open one."""
    had = sys.modules.get("spotdb")
    sys.modules["spotdb"] = types.ModuleType("spotdb")
    try:
        yield
    finally:
        del sys.modules["spotdb"]
        if had is not None:
            sys.modules["spotdb"] = had


def spot(inp):
    p = inp.params
    n, edges, names = shape(inp, p)
    for s in siblings(n, edges):
        for a, b in itertools.combinations(s, 2):
            inp.assume(names[a] != names[b])
    par = parents_of(n, edges)
    has_rec = [inp.flag("rec%d" % i) for i in range(n)]
    down = descend(n, edges)
    for i in range(n):
        inp.assume(any(has_rec[j] for j in down[i]))
    attrs = {"sum#time.duration": {"type": "double", "alias": "Total time"}, "inclusive#sum#time": {"type": "double", "alias": "Total time"},
             "slots": {"type": "int"}, "uslots": {"type": "uint", "alias": "U"}, "tag": {"type": "string"}}
    col = {"sum#time.duration": "Total time", "inclusive#sum#time": "Total time (inc)", "slots": "slots", "uslots": "U", "tag": "tag", "plain": "plain"}
    mets = p["mets"]
    vals, prof = {}, {}
    order = list(range(n))
    if p.get("reverse") and inp.flag("reversed"):
        order = order[::-1]
    if inp.flag("empty"):
        prof[""] = {"sum#time.duration": 3.0}
    for i in order:
        if not has_rec[i]:
            continue
        rec = {}
        for m in mets:
            if p.get("sparse") and inp.flag("no_%s%d" % (m, i)):
                continue
            vals[m, i] = "t%d" % i if m == "tag" else 40 + i if m.endswith("slots") else inp.metric("%s_%d" % (m, i), p.get("kinds", ("fin",)))
            rec[m] = str(vals[m, i]) if p.get("text") and m != "plain" else vals[m, i]
        prof["/".join(names[j] for j in path_of(par, i))] = rec
    inp.assume(all(any((m, i) in vals for i in range(n)) for m in mets))
    with numbers_in(inp, "hatchet.readers.spotdb_reader", ("float", "int")), spotdb_package():
        db = SpotDB([5, 6], {5: prof}, {5: {"a": 1}, 6: {"a": 2}}, attrs)
        gfs = GraphFrame.from_spotdb(db, [5] if inp.flag("listed") else None)
    inp.check("nodes", len(gfs) == 1, "%d graphframes for one recorded run" % len(gfs))
    gf = gfs[0]
    node_of = match_tree(inp, gf, n, edges, names, lambda i: {"name": names[i], "type": "None"})
    check_ids(inp, gf)
    check_rows(inp, gf, node_of, [()], ["node"],
               lambda i, k: dict({"name": names[i]}, **{col[m]: vals.get((m, i), None) for m in mets}), ["name"] + [col[m] for m in mets])
    check_lists(inp, gf, [col[m] for m in mets if "inclusive" not in m], [col[m] for m in mets if "inclusive" in m],
                "Total time (inc)" if "inclusive#sum#time" in mets else None)
    inp.check("metadata", gf.metadata == {"a": 1})


def spot_runs(inp):
    """One graphframe per recorded run that was asked for, in that order."""
    k = inp.params["runs"]
    ids = [7, 5, 6, 11][:k]
    have = [r for r in ids if inp.flag("has%d" % r)]
    vals = {r: inp.metric("t%d" % r) for r in have}
    deep = {r: inp.flag("deep%d" % r) for r in have}
    prof = {r: dict([("m", {"t": vals[r]})] + ([("m/a", {"t": vals[r] + 1})] if deep[r] else [])) for r in have}
    db = SpotDB(ids, prof, {r: {"run": r} for r in ids}, {"t": {"type": "double", "alias": "T"}})
    asked = inp.choice("asked", [None] + [list(q) for j in range(1, k + 1) for q in itertools.permutations(ids, j)])
    with numbers_in(inp, "hatchet.readers.spotdb_reader", ("float", "int")), spotdb_package():
        gfs = GraphFrame.from_spotdb(db, asked)
    want = [r for r in (asked or ids) if r in have]
    inp.check("runs", [gf.metadata for gf in gfs] == [{"run": r} for r in want], "runs %r" % ([gf.metadata for gf in gfs],))
    for gf, r in zip(gfs, want):
        inp.check("nodes", len(gf.graph) == len(gf.dataframe) == 1 + deep[r], "%d nodes" % len(gf.graph))
        got = dict(zip(gf.dataframe["name"], gf.dataframe["T"]))
        inp.check("values", sorted(got) == (["a", "m"] if deep[r] else ["m"]), "%r" % (got,))
        inp.check("values", inp.eqv(got["m"], vals[r]) and (not deep[r] or inp.eqv(got["a"], vals[r] + 1)), "%r" % (got,))
        inp.check("metric-lists", gf.exc_metrics == ["T"] and gf.inc_metrics == [] and gf.default_metric == "T")


# ------------------------------------------------------------------------ TAU
def tau(inp):
    p = inp.params
    n, edges, names = shape(inp, p)
    for s in siblings(n, edges):
        for a, b in itertools.combinations(s, 2):
            inp.assume(names[a] != names[b])
    par = parents_of(n, edges)
    R, T = p.get("ranks", 1), p.get("threads", 1)
    procs = [(r, t) for r in range(R) for t in range(T)]
    # ranks may differ in their threads
    absent = inp.choice("absent", p["absent"]) if "absent" in p else None
    # the root is in every profile; a path only where its prefixes are
    has_rec = {(0, q): q != absent for q in procs}
    for i in range(1, n):
        for q in procs:
            has_rec[i, q] = has_rec[par[i], q] and (p.get("full", False) or inp.flag("rec%d%d%d" % ((i,) + q)))
        inp.assume(any(has_rec[i, q] for q in procs))
    metrics = inp.choice("metrics", p["sets"]) if "sets" in p else p.get("metrics", ["TIME"])
    style = inp.choice("style", p.get("styles", ["plain"]))
    # text of a region in a profile: (in paths, file, module, line, end line, name)
    forms = {"plain": lambda nm: (nm + "()", None, None, 0, 0, nm + "()"),
             "type": lambda nm: ("[SAMPLE] %s [{/s/u.c} {7}]" % nm, "/s/u.c", None, 7, 0, "[SAMPLE] " + nm),
             "range": lambda nm: ("%s [{u.c} {13,1}-{29,4}]" % nm, "u.c", None, 13, 29, nm),
             "c": lambda nm: ("%s C [{u.c} {5,0}]" % nm, "u.c", None, 5, 0, nm),
             "module": lambda nm: ("[CONTEXT] %s /l/m.so" % nm, None, "/l/m.so", 0, 0, "[CONTEXT] " + nm),
             "unwind": lambda nm: ("[UNWIND] /s/u.c [@] %s [{/l/m.so} {9}]" % nm, "/s/u.c", "/l/m.so", 9, 0, "[UNWIND] " + nm),
             "unwind-args": lambda nm: ("[UNWIND] /s/u.c [@] %s(int, T<y>) const [{/l/m.so} {9}]" % nm, "/s/u.c", "/l/m.so", 9, 0, "[UNWIND] " + nm + "(int, T<y>) const"),
             # the module without lines; only the source; only the module
             "unwind-bare": lambda nm: ("[UNWIND] /s/u.c [@] %s /l/m.so" % nm, "/s/u.c", "/l/m.so", 0, 0, "[UNWIND] " + nm),
             "unwind-src": lambda nm: ("[UNWIND] /s/u.c [@] %s [{/s/u.c} {9}]" % nm, "/s/u.c", None, 9, 0, "[UNWIND] " + nm),
             "unwind-so": lambda nm: ("[UNWIND] /l/m.so [@] %s [{/l/m.so} {0}]" % nm, None, "/l/m.so", 0, 0, "[UNWIND] " + nm)}
    form = [forms["plain"](names[0])] + [forms[style](names[i]) for i in range(1, n)]
    root = ".TAU application"
    form[0] = (root, None, None, 0, 0, root)
    vals = {(m, w, i, q): inp.metric("%s%s_%d_%d%d" % ((m, w, i) + q), p.get("kinds", ("fin",)))
            for m in metrics for w in ("exc", "inc") for i in range(n) for q in procs if has_rec[i, q]}
    order = list(range(1, n))
    if p.get("reorder"):
        order = inp.choice("order", [order, order[::-1]])
    with tempfile.TemporaryDirectory() as d:
        for m in metrics:
            sub = d
            if len(metrics) > 1 or p.get("subdir"):
                sub = os.path.join(d, "MULTI__" + m)
                os.mkdir(sub)
            for q in procs:
                if q == absent:
                    continue
                lines = ["%d templated_functions_MULTI_%s" % (n, m),
                         "# Name Calls Subrs Excl Incl ProfileCalls # <metadata><attribute><name>Metric Name</name><value>%s</value></attribute></metadata>" % m]
                for i in [0] + order:
                    if not has_rec[i, q]:
                        continue
                    if i:       # the flat profile precedes
                        lines.append('"%s" 1 0 3 4 0 GROUP="TAU_DEFAULT"' % form[i][0])
                    path = "  => ".join(form[j][0] + (" " if p.get("blank") and j == 0 and i else "") for j in path_of(par, i))
                    lines.append('"%s" %d %d %s %s 0 GROUP="TAU_CALLPATH"' % (path, 10 + i, 20 + i, vals[m, "exc", i, q], vals[m, "inc", i, q]))
                with open(os.path.join(sub, "profile.%d.0.%d" % q), "w") as f:
                    f.write("\n".join(lines) + "\n")
        dirs = [d] + [os.path.join(d, "MULTI__" + m) for m in metrics if len(metrics) > 1] if p.get("listing") else []
        with numbers_in(inp, "hatchet.readers.tau_reader"), listing_orders(inp, dirs):
            gf = GraphFrame.from_tau(d)
    node_of = match_tree(inp, gf, n, edges, names, lambda i: {"name": form[i][5], "type": "function"})
    check_ids(inp, gf)
    # the time spent on the CPU is the time unless both are recorded
    col = {m: "time" if m == "TIME" or (m == "CPU_TIME" and "TIME" not in metrics) else m for m in metrics}
    index = ["node"] + (["rank"] if R > 1 else []) + (["thread"] if T > 1 else [])
    key = {q: ((q[0],) if R > 1 else ()) + ((q[1],) if T > 1 else ()) for q in procs}
    proc = {k: q for q, k in key.items()}

    def cells(i, k):
        q = proc[k]
        d = {"name": form[i][5], "file": form[i][1] or 0, "module": form[i][2] or 0}
        if d["file"] == 0:
            del d["file"]       # None or 0
        if d["module"] == 0:
            del d["module"]
        for m in metrics:
            for w, suf in (("exc", ""), ("inc", " (inc)")):
                d[col[m] + suf] = vals[m, w, i, q] if has_rec[i, q] else 0
        if has_rec[i, q]:
            d.update({"line": form[i][3], "end_line": form[i][4], "Calls": 10 + i, "Subrs": 20 + i})
            if not i:
                d.update({"Calls": 10, "Subrs": 20})
        return d
    columns = ["name", "file", "module", "line", "end_line", "Calls", "Subrs"] + [col[m] + s for m in metrics for s in ("", " (inc)")]
    if R == 1 and T == 1:
        columns += ["rank", "thread"]
    if R > 1 and T > 1:
        check_rows_rt(inp, gf, node_of, has_rec, procs, key, index, cells, columns)
    else:
        check_rows(inp, gf, node_of, [key[q] for q in procs], index, cells, columns)
    check_lists(inp, gf, [col[m] for m in metrics], [col[m] + " (inc)" for m in metrics],
                "time (inc)" if "time" in col.values() else None)
    inp.check("metric-lists", gf.default_metric in [col[m] + " (inc)" for m in metrics], "default %r" % (gf.default_metric,))


# -------------------------------------------------------------------- timemory
def timemory(inp):
    p = inp.params
    n, edges, names = shape(inp, p)
    par = parents_of(n, edges)
    ch = {i: [b for a, b in edges if a == i] for i in range(n)}
    R, T = p.get("ranks", 0), p.get("threads", 1)
    procs = [(r, t) for r in range(max(R, 1)) for t in range(T)]
    form = {"plain": lambda nm: (nm, nm, None, None), "at": lambda nm: (nm + "@u.c:12", nm, "u.c", "12"),
            "tail": lambda nm: (nm + "@u.c:12/x", nm + "/x", "u.c", "12"), "label": lambda nm: (nm + "    [fn/v.c:7]", nm, "v.c", "7"),
            "at2": lambda nm: (nm + "@v.c:3", nm, "v.c", "3")}
    entry = [form[inp.choice("form%d" % i, p.get("forms", ["plain"]))](names[i]) for i in range(n)]
    for s in siblings(n, edges):
        for a, b in itertools.combinations(s, 2):
            inp.assume(entry[a][0] != entry[b][0])
    has_rec = {}
    for i in range(n):
        for q in procs:
            r, t = q
            up = True if par[i] is None else any(has_rec[par[i], (r, u)] for u in range(T))
            has_rec[i, q] = up and (p.get("full", False) or inp.flag("rec%d%d%d" % ((i,) + q)))
        inp.assume(any(has_rec[i, q] for q in procs))
    # every rank and every thread has recorded something
    inp.assume(all(any(has_rec[i, (r, t)] for i in range(n) for t in range(T)) for r in range(max(R, 1))))
    inp.assume(all(any(has_rec[i, (r, t)] for i in range(n) for r in range(max(R, 1))) for t in range(T)))
    dmp = inp.choice("dmp", ["both", "upc"]) if p.get("upc") else "mpi"
    as_dict = inp.flag("as_dict") if p.get("dicts") else False
    # (component, its type, label of the columns of each of its values)
    comps = {"wall": ("WALL_CLOCK", "wall", ["wall_clock"]), "papi": ("PAPI_VECTOR", ["Total_cycles", "L2 misses"], ["Total-cycles", "L2-misses"]), "cpu": ("CPU_CLOCK", "cpu", ["cpu_clock"])}
    comps = [comps[c] for c in p.get("comps", ["wall"])]
    stats = p.get("stats", ["sum"])
    vals = {(c[0], s, l, w, i, q): inp.metric("%s_%s_%s_%s_%d_%d%d" % ((c[0], s, l, w, i) + q), p.get("kinds", ("fin",)))
            for c in comps for s in stats for l in c[2] for w in ("exclusive", "inclusive") for i in range(n) for q in procs if has_rec[i, q]}

    def stat(c, w, i, q):
        d = {"cereal_class_version": 0, "count": 3}
        for s in stats:
            v = [vals[c[0], s, l, w, i, q] for l in c[2]]
            d[s] = {"k%d" % k: x for k, x in enumerate(v)} if as_dict and len(v) > 1 else v if len(v) > 1 else v[0]
        return {"stats": d, "entry": {"laps": 5 + i}}

    def tree(c, i, r):
        out = []
        for t in range(T):
            if has_rec[i, (r, t)]:
                e = {"node": {"hash": 100 + i, "prefix": entry[i][0], "tid": [t], "pid": [900 + r], "depth": 0,
                              "inclusive": stat(c, "inclusive", i, (r, t)), "exclusive": stat(c, "exclusive", i, (r, t))}}
                if not out:
                    e["children"] = [x for b in ch[i] for x in tree(c, b, r)]
                    if p.get("sync") and e["children"] and inp.flag("sync%s%d%s" % (c[0], i, r)):
                        # an entry that only synchronizes threads is no region
                        e["children"] = [{"node": {"hash": 0, "prefix": "unknown-hash=0", "tid": [0], "pid": [900 + r]}, "children": e["children"]}]
                out.append(e)
        return out

    def top(c, r):
        return {"node": {"hash": 0, "prefix": "unknown-hash=0", "tid": [0], "pid": [900 + r]},
                "children": [x for i in range(n) if par[i] is None for x in tree(c, i, r)]}
    doc = {}
    for c in comps:
        m = {"type": {t: k for k, t in enumerate(c[1])} if as_dict and isinstance(c[1], list) else c[1], "description": "d", "properties": {"cereal_class_version": 0, "id": 1}, "mpi_size": R or 1, "thread_count": T}
        data = [[top(c, r)] if p.get("nested", True) else top(c, r) for r in range(max(R, 1))]
        if dmp == "both":
            # UPC++ ranks come after the MPI ranks
            m.update({"mpi": data[:1], p["upc"]: data[1:], "mpi_size": 1, "upcxx_size": R - 1})
        elif dmp == "upc":
            m.update({p["upc"]: data, "upcxx_size": R})
            del m["mpi_size"]
        else:
            m["mpi" if R else "graph"] = data
        doc[c[0]] = m
    if p.get("unselected"):
        doc["tim::component::CPU_CLOCK"] = doc[comps[0][0]]
    select = inp.choice("select", [lambda: [comps[0][0]], lambda: [lambda: comps[0][0].upper()]])() if p.get("unselected") else None
    text = json.dumps({"timemory": doc})
    mode = inp.choice("input", p.get("inputs", ["dict"]))
    if mode == "dict":
        import copy
        before = copy.deepcopy(doc)
        gf = GraphFrame.from_timemory({"timemory": doc}, select)
        inp.check("input-unchanged", same_literal(inp, doc, before), "the dictionary was changed")
    elif mode == "stream":
        gf = GraphFrame.from_timemory(io.StringIO(text), select)
    elif mode == "running":
        # the library itself holds the data
        old = sys.modules.get("timemory")
        sys.modules["timemory"] = types.SimpleNamespace(get=lambda hierarchy=False: {"timemory": doc} if hierarchy else None)
        try:
            gf = GraphFrame.from_timemory(select=select)
        finally:
            sys.modules.pop("timemory") if old is None else sys.modules.__setitem__("timemory", old)
    else:
        with text_file("a.tree.json", text) as f:
            gf = GraphFrame.from_timemory(f if mode == "file" else os.path.dirname(f), select)
    node_of = match_tree_prefix(inp, gf, n, edges, entry)
    check_ids(inp, gf)
    R1, T1 = R > 0, T > 1
    index = ["node"] + (["rank"] if R1 else []) + (["thread"] if T1 else [])
    key = {q: ((q[0],) if R1 else ()) + ((q[1],) if T1 else ()) for q in procs}
    proc = {k: q for q, k in key.items()}

    def cname(s, l, w):
        return "%s.%s%s" % (s, l, " (inc)" if w == "inclusive" else "")

    def cells(i, k):
        q = proc[k]
        d = {"name": entry[i][1], "type": "region"}
        if entry[i][2]:
            d["file"] = entry[i][2]
        for c in comps:
            for s in stats:
                for l in c[2]:
                    for w in ("exclusive", "inclusive"):
                        d[cname(s, l, w)] = vals[c[0], s, l, w, i, q] if has_rec[i, q] else 0
        if has_rec[i, q]:
            d.update({"count": 5 + i, "pid": 900 + q[0]})
            if entry[i][3]:
                d["line"] = entry[i][3]
        return d
    every = [cname(s, l, w) for c in comps for s in stats for l in c[2] for w in ("exclusive", "inclusive")]
    columns = ["name", "type", "file", "line", "pid", "count"] + every + ([] if R1 or T1 else ["thread"])
    if R1 and T1:
        check_rows_rt(inp, gf, node_of, has_rec, procs, key, index, cells, columns)
    else:
        check_rows(inp, gf, node_of, [key[q] for q in procs], index, cells, columns)
    check_lists(inp, gf, [c for c in every if "(inc)" not in c], [c for c in every if "(inc)" in c],
                "sum.wall_clock" if comps[0][0] == "WALL_CLOCK" else p.get("default"))


def match_tree_prefix(inp, gf, n, edges, entry):
    """Like match_tree; equally named siblings are told apart by the file of their rows."""
    kids = {b for _, b in edges}
    ch = {i: [b for a, b in edges if a == i] for i in range(n)}
    inp.check("nodes", len(all_nodes(gf.graph)) == n, "%d nodes for %d entries" % (len(all_nodes(gf.graph)), n))
    rows = rows_of(gf.dataframe)
    node_of = {}

    def fits(i, x):
        return x.frame.attrs == {"name": entry[i][1], "type": "region"} and any(
            nd is x and gf.dataframe["file"].iloc[j] == (entry[i][2] or "<unknown>") for j, (nd, _) in enumerate(rows))

    def go(idx, nodes):
        inp.check("paths", len(idx) == len(nodes), "%d entries, %d nodes" % (len(idx), len(nodes)))
        for i in idx:
            m = [x for x in nodes if fits(i, x)]
            inp.check("paths", len(m) == 1, "%d nodes for %r" % (len(m), entry[i]))
            node_of[i] = m[0]
            go(ch[i], list(m[0].children))
    go([r for r in range(n) if r not in kids], list(gf.graph.roots))
    check_links(inp, gf.graph, "links")
    return node_of


# ------------------------------------------------------------------ harnesses
def harnesses(tier):
    q = tier == "quick"
    hs = []
    L = ["nodes", "paths", "links", "ids", "rows", "values", "metric-lists"]
    M = L + ["metadata"]

    def add(name, fn, labels, bounds, validate=15, **kw):
        kw.setdefault("shape", "tree")
        hs.append(H(name, fn, labels, "%s: %s" % (fn.__name__, bounds), kw, validate=validate))
    add("cali", caliper, M, "forests of 3 regions, any of them recorded, repeated names, other entries interleaved", n=3, roots=2,
        names="xX", interleave=True)
    add("cali-input", caliper, M + ["refused"], "a region below another, given as a stream, a JSON file or a .cali file with a cali-query on the PATH", n=2, names="x",
        inputs=["stream", "json", "query"])
    add("cali-unnamed", caliper_unnamed, ["nodes", "rows", "values"], "forests of 3 regions, any of them without a label", n=3, roots=2, names=[["x", ""]] * 3)
    add("cali-rank", caliper, M, "trees of 2 regions, 2 ranks, any record missing", n=2, roots=2, names="xX", ranks=2, shuffle=True)
    add("cali-attr", caliper, M, "trees of 2 functions with an optional attribute, a record without path", n=2, names="x", attr=True, callpath=True,
        nullpath=True, interleave=True)
    add("cali-module", caliper, M, "trees of 2 functions with a module, other metric names", n=2, names="x", attr="module#cali.sampler.pc", callpath=True,
        variants=True, full=True)
    add("cali-both", caliper, M, "trees of 2 functions with annotation paths (1-2 records per function)", n=2, names="x", both=True, ranks=2 if not q else 0)
    add("cali-order", caliper, M, "trees of 3 regions with every order", n=3, roots=2, names="x", order=True, shuffle=True, one=True, interleave=True)
    add("cali-lines", caliper_lines, L, "trees of 2 functions, samples at up to 3 source lines of 2 files", n=2, names="x",
        locs=["/p/u.c:12", "/p/u.c:3", "/q/u.c:12"], shuffle=True)
    add("cali-lines-rank", caliper_lines, L, "trees of 2 functions, samples of 2 ranks at up to 2 source lines", n=2, names="x",
        locs=["/p/u.c:12", "/p/u.c:3"], ranks=2)
    add("cali-lines-both", caliper_lines, L, "trees of 2 functions with annotation paths, 1-2 records at each of up to 2 source lines", n=2, names="x",
        locs=["/p/u.c:12", "/q/u.c:12"], both=True)
    add("cali-lines-both-rank", caliper_lines, L, "one function with annotation paths, 1-2 records at each of up to 2 source lines of 2 ranks", n=1, names="x",
        locs=["/p/u.c:12", "/q/u.c:12"], both=True, ranks=2)
    add("native", native, M, "forests of 3 regions, any of them recorded", n=3, roots=2, names="xX", native=[True, False], strroot=True)
    add("native-default", native, M, "1 region, sets of metrics", n=1, names="x", native=[True, False],
        sets=[["t", "t#inclusive"], ["t"], ["t#inclusive"], ["count", "t#inclusive"], ["x#inclusive", "avg#inclusive#sum#time.duration"], ["count", "x#inclusive"],
              ["count"], ["t#inclusive", "x#inclusive", "t"]])
    add("native-rank", native, M, "trees of 2 regions, 2 ranks, any record missing", n=2, roots=2, names="xX", ranks=2, reverse=True)
    add("native-attr", native, M, "trees of 2 regions, string attribute, other channels, records without path", n=2, names="x", label=True,
        channel=True, nopath=True)
    add("native-order", native, M, "trees of 3 regions with every order, records in two orders", n=3, roots=1, names="xyz", order=True, one=True, reverse=True)
    add("native-order-roots", native, M, "forests of 2 regions with every order, root paths as strings", n=2, roots=2, names="xy", order=True, one=True, reverse=True, strroot=True)
    add("native-file", native, M, "trees of 2 regions, read from a named file, or the reader's object", n=2, names="x", one=True, file=True)
    add("timeseries-file", timeseries, M + ["steps"], "2 regions, 2 steps of another level, by name or as an object", n=2, names="xy", steps=2, level=["main.step"], file=True)
    add("timeseries-late", timeseries, M + ["steps"], "trees of 2 regions, 2 steps, a metric that may be recorded in the second one only", n=2, names="x", steps=2, late=True)
    add("native-device", native_device, L, "trees of 2 regions, kernels and copies launched in any of them", n=2, names="x", kernel=["k", None], strroot=True)
    add("native-device-rank", native_device, L, "one region, kernels and copies launched in 2 ranks, any record missing", n=1, names="x",
        kernel=["k", "x"], ranks=2)
    add("native-device-other", native_device, L, "one region, other work on the device", n=1, names="x", kernel=["k", None], copy="memset")
    add("timeseries-snapshots", timeseries, M + ["steps"], "trees of 2 regions, 2 numbered snapshots, any of them recorded", n=2, names=["x", "y"], steps=2, snapshots=True)
    add("timeseries", timeseries, M + ["steps"], "trees of 2 regions, 2 steps, any of them recorded", n=2, names="xX", steps=2)
    add("gprof", gprof, L, "call graphs of 3 functions without recursion", n=3)
    add("gprof-rec", gprof, L, "call graphs of 3 functions with recursion and cycles", n=3, self=True, cycles=True)
    add("cprofile", cprofile, L, "call graphs of 3 functions, files of equal name, lines, builtins", n=3)
    add("cprofile-rec", cprofile, L, "call graphs of 2 functions with recursion and cycles, any of them called directly", n=2, self=True, cycles=True, direct=True)
    add("cprofile-counts", cprofile, L, "call graphs of 2 functions, counts of calls per caller", n=2, self=True, cycles=True, direct=True, counts=True, orders=[1])
    add("cprofile-cycle", cprofile, L, "call graphs of 3 functions with cycles, any of them called directly", n=3, cycles=True, direct=True, orders=[1], few=True)
    add("pyinstrument", pyinstrument, L, "trees of 4 calls, repeated names", n=4, names="xX", nokids=["list", "absent"] if not q else ["list"])
    add("spot", spot, M, "forests of 3 regions, any of them recorded", n=3, roots=2, names="xX", mets=["sum#time.duration", "inclusive#sum#time"],
        text=True, reverse=True)
    add("spot-runs", spot_runs, ["runs", "nodes", "values", "metric-lists"], "databases of 3 runs, any recorded, any of them asked for in any order", runs=3)
    add("spot-names", spot, M, "forests of 3 regions with names that begin or end like others", n=3, roots=2, names=[["x"], ["x", "ax", "xa"], ["x", "ax", "xa"]], mets=["sum#time.duration"])
    add("spot-sparse", spot, M, "trees of 2 regions, int, string and untyped columns, any value missing", n=2, roots=2, names="xX",
        mets=["slots", "tag", "plain"], sparse=True)
    add("spot-ints", spot, M, "trees of 2 regions, signed and unsigned columns recorded as text", n=2, roots=2, names="xX",
        mets=["slots", "uslots"], text=True)
    add("tau", tau, L, "trees of 3 regions, one profile", n=3, names=["r", "xX", "xX"], styles=["plain", "type", "range", "c", "module", "unwind"], reorder=True)
    add("tau-unwind", tau, L, "trees of 3 regions, one profile, the forms of an unwound frame", n=3, names="xyz", full=True,
        styles=["unwind-args", "unwind-bare", "unwind-src", "unwind-so"], reorder=True)
    add("tau-papi", tau, L, "trees of 2 regions, one profile, metrics without the time", n=2, names="x", subdir=True, sets=[["PAPI_X"], ["PAPI_Y", "PAPI_X"], ["CPU_TIME"], ["CPU_TIME", "TIME"], ["TIME", "CPU_TIME"]])
    add("tau-rank", tau, L, "trees of 3 regions in the profiles of 2 ranks, any path missing", n=3, names="xyz", ranks=2)
    add("tau-rank-forms", tau, L, "trees of 2 regions in the profiles of 2 ranks, with source, module or lines", n=2, names="x", ranks=2,
        styles=["type", "range", "c", "module", "unwind"])
    add("tau-thread", tau, L, "trees of 2 regions, 2 threads, 2 metrics", n=2, names="x", threads=2, metrics=["TIME", "PAPI_X"], styles=["type"])
    add("tau-listing", tau, L, "trees of 2 regions, 2 ranks, 2 metrics, files listed in any of two orders per folder", n=2, names="x", ranks=2, metrics=["TIME", "PAPI_X"], listing=True)
    add("tau-rt", tau, L, "trees of 2 regions, 2 ranks, 2 threads", n=2, names="x", ranks=2, threads=2)
    add("tau-rt-uneven", tau, L, "trees of 2 regions, 2 ranks of which one may have a thread less", n=2, names="x", ranks=2, threads=2, absent=[(0, 1), (1, 1)])
    add("timemory", timemory, L, "forests of 3 regions of one process; prefixes with and without source", n=3, roots=2, names="xX",
        forms=["plain", "at", "label"] if q else ["plain", "at", "label", "tail"], full=True)
    add("timemory-sync", timemory, L, "trees of 3 regions of one process, regions below entries that synchronize threads", n=3, names="xX", full=True, sync=True)
    add("timemory-same", timemory, L, "trees of 3 regions of equal names at different lines", n=3, roots=2, names="x", forms=["at", "at2"], full=True,
        comps=["wall", "papi"], nested=False)
    add("timemory-upcxx", timemory, L, "trees of 2 regions, 2 UPC++ ranks, or an MPI and a UPC++ rank", n=2, roots=2, names="x", ranks=2, upc="upcxx", forms=["plain", "tail"])
    add("timemory-upc", timemory, L, "one region, 2 UPC ranks, or an MPI and a UPC rank, papi values as lists and as dictionaries", n=1, names="x", ranks=2, upc="upc",
        comps=["papi", "cpu"], dicts=True, default="sum.cpu_clock")
    add("timemory-rank", timemory, L, "trees of 2 regions, 2 ranks, any record missing", n=2, roots=2, names="xX", ranks=2, forms=["at"])
    add("timemory-thread", timemory, L, "trees of 2 regions, 2 threads", n=2, roots=2, names="xX", threads=2, forms=["at"])
    add("timemory-rt", timemory, L, "trees of 2 regions, 2 ranks, 2 threads", n=2, names="x", ranks=2, threads=2, forms=["at"], unselected=True)
    add("timemory-input", timemory, L + ["input-unchanged"], "one region, given as dict, stream, file, folder or held by the library", n=1, names="x", inputs=["dict", "stream", "file", "dir", "running"], stats=["sum", "min", "max", "mean", "sqr"])
    if not q:
        add("cali4", caliper, M, "forests of 4 regions, any of them recorded", n=4, roots=2, names="x", interleave=True, shuffle=True, one=True)
        add("cali-rank3", caliper, M, "trees of 3 regions, 2 ranks, any record missing", n=3, roots=1, names="x", ranks=2, one=True)
        add("cali-kinds", caliper, M, "trees of 2 regions, values finite, NaN or infinite", n=2, names="xX", kinds=("fin", "nan", "inf"))
        add("cali-lines3", caliper_lines, L, "trees of 3 functions, samples at up to 3 source lines of 2 files", n=3, names="x",
            locs=["/p/u.c:12", "/p/u.c:3", "/q/u.c:12"])
        add("native4", native, M, "forests of 4 regions, any of them recorded", n=4, roots=2, names="xyz", one=True, reverse=True)
        add("native-rank3", native, M, "trees of 3 regions, 2 ranks, any record missing", n=3, names="xyz", ranks=2, one=True)
        add("native-order3", native, M, "forests of 3 regions with every order, root paths as strings", n=3, roots=2, names="xyz", order=True, one=True, reverse=True, strroot=True)
        add("native-order4", native, M, "trees of 4 regions with every order", n=4, roots=1, names="wxyz", order=True, one=True)
        add("timeseries3", timeseries, M + ["steps"], "trees of 3 regions, 3 steps, aliased columns", n=3, names=["x", "y", "z"], steps=3, alias="Time")
        add("gprof4", gprof, L, "call graphs of 4 functions without cycles", n=4, self=True)
        add("cprofile3-rec", cprofile, L, "call graphs of 3 functions with recursion and cycles", n=3, self=True, cycles=True, orders=[1])
        add("cprofile4", cprofile, L, "call graphs of 4 functions", n=4)
        add("pyinstrument5", pyinstrument, L, "trees of 5 calls, repeated names", n=5, names="xX")
        add("spot-runs4", spot_runs, ["runs", "nodes", "values", "metric-lists"], "databases of 4 runs, any recorded, any of them asked for in any order", runs=4)
        add("spot4", spot, M, "forests of 4 regions", n=4, roots=2, names="xX", mets=["sum#time.duration", "inclusive#sum#time"], text=True)
        add("tau-rank4", tau, L, "trees of 4 regions in the profiles of 2 ranks", n=4, names="wxyz", ranks=2)
        add("tau-rank3r", tau, L, "trees of 3 regions in the profiles of 3 ranks, 2 metrics", n=3, names="xyz", ranks=3, metrics=["PAPI_X", "TIME"])
        add("tau-rt3", tau, L, "trees of 3 regions, 2 ranks, 2 threads", n=3, names="xyz", ranks=2, threads=2)
        add("timemory4", timemory, L, "forests of 4 regions of one process", n=4, roots=2, names="xX", forms=["plain", "at"], full=True)
        add("timemory-rank3", timemory, L, "trees of 3 regions, 3 ranks", n=3, names="x", ranks=3, forms=["at"])
        add("timemory-rt3", timemory, L, "trees of 3 regions, 2 ranks, 2 threads", n=3, names=["x", "y", "z"], ranks=2, threads=2, forms=["at"])
    return hs
