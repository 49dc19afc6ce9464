"""C33: what cannot be done is refused with its own error, and a refusal changes nothing."""
from hatchet.graphframe import EmptyFilter, InvalidFilter
from hatchet.node import MultiplePathError
from hatchet.query import (AndQuery, ConjunctionQuery, DisjunctionQuery, ExclusiveDisjunctionQuery, NegationQuery, NotQuery, ObjectQuery, OrQuery,
                           Query, QueryMatcher, StringQuery, XorQuery, parse_string_dialect)
from hatchet.query.errors import BadNumberNaryQueryArgs, InvalidQueryFilter, InvalidQueryPath, MultiIndexModeMismatch
from hatchet.util.colormaps import ColorMaps
from .graphs import *
from .c12 import snap, check_same

PROPERTY = "C33"

ASSUMPTIONS = ["metric values are exact reals (finite)"]


def source(inp, levels=None):
    p = inp.params
    n, levels = p["n"], levels or p["levels"]
    edges = par_edges(tree_parents(inp, n, roots=p.get("roots", 1))) if p.get("shape", "tree") == "tree" else dag_edges(inp, n)
    names = letters(inp, n)
    g, nodes = build_graph(n, edges, names)
    val = {}

    def cell(i, ex):
        val[(i, ex)] = inp.real("t%d_%s" % (i, "".join(map(str, ex))))
        return val[(i, ex)]
    df = build_df(nodes, levels, {"time": cell, "time (inc)": lambda i, ex: 1.0}, names)
    gf = GraphFrame(g, df, ["time"], ["time (inc)"], default_metric="time", metadata={"k": 1})
    return gf, nodes, edges, names, val


def attempt(fn):
    """(result, error)"""
    try:
        return fn(), None
    except Exception as e:
        return None, e


def refused(inp, gf, s, excs, fn, what, label="refused"):
    _, e = attempt(fn)
    inp.check(label, e is not None and isinstance(e, excs), "%s: %r" % (what, e))
    check_same(inp, gf, s, "unchanged", what)


def still_works(inp, gf, names, mode="off"):
    """A filter after the refusal finds what it should."""
    out, e = attempt(lambda: gf.filter([("*", {"name": "[a-z]"})], multi_index_mode=mode, squash=False))
    inp.check("works", e is None and len(out.dataframe) == len(gf.dataframe), "a valid query after the refusal: %r" % (e,))


def empty(inp):
    """EmptyFilter exactly when nothing is kept."""
    p = inp.params
    gf, nodes, edges, names, val = source(inp)
    s = snap(gf)
    exs = frame_index(p["levels"])[1]
    mode = inp.choice("mode", ["any", "all"]) if len(exs) > 1 else "off"
    how = inp.choice("how", p["hows"])
    t = inp.real("limit")
    over = {i: [val[(i, ex)] > t for ex in exs] for i in range(len(nodes))}
    agg = (lambda v: inp.And(*v)) if mode == "all" else (lambda v: inp.Or(*v))
    each = [agg(over[i]) for i in range(len(nodes))]
    if how == "callable":
        fn, kept = (lambda row: bool(row["time"] > t)), inp.Or(*[x for v in over.values() for x in v])
    elif how == "list":
        fn, kept = [{"time": "> %s" % (t,)}], inp.Or(*each)
    elif how == "object":
        fn, kept = ObjectQuery([{"time": "> %s" % (t,)}], mode), inp.Or(*each)
    elif how == "string":
        inp.assume(not inp.symbolic or True)
        fn, kept = 'MATCH (".", p) WHERE p."name" = "%s"' % inp.choice("nm", ["a", "q"]), None
        kept = "a" in fn.split("=")[1] and "a" in names
    elif how == "conjunction":
        q1, q2 = ObjectQuery([{"time": "> %s" % (t,)}], mode), ObjectQuery([{"name": names[0]}], mode if mode != "off" else "off")
        fn, kept = ConjunctionQuery(q1, q2), each[0]
    elif how == "path":
        # the root and one of its children
        q = [{"time": "> %s" % (t,)}, {"time": "> %s" % (t,)}]
        fn, kept = q, inp.Or(*[inp.And(each[a], each[b]) for a, b in edges]) if edges else False
    squash = inp.flag("squash")
    out, e = attempt(lambda: gf.filter(fn, squash=squash, num_procs=1, multi_index_mode=mode))
    inp.check("refused", e is None or isinstance(e, EmptyFilter), "%s: %r" % (how, e))
    inp.check("refused", inp.Iff(e is None, kept), "%s: %r" % (how, e))
    if e is None:
        inp.check("kept", len(out.dataframe) > 0)
    check_same(inp, gf, s, "unchanged", how)
    still_works(inp, gf, names, mode)


ILL_OBJ = [("name", 5), ("name", 2.5), ("name", None), ("name", ["a", 3]), ("time", "abc"), ("time", None), ("time", ["> 1", "x"]),
           ("depth", "x"), ("depth", None), ("node_id", "one"), ("node_id", None)]
WELL_OBJ = [("name", "[a-z]"), ("depth", ">= 0"), ("node_id", ">= 0"), ("nope", 5), ("nope", "x")]
ILL_STR = ['p."name" = 5', 'p."name" > 5', 'p."name" <= 5', 'p."name" IS NAN', 'p."name" IS NOT INF', 'p."time" = "abc"', 'p."time" STARTS WITH "a"',
           'p."time" ENDS WITH "a"', 'p."time" CONTAINS "a"', 'p."time" =~ "a.*"', 'NOT p."name" < 5', 'p."depth" = 0 AND p."name" >= 5',
           'p."name" STARTS WITH "a" OR p."time" CONTAINS "1"']
WELL_STR = ['p."name" = "a"', 'p."depth" >= 0', 'p."nope" = 5', 'p."nope" = "x"', 'p IS LEAF', 'p."name" IS NOT NONE']


def typed(inp):
    """Conditions that do not fit the attribute's type."""
    p = inp.params
    gf, nodes, edges, names, val = source(inp)
    s = snap(gf)
    exs = frame_index(p["levels"])[1]
    mode = inp.choice("mode", ["any", "all"]) if len(exs) > 1 else "off"
    agg = (lambda v: inp.And(*v)) if mode == "all" else (lambda v: inp.Or(*v))
    if p["dialect"] == "object":
        key, v = inp.choice("cond", ILL_OBJ + WELL_OBJ)
        ill = (key, v) in ILL_OBJ
        first = inp.choice("first", ["none", "threshold", "name"])
        cond, reached = {}, True
        if first == "threshold" and key != "time":
            t = inp.real("limit")
            cond["time"] = "> %s" % (t,)
            reached = inp.Or(*[agg([val[(i, ex)] > t for ex in exs]) for i in range(len(nodes))])
        elif first == "name" and key != "name":
            nm = inp.choice("nm", [names[-1], "q"])
            cond["name"] = nm
            reached = nm != "q"
        else:
            inp.assume(first == "none")
        if isinstance(v, list):
            inp.assume(first == "none")
        if v == ["a", 3]:
            reached = "a" in names          # the texts before the number have to match
        if v == ["> 1", "x"]:
            reached = inp.Or(*[agg([val[(i, ex)] > 1 for ex in exs]) for i in range(len(nodes))])
        cond[key] = v
        fn = inp.choice("form", [lambda: [cond], lambda: ["*", ("+", cond)], lambda: ObjectQuery([cond], mode)])()
        what = repr((key, v, first))
    else:
        c = inp.choice("cond", ILL_STR + WELL_STR)
        ill, reached, what = c in ILL_STR, True, c
        fn = inp.choice("form", ['MATCH (p) WHERE %s', 'MATCH ("*")->("+", p) WHERE %s']) % c
    out, e = attempt(lambda: gf.filter(fn, multi_index_mode=mode))
    if ill:
        inp.check("refused", inp.Iff(isinstance(e, InvalidQueryFilter), reached), "%s: %r" % (what, e))
    inp.check("refused", e is None or isinstance(e, (EmptyFilter, InvalidQueryFilter) if ill else EmptyFilter), "%s: %r" % (what, e))
    check_same(inp, gf, s, "unchanged", what)
    still_works(inp, gf, names, mode)


MALFORMED = [
    ("not a list", AssertionError, lambda: ObjectQuery("x")), ("float", InvalidQueryPath, lambda: ObjectQuery([1.5])),
    ("None", InvalidQueryPath, lambda: ObjectQuery(["*", None])), ("set", InvalidQueryPath, lambda: ObjectQuery([{"name"}])),
    ("nested list", InvalidQueryPath, lambda: ObjectQuery([[{"name": "a"}]])),
    ("float quantifier", InvalidQueryPath, lambda: ObjectQuery([(1.5, {"name": "a"})])),
    ("None quantifier", InvalidQueryPath, lambda: ObjectQuery(["*", (None, {"name": "a"})])),
    ("filter that is no dict", AssertionError, lambda: ObjectQuery([("*", 5)])), ("unknown quantifier", AssertionError, lambda: ObjectQuery(["?"])),
    ("unknown quantifier in a tuple", AssertionError, lambda: ObjectQuery([("**", {"name": "a"})])),
    ("object mode", AssertionError, lambda: ObjectQuery([{"name": "a"}], "some")), ("string mode", AssertionError, lambda: StringQuery("MATCH (p)", "some")),
    ("rel first", InvalidQueryPath, lambda: Query().rel("*")), ("relation first", InvalidQueryPath, lambda: Query().relation()),
    ("old rel first", InvalidQueryPath, lambda: QueryMatcher().rel("*")), ("match float", AssertionError, lambda: Query().match(1.5)),
    ("match ?", AssertionError, lambda: Query().match("?")), ("predicate", AssertionError, lambda: Query().match(".", 3)),
    ("rel predicate", AssertionError, lambda: Query().match().rel("*", "x")), ("old path", InvalidQueryPath, lambda: QueryMatcher("MATCH (p)")),
] + [("string " + t, e, (lambda t=t: parse_string_dialect(t))) for t, e in [
    ("MATCH", InvalidQueryPath), ("MATCH (p", InvalidQueryPath), ("MATCH p", InvalidQueryPath), ('MATCH ("*" p)', InvalidQueryPath),
    ("MATCH (p)->", InvalidQueryPath), ("MATCH (p)(q)", InvalidQueryPath), ("MATCH (p) WHERE", InvalidQueryPath), ('WHERE p."time" > 1', InvalidQueryPath),
    ('MATCH (p) WHERE p."time" >', InvalidQueryPath), ('MATCH (p) WHERE p."time" > "a"', InvalidQueryPath), ('MATCH (p) WHERE p."time"', InvalidQueryPath),
    ('MATCH (p) WHERE p."time" > 1 AND', InvalidQueryPath), ('MATCH (p) WHERE p.time > 1', InvalidQueryPath), ('MATCH (p) WHERE p IS', InvalidQueryPath),
    ('MATCH (p) WHERE p."name" STARTS WITH 5', InvalidQueryPath), ('MATCH (p) WHERE NOT', InvalidQueryPath), ("", InvalidQueryPath),
    ('match (p)', InvalidQueryPath), ('MATCH (p) WHERE q."time" > 1', (InvalidQueryPath, KeyError)), ('MATCH ("?", p)', AssertionError)]]
A, B = 'MATCH (p) WHERE p."name" = "a"', 'p."name" = "b"'
MALFORMED += [("braces " + t, ValueError, (lambda t=t: parse_string_dialect(t))) for t in [
    "NOT {%s}" % A, "{%s} OR %s" % (A, A), "%s OR {%s}" % (A, A), "{%s} OR {%s} AND %s" % (A, A, A), "{%s} {%s}" % (A, A), "{%s} OR" % A, "{%s} NOT {%s}" % (A, A),
    "{%s} OR NOT {%s}" % (A, A), "MATCH (p) WHERE NOT {%s}" % B, "MATCH (p) WHERE {%s} OR %s" % (B, B), "%s OR {%s}" % (A, B), "MATCH (p) WHERE {%s} AND {%s} OR %s" % (B, B, B),
    "MATCH (p) WHERE {%s} OR {%s}" % (B, A), "{%s} {%s}" % (A, B), "{%s} AND {}" % A, "{}", "{nothing}", "MATCH (p) WHERE {%s} AND" % B, "{%s} MATCH (p)" % A]]


def queries(inp):
    """Malformed queries, and things that are no filter."""
    gf, nodes, edges, names, val = source(inp)
    s = snap(gf)
    if inp.flag("no_filter"):
        x = inp.choice("what", [5, None, 2.5, {"name": "a"}, ("*",), nodes[0], {"a"}, b"MATCH (p)"])
        refused(inp, gf, s, InvalidFilter, lambda: gf.filter(x, num_procs=1), repr(x))
    else:
        what, excs, fn = inp.choice("query", MALFORMED)
        refused(inp, gf, s, excs, lambda: gf.filter(fn(), multi_index_mode="off"), what)
    still_works(inp, gf, names)


def subqueries(inp):
    """Compound queries with the wrong number or kinds of subqueries."""
    gf, nodes, edges, names, val = source(inp)
    s = snap(gf)
    cls, least, most = inp.choice("cls", [(ConjunctionQuery, 2, None), (DisjunctionQuery, 2, None), (ExclusiveDisjunctionQuery, 2, None), (NegationQuery, 1, 1),
                                          (AndQuery, 2, None), (OrQuery, 2, None), (XorQuery, 2, None), (NotQuery, 1, 1)])
    n = inp.choice("n", [0, 1, 2, 3])
    subs = [inp.choice("sub%d" % k, ["query", "list", "text", "number", "none"]) for k in range(n)]
    args = [{"query": ObjectQuery([{"name": "a"}]), "list": [{"name": "a"}], "text": 'MATCH (p) WHERE p."name" = "a"', "number": 5, "none": None}[x] for x in subs]
    make = (lambda: cls(*args)) if not inp.flag("tuple") else (lambda: cls(tuple(args)))
    bad = any(x in ("number", "none") for x in subs)
    count_ok = n >= least and (most is None or n <= most)
    if bad or not count_ok:
        excs = (TypeError,) if count_ok else (TypeError, BadNumberNaryQueryArgs) if bad else (BadNumberNaryQueryArgs,)
        refused(inp, gf, s, excs, lambda: gf.filter(make()), "%s%r" % (cls.__name__, subs))
    else:
        out, e = attempt(lambda: gf.filter(make()))
        inp.check("works", e is None or isinstance(e, EmptyFilter), "%s%r: %r" % (cls.__name__, subs, e))
    still_works(inp, gf, names)


def modes(inp):
    """Queries that are not made for several rows per node."""
    gf, nodes, edges, names, val = source(inp)
    s = snap(gf)
    q = inp.choice("q", [[{"name": "a"}], [{"time": "> 1"}], ["*", {"depth": 0}], ["*", ("+", {"nope": 3})]])
    refused(inp, gf, s, MultiIndexModeMismatch, lambda: gf.filter(q), repr(q))
    still_works(inp, gf, names, "any")


def boom(*a):
    raise ZeroDivisionError("given function")


ARGS = [
    ("GraphFrame without graph", ValueError, lambda gf, ns: GraphFrame(None, gf.dataframe)),
    ("GraphFrame without table", ValueError, lambda gf, ns: GraphFrame(gf.graph, None)),
    ("GraphFrame without node index", ValueError, lambda gf, ns: GraphFrame(gf.graph, gf.dataframe.reset_index())),
    ("empty Frame", ValueError, lambda gf, ns: Frame({})), ("Frame of nothing", ValueError, lambda gf, ns: Frame()),
    ("Frame of None", ValueError, lambda gf, ns: Frame(None)),
    ("node traversal order", ValueError, lambda gf, ns: list(ns[0].traverse(order="in"))),
    ("graph traversal order", ValueError, lambda gf, ns: list(gf.graph.traverse(order="in"))),
    ("node order traversal", ValueError, lambda gf, ns: list(ns[0].node_order_traverse(order="in"))),
    ("graph from text", ValueError, lambda gf, ns: Graph.from_lists("a")), ("graph from lists and a node", ValueError, lambda gf, ns: Graph.from_lists(["a"], ns[0])),
    ("node from number", ValueError, lambda gf, ns: Node.from_lists(5)), ("node from a list with a number", ValueError, lambda gf, ns: Node.from_lists(["a", 5])),
    ("node from a nested list", ValueError, lambda gf, ns: Node.from_lists([["a"], "b"])),
    ("unknown metric", KeyError, lambda gf, ns: gf.tree(metric_column="nope")), ("unknown second metric", KeyError, lambda gf, ns: gf.tree(metric_column=["time", "nope"])),
    ("unknown colormap", ValueError, lambda gf, ns: ColorMaps().get_colors("nope", False)),
    ("deprecated metric", ValueError, lambda gf, ns: gf.tree(metric="time")), ("deprecated name", ValueError, lambda gf, ns: gf.tree(name="name")),
    ("deprecated context", ValueError, lambda gf, ns: gf.tree(context="file")), ("deprecated expand_names", ValueError, lambda gf, ns: gf.tree(expand_names=True)),
    ("deprecated invert_colors", ValueError, lambda gf, ns: gf.tree(invert_colors=True)),
    ("old and new argument", TypeError, lambda gf, ns: gf.tree(metric="time", metric_column="time")),
    ("unknown dot metric", KeyError, lambda gf, ns: gf.to_dot(metric="nope")), ("unknown stack metric", KeyError, lambda gf, ns: gf.to_flamegraph(metric="nope")),
    ("subtree sum lengths", ValueError, lambda gf, ns: gf.subtree_sum(["time"], ["a", "b"])),
    ("subtree sum lengths 2", ValueError, lambda gf, ns: gf.subtree_sum(["time", "time (inc)"], ["a"])),
    ("subgraph sum lengths", ValueError, lambda gf, ns: gf.subgraph_sum(["time", "time (inc)"], ["time"])),
    ("subgraph sum lengths 2", ValueError, lambda gf, ns: gf.subgraph_sum(["time"], [])),
    ("unknown group column", KeyError, lambda gf, ns: gf.groupby_aggregate("nope", {"time": "sum"})),
    ("unknown aggregated column", KeyError, lambda gf, ns: gf.groupby_aggregate("name", {"nope": "sum"})),
    ("failing predicate", ZeroDivisionError, lambda gf, ns: gf.filter(boom, num_procs=1)),
    ("failing query predicate", ZeroDivisionError, lambda gf, ns: gf.filter(Query().match("*", boom))),
    ("failing aggregate of a group", ZeroDivisionError, lambda gf, ns: gf.groupby_aggregate("name", {"time": boom})),
    ("failing aggregate of dropped levels", ZeroDivisionError, lambda gf, ns: gf.drop_index_levels(boom)),
    ("unknown metric on several ranks", KeyError, lambda gf, ns: gf.subtree_sum(["nope"], ["x"])),
]


def arguments(inp):
    gf, nodes, edges, names, val = source(inp)
    s = snap(gf)
    what, excs, fn = inp.choice("what", ARGS)
    refused(inp, gf, s, excs, lambda: fn(gf, nodes), what)
    for x in nodes:
        many = len([q for q in node_paths(gf.graph) if q[-1] is x]) > 1
        got, e = attempt(lambda: x.path())
        inp.check("refused", isinstance(e, MultiplePathError) if many else e is None, "path of %r: %r" % (x, e))
    still_works(inp, gf, names, "off" if inp.params["levels"] == "node" else "any")


def paths(inp):
    """Node.path and Node.paths of every node of a DAG."""
    gf, nodes, edges, names, val = source(inp)
    s = snap(gf)
    every = node_paths(gf.graph)
    for x in nodes:
        want = [q for q in every if q[-1] is x]
        got, e = attempt(lambda: x.path())
        if len(want) > 1:
            inp.check("refused", isinstance(e, MultiplePathError), "path of %r with %d paths: %r %r" % (x, len(want), got, e))
        else:
            inp.check("refused", e is None and len(got) == len(want[0]) and all(a is b for a, b in zip(got, want[0])), "path of %r: %r %r" % (x, got, e))
        got = x.paths()
        inp.check("refused", len(got) == len(want) and all(any(len(g) == len(w) and all(a is b for a, b in zip(g, w)) for g in got) for w in want),
                  "paths of %r: %r, not %r" % (x, got, want))
    check_same(inp, gf, s, "unchanged", "path")
    still_works(inp, gf, names, "off" if inp.params["levels"] == "node" else "any")


def harnesses(tier):
    q = tier == "quick"
    hs = []

    def add(name, fn, labels, bounds, validate=20, **kw):
        kw.setdefault("levels", "node")
        hs.append(H(name, fn, labels, bounds, kw, validate=validate))
    L = ["refused", "unchanged", "works"]
    add("empty", empty, L + ["kept"], "trees on 3 nodes, any threshold, callable, queries, compounds", n=3,
        hows=["callable", "list", "object", "string", "conjunction", "path"])
    add("empty-ranks", empty, L + ["kept"], "trees on 2 nodes, 2 ranks", n=2, levels="rank", hows=["callable", "list", "object", "path"])
    add("typed", typed, L, "trees on 2 nodes, %d ill-typed and %d well-typed conditions" % (len(ILL_OBJ), len(WELL_OBJ)), n=2, dialect="object")
    add("typed-ranks", typed, L, "trees on 2 nodes, 2 ranks, both modes", n=2, dialect="object", levels="rank")
    add("typed-string", typed, L, "trees on 2 nodes, %d ill-typed and %d well-typed conditions" % (len(ILL_STR), len(WELL_STR)), n=2, dialect="string")
    add("typed-string-ranks", typed, L, "trees on 2 nodes, 2 ranks, both modes", n=2, dialect="string", levels="rank")
    add("queries", queries, L, "%d malformed queries, 8 things that are no filter" % len(MALFORMED), n=2)
    add("subqueries", subqueries, L, "0-%d subqueries of 5 kinds, 8 classes" % 3, n=1)
    add("modes", modes, L, "trees on 2 nodes, 2 ranks", n=2, levels="rank")
    add("arguments", arguments, L, "DAGs on 3 nodes, %d refused calls" % len(ARGS), n=3, shape="dag")
    add("arguments-ranks", arguments, L, "trees on 2 nodes, 2 ranks", n=2, levels="rank")
    add("paths", paths, L, "every node of DAGs on 4 nodes", n=4, shape="dag")
    if not q:
        add("paths5", paths, L, "every node of DAGs on 5 nodes", n=5, shape="dag")
        add("empty4", empty, L + ["kept"], "forests on 4 nodes", n=4, roots=2, hows=["callable", "list", "object", "string", "conjunction", "path"])
        add("empty-rt", empty, L + ["kept"], "trees on 2 nodes, rank/thread rows", n=2, levels="rt", hows=["callable", "list", "object", "path"])
        add("typed3", typed, L, "trees on 3 nodes", n=3, dialect="object")
        add("typed-string3", typed, L, "trees on 3 nodes, rank/thread rows", n=3, dialect="string", levels="rt")
    return hs
