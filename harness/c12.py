"""C12: operations leave their source graphframes unchanged."""
import copy as _copy

from .graphs import *

PROPERTY = "C12"


def snap(gf):
    df = gf.dataframe
    return {"graph": gf.graph, "gs": snapshot(gf.graph), "rows": rows_of(df), "cols": list(df.columns),
            "levels": list(df.index.names), "cells": {c: list(df[c].values) for c in df.columns},
            "exc": list(gf.exc_metrics), "inc": list(gf.inc_metrics), "default": gf.default_metric,
            "meta": _copy.deepcopy(gf.metadata)}


def check_same(inp, gf, s, label, what):
    df = gf.dataframe
    inp.check(label, gf.graph is s["graph"] and unchanged(gf.graph, s["gs"]), "%s: graph changed" % what)
    inp.check(label, list(df.columns) == s["cols"] and list(df.index.names) == s["levels"],
              "%s: columns %r %r" % (what, list(df.columns), list(df.index.names)))
    rows = rows_of(df)
    inp.check(label, len(rows) == len(s["rows"]) and all(a is b and x == y for (a, x), (b, y) in zip(rows, s["rows"])),
              "%s: rows changed" % what)
    for c in s["cols"]:
        for k, (a, b) in enumerate(zip(df[c].values, s["cells"][c])):
            inp.check(label, (a is b) or (a == b if isinstance(b, str) else inp.eqv(a, b)),
                      "%s: %s row %d: %r was %r" % (what, c, k, a, b))
    inp.check(label, gf.exc_metrics == s["exc"] and gf.inc_metrics == s["inc"], "%s: metric lists %r %r" % (what, gf.exc_metrics, gf.inc_metrics))
    inp.check(label, gf.default_metric == s["default"] and gf.metadata == s["meta"], "%s: default metric or metadata" % what)


SHAPES = {1: [[]], 2: [[(0, 1)], []], 3: [[(0, 1), (0, 2), (1, 2)], [(0, 1)], [(0, 1), (1, 2)], [(0, 1), (0, 2)]],
          4: [[(0, 1), (0, 2), (1, 3), (2, 3)], [(0, 1), (1, 2), (2, 3)], [(0, 1), (1, 2), (1, 3)]]}


def source(inp, tag, n, levels, kinds, mets, concrete=False, names=None, shapes=None):
    edges = inp.choice(tag + "shape", SHAPES[n][:shapes])
    names = names or LETTERS[:n]
    g, nodes = build_graph(n, edges, names)
    cols = {}
    k = [0]

    def cell(m):
        def f(i, ex):
            if concrete:
                k[0] += 1
                return float(k[0])
            return inp.metric("%s%s_%d_%s" % (tag, m, i, "".join(map(str, ex))), kinds)
        return f
    for m in mets:
        cols[m] = cell(m)
    df = build_df(nodes, levels, cols, names)
    gf = GraphFrame(g, df, [m for m in mets if "(inc)" not in m], [m for m in mets if "(inc)" in m],
                    default_metric=mets[0], metadata={"tag": tag, "nested": {"x": 1}})
    return gf, nodes


def derive(inp, how, gf, nodes, other):
    """Apply operation `how` to gf (and other): a derived graphframe or None."""
    lv = list(gf.dataframe.index.names)[1:]
    if how == "copy":
        return gf.copy()
    if how == "deepcopy":
        return gf.deepcopy()
    if how in ("filter", "filter-unsquashed", "filter2"):
        keep = [inp.flag("keep%d" % i) for i in range(len(gf.dataframe))]
        inp.assume(any(keep))
        order = {(P._builtin_id(nd), ex): i for i, (nd, ex) in enumerate(rows_of(gf.dataframe))}

        def pred(row):
            return keep[order[(P._builtin_id(row["node"]), tuple(row[x] for x in lv))]]
        return gf.filter(pred, squash=(how != "filter-unsquashed"), num_procs=1)
    if how == "query":
        from hatchet.query import ObjectQuery
        return gf.filter(ObjectQuery(["*", {"name": "[bc]"}], multi_index_mode="any" if lv else "off"), squash=True)
    if how == "squash":
        return gf.squash()
    if how in ("add", "sub", "mul", "div"):
        return getattr(gf, how)(other)
    if how == "operators":
        return ((gf + other) - other) * other / other
    if how == "add-self":
        return gf.add(gf)
    if how == "div-copy":
        return gf.div(gf.copy())
    if how == "groupby":
        return gf.groupby_aggregate("name", {m: "max" for m in gf.exc_metrics + gf.inc_metrics})
    raise ValueError(how)


MUTATIONS = ["exclusive", "inclusive", "sum-inplace", "sum-out", "iadd", "cell", "column", "drop-levels", "metadata", "lists", "default", "nested"]


def mutate(inp, what, d, other):
    if what == "exclusive":
        d.generate_exclusive_columns()
    elif what == "inclusive":
        d.update_inclusive_columns()
    elif what == "sum-inplace":
        d.subgraph_sum(list(d.exc_metrics))
    elif what == "sum-out":
        d.subgraph_sum(list(d.exc_metrics), ["total%d" % i for i in range(len(d.exc_metrics))])
    elif what == "iadd":
        d += other
    elif what == "isub":
        d -= d
    elif what == "cell":
        d.dataframe[d.default_metric] = [7.0] * len(d.dataframe)
        d.dataframe.iloc[0, list(d.dataframe.columns).index(d.default_metric)] = 8.0
    elif what == "column":
        d.dataframe["extra"] = 1
    elif what == "drop-levels":
        d.drop_index_levels(np.max)
    elif what == "metadata":
        d.metadata["new"] = 1
        d.metadata.pop("tag", None)
    elif what == "nested":
        d.metadata["nested"]["x"] = 2
    elif what == "lists":
        d.dataframe["time2"] = 1.0
        d.exc_metrics.append("time2")
        d.inc_metrics.clear()
    elif what == "default":
        d.default_metric = "other"


def unaffected(inp):
    p = inp.params
    gf, nodes = source(inp, "a", p["n"], p["levels"], p.get("kinds", ("fin",)), p["mets"], shapes=p.get("shapes"))
    other, onodes = source(inp, "b", p["m"], p["levels"], p.get("kinds", ("fin",)), p["mets"], shapes=p.get("oshapes", 1))
    bystander = GraphFrame(other.graph, other.dataframe.copy())     # built with the defaults
    sa, sb, sc = snap(gf), snap(other), snap(bystander)
    how = inp.choice("how", p["hows"])
    d = derive(inp, how, gf, nodes, other)
    check_same(inp, gf, sa, "source", how)
    check_same(inp, other, sb, "source", how + " (right operand)")
    inp.check("independent", d is not gf and d.dataframe is not gf.dataframe)
    if how == "copy" and p.get("muts"):
        # a shallow copy shares its graph and may share column data by design
        muts = [x for x in p["muts"] if x in ("exclusive", "sum-out", "column", "metadata", "lists", "default", "iadd", "drop-levels")]
    else:
        muts = p.get("muts", [])
    if how != "deepcopy":       # only deepcopy() copies what is in the metadata
        muts = [x for x in muts if x != "nested"]
    if how == "filter-unsquashed":
        # tree metrics need a row for every node of the graph
        muts = [x for x in muts if x not in ("exclusive", "inclusive", "sum-inplace", "sum-out")]
    for step in range(p.get("steps", 1)):
        if not muts:
            break
        mu = inp.choice("mut%d" % step, muts)
        if mu == "lists":       # operands of arithmetic have the same metrics
            muts = [x for x in muts if x not in ("iadd", "isub")]
        if how == "groupby" and mu == "iadd":
            continue
        mutate(inp, mu, d, other)
        check_same(inp, gf, sa, "later", "%s then %s" % (how, mu))
        check_same(inp, other, sb, "later", "%s then %s (right operand)" % (how, mu))
        check_same(inp, bystander, sc, "unrelated", "%s then %s" % (how, mu))


def scrub(x):
    """Change everything changeable in an exported structure."""
    if isinstance(x, dict):
        for v in list(x.values()):
            scrub(v)
        x.clear()
        x["new"] = 1
    elif isinstance(x, list):
        for v in x:
            scrub(v)
        x.clear()
        x.append("new")


def exports(inp):
    p = inp.params
    gf, nodes = source(inp, "a", p["n"], p["levels"], ("fin",), p["mets"])
    gf.dataframe["tag"] = ["t%d" % i for i in range(len(gf.dataframe))]
    s = snap(gf)
    what = inp.choice("what", ["dict", "json", "literal", "literal-attrs", "dot", "stacks", "tree", "show"])
    out = None
    if what in ("dot", "stacks") and any(len(x.parents) > 1 for x in nodes):
        inp.assume(what == "dot")
    if what == "dict":
        out = gf.to_dict()
    elif what == "json":
        out = gf.to_json()
    elif what == "literal":
        out = gf.to_literal()
    elif what == "literal-attrs":
        out = gf.to_literal(cat_columns=["tag", "absent"])
    elif what == "dot":
        import matplotlib.cm
        import matplotlib.colors
        old = matplotlib.cm.Reds, matplotlib.colors.rgb2hex
        matplotlib.cm.Reds, matplotlib.colors.rgb2hex = (lambda w: w), (lambda c: "#000000")
        try:
            out = gf.to_dot()
        finally:
            matplotlib.cm.Reds, matplotlib.colors.rgb2hex = old
    elif what == "stacks":
        out = gf.to_flamegraph()
    elif what == "tree":
        out = gf.tree()
    else:
        out = gf.show_metric_columns()
    check_same(inp, gf, s, "source", what)
    scrub(out)
    check_same(inp, gf, s, "exported", what)


def defaults(inp):
    """Graphframes built with default arguments have nothing in common."""
    a, an = source(inp, "a", 2, "node", ("fin",), ["time"])
    x = GraphFrame(a.graph, a.dataframe.copy())
    y = GraphFrame(a.graph, a.dataframe.copy())
    s = snap(y)
    which = inp.choice("which", ["metadata", "lists", "default"])
    mutate(inp, which, x, None)
    check_same(inp, y, s, "unrelated", which)
    check_same(inp, GraphFrame(a.graph, a.dataframe.copy()), s, "unrelated", which)


def harnesses(tier):
    q = tier == "quick"
    hs = []
    L = ["source", "independent", "later", "unrelated"]

    def add(name, fn, labels, bounds, validate=20, **kw):
        kw.setdefault("levels", "node")
        kw.setdefault("mets", ["time", "time (inc)"])
        hs.append(H(name, fn, labels, bounds, kw, validate=validate))
    hows = ["copy", "deepcopy", "filter", "filter-unsquashed", "query", "squash", "add", "sub", "mul", "div", "operators", "add-self",
            "div-copy", "groupby"]
    add("once", unaffected, L, "4 shapes of 3 nodes (incl. DAG and forest), every operation followed by every in-place change", n=3, m=2,
        hows=hows, muts=MUTATIONS + ["isub"], shapes=2 if q else 4)
    add("exports", exports, ["source", "exported"], "3 nodes, every export, then the exported structure is emptied", n=3)
    add("exports-rank", exports, ["source", "exported"], "2 nodes, 2 ranks, every export", n=2, levels="rank")
    add("ranks", unaffected, L, "2 nodes, 2 ranks", n=2, m=1, hows=[h for h in hows if h != "operators"], muts=MUTATIONS, levels="rank", shapes=1 if q else 4)
    add("defaults", defaults, ["unrelated"], "graphframes built with default arguments")
    add("twice", unaffected, L, "2 nodes, every operation followed by two in-place changes", n=2, m=1, hows=hows, muts=MUTATIONS, steps=2, shapes=1 if q else 4)
    if not q:
        add("special", unaffected, L, "3 nodes, NaN and infinite values", n=2, m=1, hows=hows, muts=MUTATIONS, kinds=("fin", "nan", "inf"))
        add("four", unaffected, L, "diamond, chain and branch of 4 nodes", n=4, m=2, hows=hows, muts=MUTATIONS + ["isub"])
        add("rt", unaffected, L, "2 nodes, rank and thread", n=2, m=1, hows=[h for h in hows if h != "operators"], muts=MUTATIONS, levels="rt")
    return hs
