"""C19: group-by aggregation condenses the call graph by group."""
from .graphs import *
from .c12 import snap, check_same

PROPERTY = "C19"

AGG = {"sum": np.sum, "max": np.max, "mean": np.mean, "min": "min", "sumstr": "sum"}


def groupby(inp):
    p = inp.params
    n, levels = p["n"], p["levels"]
    if p["shape"] == "tree":
        edges = par_edges(tree_parents(inp, n, roots=p.get("roots", 1)))
    else:
        edges = dag_edges(inp, n, max_roots=p.get("max_roots"))
    groups = [inp.choice("g%d" % i, p["groups"]) for i in range(n)]
    by = inp.choice("by", p.get("by", ["module"]))
    names = groups if by == "name" else letters(inp, n)
    g, nodes = build_graph(n, edges, names)
    mets = ["time", "time (inc)"]
    vals = {(m, i, ex): inp.metric("%s_%d_%s" % (m, i, "".join(map(str, ex))), p.get("kinds", ("fin",)))
            for m in mets for i in range(n) for ex in frame_index(levels)[1]}
    df = build_df(nodes, levels, {m: (lambda i, ex, m=m: vals[(m, i, ex)]) for m in mets}, names)
    num = {P._builtin_id(x): i for i, x in enumerate(nodes)}
    df["module"] = [groups[num[P._builtin_id(nd)]] for nd, _ in rows_of(df)]
    df["line"] = list(range(len(df)))
    gf = GraphFrame(g, df, ["time"], ["time (inc)"], default_metric="time", metadata={"k": 1})
    fn = inp.choice("agg", p.get("aggs", ["sum"]))
    key = {"module": "module", "list": ["module"], "name": "name",
           "callable": lambda i: groups[num[P._builtin_id(i[0] if isinstance(i, tuple) else i)]]}[by]
    s = snap(gf)
    agg = {m: AGG[fn] for m in mets}
    if p.get("extra"):
        agg["line"] = "max"
    out = gf.groupby_aggregate(key, agg)
    check_same(inp, gf, s, "original-unchanged", "groupby")
    # ---- one node per group, named after it
    gs = sorted(set(groups))
    ns = all_nodes(out.graph)
    bygroup = {}
    for x in ns:
        inp.check("nodes", frame_name(x) not in bygroup, "two nodes named %r" % frame_name(x))
        bygroup[frame_name(x)] = x
    inp.check("nodes", sorted(bygroup) == gs, "nodes %r for groups %r" % (sorted(bygroup), gs))
    inp.check("nodes", not any(has(nodes, x) for x in ns))
    # ---- edges between different groups
    for a in gs:
        want = sorted({groups[y] for x, y in edges if groups[x] == a and groups[y] != a})
        got = sorted(frame_name(c) for c in bygroup[a].children)
        inp.check("edges", got == want, "children of %s: %r, not %r" % (a, got, want))
        wantp = sorted({groups[x] for x, y in edges if groups[y] == a and groups[x] != a})
        gotp = sorted(frame_name(c) for c in bygroup[a].parents)
        inp.check("edges", gotp == wantp, "parents of %s: %r, not %r" % (a, gotp, wantp))
        inp.check("edges", all(has(ns, c) for c in bygroup[a].children + bygroup[a].parents))
    kids = {b for _, b in edges}
    inp.check("roots", sorted(frame_name(r) for r in out.graph.roots) == sorted({groups[i] for i in range(n) if i not in kids}))
    # ---- the table
    inp.check("table", list(out.dataframe.index.names) == ["node"] and len(out.dataframe) == len(gs), "index %r" % (out.dataframe.index.names,))
    for nd, ex in rows_of(out.dataframe):
        inp.check("table", has(ns, nd), "row of a foreign node")
        k = frame_name(nd)
        inp.check("table", loc(out.dataframe, nd, (), "name") == k)
        for m in mets:
            vs = [vals[(m, i, ex)] for i in range(n) if groups[i] == k for ex in frame_index(levels)[1]]
            got = loc(out.dataframe, nd, (), m)
            inp.check("aggregate", inp.eqv(got, reduce(inp, fn, vs)), "%s of group %s: %r" % (m, k, got))
    inp.check("metric-lists", out.exc_metrics == ["time"] and out.inc_metrics == ["time (inc)"] and out.default_metric == "time"
              and out.metadata == {"k": 1})


def reduce(inp, fn, vs):
    vs = [v for v in vs if not isnan(v)]
    if not vs:
        return 0.0 if fn in ("sum", "sumstr") else P.NAN
    t = vs[0]
    for v in vs[1:]:
        if fn in ("max", "min"):
            t = (v if bool(v > t) else t) if fn == "max" else (v if bool(v < t) else t)
        else:
            t = t + v
    return t / len(vs) if fn == "mean" else t


def harnesses(tier):
    q = tier == "quick"
    hs = []
    L = ["original-unchanged", "nodes", "edges", "roots", "table", "aggregate", "metric-lists"]

    def add(name, bounds, validate=20, **kw):
        kw.setdefault("levels", "node")
        kw.setdefault("groups", "yxz")
        hs.append(H(name, groupby, L, bounds, kw, validate=validate))
    add("trees", "trees on 4 nodes, groups x/y/z in any arrangement, sums", n=4, shape="tree", by=["module"])
    add("forests", "forests on 3 nodes, by column, list, name or callable", n=3, shape="tree", roots=3, by=["module", "list", "name", "callable"],
        aggs=["sum", "mean"])
    add("dags", "DAGs on 4 nodes, groups x/y", n=4, shape="dag", groups="yx", by=["module"], max_roots=2)
    add("aggs", "trees on 3 nodes, groups x/y, every aggregate", n=3, shape="tree", groups="yx", by=["module"], aggs=["sum", "max", "mean", "min"],
        extra=True)
    add("ranks", "trees on 3 nodes, 2 ranks", n=3, shape="tree", groups="yx", by=["module", "name"], aggs=["sum"], levels="rank")
    if not q:
        add("trees5", "trees on 5 nodes, groups x/y/z", n=5, shape="tree", by=["module"])
        add("four-groups", "trees on 4 nodes, 4 groups", n=4, shape="tree", by=["module"], groups="yxzw")
        add("dags4", "DAGs on 4 nodes, groups x/y/z", n=4, shape="dag", by=["module"])
        add("rt", "trees on 3 nodes, rank/thread rows", n=3, shape="tree", groups="yx", by=["module"], levels="rt", aggs=["sum", "mean"])
    return hs
