"""C20: dropping the index levels other than the node."""
from .graphs import *
from .c19 import reduce

PROPERTY = "C20"

FN = {"default": None, "mean": np.mean, "sum": np.sum, "max": np.max, "min": np.min, "sumstr": "sum",
      "last": lambda s: s.iloc[-1], "spread": lambda s: s.iloc[0] - s.iloc[-1], "median": np.median}


def expected(inp, fn, vs):
    if fn == "last":
        return vs[-1]
    if fn == "spread":
        return P.NAN if isnan(vs[0]) or isnan(vs[-1]) else vs[0] - vs[-1]
    return reduce(inp, {"default": "mean"}.get(fn, fn), vs)


def drop(inp):
    p = inp.params
    n, levels = p["n"], p["levels"]
    if p.get("shape") == "dag":
        edges = dag_edges(inp, n)
    else:
        edges = par_edges(tree_parents(inp, n, roots=p.get("roots", 1)))
    names = [inp.choice("nm%d" % i, p["names"]) for i in range(n)] if p.get("names") else letters(inp, n)
    g, nodes = build_graph(n, edges, names)
    exs = frame_index(levels)[1]
    have = {(i, ex): not p.get("holes") or inp.flag("row_%d_%s" % (i, "".join(map(str, ex)))) for i in range(n) for ex in exs}
    inp.assume(any(have.values()))
    mets = p.get("mets", ["time", "time (inc)"])
    vals = {(m, i, ex): inp.metric("%s_%d_%s" % (m, i, "".join(map(str, ex))), p.get("kinds", ("fin",))) if have[(i, ex)] else 0.0
            for m in mets for i in range(n) for ex in exs}
    num = {P._builtin_id(x): i for i, x in enumerate(nodes)}
    df = build_df(nodes, levels, {m: (lambda i, ex, m=m: vals[(m, i, ex)]) for m in mets}, names, rows=lambda i, ex: have[(i, ex)])
    if inp.choice("row-order", p.get("orders", [False])):
        df = df.iloc[::-1]
    df["host"] = ["h%d%s" % (num[P._builtin_id(nd)], "".join(map(str, ex))) for nd, ex in rows_of(df)]
    df["code"] = [10 * num[P._builtin_id(nd)] + k for k, (nd, ex) in enumerate(rows_of(df))]
    gf = GraphFrame(g, df, [m for m in mets if "(inc)" not in m], [m for m in mets if "(inc)" in m], default_metric=mets[0], metadata={"k": 1})
    order = rows_of(df)
    cols = list(df.columns)
    snapg = snapshot(g)
    host, code = list(df["host"]), list(df["code"])
    fn = inp.choice("fn", p.get("fns", ["default"]))
    if fn == "default":
        r = gf.drop_index_levels()
    else:
        r = gf.drop_index_levels(FN[fn])
    inp.check("in-place", r is None)
    out = gf.dataframe
    inp.check("graph-unchanged", gf.graph is g and unchanged(g, snapg))
    rows = rows_of(out)
    withrows = [i for i in range(n) if any(have[(i, ex)] for ex in exs)]
    inp.check("rows", list(out.index.names) == ["node"] and len(rows) == len(withrows), "%d rows for %d nodes" % (len(rows), len(withrows)))
    inp.check("rows", sorted(out.columns) == sorted(cols), "columns %r" % (list(out.columns),))
    ids = [nd._hatchet_nid for nd, _ in rows]
    inp.check("rows", ids == sorted(ids), "rows not in the order of the nodes")
    for i in withrows:
        k = [j for j, (nd, _) in enumerate(rows) if nd is nodes[i]]
        inp.check("rows", len(k) == 1, "node %d has %d rows" % (i, len(k)))
        mine = [j for j, (nd, ex) in enumerate(order) if nd is nodes[i]]
        for m in mets:
            got = out[m].iloc[k[0]]
            want = expected(inp, fn, [vals[(m, i, order[j][1])] for j in mine])
            inp.check("aggregate", inp.eqv(got, want), "%s of node %d: %r, not %r (%s)" % (m, i, got, want, fn))
        inp.check("first-row", out["host"].iloc[k[0]] == host[mine[0]] and out["code"].iloc[k[0]] == code[mine[0]]
                  and out["name"].iloc[k[0]] == names[i], "host %r code %r of node %d" % (out["host"].iloc[k[0]], out["code"].iloc[k[0]], i))
    inp.check("metric-lists", gf.exc_metrics == [m for m in mets if "(inc)" not in m] and gf.inc_metrics == [m for m in mets if "(inc)" in m]
              and gf.default_metric == mets[0] and gf.metadata == {"k": 1})


def harnesses(tier):
    q = tier == "quick"
    hs = []
    L = ["in-place", "graph-unchanged", "rows", "aggregate", "first-row", "metric-lists"]

    def add(name, bounds, validate=20, **kw):
        kw.setdefault("levels", "rank")
        hs.append(H(name, drop, L, bounds, kw, validate=validate))
    add("ranks", "trees on 3 nodes, repeated names, 2 ranks, any rows missing, either row order", n=3, shape="tree", names="xy", holes=True, mets=["time"],
        orders=[False, True])
    add("fns", "trees on 2 nodes, 2 ranks, every aggregate", n=2, shape="tree", fns=sorted(set(FN) - {"median"}), mets=["time", "time (inc)"])
    add("kinds", "trees on 2 nodes, 2 ranks, finite/NaN", n=2, shape="tree", fns=["default", "sum", "max", "last"], kinds=("fin", "nan"))
    add("infs", "1 node, 3 rank/thread rows, finite/NaN/inf/-inf", n=1, shape="tree", levels="rt", fns=["max", "min", "last"],
        kinds=("fin", "nan", "inf", "-inf"), mets=["time"])
    add("threads", "DAGs on 3 nodes, 2 threads", n=3, shape="dag", levels="thread", mets=["time"])
    add("rt", "DAGs on 3 nodes, rank/thread rows, any missing for 2 nodes", n=2, shape="dag", levels="rt", holes=True, mets=["time"], fns=["default", "sum", "last"])
    add("flat", "trees on 3 nodes without further levels", n=3, shape="tree", levels="node", names="xy", mets=["time"])
    if not q:
        add("ranks4", "forests on 4 nodes, 2 ranks", n=4, shape="tree", roots=4, fns=["default", "sum"])
        add("dags4", "DAGs on 4 nodes, 2 ranks", n=4, shape="dag", mets=["time"])
        add("rt3", "DAGs on 3 nodes, rank/thread rows, NaN", n=3, shape="dag", levels="rt", kinds=("fin", "nan"), mets=["time"])
    return hs
