"""C08: inclusive metrics are sums over the distinct nodes of the subgraph."""
from .common import *

PROPERTY = "C08"


def oracle_check(inp, gf, n, edges, nodes, levels, vals, inc, exc, label, untouched=True):
    _, extras = frame_index(levels)
    desc = descend(n, edges)
    for i in range(n):
        for ex in extras:
            want = nansum([vals[exc][(j, ex)] for j in sorted(desc[i])])
            got = loc(gf.dataframe, nodes[i], ex, inc)
            inp.check(label, inp.eqv(got, want),
                      "node %d row %r: %s=%r want %r" % (i, ex, inc, got, want))
            if untouched and inc != exc:
                inp.check("exclusive-untouched",
                          inp.eqv(loc(gf.dataframe, nodes[i], ex, exc), vals[exc][(i, ex)]))


def mk(inp, n, edges, levels, metrics, kinds, order=1):
    names = letters(inp, n)
    if inp.params.get("dup"):
        names = ["x"] * n
    g, nodes = build_graph(n, edges, names, order)
    _, extras = frame_index(levels)
    vals = {}
    for m in metrics:
        vals[m] = {(i, ex): inp.metric("%s_%d_%s" % (m, i, "_".join(map(str, ex))), kinds)
                   for i in range(n) for ex in extras}
    df = build_df(nodes, levels, {m: (lambda i, ex, m=m: vals[m][(i, ex)]) for m in metrics}, names)
    return g, nodes, df, vals


def update(inp):
    """update_inclusive_columns on trees, forests and DAGs."""
    p = inp.params
    n, levels = p["n"], p["levels"]
    if p["shape"] == "tree":
        edges = par_edges(tree_parents(inp, n, roots=p.get("roots", 1)))
    else:
        edges = dag_edges(inp, n)
    order = 1 if not p.get("orders") or inp.flag("order") else -1
    g, nodes, df, vals = mk(inp, n, edges, levels, p["exc"], p["kinds"], order)
    if p.get("tuples"):      # columns with two levels
        df.columns = pd.MultiIndex.from_tuples([("name", "") if c == "name" else ("run", c) for c in df.columns])
        gf = GraphFrame(g, df, [("run", m) for m in p["exc"]], [], default_metric=("run", p["exc"][0]))
        gf.update_inclusive_columns()
        incs = [exc[:-len("(exc)")].strip() if exc.endswith("(exc)") else exc + " (inc)" for exc in p["exc"]]
        inp.check("inc-metric-listed", sorted(gf.inc_metrics) == sorted(("run", m) for m in incs), repr(gf.inc_metrics))
        for exc, inc in zip(p["exc"], incs):
            vals[("run", exc)] = vals[exc]
            oracle_check(inp, gf, n, edges, nodes, levels, vals, ("run", inc), ("run", exc), "inclusive")
        return
    gf = GraphFrame(g, df, list(p["exc"]), [])
    gf.update_inclusive_columns()
    for exc in p["exc"]:
        inc = exc[:-len("(exc)")].strip() if exc.endswith("(exc)") else exc + " (inc)"
        inp.check("inc-metric-listed", inc in gf.inc_metrics)
        oracle_check(inp, gf, n, edges, nodes, levels, vals, inc, exc, "inclusive")
    inp.check("row-set-kept", len(gf.dataframe) == len(df))


def sparse(inp):
    """Tables in which some (node, rank) rows are absent."""
    p = inp.params
    n, levels = p["n"], p["levels"]
    if p["shape"] == "tree":
        edges = par_edges(tree_parents(inp, n))
    else:
        edges = dag_edges(inp, n, max_roots=1)
    _, extras = frame_index(levels)
    rows = {}
    for i in range(n):
        pats = [c for r in range(p.get("least", 1), len(extras) + 1) for c in itertools.combinations(range(len(extras)), r)]
        pat = inp.choice("rows%d" % i, pats)
        for k, ex in enumerate(extras):
            rows[(i, ex)] = k in pat
    g, nodes = build_graph(n, edges, LETTERS[:n])
    vals = {(i, ex): inp.real("t_%d_%s" % (i, "_".join(map(str, ex)))) for (i, ex), r in rows.items() if r}
    df = build_df(nodes, levels, {"time": lambda i, ex: vals[(i, ex)]}, LETTERS[:n],
                  rows=lambda i, ex: rows[(i, ex)])
    gf = GraphFrame(g, df, ["time"], [])
    gf.update_inclusive_columns()
    desc = descend(n, edges)
    for (i, ex), v in vals.items():
        want = nansum([vals[(j, ex)] for j in sorted(desc[i]) if (j, ex) in vals])
        inp.check("inclusive", inp.eqv(loc(gf.dataframe, nodes[i], ex, "time (inc)"), want))
    inp.check("row-set-kept", len(gf.dataframe) == len(vals))


def sums(inp):
    """subtree_sum / subgraph_sum called directly, in place or into new columns."""
    p = inp.params
    n, levels = p["n"], p["levels"]
    how = inp.choice("how", p["how"])
    if how.startswith("subtree"):
        edges = par_edges(tree_parents(inp, n, roots=2))
    else:
        edges = dag_edges(inp, n, max_roots=2)
    cols = p["cols"]
    g, nodes, df, vals = mk(inp, n, edges, levels, cols, p["kinds"])
    gf = GraphFrame(g, df, list(cols), [])
    fn = gf.subtree_sum if how.startswith("subtree") else gf.subgraph_sum
    if how.endswith("inplace"):
        fn(list(cols))
        for c in cols:
            oracle_check(inp, gf, n, edges, nodes, levels, vals, c, c, "sum-in-place")
    else:
        outs = ["out_" + c for c in cols]
        fn(list(cols), list(outs))
        for c, o in zip(cols, outs):
            oracle_check(inp, gf, n, edges, nodes, levels, vals, o, c, "sum-out")


def overlap(inp):
    """Output columns may be other input columns: the sums are over the values there were."""
    p = inp.params
    n, levels = p["n"], p["levels"]
    how = inp.choice("how", ["subtree", "subgraph"])
    edges = par_edges(tree_parents(inp, n, roots=1)) if how == "subtree" else dag_edges(inp, n, max_roots=1)
    cols = p["cols"]
    g, nodes, df, vals = mk(inp, n, edges, levels, cols, p["kinds"])
    gf = GraphFrame(g, df, list(cols), [])
    outs = inp.choice("outs", [list(o) for o in itertools.permutations(cols + ["new"], len(cols))])
    fn = gf.subtree_sum if how == "subtree" else gf.subgraph_sum
    fn(list(cols), list(outs))
    for c, o in zip(cols, outs):
        oracle_check(inp, gf, n, edges, nodes, levels, vals, o, c, "sum-out", untouched=c not in outs)
    inp.check("row-set-kept", len(gf.dataframe) == len(vals[cols[0]]) and set(gf.dataframe.columns) == set(cols) | set(outs) | {"name"})


def custom(inp):
    """A user-supplied associative function (max) instead of sum."""
    p = inp.params
    n, levels = p["n"], p["levels"]
    edges = dag_edges(inp, n, max_roots=2)
    g, nodes, df, vals = mk(inp, n, edges, levels, ["time"], ("fin",))
    gf = GraphFrame(g, df, ["time"], [])
    gf.subgraph_sum(["time"], ["peak"], function=lambda x: x.max())
    _, extras = frame_index(levels)
    desc = descend(n, edges)
    for i in range(n):
        for ex in extras:
            got = loc(gf.dataframe, nodes[i], ex, "peak")
            vs = [vals["time"][(j, ex)] for j in sorted(desc[i])]
            inp.check("custom-function", inp.And(inp.Or(*[inp.eqv(got, v) for v in vs]),
                                                 *[got >= v for v in vs]))


def harnesses(tier):
    q = tier == "quick"
    FN = ("fin", "nan")
    two = ["time", "cycles (exc)"]
    hs = []

    def add(name, fn, labels, bounds, **params):
        hs.append(H(name, fn, labels, bounds, params))

    L = ["inclusive", "exclusive-untouched", "inc-metric-listed"]
    add("overlap", overlap, ["sum-out", "exclusive-untouched", "row-set-kept"], "trees and DAGs on 3 nodes, output columns that are inputs of others", n=3, levels="node",
        cols=["time", "cycles"], kinds=("fin",))
    add("overlap-rank", overlap, ["sum-out", "exclusive-untouched", "row-set-kept"], "trees and DAGs on 2 nodes, 2 ranks, output columns that are inputs of others", n=2, levels="rank",
        cols=["time", "cycles"], kinds=("fin",))
    add("tuples", update, ["inclusive", "inc-metric-listed", "exclusive-untouched"], "all DAGs on 3 nodes, columns with two levels", n=3, levels="node", shape="dag",
        exc=["time", "cyc (exc)"], kinds=("fin",), tuples=True)
    add("tuples-rank", update, ["inclusive", "inc-metric-listed", "exclusive-untouched"], "all trees on 3 nodes, 2 ranks, columns with two levels", n=3, levels="rank",
        shape="tree", exc=["time", "cyc (exc)"], kinds=("fin",), tuples=True)
    add("dag-node", update, L, "all DAGs on <= 4 ordered nodes (any number of roots), 1 metric, any real values",
        n=4, levels="node", shape="dag", exc=["time"], kinds=("fin",), naming="perm")
    add("dag-node-nan", update, L, "all DAGs on 3 nodes, 2 metrics, each value any real or NaN",
        n=3, levels="node", shape="dag", exc=two[:1] if q else two, kinds=FN)
    add("dag-two", update, L, "all DAGs on 3 nodes, 2 metrics (plain and '(exc)' named), both child orders",
        n=3, levels="node", shape="dag", exc=two, kinds=("fin",), orders=True)
    add("tree-node", update, L, "all trees on 5 nodes, any reals", n=5 if q else 6, levels="node",
        shape="tree", exc=["time"], kinds=("fin",))
    add("tree-dup", update, L, "all trees on 4 nodes with equal frames, any reals", n=4, levels="node",
        shape="tree", exc=["time"], kinds=("fin",), dup=True)
    add("dag-dup", update, L, "all DAGs on 3 nodes (several roots) with equal frames, any reals", n=3, levels="node",
        shape="dag", dup=True, exc=["time"], kinds=("fin",))
    add("tree-nan", update, L, "all trees on 4 nodes, NaN or real", n=4, levels="node", shape="tree",
        exc=["time"], kinds=FN)
    add("tree-inf", update, L, "all trees on 3 nodes; NaN, +inf or real", n=3, levels="node", shape="tree",
        exc=["time"], kinds=("fin", "nan", "inf"))
    for lv in ("rank", "thread", "rt"):
        add("dag-" + lv, update, L, "all DAGs on %d nodes, table %s" % (3 if q else 4, lv), n=3 if q else 4, levels=lv,
            shape="dag", exc=two, kinds=("fin",))
        add("tree-" + lv, update, L, "all trees/forests on 4 nodes, table %s" % lv, n=4, levels=lv,
            shape="tree", roots=2, exc=["time"], kinds=("fin",))
    add("tree-rank-nan", update, L, "all trees on 3 nodes, (node, rank) table, NaN or real", n=3,
        levels="rank", shape="tree", exc=["time"], kinds=FN)
    add("dag-rank-nan", update, L, "all DAGs on 3 nodes, (node, rank) table, NaN or real", n=3,
        levels="rank1" if q else "rank", shape="dag", exc=["time"], kinds=FN)
    for shape in ("tree", "dag"):
        add("sparse-" + shape, sparse, ["inclusive"], "all %ss on 3 nodes, (node, rank) table with any non-empty "
            "set of rows per node" % shape, n=3, levels="rank", shape=shape)
    for shape in ("tree", "dag"):
        add("sparse-rt-" + shape, sparse, ["inclusive"], "all %ss on 2 nodes, (node, rank, thread) table with any non-empty "
            "set of rows per node" % shape, n=2, levels="rt", shape=shape)
    add("sparse-rt3", sparse, ["inclusive"], "all trees on 3 nodes, (node, rank, thread) table with 2 or 3 rows per node", n=3, levels="rt",
        shape="tree", least=2)
    add("dag4-rank", update, L, "all DAGs on 4 nodes, (node, rank) table", n=4, levels="rank", shape="dag",
        exc=["time"], kinds=("fin",))
    how = ["subgraph-inplace", "subgraph-out", "subtree-inplace", "subtree-out"]
    for lv in ("node", "rank"):
        add("sums-" + lv, sums, ["sum-in-place", "sum-out"],
            "subtree_sum (forests) and subgraph_sum (DAGs), 4 nodes (3 for rank), in place and to new columns, 2 columns",
            n=4 if lv == "node" else 3, levels=lv, cols=["time", "x"], kinds=("fin",), how=how)
        add("custom-" + lv, custom, ["custom-function"], "subgraph_sum with max, all DAGs on 3 nodes",
            n=3, levels=lv)
    return hs


ASSUMPTIONS = ["index rows are unique; every graph node has at least one row"]
