"""C32: every history of operations leaves a well-formed graphframe that holds the metrics it should."""
from .graphs import *
from .c12 import snap, check_same
from .c16 import as_float

PROPERTY = "C32"

ASSUMPTIONS = ["metric values are exact reals (finite); the totals hold up to rounding for floats"]


def total(inp, gf, m):
    return add_up(list(gf.dataframe[m].values))


def add_up(vals):
    vals = [v for v in vals if not isnan(v)]
    return nansum(vals) if vals else 0.0


def well_formed(inp, gf, levels, what, rows=True, gaps=False):
    g, df = gf.graph, gf.dataframe
    ns = check_links(inp, g, "graph", roots=False)
    for r in g.roots:
        inp.check("graph", has(ns, r))
    for x in ns:
        inp.check("graph", bool(x.parents) or has(g.roots, x), "%s: %r has neither parents nor is it a root" % (what, x))
        inp.check("graph", all(has(ns, q) for q in x.parents), "%s: parent outside of the graph" % what)
        inp.check("graph", not has(descendants(x), x), "%s: cycle" % what)
    ids = [x._hatchet_nid for x in ns]
    inp.check("ids", len(set(ids)) == len(ids) if gaps else preorder_ok(g), "%s: ids %r" % (what, [(x._hatchet_nid, frame_name(x)) for x in ns]))
    depths_ok(inp, g)
    rws = rows_of(df)
    inp.check("rows", list(df.index.names) == levels, "%s: levels %r" % (what, list(df.index.names)))
    for nd, ex in rws:
        inp.check("rows", has(ns, nd), "%s: row of a node outside of the graph" % what)
    for k, (nd, ex) in enumerate(rws):
        inp.check("rows", not any(nd is n2 and tuple(ex) == tuple(e2) for n2, e2 in rws[:k]), "%s: two rows %r %r" % (what, nd, ex))
        v = loc(df, nd, ex, "name")
        inp.check("rows", v == df["name"].values[k], "%s: %r looked up by its node is the row of %r" % (what, nd, v))
    if rows:
        inp.check("rows", all(any(nd is x for nd, _ in rws) for x in ns), "%s: a node without a row" % what)
    for (nd, ex), nm in zip(rws, df["name"].values):
        inp.check("names", nm == frame_name(nd), "%s: row of %r is named %r" % (what, frame_name(nd), nm))
    cols = list(df.columns)
    inp.check("columns", len(set(cols)) == len(cols) and sorted(gf.exc_metrics) == ["time"] and sorted(gf.inc_metrics) == ["time (inc)"]
              and {"time", "time (inc)"} <= set(cols), "%s: columns %r, metrics %r %r" % (what, cols, gf.exc_metrics, gf.inc_metrics))
    inp.check("columns", gf.default_metric == "time", "%s: default metric %r" % (what, gf.default_metric))


def descendants(x):
    seen, st = [], list(x.children)
    while st:
        y = st.pop()
        if not has(seen, y):
            seen.append(y)
            st.extend(y.children)
    return seen


def build(inp, tag, n, p):
    if p["shape"] == "tree":
        edges = par_edges(tree_parents(inp, n, tag + "p", p.get("roots", 1)))
    else:
        edges = dag_edges(inp, n, tag + "e", max_roots=p.get("max_roots"))
    names = p["names"] if p.get("names") and tag == "a" else letters(inp, n, tag)
    if p.get("names"):
        no_dup_siblings(inp, n, edges, names)
    g, nodes = build_graph(n, edges, names)
    cell = {}

    def f(m):
        def h(i, ex):
            k = "%s%s_%d_%s" % (tag, m, i, "".join(map(str, ex)))
            cell[k] = inp.metric(k, ("fin",))
            return cell[k]
        return h
    df = build_df(nodes, p["levels"], {"time": f("time"), "time (inc)": f("time (inc)")}, names)
    return GraphFrame(g, df, ["time"], ["time (inc)"], default_metric="time")


def paths_by_row(gf):
    """[(call paths as name tuples, extra levels)] along the rows"""
    by = {}
    for q in node_paths(gf.graph):
        by.setdefault(P._builtin_id(q[-1]), set()).add(tuple(tuple(sorted(x.frame.attrs.items())) for x in q))
    return [(by[P._builtin_id(nd)], tuple(ex)) for nd, ex in rows_of(gf.dataframe)]


def plus(a, b, sign):
    if a is None:
        return None
    return a + b if sign > 0 else a - b


def common(inp, left, right, m):
    """Total of the right graphframe's rows that the left one has, too."""
    have = [k for k, v in zip(paths_by_row(left), list(left.dataframe[m].values)) if not isnan(v)]
    vals = [v for (ps, ex), v in zip(paths_by_row(right), list(right.dataframe[m].values)) if any(ex == e2 and ps & p2 for p2, e2 in have)]
    return add_up(vals)


def apply(inp, op, gf, other, k, tot, gaps):
    """(result, totals of its columns); None for a total that is not known."""
    lv = list(gf.dataframe.index.names)[1:]
    if op in ("filter", "two-step", "query"):
        rws = rows_of(gf.dataframe)
        if op == "query":
            from hatchet.query import ObjectQuery
            nm = "[ac]"
            inp.assume(any(frame_name(nd) in "ac" for nd, _ in rws))
            out = gf.filter(ObjectQuery([{"name": nm}], multi_index_mode="any" if lv else "off"), squash=True)
            keep = [frame_name(nd) in "ac" for nd, _ in rws]
        else:
            keep = [inp.flag("keep%d_%d" % (k, i)) for i in range(len(rws))]
            inp.assume(any(keep))
            order = {(P._builtin_id(nd), tuple(ex)): i for i, (nd, ex) in enumerate(rws)}

            def pred(row):
                return keep[order[(P._builtin_id(row["node"]), tuple(row[x] for x in lv))]]
            if op == "filter":
                out = gf.filter(pred, num_procs=1)
            else:
                mid = gf.filter(pred, squash=False, num_procs=1)
                well_formed(inp, mid, list(gf.dataframe.index.names), "filter", rows=False, gaps=gaps)
                out = mid.squash()
        vals = list(gf.dataframe["time"].values)
        return out, {"time": add_up([v for v, x in zip(vals, keep) if x])}, [r for r, x in zip(rws, keep) if x]
    if op == "squash":
        return gf.squash(), {"time": tot.get("time")}, rows_of(gf.dataframe)
    if op in ("copy", "deepcopy"):
        return getattr(gf, op)(), dict(tot), None
    if op == "json":
        out = GraphFrame.from_json(gf.to_json())
        for m in ("time", "time (inc)"):
            # (pandas makes floats of numbers and None; symbolic values stay in object columns)
            out.dataframe[m] = as_float(inp, list(out.dataframe[m].values))
        return out, dict(tot), None
    if op == "literal":
        inp.assume(not lv)
        return GraphFrame.from_literal(gf.to_literal()), dict(tot), None
    if op in ("add", "iadd", "sub"):
        # (rows that only the right operand has get no values)
        t = {m: plus(tot.get(m), common(inp, gf, other, m), -1 if op == "sub" else 1) for m in ("time", "time (inc)")}
        if op == "iadd":
            gf += other
            return gf, t, None
        return (gf + other if op == "add" else gf - other), t, None
    if op == "radd":
        t = {m: plus(total(inp, other, m), common(inp, other, gf, m), 1) for m in ("time", "time (inc)")}
        return other.add(gf), t, None
    if op == "twice":
        return gf + gf, {m: tot[m] + tot[m] if tot.get(m) is not None else None for m in ("time", "time (inc)")}, None
    if op == "unify":
        o = other.deepcopy()
        gf.unify(o)
        inp.check("graph", gf.graph is o.graph, "unify leaves two graphs")
        well_formed(inp, o, list(other.dataframe.index.names), "unify (right)", rows=False)
        return gf, dict(tot), None
    if op == "groupby":
        # functions that call each other make a cycle of groups: out of scope
        calls = {(frame_name(x), frame_name(c)) for x in all_nodes(gf.graph) for c in x.children}
        while True:
            more = {(a, d) for a, b in calls for c, d in calls if b == c} - calls
            if not more:
                break
            calls |= more
        inp.assume(not any((b, a) in calls for a, b in calls if a != b))
        return gf.groupby_aggregate("name", {"time": "sum", "time (inc)": "sum"}), dict(tot), None
    if op == "drop":
        gf.drop_index_levels(np.sum)
        return gf, dict(tot), None
    if op == "exclusive":
        gf.exc_metrics.remove("time")      # (never computed anew while it exists)
        gf.generate_exclusive_columns()
        return gf, {"time (inc)": tot.get("time (inc)")}, None
    if op == "inclusive":
        gf.update_inclusive_columns()
        return gf, {"time": tot.get("time")}, None
    if op == "sum":
        gf.subgraph_sum(["time"], ["time (inc)"])
        return gf, {"time": tot.get("time")}, None
    raise ValueError(op)


def inclusive(inp, op, gf):
    """What the inclusive and exclusive columns have to be after the operations that compute them."""
    if op not in ("sum", "inclusive", "exclusive", "filter", "two-step", "query", "squash"):
        return
    rows = rows_of(gf.dataframe)
    exc, inc = list(gf.dataframe["time"].values), list(gf.dataframe["time (inc)"].values)
    if any(isnan(v) for v in exc + inc):
        return
    for i, (nd, ex) in enumerate(rows):
        if op == "exclusive":
            below = [inc[j] for j, (x, e) in enumerate(rows) if e == ex and has(nd.children, x)]
            inp.check("computed", inp.eqv(exc[i], inc[i] - sum(below) if below else inc[i]), "exclusive value of %r: %r" % (nd, exc[i]))
        else:
            d = descendants(nd) + [nd]
            want = nansum([exc[j] for j, (x, e) in enumerate(rows) if e == ex and has(d, x)])
            inp.check("computed", inp.eqv(inc[i], want), "inclusive value of %r after %s: %r" % (nd, op, inc[i]))


NEW = ("filter", "two-step", "query", "squash", "copy", "deepcopy", "json", "literal", "add", "radd", "sub", "twice", "groupby")


def history(inp):
    p = inp.params
    gf = build(inp, "a", p["n"], p)
    other = build(inp, "b", p["m"], dict(p, shape="tree", roots=1)) if p.get("m") else None
    so = snap(other) if other is not None else None
    tot = {m: total(inp, gf, m) for m in ("time", "time (inc)")}
    partial = gaps = False
    for k in range(p["steps"]):
        op = inp.choice("op%d" % k, p["first"] if k == 0 and p.get("first") else p["ops"])
        before = snap(gf)
        src = gf
        if op in ("add", "radd", "iadd", "sub", "unify"):
            inp.assume(other.dataframe.index.names == gf.dataframe.index.names)
        gf, tot, kept = apply(inp, op, gf, other, k, tot, gaps)
        if op in NEW:
            inp.check("source", gf is not src)
            check_same(inp, src, before, "source", op)
        if so is not None:
            check_same(inp, other, so, "source", op + " (right)")
        if op in ("groupby", "drop"):
            levels = ["node"]
        else:
            levels = before["levels"]
        partial = op in ("unify",) or partial and op not in ("filter", "two-step", "query", "squash")
        if op in ("filter", "two-step", "query", "squash"):
            # (the ids have gaps where nodes were merged)
            gaps = len(all_nodes(gf.graph)) < len({P._builtin_id(nd) for nd, _ in kept})
        elif op in ("deepcopy", "add", "radd", "iadd", "sub", "unify", "groupby"):
            gaps = False
        well_formed(inp, gf, levels, op, rows=not partial, gaps=gaps)
        inclusive(inp, op, gf)
        for m, t in tot.items():
            if t is not None:
                inp.check("totals", inp.eqv(total(inp, gf, m), t), "%s: total of %s is %r, not %r" % (op, m, total(inp, gf, m), t))


def harnesses(tier):
    q = tier == "quick"
    hs = []
    L = ["graph", "ids", "depths", "rows", "names", "columns", "source", "totals", "computed"]
    OPS = ["filter", "two-step", "query", "squash", "copy", "deepcopy", "json", "literal", "add", "radd", "iadd", "sub", "twice",
           "unify", "groupby", "exclusive", "inclusive", "sum"]

    def add(name, bounds, validate=20, **kw):
        kw.setdefault("levels", "node")
        hs.append(H(name, history, L, bounds, kw, validate=validate))
    CORE = ["filter", "query", "add", "radd", "unify", "groupby", "sum", "exclusive"]
    add("two", "every two operations on trees of 3 nodes, a second operand of 2 nodes", n=3, m=2, shape="tree", steps=2, ops=OPS)
    add("three", "three operations on trees of 3 nodes", n=3, m=2, shape="tree", steps=3, ops=CORE)
    add("dags", "two operations on DAGs of 3 nodes, <= 2 roots, a second operand of 3 nodes", n=3, m=3, shape="dag", max_roots=2, steps=2,
        ops=[x for x in OPS if x not in ("two-step", "copy", "deepcopy", "twice", "radd")])
    add("naming", "two operations on forests of 3 nodes, names in other orders", n=3, m=2, shape="tree", roots=2, naming="perm", steps=2,
        ops=["filter", "add", "unify", "groupby"])
    add("ranks", "every two operations on trees of 2 nodes, 2 ranks", n=2, m=2, shape="tree", steps=2, ops=OPS + ["drop"], levels="rank")
    add("merged", "a squash that merges nodes and another operation, forests of 4 nodes, two of one name", n=4, m=2, shape="tree", roots=3, steps=2,
        names=["b", "a", "a", "c"], first=["filter"], ops=["deepcopy", "literal", "add", "unify", "squash"])
    if not q:
        add("merged5", "a squash that merges nodes and another operation, trees of 5 nodes, two of one name", n=5, m=2, shape="tree", steps=2,
            names=["b", "d", "a", "a", "c"], first=["filter"], ops=["filter", "query", "copy", "deepcopy", "json", "literal", "add", "unify", "sum"])
        add("naming-json", "two operations on forests of 3 nodes, names in other orders, a second operand of 3 nodes", n=3, m=3, shape="tree", roots=2,
            naming="perm", steps=2, ops=["filter", "add", "unify", "groupby", "json"])
        add("three-all", "every three operations on trees of 2 nodes", n=2, m=2, shape="tree", steps=3, ops=OPS)
        add("dags-all", "every two operations on DAGs of 3 nodes", n=3, m=3, shape="dag", steps=2, ops=OPS)
        add("trees4", "two operations on trees of 4 nodes", n=4, m=3, shape="tree", steps=2, ops=CORE)
        add("four", "four operations on trees of 2 nodes", n=2, m=2, shape="tree", steps=4, ops=["filter", "add", "groupby", "json", "sum"])
        add("rt", "two operations on trees of 2 nodes, rank/thread rows", n=2, m=2, shape="tree", steps=2, levels="rt",
            ops=["filter", "add", "sub", "unify", "groupby", "drop", "json", "sum", "exclusive"])
    return hs
