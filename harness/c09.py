"""C09: generated exclusive metrics are inclusive minus the children's inclusive."""
from .common import *
from .c08 import mk

PROPERTY = "C09"


def exc_of(inc):
    return inc[:-len("(inc)")].strip() if inc.endswith("(inc)") else inc + " (exc)"


def nz(v):
    return 0 if isnan(v) else v


def check_exc(inp, gf, n, edges, nodes, extras, vals, inc, rows=None, label="exclusive"):
    exc = exc_of(inc)
    inp.check("listed", gf.exc_metrics.count(exc) == 1 and exc in gf.dataframe.columns, "%r %r" % (exc, gf.exc_metrics))
    ch = {i: [b for a, b in edges if a == i] for i in range(n)}
    for i in range(n):
        for ex in extras:
            if rows is not None and not rows[(i, ex)]:
                continue
            want = vals[inc][(i, ex)]
            for c in ch[i]:
                if rows is None or rows[(c, ex)]:
                    want = want - nz(vals[inc][(c, ex)])
            got = loc(gf.dataframe, nodes[i], ex, exc)
            inp.check(label, inp.eqv(got, want), "%s node %d row %r got %r want %r" % (exc, i, ex, got, want))
            inp.check("inclusive-untouched", inp.eqv(loc(gf.dataframe, nodes[i], ex, inc), vals[inc][(i, ex)]))


def shape(inp, n):
    p = inp.params
    if p["shape"] == "tree":
        return par_edges(tree_parents(inp, n, roots=p.get("roots", 1)))
    return dag_edges(inp, n, max_roots=p.get("max_roots"))


def generate(inp):
    p = inp.params
    n, levels = p["n"], p["levels"]
    edges = shape(inp, n)
    incs = p["inc"]
    g, nodes, df, vals = mk(inp, n, edges, levels, incs, p["kinds"])
    _, extras = frame_index(levels)
    gf = GraphFrame(g, df, [], list(incs))
    gf.generate_exclusive_columns()
    for m in incs:
        check_exc(inp, gf, n, edges, nodes, extras, vals, m)
    inp.check("columns", set(gf.dataframe.columns) == {"name"} | set(incs) | {exc_of(m) for m in incs}
              and len(gf.dataframe) == n * len(extras) and set(gf.inc_metrics) == set(incs))


METRICS = ["time (inc)", "x time (inc)", "tim", "note (inc)", "cyc (inc)", "cyc"]


def request(inp):
    """Which metrics get generated: requested ones, numeric ones, ones without an exclusive partner."""
    n = 2
    edges = [(0, 1)]
    g, nodes = build_graph(n, edges, "ab")
    incs = [m for j, m in enumerate(METRICS[:4]) if inp.flag("has%d" % j)] + ["cyc (inc)"]
    vals = {m: {(i, ()): inp.real("v%d_%d" % (j, i)) for i in range(n)} for j, m in enumerate(METRICS)}
    df = build_df(nodes, "node", {m: (lambda i, ex, m=m: vals[m][(i, ())]) for m in incs if m != "note (inc)"}, "ab")
    if "note (inc)" in incs:
        df["note (inc)"] = ["u", "v"]
    excs = []
    other = inp.choice("other", [None, "time (exc)", "time", "tim", "tim (exc)"]) if "cyc (inc)" in incs and len(incs) <= 3 else None
    if other and not (other == "tim" and "tim" in incs):
        df[other] = [1.0, 2.0]
        excs = [other]
    elif inp.flag("has_exc"):
        df["cyc"] = [vals["cyc"][(0, ())], vals["cyc"][(1, ())]]
        excs = ["cyc"]
    gf = GraphFrame(g, df, list(excs), list(incs))
    how = inp.choice("req", ["none", "str", "list", "list2"])
    pick = inp.choice("pick", METRICS[:3] + ["cyc (inc)"])
    inp.assume(pick in incs)
    req = {"none": None, "str": pick, "list": [pick], "list2": [pick, "cyc (inc)"]}[how]
    if req is None:
        gf.generate_exclusive_columns()
        asked = set(incs)
    else:
        gf.generate_exclusive_columns(req)
        asked = {req} if isinstance(req, str) else set(req)
    want = {m for m in asked if m != "note (inc)" and exc_of(m) not in excs}
    if "time" in excs and "time (inc)" in incs:
        want.discard("time (inc)")
    for m in want:
        check_exc(inp, gf, n, edges, nodes, [()], vals, m)
    inp.check("only-requested", set(gf.exc_metrics) == {exc_of(m) for m in want} | set(excs),
              "request %r inclusive %r exclusive before %r: %r" % (req, incs, excs, gf.exc_metrics))
    inp.check("only-requested", set(gf.dataframe.columns) == {"name"} | set(incs) | set(gf.exc_metrics))
    if excs == [other]:
        inp.check("existing-kept", list(gf.dataframe[other]) == [1.0, 2.0], other)
    if excs == ["cyc"]:
        for i in range(n):
            inp.check("existing-kept", inp.eqv(loc(gf.dataframe, nodes[i], (), "cyc"), vals["cyc"][(i, ())]))


def inverse(inp):
    """exclusive -> inclusive gives back the inclusive values on trees (finite values)."""
    p = inp.params
    n, levels = p["n"], p["levels"]
    edges = par_edges(tree_parents(inp, n, roots=2))
    inc = inp.choice("inc", ["time (inc)", "time"])
    g, nodes, df, vals = mk(inp, n, edges, levels, [inc], ("fin",))
    _, extras = frame_index(levels)
    gf = GraphFrame(g, df, [], [inc])
    gf.generate_exclusive_columns()
    gf.update_inclusive_columns()
    for i in range(n):
        for ex in extras:
            inp.check("inverse", inp.eqv(loc(gf.dataframe, nodes[i], ex, inc), vals[inc][(i, ex)]))
    inp.check("inverse", gf.inc_metrics == [inc] and gf.exc_metrics == [exc_of(inc)])


def sparse(inp):
    """Tables in which some (node, rank) rows are absent."""
    p = inp.params
    n, levels = p["n"], p["levels"]
    edges = shape(inp, n)
    _, extras = frame_index(levels)
    rows = {}
    for i in range(n):
        pats = [c for r in range(1, len(extras) + 1) for c in itertools.combinations(range(len(extras)), r)]
        pat = inp.choice("rows%d" % i, pats)
        for k, ex in enumerate(extras):
            rows[(i, ex)] = k in pat
    g, nodes = build_graph(n, edges, LETTERS[:n])
    vals = {"time (inc)": {k: inp.real("t_%d_%s" % (k[0], "_".join(map(str, k[1])))) for k, r in rows.items() if r}}
    df = build_df(nodes, levels, {"time (inc)": lambda i, ex: vals["time (inc)"][(i, ex)]}, LETTERS[:n],
                  rows=lambda i, ex: rows[(i, ex)])
    gf = GraphFrame(g, df, [], ["time (inc)"])
    gf.generate_exclusive_columns()
    check_exc(inp, gf, n, edges, nodes, extras, vals, "time (inc)", rows, "exclusive-sparse")
    inp.check("columns", len(gf.dataframe) == len(vals["time (inc)"]))


def harnesses(tier):
    q = tier == "quick"
    hs = []

    def add(name, fn, labels, bounds, **kw):
        hs.append(H(name, fn, labels, bounds, kw, validate=10))
    L = ["exclusive", "listed", "inclusive-untouched", "columns"]
    FN = ("fin", "nan")
    add("dag-node", generate, L, "all DAGs on 4 nodes, any reals", n=4, levels="node", shape="dag", inc=["time (inc)"],
        kinds=("fin",))
    add("dag-two", generate, L, "all DAGs on 3 nodes, two metrics, any real or NaN", n=3, levels="node", shape="dag",
        inc=["time (inc)"] if q else ["time (inc)", "x"], kinds=FN)
    add("tree-two", generate, L, "all forests on 4 nodes, two metrics ('(inc)' and plain name)", n=4, levels="node",
        shape="tree", roots=2, inc=["time (inc)", "x"], kinds=("fin",))
    for lv in ("rank", "thread", "rt"):
        add("dag-" + lv, generate, L, "all DAGs on 3 nodes, table %s, two metrics" % lv, n=3, levels=lv, shape="dag",
            inc=["time (inc)", "x"], kinds=("fin",))
    add("tree-rank-nan", generate, L, "all trees on 3 nodes, (node, rank), NaN or real", n=3, levels="rank", shape="tree",
        inc=["time (inc)"], kinds=FN)
    add("request", request, ["exclusive", "only-requested", "existing-kept"],
        "every subset of 4 inclusive metric names, with/without an existing exclusive metric, request none/str/list")
    add("inverse-node", inverse, ["inverse"], "forests on %d nodes" % (4 if q else 5), n=4 if q else 5, levels="node")
    add("inverse-rank", inverse, ["inverse"], "forests on 3 nodes, (node, rank)", n=3 if q else 4, levels="rank")
    for s in ("tree", "dag"):
        add("sparse-" + s, sparse, ["exclusive-sparse"], "all %ss on 3 nodes, (node, rank) with any non-empty row set per node" % s,
            n=3, levels="rank", shape=s, max_roots=1)
    add("dag4-rank", generate, L, "all DAGs on 4 nodes%s, (node, rank)" % (" with one root" if q else ""), n=4, levels="rank",
        shape="dag", inc=["time (inc)"], kinds=("fin",), max_roots=1 if q else None, naming="perm")
    if not q:
        add("tree6", generate, L, "all trees on 6 nodes", n=6, levels="node", shape="tree", inc=["time (inc)"], kinds=("fin",))
    return hs


ASSUMPTIONS = ["index rows are unique; every graph node has at least one row"]
