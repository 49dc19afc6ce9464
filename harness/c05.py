"""C05: callable filters keep exactly the true rows, whatever the workers do."""
from hatchet.graphframe import EmptyFilter
from symx.mpstub import workers
from .common import *

PROPERTY = "C05"


def _table(inp, n, levels, extra_missing=False):
    edges = par_edges(tree_parents(inp, n, roots=1)) if inp.params.get("shapes") else [(0, i) for i in range(1, n)]
    g, nodes = build_graph(n, edges, LETTERS[:n])
    _, extras = frame_index(levels)
    vals = {}
    for i, ex in itertools.product(range(n), extras):
        if inp.params.get("given"):     # given, distinct values in a mixed order
            vals[(i, ex)] = float(7 * len(vals) % 13)
        else:
            vals[(i, ex)] = inp.metric("t%d_%s" % (i, "".join(map(str, ex))), inp.params.get("kinds", ["fin"]))
    df = build_df(nodes, levels, {"time": lambda i, ex: vals[(i, ex)]}, LETTERS[:n])
    df["tag"] = ["%s%s" % (nd.frame["name"], "".join(map(str, ex))) for nd, ex in rows_of(df)]
    return edges, g, nodes, extras, vals, df


def rows(inp):
    p = inp.params
    n, levels = p["n"], p["levels"]
    edges, g, nodes, extras, vals, df = _table(inp, n, levels)
    gf = GraphFrame(g, df, ["time"], [], metadata={"a": 1})
    procs = inp.choice("procs", p["procs"])
    order = [(nd, ex) for nd, ex in rows_of(df)]
    idx = {P._builtin_id(nd): i for i, nd in enumerate(nodes)}
    thr = inp.real("thr")

    def f(row):
        return bool(row["time"] > thr)
    want = [(nd, ex) for nd, ex in order if bool(fgt(vals[(idx[P._builtin_id(nd)], ex)], thr))]
    with workers(inp, p.get("ends", False)):
        try:
            out = gf.filter(f, squash=False, num_procs=procs)
        except EmptyFilter:
            inp.check("empty-error", not want, "EmptyFilter although rows match")
            return
    inp.check("empty-error", bool(want), "no EmptyFilter although no row matches")
    got = rows_of(out.dataframe)
    inp.check("rows-in-order", len(got) == len(want) and all(a is c and b == d for (a, b), (c, d) in zip(got, want)),
              "procs %s rows %s want %s" % (procs, [(str(a.frame["name"]), b, a is c) for (a, b), (c, d) in zip(got, want)],
                                            [(a.frame["name"], b) for a, b in want]))
    inp.check("rows-in-order", list(out.dataframe.index.names) == list(df.index.names))
    for nd, ex in want:
        i = idx[P._builtin_id(nd)]
        inp.check("values-unchanged", inp.eqv(loc(out.dataframe, nd, ex, "time"), vals[(i, ex)]))
        inp.check("values-unchanged", loc(out.dataframe, nd, ex, "tag") == LETTERS[i] + "".join(map(str, ex)))
    inp.check("rows-in-order", list(out.dataframe.columns) == ["name", "time", "tag"] and out.graph is g)


def fgt(a, b):
    return False if isnan(a) else a > b


def squashed(inp):
    """With squash the kept rows are those of the kept nodes, whatever the processes do."""
    p = inp.params
    n = p["n"]
    edges, g, nodes, extras, vals, df = _table(inp, n, p["levels"])
    gf = GraphFrame(g, df, ["time"], [])
    procs = inp.choice("procs", p["procs"])
    keep = {(i, ex): inp.flag("k%d%s" % (i, "".join(map(str, ex)))) for i in range(n) for ex in extras}
    inp.assume(any(keep.values()))
    kept = {LETTERS[i] + "".join(map(str, ex)) for (i, ex), k in keep.items() if k}
    with workers(inp):
        out = gf.filter(lambda r: r["tag"] in kept, num_procs=procs)
    got = rows_of(out.dataframe)
    inp.check("squashed-rows", len(got) == len(kept))
    for nd, ex in got:
        i = LETTERS.index(nd.frame["name"])
        inp.check("squashed-rows", keep[(i, ex)] and has(all_nodes(out.graph), nd))
        inp.check("squashed-values", inp.eqv(loc(out.dataframe, nd, ex, "time"), vals[(i, ex)]))


def later(inp):
    """The filtered graphframe works in later operations."""
    p = inp.params
    n = p["n"]
    edges, g, nodes, extras, vals, df = _table(inp, n, p["levels"])
    gf = GraphFrame(g, df, ["time"], [])
    procs = inp.choice("procs", p["procs"])
    keep = [inp.flag("k%d" % i) for i in range(n)]
    inp.assume(any(keep))
    with workers(inp):
        f = gf.filter(lambda r: keep[LETTERS.index(r["name"])], squash=False, num_procs=procs)
    other = gf.deepcopy()
    how = inp.choice("how", ["add", "deepcopy", "squash", "inc"])
    if how == "add":
        r = f.add(other)
        for i in range(n):
            nd = [x for x in all_nodes(r.graph) if x.frame["name"] == LETTERS[i]]
            inp.check("later-ops", len(nd) == 1)
            if keep[i]:
                for ex in extras:
                    inp.check("later-ops", inp.eqv(loc(r.dataframe, nd[0], ex, "time"), vals[(i, ex)] + vals[(i, ex)]))
    elif how == "deepcopy":
        c = f.deepcopy()
        ns = all_nodes(c.graph)
        inp.check("later-ops", all(has(ns, nd) for nd, _ in rows_of(c.dataframe)))
    elif how == "squash":
        s = f.squash()
        inp.check("later-ops", len(all_nodes(s.graph)) == sum(keep))
    else:
        if not all(keep):
            inp.done()
        f.update_inclusive_columns()
        inp.check("later-ops", inp.eqv(loc(f.dataframe, nodes[0], extras[0], "time (inc)"),
                                       nansum([vals[(i, extras[0])] for i in range(n)])))


def harnesses(tier):
    q = tier == "quick"
    hs = []

    def add(name, fn, labels, bounds, **kw):
        hs.append(H(name, fn, labels, bounds, kw, validate=10))
    L = ["rows-in-order", "values-unchanged", "empty-error"]
    add("rows3", rows, L, "3 rows, any values (NaN too) and threshold, 1..5 processes, every completion order of 1-3 processes",
        n=3, levels="node", procs=[1, 2, 3], kinds=["fin", "nan"])
    add("rows3-many", rows, L, "2 rows, 4 processes (more than rows), every completion order",
        n=2, levels="node", procs=[4] if q else [4, 5])
    add("rows4", rows, L, "4 rows on (node, rank), 2 processes", n=2, levels="rank", procs=[2, 3] if q else [2, 3, 4])
    add("rows-uneven", rows, L, "%s rows that 2 to 5 processes do not divide evenly; the processes end in order or in reverse" % (
        "7" if q else "9"), n=7 if q else 9, levels="node", procs=[2, 3, 5] if q else [2, 3, 4, 5, 8], ends=True)
    add("rows-12", rows, L, "12 rows of given values, any threshold, 1 to 3 processes, which end in order or in reverse", n=12, levels="node", given=True,
        procs=[1, 2, 3], ends=True)
    add("rows-12-rt", rows, L, "12 rows of 4 nodes on (node, rank, thread), given values, any threshold, 2 or 5 processes", n=4, levels="rt", given=True,
        procs=[2, 5], ends=True)
    add("rows-rt", rows, L, "3 rows of one node on (node, rank, thread), 2 processes", n=1, levels="rt", procs=[1, 2])
    if not q:
        add("rows5", rows, L, "5 rows, 2 to 4 processes", n=5, levels="node", procs=[2, 3, 4])
    add("squash", squashed, ["squashed-rows", "squashed-values"], "squashing filter, 2 nodes x 2 ranks, 2-3 processes",
        n=2, levels="rank", procs=[2, 3])
    add("later", later, ["later-ops"], "operations on the filtered graphframe: add, deepcopy, squash, inclusive sums",
        n=3, levels="node", procs=[1, 2])
    add("later-rank", later, ["later-ops"], "the same on (node, rank)", n=2, levels="rank", procs=[1, 2])
    return hs


ASSUMPTIONS = ["worker processes are modelled: they run to completion in any order, and what crosses a queue is a pickled copy; "
               "crashes of workers and callables that raise are outside the claim"]
