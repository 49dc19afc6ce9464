"""C11: GraphFrame arithmetic is node-wise over the union graph."""
from .graphs import *

PROPERTY = "C11"


def make_gf(inp, tag, n, shape, names, levels, mets, kinds, roots=1, order=1, holes=False, max_roots=None, node_rows=True):
    """(graphframe, table): table maps (key, extra) -> {metric: value}."""
    g, nodes, edges, nm = make(inp, tag, n, shape, names, roots, order, max_roots=max_roots)
    no_dup_siblings(inp, n, edges, nm)
    inames, extras = frame_index(levels)
    have = {(i, ex): (not holes) or inp.flag("%srow_%d_%s" % (tag, i, "".join(map(str, ex))))
            for i in range(n) for ex in extras}
    if holes:
        inp.assume(any(have.values()))
        if node_rows:
            inp.assume(all(any(have[(i, ex)] for ex in extras) for i in range(n)))
    vals = {m: {k: inp.metric("%s%s_%d_%s" % (tag, m, k[0], "".join(map(str, k[1]))), kinds) if have[k] else 0.0 for k in have}
            for m in mets}
    df = build_df(nodes, levels, {m: (lambda i, ex, m=m: vals[m][(i, ex)]) for m in mets}, nm,
                  rows=lambda i, ex: have[(i, ex)])
    exc = [m for m in mets if not m.endswith("(inc)")]
    inc = [m for m in mets if m.endswith("(inc)")]
    gf = GraphFrame(g, df, exc, inc, default_metric=mets[0], metadata={"tag": tag})
    keys = keys_of(inp, n, edges, nm)
    table = {}
    for (i, ex), h in have.items():
        if h:
            table[(i, ex)] = {m: vals[m][(i, ex)] for m in mets}
    return gf, nodes, edges, nm, keys, table


def keys_of(inp, n, edges, nm):
    """What identifies a node across graphs: its call paths."""
    out = {i: [] for i in range(n)}
    for ip in index_paths(n, edges):
        out[ip[-1]].append(tuple(nm[i] for i in ip))
    return out


def key_of_node(node):
    if not node.parents:
        return [(node.frame.attrs["name"],)]
    return [q + (node.frame.attrs["name"],) for x in node.parents for q in key_of_node(x)]


def same_key(k, l):
    """Some call path in common."""
    return any(same_path(x, y) for x in k for y in l)


OPS = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y}


def div(x, y):
    if isinstance(x, P.SymNum) or isinstance(y, P.SymNum):
        return x / y
    with np.errstate(all="ignore"):
        return np.float64(x) / np.float64(y)


def expect(op, x, y):
    if isnan(x) or isnan(y):
        return P.NAN
    if op == "div":
        return div(x, y)
    return OPS[op](x, y)


def apply(inp, form, op, a, b):
    """Run the arithmetic the given way; (result, in-place?)."""
    if form == "method":
        return getattr(a, op)(b), False
    if form == "operator":
        return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: a / b}[op](), False
    r = a
    if op == "add":
        r += b
    elif op == "sub":
        r -= b
    elif op == "mul":
        r *= b
    else:
        r /= b
    return r, True


def arith(inp):
    p = inp.params
    mets, kinds, shape = p["mets"], p.get("kinds", ("fin",)), p["shape"]
    A = make_gf(inp, "a", p["n"], shape, p["names"], p["levels"], mets, kinds, p.get("roots", 1), 1, p.get("holes", False), p.get("max_roots"), p.get("node_rows", True))
    a, _, aedges, anm, akeys, atab = A
    form = inp.choice("form", p.get("forms", ["method"]))
    op = inp.choice("op", p.get("ops", ["add", "sub", "mul", "div"]))
    if p.get("same"):
        # the second operand shares the graph; its rows are a subset
        drop = [k for k in atab if inp.flag("drop_%d_%s" % (k[0], "".join(map(str, k[1]))))]
        dropa = [k for k in atab if p["same"] == 2 and inp.flag("dropa_%d_%s" % (k[0], "".join(map(str, k[1]))))]
        inp.assume(len(drop) < len(atab) and len(dropa) < len(atab))
        b, bkeys = a.copy(), akeys
        btab = {k: {m: inp.metric("b%s_%d_%s" % (m, k[0], "".join(map(str, k[1]))), kinds) for m in mets} for k in atab}
        idx = {k: ((A[1][k[0]],) + k[1] if k[1] else A[1][k[0]]) for k in atab}
        bnm = anm
        bdf = build_df(A[1], p["levels"], {m: (lambda i, ex, m=m: btab[(i, ex)][m]) for m in mets}, anm,
                       rows=lambda i, ex: (i, ex) in btab)
        b.dataframe = bdf
        if drop:
            b = cut(b, A[1], drop)
            btab = {k: v for k, v in btab.items() if k not in drop}
        if dropa:
            a = cut(a, A[1], dropa)
            atab = {k: v for k, v in atab.items() if k not in dropa}
        bedges, bn = aedges, p["n"]
    else:
        B = make_gf(inp, "b", p["m"], shape, p.get("names2", p["names"]), p["levels"], mets, kinds, p.get("roots", 1),
                    -1 if p.get("rev") else 1, p.get("holes", False), p.get("max_roots"), p.get("node_rows", True))
        b, _, bedges, bnm, bkeys, btab = B
        bn = p["m"]
        if shape == "dag":
            from .c10 import acyclic
            inp.assume(acyclic({(anm[x], anm[y]) for x, y in aedges} | {(bnm[x], bnm[y]) for x, y in bedges}))
    if p.get("stale"):
        # marks left by an earlier operation
        for gf in (a, b):
            gf.dataframe = gf.dataframe.assign(_missing_node=[inp.choice("stale%d%d" % (gf is b, i), [0, 1, 2])
                                                              for i in range(len(gf.dataframe))])
    r, inplace = apply(inp, form, op, a, b)
    inp.check("result-object", (r is a) == inplace and r is not b)
    # ---- expected rows
    left = [(akeys[i], ex, v) for (i, ex), v in atab.items()]
    right = [(bkeys[i], ex, v) for (i, ex), v in btab.items()]
    rows = list(r.dataframe.index)
    got = rows_of(r.dataframe)
    cols = {c: list(r.dataframe[c].values) for c in r.dataframe.columns}
    gnodes = all_nodes(r.graph)
    seen = 0
    for pos, (nd, ex) in enumerate(got):
        inp.check("indexed-by-graph", has(gnodes, nd), "row of a node outside the result's graph")
        k = key_of_node(nd)
        l = [v for kk, e, v in left if e == ex and same_key(kk, k)]
        rr = [v for kk, e, v in right if e == ex and same_key(kk, k)]
        inp.check("rows", len(l) + len(rr) >= 1, "row %r %r in neither operand" % (k, ex))
        for q in range(pos):
            inp.check("rows", not (got[q][0] is nd and got[q][1] == ex), "row %r %r twice" % (k, ex))
        mark = cols["_missing_node"][pos] if "_missing_node" in cols else 0
        want = 0 if l and rr else (1 if l else 2)
        inp.check("membership", mark == want, "row %r %r marked %r, not %r" % (k, ex, mark, want))
        inp.check("names", cols["name"][pos] == k[0][-1])
        seen += len(l) + len(rr)
        for m in mets:
            if l and rr:
                w = expect(op, l[0][m], rr[0][m])
                if isnan(w):
                    w = l[0][m]     # undefined results leave the left value
                inp.check("both", inp.eqv(cols[m][pos], w), "%s of row %r %r: %r, not %r" % (m, k, ex, cols[m][pos], w))
            elif l:
                inp.check("left-only", inp.eqv(cols[m][pos], l[0][m]), "%s of left-only row %r %r: %r" % (m, k, ex, cols[m][pos]))
            else:
                inp.check("right-only", inp.eqv(cols[m][pos], P.NAN), "%s of right-only row %r %r: %r" % (m, k, ex, cols[m][pos]))
    inp.check("rows", seen == len(left) + len(right), "rows lost: %d of %d" % (seen, len(left) + len(right)))
    inp.check("metric-lists", r.exc_metrics == [m for m in mets if "(inc)" not in m] and
              r.inc_metrics == [m for m in mets if "(inc)" in m] and r.default_metric == mets[0])
    inp.check("metric-lists", list(r.dataframe.index.names) == frame_index(p["levels"])[0])
    # ---- the union graph
    src = [tuple(anm[i] for i in ip) for ip in index_paths(p["n"], aedges)] + \
          [tuple(bnm[i] for i in ip) for ip in index_paths(bn, bedges)]
    up = [path_names(q) for q in node_paths(r.graph)]
    for s in src:
        inp.check("graph", sum(same_path(s, u) for u in up) == 1, "path %r not exactly once" % (s,))
    if shape == "tree":
        for u in up:
            inp.check("graph", any(same_path(s, u) for s in src), "extra path %r" % (u,))
    inp.check("graph", preorder_ok(r.graph))


def cut(gf, nodes, drop):
    gone = {(P._builtin_id(nodes[i]), ex) for i, ex in drop}
    names = list(gf.dataframe.index.names)

    def pred(row):
        return (P._builtin_id(row["node"]), tuple(row[x] for x in names[1:])) not in gone
    return gf.filter(pred, squash=False, num_procs=1)


def harnesses(tier):
    q = tier == "quick"
    hs = []
    L = ["result-object", "indexed-by-graph", "rows", "membership", "names", "both", "left-only", "right-only", "metric-lists", "graph"]

    def add(name, bounds, labels=L, validate=20, **kw):
        kw.setdefault("mets", ["time"])
        kw.setdefault("levels", "node")
        hs.append(H(name, arith, labels, bounds, kw, validate=validate))
    add("trees", "trees on 2+2 nodes, any frames, all forms and operators, two metrics", n=2, m=2, shape="tree", names="sym",
        mets=["time", "time (inc)"], forms=["method", "operator", "inplace"])
    add("special", "trees on 2+2 nodes, frames x/y, values finite/NaN/inf", n=2, m=2, shape="tree", names="two",
        kinds=("fin", "nan", "inf"), ops=["sub", "div"] if q else ["add", "sub", "mul", "div"])
    add("forests", "forests on 3+2 nodes, any frames, methods", n=3, m=2, shape="tree", names="sym", roots=2, ops=["sub"] if q else ["add", "sub", "mul", "div"], rev=True)
    add("ranks", "trees on 2+2 nodes, 2 ranks, any rows missing (each node keeps one)", n=2, m=2, shape="tree", names="two", levels="rank",
        holes=True, ops=["sub"], forms=["method"] if q else ["method", "inplace"])
    add("stale", "results of earlier operations as operands, graphs of 2+1 nodes", n=2, m=1, shape="tree", names="two", stale=True,
        ops=["add"], forms=["method", "inplace"])
    add("stale-same", "results of earlier operations sharing a graph of 2 nodes", [x for x in L if x != "right-only"], n=2, shape="tree", names="asc", stale=True,
        same=1, ops=["add"])
    add("threads", "trees on 2+2 nodes, rank and thread rows", n=2, m=2, shape="tree", names="two", levels="rt", ops=["add"])
    add("same", "operands sharing one graph of 2 nodes, 2 ranks, second with any subset of rows", labels=[x for x in L if x != "right-only"],
        n=2, shape="tree", names="asc", levels="rank", same=1, ops=["div"], forms=["method", "inplace"])
    add("same2", "operands sharing one graph of 3 nodes, each with any subset of rows",
        n=3, shape="tree", names="asc", same=2, ops=["sub"], forms=["method", "inplace"])
    add("gaps-threads", "a tree and a node, rank and thread rows missing", n=2, m=1, shape="tree", names="two", levels="rt", holes=True, ops=["add"],
        forms=["method"])
    add("gaps", "trees on 2+2 nodes, any rows missing", n=2, m=2, shape="tree", names="two", holes=True, node_rows=False, ops=["add"], forms=["method", "operator", "inplace"])
    add("dags", "DAGs on 3+3 nodes, distinct names", n=3, m=3, shape="dag", names="asc", ops=["mul"], max_roots=2)
    if not q:
        add("gaps-ops", "trees on 3+2 nodes, any rows missing", n=3, m=2, shape="tree", names="two", holes=True, node_rows=False, forms=["method", "inplace"])
        add("gaps-rank", "trees on 2+2 nodes, 2 ranks, any rows missing", n=2, m=2, shape="tree", names="two", levels="rank", holes=True, node_rows=False, ops=["add"], forms=["inplace"])
        add("trees3", "trees on 3+3 nodes, any frames", n=3, m=3, shape="tree", names="sym", forms=["method", "inplace"])
        add("ranks3", "trees on 3+2 nodes, 2 ranks, rows missing", n=3, m=2, shape="tree", names="two", levels="rank", holes=True,
            ops=["sub"])
        add("rt", "trees on 2+2 nodes, rank/thread rows missing", n=2, m=2, shape="tree", names="two", levels="rt", holes=True,
            ops=["add"])
        add("dags4", "DAGs on 4+3 nodes", n=4, m=3, shape="dag", names="asc", ops=["sub"], max_roots=2)
        add("special2", "2+2 nodes, 2 ranks, special values", n=2, m=1, shape="tree", names="two", levels="rank",
            kinds=("fin", "nan", "inf", "-inf"), ops=["div", "mul"])
    return hs
