"""C16: the dict/JSON form of a graphframe round-trips."""
from .graphs import *
from .c12 import snap, check_same

PROPERTY = "C16"


def source(inp, p):
    """A graphframe of any shape within the parameters."""
    n, levels = p["n"], p["levels"]
    g, nodes, edges, names = make(inp, "g", n, p["shape"], p["names"], p.get("roots", 1), max_roots=p.get("max_roots"))
    no_dup_siblings(inp, n, edges, names)
    mets = p.get("mets", ["time", "time (inc)"])
    have = {(i, ex): (not p.get("holes")) or inp.flag("row_%d_%s" % (i, "".join(map(str, ex))))
            for i in range(n) for ex in frame_index(levels)[1]}
    inp.assume(any(have.values()))
    vals = {(m, i, ex): inp.metric("%s_%d_%s" % (m, i, "".join(map(str, ex))), p.get("kinds", ("fin",))) if have[(i, ex)] else 0.0
            for m in mets for i in range(n) for ex in frame_index(levels)[1]}
    df = build_df(nodes, levels, {m: (lambda i, ex, m=m: vals[(m, i, ex)]) for m in mets}, names, rows=lambda i, ex: have[(i, ex)])
    num = {P._builtin_id(x): i for i, x in enumerate(nodes)}
    df["line"] = [num[P._builtin_id(nd)] * 3 for nd, _ in rows_of(df)]
    if p.get("post") == "filter":
        pass
    gf = GraphFrame(g, df, [m for m in mets if "(inc)" not in m], [m for m in mets if "(inc)" in m], default_metric=mets[0])
    return gf, nodes, edges, names, mets


def pair_nodes(inp, a, b, label):
    """Nodes of two graphs paired along equal paths; [(x, y)], each x once."""
    pairs, ok = [], True

    def go(xs, ys):
        inp.check(label, len(xs) == len(ys), "%d nodes became %d" % (len(xs), len(ys)))
        left = list(ys)
        for x in xs:
            m = [y for y in left if x.frame.attrs == y.frame.attrs]
            inp.check(label, len(m) >= 1, "no node for %r" % (x.frame.attrs,))
            y = m[0]
            left = [z for z in left if z is not y]
            old = [q for q in pairs if q[0] is x or q[1] is y]
            if old:
                inp.check(label, len(old) == 1 and old[0][0] is x and old[0][1] is y, "sharing differs at %r" % (x.frame.attrs,))
                continue
            pairs.append((x, y))
            go(list(x.children), list(y.children))
    go(list(a.roots), list(b.roots))
    return pairs


def as_float(inp, col):
    """What pandas makes of numbers and None: a float column (symbolic columns
    are object columns and keep the None)."""
    if inp.symbolic and any(isinstance(v, (float, P.SymNum)) for v in col):
        return [P.NAN if v is None else v for v in col]
    return col


def check_frames_equal(inp, gf, back, nodes_of, label_rows="rows", label_vals="values"):
    """Same rows, levels and values for corresponding nodes."""
    df, bf = gf.dataframe, back.dataframe
    inp.check(label_rows, list(df.index.names) == list(bf.index.names), "index %r" % (list(bf.index.names),))
    inp.check(label_rows, sorted(df.columns) == sorted(bf.columns), "columns %r" % (list(bf.columns),))
    ra, rb = rows_of(df), rows_of(bf)
    inp.check(label_rows, len(ra) == len(rb), "%d rows became %d" % (len(ra), len(rb)))
    ca = {c: list(df[c].values) for c in df.columns}
    cb = {c: as_float(inp, list(bf[c].values)) for c in df.columns}
    for i, (nd, ex) in enumerate(ra):
        y = nodes_of(nd)
        k = [j for j, (nb, eb) in enumerate(rb) if nb is y and tuple(eb) == tuple(ex)]
        inp.check(label_rows, len(k) == 1, "row %r %r found %d times" % (nd, ex, len(k)))
        for c in df.columns:
            u, v = ca[c][i], cb[c][k[0]]
            inp.check(label_vals, (u == v) if isinstance(u, str) or not isinstance(v, (int, float, np.number, P.SymNum)) and not isinstance(u, P.SymNum)
                      else inp.eqv(u, v), "%s of %r %r: %r became %r" % (c, nd, ex, u, v))


def roundtrip(inp):
    p = inp.params
    gf, nodes, edges, names, mets = source(inp, p)
    if p.get("squash"):
        keep = [inp.flag("keep%d" % i) for i in range(len(gf.dataframe))]
        inp.assume(any(keep))
        order = {P._builtin_id(nd): i for i, (nd, ex) in enumerate(rows_of(gf.dataframe))}
        gf = gf.filter(lambda row: keep[order[P._builtin_id(row["node"])]], squash=p["squash"] == 1, num_procs=1)
        nodes = all_nodes(gf.graph)
    s = snap(gf)
    text = gf.to_json()
    check_same(inp, gf, s, "source-unchanged", "to_json")
    back = GraphFrame.from_json(text)
    pairs = pair_nodes(inp, gf.graph, back.graph, "graph")
    inp.check("graph", len(pairs) == len(all_nodes(gf.graph)) == len(all_nodes(back.graph)))
    inp.check("graph", gf.graph == back.graph and back.graph == gf.graph, "not equal graphs")
    check_links(inp, back.graph, "graph") if not any(r.parents for r in gf.graph.roots) else None
    for x, y in pairs:
        # (the depth of a root that also has parents depends on the order of the roots)
        if not any(r.parents for r in gf.graph.roots):
            inp.check("depths", x._depth == y._depth, "depth %r became %r" % (x._depth, y._depth))
        inp.check("ids", x._hatchet_nid == y._hatchet_nid)
    inp.check("graph", not any(has(nodes, y) for _, y in pairs))

    def image(nd):
        m = [y for x, y in pairs if x is nd]
        inp.check("rows", len(m) == 1)
        return m[0]
    check_frames_equal(inp, gf, back, image)
    inp.check("metric-lists", back.exc_metrics == gf.exc_metrics and back.inc_metrics == gf.inc_metrics)
    inp.check("source-unchanged", back.exc_metrics is not gf.exc_metrics)


def harnesses(tier):
    q = tier == "quick"
    hs = []
    L = ["source-unchanged", "graph", "depths", "ids", "rows", "values", "metric-lists"]

    def add(name, bounds, validate=20, **kw):
        kw.setdefault("levels", "node")
        hs.append(H(name, roundtrip, L, bounds, kw, validate=validate))
    add("trees", "trees on 4 nodes, names x/y/z", n=4, shape="tree", names="three")
    add("forests", "forests on 4 nodes", n=4, shape="tree", roots=4, names="asc")
    add("dags", "DAGs on 4 nodes, any number of roots", n=4, shape="dag", names="asc", naming="perm")
    add("kinds", "trees on 3 nodes, values finite/NaN/inf/-inf", n=3, shape="tree", names="asc", kinds=("fin", "nan", "inf", "-inf"),
        mets=["time"])
    add("ranks", "trees on 3 nodes, 2 ranks, any rows missing", n=3, shape="tree", names="asc", levels="rank", holes=True, mets=["time"])
    add("rt", "DAGs on 3 nodes, rank/thread rows, NaN", n=3 if not q else 2, shape="dag", names="asc", levels="rt", kinds=("fin", "nan"), mets=["time"])
    add("squashed", "results of filters with squash on DAGs of 4 nodes", n=4, shape="dag", names="asc", squash=1, mets=["time"])
    add("unsquashed", "results of filters without squash on trees of 4 nodes", n=4, shape="tree", roots=2, names="asc", squash=2, mets=["time"])
    if not q:
        add("trees5", "trees on 5 nodes, names x/y", n=5, shape="tree", names="two")
        add("forests5", "forests on 5 nodes", n=5, shape="tree", roots=5, names="asc")
        add("dags5", "DAGs on 5 nodes, <= 2 roots", n=5, shape="dag", names="asc", max_roots=2)
    return hs
