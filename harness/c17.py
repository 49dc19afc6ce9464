"""C17: the literal form of a graphframe round-trips."""
from .graphs import *
from .c12 import snap, check_same
from .c16 import pair_nodes

PROPERTY = "C17"


def literal_of(n, edges, names, nids, vals, mets, repeat_children, name_in_frame=True):
    """A literal for the graph, written independently of the library."""
    kids = {b for _, b in edges}
    ch = {i: [b for a, b in edges if a == i] for i in range(n)}
    seen = set()

    def entry(i):
        d = {"frame": {"name": names[i], "type": "function"} if name_in_frame else {"fn": names[i], "type": "function"},
             "metrics": {m: vals[(m, i)] for m in mets}}
        if not name_in_frame:
            d["name"] = names[i]
        if nids is not None:
            d["metrics"]["_hatchet_nid"] = nids[i]
        if ch[i] and (i not in seen or repeat_children):
            seen.add(i)
            d["children"] = [entry(c) for c in ch[i]]
        return d
    return [entry(r) for r in range(n) if r not in kids]


def read(inp):
    """Reading an arbitrary literal."""
    p = inp.params
    n = p["n"]
    if p["shape"] == "tree":
        edges = par_edges(tree_parents(inp, n, roots=p.get("roots", 1)))
    else:
        edges = dag_edges(inp, n, max_roots=p.get("max_roots"))
    names = [inp.choice("nm%d" % i, p["names"][i] if isinstance(p["names"], list) else p["names"]) for i in range(n)]
    mets = inp.choice("mets", p["metsets"]) if "metsets" in p else p.get("mets", ["time", "time (inc)"])
    vals = {(m, i): inp.metric("%s_%d" % (m, i), p.get("kinds", ("fin",))) for m in mets for i in range(n)}
    nids = {"none": None, "order": list(range(n)), "reverse": list(range(n))[::-1], "gaps": [3 * i + 2 for i in range(n)]}[
        inp.choice("nids", p["nids"])]
    rep = inp.choice("repeat", p.get("repeat", [False]))
    inframe = inp.choice("name_in_frame", p.get("inframe", [True]))
    lit = literal_of(n, edges, names, nids, vals, mets, rep, inframe)
    import copy
    before = copy.deepcopy(lit)
    gf = GraphFrame.from_literal(lit)
    inp.check("literal-unchanged", same_literal(inp, lit, before))
    ns = all_nodes(gf.graph)
    inp.check("nodes", len(ns) == n, "%d nodes for %d entries" % (len(ns), n))
    rows = rows_of(gf.dataframe)
    inp.check("rows", len(rows) == n and list(gf.dataframe.index.names) == ["node"])
    inp.check("rows", sorted(gf.dataframe.columns) == sorted(["name"] + mets), "columns %r" % (list(gf.dataframe.columns),))
    # nodes correspond to entries: find the correspondence from the roots
    kids = {b for _, b in edges}
    ch = {i: [b for a, b in edges if a == i] for i in range(n)}
    node_of = {}

    def go(idx, nodes, label):
        inp.check(label, len(idx) == len(nodes), "%d entries, %d nodes" % (len(idx), len(nodes)))
        for i, x in zip(idx, nodes):        # children are listed in the order of the literal
            key = "name" if inframe else "fn"
            inp.check("frames", x.frame.attrs == {key: names[i], "type": "function"}, "frame %r of entry %d" % (x.frame.attrs, i))
            if i in node_of:
                inp.check("nodes", node_of[i] is x, "entry %d became two nodes" % i)
                continue
            inp.check("nodes", not any(y is x for y in node_of.values()), "two entries became one node")
            node_of[i] = x
            go(ch[i], list(x.children), "nesting")
    go([r for r in range(n) if r not in kids], list(gf.graph.roots), "nesting")
    check_links(inp, gf.graph, "links")
    for i, x in node_of.items():
        if nids is not None:
            inp.check("ids", x._hatchet_nid == nids[i], "id %r, not %r" % (x._hatchet_nid, nids[i]))
        k = [j for j, (nd, _) in enumerate(rows) if nd is x]
        inp.check("rows", len(k) == 1, "entry %d has %d rows" % (i, len(k)))
        inp.check("values", gf.dataframe["name"].iloc[k[0]] == names[i])
        for m in mets:
            inp.check("values", inp.eqv(gf.dataframe[m].iloc[k[0]], vals[(m, i)]), "%s of entry %d" % (m, i))
    if inframe:
        if nids is None:
            inp.check("ids", preorder_ok(gf.graph))
        depths_ok(inp, gf.graph, "ids")
    inp.check("metric-lists", gf.exc_metrics == [m for m in mets if "(inc)" not in m] and gf.inc_metrics == [m for m in mets if "(inc)" in m],
              "%r %r" % (gf.exc_metrics, gf.inc_metrics))


def same_literal(inp, a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same_literal(inp, a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same_literal(inp, x, y) for x, y in zip(a, b))
    return a is b or a == b or (isnan(a) and isnan(b))


def roundtrip(inp):
    p = inp.params
    n, levels = p["n"], p["levels"]
    g, nodes, edges, names = make(inp, "g", n, p["shape"], p["names"], p.get("roots", 1), max_roots=p.get("max_roots"))
    no_dup_siblings(inp, n, edges, names)
    mets = inp.choice("mets", p["metsets"]) if "metsets" in p else ["time", "time (inc)"] if not p.get("one") else ["time"]
    exs = frame_index(levels)[1]
    vals = {(m, i, ex): inp.metric("%s_%d_%s" % (m, i, "".join(map(str, ex))), p.get("kinds", ("fin",)))
            for m in mets for i in range(n) for ex in exs}
    df = build_df(nodes, levels, {m: (lambda i, ex, m=m: vals[(m, i, ex)]) for m in mets}, names)
    gf = GraphFrame(g, df, [m for m in mets if "(inc)" not in m], [m for m in mets if "(inc)" in m], default_metric=mets[0])
    if p.get("squash"):
        keep = [inp.flag("keep%d" % i) for i in range(n)]
        inp.assume(any(keep))
        kept = {P._builtin_id(nodes[i]) for i in range(n) if keep[i]}
        gf = gf.filter(lambda row: P._builtin_id(row["node"]) in kept, num_procs=1, update_inc_cols=False)
    s = snap(gf)
    want = inp.choice("row", exs)
    kw = dict(zip(frame_index(levels)[0][1:], want))
    lit = gf.to_literal(**kw) if kw else gf.to_literal()
    check_same(inp, gf, s, "source-unchanged", "to_literal")
    back = GraphFrame.from_literal(lit)
    pairs = pair_nodes(inp, gf.graph, back.graph, "graph")
    inp.check("graph", gf.graph == back.graph and back.graph == gf.graph, "not equal graphs")
    inp.check("graph", len(pairs) == len(all_nodes(back.graph)) == len(back.dataframe))
    if not any(r.parents for r in gf.graph.roots):
        check_links(inp, back.graph, "links")
    for x, y in pairs:
        inp.check("ids", x._hatchet_nid == y._hatchet_nid)
        for m in mets:
            v = loc(gf.dataframe, x, want, m)
            if isinstance(v, (float, np.floating)) and not math.isfinite(v):
                v = 0.0
            inp.check("values", inp.eqv(loc(back.dataframe, y, (), m), v), "%s of %r: %r" % (m, x.frame.attrs, loc(back.dataframe, y, (), m)))
        inp.check("values", loc(back.dataframe, y, (), "name") == frame_name(x))
    inp.check("metric-lists", sorted(back.exc_metrics) == sorted(gf.exc_metrics) and sorted(back.inc_metrics) == sorted(gf.inc_metrics),
              "%r %r" % (back.exc_metrics, back.inc_metrics))


METSETS = [["time", "time (inc)"], ["time (inc) (ms)", "time (ms)"], ["(inc) t", "t"], ["inc"], ["time (inc)"], ["a", "b", "c(inc)"]]


def form(inp):
    """The literal itself: one entry per visit, in frame order, with the row's name, metrics and attributes."""
    p = inp.params
    n, levels = p["n"], p["levels"]
    g, nodes, edges, names = make(inp, "g", n, p["shape"], p["names"], p.get("roots", 1), max_roots=p.get("max_roots"))
    no_dup_siblings(inp, n, edges, names)
    exs = frame_index(levels)[1]
    mets = ["time", "time (inc)"]
    vals = {(m, i, ex): inp.metric("%s_%d_%s" % (m, i, "".join(map(str, ex))), p.get("kinds", ("fin",)))
            for m in mets for i in range(n) for ex in exs}
    df = build_df(nodes, levels, {m: (lambda i, ex, m=m: vals[(m, i, ex)]) for m in mets}, names)
    tag = lambda x, ex: "%s@%s" % (names[[k for k in range(n) if nodes[k] is x][0]], "".join(map(str, ex)))
    rows = rows_of(df)
    df["label"] = ["L" + tag(x, ex) for x, ex in rows]
    df["module"] = ["M" + tag(x, ex) for x, ex in rows]
    gf = GraphFrame(g, df, ["time"], ["time (inc)"])
    want = inp.choice("row", exs)
    kw = dict(zip(frame_index(levels)[0][1:], want))
    name = inp.choice("name", [None, "name", "label"])
    cats = inp.choice("cats", [None, [], ["module"], ["name", "module"], ["missing", "label"]])
    if name is not None:
        kw["name"] = name
    if cats is not None:
        kw["cat_columns"] = list(cats)
    lit = gf.to_literal(**kw)
    expanded = []

    def go(entry, x):
        i = [k for k in range(n) if nodes[k] is x][0]
        get = {"name": names[i], "label": "L" + tag(x, want), "module": "M" + tag(x, want)}
        inp.check("entry-name", entry["name"] == get[name or "name"], "%r for %r" % (entry["name"], x.frame.attrs))
        inp.check("entry-frame", entry["frame"] == x.frame.attrs and entry["frame"] is not x.frame.attrs)
        inp.check("entry-attributes", entry["attributes"] == {c: get[c] for c in (cats or []) if c in get}, "%r" % (entry["attributes"],))
        inp.check("entry-metrics", set(entry["metrics"]) == {"time", "time (inc)", "_hatchet_nid"}, "%r" % (sorted(entry["metrics"]),))
        inp.check("entry-metrics", entry["metrics"]["_hatchet_nid"] == x._hatchet_nid)
        for m in mets:
            v = vals[(m, i, want)]
            if isinstance(v, (float, np.floating)) and not math.isfinite(v):
                v = 0.0
            inp.check("entry-metrics", inp.eqv(entry["metrics"][m], v), "%s of %r" % (m, x.frame.attrs))
        kids = sorted(x.children, key=lambda c: c.frame.attrs["name"])
        if kids and not any(y is x for y in expanded):
            expanded.append(x)
            sub = entry.get("children", [])
            inp.check("entry-children", len(sub) == len(kids), "%d children of %r, not %d" % (len(sub), x.frame.attrs, len(kids)))
            for e, c in zip(sub, kids):
                go(e, c)
        else:
            inp.check("entry-children", not entry.get("children"))
    roots = sorted(g.roots, key=lambda c: c.frame.attrs["name"])
    inp.check("entry-children", len(lit) == len(roots), "%d top-level entries" % len(lit))
    for e, x in zip(lit, roots):
        go(e, x)


def harnesses(tier):
    q = tier == "quick"
    hs = []
    LR = ["literal-unchanged", "nodes", "rows", "nesting", "frames", "links", "ids", "values", "metric-lists"]
    LT = ["source-unchanged", "graph", "links", "ids", "values", "metric-lists"]

    def add(name, fn, labels, bounds, validate=20, **kw):
        kw.setdefault("levels", "node")
        hs.append(H(name, fn, labels, bounds, kw, validate=validate))
    add("read-trees", read, LR, "literals of trees and forests of 4 entries, repeated frames, without ids", n=4, shape="tree", roots=2, names="xy",
        nids=["none"], inframe=[True, False])
    add("read-ids", read, LR, "literals of trees of 4 entries with given ids", n=4, shape="tree", roots=2, names="xy", nids=["order", "reverse", "gaps"])
    add("read-dags", read, LR, "literals of DAGs of 4 entries (ids, children repeated or not), frames x/y", n=4, shape="dag", names=["x", "xy", "xy", "x"],
        nids=["order", "gaps"], repeat=[False, True], mets=["time"])
    add("read-kinds", read, LR, "literals of trees of 3 entries, NaN and infinite values", n=3, shape="tree", names="x", nids=["none", "order"],
        kinds=("fin", "nan", "inf"))
    add("trees", roundtrip, LT, "trees on 4 nodes, names x/y/z", n=4, shape="tree", names="three")
    add("dags", roundtrip, LT, "DAGs on 4 nodes", n=4, shape="dag", names="asc", naming="perm")
    add("kinds", roundtrip, LT, "trees on 3 nodes, finite/NaN/inf/-inf", n=3, shape="tree", names="asc", kinds=("fin", "nan", "inf", "-inf"), one=True)
    add("ranks", roundtrip, LT, "DAGs on 3 nodes, either rank", n=3, shape="dag", names="asc", levels="rank")
    add("threads", roundtrip, LT, "DAGs on 3 nodes, either thread", n=3, shape="dag", names="asc", levels="thread")
    add("rt", roundtrip, LT, "DAGs on 3 nodes, any rank/thread row", n=3, shape="dag", names="asc", levels="rt")
    add("squashed", roundtrip, LT, "results of squashing DAGs of 4 nodes", n=4, shape="dag", names="asc", squash=1)
    add("dup-frames", roundtrip, LT, "DAGs on 4 nodes, frames x/y repeated in different places", n=4, shape="dag", names="two", max_roots=1, one=True)
    LF = ["entry-name", "entry-frame", "entry-attributes", "entry-metrics", "entry-children"]
    add("read-metrics", read, LR, "literals of trees of 2 entries with other metric names", n=2, shape="tree", roots=2, names="xy", nids=["none", "order"],
        metsets=METSETS)
    add("metrics", roundtrip, LT, "trees on 2 nodes with other metric names", n=2, shape="tree", names="asc", metsets=METSETS)
    add("form", form, LF, "DAGs on 3 nodes, name and attribute columns", n=3, shape="dag", names="asc")
    add("form-trees", form, LF, "trees on 3 nodes, repeated frames", n=3, shape="tree", names="two")
    add("form-rt", form, LF, "trees on 2 nodes, any rank/thread row", n=2, shape="tree", names="asc", levels="rt")
    add("form-kinds", form, LF, "trees on 2 nodes, NaN and infinite values", n=2, shape="tree", names="asc", kinds=("fin", "nan", "inf"))
    if not q:
        add("trees5", roundtrip, LT, "trees on 5 nodes, names x/y", n=5, shape="tree", names="two")
        add("dags5", roundtrip, LT, "DAGs on 5 nodes, <= 2 roots", n=5, shape="dag", names="asc", max_roots=2)
        add("read-dags5", read, LR, "literals of DAGs of 5 entries, one root", n=5, shape="dag", names=["x", "xy", "xy", "x", "xy"], nids=["order"], repeat=[False, True],
            mets=["time"], max_roots=1)
    return hs
