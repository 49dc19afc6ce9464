"""C13: traversal visits each node once; ids, depths, in-degrees and paths agree with the edges."""
from hatchet.node import MultiplePathError
from .graphs import *

PROPERTY = "C13"


def le(a, b):
    return bool(frame_name(a) <= frame_name(b)) if not isinstance(frame_name(a), P.SymName) else bool(
        frame_name(a) <= frame_name(b))


def walk_check(graph, seq, order):
    """seq is a depth-first walk of graph with siblings in frame order (ties in any order)."""
    pos = {}
    for i, x in enumerate(seq):
        if P._builtin_id(x) in pos:
            return "node visited twice"
        pos[P._builtin_id(x)] = i
    ns = all_nodes(graph)
    if len(ns) != len(seq) or any(P._builtin_id(x) not in pos for x in ns):
        return "not exactly the reachable nodes"
    def run(tie):
        seen, out = set(), []

        def go(x):
            if P._builtin_id(x) in seen:
                return
            seen.add(P._builtin_id(x))
            if order == "pre":
                out.append(x)
            visit(x.children)
            if order == "post":
                out.append(x)

        def visit(rest):
            rest = list(rest)
            while rest:
                m = [c for c in rest if all(le(c, d) for d in rest)]
                c = min(m, key=lambda c: tie[P._builtin_id(c)])
                go(c)
                rest = [d for d in rest if d is not c]
        visit(graph.roots)
        return len(out) == len(seq) and all(a is b for a, b in zip(out, seq))
    # equal frames may come in any (fixed) order
    first = {P._builtin_id(x): i for i, x in enumerate(seq)}
    if run(first):
        return None
    for perm in itertools.permutations(range(len(ns))):
        if run({P._builtin_id(x): perm[i] for i, x in enumerate(ns)}):
            return None
    return "order"


def traverse(inp):
    p = inp.params
    n = p["n"]
    g, nodes, edges, names = make(inp, "", n, p["shape"], p["names"], p.get("roots", 1),
                                  -1 if p.get("orders") and inp.flag("rev") else 1, max_roots=p.get("max_roots"))
    indeg = {i: sum(1 for _, b in edges if b == i) for i in range(n)}
    kids = {b for _, b in edges}
    visited = {}
    pre = list(g.traverse(visited=visited))
    inp.check("preorder", walk_check(g, pre, "pre") is None, "%s" % [x._hatchet_nid for x in pre])
    post = list(g.traverse(order="post"))
    inp.check("postorder", walk_check(g, post, "post") is None, "%s" % [x._hatchet_nid for x in post])
    for i in range(n):
        c = [v for k, v in visited.items() if k == idof(nodes[i])]
        inp.check("visit-counts", c == [max(1, indeg[i])], "node %d reached %r times" % (i, c))
    inp.check("ids", [x._hatchet_nid for x in pre] == list(range(n)))
    depths_ok(inp, g)
    inp.check("sizes", len(g) == n)
    inp.check("tree-test", g.is_tree() == (len(edges) == n - 1 and all(indeg[i] <= 1 for i in range(n)) and len(g.roots) == 1))
    nm = list(g.traverse(attrs="name"))
    inp.check("preorder", len(nm) == n and all(a is frame_name(b) or a == frame_name(b) for a, b in zip(nm, pre)))
    for i in range(n):
        sub = list(nodes[i].traverse())
        d = descend(n, edges)[i]
        inp.check("subgraph-walk", len(sub) == len(d) and all(has(sub, nodes[j]) for j in d) and sub[0] is nodes[i])
    if p.get("nodeorder"):
        counts = {}
        no = list(g.node_order_traverse(visited=counts))
        inp.check("preorder", len(no) == n and all(a is b for a, b in zip(no, pre)), "node-order walk by ids")
        inp.check("visit-counts", counts == visited, "%r, not %r" % (sorted(counts.values()), sorted(visited.values())))
        no = list(g.node_order_traverse(order="post"))
        inp.check("postorder", len(no) == n and all(a is b for a, b in zip(no, post)), "node-order walk by ids")
        nm = list(g.node_order_traverse(attrs="name"))
        inp.check("preorder", nm == [frame_name(x) for x in pre], "%r" % nm)


def idof(x):
    import hatchet.node as hn
    return hn.__dict__.get("id", id)(x)


def paths(inp):
    n = inp.params["n"]
    g, nodes, edges, names = make(inp, "", n, "dag", "asc")
    all_p = index_paths(n, edges)
    for i in range(n):
        want = [q for q in all_p if q[-1] == i]
        got = nodes[i].paths()
        inp.check("paths", len(got) == len(want) and all(
            any(len(w) == len(q) and all(nodes[a] is b for a, b in zip(w, q)) for q in got) for w in want),
            "node %d: %d paths, want %d" % (i, len(got), len(want)))
        if len(want) == 1:
            pt = nodes[i].path()
            inp.check("single-path", len(pt) == len(want[0]) and all(nodes[a] is b for a, b in zip(want[0], pt)))
        else:
            try:
                nodes[i].path()
                ok = False
            except MultiplePathError:
                ok = True
            inp.check("multiple-path-error", ok, "no MultiplePathError")


def derived(inp):
    """Ids, depths, order of graphs made by constructors and operations."""
    p = inp.params
    n = p["n"]
    how = inp.choice("how", p["how"])
    if how == "lists":
        par = tree_parents(inp, n)
        names = [inp.choice("n%d" % i, "xy") for i in range(n)]
        def rec(i):
            ch = [j for j in range(n) if par[j] == i]
            return [names[i]] + [rec(j) if inp.flag("l%d" % j) else (rec(j) if any(q == j for q in par) else names[j]) for j in ch]
        g = Graph.from_lists(rec(0))
        inp.check("sizes", len(g) == n)
    elif how == "hnid":
        # nodes that already carry ids
        par = tree_parents(inp, n, roots=2)
        nodes = [Node(Frame(name=LETTERS[i]), None, hnid=i) for i in range(n)]
        for i in range(n):
            if par[i] is not None:
                nodes[par[i]].add_child(nodes[i])
                nodes[i].add_parent(nodes[par[i]])
        g = Graph([nodes[i] for i in range(n) if par[i] is None])
        g.enumerate_traverse()
    elif how == "literal":
        par = tree_parents(inp, n)
        names = [inp.choice("n%d" % i, "xy") for i in range(n)]
        def lit(i):
            d = {"frame": {"name": names[i]}, "metrics": {"time": 1.0}}
            ch = [lit(j) for j in range(n) if par[j] == i]
            if ch:
                d["children"] = ch
            return d
        g = GraphFrame.from_literal([lit(0)]).graph
    elif how == "copy":
        g0, nodes, edges, names = make(inp, "", n, "dag", p["names"])
        g = g0.copy()
        inp.check("sizes", len(g) == n and not any(has(nodes, x) for x in all_nodes(g)))
    else:
        g0, nodes, edges, names = make(inp, "", n, "dag", p["names"], max_roots=2)
        if how == "union":
            g1, nodes1, e1, names1 = make(inp, "b", 2, "tree", ["a", "c"] if p["names"] == "asc" else "sym", roots=2)
            g = g0.union(g1)
        else:
            keep = [inp.flag("k%d" % i) for i in range(n)]
            inp.assume(any(keep))
            df = build_df(nodes, "node", {"time": lambda i, ex: 1.0}, names)
            gf = GraphFrame(g0, df, ["time"], [])
            kept = {P._builtin_id(x) for x, k in zip(nodes, keep) if k}
            g = gf.filter(lambda r: P._builtin_id(r["node"]) in kept, num_procs=1).graph
    pre = list(g.traverse())
    inp.check("preorder", walk_check(g, pre, "pre") is None, how)
    ids = [x._hatchet_nid for x in pre]
    if how == "squash" and p["names"] != "asc":
        # merging duplicates may leave gaps; ids still follow the walk
        inp.check("ids", len(set(ids)) == len(ids), "%s %r" % (how, ids))
    else:
        inp.check("ids", ids == list(range(len(ids))), "%s %r" % (how, ids))
        depths_ok(inp, g)


def node_order(inp):
    """Graphs ordered by a node-order column: siblings follow their given ids."""
    n = inp.params["n"]
    par = tree_parents(inp, n, roots=2)
    order = inp.choice("perm", list(itertools.permutations(range(n))))
    nodes = [Node(Frame(name=LETTERS[i]), None, hnid=order[i] * 3) for i in range(n)]
    for i in range(n):
        if par[i] is not None:
            nodes[par[i]].add_child(nodes[i])
            nodes[i].add_parent(nodes[par[i]])
    g = Graph([nodes[i] for i in range(n) if par[i] is None])
    g.node_ordering = True
    g.enumerate_traverse()
    out = []

    def go(i):
        out.append(i)
        for c in sorted([j for j in range(n) if par[j] == i], key=lambda j: order[j]):
            go(c)
    for r in sorted([j for j in range(n) if par[j] is None], key=lambda j: order[j]):
        go(r)
    inp.check("node-order-ids", [nodes[i]._hatchet_nid for i in out] == list(range(n)),
              "%r" % [nodes[i]._hatchet_nid for i in out])
    depths_ok(inp, g)
    inp.check("node-order-ids", all(a is nodes[b] for a, b in zip(g.node_order_traverse(), out)))
    if inp.params.get("copy"):
        c = g.copy()
        inp.check("node-order-copy", [frame_name(x) for x in c.node_order_traverse()] == [LETTERS[i] for i in out],
                  "copy of a node-ordered graph")
    if inp.params.get("squash"):
        df = build_df(nodes, "node", {"time": lambda i, ex: float(i)}, LETTERS[:n])
        gf = GraphFrame(g, df, ["time"], [])
        keep = [inp.flag("keep%d" % i) for i in range(n)]
        inp.assume(any(keep))
        kept = [LETTERS[i] for i in out if keep[i]]
        how = inp.choice("how", ["squash", "deepcopy"])
        sq = gf.filter(lambda row: row["name"] in kept, num_procs=1, squash=how == "squash")
        if how == "deepcopy":
            sq = sq.deepcopy().squash()
        got = [frame_name(x) for x in sq.graph.node_order_traverse()]
        inp.check("node-order-squash", got == kept, "squashed node-ordered graph: %r, not %r" % (got, kept))
        inp.check("node-order-squash", [x._hatchet_nid for x in sq.graph.node_order_traverse()] == list(range(len(kept))))
        for x, row in zip(sq.dataframe.index, sq.dataframe["name"]):
            inp.check("node-order-squash", frame_name(x) == row)


def grow(inp):
    """A graph that is enumerated, extended by a node and enumerated again."""
    p = inp.params
    n = p["n"]
    g, nodes, edges, names = make(inp, "", n, "dag", "asc", max_roots=2)
    name = inp.choice("name", "0bz")
    under = [inp.flag("under%d" % i) for i in range(n)]
    x = Node(Frame(name=name, type="function"), None, inp.choice("hnid", [-1, n]))
    for i in range(n):
        if under[i]:
            nodes[i].add_child(x)
            x.add_parent(nodes[i])
    if not any(under):
        g.roots.append(x)
    g.enumerate_traverse()
    pre = list(g.traverse())
    inp.check("preorder", walk_check(g, pre, "pre") is None, "grow")
    inp.check("ids", [y._hatchet_nid for y in pre] == list(range(n + 1)), "%r" % [y._hatchet_nid for y in pre])
    depths_ok(inp, g)


def harnesses(tier):
    q = tier == "quick"
    hs = []

    def add(name, fn, labels, bounds, **kw):
        hs.append(H(name, fn, labels, bounds, kw, validate=20))
    LT = ["preorder", "postorder", "visit-counts", "ids", "depths", "sizes", "tree-test", "subgraph-walk"]
    add("dag4", traverse, LT, "all DAGs on 4 nodes, distinct frames", n=4, shape="dag", names="asc", nodeorder=True, naming="perm")
    add("dag3-names", traverse, LT, "all DAGs on 3 nodes, any frames (equal or not), any address order", n=3, shape="dag",
        names="sym", orders=True)
    add("dag4-two", traverse, LT, "all DAGs on 4 nodes with one root, frames x/y, any address order", n=4, shape="dag", names="two",
        max_roots=1)
    add("tree4-names", traverse, LT, "all forests on 4 nodes, any frames, any address order", n=4, shape="tree", roots=2,
        names="sym")
    if not q:
        add("dag5", traverse, LT, "all DAGs on 5 nodes", n=5, shape="dag", names="asc")
        add("dag4-names", traverse, LT, "all DAGs on 4 nodes (one root), any frames, any address order", n=4, shape="dag", names="sym",
            max_roots=1)
    add("paths", paths, ["paths", "single-path", "multiple-path-error"], "all DAGs on 4 nodes", n=4 if q else 5)
    HOW = ["lists", "hnid", "literal", "copy", "union", "squash"]
    add("derived-asc", derived, ["preorder", "ids", "depths", "sizes"],
        "graphs from lists, literals, nodes with preset ids, copy, union, squash; 3 nodes", n=3, names="asc", how=HOW)
    add("derived-sym", derived, ["preorder", "ids", "depths"], "copy, union, squash with any frames, 3 nodes", n=3, names="sym",
        how=["copy", "union", "squash"])
    add("derived4", derived, ["preorder", "ids", "depths"], "the same with 4 nodes", n=4, names="asc", how=HOW, naming="perm")
    add("grow", grow, ["preorder", "ids", "depths"], "enumerated DAGs on 3 nodes to which a node is added anywhere", n=3 if q else 4)
    add("node-order", node_order, ["node-order-ids"], "forests on 4 nodes, every numbering", n=4 if q else 5, copy=False)
    add("node-order-copy", node_order, ["node-order-copy"], "copies of node-ordered forests on 3 nodes", n=3, copy=True)
    add("node-order-squash", node_order, ["node-order-squash"], "squashes of node-ordered forests on %d nodes" % (3 if q else 4), n=3 if q else 4, squash=True)
    return hs
