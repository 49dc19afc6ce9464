"""C27: graphs written as nested lists."""
from .graphs import *

PROPERTY = "C27"
TYPES = {"list": list, "tuple": tuple}


def spec(inp, n, edges, names, forms):
    """Nested lists that describe the graph: (root specifications, index -> Node given or None)."""
    ch = {i: [b for a, b in edges if a == i] for i in range(n)}
    indeg = {i: sum(1 for _, b in edges if b == i) for i in range(n)}
    given, open_ = {}, set()
    for i in range(n):
        # only a Node can be put in several places
        if indeg[i] > 1 or inp.flag("node%d" % i):
            given[i] = Node(Frame({"name": names[i], "type": "f"}))

    rest = {}           # what is left to describe of a Node put in several places

    def build(i, root=False):
        item = given.get(i, names[i])
        if i in open_:      # described before: the Node stands for all of it
            if rest.get(i):
                c = rest[i].pop(0)
                return TYPES[forms[0]]([item, build(c)])
            return item
        open_.add(i)
        if indeg[i] > 1 and ch[i] and inp.params.get("split") and inp.flag("split%d" % i):
            rest[i] = ch[i][-1:]
            return TYPES[forms[0]]([item] + [build(c) for c in ch[i][:-1]])
        if not ch[i] and not root and inp.flag("bare%d" % i):
            return item
        return TYPES[inp.choice("seq%d" % i, forms)]([item] + [build(c) for c in ch[i]])
    kids = {b for _, b in edges}
    roots = [i for i in range(n) if i not in kids]
    return [build(r, True) for r in roots], given, roots, ch


def same(inp, node, i, names, given, ch, seen):
    """node is node i of the description, with all below it in the order written."""
    if i in seen:
        inp.check("nodes", seen[i] is node, "node %d is two nodes" % i)
        return
    seen[i] = node
    if i in given:
        inp.check("nodes", node is given[i], "another node than the one given for %d" % i)
    inp.check("frames", inp.And(node.frame["name"] == names[i], len(node.frame.attrs) == 2, node.frame["type"] == ("f" if i in given else "None")),
              "frame %r of node %d" % (node.frame.attrs, i))
    inp.check("children", len(node.children) == len(ch[i]), "%d children of node %d, not %d" % (len(node.children), i, len(ch[i])))
    for x, c in zip(node.children, ch[i]):
        same(inp, x, c, names, given, ch, seen)


def lists(inp):
    p = inp.params
    n = p["n"]
    if isinstance(p["shape"], list):
        edges = layer_edges(inp, p["shape"], "e")
    elif p["shape"] == "tree":
        edges = par_edges(tree_parents(inp, n, roots=p.get("roots", 1)))
    else:
        edges = dag_edges(inp, n, max_roots=p.get("roots", 1))
    names = [inp.name("n%d" % i) for i in range(n)] if p.get("sym", True) else list(LETTERS[:n])
    specs, given, roots, ch = spec(inp, n, edges, names, p.get("forms", ["list"]))
    api = inp.choice("api", ["graphframe", "graph"] + (["node"] if len(roots) == 1 else []))
    gf = None
    if api == "node":
        found = [Node.from_lists(specs[0])]
    elif api == "graph":
        g = Graph.from_lists(*specs)
        found = g.roots
    else:
        gf = GraphFrame.from_lists(*specs)
        g, found = gf.graph, gf.graph.roots
    seen = {}
    inp.check("nodes", len(found) == len(roots), "%d roots" % len(found))
    for x, r in zip(found, roots):
        same(inp, x, r, names, given, ch, seen)
    par = {i: [a for a, b in edges if b == i] for i in range(n)}
    for i in range(n):
        inp.check("parents", sorted(P._builtin_id(x) for x in seen[i].parents) == sorted(P._builtin_id(seen[a]) for a in par[i]),
                  "parents of node %d: %r" % (i, seen[i].parents))
    if api == "node":
        return
    inp.check("ids", sorted(x._hatchet_nid for x in seen.values()) == list(range(n)), "ids %r" % [x._hatchet_nid for x in seen.values()])
    seq = list(g.traverse())
    inp.check("ids", [x._hatchet_nid for x in seq] == list(range(n)), "ids in traversal order %r" % [x._hatchet_nid for x in seq])
    depths = {i: set() for i in range(n)}

    def walk(i, d):
        depths[i].add(d)
        for c in ch[i]:
            walk(c, d + 1)
    for r in roots:
        walk(r, 0)
    for i in range(n):
        inp.check("depths", seen[i]._depth in depths[i], "depth %r of node %d" % (seen[i]._depth, i))
    if gf is None:
        return
    df = gf.dataframe
    inp.check("rows", list(df.index.names) == ["node"] and [P._builtin_id(x) for x in df.index] == [P._builtin_id(x) for x in seq])
    inp.check("rows", sorted(df.columns) == ["name", "time", "time (inc)"], "columns %r" % list(df.columns))
    inp.check("rows", gf.exc_metrics == ["time"] and gf.inc_metrics == ["time (inc)"], "metrics %r %r" % (gf.exc_metrics, gf.inc_metrics))
    down = descend(n, edges)
    for i in range(n):
        row = df.iloc[seen[i]._hatchet_nid]
        inp.check("values", row["name"] == names[i])
        inp.check("values", row["time"] == 1.0 and row["time (inc)"] == len(down[i]), "values of node %d: %r" % (i, list(row)))


def refused(inp):
    """What is not a nested list of names and nodes is refused with ValueError."""
    nd = Node(Frame(name="d"))
    bad = inp.choice("bad", [5, None, 2.5, {"name": "a"}])
    where = inp.choice("where", ["root", "child", "grandchild", "head", "child-head", "second-root", "str-root", "node-root"])
    api = inp.choice("api", [GraphFrame.from_lists, Graph.from_lists, Node.from_lists])
    inp.assume(api != Node.from_lists or where not in ("second-root", "str-root", "node-root"))
    args = {"root": [bad], "child": [["a", bad]], "grandchild": [("a", ["b", nd, bad])], "head": [[bad, "a"]], "child-head": [["a", (bad,)]],
            "second-root": [["a"], bad], "str-root": ["abc", ["d"]], "node-root": [["d"], nd]}[where]
    try:
        api(*args)
        inp.check("refused", False, "%r is taken" % (args,))
    except ValueError:
        inp.check("refused", True)


def harnesses(tier):
    q = tier == "quick"
    hs = []
    L = ["nodes", "frames", "children", "parents", "ids", "depths", "rows", "values"]

    def add(name, bounds, **kw):
        hs.append(H(name, lists, L, bounds, kw, validate=20))
    add("trees", "trees on 4 nodes, all names, names, nodes, lists and bare leaves", n=4, shape="tree", forms=["list"])
    add("tuples", "trees on 3 nodes, all names, lists and tuples", n=3, shape="tree", forms=["list", "tuple"])
    add("forests", "forests on 3 nodes, all names", n=3, shape="tree", roots=3)
    add("dags", "DAGs on 4 nodes, up to 2 roots, shared nodes", n=4, shape="dag", roots=2, sym=False)
    add("split", "two roots, one node below and two below that; the children of a shared node are written in two of its places",
        n=5, shape=[2, 1, 2], split=True, sym=False)
    add("dags-sym", "DAGs on 3 nodes, all names", n=3, shape="dag", roots=2)
    hs.append(H("refused", refused, ["refused"], "misuse at each place of each constructor", {}, validate=10))
    if not q:
        add("split6", "two layers below two roots, split likewise", n=6, shape=[2, 2, 2], split=True, sym=False)
        add("trees5", "trees on 5 nodes", n=5, shape="tree")
        add("dags-sym4", "DAGs on 4 nodes, all names", n=4, shape="dag", roots=2)
    return hs
