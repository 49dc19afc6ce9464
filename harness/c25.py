"""C25: normalising a graph merges exactly the duplicate siblings."""
from hatchet.node import MultiplePathError
from .graphs import *

PROPERTY = "C25"


def expected_classes(n, edges, names, roots):
    """Least equivalence that merges equal-frame siblings (class index per node),
    closed under merging: a merged node's children are the union of children."""
    cls = list(range(n))

    def find(i):
        while cls[i] != i:
            i = cls[i]
        return i
    eq = {}
    for i in range(n):
        for j in range(i):
            eq[(j, i)] = eq[(i, j)] = bool(names[i] == names[j])
    changed = True
    while changed:
        changed = False
        groups = [list(roots)]
        for i in range(n):
            if find(i) == i:
                groups.append([b for a, b in edges if find(a) == i])
        for g in groups:
            for x in g:
                for y in g:
                    if find(x) != find(y) and eq[(x, y)]:
                        cls[find(x)] = find(y)
                        changed = True
    return [find(i) for i in range(n)]


def acyclic(rel):
    rel = set(rel)
    while rel:
        heads = {y for _, y in rel}
        rest = {(x, y) for x, y in rel if x in heads}
        if rest == rel:
            return False
        rel = rest
    return True


def answers(inp, g, every):
    """What the graph and its nodes say about themselves, given all paths from roots."""
    ns = all_nodes(g)
    inp.check("answers", len(g) == len(ns), "%r nodes of %d" % (len(g), len(ns)))
    tree = len(g.roots) == 1 and len(every) == len(ns)
    inp.check("answers", bool(g.is_tree()) == tree, "is_tree: %r" % (g.is_tree(),))
    for x in ns:
        want = [q for q in every if q[-1] is x]
        got = x.paths()
        inp.check("answers", len(got) == len(want) and all(any(len(a) == len(b) and all(u is v for u, v in zip(a, b)) for a in got) for b in want),
                  "%d paths, not %d" % (len(got), len(want)))
        try:
            one = x.path()
        except MultiplePathError:
            inp.check("answers", len(want) > 1, "no path")
        else:
            inp.check("answers", len(want) == 1 and len(one) == len(want[0]) and all(u is v for u, v in zip(one, want[0])), "path")


def normalise(inp):
    p = inp.params
    n = p["n"]
    g, nodes, edges, names = make(inp, "g", n, p["shape"], p["names"], p.get("roots", 1),
                                  -1 if p.get("rev") else 1, max_roots=p.get("max_roots"))
    kids = {b for _, b in edges}
    roots = [i for i in range(n) if i not in kids]
    before = [tuple(names[i] for i in ip) for ip in index_paths(n, edges)]
    ends = [ip[-1] for ip in index_paths(n, edges)]
    cls = expected_classes(n, edges, names, roots)
    if p["shape"] != "tree":
        # merging a node with its own descendant would make a cycle: no call graph
        inp.assume(acyclic({(cls[a], cls[b]) for a, b in edges}))
    answers(inp, g, node_paths(g))
    merges = g.normalize()
    ns = all_nodes(g)
    # no two siblings with equal frames
    for group in [g.roots] + [x.children for x in ns]:
        for i in range(len(group)):
            for j in range(i):
                inp.check("no-duplicate-siblings", frame_name(group[i]) != frame_name(group[j]))
    check_links(inp, g)
    # exactly one survivor per class, and it is a member of the class
    num = {P._builtin_id(x): i for i, x in enumerate(nodes)}
    inp.check("survivors", all(P._builtin_id(x) in num for x in ns))
    surv = {}
    for x in ns:
        c = cls[num[P._builtin_id(x)]]
        inp.check("survivors", c not in surv, "two nodes left for one merged group")
        surv[c] = x
    inp.check("survivors", len(surv) == len(set(cls)), "merged nodes that are not duplicate siblings, or lost some")
    # the map
    for i, x in enumerate(nodes):
        y = surv.get(cls[i])
        t = [v for k, v in merges.items() if k is x]
        if y is x:
            inp.check("map", all(v is x for v in t), "surviving node %d mapped elsewhere" % i)
        else:
            inp.check("map", len(t) == 1 and t[0] is y, "eliminated node %d not mapped to its survivor" % i)
    # edges of the quotient, nothing else
    for c, x in surv.items():
        want = {cls[b] for a, b in edges if cls[a] == c}
        got = [cls[num[P._builtin_id(y)]] for y in x.children]
        inp.check("edges", sorted(got) == sorted(want), "children of a node differ")
    inp.check("edges", sorted(cls[num[P._builtin_id(r)]] for r in g.roots) == sorted({cls[r] for r in roots}), "roots differ")
    answers(inp, g, node_paths(g))
    after = [path_names(q) for q in node_paths(g)]
    for b in before:
        inp.check("paths", any(same_path(a, b) for a in after), "path %r lost" % (b,))
    if p["shape"] == "tree":
        for a in after:
            inp.check("paths", any(same_path(a, b) for b in before), "path %r appeared" % (a,))
    for q, a in [(q, path_names(q)) for q in node_paths(g)]:
        if p["shape"] == "tree":
            for b, e in zip(before, ends):
                if same_path(a, b):
                    inp.check("paths", surv.get(cls[e]) is q[-1], "path %r ends at a wrong node" % (a,))


def harnesses(tier):
    q = tier == "quick"
    hs = []
    L = ["no-duplicate-siblings", "links-symmetric", "survivors", "map", "edges", "paths", "answers"]

    def add(name, bounds, **kw):
        hs.append(H(name, normalise, L if name not in ("trees6", "layers") else L[1:], bounds, kw, validate=20))
    add("trees4", "trees on 4 nodes, any frames, any address order", n=4, shape="tree", names="sym")
    add("forests4", "forests on 4 nodes (<= 4 roots), any frames", n=4, shape="tree", names="sym", roots=4, rev=True)
    add("trees5", "trees on 5 nodes, frames x/y", n=5, shape="tree", names="two")
    add("trees6", "trees on 6 nodes, all frames equal", n=6, shape="tree", names="xxxxxx")
    add("layers", "two roots, three equal nodes below them in any way, two equal nodes below these in any way", n=7, shape=[2, 3, 2],
        names="pqaaayy")
    add("dags4", "DAGs on 4 nodes, frames x/y", n=4, shape="dag", names="two")
    if not q:
        add("trees5s", "trees on 5 nodes, any frames", n=5, shape="tree", names="sym")
        add("forests5", "forests on 5 nodes, frames x/y", n=5, shape="tree", names="two", roots=5)
        add("layers-rev", "the same, addresses in the reverse order", n=7, shape=[2, 3, 2], names="pqaaayy", rev=True)
        add("layers4", "two roots, and four layers", n=7, shape=[2, 2, 2, 1], names="pqaabbc")
        add("dags5", "DAGs on 5 nodes (one root), frames x/y", n=5, shape="dag", names="two", max_roots=1)
    return hs
