"""C10: the union of two graphs has exactly the call paths of both."""
from .graphs import *

PROPERTY = "C10"


def union(inp):
    p = inp.params
    a, an, ae, anm = make(inp, "a", p["n"], p["shape"], p["names"], p.get("roots", 1), max_roots=p.get("max_roots"))
    b, bn, be, bnm = make(inp, "b", p["m"], p.get("shape2", p["shape"]), p.get("names2", p["names"]), p.get("roots2", p.get("roots", 1)),
                          -1 if p.get("rev") else 1, max_roots=p.get("max_roots"))
    if p.get("nodup", True):
        no_dup_siblings(inp, p["n"], ae, anm)
        no_dup_siblings(inp, p["m"], be, bnm)
    if p["shape"] == "dag":
        # frames that call each other in opposite orders have no acyclic union
        rel = {(anm[x], anm[y]) for x, y in ae} | {(bnm[x], bnm[y]) for x, y in be}
        inp.assume(acyclic(rel))
    sa, sb = snapshot(a), snapshot(b)
    o2n = {}
    u = a.union(b, o2n)
    inp.check("operands-unchanged", unchanged(a, sa) and unchanged(b, sb))
    up = [(q, path_names(q)) for q in node_paths(u)]
    src = [(g, q, path_names(q)) for g in (a, b) for q in node_paths(g)]
    get = lambda x: o2n[lookup(o2n, x)]
    for g, q, nm in src:
        inp.check("has-every-path", any(same_path(nm, un) for _, un in up), "path %r lost" % (nm,))
        x = get(q[-1])
        inp.check("mapped", has(all_nodes(u), x) and bool(frame_name(x) == nm[-1]), "mapping of %r" % (nm,))
        if p["shape"] == "tree":
            inp.check("mapped", any(uq[-1] is x and same_path(nm, un) for uq, un in up), "mapped node of %r lies elsewhere" % (nm,))
    if p["shape"] == "tree":
        for uq, un in up:
            inp.check("no-other-path", any(same_path(nm, un) for _, _, nm in src), "extra path %r" % (un,))
            # a mapped original exists
            inp.check("no-other-path", any(get(q[-1]) is uq[-1] for _, q, _ in src), "node without original")
    if p.get("nodup", True):
            for i in range(len(up)):
                for j in range(i):
                    inp.check("one-node-per-path", not same_path(up[i][1], up[j][1]), "two nodes for path %r" % (up[i][1],))
    ns = check_links(inp, u)
    inp.check("new-nodes", not any(has(an + bn, x) for x in ns))
    inp.check("ids", preorder_ok(u))
    depths_ok(inp, u, "ids")
    if p.get("laws", True):
        inp.check("commutative", b.union(a) == u)
        inp.check("idempotent", a.union(a) == a)


def fork(inp):
    """A node shared by two callers on one side, a node below each of them on the other: more than two nodes merge."""
    p = inp.params
    l2 = inp.choice("below", p["below"])
    n = sum(p["left"])
    a, an, ae, anm = make(inp, "a", n, p["left"], ["p", "q", "x", "c", "d"][:n])
    m = sum(p["right"])
    b, bn, be, bnm = make(inp, "b", m, p["right"], ["p", "q", "x", "x"] + list(l2), order=-1 if p.get("rev") else 1)
    no_dup_siblings(inp, n, ae, anm)
    no_dup_siblings(inp, m, be, bnm)
    if inp.flag("swap"):
        a, b, an, bn = b, a, bn, an
    sa, sb = snapshot(a), snapshot(b)
    o2n = {}
    u = a.union(b, o2n)
    inp.check("operands-unchanged", unchanged(a, sa) and unchanged(b, sb))
    up = [(q, path_names(q)) for q in node_paths(u)]
    for g in (a, b):
        for q in node_paths(g):
            nm = path_names(q)
            inp.check("has-every-path", any(same_path(nm, un) for _, un in up), "path %r lost" % (nm,))
            x = o2n[lookup(o2n, q[-1])]
            inp.check("mapped", any(uq[-1] is x and same_path(nm, un) for uq, un in up), "mapped node of %r lies elsewhere" % (nm,))
    for i in range(len(up)):
        for j in range(i):
            inp.check("one-node-per-path", not same_path(up[i][1], up[j][1]), "two nodes for path %r" % (up[i][1],))
    ns = check_links(inp, u)
    inp.check("new-nodes", not any(has(an + bn, x) for x in ns))
    inp.check("ids", preorder_ok(u))
    depths_ok(inp, u, "ids")


def acyclic(rel):
    rel = set(rel)
    while rel:
        heads = {y for _, y in rel}
        rest = {(x, y) for x, y in rel if x in heads}
        if rest == rel:
            return False
        rel = rest
    return True


def lookup(o2n, x):
    """Key of x in the old_to_new map (keyed by id(node))."""
    import hatchet.graph as hg
    f = hg.__dict__.get("id", id)
    return f(x)


def harnesses(tier):
    q = tier == "quick"
    hs = []

    def add(name, fn, labels, bounds, **kw):
        hs.append(H(name, fn, labels, bounds, kw, validate=20))
    LT = ["has-every-path", "mapped", "no-other-path", "one-node-per-path", "links-symmetric", "operands-unchanged",
          "new-nodes", "ids", "commutative", "idempotent"]
    LD = ["has-every-path", "mapped", "one-node-per-path", "links-symmetric", "operands-unchanged", "new-nodes", "ids"]
    LDUP = [x for x in LT if x not in ("one-node-per-path", "commutative", "idempotent")]
    add("trees", union, LT, "all pairs of trees on 3+3 nodes, any frames in any order, distinct siblings", n=3, m=3,
        shape="tree", names="sym")
    add("forests", union, LT, "all pairs of forests on 3+2 nodes, any frames", n=3, m=2, shape="tree", names="sym",
        roots=3, rev=True)
    add("wide", union, LT, "all pairs of forests on 3+3 nodes, any frames" if not q else "all pairs of forests of <= 2 roots on 3+3 nodes",
        n=3, m=3, shape="tree", names="sym", roots=2 if q else 3)
    add("trees4", union, LT, "trees on 4+3 nodes, frames x/y", n=4, m=3 if q else 4, shape="tree", names="two")
    add("dup", union, LDUP, "pairs of trees on 3+3 nodes, frames x/y, equal siblings allowed", n=3, m=3, shape="tree",
        names="two", nodup=False, laws=False)
    add("dags", union, LD, "all pairs of a DAG on 4 and a DAG on 3 nodes, frames distinct within each graph", n=4, m=3, shape="dag",
        names="asc", names2=["a", "b", "c"], laws=False, max_roots=1)
    add("dags4", union, LD, "all pairs of DAGs on 4 nodes (one root)", n=4, m=4, shape="dag",
        names="asc", laws=False, max_roots=1)
    add("dags4b", union, LD, "all pairs of DAGs on 4 nodes, frames permuted (without opposite call orders)", n=4, m=4, shape="dag",
        names="asc", names2=["a", "c", "b", "d"], laws=False, max_roots=1)
    add("dags3r", union, LD, "all pairs of DAGs on 3 nodes", n=3, m=3, shape="dag",
        names="asc", names2="three", laws=False)
    add("fork", fork, LD, "a shared node with 2 callers against any two nodes of its name below the same callers, 2 nodes below them", left=[2, 1, 2],
        right=[2, 2, 2], below=["cc", "cd", "de", "dc", "ee"])
    if not q:
        add("fork3", fork, LD, "the same with 3 nodes below them", left=[2, 1, 2], right=[2, 2, 3], below=["ccc", "cdd", "cde"], rev=True)
        add("dags4r", union, LD, "all pairs of DAGs on 4 nodes, any number of roots", n=4, m=4, shape="dag",
            names="asc", laws=False)
        add("dags54", union, LD, "all pairs of DAGs on 5 and 4 nodes (one root)", n=5, m=4, shape="dag",
            names="asc", names2=["a", "b", "d", "e"], laws=False, max_roots=1)
        add("trees44", union, LT, "trees on 4+3 nodes, any frames", n=4, m=3, shape="tree", names="sym")
    return hs
