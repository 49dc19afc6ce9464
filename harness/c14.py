"""C14: graph equality is structural and an equivalence."""
from .graphs import *

PROPERTY = "C14"


def isomorphic(n, e1, nm1, m, e2, nm2):
    """Same call paths, and two paths lead to one node in both or in neither.
    (Graphs without equal-frame siblings: a path names one node.)"""
    if n != m:
        return False
    r1 = [i for i in range(n) if i not in {b for _, b in e1}]
    r2 = [i for i in range(m) if i not in {b for _, b in e2}]
    fwd, bwd = {}, {}

    def pair(s1, s2):
        if len(s1) != len(s2):
            return False
        s2 = list(s2)
        for x in s1:
            hit = [y for y in s2 if bool(nm1[x] == nm2[y])]
            if len(hit) != 1:
                return False
            y = hit[0]
            s2.remove(y)
            if x in fwd or y in bwd:
                if fwd.get(x) != y or bwd.get(y) != x:
                    return False
                continue
            fwd[x], bwd[y] = y, x
            if not pair([b for a, b in e1 if a == x], [b for a, b in e2 if a == y]):
                return False
        return True
    return pair(r1, r2)


def pairs(inp):
    p = inp.params
    n, m = p["n"], p["m"]
    a, an, ae, anm = make(inp, "a", n, p["shape"], p["names"], p.get("roots", 1), max_roots=p.get("max_roots"))
    b, bn, be, bnm = make(inp, "b", m, p["shape"], p.get("names2", p["names"]), p.get("roots", 1),
                          -1 if p.get("rev") else 1, max_roots=p.get("max_roots"))
    no_dup_siblings(inp, n, ae, anm)
    no_dup_siblings(inp, m, be, bnm)
    sa, sb = snapshot(a), snapshot(b)
    want = isomorphic(n, ae, anm, m, be, bnm)
    inp.check("structural", (a == b) == want, "== gives %s; %s %s / %s %s" % (a == b, ae, anm, be, bnm))
    inp.check("symmetric", (b == a) == want)
    inp.check("negation", (a != b) == (not want))
    inp.check("unchanged", unchanged(a, sa) and unchanged(b, sb))


def same(inp):
    """Listing order of nodes and children does not matter; copies are equal."""
    p = inp.params
    n = p["n"]
    a, an, ae, anm = make(inp, "a", n, p["shape"], p["names"], p.get("roots", 1), max_roots=p.get("max_roots"))
    no_dup_siblings(inp, n, ae, anm)
    b, _ = build_graph(n, ae, anm, -1)
    inp.check("listing-order", a == b and b == a and not a != b)
    c = a.copy()
    inp.check("copy-equal", c == a and a == c and c.copy() == a)
    inp.check("reflexive", a == a and not a != a)
    perm = inp.choice("perm", list(itertools.permutations(range(len(ae))))) if len(ae) <= 3 else tuple(range(len(ae)))[::-1]
    d, _ = build_graph(n, [ae[i] for i in perm], anm)
    inp.check("listing-order", a == d and d == b)


def copies(inp):
    """A copy equals its original, whatever the frames (equal siblings too)."""
    p = inp.params
    n = p["n"]
    a, an, ae, anm = make(inp, "a", n, p["shape"], p["names"], p.get("roots", 1), max_roots=p.get("max_roots"))
    s = snapshot(a)
    m = {}
    c = a.copy(m)
    inp.check("copy-equal", c == a and a == c)
    ns = check_links(inp, c)
    inp.check("copy-separate", len(ns) == n and not any(has(an, x) for x in ns))
    for x in an:
        y = m[x]
        inp.check("copy-mapped", has(ns, y) and y.frame == x.frame and len(y.children) == len(x.children)
                  and all(m[u] is v for u, v in zip(x.children, y.children))
                  and all(m[u] is v for u, v in zip(x.parents, y.parents)) and y.frame is not x.frame
                  and y.frame.attrs is not x.frame.attrs)
    inp.check("copy-separate", unchanged(a, s))


def trans(inp):
    p = inp.params
    gs = []
    for t in "abc":
        g, nodes, e, nm = make(inp, t, p["n"], p["shape"], p["names"], p.get("roots", 1))
        no_dup_siblings(inp, p["n"], e, nm)
        gs.append(g)
    a, b, c = gs
    if a == b and b == c:
        inp.check("transitive", a == c)
    else:
        inp.check("transitive", True)


def harnesses(tier):
    q = tier == "quick"
    hs = []

    def add(name, fn, labels, bounds, **kw):
        hs.append(H(name, fn, labels, bounds, kw, validate=20))
    LP = ["structural", "symmetric", "negation", "unchanged"]
    add("trees", pairs, LP, "all pairs of trees on 3+3 nodes, any frames, distinct siblings", n=3, m=3, shape="tree", names="sym",
        rev=True)
    add("forests", pairs, LP, "all pairs of forests on 3+3 nodes, frames x/y" if q else "all pairs of forests on 3+3 nodes, frames x/y/z",
        n=3, m=3, shape="tree", names="two" if q else "three", roots=2 if q else 3)
    add("trees4", pairs, LP, "all pairs of trees on 4+4 nodes, two frame assignments", n=4, m=4, shape="tree",
        names=["a", "x", "y", "x"], names2=["a", "y", "x", "x"])
    add("trees4s", pairs, LP, "all pairs of trees on 4+4 nodes, two equal frame assignments", n=4, m=4, shape="tree",
        names=["a", "x", "y", "z"], names2=["a", "x", "z", "y"])
    if not q:
        add("trees4t", pairs, LP, "trees on 4+4 nodes, frames x/y", n=4, m=4, shape="tree", names="two")
        add("trees5", pairs, LP, "all pairs of trees on 5 nodes, distinct frames", n=5, m=5, shape="tree", names="asc")
    add("sizes", pairs, LP, "trees on 3+2 and forests", n=3, m=2, shape="tree", names="two", roots=2)
    add("dags", pairs, LP, "all pairs of DAGs on 4 nodes (one root), distinct frames", n=4, m=4, shape="dag", names="asc", max_roots=1)
    add("dags-two", pairs, LP, "all pairs of DAGs on 4 nodes (one root), frames a,x,y,z / any of x,y", n=4, m=4, shape="dag", names=["a", "x", "y", "x"],
        names2=["a", "y", "x", "x"], max_roots=1)
    add("sharing", sharing, ["structural", "symmetric"], "3 callers, as roots or below one, up to 3 callees with one frame, every way of sharing the callees")
    add("same-dag", same, ["listing-order", "copy-equal", "reflexive"], "all DAGs on 4 nodes, distinct frames, listings permuted", n=4,
        shape="dag", names="asc")
    add("same-tree", same, ["listing-order", "copy-equal", "reflexive"], "all forests on 4 nodes, any frames", n=4 if not q else 3,
        shape="tree", names="sym", roots=2)
    add("copies", copies, ["copy-equal", "copy-separate", "copy-mapped"], "all DAGs on 4 nodes, frames x/y, equal siblings allowed, any address order",
        n=4, shape="dag", names="two", max_roots=1)
    add("copies-sym", copies, ["copy-equal", "copy-separate", "copy-mapped"], "all DAGs on 3 nodes, any frames", n=3, shape="dag", names="sym")
    add("trans", trans, ["transitive"], "triples of trees on 2 nodes, any frames" if q else "triples of trees on 3 nodes, any frames", n=2 if q else 3,
        shape="tree", names="sym", roots=2)
    return hs


def sharing(inp):
    """Callers b,c,d all call a node with frame e; which of them share it varies."""
    top = inp.flag("roots")

    def g(tag):
        own = [0]
        for j in (1, 2):
            own.append(inp.choice("%s%d" % (tag, j), range(max(own) + 2)))
        k = max(own) + 1
        edges = [(0, 1), (0, 2), (0, 3)] + [(1 + j, 4 + own[j]) for j in range(3)]
        nm = ["a", "b", "c", "d"] + ["e"] * k
        if inp.flag(tag + "leaf"):
            edges.append((4, 4 + k))
            nm.append("f")
        if top:                     # without a: three roots
            edges, nm = [(i - 1, j - 1) for i, j in edges if i], nm[1:]
        return build_graph(len(nm), edges, nm)[0], len(nm), edges, nm
    a, n, ae, anm = g("p")
    b, m, be, bnm = g("q")
    want = isomorphic(n, ae, anm, m, be, bnm)
    inp.check("structural", (a == b) == want, "== gives %s; %s / %s" % (a == b, ae, be))
    inp.check("symmetric", (b == a) == want, "reversed")
