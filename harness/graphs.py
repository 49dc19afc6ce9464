"""Shared by the graph-level properties C10, C13, C14, C25."""
from .common import *


def make(inp, tag, n, shape, names, roots=1, order=1, ids=True, max_roots=None):
    """A graph with symbolic shape; names: 'sym' | 'asc' | 'two' | list."""
    if shape == "tree":
        edges = par_edges(tree_parents(inp, n, tag + "p", roots))
    elif isinstance(shape, list):
        edges = layer_edges(inp, shape, tag + "e")
    else:
        edges = dag_edges(inp, n, tag + "e", max_roots=max_roots)
    if names == "sym":
        nm = [inp.name("%sn%d" % (tag, i)) for i in range(n)]
    elif names == "two":
        nm = [inp.choice("%sn%d" % (tag, i), "xy") for i in range(n)]
    elif names == "three":
        nm = [inp.choice("%sn%d" % (tag, i), "xyz") for i in range(n)]
    elif names == "asc":
        nm = letters(inp, n, tag)
    else:
        nm = list(names)
    g, nodes = build_graph(n, edges, nm, order)
    return g, nodes, edges, nm


def layer_edges(inp, sizes, tag):
    """Any edges from one layer to the next, at least one to every node below the first layer."""
    edges, start = [], 0
    for up, down in zip(sizes, sizes[1:]):
        ups = list(range(start, start + up))
        for b in range(start + up, start + up + down):
            sets = [[a for k, a in enumerate(ups) if m >> k & 1] for m in range(1, 1 << up)]
            edges += [(a, b) for a in inp.choice("%s%d" % (tag, b), sets)]
        start += up
    return sorted(edges)


def siblings(n, edges):
    """Lists of indices that are siblings (roots, and children of each node)."""
    kids = {b for _, b in edges}
    out = [[i for i in range(n) if i not in kids]]
    for i in range(n):
        c = [b for a, b in edges if a == i]
        if c:
            out.append(c)
    return out


def no_dup_siblings(inp, n, edges, names):
    for s in siblings(n, edges):
        for x in range(len(s)):
            for y in range(x):
                inp.assume(names[s[x]] != names[s[y]])


def index_paths(n, edges):
    """All root-to-node index paths."""
    kids = {b for _, b in edges}
    ch = {i: [b for a, b in edges if a == i] for i in range(n)}
    out = []

    def go(p):
        out.append(tuple(p))
        for c in ch[p[-1]]:
            go(p + [c])
    for r in range(n):
        if r not in kids:
            go([r])
    return out


def node_paths(graph, limit=400):
    """All root-to-node paths of a hatchet graph, as tuples of nodes."""
    out = []

    def go(p):
        out.append(tuple(p))
        if len(out) > limit:
            raise AssertionError("too many paths")
        for c in p[-1].children:
            go(p + [c])
    for r in graph.roots:
        go([r])
    return out


def path_names(p):
    return tuple(frame_name(x) for x in p)


def same_path(a, b):
    """Equality of two name tuples (decides symbolic names)."""
    return len(a) == len(b) and all(bool(x == y) for x, y in zip(a, b))


def snapshot(graph):
    """Identity-level snapshot of a graph: nodes, links, frames, ids, depths."""
    ns = all_nodes(graph)
    return ([(x, list(x.parents), list(x.children), dict(x.frame.attrs), x._hatchet_nid, x._depth) for x in ns],
            list(graph.roots))


def unchanged(graph, snap):
    ns = all_nodes(graph)
    old, roots = snap
    if len(ns) != len(old) or len(graph.roots) != len(roots) or any(a is not b for a, b in zip(graph.roots, roots)):
        return False
    for x, (y, par, ch, attrs, nid, depth) in zip(ns, old):
        if x is not y or x._hatchet_nid != nid or x._depth != depth:
            return False
        if len(x.parents) != len(par) or any(a is not b for a, b in zip(x.parents, par)):
            return False
        if len(x.children) != len(ch) or any(a is not b for a, b in zip(x.children, ch)):
            return False
        if set(x.frame.attrs) != set(attrs) or any(x.frame.attrs[k] is not v and x.frame.attrs[k] != v
                                                   for k, v in attrs.items()):
            return False
    return True


def check_links(inp, graph, label="links-symmetric", roots=True):
    ns = all_nodes(graph)
    for x in ns:
        for c in x.children:
            inp.check(label, count(x.children, c) == 1 and count(c.parents, x) == 1)
        for q in x.parents:
            inp.check(label, count(x.parents, q) == 1 and has(q.children, x) and has(ns, q))
        inp.check(label, not roots or has(graph.roots, x) == (len(x.parents) == 0), "root without being parentless or vice versa")
    for r in graph.roots:
        inp.check(label, count(graph.roots, r) == 1)
    return ns


def preorder_ok(graph, key=None):
    """The ids are 0..n-1 along a pre-order walk with siblings in frame order
    (any order among siblings with equal frames)."""
    ns = all_nodes(graph)
    ids = [x._hatchet_nid for x in ns]
    if sorted(ids) != list(range(len(ns))):
        return False
    # walk: children by id; frames must be non-decreasing among unvisited siblings' order
    seen, order = [], []

    def go(x):
        if has(seen, x):
            return True
        seen.append(x)
        order.append(x)
        return all(go(c) for c in walk(x.children))

    def walk(cs):
        """children sorted by frame, ties by the ids they got when first reached."""
        cs = list(cs)
        out = []
        for c in cs:
            k = 0
            while k < len(out) and (bool(frame_name(out[k]) < frame_name(c)) or
                                    (bool(frame_name(out[k]) == frame_name(c)) and out[k]._hatchet_nid < c._hatchet_nid)):
                k += 1
            out.insert(k, c)
        return out
    for r in walk(graph.roots):
        go(r)
    return all(x._hatchet_nid == i for i, x in enumerate(order))


def depths_ok(inp, graph, label="depths"):
    if any(r.parents for r in graph.roots):
        return      # squash can leave a root that also has parents: depth is ambiguous there
    for x in all_nodes(graph):
        if has(graph.roots, x):
            inp.check(label, x._depth == 0, "root depth %r" % x._depth)
        else:
            inp.check(label, any(x._depth == q._depth + 1 for q in x.parents),
                      "depth %r parents %r" % (x._depth, [q._depth for q in x.parents]))
