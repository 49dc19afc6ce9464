"""Shared by C06 and C07: squash and filter(squash=True) on symbolic inputs."""
from .common import *


def kept_structure(n, edges, kept):
    """(edges between kept nodes, kept roots) after removing the others."""
    ch = {i: [b for a, b in edges if a == i] for i in range(n)}
    kids = {b for _, b in edges}
    roots = [i for i in range(n) if i not in kids]

    def first(i, seen):
        """kept nodes first reached from i (i itself when kept)."""
        if i in seen:
            return set()
        if kept[i]:
            return {i}
        seen.add(i)
        out = set()
        for c in ch[i]:
            out |= first(c, seen)
        return out
    e = set()
    for i in range(n):
        if kept[i]:
            for c in ch[i]:
                for x in first(c, set()):
                    e.add((i, x))
    r = set()
    for i in roots:
        r |= first(i, set())
    return e, r


def setup(inp):
    """Arbitrary graph + table + kept rows; returns everything the oracles need."""
    p = inp.params
    n, levels = p["n"], p["levels"]
    if p["shape"] == "tree":
        edges = par_edges(tree_parents(inp, n, roots=p.get("roots", 1)))
    else:
        edges = dag_edges(inp, n, max_roots=p.get("max_roots"))
    if p["names"] == "sym":
        names = [inp.name("nm%d" % i) for i in range(n)]
    elif p["names"] == "two":
        names = [inp.choice("nm%d" % i, "xy") for i in range(n)]
    elif p["names"] == "rev":
        names = [LETTERS[n - i] for i in range(n)]
    else:
        names = letters(inp, n)
    order = -1 if p.get("orders") == "rev" or (p.get("orders") and inp.flag("rev")) else 1
    g, nodes = build_graph(n, edges, names, order)
    _, extras = frame_index(levels)
    if p.get("distinct"):
        for i in range(n):
            for j in range(i):
                inp.assume(names[i] != names[j])
    keep = {}
    for i in range(n):
        for ex in extras:
            keep[(i, ex)] = inp.flag("keep_%d_%s" % (i, "_".join(map(str, ex))))
    inp.assume(any(keep.values()))
    vals = {}
    for m in p["exc"] + p["inc"]:
        vals[m] = {(i, ex): inp.metric("%s_%d_%s" % (m, i, "_".join(map(str, ex))), p.get("kinds", ("fin",)))
                   if keep[(i, ex)] else 1.0
                   for i in range(n) for ex in extras}
    cols = {m: (lambda i, ex, m=m: vals[m][(i, ex)]) for m in p["exc"] + p["inc"]}
    df = build_df(nodes, levels, cols, names)
    df["line"] = [100 + nodes_index(nodes, nd) * 10 + sum(ex) for nd, ex in rows_of(df)]
    gf = GraphFrame(g, df, list(p["exc"]), list(p["inc"]), default_metric="time", metadata={"k": 1})
    kept = [any(keep[(i, ex)] for ex in extras) for i in range(n)]
    kset = {(P._builtin_id(nodes[i]), ex) for (i, ex), k in keep.items() if k}

    def pred(row):
        ex = tuple(row[x] for x in frame_index(levels)[0][1:])
        return (P._builtin_id(row["node"]), ex) in kset
    how = inp.choice("how", p.get("how", ["filter"]))
    if how == "filter":
        out = gf.filter(pred, num_procs=1, update_inc_cols=p.get("upd", True))
    else:
        f = gf.filter(pred, squash=False, num_procs=1)
        out = f.squash(p.get("upd", True))
    return n, edges, names, nodes, extras, keep, kept, vals, gf, out


def nodes_index(nodes, nd):
    for i, x in enumerate(nodes):
        if x is nd:
            return i
    raise AssertionError("foreign node")


def check_links(inp, graph, label="links-symmetric"):
    """Parent and child lists mirror each other, no duplicates, roots sane."""
    ns = all_nodes(graph)
    for x in ns:
        for c in x.children:
            inp.check(label, count(x.children, c) == 1 and has(c.parents, x))
        for q in x.parents:
            inp.check(label, count(x.parents, q) == 1 and has(q.children, x) and has(ns, q))
        inp.check(label, has(graph.roots, x) or len(x.parents) > 0)
    for r in graph.roots:
        inp.check(label, count(graph.roots, r) == 1)
    return ns


def check_index(inp, out, ns, label="index-is-graph"):
    seen = []
    for nd, ex in rows_of(out.dataframe):
        inp.check(label, has(ns, nd), "row of a node outside the graph")
        if not has(seen, nd):
            seen.append(nd)
    inp.check(label, len(seen) == len(ns), "%d nodes in table, %d in graph" % (len(seen), len(ns)))


def classes_tree(n, edges, names, kept):
    """Tree case: merge kept nodes with equal kept paths.  Returns
    cls[i] (class id or None), parent class, member lists."""
    par = {b: a for a, b in edges}
    cls, cpar, cname, members = {}, {}, {}, {}
    for i in range(n):
        if not kept[i]:
            cls[i] = None
            continue
        a = par.get(i)
        while a is not None and not kept[a]:
            a = par.get(a)
        pc = None if a is None else cls[a]
        for c in members:
            if cpar[c] == pc and bool(cname[c] == names[i]):
                cls[i] = c
                members[c].append(i)
                break
        else:
            cls[i] = i
            cpar[i], cname[i], members[i] = pc, names[i], [i]
    return cls, cpar, cname, members


def match_classes(inp, out, cpar, cname, members, label):
    """Result node of each class; checks the result graph is exactly the class tree."""
    res = {}
    total = 0
    for c in sorted(members):
        cands = out.graph.roots if cpar[c] is None else res[cpar[c]].children
        hits = [x for x in cands if bool(frame_name(x) == cname[c])]
        inp.check(label, len(hits) == 1, "class %s: %d nodes with its frame under its parent" % (c, len(hits)))
        res[c] = hits[0]
        total += 1
    ns = all_nodes(out.graph)
    inp.check(label, len(ns) == total, "%d nodes, want %d" % (len(ns), total))
    return res


def old_of_new(inp, out, nodes, names, kept, label):
    """Distinct-name case: result node for each kept original."""
    ns = all_nodes(out.graph)
    res = {}
    for i, k in enumerate(kept):
        if k:
            hits = [x for x in ns if bool(frame_name(x) == names[i])]
            inp.check(label, len(hits) == 1, "kept node %d appears %d times" % (i, len(hits)))
            res[i] = hits[0]
    inp.check(label, len(ns) == len(res), "%d nodes, want %d" % (len(ns), len(res)))
    return res
