"""C06: squash rewires every kept node to its nearest kept ancestors."""
from .squash import *

PROPERTY = "C06"


def distinct(inp):
    n, edges, names, nodes, extras, keep, kept, vals, gf, out = setup(inp)
    e, roots = kept_structure(n, edges, kept)
    res = old_of_new(inp, out, nodes, names, kept, "exactly-kept-nodes")
    for i in res:
        want = {b for a, b in e if a == i}
        got = [j for j in res if has(res[i].children, res[j])]
        inp.check("children-are-nearest-kept", set(got) == want and len(res[i].children) == len(want),
                  "children of %d: %r want %r" % (i, got, want))
        inp.check("roots", has(out.graph.roots, res[i]) == (i in roots), "node %d root? want %r" % (i, i in roots))
    inp.check("roots", len(out.graph.roots) == len(roots))
    ns = check_links(inp, out.graph)
    check_index(inp, out, ns)
    check_ids(inp, out.graph)
    for i in res:
        inp.check("frame-kept", res[i].frame == nodes[i].frame)
    check_rows(inp, out, res, keep, kept)


def check_rows(inp, out, res, keep, kept):
    rows = rows_of(out.dataframe)
    want = [(i, ex) for (i, ex), k in keep.items() if k]
    inp.check("rows-kept", len(rows) == len(want))
    for i, ex in want:
        inp.check("rows-kept", sum(1 for nd, e2 in rows if nd is res[i] and e2 == ex) == 1)


def check_ids(inp, g):
    ns = all_nodes(g)
    inp.check("ids-dense", sorted(x._hatchet_nid for x in ns) == list(range(len(ns))),
              "%r" % [x._hatchet_nid for x in ns])


def merging(inp):
    n, edges, names, nodes, extras, keep, kept, vals, gf, out = setup(inp)
    cls, cpar, cname, members = classes_tree(n, edges, names, kept)
    res = match_classes(inp, out, cpar, cname, members, "merged-tree")
    ns = check_links(inp, out.graph)
    check_index(inp, out, ns)


def dag_dups(inp):
    """Equal frames on DAGs: structure invariants."""
    n, edges, names, nodes, extras, keep, kept, vals, gf, out = setup(inp)
    ns = check_links(inp, out.graph)
    check_index(inp, out, ns)
    want = sum(1 for k in kept if k)
    inp.check("no-new-nodes", 1 <= len(ns) <= want)


def harnesses(tier):
    q = tier == "quick"
    hs = []

    def add(name, fn, labels, bounds, **kw):
        kw.setdefault("levels", "node")
        kw.setdefault("exc", ["time"])
        kw.setdefault("inc", [])
        hs.append(H(name, fn, labels, bounds, kw))
    LD = ["exactly-kept-nodes", "children-are-nearest-kept", "roots", "links-symmetric", "index-is-graph",
          "frame-kept", "rows-kept", "ids-dense"]
    add("dag4", distinct, LD, "all DAGs on 4 nodes, all kept subsets, distinct frames, filter()",
        n=4, shape="dag", names="asc", naming="perm")
    add("dag4-rev", distinct, LD, "as dag4, frames in reverse order, children and roots listed in reverse, squash()",
        n=4, shape="dag", names="rev", how=["squash"], orders=not q)
    add("tree5", distinct, LD, "all forests (<= 2 roots) on 5 nodes, all kept subsets", n=5, shape="tree", roots=2,
        names="asc")
    add("dag3-names", distinct, LD, "all DAGs on 3 nodes, any distinct frames in any order", n=3, shape="dag",
        names="sym", distinct=True)
    for lv in ("rank", "rt", "thread"):
        add("dag3-" + lv, distinct, LD, "all DAGs on 3 nodes, table %s, all kept row subsets" % lv,
            n=3, shape="dag", names="asc", levels=lv, max_roots=1 if lv == "rt" else None)
    LM = ["merged-tree", "links-symmetric", "index-is-graph"]
    add("merge-tree4", merging, LM, "all forests (<= 2 roots) on 4 nodes, any frames (equal or not), all kept subsets, any address order",
        n=4, shape="tree", roots=2, names="sym")
    add("merge-two4", merging, LM, "all trees on 4 nodes, two possible frames, all kept subsets, any address order, both listing orders",
        n=4, shape="tree", names="two", orders=True, how=["squash"])
    add("merge-rank3", merging, LM, "all trees on 3 nodes, any frames, (node, rank) table",
        n=3, shape="tree", names="sym", levels="rank")
    add("dag-dups", dag_dups, ["links-symmetric", "index-is-graph", "no-new-nodes"], "all DAGs on 4 nodes, any frames, all kept subsets, any address order",
        n=4 if not q else 3, shape="dag", names="sym")
    add("dag5-rev", distinct, LD, "all DAGs on 5 nodes with one root, all kept subsets, children listed in reverse topological order",
        n=5, shape="dag", names="asc", max_roots=1, orders="rev", how=["squash"])
    if not q:
        add("merge-tree5", merging, LM, "all trees on 5 nodes, two possible frames, all kept subsets, any address order",
            n=5, shape="tree", names="two")
        add("dag5", distinct, LD, "all DAGs on 5 nodes with one root, all kept subsets", n=5, shape="dag", names="asc", max_roots=1)
        add("tree6", distinct, LD, "all trees on 6 nodes, all kept subsets", n=6, shape="tree", names="asc")
    return hs
