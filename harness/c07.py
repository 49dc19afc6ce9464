"""C07: squash conserves metric values and recomputes inclusive metrics."""
from .squash import *

PROPERTY = "C07"


def inc_name(exc):
    return exc[:-len("(exc)")].strip() if exc.endswith("(exc)") else exc + " (inc)"


def data(inp):
    p = inp.params
    n, edges, names, nodes, extras, keep, kept, vals, gf, out = setup(inp)
    upd = p.get("upd", True)
    if p["shape"] == "tree":
        cls, cpar, cname, members = classes_tree(n, edges, names, kept)
        res = match_classes(inp, out, cpar, cname, members, "call-paths")
        desc = {c: {c} for c in members}
        for c in sorted(members, reverse=True):
            if cpar[c] is not None:
                desc[cpar[c]] |= desc[c]
    else:
        e, roots = kept_structure(n, edges, kept)
        res = old_of_new(inp, out, nodes, names, kept, "call-paths")
        members = {i: [i] for i in res}
        d = descend(n, e)
        desc = {i: {j for j in d[i]} for i in res}
    df = out.dataframe
    regenerated = {inc_name(m) for m in p["exc"]} if upd else set()
    agg = {}
    nrows = 0
    for c in members:
        for ex in extras:
            ms = [i for i in members[c] if keep[(i, ex)]]
            if not ms:
                continue
            nrows += 1
            for m in p["exc"] + p["inc"]:
                want = nansum([vals[m][(i, ex)] for i in ms])
                agg[(c, ex, m)] = want
                if m not in regenerated:
                    got = loc(df, res[c], ex, m)
                    inp.check("summed" if m in p["exc"] else "inc-summed", inp.eqv(got, want),
                              "%s of %s %r: %r want %r" % (m, c, ex, got, want))
            inp.check("other-columns", loc(df, res[c], ex, "line") in [100 + 10 * i + sum(ex) for i in ms])
            nm = loc(df, res[c], ex, "name")
            inp.check("other-columns", any(nm is names[i] or bool(nm == names[i]) for i in ms))
    inp.check("row-count", len(df) == nrows, "%d rows, want %d" % (len(df), nrows))
    if upd:
        for c in members:
            for ex in extras:
                if not any(keep[(i, ex)] for i in members[c]):
                    continue
                for m in p["exc"]:
                    want = nansum([agg[(x, ex, m)] for x in sorted(desc[c]) if (x, ex, m) in agg])
                    got = loc(df, res[c], ex, inc_name(m))
                    inp.check("inclusive", inp.eqv(got, want),
                              "%s of %s %r: %r want %r" % (inc_name(m), c, ex, got, want))
    for m in p["exc"]:
        tot = nansum([loc(df, nd, ex, m) for nd, ex in rows_of(df)])
        want = nansum([vals[m][(i, ex)] for (i, ex), k in keep.items() if k])
        inp.check("exclusive-total", inp.eqv(tot, want))
    inp.check("metric-lists", sorted(out.exc_metrics) == sorted(p["exc"])
              and set(out.inc_metrics) == set(p["inc"]) | regenerated, "%r %r" % (out.exc_metrics, out.inc_metrics))
    inp.check("metadata", out.default_metric == "time" and out.metadata == {"k": 1})


def harnesses(tier):
    q = tier == "quick"
    hs = []
    L = ["call-paths", "summed", "other-columns", "row-count", "exclusive-total", "metric-lists", "metadata"]

    def add(name, labels, bounds, **kw):
        kw.setdefault("levels", "node")
        kw.setdefault("exc", ["time"])
        kw.setdefault("inc", ["time (inc)"])
        hs.append(H(name, data, labels, bounds, kw))
    I = L + ["inclusive"]
    FN = ("fin", "nan")
    add("tree4", I, "all trees on 4 nodes, any frames, all kept subsets, any reals", n=4, shape="tree", names="sym")
    add("forest3", I, "all forests on 3 nodes, any frames, 2 exclusive and 2 inclusive metrics", n=3, shape="tree",
        roots=3, names="sym", exc=["time", "x (exc)"], inc=["time (inc)", "misses"], how=["squash"])
    add("tree3-nan", I, "all trees on 3 nodes, any frames, values real or NaN", n=3, shape="tree", names="sym",
        kinds=FN, inc=[])
    add("dag4", I, "all DAGs on 4 nodes, distinct frames, all kept subsets", n=4, shape="dag", names="asc", naming="perm")
    add("dag3-nan", I, "all DAGs on 3 nodes, values real or NaN", n=3, shape="dag", names="asc", kinds=FN, inc=[])
    for lv in ("rank", "thread"):
        add("tree3-" + lv, I, "all trees on 3 nodes, any frames, table %s, all kept rows" % lv, n=3, shape="tree",
            names="sym", levels=lv)
        add("dag3-" + lv, I, "all DAGs on 3 nodes, table %s, all kept rows" % lv, n=3, shape="dag", names="asc",
            levels=lv, inc=[])
    add("tree3-rt", I, "all trees on 3 nodes, (node, rank, thread) table, all kept rows, two frames", n=3, shape="tree",
        names="asc" if q else "two", levels="rt")
    N = L + ["inc-summed"]
    add("noupd-tree4", N, "update_inc_cols=False, trees on 4 nodes, any frames", n=4 if not q else 3, shape="tree", names="sym", upd=False)
    add("noupd-rank", N, "update_inc_cols=False, (node, rank) table, trees on 3 nodes", n=3, shape="tree",
        names="two", upd=False, levels="rank")
    add("more-inc", I + ["inc-summed"], "trees on 2 nodes, any frames, one exclusive and four inclusive metrics", n=2, shape="tree", names="sym",
        inc=["hits", "time (inc)", "misses", "bytes"], how=["filter", "squash"])
    add("no-exc", [x for x in L if x not in ("summed", "exclusive-total")] + ["inc-summed"], "trees on 2 nodes, 2 ranks, any frames, inclusive metrics only", n=2,
        shape="tree", names="sym", exc=[], inc=["time", "misses"], levels="rank")
    if not q:
        add("tree5", I, "all trees on 5 nodes, two frames, all kept subsets", n=5, shape="tree", names="two")
        add("dag4-rank", I, "all one-rooted DAGs on 4 nodes, (node, rank) table", n=4, shape="dag", names="asc", levels="rank", max_roots=1)
    return hs
