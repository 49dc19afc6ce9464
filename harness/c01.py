"""C01: a path query selects exactly the nodes on matching paths."""
from hatchet.graphframe import EmptyFilter
from hatchet.query import Query, ObjectQuery, QueryEngine, QueryMatcher, parse_string_dialect
from .common import *

PROPERTY = "C01"
LEVEL_NOTE = ("predicates are arbitrary: each (query element, node) outcome is an independent symbolic boolean "
              "(or a symbolic metric compared by the object dialect), so every combination is decided",)


def paths_down(n, edges):
    ch = {i: [b for a, b in edges if a == i] for i in range(n)}
    out = []

    def go(p):
        out.append(p)
        for c in ch[p[-1]]:
            go(p + [c])
    for i in range(n):
        go([i])
    return out


def fits(path, elems, sat):
    """Can `path` be split in order over elems [(quantifier, element index)]?"""
    def go(i, j):
        if j == len(elems):
            return i == len(path)
        q, e = elems[j]
        lo, hi = {".": (1, 1), "*": (0, len(path) - i), "+": (1, len(path) - i)}.get(q, (q, q))
        k = 0
        while True:
            if lo <= k <= hi and go(i + k, j + 1):
                return True
            if k >= hi or i + k >= len(path) or not sat(path[i + k], e):
                return False
            k += 1
    return go(0, 0)


def shape(inp):
    p = inp.params
    n = p["n"]
    if p["shape"] == "chain":
        return [(i, i + 1) for i in range(n - 1)]
    if p["shape"] == "tree":
        return par_edges(tree_parents(inp, n, roots=p.get("roots", 1)))
    if p["shape"] == "diamond":
        return [(0, 1), (0, 2), (1, 3), (2, 3)]
    return dag_edges(inp, n, max_roots=p.get("roots"))


def quants(inp):
    return [inp.choice("q%d" % i, qs) for i, qs in enumerate(inp.params["q"])]


def engine(inp):
    p = inp.params
    edges = shape(inp)
    n = p["n"]
    qs = quants(inp)
    names = letters(inp, n)
    g, nodes = build_graph(n, edges, names, -1 if p.get("rev") else 1)
    idx = {P._builtin_id(x): i for i, x in enumerate(nodes)}
    memo = {}

    def sat(i, e):
        if e in p.get("always", ()):
            return True
        if (i, e) not in memo:
            memo[(i, e)] = inp.flag("m%d_%d" % (i, e))
        return memo[(i, e)]

    def pred(e):
        def f(row):
            nd = row.name if not isinstance(row, pd.DataFrame) else row.index[0][0]
            return sat(idx[P._builtin_id(nd)], e)
        return f
    df = build_df(nodes, p.get("levels", "node"), {"time": lambda i, ex: float(i)}, names)
    how = p.get("build", "match")
    if how == "list":
        q = QueryMatcher()
        for e, x in enumerate(qs):
            q = q.match(x, pred(e)) if e == 0 else q.rel(x, pred(e))
        q = q._get_new_query()
    else:
        q = Query()
        if how == "restart":        # match() starts a query anew
            for e in range(inp.choice("before", [1, 2])):
                q = q.match("*") if e == 0 else q.rel(".")
        for e, x in enumerate(qs):
            q = q.match(x, pred(e)) if e == 0 else (q.rel if e % 2 else q.relation)(x, pred(e))
    if p.get("via") == "filter":
        gf = GraphFrame(g, df, ["time"], [])
        want = selected(n, edges, qs, sat)
        if not want:
            try:
                gf.filter(q, squash=False)
            except Exception as ex:
                inp.check("empty-filter", type(ex).__name__ == "EmptyFilter", repr(ex))
            else:
                inp.check("empty-filter", False, "no error")
            return
        out = gf.filter(q, squash=False)
        rows = rows_of(out.dataframe)
        full = rows_of(df)
        wrows = [r for r in full if idx[P._builtin_id(r[0])] in want]
        inp.check("exactly-matching-paths", len(rows) == len(wrows)
                  and all(a[0] is b[0] and a[1] == b[1] for a, b in zip(rows, wrows)))
        return
    eng = QueryEngine()
    res = eng.apply(q, g, df)
    got = {idx[P._builtin_id(x)] for x in res}
    want = selected(n, edges, qs, sat)
    inp.check("exactly-matching-paths", got == want and len(res) == len(got),
              "query %r on %r: got %r want %r" % (qs, edges, sorted(got), sorted(want)))


def selected(n, edges, qs, sat):
    elems = list(zip(qs, range(len(qs))))
    want = set()
    for path in paths_down(n, edges):
        if not set(path) <= want and fits(path, elems, sat):
            want |= set(path)
    return want


def objlist(inp):
    """The list syntax of the object dialect; predicates compare a symbolic metric."""
    p = inp.params
    edges = shape(inp)
    n = p["n"]
    qs = quants(inp)
    names = letters(inp, n)
    g, nodes = build_graph(n, edges, names)
    idx = {P._builtin_id(x): i for i, x in enumerate(nodes)}
    val = {(i, e): inp.real("v%d_%d" % (i, e)) for i in range(n) for e in range(len(qs))}
    bare = [inp.choice("w%d" % e, ["tuple", "bare"]) for e in range(len(qs))]
    lst = []
    for e, x in enumerate(qs):
        d = {"m%d" % e: "> 0"}
        if bare[e] == "bare":
            lst.append(d if x == "." else x)      # predicate defaults to true
        else:
            lst.append((x, d))
    df = build_df(nodes, "node", {"m%d" % e: (lambda i, ex, e=e: val[(i, e)]) for e in range(len(qs))}, names)

    def sat(i, e):
        if bare[e] == "bare" and qs[e] != ".":
            return True
        return bool(val[(i, e)] > 0)
    q = ObjectQuery(lst)
    res = QueryEngine().apply(q, g, df)
    got = {idx[P._builtin_id(x)] for x in res}
    want = selected(n, edges, qs, sat)
    inp.check("exactly-matching-paths", got == want and len(res) == len(got),
              "query %r on %r: got %r want %r" % (lst, edges, sorted(got), sorted(want)))


def again(inp):
    """One query object, asked again after the table has changed and of another table."""
    p = inp.params
    n = p["n"]
    edges = shape(inp)
    qs = quants(inp)
    style = inp.choice("style", ["object", "base", "old", "string"])
    vals = {(t, i): inp.real("v%d_%d" % (t, i)) for t in range(2) for i in range(n)}
    gfs = []
    for k in range(2):
        g, nodes = build_graph(n, edges, letters(inp, n))
        gfs.append((GraphFrame(g, build_df(nodes, "node", {"time": lambda i, ex: vals[(0, i)]}, LETTERS[:n]), ["time"], []), nodes))
    pos = lambda row: bool(row["time"] > 0)
    if style == "object":
        q = ObjectQuery([(x, {"time": "> 0"}) for x in qs])
    elif style == "string":
        q = parse_string_dialect("MATCH " + "->".join('("%s", p%d)' % (x, e) for e, x in enumerate(qs))
                                 + " WHERE " + " AND ".join('p%d."time" > 0' % e for e in range(len(qs))))
    else:
        q = Query() if style == "base" else QueryMatcher()
        for e, x in enumerate(qs):
            q = q.rel(x, pos) if e else q.match(x, pos)

    def ask(k, t, how):
        gf, nodes = gfs[k]
        gf.dataframe["time"] = [vals[(t, i)] for i in [nodes.index(nd) for nd in gf.dataframe.index]]
        want = selected(n, edges, qs, lambda i, e: bool(vals[(t, i)] > 0))
        if how == "filter":
            try:
                got = [nodes.index(nd) for nd, ex in rows_of(gf.filter(q, squash=False).dataframe)]
            except EmptyFilter:
                got = []
        else:
            got = [nodes.index(nd) for nd in q.apply(gf)]
        inp.check("exactly-matching-paths", sorted(got) == sorted(want), "%s: %r want %r of table %d" % (how, got, sorted(want), t))
    how = inp.choice("how", ["filter", "apply"] if style == "old" else ["filter"])
    other = inp.flag("other")
    ask(0, 0, how)
    ask(1 if other else 0, 1, how)
    ask(0, 0, how)


def harnesses(tier):
    q = tier == "quick"
    hs = []
    A = [".", "*", "+"]

    def add(name, fn, bounds, labels=("exactly-matching-paths",), **kw):
        hs.append(H(name, fn, list(labels), bounds, kw, validate=50))
    add("len1-dag4", engine, "1 element (. * + 2 3), all DAGs on 4 nodes", n=4, shape="dag", q=[A + [2, 3]])
    add("len2-tree4", engine, "2 elements, quantifier pairs over . * + (thorough: 2), all trees on 4 nodes",
        n=4, shape="tree", roots=1, q=[A, ["*", "+"]] if q else [A + [2]] * 2)
    add("len2-diamond", engine, "2 elements, quantifiers . * +, the 4-node diamond", n=4, shape="diamond", q=[A] * 2)
    add("len2-dag3", engine, "2 elements, quantifiers . * + 2, all DAGs on 3 nodes (several roots)", n=3,
        shape="dag", q=[A + [2]] * 2, rev=True)
    add("len2-chain5", engine, "2 elements, quantifiers . * + 2, chain of 5", n=5, shape="chain", q=[A] * 2)
    add("len2-dag4-mixed", engine, "'.' then '*', single-rooted DAGs on 4 nodes, frames in %s" % (
        "reverse order" if q else "3 orders"), n=4, shape="dag", roots=1, q=[["."], ["*"]], naming="desc" if q else "perm")
    add("count-chain", engine, "one or two elements with integers 4 to 6, chain of 6", n=6, shape="chain", q=[[4, 5, 6]])
    add("count2-chain", engine, "integer 4 next to '.', '*', '+' without predicate, chain of 6", n=6, shape="chain",
        q=[[4], A], always=[1])
    add("len3-dag3", engine, "3 elements over . * + (quick: 12 of the 27 triples), all single-rooted DAGs on 3 nodes",
        n=3, shape="dag", roots=1, q=[[".", "*"], ["*", "+"], [".", "*"]] if q else [A] * 3)
    add("len3-chain4", engine, "3 elements with at least one *, chain of 4", n=4, shape="chain",
        q=[["*"], ["*", "+"], ["."]] if q else [A] * 3)
    add("len4-chain3", engine, "4 elements over . *, chain of 3", n=3, shape="chain",
        q=[["*", "."], ["*"], ["*"], ["."]] if q else [[".", "*"]] * 4)
    add("filter-dag3", engine, "GraphFrame.filter with a query, 2 elements over . *, all DAGs on 3 nodes",
        ["exactly-matching-paths", "empty-filter"], n=3, shape="dag", q=[[".", "*"]] * 2, via="filter", roots=2)
    add("filter-rank", engine, "as filter-dag3 with two rows per node", ["exactly-matching-paths", "empty-filter"],
        n=3, shape="tree", q=[["."], ["*"]], via="filter", levels="rank")
    add("legacy", engine, "old-style QueryMatcher", n=3, shape="tree", q=[A, A], build="list")
    add("zero", engine, "3 elements over 0, '.' and '*' with a 0 possible where not first, all trees on 3 nodes", n=3, shape="tree", q=[[".", "*"], [0, "*"], [0, "."]])
    add("restart", engine, "1 or 2 elements after match() has been called before, chain of 3", n=3, shape="chain", q=[[".", "*"], [".", 0]],
        build="restart")
    add("again", again, "a query of 1 or 2 elements asked three times, of a table that changes or of two, trees on 2 nodes", n=2, shape="tree",
        q=[[".", "*"], ["."]])
    add("objlist-tree3", objlist, "object-dialect list syntax, 2 elements over . * + 2 with or without predicates, "
        "all trees on 3 nodes", n=3, shape="tree", q=[A + [2]] * 2)
    if not q:
        add("len2-dag4", engine, "2 elements over . * + 2, all single-rooted DAGs on 4 nodes", n=4, shape="dag", roots=1,
            q=[A + [2]] * 2)
        add("len2-tree5", engine, "2 elements over . * +, all trees on 5 nodes", n=5, shape="tree", q=[A] * 2)
        add("len3-dag3f", engine, "3 elements over . * + 2, all DAGs on 3 nodes", n=3, shape="dag", q=[A + [2]] * 3)
        add("len3-tree4", engine, "3 elements over . *, all trees on 4 nodes", n=4, shape="tree", q=[[".", "*"]] * 3)
        add("len3-diamond", engine, "3 elements over . * +, diamond", n=4, shape="diamond", q=[A] * 3)
        add("len4-chain4", engine, "4 elements over . *, chain of 4", n=4, shape="chain", q=[[".", "*"]] * 4)
    return hs
