"""C02: compound queries are exact set algebra on subquery results."""
import warnings

from hatchet.query import (Query, ObjectQuery, QueryEngine, QueryMatcher, ConjunctionQuery, DisjunctionQuery,
                           ExclusiveDisjunctionQuery, NegationQuery, AndQuery, OrQuery, XorQuery, NotQuery,
                           IntersectionQuery, UnionQuery, SymDifferenceQuery, parse_string_dialect, CypherQuery,
                           parse_cypher_query)
from hatchet.query.compound import CompoundQuery
from hatchet.query.compat import AbstractQuery
from .common import *
from .c01 import selected

PROPERTY = "C02"
warnings.simplefilter("ignore")

NEW = {"and": ConjunctionQuery, "or": DisjunctionQuery, "xor": ExclusiveDisjunctionQuery, "not": NegationQuery}
OLD = {"and": AndQuery, "or": OrQuery, "xor": XorQuery, "not": NotQuery}
ALIAS = {"and": IntersectionQuery, "or": UnionQuery, "xor": SymDifferenceQuery, "not": NotQuery}


def trees(inp, leaves, depth, tag="t", ops=("and", "or", "xor"), nary=True):
    """Every expression over leaf indices in order: ('leaf', i) | (op, subs...)."""
    if len(leaves) == 1:
        t = ("leaf", leaves[0])
    else:
        opts = [("split", k) for k in range(1, len(leaves))]
        if nary and len(leaves) > 2:
            opts.append(("nary", 0))
        kind, k = inp.choice(tag + "s", opts)
        op = inp.choice(tag + "o", ops)
        if kind == "nary":
            t = (op,) + tuple(("leaf", x) for x in leaves)
        else:
            t = (op, trees(inp, leaves[:k], depth - 1, tag + "l", ops, nary),
                 trees(inp, leaves[k:], depth - 1, tag + "r", ops, nary))
    if inp.params.get("neg", True) and inp.flag(tag + "n"):
        t = ("not", t)
    return t


def value(t, leafset, univ):
    if t[0] == "leaf":
        return leafset(t[1])
    vs = [value(x, leafset, univ) for x in t[1:]]
    if t[0] == "not":
        return univ - vs[0]
    out = vs[0]
    for v in vs[1:]:
        out = out & v if t[0] == "and" else out | v if t[0] == "or" else out ^ v
    return out


def build(t, leaf, style):
    if t[0] == "leaf":
        return leaf(t[1])
    subs = [build(x, leaf, style) for x in t[1:]]
    if style in ("new", "old", "alias"):
        return {"new": NEW, "old": OLD, "alias": ALIAS}[style][t[0]](*subs)
    if style == "tuple":
        return NEW[t[0]](tuple(subs)) if t[0] != "not" else NEW["not"](*subs)
    # operators
    if t[0] == "not":
        return ~subs[0]
    out = subs[0]
    for s in subs[1:]:
        out = out & s if t[0] == "and" else out | s if t[0] == "or" else out ^ s
    return out


def setup(inp, nl):
    p = inp.params
    n = p["n"]
    edges = par_edges(tree_parents(inp, n, roots=p.get("roots", 1)))
    names = letters(inp, n)
    g, nodes = build_graph(n, edges, names)
    idx = {P._builtin_id(x): i for i, x in enumerate(nodes)}
    return n, edges, names, g, nodes, idx


def algebra(inp):
    """Leaves select arbitrary node sets (single-element queries with arbitrary predicates)."""
    p = inp.params
    nl = p["leaves"]
    n, edges, names, g, nodes, idx = setup(inp, nl)
    memo = {}

    def sat(i, e):
        if (i, e) not in memo:
            memo[(i, e)] = inp.flag("m%d_%d" % (i, e))
        return memo[(i, e)]

    def pred(e):
        def f(row):
            nd = row.name if not isinstance(row, pd.DataFrame) else row.index[0][0]
            return sat(idx[P._builtin_id(nd)], e)
        return f
    df = build_df(nodes, p.get("levels", "node"), {"time": lambda i, ex: 1.0}, names)
    t = trees(inp, list(range(nl)), 3)
    style = p["style"]

    def leaf(e):
        if style in ("old", "alias", "op-old"):
            return QueryMatcher().match(".", pred(e))
        if style == "mixed" and e % 2:
            return QueryMatcher().match(".", pred(e))
        return Query().match(".", pred(e))
    q = build(t, leaf, style)
    univ = set(range(n))
    want = value(t, lambda e: {i for i in range(n) if sat(i, e)}, univ)
    gf = GraphFrame(g, df, ["time"], [])
    if p.get("before"):
        # an unrelated query first: no state may leak from it
        flip = Query().match(".", lambda row: not pred(0)(row))
        gf.query_engine.apply(flip, g, df)
    if isinstance(q, AbstractQuery) and p.get("apply", True):
        res = q.apply(gf)
    elif p.get("via") == "filter":
        try:
            out = gf.filter(q, squash=False)
        except Exception as ex:
            inp.check("set-algebra", not want and type(ex).__name__ == "EmptyFilter", repr(ex))
            return
        res = list(out.dataframe.index.get_level_values("node").unique())
    else:
        if isinstance(q, AbstractQuery):
            q = q._get_new_query()
        res = gf.query_engine.apply(q, g, df)
    got = {idx[P._builtin_id(x)] for x in res}
    inp.check("set-algebra", got == want and len(res) == len(got), "%r: got %r want %r" % (t, got, want))


def flat(inp):
    """One operation over many subqueries."""
    n = 1
    k = inp.params["leaves"]
    g, nodes = build_graph(n, [], ["a"])
    sat = [inp.flag("m%d" % e) for e in range(k)]
    style = inp.choice("style", ["new", "old", "op", "op-old", "list"])
    op = inp.choice("op", ["and", "or", "xor"])
    if style in ("old", "op-old"):
        subs = [QueryMatcher().match(".", lambda row, e=e: sat[e]) for e in range(k)]
    elif style == "list":
        subs = [[{"time": "> 0" if sat[e] else "< 0"}] for e in range(k)]
    else:
        subs = [Query().match(".", lambda row, e=e: sat[e]) for e in range(k)]
    if style in ("op", "op-old"):
        q = subs[0]
        for s in subs[1:]:
            q = q & s if op == "and" else q | s if op == "or" else q ^ s
    else:
        q = (OLD if style == "old" else NEW)[op](*subs)
    if isinstance(q, AbstractQuery):
        q = q._get_new_query()
    gf = GraphFrame(g, build_df(nodes, "node", {"time": lambda i, ex: 1.0}, ["a"]), ["time"], [])
    res = gf.query_engine.apply(q, gf.graph, gf.dataframe)
    want = all(sat) if op == "and" else any(sat) if op == "or" else sum(sat) % 2 == 1
    inp.check("set-algebra", len(res) == (1 if want else 0), "%s %s of %r: %r" % (style, op, sat, res))


def paths(inp):
    """Leaves are path queries over several nodes, so that what a leaf selects depends on the graph."""
    p = inp.params
    n, edges, names, g, nodes, idx = setup(inp, 2)
    memo = {}

    def sat(i, e):
        if (i, e) not in memo:
            memo[(i, e)] = inp.flag("m%d_%d" % (i, e))
        return memo[(i, e)]

    def pred(e):
        return lambda row: sat(idx[P._builtin_id(row.name)], e)
    df = build_df(nodes, "node", {"time": lambda i, ex: 1.0}, names)
    t = trees(inp, [0, 1], 2)
    qs = [[".", "*"], ["*", "."]]

    def leaf(e):
        return Query().match(qs[e][0], pred(e)).rel(qs[e][1], lambda row: True)

    def leafset(e):
        return selected(n, edges, qs[e], lambda i, k: sat(i, e) if k == 0 else True)
    q = build(t, leaf, "new")
    res = QueryEngine().apply(q, g, df)
    got = {idx[P._builtin_id(x)] for x in res}
    want = value(t, leafset, set(range(n)))
    inp.check("set-algebra", got == want, "%r: got %r want %r" % (t, got, want))


def strings(inp):
    """Braced string queries, list and string subqueries; metrics are symbolic."""
    p = inp.params
    form = inp.choice("form", p["forms"])
    levels = p.get("levels", "node")
    n, edges, names, g, nodes, idx = setup(inp, 3)
    _, extras = frame_index(levels)
    mode = inp.choice("mode", ["any", "all"]) if levels != "node" else "off"
    nl = 1 if form == "single" else 2 if form in ("list2", "str2") else p.get("leaves", 3)
    val = {(i, ex, e): inp.real("v%d_%s_%d" % (i, "".join(map(str, ex)), e)) for i in range(n) for ex in extras
           for e in range(nl)}
    df = build_df(nodes, levels, {"m%d" % e: (lambda i, ex, e=e: val[(i, ex, e)]) for e in range(nl)}, names)

    def sat(e):
        out = set()
        for i in range(n):
            vs = [bool(val[(i, ex, e)] > 5) for ex in extras]
            if (all(vs) if mode == "all" else any(vs)):
                out.add(i)
        return out
    ops = [inp.choice("op%d" % i, ["AND", "OR", "XOR"]) for i in range(nl - 1)]
    full = ['MATCH (p) WHERE p."m%d" > 5' % e for e in range(nl)]
    kw = {"multi_index_mode": mode}
    if form in ("full", "single"):
        s = "{%s}" % full[0]
        for o, f in zip(ops, full[1:]):
            s += "\n %s {%s}" % (o, f)
        q = parse_string_dialect(s, mode)
    elif form == "where":
        s = 'MATCH (p) WHERE {p."m0" > 5}' + "".join(' %s {p."m%d" > 5}' % (o, e + 1) for e, o in enumerate(ops))
        q = parse_string_dialect(s, mode)
    elif form == "cypher":
        s = "{%s}" % full[0] + "".join(" %s {%s}" % (o, f) for o, f in zip(ops, full[1:]))
        q = inp.choice("cls", [CypherQuery, parse_cypher_query])(s)._get_new_query()
    elif form == "list2":
        C = {"AND": AndQuery, "OR": OrQuery, "XOR": XorQuery} if inp.flag("old") else \
            {"AND": ConjunctionQuery, "OR": DisjunctionQuery, "XOR": ExclusiveDisjunctionQuery}
        q = C[ops[0]]([{"m0": "> 5"}], [{"m1": "> 5"}])
    else:
        C = {"AND": AndQuery, "OR": OrQuery, "XOR": XorQuery} if inp.flag("old") else \
            {"AND": ConjunctionQuery, "OR": DisjunctionQuery, "XOR": ExclusiveDisjunctionQuery}
        q = C[ops[0]](full[0], full[1])
    if isinstance(q, AbstractQuery):
        q = q._get_new_query()
    inp.check("parsed", q is not None)
    gf = GraphFrame(g, df, ["m0"], [])
    res = gf.query_engine.apply(q, g, df)
    got = {idx[P._builtin_id(x)] for x in res}
    want = sat(0)
    for e, o in enumerate(ops):
        w = sat(e + 1)
        want = want & w if o == "AND" else want | w if o == "OR" else want ^ w
    inp.check("set-algebra", got == want, "%s %r: got %r want %r" % (form, ops, got, want))


def braces(inp):
    """Conditions of all kinds between braces, as whole queries or as parts of one WHERE clause."""
    p = inp.params
    n, edges, names, g, nodes, idx = setup(inp, 3)
    k = p["leaves"]
    val = {(i, e): inp.real("v%d_%d" % (i, e)) for i in range(n) for e in range(k)}
    df = build_df(nodes, "node", {"m%d" % e: (lambda i, ex, e=e: val[(i, e)]) for e in range(k)}, names)
    leaf = {i: not any(a == i for a, b in edges) for i in range(n)}
    root = {i: not any(b == i for a, b in edges) for i in range(n)}
    kinds = {"plain": ('p."m%d" > 5', lambda i, e: val[(i, e)] > 5), "not": ('NOT p."m%d" > 5', lambda i, e: inp.Not(val[(i, e)] > 5)),
             "leaf": ("p IS LEAF", lambda i, e: leaf[i]), "not-leaf": ("p IS NOT LEAF", lambda i, e: not leaf[i]),
             "text": ('p."name" = "a WHERE b"', lambda i, e: False),
             "and": ('p."m%d" > 5 AND p IS LEAF', lambda i, e: inp.And(val[(i, e)] > 5, leaf[i])),
             "or": ('p."m%d" > 5 OR NOT p."depth" = 0', lambda i, e: inp.Or(val[(i, e)] > 5, not root[i]))}
    how = inp.choice("how", ["where", "full"])
    sep = inp.choice("sep", ["%s", " %s\n"])
    conds = [kinds[inp.choice("kind%d" % e, list(kinds))] for e in range(k)]
    texts = [t % e if "%d" in t else t for e, (t, _) in enumerate(conds)]
    ops = [inp.choice("op%d" % i, ["AND", "OR", "XOR"]) for i in range(k - 1)]
    parts = ["{" + sep % ((("MATCH (p) WHERE " if how == "full" else "") + t)) + "}" for t in texts]
    s = ("MATCH (p) WHERE " if how == "where" else "") + parts[0] + "".join(sep % (" %s " % o) + t for o, t in zip(ops, parts[1:]))
    q = parse_string_dialect(s)
    inp.check("parsed", q is not None)
    gf = GraphFrame(g, df, ["m0"], [])
    got = {idx[P._builtin_id(x)] for x in gf.query_engine.apply(q, g, df)}
    for i in range(n):
        want = conds[0][1](i, 0)
        for e, o in enumerate(ops, 1):
            w = conds[e][1](i, e)
            want = inp.And(want, w) if o == "AND" else inp.Or(want, w) if o == "OR" else inp.Not(inp.Iff(want, w))
        inp.check("set-algebra", inp.Iff(i in got, want), "%r: node %d, got %r" % (s, i, got))


def arity(inp):
    cls, ok = inp.choice("cls", [(ConjunctionQuery, 2), (DisjunctionQuery, 2), (ExclusiveDisjunctionQuery, 2),
                                 (NegationQuery, 1), (AndQuery, 2), (OrQuery, 2), (XorQuery, 2), (NotQuery, 1)])
    k = inp.choice("k", [0, 1, 2, 3])
    old = cls in (AndQuery, OrQuery, XorQuery, NotQuery)
    subs = [QueryMatcher().match(".") if old else Query().match(".") for _ in range(k)]
    good = k >= 2 if ok == 2 else k == 1
    try:
        c = cls(tuple(subs)) if inp.flag("tuple") else cls(*subs)
        if cls is NotQuery and k > 1:       # refused when it is applied, at the latest
            g, nodes = build_graph(1, [], ["a"])
            c.apply(GraphFrame(g, build_df(nodes, "node", {"time": lambda i, ex: 1.0}, ["a"]), ["time"], []))
        inp.check("arity", good, "%s accepted %d" % (cls.__name__, k))
    except Exception as ex:
        inp.check("arity", not good and (k == 0 or type(ex).__name__ == "BadNumberNaryQueryArgs"), repr(ex))


def harnesses(tier):
    q = tier == "quick"
    hs = []

    def add(name, fn, bounds, labels=("set-algebra",), **kw):
        kw.setdefault("n", 3)
        hs.append(H(name, fn, list(labels), bounds, kw, validate=50))
    for st in ("new", "op"):
        add(st + "-3", algebra, "%s style, every expression over 3 leaves (nested binary or n-ary, negation anywhere at "
            "2 nodes), every leaf result on 2-node trees" % st, n=2, leaves=3, style=st, neg=not q)
        add(st + "-2", algebra, "%s style, every expression over 2 leaves with negation at any point, 3-node trees" % st,
            n=3, leaves=2, style=st)
    add("tuple-3", algebra, "constructor given one tuple", n=2, leaves=3, style="tuple", neg=False)
    add("old-2", algebra, "old-style classes", n=3, leaves=2, style="old")
    add("old-3", algebra, "old-style classes, 3 leaves", n=2, leaves=3, style="old", neg=False)
    add("alias-2", algebra, "old-style aliases", n=2, leaves=2, style="alias")
    add("op-old-2", algebra, "old-style & | ^ ~", n=2, leaves=2, style="op-old")
    add("filter-2", algebra, "through GraphFrame.filter, 2 rows per node", n=2, leaves=2, style="new", via="filter",
        levels="rank", roots=2)
    add("before-2", algebra, "after an unrelated query on the same engine", n=3, leaves=2, style="new", before=True,
        neg=False)
    add("old-filter", algebra, "old-style compound through filter", n=2, leaves=2, style="old", via="filter", apply=False)
    add("paths-2", paths, "path subqueries with wildcards", n=3)
    add("strings", strings, "braced full queries, braced WHERE conditions, list/str subqueries; 3 metrics",
        ["set-algebra", "parsed"], n=2, forms=["full", "where", "single", "cypher", "list2", "str2"])
    add("strings-rank", strings, "braced string queries on a multi-index table, any and all",
        ["set-algebra", "parsed"], n=1 if q else 2, forms=["full", "where", "single"], levels="rank",
        leaves=2 if q else 3)
    add("braces", braces, "2 braced conditions of 6 kinds, whole queries or parts of a WHERE clause, 2-node trees", ["set-algebra", "parsed"],
        n=2, leaves=2)
    add("flat-5", flat, "one operation over 5 subqueries: classes, old classes, operators, lists", leaves=5)
    add("flat-6", flat, "the same over 6 subqueries", leaves=6)
    add("arity", arity, "number of subqueries", ["arity"])
    if not q:
        add("braces3", braces, "3 braced conditions", ["set-algebra", "parsed"], n=2, leaves=3)
        add("new-4", algebra, "4 leaves, 1-node graph and negations", n=1, leaves=4, style="new")
        add("op-4", algebra, "4 leaves, 2-node trees, no negation", n=2, leaves=4, style="op", neg=False)
        add("old-3n", algebra, "old-style, 3 leaves, negation", n=2, leaves=3, style="old")
        add("paths-4", paths, "path subqueries on 4-node trees", n=4)
    return hs
