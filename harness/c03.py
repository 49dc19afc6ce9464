"""C03: object-dialect filters mean what they say."""
from hatchet.query import ObjectQuery, QueryEngine
from .common import *

PROPERTY = "C03"
OPS = ["<", ">", "==", ">=", "<=", "!="]


def fcmp(op, v, c):
    """Floating-point comparison, NaN-aware."""
    if isnan(v) or isnan(c):
        return op == "!="
    return {"<": lambda: v < c, ">": lambda: v > c, "==": lambda: v == c, ">=": lambda: v >= c,
            "<=": lambda: v <= c, "!=": lambda: v != c}[op]()


def explicit(op, v, c):
    """As fcmp, but a test against NaN itself is explicit."""
    if isnan(c) and op in ("==", "!="):
        return isnan(v) == (op == "==")
    return fcmp(op, v, c)


def agg(inp, mode, conds):
    return inp.And(*conds) if mode == "all" else inp.Or(*conds)


def graph(inp):
    p = inp.params
    n = p.get("n", 1)
    edges = par_edges(tree_parents(inp, n, roots=1))
    names = p.get("names") or [LETTERS[i] for i in range(n)]
    g, nodes = build_graph(n, edges, names)
    return n, edges, g, nodes


def accepted(inp, cond, g, df, nodes, mode, label, want, info=""):
    q = ObjectQuery([cond], mode) if mode != "off" else ObjectQuery([cond])
    res = QueryEngine().apply(q, g, df)
    for i, nd in enumerate(nodes):
        inp.check(label, inp.Iff(has(res, nd), want(i)), "%s node %d accepted=%r" % (info, i, has(res, nd)))


def mode_of(inp):
    return inp.choice("mode", ["any", "all"]) if inp.params.get("levels", "node") != "node" else "off"


def numeric(inp):
    """Comparison strings and numbers against symbolic metrics and symbolic constants."""
    p = inp.params
    levels = p.get("levels", "node")
    n, edges, g, nodes = graph(inp)
    _, extras = frame_index(levels)
    mode = mode_of(inp)
    kinds = p["kinds"]
    val = {(i, ex): inp.metric("v%d_%s" % (i, "".join(map(str, ex))), kinds) for i in range(n) for ex in extras}
    df = build_df(nodes, levels, {"time": lambda i, ex: val[(i, ex)]}, [LETTERS[i] for i in range(n)])
    form = inp.choice("form", p["forms"])
    ck = inp.choice("const", p["consts"])
    sp, end = inp.choice("space", [(" ", ""), ("", ""), ("  ", " ")]) if p.get("space") else (" ", "")

    def const(tag):
        if ck == "real":
            r = inp.real("c" + tag)
            return r, "%s" % (r,)
        if ck == "int":
            return 3, "3"
        return {"np.nan": (P.NAN, "np.nan"), "np.inf": (P.INF, "np.inf"), "-np.inf": (-P.INF, "-np.inf")}[ck]
    if form == "number":
        c, _ = const("")
        cond = {"time": c}
        test = lambda v: fcmp("==", v, c)
    elif form == "cmp":
        op = inp.choice("op", OPS)
        c, s = const("")
        cond = {"time": op + sp + s + end}
        test = lambda v: explicit(op, v, c)
    elif form == "list":
        o1, o2 = inp.choice("op1", OPS[:3]), inp.choice("op2", OPS[3:])
        (c1, s1), (c2, s2) = const("1"), const("2")
        vals = [o1 + sp + s1 + end, o2 + sp + s2 + end]
        cond = {"time": inp.choice("seq", [list, tuple])(vals)}
        return accepted(inp, cond, g, df, nodes, mode, "means-what-it-says",
                        lambda i: inp.And(agg(inp, mode, [explicit(o1, val[(i, ex)], c1) for ex in extras]),
                                          agg(inp, mode, [explicit(o2, val[(i, ex)], c2) for ex in extras])), repr(cond))
    accepted(inp, cond, g, df, nodes, mode, "means-what-it-says",
             lambda i: agg(inp, mode, [test(val[(i, ex)]) for ex in extras]), repr(cond))


def two(inp):
    """Two keys: all must hold; a column the table does not have fails."""
    p = inp.params
    levels = p.get("levels", "node")
    n, edges, g, nodes = graph(inp)
    _, extras = frame_index(levels)
    mode = mode_of(inp)
    a = {(i, ex): inp.real("a%d_%s" % (i, "".join(map(str, ex)))) for i in range(n) for ex in extras}
    b = {(i, ex): inp.metric("b%d_%s" % (i, "".join(map(str, ex))), ["fin", "nan"]) for i in range(n) for ex in extras}
    df = build_df(nodes, levels, {"time": lambda i, ex: a[(i, ex)], "time (inc)": lambda i, ex: b[(i, ex)]},
                  [LETTERS[i] for i in range(n)])
    c = inp.real("c")
    kind = inp.choice("kind", ["two", "missing-first", "missing-last"])
    t1 = ("time", "> %s" % (c,))
    t2 = ("time (inc)", "<= %s" % (c,))
    cond = dict([t1, t2]) if kind == "two" else dict([("nope", "> 1"), t1]) if kind == "missing-first" \
        else dict([t1, ("nope", 3)])

    def want(i):
        if kind != "two":
            return False
        return inp.And(agg(inp, mode, [fcmp(">", a[(i, ex)], c) for ex in extras]),
                       agg(inp, mode, [fcmp("<=", b[(i, ex)], c) for ex in extras]))
    accepted(inp, cond, g, df, nodes, mode, "all-conditions", want, repr(cond))


PATTERNS = {
    # pattern: whole-match oracle over a (possibly symbolic) string
    "fo": lambda s, inp: s == "fo",
    "fo.*": lambda s, inp: s.startswith("fo"),
    ".*o": lambda s, inp: s.endswith("o"),
    "f|fo": lambda s, inp: inp.Or(s == "f", s == "fo"),
    "(f|o)o": lambda s, inp: inp.Or(s == "fo", s == "oo"),
    "fo?": lambda s, inp: inp.Or(s == "f", s == "fo"),
    "[fo]b": lambda s, inp: inp.Or(s == "fb", s == "ob"),
    ".*": lambda s, inp: True,
    "": lambda s, inp: s == "",
    "of|f": lambda s, inp: inp.Or(s == "of", s == "f"),
}


def lists(inp):
    """Every condition of a list has to hold, of whatever kind and however many."""
    p = inp.params
    levels = p.get("levels", "node")
    n, edges, g, nodes = graph(inp)
    _, extras = frame_index(levels)
    mode = mode_of(inp)
    val = {(i, ex): inp.real("v%d_%s" % (i, "".join(map(str, ex)))) for i in range(n) for ex in extras}
    txt = {i: inp.choice("s%d" % i, ["f", "fo", "of"]) for i in range(n)} if "text" in p["keys"] else {i: LETTERS[i] for i in range(n)}
    df = build_df(nodes, levels, {"time": lambda i, ex: val[(i, ex)]}, [txt[i] for i in range(n)])
    key = inp.choice("key", p["keys"])
    tests, conds = [], []
    for k in range(inp.choice("len", p["lens"])):
        if key == "text":
            pat = inp.choice("pat%d" % k, ["f.*", "fo", ".*", "(f|o)*", "o"])
            conds.append(pat)
            tests.append(lambda i, pat=pat: PATTERNS_FULL[pat](txt[i]))
        elif key == "depth":
            v = inp.choice("d%d" % k, [0, -1, 1, ">= 0", "!= 0"])
            conds.append(v)
            kids, low = {a for a, _ in edges}, {b for _, b in edges}
            tests.append({0: lambda i: i not in low, -1: lambda i: i not in kids, 1: lambda i: any((0, i) == e for e in edges),
                          ">= 0": lambda i: True, "!= 0": lambda i: i in low}[v])
        else:
            kind = inp.choice("k%d" % k, ["number", "zero", "cmp"])
            c = 0 if kind == "zero" else inp.real("c%d" % k)
            op = inp.choice("op%d" % k, OPS) if kind == "cmp" else "=="
            conds.append("%s %s" % (op, c) if kind == "cmp" else c)
            tests.append(lambda i, op=op, c=c: agg(inp, mode, [fcmp(op, val[(i, ex)], c) for ex in extras]))
    cond = {{"text": "name", "depth": "depth", "time": "time"}[key]: inp.choice("seq", [list, tuple])(conds)}
    accepted(inp, cond, g, df, nodes, mode, "all-of-a-list", lambda i: inp.And(*[t(i) for t in tests]), repr(cond))


PATTERNS_FULL = {"f.*": lambda s: s[0] == "f", "fo": lambda s: s == "fo", ".*": lambda s: True, "(f|o)*": lambda s: True, "o": lambda s: False}


def regex(inp):
    p = inp.params
    levels = p.get("levels", "node")
    n, edges, g, nodes = graph(inp)
    _, extras = frame_index(levels)
    mode = mode_of(inp)
    val = {(i, ex): inp.string("s%d_%s" % (i, "".join(map(str, ex))), p.get("maxlen", 3), "fob") for i in range(n)
           for ex in extras}
    inames, _ = frame_index(levels)
    recs = {"node": [], "name": [], "file": [], **{k: [] for k in inames[1:]}}
    for i in range(n):
        for ex in extras:
            recs["node"].append(nodes[i])
            recs["name"].append(LETTERS[i])
            recs["file"].append(val[(i, ex)])
            for k, x in zip(inames[1:], ex):
                recs[k].append(x)
    df = pd.DataFrame({k: pd.Series(v, dtype=object) if k == "file" else v for k, v in recs.items()}).set_index(inames)
    pat = inp.choice("pat", sorted(PATTERNS))
    accepted(inp, {"file": pat}, g, df, nodes, mode, "regex-matches-whole",
             lambda i: agg(inp, mode, [PATTERNS[pat](val[(i, ex)], inp) for ex in extras]), repr(pat))


def depth_id(inp):
    """'depth' and 'node_id'; one of several nodes of a tree."""
    p = inp.params
    levels = p.get("levels", "node")
    n, edges, g, nodes = graph(inp)
    mode = mode_of(inp)
    df = build_df(nodes, levels, {"time": lambda i, ex: 1.0}, [LETTERS[i] for i in range(n)])
    key = inp.choice("key", ["depth", "node_id"])
    form = inp.choice("form", ["number", "cmp", "leaf", "list"])
    kids = {a for a, _ in edges}
    par = {b: a for a, b in edges}

    def attr(i):
        if key == "node_id":
            return nodes[i]._hatchet_nid
        d = 0
        while i in par:
            i, d = par[i], d + 1
        return d
    c = inp.int("c", -2 if form != "number" or key != "depth" else 0, n) if form != "leaf" else None
    if form == "number" and inp.flag("below"):      # no node has it (-1 is the documented test for a leaf)
        accepted(inp, {key: -2}, g, df, nodes, mode, "depth-and-id", lambda i: False)
        return
    if form == "leaf":
        if key != "depth":
            inp.done()
        accepted(inp, {"depth": -1}, g, df, nodes, mode, "depth-and-id", lambda i: i not in kids)
        return
    if form == "number":
        cond, test = {key: c}, lambda i: attr(i) == c
    elif form == "list":
        cond = {key: ["> %s" % (c,), "!= %d" % n]}
        test = lambda i: inp.And(c < attr(i), attr(i) != n)
    else:
        op = inp.choice("op", OPS)
        cond = {key: "%s %s" % (op, c)}
        test = lambda i: fcmp(op, attr(i), c)
    accepted(inp, cond, g, df, nodes, mode, "depth-and-id", test, repr(cond))


def errors(inp):
    """Wrong use is refused instead of silently matching."""
    n, edges, g, nodes = graph(inp)
    levels = inp.choice("levels", ["node", "rank"])
    df = build_df(nodes, levels, {"time": lambda i, ex: 1.0}, ["a"] * n)
    kind = inp.choice("kind", ["num-for-str", "regex-for-num", "mode-off"])
    cond = {"name": 5} if kind == "num-for-str" else {"time": "abc"} if kind == "regex-for-num" else {"time": "> 0"}
    mode = "any" if levels == "rank" and kind != "mode-off" else "off"
    want = "InvalidQueryFilter" if kind != "mode-off" else "MultiIndexModeMismatch"
    if kind == "mode-off" and levels == "node":
        inp.done()
    try:
        QueryEngine().apply(ObjectQuery([cond], mode), g, df)
        inp.check("refused", False, "no error for %r" % cond)
    except Exception as e:
        inp.check("refused", type(e).__name__ == want, repr(e))


def path_conds(inp):
    """Conditions attached to several path elements act on their own element only."""
    n, edges, g, nodes = graph(inp)
    a = [inp.real("a%d" % i) for i in range(n)]
    df = build_df(nodes, "node", {"time": lambda i, ex: a[i]}, [LETTERS[i] for i in range(n)])
    c = inp.real("c")
    q = ObjectQuery([{"time": "> %s" % (c,)}, (inp.choice("q", [".", "*", 1]), {"time": "<= %s" % (c,)})])
    res = QueryEngine().apply(q, g, df)
    from .c01 import selected
    want = selected(n, edges, [".", q.query_pattern[1][0]],
                    lambda i, e: bool(a[i] > c) if e == 0 else bool(a[i] <= c))
    for i in range(n):
        inp.check("per-element", has(res, nodes[i]) == (i in want))


def harnesses(tier):
    q = tier == "quick"
    hs = []

    def add(name, fn, bounds, label, **kw):
        hs.append(H(name, fn, [label], bounds, kw, validate=10))
    W = "means-what-it-says"
    FK = ["fin", "nan", "inf", "-inf"]
    C = ["real", "int", "np.nan", "np.inf", "-np.inf"]
    add("numeric", numeric, "one node: any real/NaN/+-inf metric, any real or NaN/+-inf constant, all operators, numbers "
        "and lists", W, kinds=FK, forms=["cmp", "number", "list"], consts=C, space=True)
    add("numeric-rank", numeric, "two rows per node, any and all", W, kinds=FK, forms=["cmp", "number"],
        consts=C, levels="rank")
    add("numeric-rank-list", numeric, "two rows per node, list of comparisons", W, kinds=["fin", "nan"],
        forms=["list"], consts=["real"], levels="rank")
    add("lists", lists, "one node, lists of 0-2 numbers and comparisons", "all-of-a-list", keys=["time"], lens=[0, 1, 2])
    add("lists-rank", lists, "two rows, lists of 1-2 numbers and comparisons", "all-of-a-list", keys=["time"], lens=[1, 2], levels="rank")
    add("lists-other", lists, "trees on 3 nodes, lists of 0-3 depths", "all-of-a-list", n=3, keys=["depth"], lens=[0, 1, 2, 3])
    add("lists-other-rank", lists, "trees on 2 nodes, two rows, lists of 0-%d patterns or depths" % (2 if q else 3), "all-of-a-list", n=2, keys=["text", "depth"], lens=[0, 1, 2] if q else [0, 1, 2, 3],
        levels="rank")
    add("numeric-rt", numeric, "three rows per node (rank and thread)", W, kinds=["fin", "nan"], forms=["cmp"],
        consts=["real"], levels="rt")
    add("numeric-2", numeric, "two nodes", W, n=2, kinds=["fin", "nan"], forms=["cmp", "number"], consts=["real"])
    add("numeric-2-rank", numeric, "two nodes, two rows each", W, n=2, kinds=["fin"], forms=["cmp", "number"],
        consts=["real"], levels="rank")
    add("numeric-rank1", numeric, "one row per node in a table with ranks", W, kinds=["fin", "nan"], forms=["cmp", "number"],
        consts=["real"], levels="rank1")
    add("two-keys-rank1", two, "two conditions, one row per node in a table with ranks", "all-conditions", n=2, levels="rank1")
    add("regex-rank1", regex, "10 patterns, one row per node in a table with ranks", "regex-matches-whole", levels="rank1", maxlen=2)
    add("depth-id-rank1", depth_id, "one row per node in a table with ranks", "depth-and-id", n=3, levels="rank1")
    add("two-keys", two, "two conditions and missing columns, 2 nodes", "all-conditions", n=2)
    add("two-keys-rank", two, "the same with two rows", "all-conditions", levels="rank")
    add("regex", regex, "10 patterns over every string of length <= 3 over f,o,b", "regex-matches-whole",
        maxlen=3 if q else 5)
    add("regex-rank", regex, "the same with two rows, any and all", "regex-matches-whole", levels="rank", maxlen=3)
    add("depth-id", depth_id, "all trees on 3 nodes, symbolic constants", "depth-and-id", n=3 if q else 4)
    add("depth-id-rank", depth_id, "the same with two rows", "depth-and-id", n=3, levels="rank")
    add("errors", errors, "misuse", "refused", n=1)
    add("path-conds", path_conds, "two path elements with conditions, all trees on 3 nodes", "per-element", n=3)
    if not q:
        add("numeric-3", numeric, "three nodes", W, n=3, kinds=["fin", "nan"], forms=["cmp", "number"], consts=["real"])
        add("numeric-rt-full", numeric, "three rows, any kinds", W, kinds=FK, forms=["cmp", "number"], consts=C,
            levels="rt")
        add("numeric-rank-listf", numeric, "two rows, lists, any kinds", W, kinds=FK, forms=["list"], consts=C,
            levels="rank")
    return hs
