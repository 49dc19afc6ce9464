"""C04: string-dialect conditions mean what they say."""
from hatchet.query import parse_string_dialect, QueryEngine, QueryMatcher, CypherQuery
from .common import *
from .c03 import fcmp, agg
from .c01 import selected

PROPERTY = "C04"
NUM = ["=", "<", ">", "<=", ">="]


def table(nodes, levels, cols):
    inames, extras = frame_index(levels)
    data = {k: [] for k in inames + ["name"] + list(cols)}
    for i, nd in enumerate(nodes):
        for ex in extras:
            data["node"].append(nd)
            data["name"].append(LETTERS[i])
            for k, x in zip(inames[1:], ex):
                data[k].append(x)
            for c, f in cols.items():
                data[c].append(f(i, ex))
    df = pd.DataFrame({k: series(v, True) if k in cols and not any(isinstance(x, (str, type(None))) for x in v)
                       else (pd.Series(v, dtype=object) if k in cols else v) for k, v in data.items()})
    return df.set_index(inames).sort_index()


def _graph(inp):
    p = inp.params
    n = p.get("n", 1)
    edges = par_edges(tree_parents(inp, n, roots=1))
    g, nodes = build_graph(n, edges, [LETTERS[i] for i in range(n)])
    levels = p.get("levels", "node")
    _, extras = frame_index(levels)
    mode = inp.choice("mode", ["any", "all"]) if levels != "node" else "off"
    return n, edges, g, nodes, levels, extras, mode


def parse(q, mode):
    return parse_string_dialect(q, mode) if mode != "off" else parse_string_dialect(q)


def verdict(inp, q, mode, g, df, nodes, want, label="condition"):
    res = QueryEngine().apply(parse(q, mode), g, df)
    for i, nd in enumerate(nodes):
        inp.check(label, inp.Iff(has(res, nd), want(i)), "%s mode %s node %d accepted=%r" % (q, mode, i, has(res, nd)))


def leaf_cond(inp, tag, kinds, val, sval, edges, nodes, extras, mode):
    """One condition: (text, truth of node i)."""
    k = inp.choice(tag + "k", kinds)
    neg = False
    if k.startswith("not "):
        neg, k = True, k[4:]
    if k == "num":
        op = inp.choice(tag + "op", inp.params.get("ops", NUM))
        txt, c = inp.choice(tag + "c", inp.params.get("consts", [("5", 5), ("-2.5", -2.5), ("0", 0)]))
        t = 'p."time" %s %s' % (op, txt)
        f = lambda i: agg(inp, mode, [fcmp("==" if op == "=" else op, val(i, ex), c) for ex in extras])
    elif k in ("IS NAN", "IS NOT NAN", "IS INF", "IS NOT INF"):
        t = 'p."time" ' + k

        def one(v):
            b = isnan(v) if k.endswith("NAN") else isinstance(v, (float, np.floating)) and math.isinf(v)
            return b != ("NOT" in k)
        f = lambda i: agg(inp, mode, [one(val(i, ex)) for ex in extras])
    elif k in ("IS LEAF", "IS NOT LEAF"):
        t = "p " + k
        kids = {a for a, _ in edges}
        f = lambda i: (i not in kids) == (k == "IS LEAF")
    elif k in ("IS NONE", "IS NOT NONE"):
        t = 'p."file" ' + k
        f = lambda i: agg(inp, mode, [(sval(i, ex) is None) == (k == "IS NONE") for ex in extras])
    elif k == "str":
        op, g = inp.choice(tag + "so", [
            ("= ", lambda s, x: s == x), ("STARTS WITH ", lambda s, x: s.startswith(x)),
            ("ENDS WITH ", lambda s, x: s.endswith(x)), ("CONTAINS ", lambda s, x: contains(s, x))])
        lit = inp.choice(tag + "sv", inp.params.get("lits", ["fo", "o"]))
        t = 'p."file" %s%s' % (op, quote(lit))
        f = lambda i: agg(inp, mode, [g(sval(i, ex), lit) for ex in extras])
    elif k == "re":
        pat, g = inp.choice(tag + "re", [
            ("fo", lambda s: s.startswith("fo")),
            ("f|bo", lambda s: inp.Or(s.startswith("f"), s.startswith("bo"))),
            (".o", lambda s: inp.Or(*[s.startswith(x + "o") for x in "fob"])),
            ("fo$", lambda s: s == "fo"), ("[fb]?o", lambda s: inp.Or(s.startswith("o"), s.startswith("fo"),
                                                                   s.startswith("bo")))])
        t = 'p."file" =~ %s' % quote(pat)
        f = lambda i: agg(inp, mode, [g(sval(i, ex)) for ex in extras])
    elif k in ("depth", "node_id"):
        op = inp.choice(tag + "op", inp.params.get("ops", NUM))
        c = inp.choice(tag + "dc", inp.params.get("dconsts", [-2, -1, 0, 1, 2, 1.5, -0.5]))
        t = 'p."%s" %s %s' % (k, op, c)
        par = {b: a for a, b in edges}
        kids = {a for a, _ in edges}

        def attr(i):
            if k == "node_id":
                return nodes[i]._hatchet_nid
            d = 0
            while i in par:
                i, d = par[i], d + 1
            return d

        def f(i):
            if k == "depth" and op == "=" and c == -1:
                return i not in kids
            return fcmp("==" if op == "=" else op, attr(i), c)
    elif k in ("depth special",):
        s = inp.choice(tag + "ds", ["IS NAN", "IS NOT NAN", "IS INF", "IS NOT INF", "IS NONE", "IS NOT NONE"])
        a = inp.choice(tag + "da", ["depth", "node_id"])
        t = 'p."%s" %s' % (a, s)
        f = lambda i: "NOT" in s
    elif k == "missing":
        t = 'p."nope" %s' % inp.choice(tag + "mi", ['= 3', '= "x"', "IS NAN"])
        f = lambda i: None
    else:
        raise ValueError(k)
    if neg:
        return "NOT " + t, (lambda i: inp.Not(f(i)))
    return t, f


def contains(s, x):
    if isinstance(s, P.SymStr):
        import z3
        return P.SymBool(z3.Contains(s.e, P.SymStr._e(x)))
    return x in s


def quote(s):
    return '"%s"' % s if '"' not in s else "'%s'" % s


def values(inp, n, extras):
    p = inp.params
    kinds = p.get("kinds", ["fin"])
    V, S = {}, {}

    def val(i, ex):
        if (i, ex) not in V:
            V[(i, ex)] = inp.metric("v%d_%s" % (i, "".join(map(str, ex))), kinds)
        return V[(i, ex)]

    def sval(i, ex):
        if (i, ex) not in S:
            nm = "s%d_%s" % (i, "".join(map(str, ex)))
            if p.get("none") and inp.flag(nm + "none"):
                S[(i, ex)] = None
            elif p.get("strings"):
                S[(i, ex)] = inp.choice(nm, p["strings"])
            else:
                S[(i, ex)] = inp.string(nm, p.get("maxlen", 3), "fob")
        return S[(i, ex)]
    return val, sval


def single(inp):
    """One condition of every kind."""
    n, edges, g, nodes, levels, extras, mode = _graph(inp)
    val, sval = values(inp, n, extras)
    cols = {}
    if inp.params.get("num", True):
        cols["time"] = val
    if inp.params.get("str"):
        cols["file"] = sval
    df = table(nodes, levels, cols)
    t, f = leaf_cond(inp, "a", inp.params["conds"], val, sval, edges, nodes, extras, mode)
    verdict(inp, "MATCH (p) WHERE " + t, mode, g, df, nodes, f)


def missing(inp):
    n, edges, g, nodes, levels, extras, mode = _graph(inp)
    val, sval = values(inp, n, extras)
    df = table(nodes, levels, {"time": val})
    t, _ = leaf_cond(inp, "a", ["missing"], val, sval, edges, nodes, extras, mode)
    verdict(inp, "MATCH (p) WHERE " + t, mode, g, df, nodes, lambda i: False)


def boolean(inp):
    """Up to three conditions joined by AND / OR with optional NOT."""
    n, edges, g, nodes, levels, extras, mode = _graph(inp)
    p = inp.params
    val, sval = values(inp, n, extras)
    cols = {"time": val}
    if p.get("str"):
        cols["file"] = sval
    df = table(nodes, levels, cols)
    k = p["k"]
    cs = [leaf_cond(inp, "c%d" % j, p["conds"], val, sval, edges, nodes, extras, mode) for j in range(k)]
    ops = [inp.choice("o%d" % j, ["AND", "OR"]) for j in range(k - 1)]
    nots = [inp.flag("n%d" % j) for j in range(k)]
    q = "MATCH (p) WHERE "
    for j in range(k):
        if j:
            q += " %s " % ops[j - 1]
        q += ("NOT " if nots[j] else "") + cs[j][0]

    def want(i):
        vs = [inp.Not(f(i)) if nt else f(i) for (_, f), nt in zip(cs, nots)]
        groups = [[vs[0]]]
        for o, v in zip(ops, vs[1:]):
            if o == "AND":
                groups[-1].append(v)
            else:
                groups.append([v])
        return inp.Or(*[inp.And(*x) for x in groups])
    verdict(inp, q, mode, g, df, nodes, want, "boolean-combination")


def pattern(inp):
    """MATCH patterns: quantifiers, several named elements with their own conditions."""
    n, edges, g, nodes, levels, extras, mode = _graph(inp)
    val, _ = values(inp, n, extras)
    df = table(nodes, levels, {"time": val, "time (inc)": lambda i, ex: val(i, ex)})
    p = inp.params
    qs = [inp.choice("q%d" % j, [".", "*", "+", 2]) for j in range(2)]
    form = inp.choice("form", ["both", "first", "second", "two-first", "no-where", "unnamed"])

    def el(j, name):
        q = qs[j]
        if q == ".":
            return "(%s)" % name if name else '(".")'
        s = '"%s"' % q if isinstance(q, str) else str(q)
        return "(%s, %s)" % (s, name) if name else "(%s)" % s
    t = [lambda i: True, lambda i: True]
    A = ('p."time" > 5', lambda i: bool(fcmp(">", val(i, ()), 5)))
    B = ('q."time" <= 5', lambda i: bool(fcmp("<=", val(i, ()), 5)))
    if form == "both":
        txt = "MATCH %s->%s WHERE %s AND %s" % (el(0, "p"), el(1, "q"), A[0], B[0])
        t = [A[1], B[1]]
    elif form == "first":
        txt = "MATCH %s->%s WHERE %s" % (el(0, "p"), el(1, "q"), A[0])
        t[0] = A[1]
    elif form == "second":
        txt = "MATCH %s->%s WHERE %s" % (el(0, ""), el(1, "q"), B[0])
        t[1] = B[1]
    elif form == "two-first":
        txt = 'MATCH %s->%s WHERE %s AND %s OR p."time" = 0' % (el(0, "p"), el(1, "q"), A[0], B[0])
        t = [lambda i: A[1](i) or bool(fcmp("==", val(i, ()), 0)), B[1]]
    elif form == "no-where":
        txt = "MATCH %s->%s" % (el(0, ""), el(1, "q"))
    else:
        txt = "MATCH %s->%s" % (el(0, ""), el(1, ""))
    res = QueryEngine().apply(parse(txt, mode), g, df)
    want = selected(n, edges, qs, lambda i, e: t[e](i))
    for i in range(n):
        inp.check("pattern", has(res, nodes[i]) == (i in want), "%s: node %d" % (txt, i))


def harnesses(tier):
    q = tier == "quick"
    hs = []

    def add(name, fn, bounds, label="condition", **kw):
        hs.append(H(name, fn, [label], bounds, kw, validate=10))
    FK = ["fin", "nan", "inf", "-inf"]
    SP = ["IS NAN", "IS NOT NAN", "IS INF", "IS NOT INF"]
    NUMC = ["num", "not num"] + SP + ["not IS NAN", "not IS NOT INF"]
    add("num", single, "one numeric condition, any real/NaN/+-inf value", conds=NUMC, kinds=FK)
    for lv in ("rank", "thread", "rt"):
        add("num-" + lv, single, "one numeric condition over the rows of a %s table, any and all" % lv, conds=NUMC,
            kinds=FK if lv == "rank" else ["fin", "nan", "inf"] if lv == "thread" else ["fin", "nan"], levels=lv)
    add("num-2", single, "two nodes", conds=["num"] + SP, kinds=["fin", "nan", "inf"], n=2)
    add("struct", single, "leaf, depth and node_id conditions on all trees of 3 nodes",
        conds=["IS LEAF", "IS NOT LEAF", "not IS LEAF", "depth", "node_id", "not depth", "depth special"], n=3)
    add("struct-rank", single, "the same with two rows per node",
        conds=["IS LEAF", "IS NOT LEAF", "not IS LEAF", "depth", "node_id", "not depth", "depth special"], n=3,
        levels="rank")
    add("str", single, "string conditions over every string of length <= 3 over f,o,b", conds=["str", "re", "not str"],
        str=True, num=False, maxlen=3 if q else 5, lits=["fo", "o", "bob", ""])
    add("str-rank", single, "string conditions over two rows, any and all", conds=["str", "re", "not str"], str=True,
        num=False, levels="rank", maxlen=3)
    add("str-special", single, "literals with quotes and backslashes", conds=["str"], str=True, num=False,
        strings=['a"b', "a\\nb", "a\nb", "plain", "it's"], lits=['a"b', "\\n", "\n", '"', "s", "it's"])
    add("str-special-rank", single, "the same with two rows", conds=["str"], str=True, num=False,
        strings=['a"b', "a\\nb", "a\nb"], lits=['a"b', "\\n", '"'], levels="rank")
    add("none", single, "IS NONE / IS NOT NONE", conds=["IS NONE", "IS NOT NONE", "not IS NONE"], str=True, num=False,
        none=True, strings=["x"], n=2)
    add("none-rank", single, "IS NONE / IS NOT NONE over two rows", conds=["IS NONE", "IS NOT NONE", "not IS NONE"],
        str=True, num=False, none=True, strings=["x"], levels="rank")
    add("missing", missing, "a column that is not there matches nothing", n=1)
    add("missing-rank", missing, "the same with two rows", levels="rank")
    add("bool-2", boolean, "two conditions of any kind, AND/OR, NOT anywhere, 2-node trees", "boolean-combination", k=2, n=2,
        conds=["num", "IS NOT NAN", "IS LEAF"], kinds=["fin", "nan"] if not q else ["fin"], ops=[">", "="], consts=[("5", 5)])
    add("bool-3", boolean, "three conditions (AND binds tighter than OR), NOT anywhere", "boolean-combination", k=3,
        conds=["num", "IS LEAF"] if q else ["num", "IS LEAF", "IS NAN"], kinds=["fin"] if q else ["fin", "nan"],
        ops=["<"], consts=[("5", 5), ("0", 0)])
    add("bool-str", boolean, "numeric, string and structural conditions mixed", "boolean-combination", k=2, str=True,
        conds=["num", "str", "re", "IS NOT LEAF", "depth"] if not q else ["num", "str", "IS NOT LEAF", "node_id"],
        lits=["fo"], kinds=["fin"], ops=["<=", "="], consts=[("5", 5)], dconsts=[0, 1])
    add("bool-rank", boolean, "two conditions over two rows, any and all", "boolean-combination", k=2, levels="rank",
        conds=["num", "IS NOT INF"] if q else ["num", "IS NOT INF", "IS LEAF"], kinds=["fin", "inf"], ops=["<"],
        consts=[("5", 5)])
    add("pattern", pattern, "two path elements, all quantifier pairs over . * + 2, conditions on either or both, trees on 3 nodes",
        "pattern", n=3, kinds=["fin"] if q else ["fin", "nan"])
    return hs
