"""C21: DOT and folded-stack output."""
import contextlib
import re as _re
from fractions import Fraction

import matplotlib
import matplotlib.cm
import matplotlib.colors

from .graphs import *
from .c12 import snap, check_same

PROPERTY = "C21"
ASSUMPTIONS = ["matplotlib's colour map and rgb2hex are stand-ins that record the weight they are given in symbolic runs "
               "(real in replays and in the validation sample)"]


@contextlib.contextmanager
def colours(inp):
    """Yields f(colour text) -> weight, or None where only the text is known."""
    if not inp.symbolic:
        yield None
        return
    seen = []
    old = matplotlib.cm.Reds, matplotlib.colors.rgb2hex

    class Reds:
        def __call__(self, w):
            return ("reds", w)

    def rgb2hex(c):
        seen.append(c[1])
        return "#w%d" % (len(seen) - 1)
    matplotlib.cm.Reds, matplotlib.colors.rgb2hex = Reds(), rgb2hex
    try:
        yield lambda t: seen[int(t[2:])]
    finally:
        matplotlib.cm.Reds, matplotlib.colors.rgb2hex = old


def source(inp, p):
    n, levels = p["n"], p["levels"]
    g, nodes, edges, names = make(inp, "g", n, p["shape"], p["names"], p.get("roots", 1), max_roots=p.get("max_roots"))
    labels = [inp.choice("label%d" % i, p["texts"]) for i in range(n)] if p.get("texts") else ["L%d" % i for i in range(n)]
    exs = frame_index(levels)[1]
    mets = p.get("mets", ["time", "cost"])
    vals = {(m, i, ex): inp.metric("%s_%d_%s" % (m, i, "".join(map(str, ex))), lo=p.get("lo"), hi=p.get("hi"))
            for m in mets for i in range(n) for ex in exs}
    df = build_df(nodes, levels, {m: (lambda i, ex, m=m: vals[(m, i, ex)]) for m in mets}, names)
    num = {P._builtin_id(x): i for i, x in enumerate(nodes)}
    df["label"] = [labels[num[P._builtin_id(nd)]] + ("/%s" % (ex,) if ex and p.get("label_per_row") else "") for nd, ex in rows_of(df)]
    gf = GraphFrame(g, df, mets, [], default_metric=mets[0])
    want = inp.choice("row", exs)
    kw = dict(zip(frame_index(levels)[0][1:], want))
    if all(v == 0 for v in kw.values()) and inp.flag("defaults"):
        kw = {}
    metric = inp.choice("metric", [None] + mets[1:])
    if metric is not None:
        kw["metric"] = metric
    col = inp.choice("name", p.get("name_cols", ["name"]))
    if col != "name":
        kw["name"] = col
    shown = [names[i] if col == "name" else labels[i] + ("/%s" % (want,) if want and p.get("label_per_row") else "") for i in range(n)]
    m = metric or mets[0]
    return gf, nodes, edges, shown, {i: vals[(m, i, want)] for i in range(n)}, [vals[(m, i, ex)] for i in range(n) for ex in exs], kw


def pick(vs, less):
    t = vs[0]
    for v in vs[1:]:
        if bool(v < t) if less else bool(v > t):
            t = v
    return t


NODE = _re.compile(r'"(\d+)" \[color="([^"]*)", label="((?:[^"\\]|\\.)*)" shape=oval\];')
EDGE = _re.compile(r'"(\d+)" -> "(\d+)";')


def dot(inp):
    p = inp.params
    gf, nodes, edges, shown, v, allv, kw = source(inp, p)
    thr = inp.choice("threshold", p.get("thresholds", [0.0]))
    if thr or inp.flag("pass-threshold"):
        kw["threshold"] = thr
    s = snap(gf)
    with colours(inp) as weight_of:
        text = gf.to_dot(**kw)
    check_same(inp, gf, s, "source-unchanged", "to_dot")
    lo, hi = pick(allv, True), pick(allv, False)
    # what has to be shown: nodes that reach threshold x maximum, below shown nodes
    n = len(nodes)
    big = [bool(v[i] >= hi * thr) for i in range(n)]
    kids = {b for _, b in edges}
    vis, st = set(), [i for i in range(n) if i not in kids and big[i]]
    while st:
        i = st.pop()
        if i not in vis:
            vis.add(i)
            st += [b for a, b in edges if a == i and big[b]]
    lines = text.split("\n")
    inp.check("form", lines[0] == "strict digraph {" and text.rstrip().endswith("}"))
    got_n, got_e = {}, []
    for ln in lines[1:]:
        m = NODE.fullmatch(ln)
        e = EDGE.fullmatch(ln)
        if m:
            inp.check("nodes", m.group(1) not in got_n, "node %s twice" % m.group(1))
            got_n[m.group(1)] = (m.group(2), m.group(3))
        elif e:
            got_e.append((e.group(1), e.group(2)))
        else:
            inp.check("form", ln in ("", "}") or _re.fullmatch(r"(graph|node|edge) \[.*\];", ln) is not None, "line %r" % ln)
    idof = {i: str(nodes[i]._hatchet_nid) for i in range(n)}
    inp.check("nodes", sorted(got_n) == sorted(idof[i] for i in vis), "nodes %r, not %r" % (sorted(got_n), sorted(idof[i] for i in vis)))
    inp.check("edges", sorted(got_e) == sorted((idof[a], idof[b]) for a, b in edges if a in vis and b in vis), "edges %r" % (got_e,))
    for i in vis:
        col, lab = got_n[idof[i]]
        inp.check("names", _re.sub(r"\\(.)", r"\1", lab) == shown[i], "label %r for %r" % (lab, shown[i]))
        if weight_of:
            w = weight_of(col)
            inp.check("values", inp.eqv(w, (v[i] - lo) / (hi - lo)), "weight of node %d" % i)
        else:
            with np.errstate(all="ignore"):
                w = np.float64(v[i] - lo) / np.float64(hi - lo)
            inp.check("values", col == matplotlib.colors.rgb2hex(matplotlib.cm.Reds(w)), "colour %s of node %d" % (col, i))


def flame(inp):
    p = inp.params
    gf, nodes, edges, shown, v, allv, kw = source(inp, p)
    s = snap(gf)
    with numbers_in(inp, "hatchet.graphframe", ("int",)):
        text = gf.to_flamegraph(**kw)
    check_same(inp, gf, s, "source-unchanged", "to_flamegraph")
    inp.check("form", text.endswith("\n"))
    lines = text[:-1].split("\n")
    n = len(nodes)
    inp.check("lines", len(lines) == n, "%d lines for %d nodes" % (len(lines), n))
    par = {b: a for a, b in edges}
    heads = {}
    for i in range(n):
        path = [i]
        while path[0] in par:
            path.insert(0, par[path[0]])
        heads.setdefault("; ".join(shown[j] for j in path) + " ", []).append(i)
    for head, idx in heads.items():
        nums = [ln[len(head):] for ln in lines if ln.startswith(head) and " " not in ln[len(head):] and ";" not in ln[len(head):]]
        inp.check("stacks", len(nums) == len(idx), "%d lines %r in %r" % (len(nums), head, lines))
        # nodes with the same path of names: some assignment of the lines to them
        opts = [P.b_and(*[rounded(inp, t, v[i]) for t, i in zip(perm, idx)]) for perm in itertools.permutations(nums)]
        inp.check("values", P.b_or(*opts), "values %r of %r" % (nums, head))


def rounded(inp, text, v):
    """text is the decimal form of an integer nearest to v."""
    if inp.symbolic and _re.fullmatch(P.TOKEN, text):
        x, spec = P.untok(text)
        if _re.fullmatch(r"\.0f?", spec) and not isinstance(x, P.SymInt):      # rounds to even, as round() does
            x = round(x)
        else:
            inp.check("values", spec in ("", "d") and isinstance(x, P.SymInt), "not an integer")
        d = x - v
        return P.b_and(d * 2 <= 1, d * 2 >= -1)
    if not _re.fullmatch(r"-?\d+", text):
        return False
    if isinstance(v, P.SymNum):
        d = v - int(text)
        return P.b_and(d * 2 <= 1, d * 2 >= -1)
    return abs(int(text) - Fraction(float(v))) <= Fraction(1, 2)


def harnesses(tier):
    q = tier == "quick"
    hs = []
    LD = ["source-unchanged", "form", "nodes", "edges", "names", "values"]
    LF = ["source-unchanged", "form", "lines", "stacks", "values"]

    def add(name, fn, labels, bounds, validate=20, **kw):
        kw.setdefault("levels", "node")
        hs.append(H(name, fn, labels, bounds, kw, validate=validate))
    NAMES = ["plain", 'operator"" _s', "a\\b", 'q\\"']
    add("dot-trees", dot, LD, "forests of 3 nodes, names x/y, values >= 0", n=3, shape="tree", roots=3, names="two", lo=0, mets=["time"])
    add("dot-dags", dot, LD, "DAGs of 4 nodes, values >= 1", n=4 if not q else 3, shape="dag", names="asc", lo=0, mets=["time"])
    add("dot-dag4", dot, LD, "DAGs of 4 nodes with values 0..10 in order", n=4, shape="dag", names="asc", lo=1, hi=1, mets=["time"], naming="perm")
    add("dot-ranks", dot, LD, "trees of 2 nodes, either rank, either metric, either name column", n=2, shape="tree", names="asc", levels="rank", lo=0,
        name_cols=["name", "label"], label_per_row=1)
    add("dot-threads", dot, LD, "trees of 2 nodes, either thread", n=2, shape="tree", names="asc", levels="thread", lo=0, mets=["time"])
    add("dot-rt", dot, LD, "trees of 2 nodes, rank/thread rows", n=2, shape="tree", names="asc", levels="rt", lo=0, mets=["time"], label_per_row=1,
        name_cols=["label"])
    add("dot-threshold", dot, LD, "DAGs of 3 nodes, thresholds 0, 0.5, 1", n=3, shape="dag", names="asc", lo=0, mets=["time"], thresholds=[0.0, 0.5, 1.0])
    add("dot-names", dot, LD, "trees of 2 nodes, names with quotes and backslashes", n=2, shape="tree", names="asc", texts=NAMES, lo=1, mets=["time"],
        name_cols=["label"])
    add("stacks-trees", flame, LF, "forests of 4 nodes, names x/y, any values", n=4, shape="tree", roots=4, names="two", mets=["time"])
    add("stacks-ranks", flame, LF, "trees of 3 nodes, either rank, either metric, either name column", n=3, shape="tree", names="asc", levels="rank",
        name_cols=["name", "label"], label_per_row=1)
    add("stacks-threads", flame, LF, "trees of 3 nodes, either thread", n=3, shape="tree", names="asc", levels="thread", mets=["time"])
    add("stacks-rt", flame, LF, "trees of 3 nodes, rank/thread rows, own names per row", n=3, shape="tree", names="asc", levels="rt", mets=["time"],
        name_cols=["name", "label"], label_per_row=1)
    if not q:
        add("dot-trees4", dot, LD, "trees of 4 nodes", n=4, shape="tree", names="two", lo=0, mets=["time"])
        add("stacks-trees5", flame, LF, "trees of 5 nodes, names x/y", n=5, shape="tree", names="two", mets=["time"])
    return hs
