"""C22: the rendered tree."""
import contextlib
import io
import re as _re
import sys

from hatchet.external.console import ConsoleRenderer
from .graphs import *
from .c12 import snap, check_same

PROPERTY = "C22"
ANSI = _re.compile("\x1b\\[[0-9;]*m")
BUCKETS = [(0.9, 1.0), (0.7, 0.9), (0.5, 0.7), (0.3, 0.5), (0.1, 0.3), (0.0, 0.1)]
PALETTES = ["RdYlGn", "BrBG", "PiYG", "PRGn", "PuOr", "RdBu", "RdGy", "RdYlBu", "Spectral"]
PATTERN = {"none": "", "constant": "\u2192", "phased": "\u2933", "dynamic": "\u21DD", "sporadic": "\u219D"}


@contextlib.contextmanager
def terminal(on):
    class Out(io.StringIO):
        def isatty(self):
            return on
    old = sys.stdout
    sys.stdout = Out()
    try:
        yield
    finally:
        sys.stdout = old


def palettes():
    """The palettes as the class defines them, read once, before any call."""
    if not _palettes:
        from hatchet.util.colormaps import ColorMaps
        _palettes.update({k: list(getattr(ColorMaps, k)) for k in PALETTES})
    return _palettes


_palettes = {}


def number(inp, label, text, v, spec, info=""):
    """text shows v formatted with spec."""
    if inp.symbolic and _re.fullmatch(P.TOKEN, text):
        x, sp = P.untok(text)
        inp.check(label, sp == spec, "format %r, not %r" % (sp, spec))
        inp.check(label, inp.eqv(x, v), "shows %r for %r %s" % (x, v, info))
    elif isinstance(v, P.SymNum):
        inp.check(label, False, "shows %r for %r %s" % (text, v, info))
    else:
        inp.check(label, text == format(float(v), spec), "shows %r for %r %s" % (text, v, info))


def tree(inp):
    p = inp.params
    n, levels = p["n"], p["levels"]
    g, nodes, edges, names = make(inp, "g", n, p["shape"], p.get("names", "asc"), p.get("roots", 1), max_roots=p.get("max_roots"))
    texts = [inp.choice("text%d" % i, p["texts"]) for i in range(n)] if p.get("texts") else names
    exs = frame_index(levels)[1]
    mets = p.get("mets", ["time"])
    vals = {}
    for k, (m, i, ex) in enumerate(itertools.product(mets, range(n), exs)):
        if k < p.get("fixed", 0):       # cells with given, distinct values
            vals[(m, i, ex)] = 2.25 * k - 3
        else:
            vals[(m, i, ex)] = inp.metric("%s_%d_%s" % (m, i, "".join(map(str, ex))), p.get("kinds", ("fin",)))
    df = build_df(nodes, levels, {m: (lambda i, ex, m=m: vals[(m, i, ex)]) for m in mets}, texts)
    num = {P._builtin_id(x): i for i, x in enumerate(nodes)}
    at = [(num[P._builtin_id(nd)], ex) for nd, ex in rows_of(df)]
    tag = lambda i, ex: "%d%s" % (i, "".join(map(str, ex)))
    df["label"] = ["L" + tag(*a) for a in at]
    missing = {}
    if p.get("missing"):
        missing = {i: inp.choice("missing%d" % i, [0, 1, 2]) for i in range(n)}
        df["_missing_node"] = [missing[i] for i, ex in at]
    if p.get("context"):
        df["file"] = ["f" + tag(*a) for a in at]
        df["module"] = ["m" + tag(*a) for a in at]
    pats = {}
    if p.get("annotation"):
        pats = {i: inp.choice("pat%d" % i, list(PATTERN)[:p.get("npats", 3)]) for i in range(n)}
        df["note"] = [pats[i] + "!" for i, ex in at]
        df["time_pattern"] = [pats[i] for i, ex in at]
    gf = GraphFrame(g, df, mets, [], default_metric=mets[0])
    want = inp.choice("row", exs)
    kw = dict(zip(frame_index(levels)[0][1:], want))
    second = None
    first = mets[0]
    mc = None
    if len(mets) > 1:
        mc = inp.choice("metric_column", p.get("metric_args") or [None, mets[1], [mets[1]], [mets[1], mets[0]]])
        if mc is not None:
            kw["metric_column"] = mc
            first = mc if isinstance(mc, str) else mc[0]
            second = mc[1] if isinstance(mc, list) and len(mc) > 1 else None
    prec = inp.choice("precision", p.get("precisions", [3]))
    if prec != 3:
        kw["precision"] = prec
    limit = inp.choice("depth", p.get("limits", [None]))
    if limit is not None:
        kw["depth"] = limit
    expand = inp.choice("expand", p.get("expand", [False]))
    if expand:
        kw["expand_name"] = True
    col = inp.choice("name_column", p.get("name_cols", ["name"]))
    if col != "name":
        kw["name_column"] = col
    context = None
    if p.get("context"):
        context = inp.choice("context", ["file", "module", "nothing"])
        if context != "file":
            kw["context_column"] = context
    ann = None
    if p.get("annotation"):
        ann = inp.choice("annotation", ["note", "time_pattern"])
        kw["annotation_column"] = ann
        cm = inp.choice("cmap", [None, "BrBG", "list", "dict"])
        if cm:
            kw["colormap_annotations"] = {"list": ["\x1b[35m", "\x1b[36m"], "dict": {k + e: "\x1b[3%dm" % j for j, k in enumerate(PATTERN)
                                                                                  for e in ("", "!")}}.get(cm, cm)
    header = inp.choice("header", p.get("header", [False]))
    if not header:
        kw["render_header"] = False
    colour = inp.choice("colour", p.get("colour", [False]))
    lo = hi = None
    if p.get("given"):
        lo, hi = inp.choice("min", [None, 0, -1]), inp.choice("max", [None, 0, 2])
        kw.update({k: v for k, v in (("min_value", lo), ("max_value", hi)) if v is not None})
    defined = palettes()
    chosen, invert, highlight = "RdYlGn", False, False
    if colour and p.get("palettes"):
        chosen = kw["colormap"] = inp.choice("palette", p["palettes"])
        invert = kw["invert_colormap"] = inp.flag("invert")
        highlight = kw["highlight_name"] = inp.flag("highlight")
    s = snap(gf)
    ascii_ = p.get("ascii")
    bars = ("`- ", "|- ", "|  ") if ascii_ else ("\u2514\u2500 ", "\u251c\u2500 ", "\u2502  ")
    left, right = "<>" if ascii_ else "\u25c0\u25b6"
    with terminal(colour):
        if chosen == "wrong":
            try:
                gf.tree(**kw)
                inp.check("palette", False, "a wrong palette is taken")
            except ValueError as e:
                inp.check("palette", all(k.lower() in str(e).lower() for k in PALETTES), "message %s" % e)
            return
        if mc and not (set([mc] if isinstance(mc, str) else mc[:2]) <= set(mets)):
            try:
                gf.tree(**kw)
                inp.check("unknown-metric", False, "a metric that is not there is taken")
            except KeyError as e:
                inp.check("unknown-metric", "nope" in str(e))
            return
        text = gf.tree(**kw) if not ascii_ else ascii_tree(gf, kw, colour)
        if ascii_:
            inp.check("form", isinstance(text, bytes))
            text = text.decode("utf-8")
        if p.get("again"):
            inp.check("again", gf.tree(**kw) == text, "the same call gives another text")
    check_same(inp, gf, s, "source-unchanged", "tree")
    inp.check("form", isinstance(text, str))
    lines = text.split("\n")
    if header:
        k = [j for j, ln in enumerate(lines) if "/_/ /_/" in ln]
        inp.check("form", len(k) == 1, "no banner")
        lines = lines[k[0] + 1:]
        while lines and not lines[0]:
            lines.pop(0)
    ch = {i: sorted([b for a, b in edges if a == i], key=lambda j: nodes[j]._hatchet_nid) for i in range(n)}
    kids = {b for _, b in edges}
    cell = lambda m, i: vals[(m, i, want)]
    spec = ".%df" % prec
    palette = {}

    def metric_colour(ln, k):
        return "".join(ANSI.findall(ln[:k]))
    pos = [0]
    done = set()
    shown, arrows, notes = [], [], []

    def show(i, indent, child_indent, d):
        if limit is not None and d >= limit:
            return
        inp.check("nodes", pos[0] < len(lines), "no line for node %d in %r" % (i, text))
        raw = lines[pos[0]]
        pos[0] += 1
        ln = ANSI.sub("", raw)
        nm = (texts[i] if col == "name" else "L" + tag(i, want))
        if not expand and len(nm) > 39:
            nm = nm[:18] + "..." + nm[-18:]
        rest = ""
        if ann == "note":
            rest += " [%s!]" % pats[i]
        elif ann:
            sym = PATTERN[pats[i]]
            # nothing is shown for 'none'
            rest += (" " + sym) if not (colour and "colormap_annotations" in kw and pats[i] == "none") else ""
        rest += " " + nm
        if missing:
            rest += ["", " %s " % left, " %s " % right][missing[i]]
        if context in ("file", "module"):
            rest += " " + {"file": "f", "module": "m"}[context] + tag(i, want)
        inp.check("indent", ln.startswith(indent), "line %r of node %d, indent %r" % (ln, i, indent))
        m = _re.match(r"(\S+)" + (r" (\S+)" if second else ""), ln[len(indent):])
        inp.check("line", m is not None and ln[len(indent) + m.end():] == rest, "line %r, not ...%r" % (ln, rest))
        number(inp, "values", m.group(1), cell(first, i), spec, "(node %d)" % i)
        if second:
            number(inp, "values", m.group(2), cell(second, i), spec, "(second metric of node %d)" % i)
        if colour:
            # the colour of the metric: the code right before its text
            k = raw.index(m.group(1))
            palette[i] = ANSI.findall(raw[:k])[-1:]
            k = len(raw[:raw.rindex(nm)])
            shown.append((i, _re.search("((?:\x1b\\[[0-9;]*m)*)$", raw[:k]).group(1), nm))
            if missing:
                m = _re.search("((?:\x1b\\[[0-9;]*m)+)([%s%s])" % (left, right), raw[k:])
                arrows.append((missing[i], m and m.group(1)))
            if ann and cm:
                v = pats[i] + ("!" if ann == "note" else "")
                m = _re.search("((?:\x1b\\[[0-9;]*m)*)" + _re.escape(v if ann == "note" else PATTERN[v]), raw[len(indent):])
                if v != "none":
                    notes.append((v, _re.sub("^\x1b\\[0m", "", m.group(1))))
        if i in done:
            return
        done.add(i)
        for c in ch[i]:
            last = c == ch[i][-1]
            show(c, child_indent + bars[0 if last else 1], child_indent + ("   " if last else bars[2]), d + 1)
    for r in sorted([i for i in range(n) if i not in kids], key=lambda j: nodes[j]._hatchet_nid):
        show(r, "", "", 0)
    tail = lines[pos[0]:]
    if not colour:
        inp.check("nodes", tail in ([""], []), "further text %r" % (tail,))
        return
    # ---- legend and colours
    mrows = {i: [vals[(first, i, ex)] for ex in exs if "rank" not in kw or ex[0] == want[0]] for i in range(n)}
    fins = [v for i in range(n) for v in mrows[i] if isinstance(v, P.SymNum) or math.isfinite(v)]
    small, large = lo, hi
    if fins:
        small = pick(fins, True) if lo is None else lo
        large = pick(fins, False) if hi is None else hi
    legend = "\n".join(tail)
    inp.check("legend", "Legend" in legend and "Metric: %s" % first in ANSI.sub("", legend), "no legend in %r" % legend)
    rows = _re.findall("((?:\x1b\\[[0-9;]*m)*)\u2588 (?:\x1b\\[[0-9;]*m)*(\\S+) - (\\S+)", legend)
    inp.check("legend", len(rows) == 6, "%d rows" % len(rows))
    codes = [r[0] for r in rows]
    inp.check("legend", codes == defined[chosen][::-1 if invert else 1], "colours %r for %s, inverted: %s" % (codes, chosen, invert))
    m = _re.search("((?:\x1b\\[[0-9;]*m)*)name", legend.split("Max:")[1].split("\n", 1)[1])
    inp.check("legend", bool(m.group(1)) == bool(highlight), "legend of user code")
    for i, code, nm in shown:
        known = "<unknown procedure>" not in nm and "<unknown file>" not in nm
        # what comes before the name may end the colour of the metric
        code = code.replace("\x1b[0m", "")
        inp.check("names", code == (m.group(1) if known else ""), "colour %r of the name %r" % (code, nm))
    if missing:
        lg = [(1 if a == left else 2, c) for c, a in _re.findall("((?:\x1b\\[[0-9;]*m)+)([%s%s])" % (left, right), legend)]
        inp.check("arrows", len(lg) == 2 and lg[0][1] != lg[1][1], "legend of the arrows %r" % (lg,))
        for k, c in arrows:
            inp.check("arrows", c == dict(lg).get(k), "arrow %r of a node marked %d" % (c, k))
    if notes:
        pal = {"BrBG": defined["BrBG"], "list": ["\x1b[35m", "\x1b[36m"]}.get(cm)
        for v, c in notes:
            if cm == "dict":
                inp.check("notes", c == kw["colormap_annotations"][v], "colour %r of the annotation %r" % (c, v))
            else:
                inp.check("notes", c in pal, "colour %r of the annotation %r" % (c, v))
        if cm != "dict":
            for (v, c), (w, d) in itertools.combinations(notes, 2):
                inp.check("notes", (v == w) == (c == d) or len(pal) < len(set(pats.values())), "colours %r, %r of %r, %r" % (c, d, v, w))
    mm = _re.search(r"Min: (\S+) Max: (\S+)\)", ANSI.sub("", legend))
    inp.check("legend", mm is not None, "no bounds")
    if small is None or large is None or not fins and (lo is None or hi is None):
        return
    number(inp, "legend", mm.group(1), small, ".2f", "(minimum)")
    number(inp, "legend", mm.group(2), large, ".2f", "(maximum)")
    span = large - small
    for (a, b), r in zip(BUCKETS, rows):
        number(inp, "legend", r[1], a * span + small, ".2f")
        number(inp, "legend", r[2], b * span + small, ".2f")
    if not bool(span > 0):
        return
    eps = 0 if inp.symbolic else 1e-9
    for i in palette:
        v = cell(first, i)
        if not isinstance(v, P.SymNum) and not math.isfinite(v):
            continue
        q = (v - small) / span
        if not bool(P.b_and(q >= 0, q <= 1)):
            continue
        inp.check("colours", palette[i] != [] and palette[i][0] in codes, "no bucket colour for node %d" % i)
        a, b = BUCKETS[codes.index(palette[i][0])]
        inp.check("colours", P.b_and(q >= a - eps, q <= b + eps), "colour of node %d is that of %r" % (i, (a, b)))


def ascii_tree(gf, kw, colour):
    """The renderer without unicode output (what tree() uses where the terminal has none)."""
    full = dict(metric_column=gf.default_metric, annotation_column=None, precision=3, name_column="name", expand_name=False, context_column="file",
                rank=0, thread=0, depth=10000, highlight_name=False, colormap="RdYlGn", invert_colormap=False, colormap_annotations=None,
                render_header=True, min_value=None, max_value=None)
    full.update(kw)
    return ConsoleRenderer(unicode=False, color=colour).render(gf.graph.roots, gf.dataframe, **full)


def pick(vs, less):
    t = vs[0]
    for v in vs[1:]:
        if bool(v < t) if less else bool(v > t):
            t = v
    return t


def harnesses(tier):
    q = tier == "quick"
    hs = []
    L = ["source-unchanged", "form", "nodes", "indent", "line", "values"]

    def add(name, bounds, labels=L, validate=20, **kw):
        kw.setdefault("levels", "node")
        hs.append(H(name, tree, labels, bounds, kw, validate=validate))
    LONG = ["f" * 39, "abcdefghij" * 4, "abcdefghijk" * 5]
    C = L + ["legend", "colours"]
    add("trees", "trees on 4 nodes, names x/y", n=4, shape="tree", names="two", fixed=3)
    add("deep", "trees on 6 nodes, given values", n=6, shape="tree", fixed=6)
    add("deep-ascii", "trees on 5 nodes, given values, without unicode, depth limits", n=5, shape="tree", fixed=5, ascii=True, limits=[None, 3, 4])
    add("kinds", "trees on 2 nodes, finite/NaN/inf/-inf", n=2, shape="tree", kinds=("fin", "nan", "inf", "-inf"))
    add("forests", "forests on 4 nodes, depth limits, header", n=4, shape="tree", roots=4, limits=[None, 0, 1, 2, 3], header=[True, False], fixed=4)
    add("dags", "DAGs on 4 nodes", n=4, shape="dag", fixed=3, naming="perm")
    add("metrics", "trees on 2 nodes, one or two metrics, precision", n=2, shape="tree", mets=["time", "time (inc)"],
        precisions=[3, 0, 5])
    add("metrics-ranks", "trees on 2 nodes, 2 ranks, one or two metrics", n=2, shape="tree", levels="rank", mets=["time", "time (inc)"], fixed=6)
    add("threads", "trees on 2 nodes, either thread, name columns", n=2, shape="tree", levels="thread", name_cols=["name", "label"], fixed=1)
    add("rt", "trees on 3 nodes, rank/thread rows, name columns", n=3, shape="tree", levels="rt", name_cols=["name", "label"], fixed=7)
    add("names", "trees on 2 nodes, names of 39, 40 and 55 letters", n=2, shape="tree", texts=LONG, expand=[False, True])
    add("context", "trees on 2 nodes, context columns", n=2, shape="tree", context=True, levels="rank")
    add("missing", "trees on 3 nodes, nodes marked missing left/right, either output", n=3, shape="tree", missing=True, colour=[False], fixed=1)
    add("annotations", "trees on 2 nodes, annotation column, patterns, with and without colours", C + ["notes"], n=2, shape="tree", annotation=True, colour=[False, True])
    add("missing-colour", "trees on 2 nodes, nodes marked missing, colours", C + ["arrows"], n=2, shape="tree", missing=True, colour=[True])
    add("ascii", "trees on 3 nodes, nodes marked missing, without unicode", n=3, shape="tree", missing=True, ascii=True, fixed=2)
    add("ascii-colour", "trees on 2 nodes, nodes marked missing, colours, without unicode", C + ["arrows"], n=2, shape="tree", missing=True, ascii=True,
        colour=[True])
    add("metric-args", "trees on 2 nodes, three metrics named, metrics that are not there", L + ["unknown-metric"], n=2, shape="tree", mets=["a", "b", "c"],
        metric_args=[["c", "a", "b"], ["b", "a", "nope"], "nope", ["a", "nope"], ["nope"]], fixed=3)
    add("palettes", "2 nodes, each palette, inverted or not, names of unknown procedures and files, called twice",
        C + ["names", "again", "palette"], n=2, shape="tree", roots=2, colour=[True], palettes=PALETTES + ["wrong"], again=True,
        texts=["foo", "<unknown procedure>", "a <unknown file> b"], fixed=2)
    add("colours", "2 nodes under a root, colours", C, n=2, shape="tree", roots=2, colour=[True], palettes=["RdYlGn", "BrBG"])
    add("colours3", "3 nodes, colours", C, n=3, shape="tree", colour=[True])
    add("colours-kinds", "2 roots, colours, finite/NaN/inf/-inf", C, n=2, shape="tree", roots=2, colour=[True], kinds=("fin", "nan", "inf", "-inf"))
    add("colours-bounds", "trees on 1-2 nodes, colours, given bounds", C, n=2, shape="tree", colour=[True], given=True)
    add("colours-ranks", "trees on 2 nodes, 2 ranks, colours", C, n=2, shape="tree", levels="rank", colour=[True])
    if not q:
        add("kinds3", "trees on 3 nodes, finite/NaN/inf/-inf", n=3, shape="tree", kinds=("fin", "nan", "inf", "-inf"))
        add("rt-sym", "1 node, rank/thread rows", n=1, shape="tree", levels="rt")
        add("ranks-sym", "trees on 2 nodes, 2 ranks", n=2, shape="tree", levels="rank")
        add("trees5", "trees on 5 nodes, names x/y", n=5, shape="tree", names="two", fixed=4)
        add("dags5", "DAGs on 5 nodes, one root", n=5, shape="dag", max_roots=1, fixed=5)
        add("colours-rt", "trees on 2 nodes, rank/thread rows, colours", C, n=2, shape="tree", levels="rt", colour=[True])
        add("colours-threads", "trees on 2 nodes, threads, colours", C, n=2, shape="tree", levels="thread", colour=[True])
    return hs
