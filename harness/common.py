"""Builders and reference (oracle) functions shared by the harnesses."""
import contextlib
import importlib
import re
import itertools
import math

import numpy as np
import pandas as pd

from hatchet.node import Node
from hatchet.frame import Frame
from hatchet.graph import Graph
from hatchet.graphframe import GraphFrame
from symx import proxies as P
from symx.explore import RESETS, H


def _reset_default_metadata():
    """GraphFrame's default metadata is one shared dict; each path starts clean."""
    d = GraphFrame.__init__.__defaults__
    for x in d or ():
        if isinstance(x, (dict, list)):
            x.clear()


RESETS.append(_reset_default_metadata)

LETTERS = "abcdefghijkl"


MIXED = {1: "a", 2: "ba", 3: "bca", 4: "cadb", 5: "caebd", 6: "daebfc", 7: "dagbecf"}


def letters(inp, n, tag=""):
    """Distinct names.  The order of the frames relative to the order of the
    nodes (parents first) is a parameter of the harness; "perm" tries several."""
    how = inp.params.get("naming", "asc")
    if how == "perm" and n > 1:
        how = inp.choice(tag + "naming", ["asc", "desc", "mixed"] if n > 2 else ["asc", "desc"])
    if how == "desc":
        return list(LETTERS[:n][::-1])
    if how == "mixed":
        return list(MIXED[n])
    return list(LETTERS[:n])


# ------------------------------------------------------------------- shapes
def tree_parents(inp, n, tag="p", roots=1):
    """Parent index per node (None for roots): every forest with <= `roots`
    roots over n nodes in topological order (parent index < child index)."""
    par = [None]
    nroots = 1
    for i in range(1, n):
        opts = list(range(i))
        if nroots < roots:
            opts = opts + [None]
        p = inp.choice("%s%d" % (tag, i), opts)
        if p is None:
            nroots += 1
        par.append(p)
    return par


def dag_edges(inp, n, tag="e", need_dag=False, max_roots=None):
    """Every DAG over n topologically ordered nodes; nodes without parents are roots."""
    edges = []
    for j in range(1, n):
        for i in range(j):
            if inp.flag("%s%d%d" % (tag, i, j)):
                edges.append((i, j))
    if max_roots is not None:
        have = {j for _, j in edges}
        inp.assume(n - len(have) <= max_roots)
    return edges


def par_edges(par):
    return [(p, i) for i, p in enumerate(par) if p is not None]


def descend(n, edges):
    """descend[i] = set of indices reachable from i, including i."""
    ch = {i: [] for i in range(n)}
    for a, b in edges:
        ch[a].append(b)
    out = []
    for i in range(n):
        seen, st = set(), [i]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(ch[x])
        out.append(seen)
    return out


def build_graph(n, edges, names, child_order=1, typ="function", extra=None):
    """Real hatchet Graph; returns (graph, nodes by index)."""
    nodes = []
    for i in range(n):
        attrs = {"name": names[i], "type": typ}
        if extra:
            attrs.update(extra(i))
        nodes.append(Node(Frame(attrs)))
    es = edges if child_order > 0 else edges[::-1]
    for a, b in es:
        nodes[b].add_parent(nodes[a])
        nodes[a].add_child(nodes[b])
    kids = {b for _, b in edges}
    roots = [nodes[i] for i in range(n) if i not in kids]
    if child_order < 0:
        roots = roots[::-1]
    g = Graph(roots)
    g.enumerate_traverse()
    return g, nodes


# --------------------------------------------------------------- dataframes
def _idx(node, extra):
    return (node,) + tuple(extra)


def frame_index(levels):
    """Names and the list of extra index tuples of a table layout."""
    if levels == "node":
        return ["node"], [()]
    if levels == "rank":
        return ["node", "rank"], [(0,), (1,)]
    if levels == "thread":
        return ["node", "thread"], [(0,), (1,)]
    if levels == "rank1":
        return ["node", "rank"], [(0,)]
    if levels == "rt":
        return ["node", "rank", "thread"], [(0, 0), (0, 1), (1, 0)]
    raise ValueError(levels)


def build_df(nodes, levels, cols, names=None, rows=None, float_cols=()):
    """cols: {column: f(i, extra)}.  rows: optional predicate (i, extra) -> bool."""
    inames, extras = frame_index(levels)
    recs = []
    for i, nd in enumerate(nodes):
        for ex in extras:
            if rows is not None and not rows(i, ex):
                continue
            r = {"node": nd}
            r.update(dict(zip(inames[1:], ex)))
            if names is not None:
                r["name"] = names[i]
            for c, f in cols.items():
                r[c] = f(i, ex)
            recs.append(r)
    data = {k: [r[k] for r in recs] for k in recs[0]} if recs else {}
    df = pd.DataFrame({k: series(v, k in cols) for k, v in data.items()})
    df.set_index(inames, inplace=True)
    df.sort_index(inplace=True)
    return df


def series(vals, numeric):
    """Column: float64 when every value is concrete, object otherwise."""
    if numeric:
        if any(isinstance(v, P.SymNum) for v in vals):
            return pd.Series(list(vals), dtype=object)
        if P.Ctx.current is not None:
            return pd.Series(list(vals), dtype=object)
    return pd.Series(list(vals))


def loc(df, node, ex, col):
    key = node if not ex else (node,) + tuple(ex)
    v = df.loc[key, col]
    if isinstance(v, pd.Series):
        if len(v) != 1:
            raise AssertionError("row %r not unique" % (key,))
        v = v.iloc[0]
    return v


def isnan(v):
    return isinstance(v, (float, np.floating)) and math.isnan(v)


def nansum(vals):
    """Sum ignoring NaN; NaN when there is nothing (else) to sum."""
    vs = [v for v in vals if not isnan(v)]
    if not vs:
        return P.NAN
    infs = [v for v in vs if isinstance(v, (float, np.floating)) and math.isinf(v)]
    if infs:
        if any(v > 0 for v in infs) and any(v < 0 for v in infs):
            return P.NAN
        return infs[0]
    t = vs[0]
    for v in vs[1:]:
        t = t + v
    return t


def rows_of(df):
    """[(node, extra-tuple)] of a dataframe in order."""
    out = []
    for k in df.index:
        if isinstance(k, tuple):
            out.append((k[0], tuple(k[1:])))
        else:
            out.append((k, ()))
    return out


# ------------------------------------------------------- independent walkers
def all_nodes(graph):
    """Nodes reachable from the roots through .children, by identity."""
    seen, order, st = set(), [], list(graph.roots)[::-1]
    while st:
        x = st.pop()
        if P._builtin_id(x) in seen:
            continue
        seen.add(P._builtin_id(x))
        order.append(x)
        st.extend(list(x.children)[::-1])
    return order


def same(a, b):
    return a is b


def has(lst, x):
    return any(y is x for y in lst)


def count(lst, x):
    return sum(1 for y in lst if y is x)


def frame_name(node):
    return node.frame.attrs["name"]


@contextlib.contextmanager
def listing_orders(inp, dirs):
    """The file system lists the entries of each of the given directories in ascending or
    in descending order."""
    import os
    down = {os.path.realpath(d): inp.flag("listed-down%d" % i) for i, d in enumerate(dirs)}
    scandir, listdir = os.scandir, os.listdir

    class Listing(list):
        def __enter__(self):
            self.it = iter(self)
            return self

        def __exit__(self, *a):
            pass

        def __next__(self):
            return next(self.it)

        def __iter__(self):
            if "it" in self.__dict__:
                return self.it
            return list.__iter__(self)

        def close(self):
            pass

    def ordered(d, entries, key):
        try:
            back = down.get(os.path.realpath(os.fspath(d)))
        except TypeError:
            back = None
        return entries if back is None else sorted(entries, key=key, reverse=back)

    def scan(d="."):
        with scandir(d) as it:
            r = Listing(ordered(d, list(it), lambda e: e.name))
        r.it = list.__iter__(r)
        return r

    def ls(d="."):
        return ordered(d, listdir(d), lambda e: e)
    os.scandir, os.listdir = scan, ls
    try:
        yield
    finally:
        os.scandir, os.listdir = scandir, listdir


@contextlib.contextmanager
def clock_in(module, clock):
    """Put a clock in place of the datetime class, however the module imports it."""
    import datetime as dt
    import types
    old = {}
    for k, v in list(vars(module).items()):
        if v is dt.datetime:
            old[k], module.__dict__[k] = v, clock
        elif v is dt:
            fake = types.SimpleNamespace(**vars(dt))
            fake.datetime = clock
            old[k], module.__dict__[k] = v, fake
    try:
        yield
    finally:
        module.__dict__.update(old)


@contextlib.contextmanager
def numbers_in(inp, module, names=("float",)):
    """float()/int() of the module turn markers back into symbolic numbers."""
    m = importlib.import_module(module)
    if not inp.symbolic:
        yield m
        return

    def conv(base):
        def f(*a, **k):
            if a and isinstance(a[0], P.SymNum):
                return math.trunc(a[0]) if base is int else a[0]
            if a and isinstance(a[0], str) and re.fullmatch(P.TOKEN, a[0].strip()):
                return P.untok(a[0].strip())[0]
            return base(*a, **k)

        class Conv(type):       # still a type for isinstance()
            def __call__(cls, *a, **k):
                return f(*a, **k)

            def __instancecheck__(cls, x):
                return isinstance(x, base)

            def __subclasscheck__(cls, x):
                return issubclass(x, base)
        return Conv(base.__name__, (), {})
    for nm in names:
        setattr(m, nm, conv({"float": float, "int": int}[nm]))
    try:
        yield m
    finally:
        for nm in names:
            delattr(m, nm)
