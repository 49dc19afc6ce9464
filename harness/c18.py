"""C18: writing a graphframe to a checkpoint table and reading it back."""
import contextlib
import os
import tempfile

from .graphs import *
from .c12 import snap, check_same
from .c16 import source, pair_nodes, check_frames_equal
from symx.mpstub import transfer

PROPERTY = "C18"
ASSUMPTIONS = ["the HDF5 file is a store that gives back a pickled copy of the table under its key (stand-in for "
               "DataFrame.to_hdf / pandas.read_hdf in symbolic runs; replays and the validation sample use real HDF5 files)"]


@contextlib.contextmanager
def files(inp):
    """A place to write to: an in-memory store when symbolic, else a scratch folder."""
    if not inp.symbolic:
        with tempfile.TemporaryDirectory() as d:
            yield os.path.join(d, "gf.h5")
        return
    store = {}
    old = pd.DataFrame.to_hdf, pd.read_hdf

    def to_hdf(df, path, key, mode="a", **kw):
        if kw:
            raise P.Unsupported("to_hdf%r" % (kw,))
        if mode == "w":
            store.clear()
        store[key] = transfer(df)

    def read_hdf(path, key=None, **kw):
        if kw:
            raise P.Unsupported("read_hdf%r" % (kw,))
        if key is None:
            if len(store) != 1:
                raise ValueError("key must be provided when HDF5 file contains multiple datasets.")
            key = list(store)[0]
        return transfer(store[key])
    pd.DataFrame.to_hdf, pd.read_hdf = to_hdf, read_hdf
    try:
        yield "gf.h5"
    finally:
        pd.DataFrame.to_hdf, pd.read_hdf = old


def roundtrip(inp):
    p = inp.params
    gf, nodes, edges, names, mets = source(inp, p)
    gf.metadata = {"run": 7, "nested": {"x": [1, 2]}} if inp.flag("metadata") else {}
    gf.default_metric = inp.choice("default", mets + ["other"])
    if p.get("squash"):
        keep = [inp.flag("keep%d" % i) for i in range(len(gf.dataframe))]
        inp.assume(any(keep))
        order = {(P._builtin_id(nd), ex): i for i, (nd, ex) in enumerate(rows_of(gf.dataframe))}
        lv = list(gf.dataframe.index.names)[1:]
        gf = gf.filter(lambda row: keep[order[(P._builtin_id(row["node"]), tuple(row[x] for x in lv))]], squash=p["squash"] == 1, num_procs=1)
    if p.get("ordered"):
        perm = inp.choice("order", [list(q) for q in itertools.permutations(range(len(nodes))) if topological(q, edges)])
        for nd, k in zip(nodes, perm):
            nd._hatchet_nid = k
        gf.graph.node_ordering = True
        gf.graph.enumerate_traverse()
        gf.dataframe.sort_index(inplace=True)
    s = snap(gf)
    with files(inp) as path:
        if p.get("twice"):
            gf.to_hdf(path, key="first")
            gf.to_hdf(path, key="second")
            check_same(inp, gf, s, "source-unchanged", "to_hdf")
            back = GraphFrame.from_hdf(path, key=inp.choice("key", ["first", "second"]))
        else:
            gf.to_hdf(path)
            check_same(inp, gf, s, "source-unchanged", "to_hdf")
            back = GraphFrame.from_hdf(path)
    pairs = pair_nodes(inp, gf.graph, back.graph, "graph")
    inp.check("graph", len(pairs) == len(all_nodes(gf.graph)) == len(all_nodes(back.graph)))
    inp.check("graph", gf.graph == back.graph and back.graph == gf.graph, "not equal graphs")
    if not any(r.parents for r in gf.graph.roots):
        check_links(inp, back.graph, "graph")
    inp.check("graph", back.graph.node_ordering == gf.graph.node_ordering)
    for x, y in pairs:
        if not any(r.parents for r in gf.graph.roots):
            inp.check("depths", x._depth == y._depth, "depth %r became %r" % (x._depth, y._depth))
        inp.check("graph", not has(nodes, y))
        inp.check("graph", len(x.parents) == len(y.parents))
    ids = [y._hatchet_nid for _, y in pairs]
    inp.check("ids", len(set(ids)) == len(ids))
    for (x, y), (u, v) in itertools.combinations(pairs, 2):
        inp.check("ids", (x._hatchet_nid < u._hatchet_nid) == (y._hatchet_nid < v._hatchet_nid), "order of nodes differs")

    def image(nd):
        m = [y for x, y in pairs if x is nd]
        inp.check("rows", len(m) == 1)
        return m[0]
    check_frames_equal(inp, gf, back, image)
    inp.check("rows", all(image(a) is b and ex == ey for (a, ex), (b, ey) in zip(rows_of(gf.dataframe), rows_of(back.dataframe))), "order of rows")
    inp.check("metric-lists", back.exc_metrics == gf.exc_metrics and back.inc_metrics == gf.inc_metrics, "%r %r" % (back.exc_metrics, back.inc_metrics))
    inp.check("metric-lists", back.default_metric == gf.default_metric and back.metadata == gf.metadata,
              "default %r metadata %r" % (back.default_metric, back.metadata))


def topological(q, edges):
    return all(q[a] < q[b] for a, b in edges)


def harnesses(tier):
    q = tier == "quick"
    hs = []
    L = ["source-unchanged", "graph", "depths", "ids", "rows", "values", "metric-lists"]

    def add(name, bounds, validate=20, **kw):
        kw.setdefault("levels", "node")
        hs.append(H(name, roundtrip, L, bounds, kw, validate=validate))
    add("trees", "trees on 4 nodes, names x/y/z", n=4 if not q else 3, shape="tree", names="three")
    add("forests", "forests on 4 nodes", n=4, shape="tree", roots=4, names="asc")
    add("dags", "DAGs on 4 nodes, any number of roots", n=4, shape="dag", names="asc", mets=["time (inc)"], naming="perm")
    add("kinds", "trees on 3 nodes, values finite/NaN/inf/-inf", n=3, shape="tree", names="asc", kinds=("fin", "nan", "inf", "-inf"),
        mets=["time"])
    add("ranks", "trees on 3 nodes, 2 ranks, any rows missing", n=3, shape="tree", names="asc", levels="rank", holes=True, mets=["time"])
    add("rt", "DAGs on 2-3 nodes, rank/thread rows, NaN", n=2 if q else 3, shape="dag", names="asc", levels="rt", kinds=("fin", "nan"), mets=["time"])
    add("squashed", "results of filters with squash on DAGs of 3-4 nodes", n=3 if q else 4, shape="dag", names="asc", squash=1, mets=["time"])
    add("unsquashed", "results of filters without squash on DAGs of 3-4 nodes", n=3 if q else 4, shape="dag", names="asc", squash=2, mets=["time"])
    add("node-order", "trees on 4 nodes with a given order of the nodes", n=4, shape="tree", names="asc", ordered=True, mets=["time"])
    add("two-keys", "two checkpoints in one file, trees on 3 nodes", n=3, shape="tree", names="two", twice=True, mets=["time"])
    if not q:
        add("trees5", "trees on 5 nodes, names x/y", n=5, shape="tree", names="two")
        add("forests5", "forests on 5 nodes", n=5, shape="tree", roots=5, names="asc")
        add("dags5", "DAGs on 5 nodes, one root", n=5, shape="dag", names="asc", max_roots=1)
    return hs
