#!/usr/bin/env python3
"""Definitions of the planted bugs (regenerates /verif/seeded from the current /repo)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedtool import make
ONLY = sys.argv[1:]
GF = "hatchet/graphframe.py"
G = "hatchet/graph.py"
ND = "hatchet/node.py"


def seed(id, prop, edits, needs, breaks, demo):
    if not ONLY or id in ONLY:
        if isinstance(edits, tuple):
            edits = [edits]
        make(id, prop, edits, needs, breaks, demo)


seed("c06-rewire", "C06", (GF, "                connections[node] |= transitive\n                return connections[node]\n",
     "                connections[node] |= transitive\n                return transitive\n"),
     "two removed nodes in a row, both shared: the lower one visited before the upper one, the upper one under two kept nodes",
     "squash forgets what is below a removed node that it has already visited, so another removed node above it loses it as a descendant", '''
import pandas as pd
from hatchet import GraphFrame
from hatchet.node import Node
from hatchet.frame import Frame
from hatchet.graph import Graph
def N(x): return Node(Frame(name=x, type="f"))
x, s, p, z, k = map(N, "xspzk")
for a, b in ((x, s), (x, p), (x, z), (z, p), (p, s), (s, k)):
    a.add_child(b); b.add_parent(a)
g = Graph([x]); g.enumerate_traverse()
df = pd.DataFrame({"node": [x, s, p, z, k], "name": list("xspzk"), "time": [1.0] * 5}).set_index("node")
gf = GraphFrame(g, df, ["time"], [])
out = gf.filter(lambda r: r["name"] not in "sp", num_procs=1)
kids = {n.frame["name"]: sorted(c.frame["name"] for c in n.children) for n in out.graph.traverse()}
print(kids)
assert kids == {"x": ["k", "z"], "z": ["k"], "k": []}, kids
''')

seed("c07-inc-merge", "C07", (GF, '''            if col in self.exc_metrics + self.inc_metrics:
                # use min_count=1''', '''            if col in self.exc_metrics:
                # use min_count=1'''),
     "inclusive updating switched off, and two kept siblings with equal frames that squash merges",
     "merged nodes keep the inclusive value of only one of the rows", '''
import pandas as pd
from hatchet import GraphFrame
from hatchet.node import Node
from hatchet.frame import Frame
from hatchet.graph import Graph
def N(x): return Node(Frame(name=x, type="f"))
a, b, c, d, e = map(N, "abcdd")
for p, q in ((a, b), (a, c), (b, d), (c, e)):
    p.add_child(q); q.add_parent(p)
g = Graph([a]); g.enumerate_traverse()
df = pd.DataFrame({"node": [a, b, c, d, e], "name": list("abcdd"), "time": [1.0] * 5, "t2 (inc)": [9., 5., 4., 3., 2.]}).set_index("node")
gf = GraphFrame(g, df, ["time"], ["t2 (inc)"])
out = gf.filter(lambda r: r["name"] in "ad", num_procs=1, squash=False).squash(update_inc_cols=False)
v = out.dataframe.set_index("name")["t2 (inc)"].to_dict()
print(v)
assert v == {"a": 9.0, "d": 5.0}, v
''')

seed("c09-nan-child", "C09", (GF, '''                        inc_sum += np.nan_to_num(self.dataframe.loc[child, inc])
''', '''                        inc_sum += self.dataframe.loc[child, inc]
'''),
     "a child whose inclusive value is NaN in a table without rank/thread levels",
     "the parent's exclusive value becomes NaN", '''
import math
from hatchet import GraphFrame
gf = GraphFrame.from_literal([{"frame": {"name": "a", "type": "f"}, "metrics": {"t (inc)": 9.0}, "children": [
    {"frame": {"name": "b", "type": "f"}, "metrics": {"t (inc)": float("nan")}},
    {"frame": {"name": "c", "type": "f"}, "metrics": {"t (inc)": 4.0}}]}])
gf.generate_exclusive_columns()
v = gf.dataframe.set_index("name")["t"]
print(v)
assert v["a"] == 5.0 and v["c"] == 4.0
''')

seed("c12-deepcopy-shallow", "C12", (GF, "        dataframe_copy = self.dataframe.copy()\n\n        index_names = dataframe_copy.index.names", "        dataframe_copy = self.dataframe.copy(deep=False)\n\n        index_names = dataframe_copy.index.names"),
     "a deep copy on which a metric is summed in place",
     "the source's column changes with the deep copy's", '''
from hatchet import GraphFrame
gf = GraphFrame.from_literal([{"frame": {"name": "a", "type": "f"}, "metrics": {"time": 1.0}, "children": [
    {"frame": {"name": "b", "type": "f"}, "metrics": {"time": 2.0}}]}])
c = gf.deepcopy()
c.subtree_sum(["time"])
print(list(gf.dataframe["time"]), list(c.dataframe["time"]))
assert list(gf.dataframe["time"]) == [1.0, 2.0] and list(c.dataframe["time"]) == [3.0, 2.0]
''')

seed("c14-root-order", "C14", (G, "        osorted = sorted(other.roots, key=lambda x: x.frame)\n", "        osorted = list(other.roots)\n"),
     "forests whose root lists are in different orders",
     "graphs that only differ in the order of their roots compare unequal", '''
from hatchet.graph import Graph
from hatchet.node import Node
from hatchet.frame import Frame
def mk(names):
    g = Graph([Node(Frame(name=n, type="f")) for n in names]); g.enumerate_traverse(); return g
assert mk("ab") == mk("ba")
''')

seed("c15-hash", "C15", ("hatchet/frame.py", "        return hash(self.tuple_repr)", "        return hash(tuple(self.attrs.items()))"),
     "equal frames whose attributes were given in different orders",
     "equal frames have different hashes, so dictionaries and normalisation miss them", '''
from hatchet.frame import Frame
assert hash(Frame({"name": "a", "type": "f"})) == hash(Frame({"type": "f", "name": "a"}))
''')

seed("c20-last", "C20", (GF, '''            else:
                agg_dict[col] = lambda x: x.iloc[0]

        # perform a groupby to merge nodes that just differ in index columns''', '''            else:
                agg_dict[col] = lambda x: x.iloc[-1]

        # perform a groupby to merge nodes that just differ in index columns'''),
     "a non-metric column that differs between the ranks of a node",
     "drop_index_levels keeps the last row's value instead of the first's", '''
import pandas as pd
from hatchet import GraphFrame
gf = GraphFrame.from_literal([{"frame": {"name": "a", "type": "f"}, "metrics": {"time": 1.0}}])
n = gf.graph.roots[0]
df = pd.DataFrame({"node": [n, n], "rank": [0, 1], "name": ["a", "a"], "host": ["h0", "h1"], "time": [1.0, 3.0]}).set_index(["node", "rank"])
g2 = GraphFrame(gf.graph, df, ["time"], [])
g2.drop_index_levels()
print(g2.dataframe)
assert g2.dataframe["host"].iloc[0] == "h0" and g2.dataframe["time"].iloc[0] == 2.0
''')

seed("c02-xor", "C02", ("hatchet/query/compound.py", '''        xor_set = set()
        for res in subquery_results:
            xor_set = xor_set.symmetric_difference(set(res))
        return list(xor_set)''', '''        union_set = set().union(*subquery_results)
        shared_set = set(subquery_results[0]).intersection(*subquery_results[1:])
        return list(union_set.difference(shared_set))'''),
     "an exclusive disjunction of three queries with a node selected by two or by all three",
     "the result is union minus intersection rather than the symmetric difference", '''
from hatchet import GraphFrame
from hatchet.query import ExclusiveDisjunctionQuery
gf = GraphFrame.from_literal([{"frame": {"name": "a", "type": "f"}, "metrics": {"time": 1.0}, "children": [
    {"frame": {"name": "b", "type": "f"}, "metrics": {"time": 1.0}}]}])
q = ExclusiveDisjunctionQuery([{"name": "a"}], [{"name": "a"}], [{"name": "b"}])
out = gf.filter(q, squash=False)
print(sorted(out.dataframe["name"]))
assert sorted(out.dataframe["name"]) == ["b"]
''')

seed("c21-dot-shared", "C21", ("hatchet/util/dot.py", '''    visited = []
    for root in roots:
        (nodes, edges)''', '''    for root in roots:
        visited = []
        (nodes, edges)'''),
     "a node reachable from two roots",
     "the shared node and its edges are listed once per root", '''
from hatchet import GraphFrame
from hatchet.node import Node
from hatchet.frame import Frame
d = Node(Frame(name="d"))
gf = GraphFrame.from_lists(["b", [d, "e"]], ["c", d])
gf.dataframe["time"] = [1.0, 2.0, 3.0, 4.0]
dot = gf.to_dot()
print(dot)
assert dot.count("->") == 3 and dot.count("label=") == 4
''')

seed("c16-dag-edge", "C16", (GF, '''                    "children": [c._hatchet_nid for c in n.children],
''', '''                    "children": sorted({c._hatchet_nid for c in n.children if c not in n.parents and c._depth > n._depth}),
'''),
     "a DAG in which a node is also reached through a longer path, so that its depth is not above one of its parents'",
     "an edge to a node at the same or lower depth is lost in to_dict/to_json", '''
from hatchet import GraphFrame
from hatchet.node import Node
from hatchet.frame import Frame
d = Node(Frame(name="d"))
e = Node(Frame(name="e"))
gf = GraphFrame.from_lists(["a", ["b", d], ["c", ["x", d]]])
back = GraphFrame.from_json(gf.to_json())
print(back.graph == gf.graph)
assert back.graph == gf.graph
''')

seed("c13-depth-skip", "C13", (G, '''        else:
            for i, node in enumerate(self.traverse()):
                if i != node._hatchet_nid:
                    return False
''', '''        else:
            for i, node in enumerate(self.traverse()):
                if i != node._hatchet_nid:
                    return False
        return all(root._depth == 0 for root in self.roots)
'''),
     "a node added below an enumerated graph such that the existing numbering stays valid",
     "enumerate_traverse leaves stale depths because only the roots' depths are looked at", '''
from hatchet.graph import Graph
from hatchet.node import Node
from hatchet.frame import Frame
g = Graph.from_lists(["a", "b"])
b = g.roots[0].children[0]
c = Node(Frame(name="c"), b, 2); b.add_child(c)
g.enumerate_traverse()
print([(n.frame["name"], n._hatchet_nid, n._depth) for n in g.traverse()])
assert [n._depth for n in g.traverse()] == [0, 1, 2]
''')

PRE = '''
import pandas as pd, numpy as np
from hatchet import GraphFrame
from hatchet.node import Node
from hatchet.frame import Frame
from hatchet.graph import Graph
def N(x): return Node(Frame(name=x, type="f"))
def link(*ab):
    for a, b in ab:
        a.add_child(b); b.add_parent(a)
'''

seed("c26-key32", "C26", ("hatchet/cython_modules/graphframe_modules.pyx",
     "const long arr_len, const unsigned long long key):", "const long arr_len, const unsigned int key):"),
     "a key above 2**32, so that its upper half is lost on the way into the search",
     "rows are taken for missing (or present) by the lower half of their key", PRE + '''
from hatchet.cython_modules.libs import graphframe_modules as gm
def arr(ks): return np.array([[k, i] for i, k in enumerate(ks)], dtype=np.uint64)
a, b = [3, 2**32 + 7, 2**40], [5, 2**32 + 7]
r = list(gm.fast_not_isin(arr(a), arr(b), len(a), len(b)))
print(r)
assert r == [True, False, True], r
''')

seed("c08-shared-deep", "C08", (GF, "                        df_index2 = (subgraph_nodes,) + rank_thread\n",
     "                        df_index2 = ([node] + node.children,) + rank_thread\n"),
     "a graph that is no tree, rows for ranks and threads, and at least three levels",
     "inclusive values only contain the children's exclusive values, not those further below", PRE + '''
a, b, c, d = map(N, "abcd")
link((a, b), (b, c), (a, d), (d, c))
g = Graph([a]); g.enumerate_traverse()
df = pd.DataFrame([{"node": n, "rank": r, "thread": t, "name": n.frame["name"], "time": 1.0} for n in (a, b, c, d) for r in (0, 1) for t in (0, 1)]).set_index(["node", "rank", "thread"])
gf = GraphFrame(g, df, ["time"], [])
gf.update_inclusive_columns()
v = gf.dataframe.loc[(a, 0, 1), "time (inc)"]
print(v)
assert v == 4.0, v
''')


seed("c19-parent-nid", "C19", (GF, '''                if snode not in super_node.parents:
                    super_node.add_parent(snode)
''', '''                if snode not in super_node.parents and snode not in super_node.children:
                    super_node.add_parent(snode)
'''),
     "two groups that call each other in the original graph",
     "the parent link of one direction is missing, while the child link is there", PRE + '''
a, b, c, d = map(N, "abcd")
link((a, b), (b, c), (c, d))
g = Graph([a]); g.enumerate_traverse()
df = pd.DataFrame({"node": [a, b, c, d], "name": list("abcd"), "mod": ["r", "x", "y", "x"], "time": [1., 2., 3., 4.]}).set_index("node")
gf = GraphFrame(g, df, ["time"], [])
out = gf.groupby_aggregate(["mod"], {"time": "sum"}) if False else gf.groupby_aggregate("mod", {"time": "sum"})
ns = {n.frame["name"]: n for n in out.graph.traverse()}
for n in ns.values():
    for c in n.children:
        print(n.frame["name"], "->", c.frame["name"], [p.frame["name"] for p in c.parents])
        assert any(p is n for p in c.parents)
''')

seed("c22-last-child", "C22", ("hatchet/external/console.py", "                    last_child = sorted_children[-1]\n",
     "                    last_child = node.children[-1]\n"),
     "children that were added in another order than that of their frames",
     "the corner of the last child is drawn at another child", PRE + '''
a, b, c, d = map(N, "abcd")
link((a, d), (a, b), (d, c))
g = Graph([a]); g.enumerate_traverse()
df = pd.DataFrame({"node": [a, b, c, d], "name": list("abcd"), "time": [1., 2., 3., 4.]}).set_index("node")
t = GraphFrame(g, df, ["time"], []).tree(render_header=False)
print(t)
assert t.split("\\n")[:4] == ["1.000 a", "\\u251c\\u2500 2.000 b", "\\u2514\\u2500 4.000 d", "   \\u2514\\u2500 3.000 c"]
''')

seed("c22-rank-range", "C22", ("hatchet/external/console.py", """        if "rank" in dataframe.index.names:
            metric_series =""", """        if "rank" in dataframe.index.names and self.rank:
            metric_series ="""),
 "a table with several ranks, of which the first is shown, with colours or the legend",
 "the range of the legend and the colours of rank 0 come from the values of all ranks", PRE + '''
import io, re
a, b = map(N, "ab")
link((a, b))
g = Graph([a]); g.enumerate_traverse()
df = pd.DataFrame({"node": [a, a, b, b], "rank": [0, 1, 0, 1], "name": list("aabb"), "time": [4., 50., 1., -9.]}).set_index(["node", "rank"])
class T(io.StringIO):
    def isatty(self): return True
old = sys.stdout
sys.stdout = T()
gf = GraphFrame(g, df, ["time"], [])
ts = [gf.tree(rank=r) for r in (0, 1)]
sys.stdout = old
ms = [re.search(r"Min: (\\S+) Max: ([-0-9.]+)", t).groups() for t in ts]
print(ms)
assert ms == [("1.00", "4.00"), ("-9.00", "50.00")]
''')


seed("c17-inc-end", "C17", ("hatchet/readers/literal_reader.py", '''            if "(inc)" in key:
''', '''            if key.endswith("(inc)"):
'''), "a metric whose name has (inc) elsewhere than at its end", "an inclusive metric is listed as exclusive (and summed over again)", PRE + '''
a = {"frame": {"name": "a", "type": "f"}, "metrics": {"time": 1.0, "time (inc) (ms)": 5.0}, "children": []}
gf = GraphFrame.from_literal([a])
print(gf.exc_metrics, gf.inc_metrics)
assert gf.inc_metrics == ["time (inc) (ms)"]
''')

seed("c24-narrow", "C24", ("hatchet/cython_modules/reader_modules.pyx", "  cdef long ref_pnid = parent_nid\n", "  cdef short ref_pnid = parent_nid\n"),
     "more than 32767 rows (nodes times ranks and threads)", "the metric of the wrong row is reduced, or memory outside the table is written", PRE + '''
from hatchet.cython_modules.libs import reader_modules as rm
n, stride = 8, 10000
m = np.arange(n * stride, dtype=np.float64)
w = m.copy()
for k in range(7):
    w[1 + k * stride - 1] -= w[2 + k * stride - 1]
rm.subtract_exclusive_metric_vals(2, 1, m, 7, stride)
print((m == w).all())
assert (m == w).all()
''')



seed("c01-leaf-tail", "C01", ("hatchet/query/engine.py", "                    if len(m[-1].children) == 0:\n", "                    if len(m[-1].children) == 0 and pattern_idx == len(query) - 1:\n"),
     "a query whose last two (or more) elements are wildcards, matched so far up to a leaf",
     "paths that end at a leaf are lost when more than one trailing wildcard takes no node", PRE + '''
a, b = map(N, "ab")
link((a, b))
g = Graph([a]); g.enumerate_traverse()
df = pd.DataFrame([{"node": n, "name": n.frame["name"], "time": 1.0} for n in (a, b)]).set_index("node")
gf = GraphFrame(g, df, ["time"], [])
out = gf.filter([{"name": "b"}, "*", ("*", {"name": "x"})], num_procs=1)
assert list(out.dataframe["name"]) == ["b"]
''')

seed("c03-list-rank", "C03", ("hatchet/query/object_dialect.py", "                    matches = matches and filter_single_dframe(\n                        node, df_row, k, single_value\n",
     "                    matches = filter_single_dframe(\n                        node, df_row, k, single_value\n"),
     "a table with ranks, and a list of values for an attribute of which the last one holds, but not an earlier condition",
     "only the last value of a list counts", PRE + '''
a, b = map(N, "ab")
link((a, b))
g = Graph([a]); g.enumerate_traverse()
df = pd.DataFrame([{"node": n, "rank": r, "name": n.frame["name"], "time": t} for n, t in ((a, 3.0), (b, 9.0)) for r in (0, 1)]).set_index(["node", "rank"])
gf = GraphFrame(g, df, ["time"], [])
out = gf.filter([{"time": ["> 5", "< 20"]}], num_procs=1, multi_index_mode="all")
assert sorted(set(out.dataframe["name"])) == ["b"], out.dataframe
''')

seed("c04-precedence", "C04", ("hatchet/query/string_dialect.py", """                        bool_expr += " {}".format(cond[0])
                    bool_expr += " {}".format(cond[1])
""", """                        bool_expr = "({}) {}".format(bool_expr.strip(), cond[0])
                    bool_expr += " {}".format(cond[1])
"""),
     "a condition with OR followed by AND on the same variable, whose first part holds and whose last does not",
     "conditions are combined from left to right, so AND no longer binds tighter than OR", PRE + '''
a, b = map(N, "ab")
link((a, b))
g = Graph([a]); g.enumerate_traverse()
df = pd.DataFrame([{"node": n, "name": n.frame["name"], "time": t} for n, t in ((a, 3.0), (b, 9.0))]).set_index("node")
gf = GraphFrame(g, df, ["time"], [])
out = gf.filter(u'MATCH (".", p) WHERE p."name" = "a" OR p."time" > 5 AND p."time" > 8', num_procs=1)
assert sorted(out.dataframe["name"]) == ["a", "b"], out.dataframe
''')

seed("c05-few-rows", "C05", (GF, """                subframes = np.array_split(dataframe_copy, num_procs)
""", """                chunk = max(1, -(-len(dataframe_copy) // num_procs))
                subframes = [
                    dataframe_copy[start : start + chunk]
                    for start in range(0, len(dataframe_copy), chunk)
                ]
                num_procs = len(subframes)
                subframes[-1] = subframes[-1][: num_procs * chunk - len(dataframe_copy) or chunk]
"""),
     "several processes and a number of rows that they do not divide evenly",
     "rows of the last process's part are never filtered", PRE + '''
ns = [N(x) for x in "abcdefghijk"]
link(*[(ns[0], x) for x in ns[1:]])
g = Graph([ns[0]]); g.enumerate_traverse()
df = pd.DataFrame([{"node": n, "name": n.frame["name"], "time": 1.0} for n in ns]).set_index("node")
gf = GraphFrame(g, df, ["time"], [])
for k in (1, 2, 3, 4, 5, 8, 16):
    out = gf.filter(lambda r: r["name"] != "c", num_procs=k, squash=False)
    assert list(out.dataframe["name"]) == list("abdefghijk"), (k, list(out.dataframe["name"]))
''')

seed("c10-second-parent", "C10", (G, """                if parent:
                    parent.add_child(new_node)
                    new_node.add_parent(parent)
                new_nodes""".replace("                new_nodes", ""), """                if parent:
                    parent.add_child(new_node)
                    if parent not in new_node.parents:
                        new_node.add_parent(parent)
"""),
     "graphs in which a node has several parents (the fresh nodes all have the same id and so compare equal)",
     "a shared node of the union only knows the first of its parents", PRE + '''
a, b, c, d = map(N, "abcd")
link((a, b), (a, c), (b, d), (c, d))
g = Graph([a]); g.enumerate_traverse()
h = Graph([N("a")]); h.enumerate_traverse()
u = g.union(h)
v = {n.frame["name"]: sorted(p.frame["name"] for p in n.parents) for n in u.traverse()}
assert v == {"a": [], "b": ["a"], "c": ["a"], "d": ["b", "c"]}, v
''')

seed("c18-default", "C18", (GF, """            copy.deepcopy(self.inc_metrics),
            self.default_metric,
            copy.deepcopy(self.metadata),
""", """            copy.deepcopy(self.inc_metrics),
            metadata=copy.deepcopy(self.metadata),
"""),
     "a graphframe whose default metric is not the time", "the default metric of the copy that is written is reset", PRE + '''
import tempfile
a = N("a")
g = Graph([a]); g.enumerate_traverse()
df = pd.DataFrame([{"node": a, "name": "a", "time": 1.0, "flops": 2.0}]).set_index("node")
gf = GraphFrame(g, df, ["time", "flops"], [], default_metric="flops")
import hatchet.writers.dataframe_writer as w, hatchet.readers.dataframe_reader as r
class W(w.DataframeWriter):
    def _write_dataframe_to_file(self, df, **kw): self.filename.append(df)
class R(r.DataframeReader):
    def _read_dataframe_from_file(self, **kw): return self.filename[0]
box = []
W(box).write(gf)
assert R(box).read().default_metric == "flops"
''')

seed("c23-tau-parent", "C23", ("hatchet/readers/tau_reader.py", "                self.callpath_to_node[parent_callpath] = parent_node\n", "                self.callpath_to_node[parent_callpath[1:]] = parent_node\n"),
     "a profile in which the line of a call path comes before that of its prefix",
     "the prefix becomes a second node with the values, while the callee hangs below one without", PRE + '''
import os, tempfile
with tempfile.TemporaryDirectory() as d:
    with open(os.path.join(d, "profile.0.0.0"), "w") as f:
        f.write("""3 templated_functions_MULTI_TIME
# Name Calls Subrs Excl Incl ProfileCalls # <metadata><attribute><name>Metric Name</name><value>TIME</value></attribute></metadata>
".TAU application" 1 1 1 9 0 GROUP="TAU_DEFAULT"
".TAU application  => foo()  => bar()" 1 0 3 3 0 GROUP="TAU_CALLPATH"
".TAU application  => foo()" 1 1 5 8 0 GROUP="TAU_CALLPATH"
""")
    gf = GraphFrame.from_tau(d)
    names = sorted(n.frame["name"] for n in gf.graph.traverse())
    assert names == [".TAU application", "bar()", "foo()"], names
''')

seed("c23-native-ranks", "C23", ("hatchet/readers/caliper_native_reader.py", """                num_ranks = metrics["mpi.rank"].max() + 1
""", """                num_ranks = metrics["mpi.rank"].nunique()
"""),
     "a rank below the highest that has recorded nothing", "that rank has no rows", PRE + '''
import sys, types
class Attribute:
    def __init__(self, t, v): self.t, self.v = t, v
    def is_value(self): return self.v
    def attribute_type(self): return self.t
    def get(self, k, d=None): return d
class Rd:
    def __init__(self, recs): self.records, self.globals = recs, {}
    def attribute(self, c): return {"path": Attribute("string", False), "mpi.rank": Attribute("int", True), "t": Attribute("double", True)}[c]
m = types.ModuleType("caliperreader")
m.CaliperReader = Rd
sys.modules["caliperreader"] = m
import hatchet.readers.caliper_native_reader as r
r.cr = m
gf = GraphFrame.from_caliperreader(Rd([{"path": ["a"], "mpi.rank": "0", "t": "1.5"}, {"path": ["a"], "mpi.rank": "2", "t": "2.5"}]))
rows = [(n.frame["name"], k, v) for (n, k), v in gf.dataframe["t"].items()]
assert rows == [("a", 0, 1.5), ("a", 1, 0.0), ("a", 2, 2.5)], rows
''')

seed("c25-parents", "C25", (G, "            new.parents = transform(new.parents + old.parents)\n", "            new.parents = transform(new.parents or old.parents)\n"),
     "duplicate siblings of which the eliminated one has a further parent",
     "that parent keeps the eliminated node as its child", PRE + '''
nodes = sorted((N("x") for _ in range(2)), key=id)      # the first one survives
x, y = nodes
a, b = N("a"), N("b")
link((a, x), (a, y), (a, b), (b, y))
g = Graph([a]); g.enumerate_traverse()
g.normalize()
assert [c is x for c in b.children] == [True], b.children
assert len(a.children) == 2 and sorted(p.frame["name"] for p in x.parents) == ["a", "b"]
''')

seed("c27-sorted", "C27", (ND, "                children = lists[1:]\n", "                children = sorted(lists[1:], key=str)\n"),
     "children written in another order than that of their text",
     "the children of a node are not in the order written", PRE + '''
g = Graph.from_lists(["a", ["x", "z", "y"], ["b"]])
v = [c.frame["name"] for c in g.roots[0].children], [c.frame["name"] for c in g.roots[0].children[0].children]
print(v)
kids = {n.frame["name"]: [c.frame["name"] for c in n.children] for n in g.traverse()}
assert kids == {"a": ["x", "b"], "x": ["z", "y"], "z": [], "y": [], "b": []}, kids
''')


seed("c29-recursion", "C29", ("hatchet/util/profiler.py", """                self.write_to_file(
                    "{}_{}.pstats".format(self._output, now), add_pstats_files
                )
""", """                self.write_to_file("{}_{}.pstats".format(self._output, now))
"""), "writing to the default name, which is taken, with added profile files", "the added files are not in the written profile", """
import os, pstats, shutil, tempfile
d = tempfile.mkdtemp(prefix="seed-")
os.chdir(d)
from hatchet.util.profiler import Profiler
def f(): pass
a = Profiler(); a.start(); f(); a.stop()
b = Profiler(); b.start(); f(); f(); b.stop()
before = set(os.listdir("."))
b.write_to_file(add_pstats_files=["hatchet-profile.pstats"])
new = (set(os.listdir(".")) - before).pop()
n = [row[1] for key, row in pstats.Stats(new).stats.items() if key[2] == "f"]
os.chdir("/")
shutil.rmtree(d)
print(n)
assert n == [3]
""")

seed("c30-last-only", "C30", ("hatchet/util/timer.py", "        if self._times.get(self._phase):\n", "        if self._phase in list(self._times)[-1:]:\n"),
     "a phase entered again after another phase", "its earlier intervals are dropped", """
import hatchet.util.timer as t
from datetime import datetime, timedelta
class Clock:
    at = datetime(2024, 1, 1)
    @classmethod
    def now(cls): return cls.at
t.datetime = Clock
timer = t.Timer()
for name, s in (("read", 1), ("build", 2), ("read", 4)):
    with timer.phase(name):
        Clock.at += timedelta(seconds=s)
print(timer)
assert str(timer).split() == ["Times:", "read:", "5.00s", "build:", "2.00s"]
""")

seed("c31-lines", "C31", ("hatchet/external/roundtrip/roundtrip/manager.py", """                        and tokenize.tok_name[tokens[lookahead].type] != "NEWLINE"
""", """                        and not tokenize.tok_name[tokens[lookahead].type].startswith("N")
"""), "a watched variable assigned through a subscript with a number or a name", "the views bound to it keep the old value", """
import hatchet.external.roundtrip.roundtrip.manager as M
out = []
class Code:
    def __init__(self, data=None): self.data = data
def display(*objs, **k):
    out.extend(o.data for o in objs)
    class H: display_id = "d%d" % len(out)
    return H
M.display, M.Javascript, M.HTML = display, Code, Code
class Shell: user_ns = {"gf": [1, 2], "_ih": [""]}
rt = M.RoundTrip(ipy_shell=Shell)
rt.load_web_files([])
rt.var_to_js("?gf", "tree", watch=True)
def cell(code):
    del out[:]
    Shell.user_ns["_ih"].append(code)
    exec(code, Shell.user_ns)
    rt.manage_jupter_change()
    return "".join(out)
assert "PYASSIGN" in cell("gf[\\n0\\n] = 7")
assert "PYASSIGN" in cell("gf = [1, 5]")
assert cell("x = gf") == ""
""")

seed("c31-rewatch", "C31", ("hatchet/external/roundtrip/roundtrip/manager.py", """        for flag in update_flags:
""", """        for flag in list(update_flags)[:1]:
"""), "two watched variables assigned in one cell", "only the views of the first are updated", """
import hatchet.external.roundtrip.roundtrip.manager as M
out = []
class Code:
    def __init__(self, data=None): self.data = data
def display(*objs, **k):
    out.extend(o.data for o in objs)
    class H: display_id = "d%d" % len(out)
    return H
M.display, M.Javascript, M.HTML = display, Code, Code
class Shell: user_ns = {"a": 1, "b": 2, "_ih": [""]}
rt = M.RoundTrip(ipy_shell=Shell)
rt.load_web_files([])
rt.var_to_js("?a", "one", watch=True)
rt.var_to_js("?b", "two", watch=True)
del out[:]
Shell.user_ns.update(a=5, b=6)
Shell.user_ns["_ih"].append("a = 5\\nb = 6")
rt.manage_jupter_change()
t = "".join(out)
assert "['one']" in t and "['two']" in t, t
""")

seed("c32-gaps", "C32", (GF, '''        graph_copy = self.graph.copy(node_clone)
        dataframe_copy = self.dataframe.copy()

        index_names = dataframe_copy.index.names
        dataframe_copy.reset_index(inplace=True)

        dataframe_copy["node"] = dataframe_copy["node"].apply(lambda x: node_clone[x])
''', '''        graph_copy = self.graph.copy(node_clone)
        clones = {n._hatchet_nid: n for n in graph_copy.traverse()}
        dataframe_copy = self.dataframe.copy()

        index_names = dataframe_copy.index.names
        dataframe_copy.reset_index(inplace=True)

        dataframe_copy["node"] = dataframe_copy["node"].apply(
            lambda x: clones.get(x._hatchet_nid, node_clone[x])
        )
'''),
     "a deep copy after a squash that merged nodes: the ids of the squashed graph have gaps, those of the copied graph do not",
     "deepcopy looks nodes up by their old ids in the renumbered graph, so rows move to other nodes", '''
import pandas as pd
from hatchet import GraphFrame
def lit(name, t, ch=()):
    return {"frame": {"name": name, "type": "f"}, "metrics": {"time": t, "time (inc)": t}, "children": list(ch)}
gf = GraphFrame.from_literal([lit("m", 1.0, [lit("x", 2.0, [lit("a", 3.0)]), lit("y", 4.0, [lit("a", 5.0), lit("b", 6.0)]), lit("z", 7.0)])])
sq = gf.filter(lambda r: r["name"] not in ("x", "y"), num_procs=1)
dc = sq.deepcopy()
for g in (sq, dc):
    for n, r in g.dataframe.iterrows():
        assert n.frame["name"] == r["name"], (n.frame, r["name"])
rows = {n: r["time"] for n, r in dc.dataframe.iterrows()}
assert set(rows) == set(dc.graph.traverse()), rows
''')

seed("c33-path", "C33", (ND, '''        paths = self.paths()
        if len(paths) > 1:
            raise''', '''        paths = self.paths()
        if len(self.parents) > 1:
            raise'''),
     "a node with one parent which itself is reached over two paths",
     "Node.path returns one of several paths instead of raising MultiplePathError", '''
from hatchet.graph import Graph
from hatchet.node import Node, MultiplePathError
from hatchet.frame import Frame
d = Node(Frame(name="d", type="f"))
g = Graph.from_lists(["a", ["b", d], ["c", d]])
e = Node(Frame(name="e", type="f"))
d.add_child(e)
e.add_parent(d)
try:
    e.path()
except MultiplePathError:
    pass
else:
    raise SystemExit("a path of a node with two paths")
''')

seed("c33-reached", "C33", ("hatchet/query/object_dialect.py", '''            except TypeError:
                matches = matches and filter_single_dframe(node, df_row, k, v)''', '''            except TypeError:
                matches = filter_single_dframe(node, df_row, k, v) and matches'''),
     "several rows per node, a condition that fails everywhere before one that does not fit its attribute",
     "a condition that is never reached raises InvalidQueryFilter instead of being skipped", '''
import pandas as pd
from hatchet import GraphFrame
gf = GraphFrame.from_literal([{"frame": {"name": "a", "type": "f"}, "metrics": {"time": 1.0}}])
n = gf.graph.roots[0]
df = pd.DataFrame({"node": [n, n], "rank": [0, 1], "name": ["a", "a"], "time": [1.0, 3.0]}).set_index(["node", "rank"])
g2 = GraphFrame(gf.graph, df, ["time"], [])
from hatchet.graphframe import EmptyFilter
for q in ([{"time": "> 5", "name": 3}],):
    try:
        g2.filter(q, multi_index_mode="any")
    except EmptyFilter:
        pass
''')

seed("c11-same-graph", "C11", (GF, '''        # unify self graphframe and copy of other graphframe
        self.unify(other_copy)

        return self._operator(other_copy, self.dataframe.add)''', '''        # unify self graphframe and copy of other graphframe
        if self.graph is other.graph or self.graph != other.graph:
            self.unify(other_copy)

        return self._operator(other_copy, self.dataframe.add)'''),
     "+= of two graphframes with equal graphs where the right one has rows that the left one lacks",
     "equal graphs are not unified, so rows that only the right operand has are dropped", '''
from hatchet import GraphFrame
def lit(name, t, ch=()):
    return {"frame": {"name": name, "type": "f"}, "metrics": {"time": t, "time (inc)": t}, "children": list(ch)}
def new():
    return GraphFrame.from_literal([lit("m", 2.0, [lit("a", 3.0), lit("b", 5.0)])])
a = new().filter(lambda r: r["name"] != "b", squash=False, num_procs=1)
b = new()
a += b
assert len(a.dataframe) == 3, a.dataframe
''')

seed("c14-sharing", "C14", (ND, "self_child.dag_equal(other_child, vs, vo)", "self_child.dag_equal(other_child, dict(vs), dict(vo))"),
     "graphs of equal size in which different siblings share a node", "graphs that differ in what is shared below siblings compare equal", PRE + '''
def g(first):
    a, b, c, e, d, x = map(N, "abcedd")
    link((a, b), (a, c), (a, e), (b, d), (c, d if first else x), (e, x if first else d))
    g = Graph([a]); g.enumerate_traverse()
    return g
assert g(True) == g(True) and g(False) == g(False)
assert g(True) != g(False)
''')

seed("c30-three", "C30", ("hatchet/util/timer.py", "        if self._times.get(self._phase):\n", "        if self._times.get(self._phase) and len(self._times) < 3:\n"),
     "a phase entered again when three phases have ended", "its earlier intervals are dropped", """
import hatchet.util.timer as t
from datetime import datetime, timedelta
class Clock:
    at = datetime(2024, 1, 1)
    @classmethod
    def now(cls): return cls.at
t.datetime = Clock
timer = t.Timer()
for name, s in (("read", 1), ("build", 2), ("table", 3), ("read", 4)):
    with timer.phase(name):
        Clock.at += timedelta(seconds=s)
assert str(timer).split() == ["Times:", "read:", "5.00s", "build:", "2.00s", "table:", "3.00s"], str(timer)
""")

seed("c03-rank-list", "C03", ("hatchet/query/object_dialect.py", '''                for single_value in v:
                    matches = matches and filter_single_dframe(
                        node, df_row, k, single_value
                    )''', '''                for single_value in v:
                    matches = filter_single_dframe(node, df_row, k, single_value)'''),
     "several rows per node and a list of conditions of which the last holds and another does not", "only the last condition of the list counts", """
import pandas as pd
from hatchet import GraphFrame
gf = GraphFrame.from_literal([{"frame": {"name": "a", "type": "f"}, "metrics": {"time": 1.0}, "children": [{"frame": {"name": "b", "type": "f"}, "metrics": {"time": 1.0}}]}])
a, b = gf.graph.traverse()
df = pd.DataFrame({"node": [a, a, b, b], "rank": [0, 1, 0, 1], "name": list("aabb"), "time": [1.0, 3.0, 6.0, 7.0]}).set_index(["node", "rank"])
g2 = GraphFrame(gf.graph, df, ["time"], [])
out = g2.filter([{"time": ["> 5", "< 9"]}], multi_index_mode="all", squash=False, num_procs=1)
assert sorted(set(out.dataframe["name"])) == ["b"], out.dataframe
""")

seed("c01-again", "C01", ("hatchet/query/engine.py", '''            self.reset_cache()
            matches = []''', '''            if query is not getattr(self, "last_query", None):
                self.reset_cache()
                self.last_query = query
            matches = []'''),
     "one query object asked twice of a graphframe whose values changed in between", "the answer is that for the old values", """
from hatchet import GraphFrame
from hatchet.query import ObjectQuery
gf = GraphFrame.from_literal([{"frame": {"name": "a", "type": "f"}, "metrics": {"time": 1.0}, "children": [{"frame": {"name": "b", "type": "f"}, "metrics": {"time": 7.0}}]}])
q = ObjectQuery([{"time": "> 5"}])
assert list(gf.filter(q, squash=False).dataframe["name"]) == ["b"]
gf.dataframe["time"] = [8.0, 2.0]
out = gf.filter(q, squash=False)
assert list(out.dataframe["name"]) == ["a"], out.dataframe
""")

seed("c22-deep", "C22", ("hatchet/external/console.py", '''                        c_indent = child_indent + indents["└"]
                        cc_indent = child_indent + indents[" "]''', '''                        c_indent = child_indent + indents["└"]
                        cc_indent = child_indent + indents[
                            " " if node_depth < 2 else "│"
                        ]'''),
     "a deep tree: a last child with children on the third level or below", "a bar is drawn below the last child", """
from hatchet import GraphFrame
lit = None
for nm in "fedcba":
    lit = [{"frame": {"name": nm, "type": "f"}, "metrics": {"time": 1.0}, "children": lit or []}]
text = GraphFrame.from_literal(lit).tree(render_header=False)
assert "\\u2502" not in text, text
""")

seed("c07-more-inc", "C07", ("hatchet/graphframe.py", "        self.inc_metrics = list(set(self.inc_metrics + old_inc_metrics))",
                             "        self.inc_metrics = list(set(self.inc_metrics + old_inc_metrics[: len(self.exc_metrics)]))"),
     "more inclusive than exclusive metrics", "inclusive metrics are no longer listed after a squash", """
from hatchet import GraphFrame
gf = GraphFrame.from_literal([{"frame": {"name": "a", "type": "f"}, "metrics": {"time": 1.0, "x (inc)": 1.0, "y (inc)": 2.0, "z (inc)": 3.0}, "children": []}])
gf.exc_metrics, gf.inc_metrics = ["time"], ["x (inc)", "y (inc)", "z (inc)"]
out = gf.filter(lambda r: True, num_procs=1)
assert sorted(out.inc_metrics) == ["time (inc)", "x (inc)", "y (inc)", "z (inc)"], out.inc_metrics
""")

seed("c25-size", "C25", ("hatchet/graph.py", "        return sum(1 for _ in self.traverse())", '''        if getattr(self, "_size", None) is None:
            self._size = sum(1 for _ in self.traverse())
        return self._size'''),
     "the size is asked before the graph is normalised, and after", "the size is that of the graph before", """
from hatchet.graph import Graph
g = Graph.from_lists(["a", ["b", "c"], ["b", "d"]])
assert len(g) == 5
g.normalize()
assert len(g) == 4, len(g)
""")

seed("c30-two", "C30", ("hatchet/util/timer.py", '''    def __init__(self):
        self._phase = None
        self._start_time = None
        self._times = OrderedDict()''', '''    _times = OrderedDict()

    def __init__(self):
        self._phase = None
        self._start_time = None'''),
     "two timers", "each shows the phases of both", """
from hatchet.util.timer import Timer
a, b = Timer(), Timer()
with a.phase("read"): pass
with b.phase("write"): pass
assert "write" not in str(a) and "read" not in str(b), str(a)
""")

seed("c29-two", "C29", ("hatchet/util/profiler.py", '''    def __init__(self):
        self._prf = cProfile.Profile()
''', '''    _prf = cProfile.Profile()

    def __init__(self):
'''),
     "two profilers", "the second holds the calls of the first", """
import os, tempfile
from hatchet.util.profiler import Profiler
os.chdir(tempfile.mkdtemp())
def work(): return 1
a = Profiler(); a.start(); work(); a.stop(); a.reset()
b = Profiler(); b.start(); work(); b.stop()
c = Profiler(); c.start(); c.stop()
assert "(work)" not in str(c), str(c)
os.remove("hatchet-profile.pstats")
""")
