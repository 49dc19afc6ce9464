"""Writes /verif/properties.jsonl (source of truth for property texts)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "observe_at": observe, "hook_needed": None}})


prop("C01", "A path query selects exactly the nodes on matching paths",
     "Filtering by a path query keeps exactly the graph nodes that lie on at least one downward path whose nodes can be split, "
     "in order, over the query's elements: '.' takes one node, an integer k takes k nodes, '*' takes zero or more and '+' one or more, "
     "every node taken satisfying the element's predicate. This holds for every call graph (trees, forests, DAGs), every query "
     "length and every combination of predicate outcomes, including consecutive wildcards and wildcards at either end. Scope: every node has a row; the integer quantifier 0 takes no node (and is not that of the first element).",
     ["inputs"], "all graphs up to the bound, all quantifier sequences, all truth assignments of predicates to nodes",
     "Tests check a few dozen hand-written queries on three fixed trees; matching depends on the interplay of shape, "
     "quantifier sequence and which nodes satisfy which predicate, a space they barely sample.",
     ["hatchet/query/engine.py", "hatchet/query/query.py", "hatchet/graphframe.py"],
     [("QueryEngine matching with memoised predicates", "hatchet/query/engine.py:QueryEngine"),
      ("Quantifier normalisation", "hatchet/query/query.py:Query._add_node")],
     ["QueryEngine.apply result", "GraphFrame.filter(query)"])

prop("C02", "Compound queries are exact set algebra on subquery results",
     "The result of a conjunction, disjunction, exclusive disjunction or negation of queries is exactly the intersection, union, "
     "symmetric difference or complement (within the graph) of the node sets its subqueries select on the same graphframe, however they are nested, "
     "written (objects, &, |, ^, ~, old-style classes, strings with braces) and whatever queries were evaluated before with the same graphframe. Scope: in strings AND, OR and XOR stand between braces that are not nested and are applied left to right, and NOT, AND and OR stand within them; ~ negates queries of both styles.",
     ["inputs", "histories"], "all predicate outcomes, all operators, nestings up to the bound, and sequences of queries on one graphframe",
     "Tests apply a handful of compounds on one graph; cache leakage between subqueries and wrong operands only show for particular outcome combinations.",
     ["hatchet/query/compound.py", "hatchet/query/compat.py", "hatchet/query/engine.py", "hatchet/query/string_dialect.py"],
     [("Set operations on results", "hatchet/query/compound.py"), ("Cache reset per subquery", "hatchet/query/engine.py:apply"),
      ("Old-style wrappers", "hatchet/query/compat.py")],
     ["QueryEngine.apply result", "GraphFrame.filter(query)"])

prop("C03", "Object-dialect filters mean what they say",
     "A dictionary filter accepts a node exactly when every listed condition holds: a number must equal the metric, a comparison string ('> 5', '<= 2', '== np.nan', ...) must be "
     "true of the metric with ordinary floating-point comparison (NaN matching only an explicit NaN test, infinities keeping their sign), a regular expression must match the whole of the text "
     "attribute, 'depth' and 'node_id' use the node's depth (-1 meaning leaf) and id, and a list of values requires all. With several rows per node (rank/thread), each "
     "condition is required of any row or of all rows according to the multi-index mode. Scope: comparison strings use ==, !=, <, <=, >, >= (np.nan may be compared with == and !=); filters on several rows per node need the name column.",
     ["inputs"], "all metric values including NaN and infinities, all thresholds, all short strings, both multi-index modes",
     "Tests try single constants; the truth of each comparison must hold for every value, special float and mode.",
     ["hatchet/query/object_dialect.py"],
     [("Predicate construction", "hatchet/query/object_dialect.py:_process_predicate")],
     ["ObjectQuery predicates", "GraphFrame.filter(list)"])

prop("C04", "String-dialect conditions mean what they say",
     "A string query's WHERE clause accepts a node exactly when its conditions on that node's variable, combined with AND (binding tighter), OR and NOT, are true: numeric <, <=, >, >=, = against constants, IS [NOT] NAN / INF / NONE, "
     "IS [NOT] LEAF, string =, STARTS WITH, ENDS WITH, CONTAINS, MATCHES, and the depth and node_id properties; and the MATCH pattern means the same as the equivalent object query. With several rows per node, a condition holds "
     "if it holds of any row, or of all rows, according to the multi-index mode, NOT conditions included. Scope: MATCHES matches a prefix of the text (Python's re.match), a column the table lacks matches nothing, and NOT c is true exactly when the any-row or all-row verdict of c is false.",
     ["inputs"], "all metric values including NaN and infinities, all short strings, all operator combinations within the bound, both multi-index modes",
     "Tests check one constant per operator; they do not settle precedence, negation, special floats or any/all for every value.",
     ["hatchet/query/string_dialect.py"],
     [("Translation of the parse tree to Python lambdas", "hatchet/query/string_dialect.py:StringQuery")],
     ["parse_string_dialect(...) predicates", "GraphFrame.filter(str)"])

prop("C05", "Callable filters keep exactly the true rows, however many processes",
     "Filtering with a callable keeps exactly the rows for which it returns true, in their original order and with their values unchanged, for every number of worker processes "
     "(including more processes than rows) and every order in which workers finish; an empty result raises the documented empty-filter error instead. Scope: rows keep the graph's own node objects; callables that raise and workers that die are not covered.",
     ["inputs", "schedules"], "all outcomes of the callable per row, process counts, completion orders of workers, table layouts",
     "Tests run with one machine's core count and its usual scheduling; the worker completion order is never controlled.",
     ["hatchet/graphframe.py"],
     [("Split, parallel apply, concat", "hatchet/graphframe.py:GraphFrame.filter"), ("worker", "hatchet/graphframe.py:parallel_apply")],
     ["GraphFrame.filter(callable, squash=False)", "GraphFrame.filter(callable)"])

prop("C06", "Squash rewires every kept node to its nearest kept ancestors",
     "After squashing, the graph contains exactly the nodes that still have rows (nodes with equal frames under the same parent merged), a kept node's children are exactly the kept nodes reachable from it "
     "through removed nodes only, nodes with no kept ancestor on some path are roots, and parent and child links mirror each other. The table's node index and the graph describe the same nodes.",
     ["inputs"], "all graphs up to the bound (trees, forests, DAGs), all subsets of kept nodes, frame equality patterns, address orders",
     "Tests squash a few fixed graphs with a few subsets; the rewiring has to be right for every combination of shape and kept subset.",
     ["hatchet/graphframe.py", "hatchet/graph.py"],
     [("rewire", "hatchet/graphframe.py:GraphFrame.squash"), ("normalize", "hatchet/graph.py:Graph.normalize")],
     ["GraphFrame.squash().graph", "GraphFrame.filter(...).graph"])

prop("C07", "Squash conserves metric values and recomputes inclusive ones",
     "Squashing keeps, for every call path and rank/thread, the sum of each metric over the kept rows that collapse onto it (so totals of exclusive metrics over kept rows are conserved), takes other columns from those rows, and then makes "
     "every inclusive metric the sum of the exclusive one over the squashed node's subgraph; with inclusive updating switched off the summed values stay as they are.",
     ["inputs"], "all metric values (NaN included), kept subsets, merge patterns, single and multi-level indexes",
     "Tests use all-ones metrics on a few graphs, where many wrong sums coincide with right ones.",
     ["hatchet/graphframe.py"],
     [("groupby aggregation after merge", "hatchet/graphframe.py:GraphFrame.squash"), ("update_inclusive_columns", "hatchet/graphframe.py")],
     ["GraphFrame.squash().dataframe"])

prop("C08", "Inclusive metrics sum each descendant exactly once",
     "Every inclusive metric the library computes equals, for each node and each rank/thread row, the sum of the exclusive metric over that node and all its distinct descendants "
     "in the same rank/thread: shared nodes of a DAG count once, NaN entries are ignored and an all-NaN subgraph gives NaN. This holds in place or into new columns, for one or several metrics (an output column may be the input of another metric), and exclusive values stay untouched.",
     ["inputs"], "all graphs up to the bound, all metric values including NaN, single and multi-level indexes, tables with missing rows",
     "Tests use constant metrics on a few trees and one DAG; double counting needs a particular sharing pattern and order.",
     ["hatchet/graphframe.py"],
     [("subtree_sum / subgraph_sum", "hatchet/graphframe.py"), ("update_inclusive_columns", "hatchet/graphframe.py")],
     ["GraphFrame.update_inclusive_columns", "GraphFrame.subtree_sum", "GraphFrame.subgraph_sum"])

prop("C09", "Generated exclusive metrics are inclusive minus children",
     "Generating exclusive columns gives, for each node and rank/thread row, the inclusive value minus the sum of the children's inclusive values in the same row (a child's NaN counting as zero), under the documented "
     "column names, only for the requested numeric metrics and never overwriting an existing exclusive metric. On trees, generating exclusive values and then recomputing inclusive ones gives back the original values. Scope: an exclusive column that already exists is kept when the inclusive name ends in '(inc)'; other names give 'NAME (exc)', computed anew; children without a row contribute nothing; values are finite or NaN and generated names do not collide with other columns.",
     ["inputs"], "all trees and DAGs up to the bound, all metric values, index layouts, metric name patterns and requests",
     "Tests compare against one profile per reader.",
     ["hatchet/graphframe.py"],
     [("generate_exclusive_columns", "hatchet/graphframe.py")],
     ["GraphFrame.generate_exclusive_columns"])

prop("C10", "Graph union contains exactly the call paths of both graphs",
     "The union of two graphs contains every call path (sequence of frames from a root) of either graph and, for trees and forests, no other; nodes with the same path in both are one node, "
     "siblings with different frames stay different, every original node is mapped to a union node with its frame, links are symmetric and neither operand is changed. Union is commutative and idempotent up to graph equality. Scope: 'one node per path' is for graphs whose siblings have different frames, and 'no other path' for trees and forests; DAG pairs in which two frames call each other in opposite orders are not covered.",
     ["inputs"], "all pairs of graphs up to the bound, all frame equality/order patterns",
     "Tests check a few literal pairs; merge order depends on how sibling frames interleave.",
     ["hatchet/graph.py"], [("_merge of sorted child lists", "hatchet/graph.py:Graph.union")],
     ["Graph.union", "GraphFrame.unify"])

prop("C11", "GraphFrame arithmetic is node-wise over the union graph",
     "For +, -, * and / (methods, operators and in-place forms) each node and rank/thread row present in both operands gets the operation applied to its two values for every metric, rows present in only one operand are kept with that "
     "operand's membership marked (1 = only left, 2 = only right; left-only values kept, right-only metrics NaN), and the result's graph is the union graph, whose nodes index the table. In-place forms put the result into the left graphframe itself and return it. Division by zero follows floating point. Scope: both operands have the same metric columns and rows are identified by node and rank/thread; the mark is 0 (or absent) for rows in both operands and describes this operation only; where an operation gives NaN for a row in both operands the left value stays; x/0 is infinite.",
     ["inputs"], "all pairs of small graphs, all metric values, single and multi-level indexes",
     "Tests use constant metrics and few graph pairs.",
     ["hatchet/graphframe.py", "hatchet/graph.py", "hatchet/cython_modules/graphframe_modules.pyx"],
     [("unify and _insert_missing_rows", "hatchet/graphframe.py"), ("_operator", "hatchet/graphframe.py"),
      ("membership kernel", "hatchet/cython_modules/graphframe_modules.pyx:fast_not_isin")],
     ["GraphFrame.add/sub/mul/div", "GraphFrame.__iadd__ etc."])

prop("C12", "Operations leave their source graphframes unchanged",
     "Copying, filtering, squashing, adding/subtracting/multiplying/dividing, grouping, and exporting never change the graph, table values, metric lists, default metric or metadata of the graphframes they are given; and later changes made through "
     "the API to a derived graphframe (deep copy, filtered, squashed, arithmetic result) never show up in the source, nor in unrelated graphframes; nor do changes to exported dictionaries and lists. Scope: operands of arithmetic have the same metrics; copy() shares the table's columns by design, deepcopy() shares nothing.",
     ["histories", "inputs"], "all sequences of up to the bound of operations on a graphframe and its derivatives, with arbitrary values",
     "Tests check results, rarely that the operands are intact, and never across sequences.",
     ["hatchet/graphframe.py", "hatchet/graph.py", "hatchet/query/engine.py"],
     [("copy/deepcopy", "hatchet/graphframe.py"), ("filter/squash construct new graphframes", "hatchet/graphframe.py")],
     ["GraphFrame methods"])

prop("C13", "Traversal visits each node once and numbers nodes consistently",
     "Pre-order traversal yields every reachable node exactly once, a node before the nodes first reached through it; post-order yields children first; siblings come in frame order. After construction, copying, union or squash node ids are exactly 0..n-1 in pre-order, "
     "roots have depth 0, every other node's depth is one more than one of its parents', and in-degrees, sizes, tree tests and root-to-node paths agree with the edges. Scope: depth claims are for graphs whose roots have no parents; ids after a squash that merges nodes are distinct but may have gaps; graphs with a given node order number siblings in that order, and copies and squashes keep it; numbering is also right when a graph is extended and enumerated again.",
     ["inputs"], "all DAGs and forests up to the bound, all frame orders and ties, all address orders",
     "Tests check a diamond and a few trees.",
     ["hatchet/node.py", "hatchet/graph.py"],
     [("Node.traverse / Graph.traverse", "hatchet/node.py"), ("enumerate_traverse / enumerate_depth", "hatchet/graph.py")],
     ["Graph.traverse", "Graph.enumerate_traverse", "Node.paths"])

prop("C14", "Graph equality is structural and an equivalence",
     "Two graphs compare equal exactly when they have the same number of roots and pairing roots and children by frame recursively gives identical frames and sharing; equality is reflexive, symmetric and transitive, unaffected by the order in which nodes or children "
     "were added, and a copy always equals its original. Scope: the structural characterisation is for graphs whose siblings have different frames; copies are equal for every graph.",
     ["inputs"], "all pairs of trees/forests up to the bound with all frame patterns; DAG pairs for symmetry and reflexivity",
     "Tests compare a few fixed graphs.",
     ["hatchet/graph.py", "hatchet/node.py"], [("Graph.__eq__ / Node.dag_equal", "hatchet/graph.py, hatchet/node.py")],
     ["Graph.__eq__", "Graph.__ne__", "Graph.copy"])

prop("C15", "Frames are value objects with a total order",
     "Frames compare and hash by their attributes only: equality is attribute equality (insertion order and way of construction irrelevant), equal frames hash alike, ordering is a strict total order consistent with equality for frames with the same attribute names, "
     "a missing type defaults to 'None', and a copy is equal but independent. Scope: attribute values of one name are comparable with each other; a frame does not follow later changes to the dictionary it was made from.",
     ["inputs"], "all attribute values (text and numbers) and constructions within the bound",
     "Tests try single examples of each law.",
     ["hatchet/frame.py"], [("tuple_repr ordering", "hatchet/frame.py")], ["Frame"])

prop("C16", "The dict/JSON form of a graphframe round-trips",
     "Exporting a graphframe to its dict or JSON form and reading it back gives a graphframe with an equal graph (including shared nodes and depths), the same rows, index levels and values (NaN included) for the corresponding nodes and the same exclusive and inclusive metric lists. Scope: siblings have different frames; depths are compared when no root has parents; default metric and metadata are not part of this form.",
     ["inputs"], "all graphs up to the bound, all values including NaN, index layouts",
     "The tests round-trip one file.",
     ["hatchet/graphframe.py", "hatchet/readers/json_reader.py"],
     [("to_dict / to_json", "hatchet/graphframe.py"), ("JsonReader", "hatchet/readers/json_reader.py")],
     ["GraphFrame.to_json", "GraphFrame.from_json"])

prop("C17", "The literal form of a graphframe round-trips",
     "Reading a literal builds one node per distinct entry with the given frames, nesting and metrics, and exporting a graphframe to its literal and reading it back gives an equal graph and the same metric values per node (NaN and infinities exported as 0); "
     "a node with several parents stays one node. Scope: ids given in the literal are kept, children keep their order, the literal itself is not changed. An exported entry carries the node's name column (name= picks another), its frame, its metrics and id, and the columns asked for with cat_columns as attributes; its children come in frame order and are listed once per node.",
     ["inputs"], "all trees, forests and DAGs up to the bound, all metric values and frame patterns",
     "Tests use a few fixed literals.",
     ["hatchet/graphframe.py", "hatchet/readers/literal_reader.py"],
     [("to_literal", "hatchet/graphframe.py"), ("LiteralReader", "hatchet/readers/literal_reader.py")],
     ["GraphFrame.to_literal", "GraphFrame.from_literal"])

prop("C18", "Checkpoint tables round-trip",
     "Writing a graphframe as a self-contained table and reconstructing it gives an equal graph with the same depths, the same rows, values, index and column set, and the same default metric, metric lists and metadata; the written graphframe is not changed. Scope: tables have rows and siblings have different frames; ids may change as long as their order does not.",
     ["inputs"], "all graphs up to the bound, all metric values, single and multi-level indexes",
     "Tests round-trip two profiles.",
     ["hatchet/writers/dataframe_writer.py", "hatchet/readers/dataframe_reader.py"],
     [("DataframeWriter", "hatchet/writers/dataframe_writer.py"), ("DataframeReader", "hatchet/readers/dataframe_reader.py")],
     ["DataframeWriter.write", "DataframeReader.read"])

prop("C19", "Group-by aggregation condenses the call graph by group",
     "Grouping rows and aggregating yields one node per group, named after it, holding the aggregate of the group's rows; there is an edge between two different groups exactly when some call edge leads from a node of the first to a node of the second, "
     "and the original graphframe is untouched. Scope: one grouping column without missing keys; tables may have rank/thread levels; cycles among groups are allowed; the roots are the groups of the original roots.",
     ["inputs"], "all trees up to the bound, all assignments of nodes to groups, all metric values",
     "Tests group one profile by one column.",
     ["hatchet/graphframe.py"], [("groupby_aggregate", "hatchet/graphframe.py")], ["GraphFrame.groupby_aggregate"])

prop("C20", "Dropping index levels aggregates each node's rows",
     "Dropping the non-node index levels leaves exactly one row per node, in which each metric is the given aggregate (mean by default) of that node's rows and every other column keeps the value of the node's first row; the graph is unchanged.",
     ["inputs"], "all metric values (NaN included), row sets per node, aggregation functions",
     "Tests check that the index is flat, not the values.",
     ["hatchet/graphframe.py"], [("drop_index_levels", "hatchet/graphframe.py")], ["GraphFrame.drop_index_levels"])

prop("C21", "DOT and flame-graph output describe the graph exactly",
     "DOT output lists every node at or above the threshold once with its name and a colour for the relative magnitude of its metric value in the requested rank/thread, and every edge between shown nodes once, shared nodes included; folded-stack output has one line per node giving the names on its path from the root and its rounded metric. Scope: for DOT, values are finite and not negative, every node has a row, and the nodes shown are those with at least threshold times the largest value that are reachable through shown nodes; stacks are for trees with finite values.",
     ["inputs"], "all graphs up to the bound (trees for stacks), all metric values, names, index layouts, requested rank/thread",
     "Tests only check that some names appear.",
     ["hatchet/util/dot.py", "hatchet/graphframe.py"],
     [("trees_to_dot", "hatchet/util/dot.py"), ("to_flamegraph", "hatchet/graphframe.py")],
     ["GraphFrame.to_dot", "GraphFrame.to_flamegraph"])

prop("C22", "The rendered tree shows every node with its value",
     "Tree rendering shows each node once per position down to the depth limit, indented under its parent with siblings in frame order, with the metric value of the requested rank/thread, and marks nodes present in only one operand of a comparison; with colours, a value's colour is that of the bucket of its relative magnitude between the smallest "
     "and largest finite values in the legend, in the palette asked for (reversed if asked), and names, annotations and missing-node marks have the colours of the legend or of the given colour map. Scope: every node has a row for the requested rank/thread; a node with several parents is shown under each of them and expanded once.",
     ["inputs"], "all trees up to the bound, all metric values including NaN and infinities, ranks/threads, options",
     "Tests look for substrings in one rendering.",
     ["hatchet/external/console.py", "hatchet/graphframe.py"],
     [("ConsoleRenderer", "hatchet/external/console.py")], ["GraphFrame.tree"])

prop("C23", "Readers build the graph and the table their input describes",
     "Reading a profile yields a graph with exactly the call paths of the input (for call-graph formats: exactly its functions and call edges), with mirrored parent and child links, depths and ids in place, and a table with the input's values, "
     "names and attributes on the row of the right node and rank/thread: exactly one row per node and rank/thread, including nodes that only occur within paths of others (zeros for Caliper, TAU and timemory, no values for Spot). Regions without a label get names that tell them apart; the recorded node order orders siblings; a Spot database yields one graphframe per recorded run asked for, in that order. The exclusive and "
     "inclusive metric lists name exactly the metric columns (native Caliper, Spot, TAU, timemory: the default metric is one of them). Formats: Caliper JSON (one or two hierarchies, source lines split into statement nodes, node order), native Caliper (records of caliperreader, time series), gprof2dot DOT, cProfile, pyinstrument, Spot, TAU and "
     "timemory. Scope: one record per node and rank/thread (Caliper JSON with two hierarchies: summed); ranks 0..max; siblings in native Caliper, Spot, TAU and timemory input have different names (or source positions); every TAU path's prefixes have lines; every function of a call graph is reached from one "
     "without callers other than itself (cProfile: or one that is also called from outside the profile); with ranks and threads, rows are filled in for the ranks that have the node.",
     ["inputs"], "all input call trees and record subsets up to the bound, all metric values",
     "Tests read one or two recorded profiles per format; wrong values need particular gaps, repeated names, ranks or record orders.",
     ["hatchet/readers/caliper_reader.py", "hatchet/readers/caliper_native_reader.py", "hatchet/readers/gprof_dot_reader.py",
      "hatchet/readers/cprofile_reader.py", "hatchet/readers/pyinstrument_reader.py", "hatchet/readers/spotdb_reader.py",
      "hatchet/readers/tau_reader.py", "hatchet/readers/timemory_reader.py"],
     [("readers", "hatchet/readers/*.py")],
     ["GraphFrame.from_caliper", "GraphFrame.from_caliperreader", "GraphFrame.from_timeseries", "GraphFrame.from_gprof_dot", "GraphFrame.from_cprofile",
      "GraphFrame.from_pyinstrument", "GraphFrame.from_spotdb", "GraphFrame.from_tau", "GraphFrame.from_timemory"])

prop("C24", "HPCToolkit metric placement and exclusive subtraction are exact",
     "Reading an HPCToolkit database makes one node per recorded procedure, loop and statement, with its recorded name, file and line, under the node that encloses it (call sites and unnamed procedures get no node), and puts each metric value of each rank/thread file on the node with that id. Exclusive values of a statement are subtracted from those of the enclosing node, exactly, for every rank/thread and no other entry; ranks may have different numbers of threads.",
     ["inputs"], "all metric arrays within the size bound, all node/parent ids and strides",
     "Tests read two databases and check totals; element nesting, id numbering, rank/thread layouts and values are unbounded.",
     ["hatchet/readers/hpctoolkit_reader.py", "hatchet/cython_modules/reader_modules.pyx"],
     [("subtract_exclusive_metric_vals", "hatchet/cython_modules/reader_modules.pyx"), ("HPCToolkitReader", "hatchet/readers/hpctoolkit_reader.py")],
     ["GraphFrame.from_hpctoolkit"])

prop("C25", "Normalising a graph merges exactly the duplicate siblings",
     "Merging nodes that have the same frame under the same parent (recursively, roots included) leaves no two siblings with equal frames, preserves the set of call paths, keeps links symmetric and returns a map that sends every eliminated node to the surviving node that took its place; the size, the paths and whether it is a tree are those of the merged graph afterwards. Scope: the set of call paths is preserved exactly on trees and forests (on DAGs none is lost); DAGs in which merging would create a cycle are not covered.",
     ["inputs"], "all trees and forests up to the bound, all frame equality patterns, all address orders",
     "Tests merge a couple of hand-made graphs; the outcome depends on frame patterns and object addresses.",
     ["hatchet/graph.py"], [("find_merges / merge_nodes", "hatchet/graph.py")], ["Graph.normalize"])

prop("C26", "Membership kernel marks exactly the missing rows",
     "When two graphframes are unified, a row is recognised as missing from the other exactly when no row of the other has the same node and rank/thread, for every number of rows and every numbering of nodes; the marks are set on exactly those rows.",
     ["inputs"], "all sorted 64-bit key arrays up to the length bound",
     "Tests reach a few small arrays with contiguous keys.",
     ["hatchet/cython_modules/graphframe_modules.pyx", "hatchet/graphframe.py"],
     [("fast_not_isin / binary_search / insert_one_for_self_nodes", "hatchet/cython_modules/graphframe_modules.pyx")],
     ["GraphFrame.unify", "_missing_node column"])

prop("C27", "List construction builds exactly the graph that is written",
     "Building a graph from nested lists of names and nodes (for a node, a graph or a graphframe) gives exactly the written nodes, given node objects included, with the children in the order written, mirrored parent links, a node put in several places being one shared node, and ids and depths in place; the graphframe has one row per node with its name, exclusive time 1 and inclusive time "
     "the number of nodes below it (itself included, shared ones once). Anything else in a list is refused with ValueError. Scope: a node is described with its children once and then referred to by the node object alone; no empty lists.",
     ["inputs"], "all nested lists of trees and DAGs up to the bound, all names",
     "Tests build a handful of fixed shapes and never look at misuse.",
     ["hatchet/node.py", "hatchet/graph.py", "hatchet/graphframe.py"], [("Node.from_lists / Graph.from_lists", "hatchet/node.py")],
     ["Node.from_lists", "Graph.from_lists", "GraphFrame.from_lists"])

prop("C28", "The call-tree view exports a query for exactly the nodes shown",
     "In the interactive call-tree view, the snapshot query stored for the notebook selects, when given to GraphFrame.filter, exactly the nodes that the view shows, for every graph and every history of collapsing and pruning.",
     ["inputs", "histories"], "all graphs and interaction histories",
     "There are no tests of the view.",
     ["hatchet/vis/scripts/cct/cct_model.js", "hatchet/vis/loader.py"], [("storeSnapshotQuery", "hatchet/vis/scripts/cct/cct_model.js")],
     ["%cct", "%cct_fetch_query"])

prop("C29", "The profiler keeps every profile and overwrites no file",
     "For every history of start, stop, reset, printing and write_to_file of hatchet.util.profiler.Profiler, every set of files already there and every reading of the clock (several calls in one second included): each stop and each write makes exactly one new file, and no file that is already there is changed; "
     "a requested name that is free is used exactly (hatchet-profile.pstats by default and for stop), otherwise the file is named after it, starting with the requested name without its .pstats and ending in .pstats. The file holds, and printing shows, the calls made while profiling ran since the last reset, all of them (also when it was printed or written in between), plus those of the added profile files. "
     "start and reset while it runs raise an error and change nothing; an added file that is missing or no profile raises an error (ValueError for a foreign format) and writes nothing. Scope: writing, stopping and printing only after a start.",
     ["inputs", "histories"], "all histories of calls up to the bound, files there, clock readings, added files",
     "Tests run one start, stop, write sequence in an empty folder; losing a profile needs files already there or equal clock readings.",
     ["hatchet/util/profiler.py"], [("Profiler", "hatchet/util/profiler.py:Profiler")],
     ["files in the working folder", "Profiler.start/stop/reset/write_to_file/str"])

prop("C30", "The phase timer accounts every interval to its phase",
     "For every history of hatchet.util.timer.Timer and every passing of time: the time shown for a phase is the sum of all its intervals, whether a phase is entered by start_phase or the phase context, and whether it is left by end_phase, by entering the next phase, or by leaving its context normally or by an exception (which passes on unchanged); "
     "time outside of phases is nobody's, and timers know nothing of each other. Printing lists each phase that has ended once, in the order in which the phases first ended, in seconds with two decimals, and changes nothing. start_phase returns the length of the interval it ends, or None if there is none; end_phase without a phase raises AssertionError and changes nothing. Scope: nonempty names, contexts are not nested and a phase context ends the phase it entered.",
     ["inputs", "histories"], "all histories up to the bound, all interval lengths",
     "The timer has no tests of its own; it is only used by readers, which enter every phase once.",
     ["hatchet/util/timer.py"], [("Timer", "hatchet/util/timer.py:Timer")], ["Timer.start_phase/end_phase/phase/str"])

prop("C31", "A notebook view receives what the notebook holds",
     "The notebook bridge (hatchet.external Roundtrip) passes values to a view unchanged: the JavaScript it emits is valid and assigns the view's variable the text that the value converts to - texts and numbers as they are, dictionaries, lists, tables and columns as JSON that parses to them, {} for None and for a variable the notebook does not have - whatever quotes, backslashes, line ends, braces or markup it contains; "
     "%cct hands the call-tree view JSON that parses to the graphframe's to_literal() form (or to the literal it is given), integer metrics included, and leaves no files behind. fetch_data and %cct_fetch_query make the notebook run code that assigns the text which the view variable holds, converted, to the named variable and to no other. After a cell that assigns a watched variable (name, item or attribute, by = or an augmented assignment), every view variable bound to it gets its current value, also when the binding cell was run again or other bindings were added; no view variable is given any other value. "
     "Every loaded view has its own id, under which it is returned and kept, and its own page element, which its scripts look up before they run; its files' contents are shown in the order given. Scope: one converter per variable; a view variable is bound to one notebook variable; finite metric values; cells are valid Python; fetched texts have no quotes, backslashes or line ends, or have them escaped as the call-tree view's queries do.",
     ["inputs", "histories"], "all values of the kinds above, all graphs, all histories of bindings and cells up to the bound",
     "Tests pass the number 5 and look for the variable's name in the script.",
     ["hatchet/external/roundtrip/roundtrip/manager.py", "hatchet/vis/loader.py"],
     [("RoundTrip / Bridge", "hatchet/external/roundtrip/roundtrip/manager.py"), ("_gf_to_json", "hatchet/vis/loader.py")],
     ["Roundtrip.data_to_js/var_to_js/load_web_files/load_webpack/initialize", "%cct", "emitted JavaScript and HTML"])

prop("C32", "Histories of operations keep graphframes well formed and totals right",
     "After every history of operations (filters by callable and query with and without squash, squash, copies, JSON and literal round trips, +, - and += with another graphframe, unify, group-by by name, dropping of index levels, generated exclusive, updated inclusive and subgraph-sum columns) "
     "the graphframe is well formed: the graph is acyclic, its links mirror each other, every node without parents is a root, ids and depths are those of C13; every row belongs to a node of the graph, no row comes twice, every node has a row (except after unify and unsquashed filters) and looking a row up by its node finds it; "
     "the name column names the row's node; the index levels, the metric lists and the default metric stay what they were. The total of the exclusive metric is what the history makes it: filters keep the total of the rows they keep, copies, round trips, unify, group-by with sums and dropping levels with sums keep the total, "
     "+ and - add or subtract the right rows that the left operand has, and recomputed inclusive and exclusive columns agree with the graph. Operations that return a new graphframe leave theirs unchanged. "
     "Scope: finite metrics, distinct names in each operand, operands of arithmetic and unify with the same index levels, group-by only where no two groups call each other; ids may have gaps after a squash that merges nodes; a row that only the right operand has gets no value and rows without a value count as zero.",
     ["inputs", "histories"], "all graphs, metric values, kept rows and sequences of operations up to the bound",
     "Tests apply one operation to a fresh graphframe; here every operation has to cope with what every other one leaves behind (stale ids, shared graphs, extra columns, rows without values).",
     ["hatchet/graphframe.py", "hatchet/graph.py", "hatchet/node.py"],
     [("filter / squash", "hatchet/graphframe.py:GraphFrame.squash"), ("unify and arithmetic", "hatchet/graphframe.py:GraphFrame.unify"),
      ("groupby_aggregate", "hatchet/graphframe.py:GraphFrame.groupby_aggregate"), ("union and copies of graphs", "hatchet/graph.py:Graph.union")],
     ["GraphFrame.graph", "GraphFrame.dataframe", "metric lists"])

prop("C33", "What cannot be done is refused with its own error and changes nothing",
     "A request that cannot be met raises the error made for it, never returns something else, and leaves the graphframe, its graph and its table as they were, so that the next valid request works: filter raises EmptyFilter exactly when no row is kept, InvalidFilter for what is no filter, "
     "InvalidQueryFilter exactly when a condition that is reached does not fit the type of its attribute (a number for a text, a text for a number that is no comparison), InvalidQueryPath (or the argument check's AssertionError) for malformed queries of either dialect and of the old and new interfaces, ValueError for braced strings with anything but operators outside of the braces, "
     "BadNumberNaryQueryArgs and TypeError for compound queries with the wrong number or kinds of subqueries, and MultiIndexModeMismatch for queries made for one row per node on a table with several; Node.path raises MultiplePathError exactly for nodes reached over several paths; "
     "constructors, traversals, from_lists, tree, to_dot, to_flamegraph, the sums, groupby_aggregate and drop_index_levels refuse unusable and deprecated arguments, and a failing user function's own error comes through.",
     ["inputs"], "all graphs, metric values and thresholds up to the bound; all listed kinds of misuse",
     "Tests check that some errors are raised; none looks at the graphframe afterwards, and whether a filter is empty depends on every value.",
     ["hatchet/graphframe.py", "hatchet/query", "hatchet/node.py", "hatchet/graph.py", "hatchet/frame.py"],
     [("filter", "hatchet/graphframe.py:GraphFrame.filter"), ("ObjectQuery type checks", "hatchet/query/object_dialect.py"),
      ("StringQuery type checks", "hatchet/query/string_dialect.py"), ("compound queries", "hatchet/query/compound.py")],
     ["exceptions of GraphFrame, Graph, Node, Frame and hatchet.query", "GraphFrame.graph", "GraphFrame.dataframe"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
