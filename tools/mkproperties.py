import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=(),obs=()):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if obs: d["anchors"]["observe_at"]=list(obs)
    d["anchors"]["hook_needed"]=None
    P.append(d)
GF="hatchet/graphframe.py"; GR="hatchet/graph.py"; ND="hatchet/node.py"; FR="hatchet/frame.py"
p("C01","Traversals visit every reachable node exactly once, in the documented order",
 "Traversing a graph (or a node's subgraph) yields every reachable node exactly once, in depth-first pre- or post-order, with roots and siblings taken in frame order (or in node-order when the input is order-preserving), also when nodes have several parents or there are several roots. The length of a graph is the number of nodes so visited, a caller-supplied visited map ends up holding each node's number of arrivals, attrs selects the yielded fields, and is_tree holds exactly for single-rooted graphs where every node is reached once. A traversal order other than pre or post is refused with ValueError.",
 ["inputs"],"for every finite acyclic call graph: any number of roots, shared children, equal frames on siblings, any attribute sets in the frames",
 "The tests traverse a handful of fixed graphs with distinct names; order and visit counts on arbitrary DAGs, forests and equal-frame siblings are not sampled.",
 [ND,GR,FR],[("Node.traverse / node_order_traverse",ND),("Graph.traverse, is_tree, __len__",GR),("Frame ordering",FR)])
p("C02","Every GraphFrame stays consistent through any sequence of operations",
 "After any sequence of public operations every live GraphFrame is consistent: its dataframe is indexed by nodes of its own graph, parent and child links mirror each other, node ids are pairwise distinct, sibling nodes produced by squash or union have distinct frames, and every node's depth is one more than that of one of its parents (0 at a root). Readers and unions additionally number the nodes 0..n-1 in traversal order (readers of formats which store node ids keep those). Construction refuses a missing graph, a missing dataframe or a dataframe without a node index level with ValueError; a graphframe made without metric lists has none, default metric time and empty metadata.",
 ["histories","inputs"],"for every sequence of filter, squash, copy, deepcopy, arithmetic, unify, groupby, index-drop, column-generation and round-trip operations applied to any initial graphframe",
 "Tests run one or two operations on fixed inputs and mostly compare one result column; they do not check the whole graph/dataframe invariant after multi-step histories or on DAGs.",
 [GF,GR,ND],[("squash/rewire and normalize",GF),("Graph.enumerate_traverse, enumerate_depth, merge_nodes",GR),("union/unify node map",GR)],
 [("node ids, depth, parents, children","identity and links of call-graph nodes",ND),("dataframe index","rows keyed by node",GF)])
p("C03","Graph equality is structural and copies are faithful and independent",
 "Two graphs (with distinct frames among the children of a node and among the roots) compare equal exactly when, matching siblings by frame, they have the same rooted structure (shared nodes matching shared nodes), whatever order children and roots are stored in; != is its negation. A deep copy (of a graph or a graphframe) equals its source in structure, data and metadata and shares no node or data with it, so no later change to either is visible in the other; a shallow copy has the same graph object and data but its own metric lists and metadata.",
 ["inputs","histories"],"for every pair of finite call graphs and every later mutation of either the source or the copy",
 "Tests compare a few hand-written graphs and never mutate a copy in all the ways that could leak back into the source.",
 [GR,ND,GF],[("Graph.__eq__ / Node.dag_equal",GR),("Graph.copy, GraphFrame.copy/deepcopy",GF)])
p("C04","Union and unify merge two call graphs exactly by call path",
 "The union of two graphs contains exactly the call paths (sequences of frames from a root) of the two operands, each operand node is mapped to the one union node that carries its call paths, nodes of both operands with the same call path are merged into one, and neither operand graph is modified. After unify both graphframes share that one graph, keep all their rows under the mapped nodes, and the left one also gets one row for each node only the right one has.",
 ["inputs"],"for every pair of finite call graphs (trees, forests, graphs with shared nodes) with distinct frames among siblings, and every dataframe over them",
 "Tests union a few small hand-written graphs; no test checks the node mapping or arbitrary overlaps.",
 [GR,GF],[("Graph.union/_merge",GR),("GraphFrame.unify, _insert_missing_rows",GF)])
p("C05","GraphFrame arithmetic is column-wise arithmetic by call path",
 "For +, -, *, / (method, operator and in-place forms) each metric of a call path present in both operands is the result of the operation on the two values (a result of NaN leaves the left value); a call path present only in the left operand keeps its values and is marked 1 in the missing-node column, one present only in the right operand is added with NaN metrics and marked 2, and paths in both are marked 0. The result's graph is the union of the operands' graphs, and operands not being assigned to are left unchanged, for graphs in which no operand has two nodes with one call path and both have the same metrics, even when both share one graph or one dataframe.",
 ["inputs","histories"],"for every pair of graphframes (same graph, overlapping, disjoint; NaN, 0, inf metrics; with or without rank index) and all four operators",
 "Tests cover a few fixed pairs; they never check that operands survive when they share a graph, nor NaN/zero cases for each operator.",
 [GF,"hatchet/cython_modules/graphframe_modules.pyx"],[("add/sub/mul/div and in-place operators, _operator",GF),("_insert_missing_rows, fast_not_isin, insert_one_for_self_nodes",GF)])
p("C06","filter(callable) keeps exactly the rows whose predicate holds",
 "Filtering with a callable and squash off returns a graphframe with the same graph, metric lists, default metric and metadata whose dataframe consists of exactly the source rows for which the callable is true, with their values and in their order. If no row qualifies EmptyFilter is raised and if the argument is not a callable or query InvalidFilter is raised; in every case the source graphframe is unchanged.",
 ["inputs"],"for every graphframe (single or multi-index, NaN metrics, duplicate names) and every row predicate over index and columns",
 "Tests use a few threshold predicates on fixed data and look at single columns of the result.",
 [GF],[("GraphFrame.filter",GF)])
p("C07","Parallel filtering gives the sequential result under every schedule",
 "For any number of worker processes, any partition of the rows and any order in which the workers finish, filter returns exactly the dataframe the sequential filter returns, including row order and every squashed value. If the predicate raises in a worker the call raises that exception (that of the first such row) instead of blocking forever.",
 ["schedules","configurations","fault_sequences"],"for every worker count (also more workers than rows), every interleaving of worker completion, and every worker that fails",
 "Scheduling is not controlled by the tests: they run with whatever order the machine happens to produce and never with a failing worker.",
 [GF],[("GraphFrame.filter process pool, parallel_apply queue",GF)])
p("C08","Squash reconnects kept nodes across removed ones and merges equal call paths",
 "Squashing a filtered graphframe yields a graph whose nodes are the kept nodes, where a kept node is a child of another exactly when some call path leads from the latter to the former through removed nodes only, and a root exactly when it is reachable from an original root through removed nodes only; kept nodes that then have the same frame under the same (merged) parent, or at the root level, become one node, and so on downwards. The source graphframe is not modified. Graph.normalize merges equal-frame siblings of a graph in the same way, in place, and reports which node each merged node became.",
 ["inputs"],"for every call tree, forest or DAG with possibly equal frames among relatives, and every non-empty set of kept nodes",
 "Tests squash about ten fixed shapes; the combination of transitive removal, shared nodes and cascading merges is only sampled.",
 [GF,GR],[("GraphFrame.squash/rewire",GF),("Graph.find_merges, merge_nodes, normalize",GR)])
p("C09","Squash aggregates the rows of merged nodes without losing or inventing data",
 "In a squashed graphframe every kept row contributes to exactly one row, that of its merged node (per rank/thread); each exclusive and inclusive metric there is the sum of the contributions ignoring NaN (NaN only if all are NaN), every other column is taken from the first contributing row, and rows are ordered by node then by the other index levels. With update_inc_cols the inclusive columns are then recomputed from the exclusive ones and without it they are left as aggregated; metric lists, default metric and metadata carry over.",
 ["inputs"],"for every graphframe with any metric values including NaN, single and multi-index, any kept set",
 "Tests compare a handful of sums; NaN handling, non-metric columns, row order and multi-index merges are not covered together.",
 [GF],[("GraphFrame.squash groupby aggregation",GF)])
p("C10","Inclusive metrics are sums over the distinct nodes of each subgraph",
 "After subgraph_sum (on any graph), subtree_sum (on trees) or update_inclusive_columns, the output metric of each node (per rank/thread) is the sum of the input metric over the node and all its distinct descendants, each counted once, ignoring NaN and NaN only when all are NaN; other columns and, unless asked, the input columns are unchanged. The inclusive column of an exclusive metric 'x' is 'x (inc)' and that of 'x (exc)' is 'x', and both stay listed; when the numbers of input and output columns differ the call fails with ValueError and changes nothing.",
 ["inputs"],"for every tree, forest and DAG, every set of metric columns, NaN patterns, single or multi-index, in-place and separate output columns, custom associative functions",
 "Tests check a few fixed trees and one DAG with ones as metrics.",
 [GF],[("subtree_sum, subgraph_sum, update_inclusive_columns",GF)])
p("C11","Generated exclusive metrics equal inclusive minus the children's inclusive",
 "generate_exclusive_columns creates, for each numeric inclusive metric 'x (inc)' without an exclusive 'x' and for each inclusive metric without the suffix (as 'x (exc)'), a column holding for each node (per rank/thread) its inclusive value minus the sum of its children's inclusive values, NaN children counting as 0 and a NaN node staying NaN. Existing columns are untouched, non-numeric or unrequested metrics are skipped and exactly the new columns are added to the list of exclusive metrics.",
 ["inputs"],"for every graph shape, combination of metric names and types, NaN pattern, and single or multi-index data",
 "Tests use two literal graphs with one NaN placement.",
 [GF],[("generate_exclusive_columns",GF)])
p("C12","Dropping index levels aggregates each node's rows and nothing else",
 "drop_index_levels leaves exactly one row per node, indexed by node only and in node order; each metric there is the given function (mean by default) of that node's rows, every other column its first row's value, and graph, nodes and metric lists are unchanged. When the function raises, the graphframe is left as it was.",
 ["inputs"],"for every multi-index graphframe (ranks, threads, both, missing combinations, NaN) and each aggregation function",
 "Tests drop levels on three fixed profiles with few aggregation functions.",
 [GF],[("drop_index_levels",GF)])
p("C13","groupby_aggregate builds the quotient graph of its groups",
 "groupby_aggregate yields one node per group, named by the group key, whose metrics are the aggregate over the group; two distinct groups are connected exactly when some member of the first is a parent of some member of the second, each at most once, and the roots are the groups containing a node without parents.",
 ["inputs"],"for every call graph and every grouping of its nodes by a column whose quotient is acyclic",
 "The tests group one fixed graph twice.",
 [GF],[("groupby_aggregate/reindex",GF)])
Q="hatchet/query/"
p("C14","Call-path queries select exactly the nodes on matching paths",
 "Applying a query returns exactly the set of nodes that lie on some downward path of the graph that the query matches: consecutive path segments match the query nodes in order, with '.' one node, an integer that many, '*' zero or more and '+' one or more nodes, each satisfying that query node's predicate. The result does not depend on the API or dialect used to write the query, nor on earlier queries or the order in which children are stored, and filtering by the query keeps exactly those nodes' rows.",
 ["inputs","histories"],"for every call graph (trees and DAGs), every sequence of quantifiers and every assignment of predicates to nodes",
 "Tests check fixed queries on three graphs; the search's pruning and caching can only be wrong for particular combinations of quantifiers, predicates and shapes.",
 [Q+"engine.py",Q+"query.py",Q+"object_dialect.py",GF],[("QueryEngine._apply_impl/_match_pattern/_match_0_or_more/_match_1 and node cache",Q+"engine.py"),("Query quantifier expansion",Q+"query.py")],
 [("search_cache","which query nodes a graph node satisfies",Q+"engine.py")])
p("C15","Query predicates mean the same in every dialect",
 "An Object-dialect condition holds for a node exactly when all its entries hold: full regular-expression match for strings, equality or the written comparison for numbers (false for NaN unless NaN is asked for), every element for lists, node_id and depth (-1 meaning leaf) as built-in attributes, and false for absent attributes. A String-dialect WHERE clause holds exactly when the and/or/not combination of its comparisons, prefix, suffix, substring, regex, NONE, LEAF, NAN and INF tests does, and malformed or ill-typed predicates raise the documented query errors rather than silently matching.",
 ["inputs"],"for every predicate expressible in the two dialects and every node row, including NaN and infinite metrics, missing attributes and wrongly typed values",
 "Tests try one or two instances of each operator on fixed rows; operator combinations and boundary values are not covered.",
 [Q+"object_dialect.py",Q+"string_dialect.py"],[("_process_predicate",Q+"object_dialect.py"),("StringQuery predicate compilation and type checks",Q+"string_dialect.py")])
p("C16","Compound queries are set algebra over their subqueries",
 "Conjunction, disjunction, exclusive disjunction and negation of queries return exactly the intersection, union, n-ary symmetric difference and complement (within the graph) of their subqueries' results, for any nesting and operand form, whether written with classes, the operators &, |, ^, ~, curly-brace string queries or the legacy query classes. Wrong numbers of operands or operand types raise the documented errors.",
 ["inputs"],"for every finite nesting of compound queries over arbitrary subqueries and graphs",
 "Tests combine two or three fixed queries each.",
 [Q+"compound.py",Q+"compat.py",Q+"__init__.py",Q+"string_dialect.py"],[("_apply_op_to_results",Q+"compound.py"),("operator overloads",Q+"__init__.py"),("legacy classes",Q+"compat.py"),("parse_string_dialect",Q+"string_dialect.py")])
p("C17","Queries on multi-indexed data apply any/all over each node's rows",
 "On a multi-indexed graphframe a predicate holds for a node exactly when it holds for some row of the node in mode 'any' and for every row in mode 'all', in both dialects and inside compound string queries (each single comparison is decided so over the node's rows, then negated or combined); depth, node_id and leaf conditions depend on the node only. In mode 'off' the Object dialect raises MultiIndexModeMismatch.",
 ["inputs","configurations"],"for every multi-indexed graphframe, predicate and mode",
 "Tests use one profile whose rows rarely differ within a node.",
 [Q+"object_dialect.py",Q+"string_dialect.py",Q+"engine.py"],[("filter_dframe, _process_multi_index_mode",Q+"object_dialect.py"),("*_multi_idx predicates",Q+"string_dialect.py")])
p("C18","Writing a GraphFrame and reading it back preserves it",
 "Writing a graphframe (with a row for every node, and roots that have no parents) with to_literal, to_json or to_hdf and reading the result back yields a graphframe with an equal graph (same frames, links, shared nodes, roots, depths), the same rows with the same values and index, and the same exclusive and inclusive metric lists (plus the default metric for HDF); writing does not modify the source. to_literal replaces NaN and infinite metrics by 0 and keeps only metrics and requested attributes; HDF numbers the nodes anew, the other two keep the node ids. An HDF file holds one graphframe per key, as it was when last written under that key, and reading a key it does not hold fails.",
 ["inputs","histories"],"for every graphframe, including DAGs, forests, squashed or arithmetic results, multi-index (JSON, HDF) and NaN",
 "Tests round-trip two fixed graphs and compare few columns.",
 [GF,"hatchet/readers/literal_reader.py","hatchet/readers/json_reader.py","hatchet/readers/dataframe_reader.py","hatchet/readers/hdf5_reader.py","hatchet/writers/dataframe_writer.py","hatchet/writers/hdf5_writer.py"],
 [("to_literal/to_dict/to_json/to_hdf",GF),("LiteralReader, JsonReader, DataframeReader",'hatchet/readers')])
p("C19","tree() prints the call tree faithfully",
 "The text from tree() has, for each root and each child of an expanded node, one line whose nesting reflects its call path, showing that node's metric(s), name and context of the selected rank/thread; children appear in node order, a node's children are expanded once, and only nodes above the depth limit appear. Names are shown in full or shortened to head...tail as asked, annotations are bracketed, nodes missing on the left/right of an arithmetic result carry the documented arrows, and unknown metrics raise KeyError. On a terminal the same text is coloured: each metric by the tenth of the range it lies in (of the selected rank, or the given limits, in the chosen palette, possibly inverted), annotations by the given palette, list or dictionary, and the legend states the limits, the ranges of the colours and the patterns' symbols; elsewhere no colours appear whatever is asked for, and an unknown palette raises ValueError, as do parameter names that were renamed.",
 ["inputs","configurations"],"for every graphframe and every combination of metric, rank, thread, depth, precision, name, context and annotation arguments",
 "Tests look for a few substrings in the output.",
 ["hatchet/external/console.py",GF],[("ConsoleRenderer.render/render_frame","hatchet/external/console.py")])
p("C20","DOT and flamegraph output hold exactly the graph's nodes, edges and stacks",
 "to_dot emits one node statement (labelled with the chosen name column) for each node reachable through nodes whose metric for the given rank/thread reaches the threshold fraction of the maximum, and exactly the edges between such nodes. to_flamegraph emits for each node of a call tree one line with the names on its call path from the root in order and its rounded metric.",
 ["inputs","configurations"],"for every graph, metric, name column, rank/thread selection and threshold",
 "Tests check a few substrings of the output for one fixed graph.",
 ["hatchet/util/dot.py",GF],[("trees_to_dot/to_dot","hatchet/util/dot.py"),("to_flamegraph",GF)])
RD="hatchet/readers/"
p("C21","Literal and list constructors build exactly the described graph and data",
 "from_literal builds one node per described dictionary, with its frame, name, metrics and nesting (several roots, and entries repeating an already seen node id denoting the same shared node), numbers them in traversal order or keeps given ids, and lists metrics containing '(inc)' as inclusive and all others as exclusive. from_lists builds the nested lists' graph, sharing node objects given twice, with time 1 per node and inclusive time the number of distinct nodes below.",
 ["inputs"],"for every nested literal or list description",
 "Tests parse four literals and two DAGs.",
 [RD+"literal_reader.py",ND,GR,GF],[("LiteralReader.read/parse_node_literal",RD+"literal_reader.py"),("Node.from_lists/Graph.from_lists",ND)])
p("C22","The HPCToolkit reader reproduces the database's calling context tree and metrics",
 "Reading an HPCToolkit database yields the calling context tree of experiment.xml with procedures, loops, statements and files resolved from its tables, one row per node and rank (and thread), and every metric value from the binary metric files; exclusive metrics of a node exclude what its statement children account for.",
 ["inputs"],"for every calling context tree, metric table and number of ranks/threads",
 "Tests read three recorded databases and check totals of few columns.",
 [RD+"hpctoolkit_reader.py","hatchet/cython_modules/reader_modules.pyx"],[("HPCToolkitReader",RD+"hpctoolkit_reader.py"),("subtract_exclusive_metric_vals","hatchet/cython_modules/reader_modules.pyx")])
p("C23","The Caliper readers reproduce the recorded call tree and metrics",
 "Reading a Caliper JSON-split or native .cali profile yields the tree of its path records (nodes with their recorded names, source lines as child nodes where a function has several, siblings in the recorded node order if there is one) with one row for every node and rank: the recorded values under their documented column names, zeros (None for text) where a node has no record at a rank, and the inclusive/exclusive classification of the metrics and the run metadata as recorded; a timeseries yields one such profile per step; reading the same file again gives the same graphframe.",
 ["inputs","histories"],"for every path tree, set of metric columns, ranks, missing records and order of records, read any number of times",
 "Tests read a fixed set of recorded files.",
 [RD+"caliper_reader.py",RD+"caliper_native_reader.py"],[("CaliperReader.read/create_graph",RD+"caliper_reader.py"),("CaliperNativeReader.read/create_graph",RD+"caliper_native_reader.py")])
p("C24","The TAU reader reproduces the callpath profile for every rank and thread",
 "Reading a TAU profile directory yields one node per distinct callpath of the profiles with its frame attributes, one row per node, rank and thread holding that profile's values for each metric, exclusive and inclusive, and structure that is the union over all profile files; with a single rank or thread that index level is absent.",
 ["inputs"],"for every set of callpath profiles over ranks, threads and metrics, including callpaths present in only some files",
 "Tests read one recorded four-rank profile.",
 [RD+"tau_reader.py"],[("TAUReader.create_graph",RD+"tau_reader.py")])
p("C25","Timemory, pyinstrument, cProfile and gprof readers reproduce the recorded calls",
 "Reading a timemory tree, pyinstrument session, pstats file or gprof2dot graph yields exactly the recorded functions as nodes, the recorded caller/callee relations as edges each appearing once, the functions without callers as roots (every function being reachable from one of these), and each function's recorded values as its metrics (exclusive time being own time).",
 ["inputs"],"for every recorded call tree or acyclic call graph of these formats",
 "Tests read one recorded file per format and check few totals.",
 [RD+"timemory_reader.py",RD+"pyinstrument_reader.py",RD+"cprofile_reader.py",RD+"gprof_dot_reader.py"],[("TimemoryReader",RD+"timemory_reader.py"),("PyinstrumentReader",RD+"pyinstrument_reader.py"),("CProfileReader",RD+"cprofile_reader.py"),("GprofDotReader",RD+"gprof_dot_reader.py")])
p("C26","Operations documented as non-mutating leave all other GraphFrames unchanged",
 "Through any history, an operation changes no graphframe other than those it is documented to change: filter, squash, copy, deepcopy, groupby_aggregate, arithmetic, queries, rendering and export leave their operands' graph, dataframe values and order, metric lists and metadata as they were, and in-place operations change only their target (unify also the other operand). A call that is refused or whose callback raises (an empty or failing filter, a bad query value, a missing column, an unwritable file, an operand that is no graphframe) changes nothing.",
 ["histories"],"for every sequence of operations on graphframes that share graphs, dataframes or metric lists through copies, filters and unions",
 "Tests apply one operation and look only at its result; aliasing leaks show only several steps later on another object.",
 [GF,GR],[("copying discipline in filter, squash, arithmetic, export",GF)])
p("C27","The profiler wrapper and phase timer follow their start/stop protocol",
 "The profiler records exactly the calls made between start and stop, writes on each stop a new pstats file without overwriting an existing one, and refuses start and reset while active without losing what was recorded; reset forgets earlier recordings. The phase timer reports one entry per phase in order of first completion and requires an open phase to end one.",
 ["histories"],"for every sequence of start, stop, reset, write and phase operations",
 "Tests run one or two fixed sequences.",
 ["hatchet/util/profiler.py","hatchet/util/timer.py"],[("Profiler",'hatchet/util/profiler.py'),("Timer",'hatchet/util/timer.py')])
p("C28","The SpotDB reader rebuilds the region tree and metrics of every requested run",
 "Reading from a SpotDB yields one graphframe per requested run that the database has (all runs if none are requested), in the order requested: its graph is the tree of the region paths (split at '/', regions without an own record included), numbered in traversal order, with one row per recorded region holding the recorded values under their alias or name, ' (inc)' being added for inclusive metrics, converted to numbers as their recorded type says and NaN where a region lacks a metric; metrics are listed as inclusive or exclusive by that suffix, the run's metadata are kept, and the default metric is the requested one if there is such a column and otherwise a listed one.",
 ["inputs"],"for every set of runs, region paths (in any order, with missing parents), metrics, types and aliases, and every selection of runs",
 "The tests of this reader need the spotdb package and are skipped without it; they check column names of a single profile.",
 [RD+"spotdb_reader.py",GF],[("SpotDatasetReader.create_graph/read",RD+"spotdb_reader.py"),("SpotDBReader.read",RD+"spotdb_reader.py")])
p("C29","Frames and nodes are consistent keys",
 "A frame is its set of attributes (keyword arguments override the dictionary, a missing type counts as 'None', none at all raises ValueError): frames are equal exactly when their attributes are, equal frames hash equal, <, <=, >, >= form the total order of their sorted attributes, text and attribute access give exactly the attributes, and a copy is equal and independent. Nodes compare, sort and hash by node id, never equal anything that is no node, and a copied node has an equal frame of its own and no links.",
 ["inputs"],"for every set of frames with any attributes and values, and nodes with any ids",
 "Tests compare a few pairs of frames; sorting, hashing, dictionaries and joins rely on the laws for all of them.",
 [FR,ND],[("Frame.__eq__/__lt__/__hash__/tuple_repr",FR),("Node.__eq__/__lt__/__hash__/copy",ND)])
RT="hatchet/external/roundtrip/roundtrip/"
p("C30","Notebook variables and the visualizations bound to them stay in step",
 "A value passed to a visualization, or assigned in a cell to a watched ('?') notebook variable, arrives in every JavaScript variable bound to it as exactly the converter's text, whatever characters it holds and however often and in whatever order the binding cells were run, and no other JavaScript variable changes; fetching a JavaScript variable assigns its converted text to the notebook variable. When a page sets a watched variable in a bound cell, the notebook variable receives the converted text and exactly the other cells bound to it are re-executed, so that notebook and views agree once both are at rest; without watching, data goes one way only. Loading web pages or files shows all their scripts and markup in order, a cached page as it was loaded first.",
 ["histories","schedules","inputs"],"for every sequence of binding, assigning, fetching and page-side setting over any notebook variables, JavaScript variables, cells and texts, and every interleaving of kernel and page",
 "The package's own test checks that names of variables occur in the emitted code; the code is never run, and no sequence of bindings is.",
 [RT+"manager.py",RT+"roundtrip.js"],[("RoundTrip.var_to_js, manage_jupter_change, fetch_data",RT+"manager.py"),("Bridge.pass_to_js, retrieve_from_js",RT+"manager.py"),("RT_Handler.set/get",RT+"roundtrip.js")])
VS="hatchet/vis/"
p("C31","The interactive tree visualization accounts for every node and its numbers",
 "The interactive visualization of a forest shows at first all roots and exactly the nodes that have a nonzero value of its metric in their subtree; whatever sequence of collapsing, expanding, composing nodes with their parents, pruning to a range of values, choosing metrics and resetting views follows, every node is shown once, hidden in exactly one aggregate below its parent, or composed with its parent; collapsing and expanding undo each other; pruning shows exactly the nodes within the range, their ancestors and the roots; the figures of an aggregate and of the shown nodes are the metrics of the graphframe (totals of what it hides for exclusive metrics, the values at its top for inclusive ones, averaged over its subtrees), also in descriptions, where they are rounded and abbreviated; the histogram of the slider counts every shown node with a nonzero value once. The query it hands back to Python selects, applied with filter, exactly the nodes shown and the one that stands for each aggregate.",
 ["histories","inputs"],"for every forest, every set of non-negative metrics and every sequence of what a user can do in the visualization",
 "No test of the repository runs any of this code, in Python or in JavaScript.",
 [VS+"loader.py",VS+"scripts/cct/cct_model.js",VS+"static/cct_bundle.js"],[("CCT.cct, cct_fetch_query",VS+"loader.py"),("Model: handlers, forest, getQueries",VS+"scripts/cct/cct_model.js"),("Controller.dispatcher",VS+"scripts/cct/cct_controller.js")])
for d in P:
    assert len(d["title"])<=80,(d["id"],len(d["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
