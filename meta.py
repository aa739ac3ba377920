"""Texts of the properties; gen.py writes properties.jsonl and MANIFEST.json from here."""
M = []


def p(id, title, statement, over, text, why, files, mech, note):
    assert len(title) <= 80, title
    M.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note))


A = "engine/src/algo/"
D = "engine/src/datastr/"
CC = A + "customizable_contraction_hierarchy/"
SAMPLE = "The existing tests run a few hand-made graphs with fixed weights; "

p("C01", "Dijkstra returns exact distances and matching paths",
  "For every directed graph with non-negative weights and every source and target, a Dijkstra query reports exactly the length of a shortest path, or no path if the target is unreachable, no matter which queries ran on the same object before. The reported node and edge paths connect source and target along existing arcs and their length is the reported distance. A search over all nodes, from several starts or to several targets settles every node with its exact distance.",
  ["inputs", "histories"], "all weights 0..=INFINITY, all graphs and query sequences within the bounds of the harness entries",
  SAMPLE + "correctness depends on every combination of weights (ties, zeros, near-infinite sums) and on state left by earlier queries.",
  [A + "dijkstra.rs", A + "dijkstra/generic_dijkstra.rs", A + "dijkstra/query/dijkstra.rs", D + "index_heap.rs", D + "timestamped_vector.rs"],
  "generic Dijkstra with an indexed 4-ary heap and timestamped distance labels", "bounded graphs (up to 5 nodes fully symbolic, larger with few symbolic weights)")
p("C02", "Bidirectional Dijkstra equals Dijkstra under every pruning option",
  "For every graph and node pair, the bidirectional query reports the exact shortest distance and a path of that length, for both ways of alternating the two searches and also when the same object is reused. With an upper bound on the distance it reports exactly the distances within the bound. Stopping early because the target is cut off never loses an existing path.",
  ["inputs", "histories", "configurations"], "all weights, pairs, search-alternation strategies and distance caps within the bounds",
  SAMPLE + "the stopping condition of the bidirectional search is only wrong for particular weight combinations.",
  [A + "dijkstra/query/bidirectional_dijkstra.rs"], "meeting of forward and backward search, stopping criterion, disconnected-target detection", "graphs up to 5 nodes symbolic; ladders and a >200 node disconnected graph")
p("C03", "A* search with a consistent potential stays exact",
  "For every consistent lower-bound potential, unidirectional A* reports the exact shortest distance and a path of that length; the bidirectional variants do so for the symmetric and the averaged potentials they are documented for. Landmark (ALT) potentials never exceed the true remaining distance and are consistent, whichever landmarks were selected. Recycling a potential for another target or permuting its node ids does not change the answers.",
  ["inputs", "histories", "configurations"], "all weights and all consistent potentials (symbolic values) within the bounds",
  SAMPLE + "no test quantifies over potentials; an inexact stop only shows for particular combinations of potential and weights.",
  [A + "a_star.rs", A + "alt.rs", A + "dijkstra/query/dijkstra.rs", A + "dijkstra/query/bidirectional_dijkstra.rs"], "potential-shifted keys, stopping criteria, landmark distance tables", "3-5 node graphs, all potentials; averaged potential restricted to bounds of a common lower-bound metric")
p("C04", "CCH queries report exact shortest distances for every metric and order",
  "For every graph, every contraction order and every metric, a query on the customized hierarchy reports exactly the shortest distance between the two nodes, or none when unreachable. This includes one-way arcs, parallel arcs, loops, zero and near-infinite weights, several components, and any sequence of queries on one query object.",
  ["inputs", "histories"], "all weights, orders, topologies and pairs within the bounds",
  SAMPLE + "the metric-independent structure must be right for all metrics and orders at once.",
  [CC + "mod.rs", CC + "contraction.rs", CC + "customization.rs", CC + "query.rs", CC + "query/stepped_elimination_tree.rs"], "chordal completion, lower-triangle relaxation, elimination-tree query", "complete graphs up to 4 nodes in all orders, selected larger graphs")
p("C05", "CCH paths are shortest paths of the original graph",
  "Whenever a hierarchy query reports a distance, the path it reports starts at the source, ends at the target, uses only arcs of the original graph and has exactly the reported length. This holds for basic, perfect and directed customization, for every order and metric, for arbitrarily nested shortcuts, and for repeated path requests and reused query objects.",
  ["inputs", "histories"], "all weights, orders and pairs within the bounds",
  SAMPLE + "unpacking errors only show for particular shortcut nestings.",
  [CC + "query.rs", CC + "customization.rs", CC + "customization/directed.rs", CC + "mod.rs"], "unpacking information recorded by customization and remapped by the perfect rebuild", "up to 8 nodes with nested shortcuts")
p("C06", "Perfect, directed and reduced hierarchies answer like the plain one",
  "Perfect customization, the directed hierarchy, its perfect customization and the hierarchy reduced to usable arcs all report the exact shortest distances for every graph, order and metric. After perfect customization of the undirected hierarchy every kept arc carries the exact distance between its end points. Graphs without arcs and isolated nodes are handled.",
  ["inputs", "configurations"], "all weights, orders and topologies within the bounds, all hierarchy variants",
  SAMPLE + "removing arcs is only safe if no metric ever needs them.",
  [CC + "customization.rs", CC + "customization/directed.rs", CC + "mod.rs"], "upper/intermediate triangle relaxation, arc removal and id remapping", "3-4 nodes all orders, 8 nodes with several components")
p("C07", "After a metric update queries answer for the new metric only",
  "For every history of customizations, updates of a query object and queries, each query (distance and path) answers exactly for the metric installed last; nothing of earlier metrics or earlier queries shows. Installing a metric again gives the same answers again.",
  ["histories", "inputs"], "all pairs of metrics and interleavings of updates and queries within the bounds",
  "No existing test updates the metric of a query object.",
  [CC + "query.rs", CC + "customization.rs"], "query object state reset on the walk, swap of customized data", "two to three metrics, 3-5 nodes")
p("C08", "Customization is independent of schedule and thread count",
  "For every order in which parallel tasks of the customization run and every number of threads, and also with parallelism disabled, basic, perfect and directed customization produce exact results: the same distances, and paths of that length. Splitting the hierarchy into cells and the search graph into chunks is invisible to users.",
  ["schedules", "configurations", "inputs"], "all orders of atomic tasks, thread counts 1..5, all weights within the bounds",
  "Tests run whatever schedule the machine happens to take.",
  [CC + "customization/parallelization.rs", CC + "customization.rs", CC + "customization/directed.rs"], "separator-based task decomposition with unsafe shared pointers, chunked rebuild", "tasks are atomic in the model; interleavings inside tasks are outside the bound")
p("C09", "CCH preprocessing builds exactly the chordal supergraph and separators",
  "For every graph and order, the hierarchy has an arc between two nodes exactly if they are joined by a path through lower-ranked nodes, each arc maps to exactly the original arcs of each direction, and the parent of a node is its lowest upper neighbor. The separator tree partitions the nodes, its cells are separated, and adjusting the order for parallel customization or breadth-first layout keeps a permutation with the same number of arcs. The directed and reduced hierarchies keep exactly the arcs some metric can use.",
  ["inputs"], "all digraphs of 3 and 4 nodes and graphs of 5 nodes, orders as listed",
  SAMPLE + "they do not compare the structure with its definition.",
  [CC + "contraction.rs", CC + "mod.rs", CC + "separator_decomposition.rs", CC + "reorder.rs"], "fast chordal completion, elimination tree, separator reconstruction", "n <= 5")
p("C10", "Contraction Hierarchies preserve distances and unpack to real paths",
  "For every graph (parallel arcs and loops included), every contraction order and all weights, a query on the contracted graph reports the exact shortest distance and a path of exactly that length along original arcs. Contracting only some nodes leaves an overlay on the remaining nodes with unchanged distances between them, the same in its forward and backward form. No input makes contraction or queries panic or overflow.",
  ["inputs", "histories"], "all weights, orders, pairs and numbers of contracted nodes within the bounds",
  "Tests contract one small graph; whether a witness search may drop a shortcut depends on ties and parallel arcs.",
  [A + "contraction_hierarchy/mod.rs", A + "contraction_hierarchy/query.rs", D + "graph.rs"], "node contraction with witness search, upward search graphs, recursive shortcut unpacking", "3-4 nodes fully symbolic, 7 nodes for nested shortcuts")
p("C11", "Hierarchy based potentials equal the exact remaining distance",
  "The lazily evaluated potentials computed from a customized or contracted hierarchy (to one target, from one source, or to several targets at once) equal the exact shortest distance of the metric they were built from, for every node, order and metric, however often they are re-initialised and whatever nodes were asked before. The shortest path tree unpacked by the path-providing variant consists of original arcs and realises exactly these distances.",
  ["inputs", "histories"], "all weights, orders, targets and query sequences within the bounds",
  "No test covers the potentials; A* correctness depends on their exactness for all weights.",
  [A + "ch_potentials.rs", CC + "query/stepped_elimination_tree.rs"], "memoised upward recursion over the hierarchy, timestamps, bucket pruning", "3-4 nodes fully symbolic, 6 nodes for nested shortcuts; every potential variant of ch_potentials.rs")
p("C12", "One-to-many, many-to-many and hub label distances are exact",
  "RPHAST, its simultaneous multi-source variant and hub labels report exactly the shortest distance for every selected target and every source, on customized and contracted hierarchies, for every order and metric. Selections, sources and queries may follow each other in any order on one object and may contain repeated nodes. The hub reported for a pair is contained in both labels and its two parts add up to the distance.",
  ["inputs", "histories"], "all weights, orders, target and source sets within the bounds",
  "No test covers these algorithms.",
  [A + "rphast.rs", A + "hl.rs", A + "ch_potentials.rs"], "restricted downward sweep, bucket pruning, label pruning", "3-4 nodes; hub labels with finite weights up to INFINITY/8")
p("C13", "Nearest neighbor queries return the k closest reachable targets",
  "Each of the nearest neighbor algorithms (Dijkstra, lazy RPHAST, bucket and separator based) returns, for every source, target set and k at least 1, as many distinct targets as requested and reachable, each with its exact distance, and no target that is left out is closer than a returned one. This holds for any sequence of selections and queries on one object.",
  ["inputs", "histories"], "all weights, orders, target sets, sources and k within the bounds",
  "No test covers these algorithms; pruning errors only show when the true neighbor lies in a pruned cell.",
  [CC + "query/nearest_neighbor.rs", A + "dijkstra/query/nearest_neighbor.rs", A + "ch_potentials.rs"], "pruned bucket scans, separator tree traversal with lower bounds", "3-4 nodes fully symbolic, paths of 12-20 nodes with one or two symbolic weights; distinct targets, k >= 1")
p("C14", "Priority queues always yield the minimum and keep their content",
  "After any history of pushes, pops, key changes, drains and clears, the indexed heap contains exactly the elements that were pushed and not removed, each at most once and with its latest key; peek and pop always give an element of smallest key, and membership and lookup by index are right. The max-heap behaves the same for the largest element, keeps popped elements available, and its retain keeps exactly the elements satisfying the condition.",
  ["inputs", "histories"], "all keys (symbolic), all operation histories up to the stated length",
  "Every search relies on the queue; the tests exercise a handful of fixed sequences.",
  [D + "index_heap.rs", D + "heap.rs"], "sift up/down in a 4-ary array heap with an index of positions; retain over heap and popped tail", "up to 8 (15 for retain) elements; decrease/increase only with keys in the stated direction")
p("C15", "Resettable containers forget everything on reset and nothing otherwise",
  "The timestamped vector, the shared distance array, the clear-list vector and the fast-clear bit set read like a plain array that was filled with the default value at the last reset: after any sequence of writes and any number of resets, including an overflow of the internal reset counter, every element is the last value written since the last reset or the default. Iterating the set bits yields exactly the set bits. The in-range option keeps every value.",
  ["inputs", "histories"], "all values, indices and histories within the bounds; any number of resets up to 2^32-1 between writes",
  "A reset counter overflow needs 2^32 resets and cannot be tested; stale values appear only in particular histories.",
  [D + "timestamped_vector.rs", D + "clearlist_vector.rs", D + "rank_select_map.rs", "engine/src/util/in_range_option.rs"], "timestamps compared with a reset counter, lists of touched entries", "vectors of 2-3 elements, 4-5 operations; the number of resets is set by advancing the counter word found by observing reset")
p("C16", "Bit vectors, rank/select maps and arc tail lookups are exact",
  "For every bit vector, reading, setting, clearing and counting affect exactly the addressed bits and only bits below the size. The rank/select map built from it numbers the set bits consecutively in order, answers membership and next-lower queries right, and its inverse gives back the original position of every number. The arc-to-tail mapping gives the node every arc starts at.",
  ["inputs"], "all bit patterns over the stated bit positions, all positions",
  "Errors show only at word, block and group boundaries or for empty blocks, which the tests do not reach.",
  [D + "rank_select_map.rs", D + "graph/link_id_to_tail_mapper.rs"], "popcounts over 64-bit words and prefix sums per 512-bit block, 256-element groups", "up to about 2600 bits; about ten free bits at a time, placed at the word, block and group boundaries")
p("C17", "Graph views and transformations preserve exactly the intended arcs",
  "All views of a graph agree about nodes, arcs, degrees, arc ids and weights. Reversing, permuting, splitting by a node order, making parallel arcs unique and filtering infinite arcs yield exactly the arcs of the original that they promise, with the right weights and arc ids; reversing twice gives back the same arcs. The line graph has one node per arc and one arc per allowed turn. Node orders and their ranks are inverse permutations.",
  ["inputs", "configurations"], "all topologies of up to three nodes with up to two arcs per node, symbolic weights, all orders",
  "Loops, parallel arcs, isolated nodes and empty graphs are not covered by tests.",
  [D + "graph.rs", D + "graph/first_out_graph.rs", D + "node_order.rs"], "adjacency arrays rebuilt by counting sort", "3-4 nodes, out-degree up to 2, with loops and parallel arcs")
p("C18", "Stored data is loaded back unchanged",
  "Writing a vector, bit vector, graph, node order, hierarchy, customized metric or potential to files and loading it gives back equal data; loaded hierarchies and potentials answer queries exactly like the stored ones. Overwriting a file leaves nothing of its old content and does not touch others; a missing file is reported as an error.",
  ["inputs"], "all contents within the bounds (symbolic elements), all orders of up to four nodes",
  "No test stores and loads anything.",
  ["engine/src/io.rs", D + "graph/first_out_graph.rs", D + "node_order.rs", D + "rank_select_map.rs", CC + "mod.rs", CC + "customization.rs", A + "ch_potentials.rs"], "raw native-endian files, one per array, in a directory", "small data; the executor's in-memory file system (no I/O errors, no crashes); replays use real files in a scratch directory; node order and hierarchy stored separately, as the repository's own tools do")
p("C19", "Topocore queries are exact and their paths are real paths",
  "Queries that first skip or restrict themselves to the biconnected core and its attached components report the exact shortest distance for every graph and pair of nodes: within the core, within an attached component, across components, or in separate components, with one-way streets and chains of degree two nodes being skipped. Unidirectional, bidirectional and core-server variants agree; reported node and edge paths are real and have exactly this length; a cap on the distance never hides a path below it. One-to-all search with chain skipping settles every reachable node exactly.",
  ["inputs", "histories", "configurations"], "all weights, arc subsets and pairs within the bounds, several queries on one object",
  "No test covers these algorithms; the component and chain skipping logic only errs on special topologies.",
  [A + "topocore.rs", A + "ch_potentials/query.rs", A + "dijkstra/gen_topo_dijkstra.rs"], "biconnected core detection, virtual topocore, low degree skipping, component entry and exit phases", "3-8 nodes; the multi-threaded variant is outside the bound; weights of averaged potentials up to INFINITY/16")
p("C20", "Time-dependent travel times and earliest arrival queries are exact",
  "A periodic travel time function evaluates, at any departure, to the interpolation of its arrival times rounded down, repeats every day, and lets nobody arrive earlier by departing later; its global bounds, bounds over any departure range, and averages are correct, also across midnight and at breakpoints. Graphs built from raw functions keep these through permutation, turn expansion and reduction to lower bounds. Live data applies until it ends, never undercuts its lower or exceeds its upper bounds, and keeps the FIFO property. Time-dependent Dijkstra (predicted, live, pessimistic) and time-dependent topocore queries with zero, lower bound or recycled potentials report the exact travel time of the earliest arrival, and paths realising it; the sampling heuristic reports a real path's travel time.",
  ["inputs", "histories", "configurations"], "all travel times, departures, live values and ranges within the bounds; sequences of queries",
  "Interpolation, wrapping at midnight and range splitting have special cases at exact breakpoints; the few tests evaluate fixed functions at fixed times.",
  ["engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs", "engine/src/datastr/graph/time_dependent/graph.rs", A + "dijkstra/query/td_dijkstra.rs", A + "ch_potentials/td_query.rs", A + "time_dependent_sampling.rs", A + "td_astar.rs"], "binary search over breakpoints, interpolation, range splitting, live data merging, time-dependent relaxation", "functions with 1-4 breakpoints (either their travel times or the departure symbolic); graphs with 4-6 nodes; ranges within two days")
p("C21", "CATCHUp: customization, earliest arrival and profile queries are exact",
  "For every time-dependent network with first-in-first-out travel time functions, customizing a time-dependent contraction hierarchy keeps, for every shortcut, exactly the fastest travel time over any departure. An earliest arrival query on it reports the earliest possible arrival for the departure (or nothing if there is no path), and its path arrives at that time along existing arcs, also when the same server answered other queries before. A profile query reports for every departure of the day the earliest arrival and a path that attains it; the naive profile query agrees.",
  ["inputs", "histories", "configurations"], "all travel times and departures within the bounds, for fixed small networks and contraction orders; pairs of consecutive queries",
  "Shortcuts switch between expansions at intersections of travel time functions and wrap at midnight; the tests do not run the customization at all.",
  ["engine/src/datastr/graph/floating_time_dependent/shortcut.rs", "engine/src/datastr/graph/floating_time_dependent/shortcut_source.rs", "engine/src/datastr/graph/floating_time_dependent/shortcut_graph.rs", A + "catchup.rs", A + "catchup/floating_td_stepped_elimination_tree.rs", A + "catchup/profiles.rs", A + "catchup/profiles_naive.rs"], "bottom-up link and merge of travel time functions, corridors from bounds, time-dependent unpacking", "a triangle with symbolic travel times and five networks with 4-6 nodes (one symbolic travel time, symbolic departure); floating point numbers as real numbers, rounding outside of the bound; functions below the approximation threshold")
p("C22", "Linking, merging, bounding and live updates of real-valued travel times",
  "Real-valued periodic travel time functions evaluate, and are inverted, by linear interpolation on any day. Linking two functions gives at every departure the travel time over both; merging gives their minimum and says which one attains it; linked and merged results are again valid periodic functions. Lower and upper bound functions and approximations stay below, above and within one second of the function; merging approximated functions still selects the better one everywhere and keeps valid bounds. Copies, links and merges over a part of the day agree with the functions on it. A live value holds until its end and then approaches the prediction without anyone arriving earlier by departing later.",
  ["inputs"], "all travel times (whole seconds) and all times of day (nanoseconds) within the bounds",
  "The tests fix a few pairs of functions; ties, touching functions, wrapping at midnight and fuzzy comparisons need particular values.",
  ["engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs", "engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function/cursor.rs", "engine/src/datastr/graph/floating_time_dependent/travel_time_function.rs", "engine/src/datastr/graph/floating_time_dependent/graph.rs", "engine/src/datastr/graph/floating_time_dependent/mod.rs"], "plane sweep over breakpoints with tolerance, Imai-Iri style bounds, dominance of bounds", "functions with 1-4 breakpoints at fixed departures, 1-4 symbolic travel times; floating point numbers as real numbers, rounding outside of the bound")
p("C23", "Time-dependent potentials are lower bounds and keep td queries exact",
  "The lower bounds of the time-dependent A* potentials (MultiMetric over departure ranges with and without live data, IntervalMinPotential with corridor) never exceed the travel time that remains for the earliest arrival at a node, and are only missing for nodes that cannot reach the target or lie on no earliest arrival path; this holds for every departure, also on later days and with live data. TD-A* queries with these potentials return the earliest arrival. Merging metrics keeps, for every arc, the minimum over the merged metrics, and assigns every time range to a merged metric that bounds it.",
  ["inputs"], "all departures (milliseconds), travel times, weights and arcs within the bounds",
  "The tests have no time-dependent potential; the wrong range, day or bound shows only for particular departures.",
  ["engine/src/algo/td_astar.rs", "engine/src/algo/metric_merging.rs", "engine/src/algo/ch_potentials/td_query.rs", "engine/src/algo/dijkstra/query/td_dijkstra.rs", "engine/src/algo/customizable_contraction_hierarchy/customization/ftd_for_pot.rs"], "metrics per departure range, CATCHUp style interval bounds, pruning with potentials", "interval bounds up to one millisecond of rounding per arc; four nodes, fixed travel time functions; arrivals within two days of the departure's day; squared differences in metric merging only for small weights")
p("C24", "The parallel bidirectional query is exact under every interleaving",
  "The query that runs the forward and the backward search on two threads returns the shortest distance and a shortest path, however the two threads are interleaved and whichever of their stores become visible late: sharing of the tentative distance, of the meeting node and of the progress of the other direction never makes the result wrong, nor does a query on the same server before.",
  ["schedules", "inputs"], "all interleavings at atomic accesses with up to the stated number of preemptions and delayed stores, all weights within the bounds",
  "A test sees one schedule; a lost update or stale bound needs a preemption between two particular atomic accesses.",
  ["engine/src/algo/ch_potentials/query.rs", "engine/src/algo/dijkstra/generic_dijkstra.rs", "engine/src/algo/a_star.rs"], "pruning with an atomically shared tentative distance, radii of the other direction, symmetric and average potentials", "1-2 preemptions (3 in thorough) and at most one delayed store (total store order), 3-6 nodes; weaker orders than TSO are not modelled; schedules replay in the executor, not natively")
p("C25", "Alternative routes are real routes and leave the metric unchanged",
  "The penalty method (Penalty, PenaltyIterative) only returns routes of the graph, in its node ids, from source to target without loops; the route of PenaltyIterative is at most a quarter longer than the shortest path, each route of alternatives_iterative has an arc no earlier one has. There is an answer exactly if the target can be reached. Penalties do not outlive a query: the answers of a server are those of a new server. Queries never panic, also with arcs and paths of weight zero.",
  ["inputs", "histories"], "all weights within the bounds, all pairs of the small graphs",
  "There is no test of the alternatives; penalties that remain only change later queries whose paths touch them.",
  ["engine/src/algo/ch_potentials/penalty.rs", "engine/src/algo/ch_potentials/query.rs", "engine/src/algo/topocore.rs"], "penalized weights in a shared server, reset of touched arcs, capped search", "graphs of 4-6 nodes whose nodes are all in the core, 1-2 symbolic weights (0-40); weights so small that 11 times a weight fits 32 bits")
NA = []
