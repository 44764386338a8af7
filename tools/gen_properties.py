#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept in one place so that wording stays consistent).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

CH = "src/contraction_hierarchy.cpp"; CHH = "include/routingkit/contraction_hierarchy.h"
CCH = "src/customizable_contraction_hierarchy.cpp"; CCHH = "include/routingkit/customizable_contraction_hierarchy.h"

p("C01", "Contraction hierarchy distances are exactly the shortest path distances",
  "For every directed graph (parallel arcs, loops, zero weights, arcs of infinite weight and unconnected parts included) a contraction hierarchy built by any of its construction functions, with any node order and any witness search limit, answers a query with any sets of sources and targets and any offsets with exactly the minimum over all pairs of source offset plus shortest path length plus target offset. If no pair is connected by a path of finite length the answer is the infinity constant. Giving a log callback changes nothing, and copied, moved, assigned and swapped hierarchies answer like the original, also after it is gone.",
  ["inputs", "configurations"], "all graphs, all weights, all contraction orders, all witness search limits, all source and target sets",
  "Tests can only sample graphs and orders; the tests that would exercise this on real graphs are not in the stable suite because they need external data, and the one stable hierarchy test builds a single random graph. A missing shortcut shows up only for particular combinations of order, ties, parallel arcs and pop limits.",
  [CH, CHH, "include/routingkit/id_queue.h"],
  [("witness search and shortcut insertion", CH+": build_ch_and_order / build_ch_given_rank"), ("parallel arc and loop removal", CH+": sort_arcs_and_remove_multi_and_loop_arcs"), ("bidirectional upward search with stall-on-demand", CH+": ContractionHierarchyQuery::run")],
  ["ContractionHierarchyQuery::get_distance"])

p("C02", "Contraction hierarchy paths are real paths of exactly the reported length",
  "After a finished point-to-point query the node path starts at the reported used source and ends at the reported used target, the arc path consists of existing input arcs that join consecutive nodes of the node path, and used source offset plus the sum of the input weights along it plus used target offset equals the reported distance. If there is no path both paths are empty and used source and used target are the invalid marker.",
  ["inputs", "configurations"], "all graphs, weights, contraction orders, source and target sets with offsets",
  "Unpacking is only wrong for particular nestings of shortcuts (equal length alternatives, parallel arcs, shortcuts replaced during contraction); the stable tests unpack no path.",
  [CH, CHH], [("shortcut unpacking", CH+": unpack_forward_arc / unpack_backward_arc"), ("input arc ids stored in the hierarchy", CH+": build_unpacking_information")],
  ["get_node_path", "get_arc_path", "get_used_source", "get_used_target"])

p("C03", "A reused contraction hierarchy query object answers like a fresh one",
  "Whatever legal sequence of operations a query object went through before, including resets, switching to another hierarchy, unfinished queries, point-to-point queries interleaved with one-to-many and many-to-one queries and any number of resets, the next query gives the same distance, a valid shortest path and correct used endpoints as a newly constructed query object would give. Copies of a query object are independent of each other, objects that were default-constructed and attached later, moved, assigned or swapped behave like any other, and query objects used in between do not disturb each other.",
  ["histories"], "all legal operation sequences on one query object",
  "Tests use a handful of fixed sequences; stale per-node state survives only particular interleavings of operations or a particular number of resets (for example when a compact generation counter wraps).",
  [CH, CHH, "include/routingkit/timestamp_flag.h", "include/routingkit/id_queue.h"],
  [("generation counters instead of clearing", "include/routingkit/timestamp_flag.h"), ("reset functions", CH+": ContractionHierarchyQuery::reset")])

p("C04", "CH one-to-many and many-to-one queries agree with single queries",
  "For every list of pinned targets (repetitions, any order, any length, the empty list, targets equal to sources) and every set of sources with offsets, the i-th reported distance is the exact shortest distance to the i-th pinned target and the i-th reported used source is a source attaining it, or the infinity constant and the invalid marker if none exists. The mirrored statement holds for pinned sources, and pinned lists stay valid over any number of source changes.",
  ["inputs", "histories"], "all graphs, pinned lists, source sets and sequences of re-runs on one pinned list",
  "The pinned query tests need external graphs and are not run; selection bookkeeping only goes wrong for special lists (duplicates, pinned node inside another one's search space, more entries than nodes).",
  [CH, CHH], [("target selection and downward sweep", CH+": pin / run_to_pinned_targets"), ("selected-node order arrays", CH)])

p("C05", "Extra weight distances are the fold of the link function along a shortest path",
  "For every per-arc extra weight and every associative link function (also non-commutative ones and types without arithmetic) the extra weight distance of a query equals linking, in path order, the extra weights of the arcs of some shortest path between the query's endpoints, for single, one-to-many and many-to-one queries, precomputed or not. It is a default constructed value if there is no path or the path has no arcs, the link function never sees a default constructed value, and query and extra weight objects can be reused and reset for other weights or hierarchies.",
  ["inputs", "histories"], "all graphs, orders, extra weights and link functions",
  "The stable test samples one random graph with commutative addition; the order of links, and default values, are visible only with non-commutative links and particular shortcut nestings.",
  [CHH, CH], [("recursive shortcut weights", CHH+": detail::ShortcutWeights"), ("many-to-many extraction", CHH+": detail::extract_distances_to_targets"), ("precomputed extra weights", CHH+": ContractionHierarchyExtraWeight::reset")])

p("C06", "A stored contraction hierarchy is read back identically or rejected",
  "Writing a hierarchy and reading it back through any of the stream, callback and file interfaces gives a hierarchy that answers every query identically. Reading data that is truncated, that is too long for the announced size, or that does not start with the expected header reports an error by an exception and never yields a hierarchy.",
  ["inputs", "crash_points"], "all hierarchies, all truncation points, all announced sizes",
  "No stable test stores a hierarchy. Every truncation point of a file is a crash point that a test would have to enumerate.",
  [CH, CHH, "src/file_data_source.cpp"], [("sized read with header and length check", CH+": ContractionHierarchy::read"), ("write", CH+": ContractionHierarchy::write")])

p("C07", "Customizable contraction hierarchy distances and paths are exact",
  "For every directed graph, every elimination order, every weight assignment (zero and infinite weights included) and both settings of the always-infinite-arc filter, a query on a fully customized metric returns the exact multi-source multi-target shortest distance, and its paths are real input paths from the used source to the used target whose weights and offsets sum up to that distance. If there is no path of finite length the distance is the infinity constant, paths are empty and used endpoints are invalid. Copied, moved, assigned and swapped hierarchies answer like the original, also after it is gone.",
  ["inputs", "configurations"], "all graphs, all orders, all weights, both filter settings, all source and target sets",
  "Exactness depends on the chordal completion, on parallel and antiparallel arcs sharing one internal arc and on triangle enumeration order, which single random instances do not cover; the stable tests only cover resets.",
  [CCH, CCHH], [("chordal supergraph construction", CCH+": constructor"), ("basic customization by lower triangles", CCH+": customize"), ("elimination tree query", CCH+": CustomizableContractionHierarchyQuery::run"), ("path unpacking", CCH+": unpack")])

p("C08", "Partial customization equals full customization after any update history",
  "After any sequence of arc weight changes, with every changed arc announced, a partial customization leaves the metric in a state in which every query distance and path is the same as after a full customization with the new weights. This holds for increases and decreases, arcs going to and coming from infinite weight, repeated and unneeded announcements, announcements followed by a reset of the announcement set, any number of rounds on the same object, and objects attached to another hierarchy.",
  ["histories", "inputs"], "all graphs, orders and sequences of weight change batches",
  "The stable tests never run a partial customization on changed weights; missing propagation needs a specific triangle nesting together with a specific old and new weight.",
  [CCH, CCHH, "include/routingkit/id_set_queue.h"], [("propagation queue", CCH+": CustomizableContractionHierarchyPartialCustomization::customize")])

p("C09", "Parallel customization gives the sequential result for every schedule",
  "Customizing a metric in parallel gives, for every thread count and every interleaving of the threads, exactly the metric that the sequential customization gives, and no two threads access the same memory without synchronization while one of them writes (apart from weights that are only read plainly and lowered atomically in the same step). One parallelization object can customize several metrics of the same hierarchy, one after another or at the same time.",
  ["schedules", "inputs", "configurations"], "all thread interleavings, thread counts, graphs and weights",
  "The test suite runs no parallel customization with comparison, and a run observes one schedule; a missing barrier or a wrong level assignment is invisible in almost all schedules.",
  [CCH, CCHH], [("levels of independent arcs", CCH+": CustomizableContractionHierarchyParallelization"), ("OpenMP barrier per level", CCH+": customize(metric, thread_count)")],
  hook="none: the OpenMP runtime and memory instrumentation are replaced at link time")

p("C10", "Perfect customization yields an exact hierarchy and leaves the metric usable",
  "The contraction hierarchy extracted from a customized metric by the perfect witness search answers every query with exact distances and valid paths for every graph, order, weight assignment and filter setting. Afterwards the metric object is still usable: resetting it to weights, customizing it fully, in parallel or partially and querying it give exact results.",
  ["inputs", "histories"], "all graphs, orders, weights and sequences of extraction and customization",
  "The perfect customization test needs an external graph; removing one arc too many only matters for ties, zero weights and infinite arcs in special triangle configurations.",
  [CCH, CH], [("perfect customization and arc removal", CCH+": build_contraction_hierarchy_using_perfect_witness_search")])

p("C11", "A reused CCH query object and CCH pinned queries answer exactly",
  "Whatever legal sequence of operations a customizable-hierarchy query object went through (resets, switching the metric or the hierarchy, re-customized metrics, pinned and plain queries interleaved, having been default-constructed and attached later, copied, moved, assigned or swapped at any point), and whatever other query objects do in between, each query gives the exact distance and valid paths for the weights then in force. For every pinned list, repetitions included, the i-th distance of a one-to-many or many-to-one run is the exact distance to or from the i-th entry.",
  ["histories", "inputs"], "all legal operation sequences and pinned lists",
  "The stable test covers one reset sequence on one graph; leftovers in the elimination tree search space depend on the exact sequence.",
  [CCH, CCHH], [("reset of visited elimination tree paths", CCH+": CustomizableContractionHierarchyQuery::reset"), ("pinned sweeps", CCH+": run_to_pinned_targets")])

p("C12", "Queries of different threads on one shared index do not interfere",
  "Several threads, each with query objects of its own, can query one shared index at the same time (contraction hierarchy with extra weights, customizable hierarchy with metric, Dijkstra on one graph, geographic nearest neighbour index, id mapper) and each obtains what it would obtain alone. No query operation modifies the shared index or any other state shared between threads, and metrics of one customizable hierarchy can be customized by different threads at the same time.",
  ["schedules"], "all interleavings of query operations of concurrent threads",
  "All tests are single threaded; a hidden shared buffer would give wrong results only in rare interleavings.",
  [CH, CHH, CCH, CCHH, "include/routingkit/dijkstra.h", "src/geo_position_to_node.cpp", "src/id_mapper.cpp"],
  [("all scratch state lives in the query object", CHH+": ContractionHierarchyQuery"), ("index types are only read by queries", CCHH)],
  hook="none: memory accesses are observed by compiling with thread-sanitizer instrumentation and a runtime of our own")

p("C13", "Dijkstra settles nodes in distance order with exact distances and paths",
  "For every graph, weight function (time dependent FIFO ones and infinite weights included; finite path lengths below the infinity constant) and set of sources with departure times, the sequence of settled nodes is non-decreasing in distance, contains exactly the reachable nodes once each, and reported distances and paths are exact shortest ones, both after every single step for the nodes settled so far and at the end. A node that is not reached has infinite distance and an empty path, and an object reset for the same or another graph behaves like a new one.",
  ["inputs", "histories"], "all graphs, weights, source sets and reset histories",
  "The Dijkstra test needs an external graph and is not in the stable set.",
  ["include/routingkit/dijkstra.h", "include/routingkit/id_queue.h", "include/routingkit/timestamp_flag.h"],
  [("addressable heap", "include/routingkit/id_queue.h"), ("settled flags", "include/routingkit/timestamp_flag.h")])

p("C14", "Priority queues and flag sets behave like their mathematical models",
  "After any legal sequence of operations the addressable min-queue returns an entry with minimum key, knows which ids it contains and with which key, and reports truthfully whether a key change took effect; the min-id set queue always returns the smallest contained id and ignores double insertions; the flag set reports exactly the flags set since the last reset, for any number of resets. Default-constructed, moved-to, copied, assigned and cleared objects obey the same contract.",
  ["histories"], "all operation sequences",
  "Unit tests run a few sequences; heap order violations and counter wrap-around need specific sequences and sizes.",
  ["include/routingkit/id_queue.h", "include/routingkit/id_set_queue.h", "include/routingkit/timestamp_flag.h"],
  [("four-ary heap with positions", "include/routingkit/id_queue.h"), ("hierarchical bit set", "include/routingkit/id_set_queue.h"), ("generation counter", "include/routingkit/timestamp_flag.h")])

p("C15", "Bit vectors equal sequences of booleans for every size and operation history",
  "For every size (0, word and block boundaries included) and every sequence of operations, a bit vector behaves like a sequence of booleans: reads, writes, bulk set/reset/invert, element-wise combinations, population counts, all/none/any-set predicates, equality, copies, moves, swaps and resizing with preserved prefix and filled tail all agree with it. Bits beyond the size in the underlying storage are always zero.",
  ["inputs", "histories"], "all sizes, contents and operation sequences",
  "The existing test uses a few sizes; errors hide at sizes that are multiples of the word or block size and in the padding after particular operations.",
  ["src/bit_vector.cpp", "include/routingkit/bit_vector.h", "src/bit_select.cpp"],
  [("padding masking", "src/bit_vector.cpp: get_padding_mask"), ("512 bit blocks", "src/bit_vector.cpp")])

p("C16", "Id mappers are exact mutually inverse rank and select functions",
  "For every subset of global ids, given as a bit vector, the local id of a contained global id is the number of contained smaller ids, the global id of a local id is its inverse, ids that are not contained give the invalid marker or the supplied default, and counts agree. Mapping ids back and forth gives the original ids, for copied and moved mappers alike.",
  ["inputs", "histories"], "all subsets and sizes",
  "Tests use a few random sets; rank and select tables go wrong only at block boundaries, at last blocks, or for words with special bit patterns.",
  ["src/id_mapper.cpp", "include/routingkit/id_mapper.h", "src/bit_select.cpp", "src/bit_vector.cpp"],
  [("block prefix sums", "src/id_mapper.cpp"), ("in-word select", "src/bit_select.cpp: uint512_find_nth_set_bit")])

p("C17", "Permutation, sorting, inversion and filter functions meet their definitions",
  "For every input, permutation functions (apply, apply inverse, in-place element-wise apply, invert, chain, identity, random) agree with the mathematical definition including the variants that let invalid ids pass; the bucket and comparison sorts and their sort permutations are correct, and stable where their name says so, by key and by comparator; and index inversion, filters and minimum and maximum functions give exactly the defined elements in the defined order. In-place, moving and copying variants give the same result for any element type.",
  ["inputs"], "all vectors, permutations, keys and element types within the documented preconditions",
  "The tests fix a few vectors; boundary inputs (empty, one bucket, invalid ids, non-trivially movable elements) are not covered.",
  ["include/routingkit/permutation.h", "include/routingkit/sort.h", "include/routingkit/inverse_vector.h", "include/routingkit/filter.h", "include/routingkit/min_max.h"],
  [("cycle-walking in-place permutation", "include/routingkit/permutation.h"), ("bucket sort", "include/routingkit/sort.h"), ("invert_vector", "include/routingkit/inverse_vector.h")])

p("C18", "Graph utilities locate arcs, convert paths and order arcs exactly",
  "For every directed multigraph the arc look-up functions return an arc joining the two given nodes exactly if there is one and the invalid marker otherwise, the node path of an arc path visits exactly the start node and then the heads of its arcs, the arc path of a node path joins consecutive nodes by existing arcs, and the two-key sort permutations order arcs by tail and then by head, as a permutation, also when applied from the left or inverted. Converting between tail array and first-out array loses nothing.",
  ["inputs"], "all directed multigraphs, node pairs, walks and arc orders",
  "There is no unit test for these functions at all.",
  ["src/graph_util.cpp", "include/routingkit/graph_util.h", "include/routingkit/inverse_vector.h"],
  [("two-key sort permutations", "include/routingkit/graph_util.h, include/routingkit/sort.h"), ("arc search", "src/graph_util.cpp: find_arc_given_sorted_head")])

p("C19", "Strongly connected components are exact and the largest one is maximal",
  "For every directed graph two nodes get the same component id exactly if each can reach the other, component ids are contiguous from zero, and the largest component marker selects exactly the nodes of one component of maximum size. Loops, parallel arcs, isolated nodes and arbitrarily deep graphs are handled.",
  ["inputs"], "all directed graphs",
  "The existing test covers a few graphs; low-link bookkeeping errors depend on the arc visiting order.",
  ["src/strongly_connected_component.cpp", "include/routingkit/strongly_connected_component.h"],
  [("iterative depth first search", "src/strongly_connected_component.cpp")])

p("C20", "Nested dissection orders are permutations and separators really separate",
  "For every graph the nested dissection order contains every node exactly once, and every cut and separator computed on the way is valid: no path avoiding a separator joins the two sides, a cut side's claimed cut size is the number of crossing edges, cuts produced by the flow based cutter are minimum for its terminals, and pieces of a decomposition partition the fragment without losing nodes or edges. This holds for unconnected, empty, tiny, complete, loop-containing and symmetric inputs.",
  ["inputs"], "all symmetric graphs and geographic positions",
  "The stable test runs one tiny graph; flow augmentation and piece assembly have many shape dependent branches.",
  ["src/nested_dissection.cpp", "include/routingkit/nested_dissection.h"],
  [("decomposition into pieces", "src/nested_dissection.cpp: decompose_graph_fragment_into_connected_components"), ("inertial flow cutter", "src/nested_dissection.cpp: inertial_flow"), ("separator derivation", "src/nested_dissection.cpp: derive_separator_from_cut")])

p("C21", "Nearest-node search returns the true nearest node and all nodes in range",
  "For every set of points (repeated points, points at the poles and across the date line included) and every query position and radius, the nearest-neighbour query returns a point of minimum great-circle distance with its distance if one lies within the radius and the invalid marker otherwise, and the range query returns exactly the points within the radius, each once, with their distances. Geographic distance is a number that is symmetric, non-negative and zero for identical positions.",
  ["inputs"], "all point sets, query positions and radii (up to the rounding of the distance function)",
  "Tests sample random points in a small area; pruning errors in the vantage point tree need special geometry such as duplicates, antipodes or ties at the split radius.",
  ["src/geo_position_to_node.cpp", "include/routingkit/geo_position_to_node.h", "include/routingkit/geo_dist.h"],
  [("vantage point tree", "src/geo_position_to_node.cpp"), ("geo_dist", "include/routingkit/geo_dist.h")])

p("C22", "The asynchronous reader delivers the exact byte stream in every schedule",
  "For every interleaving of reader and consumer threads, every way the byte source splits its answers, every buffer size and every sequence of read sizes, the consumer receives exactly the bytes of the source in order, then end of stream, and every call returns. If the source fails with an exception the consumer gets that exception instead of waiting forever, and destroying or moving the reader at any point neither deadlocks nor leaves its thread running. A file source delivers exactly the file's bytes, reports its true size at any point, can be rewound and moved, and releases its file.",
  ["schedules", "fault_sequences", "histories"], "all interleavings, all short-read patterns, all failure points, all read size sequences",
  "A test run observes one schedule; lost wake-ups and wrap-around errors occur only in particular interleavings and read size patterns.",
  ["src/buffered_asynchronous_reader.cpp", "src/buffered_asynchronous_reader.h", "src/file_data_source.cpp"],
  [("mutex and condition variable hand-over", "src/buffered_asynchronous_reader.cpp"), ("ring buffer with mirrored block", "src/buffered_asynchronous_reader.cpp")],
  hook="none: pthread primitives are interposed at link time")

p("C23", "OSM PBF decoding delivers exactly the objects of the file",
  "For every well-formed OSM PBF file (dense and plain nodes, any granularity and offsets, compressed and raw blobs, any grouping into blocks, missing tags, empty blocks, unknown fields and block types) the decoder calls back once for every node, way and relation with its exact id, rounded position, tags, node list and members, in file order for the unordered reader. The ordered reader delivers all nodes, then all ways, then all relations whatever the order in the file.",
  ["inputs", "configurations"], "all well-formed PBF files and callback subsets",
  "The OSM test needs an external map and is not run; encodings that common map extracts do not use are never exercised.",
  ["src/osm_decoder.cpp", "include/routingkit/osm_decoder.h", "src/protobuf.cpp", "src/protobuf.h", "src/osmpbfformat.proto"],
  [("block decoding", "src/osm_decoder.cpp: internal_read_osm_pbf"), ("delta and zigzag decoding", "src/osm_decoder.cpp"), ("field decoding", "src/protobuf.cpp")])

p("C24", "Malformed OSM PBF input ends with an error, not with a crash, hang or garbage",
  "If an OSM PBF file is truncated at any byte, or any of its bytes is changed, or reading it fails, then decoding terminates, never accesses memory it does not own, and either reports an error by an exception or delivers well-formed objects. A truncated file never silently looks like a complete one unless the cut lies exactly between two blocks. A file with a second header, or with a header behind data, is refused. So is a block whose data is not of the size it declares or that contains both plain and compressed data, and an object without its id, with a key, value or role that is not in the string table, or with parallel arrays (keys and values, the coordinates of dense nodes, ids, roles and types of members) of different lengths.",
  ["crash_points", "fault_sequences", "inputs"], "all truncation points, single byte corruptions and read error positions",
  "No test feeds malformed data; the space of truncation points has to be enumerated.",
  ["src/osm_decoder.cpp", "src/protobuf.h", "src/protobuf.cpp", "src/buffered_asynchronous_reader.cpp"],
  [("bounds checks", "src/osm_decoder.cpp"), ("size limits", "src/osm_decoder.cpp"), ("read_or_throw", "src/buffered_asynchronous_reader.h")])

p("C25", "The OSM routing graph has exactly the nodes, arcs and geometry the map defines",
  "For every map, the routing nodes are exactly the end points of the used ways and the nodes that occur more than once in used ways (all nodes of used ways when demanded) plus the nodes the user demands, numbered in the order of their OSM ids, at their positions; routing ways are the used ways with at least two nodes, numbered in the order of their OSM ids, and the way callback is called once for each. The arcs are exactly the sections of ways between consecutive routing nodes in the open directions, each with its routing way, its direction relative to the way, the sum of its segment lengths in metres and, as demanded, all or the first and last of its inner nodes in travel order; the arcs are sorted by tail and head with a matching first_out. Other ways contribute nothing, and neither the order of the objects in the file nor its division into blocks matters. The simple car, bicycle and pedestrian loaders give exactly the graph that follows from their profile.",
  ["inputs"], "all small maps, direction categories, geometry options and demanded node sets",
  "No stable test builds a routing graph; special shapes (closed ways, repeated nodes, ways sharing only inner nodes, missing nodes) are not covered.",
  ["src/osm_graph_builder.cpp", "include/routingkit/osm_graph_builder.h", "src/osm_simple.cpp", "src/osm_profile.cpp"],
  [("two-pass id mapping", "src/osm_graph_builder.cpp: load_osm_id_mapping_from_pbf"), ("arc construction", "src/osm_graph_builder.cpp: load_osm_routing_graph_from_pbf"), ("simple loaders", "src/osm_simple.cpp")])

p("C26", "Turn restrictions become exactly the forbidden turns of the map",
  "For every map with turn restriction relations, the forbidden turns are exactly the pairs of an arc of a from way entering and an arc of a to way leaving the via node that a prohibition names, or the pairs of that from arc with every other leaving arc that a mandatory restriction excludes, strictly ascending by first and then second arc. Where several arcs of the ways meet at the via node, the turn direction selects the pair; when it leaves none or several, the restriction contributes nothing. A restriction without a via node applies at the node where its ways meet if there is exactly one; a mandatory straight-on restriction on one way without a via node keeps traffic on the way at every inner node in both directions. Relations with unknown values, with several via members or a via member that is no node, without from or to ways, with several of these in a mandatory restriction, or referring to objects that are not part of the routing graph contribute nothing and do not disturb the others.",
  ["inputs"], "all small maps with restriction relations",
  "There is no test for turn restrictions.",
  ["src/osm_graph_builder.cpp", "src/osm_profile.cpp", "src/osm_simple.cpp"],
  [("restriction decoding", "src/osm_profile.cpp: decode_osm_car_turn_restrictions"), ("turn lookup", "src/osm_graph_builder.cpp: load_osm_routing_graph_from_pbf")])

p("C27", "OSM profiles are total and consistent for every tag combination",
  "For every combination of tags on a way the car, bicycle and pedestrian profiles classify without failing and as their rules say: which ways are used, in which directions, with which comfort level between the minimum and the maximum, name and speed. Speeds are positive, an explicit speed limit is honoured in its unit (the lowest one of several, limited to a million km/h), and otherwise the road class decides. Travel times in milliseconds are the length divided by the speed for every length, saturating at the infinity constant instead of overflowing. Results depend only on the tags, not on the order of the tags, on earlier calls or on logging.",
  ["inputs"], "all combinations over the tag alphabet the profiles look at",
  "There are no tests for profiles; the tag combinations form a product space that has to be enumerated.",
  ["src/osm_profile.cpp", "include/routingkit/osm_profile.h", "src/osm_simple.cpp", "src/osm_extract.cpp"],
  [("speed and access rules", "src/osm_profile.cpp"), ("travel time computation", "src/osm_simple.cpp")])

p("C28", "Tag maps look up exactly the tags they were built from",
  "For every list of up to 65536 tags and every history of building, clearing, copying and moving tag map objects, looking up a key returns the value stored for that key in the last build (the first one when a key occurs repeatedly), looking up a missing key returns the null pointer, the size and the iteration show exactly the stored tags, and nothing of an earlier content remains visible. This does not depend on hash collisions between keys or on the byte values in them.",
  ["inputs", "histories"], "all tag lists up to the supported size and all rebuild histories",
  "The test uses a few distinct tags; collisions and stale content after a rebuild to a smaller or empty list are not covered.",
  ["include/routingkit/tag_map.h"], [("hash sorted index", "include/routingkit/tag_map.h: TagMap::build"), ("lookup", "include/routingkit/tag_map.h: TagMap::operator[]")])

p("C29", "Vector files are read back identically and I/O failures are reported",
  "For every vector of plain values, strings without zero bytes, or bits, and every single value, saving it and loading it returns an equal one, whatever the file held before; the stream and function object forms read back exactly what they wrote. A file that cannot be opened, that is cut inside an element, whose size contradicts its header or the single value expected, that cannot be read completely or that cannot be written and closed completely is reported by an exception and never silently yields other data; partial transfers and interruptions by the operating system do no harm.",
  ["inputs", "crash_points", "fault_sequences"], "all vectors, all truncation points, all write failure points",
  "There is no stable test for vector files; failures of the operating system do not occur in tests.",
  ["src/vector_io.cpp", "include/routingkit/vector_io.h", "src/bit_vector.cpp"],
  [("load_vector / save_vector", "include/routingkit/vector_io.h"), ("string and bit vector formats", "src/vector_io.cpp")])

p("C30", "Wire format primitives decode every valid encoding and reject all others",
  "For every value, decoding its variable-length, zigzag, fixed-width or length-delimited wire encoding gives the value and consumes exactly its bytes, and a decoder of a message hands every field with its id and content in order to the handler of its kind. Encodings that are too long, truncated or of an unknown wire type are rejected by an exception without reading outside the given range.",
  ["inputs"], "all byte sequences up to the bound and all values at encoding boundaries",
  "The existing test decodes a few messages; malformed encodings are not covered.",
  ["src/protobuf.cpp", "src/protobuf.h"], [("decode_uint64 / zigzag", "src/protobuf.cpp"), ("decode_protobuf_message_with_callbacks", "src/protobuf.h")])

p("C31", "Text and binary vector files convert into each other without loss",
  "For every element type and every vector (normal finite numbers and infinities for floating point, strings without NUL bytes), decode_vector prints one line per element, integers of all widths as decimal numbers, and feeding that text to encode_vector reproduces the binary file exactly; strings may contain line breaks and backslashes. encode_vector accepts exactly the integers of the type's range. compare_vector says that two vectors are the same exactly if they are, and otherwise counts the differing elements. A line that is no number or is out of range, an unknown type, a cut, missing or unreadable input and an output that cannot be written make the program exit with a non-zero status, and encode_vector leaves an existing output file alone in the first case.",
  ["inputs"], "all small data sets and input texts, all values of the small types, all exponents",
  "No test runs the command line tools.",
  ["src/encode_vector.cpp", "src/decode_vector.cpp", "src/compare_vector.cpp", "src/generate_constant_vector.cpp", "src/vector_io.cpp", "include/routingkit/vector_io.h"],
  [("printing", "src/decode_vector.cpp convert_num_data, convert_string_data"), ("parsing", "src/encode_vector.cpp convert_int_data, convert_string_data")])
p("C32", "Graph conversion programs keep the graph",
  "convert_road_dimacs_graph turns every well formed DIMACS graph, with its arcs in any order and with loops, parallel arcs, comments and blank lines, into first_out, head and weight files with exactly the same arcs and weights, sorted by tail and head; export_road_dimacs_graph writes a DIMACS file of the same graph; convert_road_dimacs_coordinates converts the coordinates of every node, in any order. randomly_permute_nodes renames the nodes by one permutation and moves every weight file along with the arcs, the same way for the same seed. compute_geographic_distance_weights writes the geographic length of every arc, and osm_extract writes the graph, travel times, way speeds and names that the library loads from the map. Malformed, inconsistent, cut or missing input (no header, wrong counts, node ids out of range, extra or negative numbers, nodes without or with two coordinates, inconsistent first_out, head and weight files) makes the program exit with a non-zero status and leave existing output files alone, never crash.",
  ["inputs"], "all small graphs and arc orders, all single line and word changes and truncations of a file",
  "No test runs the command line tools.",
  ["src/convert_road_dimacs_graph.cpp", "src/convert_road_dimacs_coordinates.cpp", "src/export_road_dimacs_graph.cpp", "src/randomly_permute_nodes.cpp", "src/compute_geographic_distance_weights.cpp", "src/osm_extract.cpp", "src/verify.cpp"],
  [("DIMACS parsing", "src/convert_road_dimacs_graph.cpp"), ("renaming", "src/randomly_permute_nodes.cpp")])
p("C33", "Query programs answer exactly the queries of their files",
  "For every graph and list of source and target nodes (also an empty one), run_dijkstra and compute_contraction_hierarchy followed by run_contraction_hierarchy_query write, in the order of the queries, the same shortest path distances, infinity where no path exists; show_path prints a shortest path for every query. generate_test_queries and generate_random_node_list write the demanded number of node ids, drawn from all nodes of the graph; generate_dijkstra_rank_test_queries writes for every source, for every power of two from 2^6 up to the number of reachable nodes, the node settled at that position with its distance; both are the same for the same seed. compute_nested_dissection_order writes a permutation of the nodes. Inconsistent or cut graph and hierarchy files, node ids outside of the graph, query lists of different length, position files of the wrong length and missing files make the program exit with a non-zero status and leave an existing output file alone, never crash.",
  ["inputs"], "all small graphs and query lists, all cut hierarchy files",
  "No test runs the command line tools.",
  ["src/compute_contraction_hierarchy.cpp", "src/run_contraction_hierarchy_query.cpp", "src/run_dijkstra.cpp", "src/generate_test_queries.cpp", "src/generate_dijkstra_rank_test_queries.cpp", "src/compute_nested_dissection_order.cpp", "src/generate_random_node_list.cpp", "src/show_path.cpp", "src/examine_ch.cpp", "src/verify.cpp"],
  [("query loop", "src/run_dijkstra.cpp, src/run_contraction_hierarchy_query.cpp"), ("rank queries", "src/generate_dijkstra_rank_test_queries.cpp")])

p("C34", "The documented fallback configurations behave like the default one",
  "A library that is compiled with any of the documented macros ROUTING_KIT_NO_GCC_EXTENSIONS, ROUTING_KIT_NO_POSIX, ROUTING_KIT_NO_ALIGNED_ALLOC and ROUTING_KIT_ASSUME_LITTLE_ENDIAN (on a little endian host), or without OpenMP, gives the same results as the default build: bit vectors and id mappers answer every operation the same way and stay inside their memory, map files are decoded to the same objects or rejected alike, a file source delivers the bytes, size and errors of its file, and parallel customization yields the weights of the sequential one in every schedule, and without OpenMP for every thread count.",
  ["inputs", "schedules", "configurations"], "all inputs of the parts that have a replacement, all interleavings of the emulated compare-and-swap",
  "Tests are built in the default configuration only; the replacement code is never compiled by them.",
  ["src/emulate_gcc_builtin.h", "src/bit_vector.cpp", "src/file_data_source.cpp", "src/file_data_source.h", "src/osm_decoder.cpp", "src/customizable_contraction_hierarchy.cpp"],
  [("emulated builtins", "src/emulate_gcc_builtin.h"), ("aligned allocation", "src/bit_vector.cpp: aligned_alloc, aligned_free"), ("C stream file source", "src/file_data_source.cpp"), ("byte order", "src/osm_decoder.cpp: ntohl")])

p("C35", "The error check accepts exactly the well formed hierarchies",
  "check_contraction_hierarchy_for_errors accepts every hierarchy the library builds or loads. It refuses, with a std::runtime_error and without touching memory outside of the hierarchy, every hierarchy that is not well formed: rank and order not inverse permutations of the nodes, first_out not starting at 0, not ascending or of the wrong size, arc vectors of the wrong size, heads outside of the graph or not above the tail, shortcut parts outside of the arc range or not below the shortcut, a shortcut weight that is not the sum of its parts, an original arc without arc id or with a node outside of the graph. A hierarchy with none of these flaws is accepted.",
  ["inputs"], "all hierarchies, with any damage to their members",
  "Tests only feed it correct hierarchies; a check that misses or invents a flaw, or that crashes on a damaged hierarchy, goes unnoticed.",
  ["src/contraction_hierarchy.cpp", "include/routingkit/contraction_hierarchy.h"],
  [("error check", "src/contraction_hierarchy.cpp: check_contraction_hierarchy_for_errors")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
