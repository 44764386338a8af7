W = "-w -Wno-psabi"
REPOFLAGS = "-DNDEBUG -march=x86-64-v2 -ffast-math -std=c++11 -fPIC " + W
HFLAGS = "-std=c++17 -DNDEBUG -march=x86-64-v2 -ffast-math -fPIC " + W

LIBSRC = ["bit_select", "bit_vector", "contraction_hierarchy", "customizable_contraction_hierarchy", "geo_position_to_node",
          "graph_util", "id_mapper", "nested_dissection", "osm_decoder", "osm_graph_builder", "osm_profile", "osm_simple",
          "protobuf", "buffered_asynchronous_reader", "file_data_source", "strongly_connected_component", "timer", "vector_io", "expect", "verify"]
CORE = ["bit_select", "bit_vector", "contraction_hierarchy", "customizable_contraction_hierarchy", "graph_util", "id_mapper", "timer", "vector_io"]

CONFIGS = {
    # the repository's own flags
    "fast": dict(cxx="g++", libflags="-O3 " + REPOFLAGS, hflags="-O2 " + HFLAGS, ldflags="-fopenmp -pthread", libs="-lz -lm", tool_ldflags="-static",
                 per_source={"customizable_contraction_hierarchy": "-fopenmp"}),
    # memory errors are observable behaviour here: any access outside an object ends the case
    "asan": dict(cxx="g++", libflags="-O1 -g1 -fno-omit-frame-pointer -fsanitize=address -D_GLIBCXX_SANITIZE_VECTOR " + REPOFLAGS,
                 hflags="-O1 -g1 -fno-omit-frame-pointer -fsanitize=address -D_GLIBCXX_SANITIZE_VECTOR " + HFLAGS,
                 ldflags="-fsanitize=address -fopenmp -pthread", libs="-lz -lm",
                 per_source={"customizable_contraction_hierarchy": "-fopenmp"}),
}

# every access of the code under test is reported to the controlled scheduler in h/vsched.cpp (which takes the place of libtsan and libgomp)
CONFIGS["sched"] = dict(cxx="g++", libflags="-O2 -fsanitize=thread " + REPOFLAGS, hflags="-O2 -fsanitize=thread " + HFLAGS,
                        ldflags="-pthread -no-pie -Wl,--wrap=memcpy -Wl,--wrap=memmove -Wl,--wrap=memset", libs="-lz -lm -ldl",
                        per_source={"customizable_contraction_hierarchy": "-fopenmp"}, harness_flags_for={"vsched": "-O2 " + HFLAGS}, link_last=["vsched"], pin=True)

# the documented replacements for compilers and systems that lack something (doc/Setup.md), and a build without OpenMP
PORTABLE = " -DROUTING_KIT_NO_GCC_EXTENSIONS -DROUTING_KIT_NO_POSIX -DROUTING_KIT_NO_ALIGNED_ALLOC -DROUTING_KIT_ASSUME_LITTLE_ENDIAN"
MSYS = " -DROUTING_KIT_NO_POSIX -DROUTING_KIT_NO_ALIGNED_ALLOC -DROUTING_KIT_ASSUME_LITTLE_ENDIAN"
def variant(base, macros, **kw):
    c = dict(CONFIGS[base], **kw)
    for k in ("libflags", "hflags"):
        c[k] += macros
    return c
CONFIGS["portable"] = variant("fast", PORTABLE, per_source={})
CONFIGS["portable_asan"] = variant("asan", PORTABLE, per_source={})
CONFIGS["portable_sched"] = variant("sched", PORTABLE)
CONFIGS["msys"] = variant("fast", MSYS, per_source={})

def runs(h, libs=None, cfgs=("fast", "asan"), **kw):
    return [dict(harness=[h], cfg=c, libs=libs or LIBSRC, **kw) for c in cfgs]

A_SMALL = "small-scope hypothesis: graphs beyond the enumerated spaces and families behave like the enumerated ones"
PROPS = {}
for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C35"):
    PROPS[p] = dict(runs=runs("h_ch", CORE), assumptions=[A_SMALL, "reference distances by Floyd-Warshall / textbook Dijkstra in 64 bit"])
for p in ("C07", "C08", "C10", "C11"):
    PROPS[p] = dict(runs=runs("h_cch", CORE), assumptions=[A_SMALL, "reference distances by Floyd-Warshall / textbook Dijkstra in 64 bit"])
A_SCHED = ["the code is explored under sequentially consistent interleavings", "accesses that never conflict commute (checked with vector clocks on every explored execution)"]
PROPS["C09"] = dict(runs=[dict(harness=["h_par", "vsched"], cfg="sched", libs=CORE)], assumptions=A_SCHED + ["dynamic loop pieces are scaled down to one iteration so that small graphs have concurrent pieces"])
PROPS["C22"] = dict(runs=[dict(harness=["h_reader", "vsched"], cfg="sched", libs=["buffered_asynchronous_reader", "file_data_source"])], assumptions=A_SCHED)
PROPS["C12"] = dict(runs=[dict(harness=["h_shared", "vsched"], cfg="sched", libs=CORE + ["geo_position_to_node"])], assumptions=A_SCHED)
PROPS["C13"] = dict(runs=runs("h_dij", ["timer"]), assumptions=[A_SMALL, "reference distances by Bellman-Ford in 64 bit", "path lengths below the infinity constant"])
PROPS["C14"] = dict(runs=runs("h_dij", ["timer"]), assumptions=["small-scope hypothesis: larger queues behave like the enumerated ones"])
BITS = ["bit_select", "bit_vector", "id_mapper"]
A_FAM = "small-scope hypothesis: sizes and contents beyond the enumerated ones behave like the enumerated ones"
for p in ("C15", "C16"):
    PROPS[p] = dict(runs=runs("h_bits", BITS), assumptions=[A_FAM])

for p in ("C17", "C18"):
    PROPS[p] = dict(runs=runs("h_vec", BITS + ["graph_util"]), assumptions=[A_FAM])

for p in ("C19", "C20"):
    PROPS[p] = dict(runs=runs("h_graph", BITS + ["graph_util", "strongly_connected_component", "nested_dissection", "timer"]), assumptions=[A_SMALL])

PROPS["C21"] = dict(runs=runs("h_geo", ["geo_position_to_node"]), assumptions=[A_FAM, "distances agree up to floating point rounding: 0.6 m plus 4e-7 of the largest distance involved"])

OSMD = ["osm_decoder", "protobuf", "buffered_asynchronous_reader", "file_data_source", "timer"]
PROPS["C23"] = dict(runs=runs("h_pbf", OSMD), assumptions=["small-scope hypothesis: longer files behave like the enumerated ones", "files are written by the harness according to the published format; zlib is trusted"])
PROPS["C24"] = dict(runs=runs("h_pbf", OSMD), assumptions=["damage is a cut, one changed byte, a read error or one of the listed structural errors", "accesses outside of the data are seen as sanitizer reports or as a result that depends on what fresh memory holds"])
PROPS["C30"] = dict(runs=runs("h_pbf", OSMD), assumptions=[A_FAM])

OSMG = OSMD + ["osm_graph_builder", "osm_profile", "osm_simple", "bit_vector", "bit_select", "id_mapper", "graph_util"]
for p in ("C25", "C26", "C27"):
    PROPS[p] = dict(runs=runs("h_osm", OSMG), assumptions=["small-scope hypothesis: larger maps behave like the enumerated ones and the families", "maps are written by the harness according to the published format"])

PROPS["C28"] = dict(runs=runs("h_tag", ["timer"]), assumptions=[A_FAM, "at most 65536 tags"])
PROPS["C29"] = dict(runs=runs("h_io", ["vector_io", "bit_vector", "bit_select"]), assumptions=[A_FAM, "the file system returns what was written; failures are those the kernel reports"])

TOOLS = {
    "C31": ["encode_vector", "decode_vector", "compare_vector", "generate_constant_vector"],
    "C32": ["convert_road_dimacs_graph", "convert_road_dimacs_coordinates", "export_road_dimacs_graph", "randomly_permute_nodes", "compute_geographic_distance_weights", "osm_extract", "graph_to_dot", "graph_to_svg"],
    "C33": ["compute_contraction_hierarchy", "run_contraction_hierarchy_query", "run_dijkstra", "generate_test_queries", "generate_dijkstra_rank_test_queries",
            "compute_nested_dissection_order", "generate_random_node_list", "generate_random_source_times", "show_path", "examine_ch"],
}
for p in TOOLS:
    PROPS[p] = dict(runs=runs("h_cli", OSMG + ["vector_io"], tools=TOOLS[p]), assumptions=[A_FAM, "every program runs in a process of its own on files of a scratch directory"])

PROPS["C34"] = dict(assumptions=[A_FAM] + A_SCHED + ["the host is little endian"], runs=
    runs("h_bits", BITS, cfgs=("portable", "msys", "portable_asan")) + runs("h_pbf", OSMD, cfgs=("portable", "portable_asan")) + runs("h_cch", CORE, cfgs=("portable", "portable_asan"))
    + [dict(harness=["h_reader", "vsched"], cfg="portable_sched", libs=["buffered_asynchronous_reader", "file_data_source"]), dict(harness=["h_par", "vsched"], cfg="portable_sched", libs=CORE)])

# ---------------------------------------------------------------- technique and level notes for MANIFEST.json
EXH = "exhaustive enumeration of a bounded input space on the real code, judged by a reference model"
HIST = "exhaustive enumeration of bounded operation histories on the real code, judged by a reference model"
SCHED = "stateless model checking of the real code: all thread interleavings under a controlled scheduler"
NOTES = {
 "C01": (EXH, "every small multigraph x contraction order x witness limit x endpoint sets, plus graph families; Floyd-Warshall oracle"),
 "C02": (EXH, "every returned path of the same spaces is re-measured on the input graph"),
 "C03": (HIST, "all histories of query object operations (pinned and plain, several hierarchies, copies) up to a depth"),
 "C04": (EXH, "all pinned target/source lists of small graphs, answers compared with the reference distances"),
 "C05": (HIST, "non-commutative link functions over all small graphs, histories of extra weight objects up to a depth; fold along the path as the oracle"),
 "C06": (EXH, "all small hierarchies saved and loaded; all truncation points, size changes and write failure points"),
 "C07": (EXH, "every small graph x elimination order x metric; structure and distances against the reference"),
 "C08": (HIST, "all customization / partial customization histories up to a depth"),
 "C09": (SCHED, "OpenMP runtime and every memory access under the scheduler's control; complete for small graphs, preemption bounded for larger ones; vector clock race check on every execution"),
 "C10": (EXH, "all small graphs x metrics, perfect customization, witness search and CH extraction against the reference"),
 "C11": (HIST, "all histories of CCH query object operations up to a depth"),
 "C12": (SCHED, "all interleavings of queries sharing one index, results compared with the sequential ones"),
 "C13": (HIST, "every small graph, weight function and source set, and all histories of one Dijkstra object over several graphs"),
 "C14": (HIST, "all operation sequences of the queues and flag sets up to a depth, judged after every operation"),
 "C15": (HIST, "all sizes up to 1100, all resize pairs, all operation sequences up to a depth, storage words compared bit by bit"),
 "C16": (EXH, "all small sets, boundary sets, word patterns and block fillings, every id compared"),
 "C17": (EXH, "every permutation, key vector, filter and sorted id vector up to the bounds, several element types, key counts on both sides of the bucket sort switch"),
 "C18": (EXH, "every small multigraph and pair list, all node pairs and walks"),
 "C19": (EXH, "every small digraph and arc order against reachability, deep families with known components"),
 "C20": (EXH, "every small graph x terminal sets (brute force minimum cuts), sides, position patterns and separator functions; decomposition trees checked edge by edge"),
 "C21": (EXH, "every sequence of points from small universes (poles, date line, antipodes, repetitions) filling one and two tree levels, point families; direct search in long double as oracle"),
 "C22": (SCHED, "all interleavings of reader and consumer thread over all short-read patterns, failure points and buffer sizes in bounds, spurious wake-ups included"),
 "C23": (EXH, "every sequence of up to three objects x grouping x encoding style, the product of all encoding options, long blocks, short reads, callback subsets; objects compared one by one"),
 "C24": (EXH, "every truncation point, byte change, read error position of ten files, all short files over an alphabet, structural damage; judged for termination, error, memory use"),
 "C25": (EXH, "every map of one, two and three short ways over four nodes x directions x geometry forms, demanded and missing node sets, every object order, families; an independent construction as oracle"),
 "C26": (EXH, "every member list up to four members, every restriction and restriction pair on twelve crossings, every pair of arm angles around the limits; an independent resolution as oracle"),
 "C27": (EXH, "the full product of the tag values the profiles look at, all pairs of speed limit texts, all numbers up to 20000 and all powers, way lengths up to five times around the globe; rule tables as oracle"),
 "C28": (HIST, "every list of up to five tags over colliding keys, all build/clear/copy/move histories up to a depth, all byte values, sizes up to the supported maximum"),
 "C29": (EXH, "every short vector of thirteen file kinds, every bit vector size, every truncation point, every failing, partial or interrupted system call, every file size limit"),
 "C30": (EXH, "every byte sequence up to three bytes, longer ones over small alphabets, every tenth byte, boundary values; judged by an independent decoder"),
}
NOTES["C31"] = (EXH, "every value of the small types, boundary vectors, every float exponent, every string over an alphabet, every wrong line; the real programs run as processes and their files are compared byte by byte")
NOTES["C32"] = (EXH, "every small arc list converted, exported and permuted, every one-line or one-word change and truncation of the text files, all inconsistent file sets; an independent parser as oracle")
NOTES["C33"] = (EXH, "every small graph with all query pairs and query lists through the real programs, every cut hierarchy file; Floyd-Warshall oracle")
NOTES["C34"] = (EXH, "the libraries compiled with the documented fallback macros and without OpenMP go through the bit vector, id mapper, map decoding, file source and customization spaces again; the emulated compare-and-swap under all interleavings")
NOTES["C35"] = (EXH, "every small hierarchy with every single change (and pairs of changes) of every member over a boundary alphabet; an independent validity definition as oracle, memory errors observed")
NOT_APPLICABLE = {}
