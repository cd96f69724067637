"""Which drivers, builds and scenarios decide which property."""
DRIVERS = {
    "static": ["static_f32.cpp", "static_small.cpp"],
    "dynamic": ["dynamic_a.cpp", "dynamic_b.cpp"],
    "inverted": ["inverted_a.cpp", "inverted_b.cpp", "inverted_c.cpp"],
    "distance": ["distance_a.cpp", "distance_b.cpp", "distance_c.cpp", "distance_d.cpp"],
    "numerics": ["numerics_a.cpp", "numerics_b.cpp"],
    "threads": ["threads_a.cpp"],
    "buffers": ["units_buffers.cpp"],
    "translator": ["units_translator.cpp"],
    "containers": ["containers_a.cpp", "containers_b.cpp"],
    "stats": ["stats_a.cpp"],
    "recall": ["stats_b.cpp"],
    "storage": ["storage_a.cpp", "storage_b.cpp", "storage_c.cpp"],
    "formats": ["formats_a.cpp", "formats_b.cpp"],
    "flat": ["flat_a.cpp", "flat_b.cpp"],
}


def S(driver, variant="rel", **k):
    return dict(driver=driver, variant=variant, **k)


# scale: multiplier of the number of cases each scenario declares (quick tier);
# thorough_scale: the same for the thorough tier.
PLAN = {
    "C01": [S("static", scale=6, thorough_scale=10)],
    "C02": [S("static", scale=6, thorough_scale=10)],
    "C03": [S("static", scale=6, thorough_scale=10)],
    "C04": [S("static", scale=6, thorough_scale=10)],
    "C05": [S("dynamic", scale=6, thorough_scale=10)],
    "C06": [S("dynamic", scale=6, thorough_scale=10)],
    "C07": [S("dynamic", scale=6, thorough_scale=10)],
    "C08": [S("flat", scale=10, thorough_scale=10)],
    "C09": [S("inverted", scale=6, thorough_scale=10)],
    "C10": [S("distance", v, scale=3, thorough_scale=10) for v in ("rel", "rel-v3", "rel-novnni", "rel-base")],
    "C11": [S("numerics", scale=10, thorough_scale=10), S("numerics", "asan", scale=2, thorough_scale=4), S("numerics", "rel-base", only="half_decode,half_encode_edges,half_encode_random", scale=4)],
    "C12": [S("threads", scale=10, thorough_scale=10), S("threads", "tsan", scale=4, thorough_scale=4)],
    "C13": [S(d, "tsan", scale=k, thorough_scale=t, watch="races") for d, k, t in (
        ("static", 1, 1), ("dynamic", 1, 1), ("inverted", 1, 1), ("flat", 1, 1), ("recall", 0.5, 1),
        ("stats", 2, 2), ("threads", 2, 2))],
    "C14": [S(d, "asannd" if d in ("static", "dynamic", "inverted", "flat") else "asan", scale=k, thorough_scale=t, watch="memory") for d, k, t in (
        ("static", 1, 1), ("dynamic", 1, 1), ("inverted", 1, 1), ("flat", 1, 1), ("distance", 1, 1), ("recall", 1, 1),
        ("stats", 2, 2), ("threads", 2, 2), ("containers", 5, 2), ("numerics", 1, 1), ("buffers", 3, 2), ("translator", 1, 1),
        ("storage", 0.5, 1), ("formats", 2, 1))],
    "C15": [S("translator", scale=10, thorough_scale=10), S("translator", "asan", scale=2, thorough_scale=4)],
    "C16": [S("containers", scale=80, thorough_scale=10), S("containers", "asan", scale=15, thorough_scale=4)],
    "C17": [S("storage", scale=20, thorough_scale=10), S("dynamic", scale=4, thorough_scale=10), S("inverted", scale=2, thorough_scale=4)],
    "C18": [S("storage", scale=20, thorough_scale=10), S("storage", "asan", scale=4, thorough_scale=4), S("formats", scale=20, thorough_scale=10)],
    "C19": [S("formats", scale=30, thorough_scale=10), S("formats", "asan", scale=4, thorough_scale=4)],
    "C20": [S("buffers", scale=80, thorough_scale=10), S("buffers", "asan", scale=10, thorough_scale=4)],
    "C21": [S("recall", scale=20, thorough_scale=10), S("recall", "asan", scale=2, thorough_scale=2)],
    "C22": [S("stats", scale=40, thorough_scale=10), S("stats", "asan", scale=6, thorough_scale=4)],
    "C24": [S("buffers", scale=80, thorough_scale=10), S("buffers", "asan", scale=10, thorough_scale=4)],
    "C25": [S("threads", scale=20, thorough_scale=20), S("threads", "tsan", scale=10, thorough_scale=10)],
}

_G = "Each case is drawn from the seed: %s. Non-trivial: the library code ran to the point where the monitors judged its outputs; two cases are the same when scenario, drawn configuration and index agree."
PROPS_INFO = {
    "C01": dict(rule=_G % "dataset shape, sizes, element types, metric, window/capacity, k, filters, result matrices pre-filled with poison"),
    "C02": dict(rule=_G % "one search request executed under several thread counts, batch splits, visited-set and prefetch settings, single-query scratch and range searches"),
    "C03": dict(rule=_G % "searches with a window as large as the collection, and with ordinary windows on clustered and random data, against exact ranking"),
    "C04": dict(rule=_G % "build parameters, thread counts, datasets including duplicates and tiny ones; every adjacency list of the built graph is inspected"),
    "C05": dict(rule=_G % "histories of insertions, deletions, consolidations, compactions, searches and reloads, mirrored in a reference map"),
    "C06": dict(rule=_G % "histories with maintenance at random points; after each the whole graph, the slot states and recall are examined"),
    "C07": dict(rule=_G % "requests that must be refused, injected in random states; full state fingerprint before and after"),
    "C08": dict(rule=_G % "dataset, metric, k, filters, batching and thread settings, compared with exact ranking"),
    "C09": dict(rule=_G % "clusterings and inverted indexes built from drawn datasets and parameters; complete membership check and answer check"),
    "C10": dict(rule=_G % "pairs of vectors of every supported type pair and dimension placed against guard pages, compared with extended-precision arithmetic, in builds for several instruction sets"),
    "C11": dict(rule=_G % "every half-precision pattern, numbers around every integer boundary, datatypes, versions, ids and text forms, compared with exact arithmetic written independently"),
    "C12": dict(rule=_G % "pool kinds and sizes, partitions, grain sizes, iteration ranges, injected delays, failing work items, resizes and moves, several callers; every item, worker and thread is accounted for"),
    "C13": dict(rule=_G % "parallel builds, batch searches, dynamic histories, clustering, calibration, statistics, pools and locks under ThreadSanitizer; cases are the executed workloads, every memory access of which is checked"),
    "C14": dict(rule=_G % "the workloads of all drivers, including refused operations and damaged files, under AddressSanitizer, LeakSanitizer and UndefinedBehaviorSanitizer"),
    "C15": dict(rule=_G % "histories of insertions, deletions, remaps, copies, reloads and refused requests with ids of several integer types, mirrored in a reference bijection"),
    "C16": dict(rule=_G % "sequences of writes, views, copies, moves, resizes, compactions and refused accesses on collections, arrays and graphs of several element types and allocators, mirrored in plain reference arrays; ends of maps and allocations"),
    "C17": dict(rule=_G % "datasets, graphs, translations, clusterings, parameter sets, distances and whole indexes of several types saved, reloaded with drawn allocators and threads and compared field by field; files written independently in older formats; saves onto a full disk"),
    "C18": dict(rule=_G % "saved artifacts damaged by truncation, exchange, removal, edits of every description field and header byte, and loads with wrong expectations; the loader's outcome is compared with the undamaged object"),
    "C19": dict(rule=_G % "files of every format written by an independent encoder and by the library, read back whole, partially, converted and element by element; identities in directories"),
    "C20": dict(rule=_G % "sequences of candidates with ties, repeats, stale and deleted entries offered to search buffers of drawn windows and capacities, and probes of the visited filter, against sorted reference lists"),
    "C21": dict(rule=_G % "result and ground truth tables of several id types and shapes against exact counting; calibrations of static and dynamic indexes over drawn targets and settings, replayed and measured"),
    "C22": dict(rule=_G % "datasets of several types, shapes and magnitudes, acceptance predicates, maps, thread counts and reduction parameters; k-means runs observed after every epoch and every batch, against extended-precision arithmetic"),
    "C24": dict(rule=_G % "sorted candidate lists, metrics, strategies, alphas and limits, against a reference selection written from the relaxation rule"),
    "C25": dict(rule=_G % "random locking programs over several threads with injected delays; recorded histories of reads and writes checked against a register; unprotected counters inside critical sections; TSan"),
}
