import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe:a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
V="include/svs/index/vamana/"
p("C01","Graph-index searches return truthful, ordered, distinct, in-range answers",
"Whatever the dataset, element types, metric, search parameters and query batch, every row of a (static) Vamana search lists stored vectors in best-first order under the metric, no vector twice, and each reported distance is the metric's value between that query and that stored vector. When fewer vectors than requested can be reached, the genuine answers come first and every remaining slot is marked with the all-ones 'no neighbor' id, never with a repeated, stale or out-of-range one.",
["inputs","configurations"],"all datasets, element types, metrics, graphs (also hand-made and disconnected ones), search parameters and query batches",
"The index tests need dataset files that are absent here, and even complete they compare recall on one dataset; order, distinctness, truth of distances and the short-answer case are never examined over inputs.",
[V+"index.h",V+"greedy_search.h",V+"search_buffer.h",V+"extensions.h",V+"search_params.h","include/svs/core/query_result.h","include/svs/orchestrators/vamana.h"],
[("greedy_search","greedy_search.h:80"),("SearchBuffer insertion/ordering","search_buffer.h"),("per_thread_batch_search / result copy","extensions.h")],
[("QueryResult","ids and distances per query","core/query_result.h")],["VamanaIndex::search","svs::Vamana::search"])
p("C02","Search answers do not depend on how the search is executed",
"For a fixed index and fixed search window, a query's answer (ids and distances) is the same whatever the number of threads, the other queries in the batch and its position in it, earlier searches, the visited-set setting, the prefetch parameters, and whether the search goes through the typed index, its single-query interface or the type-erased facade; changing the thread count or search parameters and changing them back restores the original answers.",
["schedules","configurations","histories"],"all thread counts, batch compositions, search histories, visited-set and prefetch settings, and calling interfaces",
"Existing tests run one thread configuration at a time against a recall threshold; equality of answers across configurations, schedules and histories is never asserted.",
[V+"index.h",V+"search_buffer.h",V+"filter.h",V+"greedy_search.h",V+"extensions.h","include/svs/orchestrators/vamana.h","include/svs/lib/threads/threadpool.h"],
[("per-thread search buffers and scratch","index.h search"),("VisitedFilter","filter.h"),("StaticPartition of the batch","lib/threads/types.h")],
None,["VamanaIndex::search","VamanaIndex::get_search_parameters","svs::Vamana::search"])
p("C03","Greedy search is exact with a full window and accurate with ordinary ones",
"Graph search started at the index's entry point explores best-first: when its window is at least as large as the collection it returns exactly the nearest of all vectors reachable in the graph from the entry point, and with any window it returns what the textbook best-first search with that window returns on the same graph. On indexes built with ordinary parameters over benign data, searches with windows several times the requested neighbor count reach high recall against exhaustive search.",
["inputs","configurations"],"all graphs, datasets, metrics, windows and queries",
"Tests compare recall on fixed stored results (absent here); the relation of search to its graph is never checked, so a search that stops early or skips neighbors survives while recall remains plausible.",
[V+"greedy_search.h",V+"search_buffer.h",V+"index.h",V+"vamana_build.h"],
[("greedy_search main loop","greedy_search.h"),("buffer next/done logic","search_buffer.h")],None,["VamanaIndex::search over hand-made and built graphs"])
p("C04","Index construction yields a well-formed, navigable graph",
"For every dataset, metric, element type, thread count and legal build parameters, building a Vamana index yields a graph with one vertex per vector in which every adjacency list has at most the configured maximum degree of entries, all in range, distinct and different from the vertex itself, and the stored vectors are unchanged. With ordinary parameters practically every vector is reachable from the entry point and finding a stored vector by itself succeeds.",
["inputs","configurations","schedules"],"all datasets (duplicates, tiny, collinear, constant), metrics, build parameters and thread counts",
"The build test needs a dataset file that is absent; structural invariants of the result are not asserted by any test, nor for any thread interleaving of the parallel build.",
[V+"vamana_build.h",V+"prune.h",V+"build_params.h","include/svs/core/graph/graph.h","include/svs/core/medioid.h"],
[("VamanaBuilder::construct / add_reverse_edges","vamana_build.h"),("heuristic prune","prune.h"),("per-vertex locks","vamana_build.h")],
[("graph","adjacency lists","core/graph/graph.h")],["auto_build","VamanaIndex::view_graph-equivalent accessors"])
p("C05","A dynamic index always answers from exactly its current live vectors",
"After any sequence of insertions, deletions, consolidations, compactions, searches and save/load steps, the dynamic index holds exactly the external ids inserted and not deleted since, with for each the vector last inserted under it: size, membership tests, id listings and vector retrieval agree with that set. Searches (graph-based and exhaustive) report only live external ids, distinct, best first, with the true distance to the vector now stored under that id, and exhaustive search over the live vectors is exact.",
["histories","inputs"],"all histories of add, delete, consolidate, compact, search, save, load and parameter changes",
"Tests run a short fixed script of mutations on a dataset that is absent here; histories that reuse ids and slots, delete entry points or whole neighborhoods are not explored.",
[V+"dynamic_index.h",V+"dynamic_search_buffer.h","include/svs/core/translation.h","include/svs/orchestrators/dynamic_vamana.h","include/svs/misc/dynamic_helper.h"],
[("slot metadata + translator","dynamic_index.h"),("MutableBuffer cleanup of invalid candidates","dynamic_search_buffer.h")],
[("status_","slot state Empty/Valid/Deleted","dynamic_index.h"),("translator_","external<->internal ids","core/translation.h")],["MutableVamanaIndex::search/exhaustive_search/reconstruct_at/external_ids","svs::DynamicVamana"])
p("C06","Dynamic maintenance keeps the graph sound and the collection searchable",
"After every mutation of a dynamic index its adjacency lists obey the degree bound, hold no duplicate, self or out-of-range entry and reference no vacated slot; after consolidation they reference only live vectors, and after compaction the slots are exactly the live vectors. Long histories of insertion, deletion and consolidation keep the live vectors searchable with high recall through the graph, including after the entry point itself was deleted, and maintenance (consolidate, compact) by itself changes no live vector or id.",
["histories","schedules"],"all histories of mutations and maintenance, any thread count",
"Only one random script on an absent dataset checks this; graph structure and recall after deletion of entry points, repeated slot reuse or heavy churn are not sampled.",
[V+"consolidate.h",V+"dynamic_index.h",V+"prune.h",V+"vamana_build.h","include/svs/core/compact.h"],
[("GraphConsolidator","consolidate.h"),("MutableVamanaIndex::consolidate/compact/add_points","dynamic_index.h")],
[("graph_","adjacency lists of all slots","dynamic_index.h")],["view_graph","debug_check_invariants","search recall vs exhaustive"])
p("C07","Rejected requests fail with an exception and leave the index unchanged",
"Invalid requests to an index (inserting ids already present or repeated, mismatched numbers of vectors and ids, vectors of the wrong dimension, deleting unknown or repeated ids, retrieving unknown ids or with a wrong-shaped destination, illegal search-buffer or build settings, unsupported query types) are reported as exceptions. Afterwards the index's live ids, vectors and search answers are exactly as before the request.",
["histories","inputs"],"all invalid requests at every point of a history",
"Tests check that a few calls throw; none compares the full observable state before and after, so a partial effect of a rejected request goes unseen.",
[V+"dynamic_index.h","include/svs/core/translation.h",V+"search_params.h",V+"search_buffer.h",V+"index.h","include/svs/orchestrators/vamana.h","include/svs/orchestrators/dynamic_vamana.h","include/svs/index/flat/flat.h"],
[("check_external_exist / check_external_free","core/translation.h"),("argument checks in add_points, reconstruct_at","dynamic_index.h"),("check_dims","vamana_build.h")],None,["exceptions at the API boundary; state snapshot before/after"])
p("C08","Exhaustive (flat) search is exact",
"For every dataset, element types, metric, batch sizes, number of threads, number of neighbors and id filter, exhaustive search returns for each query exactly the nearest stored vectors accepted by the filter in best-first order with their true distances; results do not depend on batching or threading. When the filter accepts fewer vectors than requested, the remaining slots hold the all-ones 'no neighbor' id.",
["inputs","configurations","schedules"],"all datasets, types, metrics, batch-size parameters, thread counts, k and predicates",
"The flat tests need absent dataset files; batching boundaries times thread counts times k are a product space that unit tests sample at a point or two.",
["include/svs/index/flat/flat.h","include/svs/index/flat/inserters.h","include/svs/orchestrators/exhaustive.h","include/svs/core/distance.h"],
[("FlatIndex::search batching","flat.h"),("BulkInserter heap","inserters.h")],None,["FlatIndex::search","svs::Flat::search"])
p("C09","Inverted-index clusterings are complete and their searches truthful",
"Clustering a dataset around chosen centroids assigns every other vector to at least one and at most the allowed number of distinct clusters among its nearest centroids with its true distance recorded, and limiting cluster sizes, filling an inverted index from the clustering, or saving and reloading it loses no vector. Inverted-index searches list distinct stored vectors best first with true distances, and when every cluster is visited the answer equals exhaustive search.",
["inputs","configurations","schedules"],"all datasets, centroid choices, build/search parameters and thread counts",
"The inverted-index tests depend on absent data; completeness (every vector findable) and exactness under full exploration are never asserted.",
["include/svs/index/inverted/clustering.h","include/svs/index/inverted/memory_based.h","include/svs/index/inverted/extensions.h","include/svs/index/inverted/memory_search_params.h","include/svs/orchestrators/inverted.h"],
[("cluster_with / post_process_neighbors / reduce_maxsize","clustering.h"),("InvertedIndex::search","memory_based.h")],
[("Clustering","centroid -> (ids, distances)","clustering.h")],["build_clustering, Clustering iteration, InvertedIndex::search"])
p("C10","Every distance kernel equals the mathematical distance",
"For every supported pair of element types, every dimension (fixed or dynamic, also not a multiple of the vector width), memory alignment and instruction set, the L2, inner-product and cosine functions return the mathematical value up to floating-point rounding (integer inputs without overflow or sign errors), and their comparators order results in the documented direction. A kernel's result depends only on the two vectors: not on alignment, on memory next to them, or on previous queries.",
["inputs","configurations"],"all element type pairs, values, dimensions, alignments and compiled instruction sets",
"Tests sample a few dimensions and value ranges for a handful of type pairs on one instruction set; tails, extremes (e.g. int8 -128, uint8 255) and alignments are unbounded.",
["include/svs/core/distance/euclidean.h","include/svs/core/distance/inner_product.h","include/svs/core/distance/cosine.h","include/svs/core/distance/simd_utils.h","include/svs/core/distance/distance_core.h"],
[("SIMD kernels L2Impl/IPImpl/CosineSimilarityImpl","core/distance"),("masked tails","simd_utils.h")],None,["distance::compute"])
p("C11","Number conversions are exact or refused",
"Checked narrowing returns the same mathematical value or throws; half-precision conversion rounds every float to the nearest half and converts every half back to exactly its value; data-type names, versions, UUIDs and integer text survive a round trip and malformed ones are refused. The small arithmetic and sequence helpers (rounding divisions, bit masks, reference-merge of sorted sequences, sentinel-aware merging) return what their definition says over their whole domain.",
["inputs"],"all values of all supported numeric types, all strings",
"Tests check a handful of constants; the conversions must hold for 2^32 floats and all integer boundary values.",
["include/svs/lib/narrow.h","include/svs/lib/float16.h","include/svs/lib/datatype.h","include/svs/lib/version.h","include/svs/lib/uuid.h","include/svs/lib/misc.h","include/svs/lib/algorithms.h","include/svs/lib/static.h"],
[("narrow","lib/narrow.h"),("float_to_float16","lib/float16.h"),("parse functions","lib/version.h, lib/uuid.h, lib/datatype.h")],None,["return values and exceptions"])
p("C12","Parallel loops run every work item exactly once and survive failures",
"For every pool kind, thread count and partitioning (static or dynamic), a parallel loop executes each index exactly once, gives each worker its own worker number below the pool size, and returns only after all work is done with its effects visible to the caller. An exception thrown by workers reaches the caller (of pools with worker threads: as a threading exception naming the cause and the worker; of the sequential pool: unchanged), and the pool remains fully usable afterwards; pools may be shared between concurrent callers and, while idle, resized and moved.",
["schedules","fault_sequences","configurations"],"all thread counts, range sizes, grain sizes, interleavings of concurrent callers, and which workers throw when",
"Tests run a few sizes; the schedule space (spin/sleep transitions, failing subset of workers, concurrent callers, resize between runs) is not controllable by them.",
["include/svs/lib/threads/thread.h","include/svs/lib/threads/threadpool.h","include/svs/lib/threads/types.h","include/svs/lib/threads/thunks.h","include/svs/lib/threads/threadlocal.h","include/svs/lib/file_iterator.h"],
[("ThreadControlBlock state machine","thread.h"),("NativeThreadPoolBase::run/manage_exception","threadpool.h"),("balance / StaticPartition / DynamicPartition","types.h, thunks.h")],
[("thread state","Sleeping/Spinning/Working/Exception...","thread.h")],["threads::run with per-index counters"])
p("C13","Building, searching and maintaining indexes is free of data races",
"No supported multi-threaded use (parallel builds, searches, mutations and maintenance of static, dynamic, flat and inverted indexes, clustering and medioid computation, thread-pool reuse and resizing, reading or setting search parameters while they are used elsewhere) ever accesses a memory location from two threads without synchronisation when one access writes.",
["schedules"],"all thread interleavings of internally parallel operations and of documented concurrent use",
"Unit tests run without a race detector and their assertions cannot observe a race that happens to be benign on this machine.",
[V+"vamana_build.h",V+"consolidate.h",V+"dynamic_index.h",V+"index.h","include/svs/index/flat/flat.h","include/svs/index/inverted/clustering.h","include/svs/index/inverted/memory_based.h","include/svs/lib/threads/thread.h","include/svs/lib/spinlock.h","include/svs/lib/concurrency/readwrite_protected.h","include/svs/core/kmeans.h","include/svs/core/medioid.h"],
[("per-vertex spin locks","vamana_build.h"),("ReadWriteProtected","lib/concurrency/readwrite_protected.h"),("thread pool hand-off","lib/threads/thread.h")],None,["ThreadSanitizer reports whose stack contains library code"])
p("C14","No memory error or undefined behaviour under any legal use",
"Under every legal use of the public interfaces, also with tiny, empty, odd-sized, duplicate-laden or extreme-valued inputs and when operations are refused or fail, the library never reads or writes outside live memory, never mismatches allocation and release, never leaks what it allocated, and never executes undefined behaviour.",
["inputs","histories","configurations"],"all legal inputs, histories and failure paths of all components",
"The test build has no sanitizers, and an out-of-bounds read of a few bytes in a SIMD tail, a wrong deallocation or an overflow usually leaves test results unchanged.",
["include/svs/lib/memory.h","include/svs/lib/array.h","include/svs/core/allocator.h","include/svs/core/data/simple.h","include/svs/core/distance/simd_utils.h","include/svs/lib/threads/threadlocal.h",V+"search_buffer.h","include/svs/core/kmeans.h"],
[("bounds checks","lib/boundscheck.h"),("RAII allocators and arrays","lib/memory.h, lib/array.h, core/allocator.h")],None,["AddressSanitizer, LeakSanitizer and UndefinedBehaviorSanitizer reports"])
p("C15","External-to-internal id translation stays a bijection",
"After any sequence of insertions, deletions and remappings, the id translator maps every currently known external id to exactly one internal id and back, membership queries and size agree, and iteration lists exactly the current pairs. Insertions that would break this (ids repeated in the request or already in use on either side, sizes that differ) and deletions of unknown ids are refused without any effect, and saving and reloading reproduces the same mapping.",
["histories","inputs"],"all sequences of insert, delete, remap, save and load with arbitrary 64-bit ids",
"Tests exercise a fixed script; the state space is all partial bijections under adversarial reuse.",
["include/svs/core/translation.h"],[("IDTranslator paired maps and checks","core/translation.h")],
[("external_to_internal_/internal_to_external_","two hash maps kept inverse","core/translation.h")],["IDTranslator public interface vs. model map"])
p("C16","Data containers keep exactly what was stored in them",
"Vector collections (contiguous, blocked and views) and multi-dimensional arrays return for every index exactly the value last stored there, with the requested size, dimensions and alignment, whatever allocator backs them; copies are equal and independent, moves preserve contents, growing keeps existing vectors, shrinking and compacting keep exactly the requested ones in order. Graph adjacency storage likewise returns exactly the neighbor sets written, refusing duplicates and entries beyond the maximum degree, also across resizes.",
["histories","inputs","configurations"],"all sequences of set, resize, compact, copy, move, over all types, shapes, block sizes and allocators",
"Tests try a few shapes; block-boundary resizes, compaction orders, and allocator/size combinations form an unbounded space.",
["include/svs/core/data/simple.h","include/svs/core/data/view.h","include/svs/lib/array.h","include/svs/core/allocator.h","include/svs/core/compact.h","include/svs/core/graph/graph.h","include/svs/core/data.h"],
[("SimpleData / blocked specialisation","core/data/simple.h"),("DenseArray","lib/array.h"),("SimpleGraph","core/graph/graph.h"),("huge-page and mapped allocators","core/allocator.h")],None,["get_datum/set_datum/resize/compact, get_node/add_edge/replace_node"])
p("C17","Saving and reloading reproduces the same object",
"Saving a dataset, graph, parameter set, clustering, or a whole (static, dynamic or inverted) index and loading it back, with any supported loading allocator or thread count, yields an object with the same contents, the same parameters and the same search answers; saving a dynamic index changes no live id or vector, and a save that cannot be completed raises an exception. Files written by the older supported format versions load with their documented meaning.",
["inputs","histories","configurations"],"all objects reachable by any history, all parameter values, element types and containers",
"The index save/load tests need absent data; parameter values that exercise each saved field, and dynamic indexes after churn, are not enumerated.",
["include/svs/lib/saveload/save.h","include/svs/lib/saveload/load.h","include/svs/core/data/simple.h","include/svs/core/graph/graph.h",V+"index.h",V+"build_params.h",V+"search_params.h",V+"dynamic_index.h","include/svs/index/inverted/clustering.h","include/svs/index/inverted/memory_based.h","include/svs/core/io/native.h"],
[("save/load tables with schema + version","lib/saveload"),("VamanaIndex::save, auto_assemble","vamana/index.h")],None,["save_to_disk / load_from_disk and the index-level wrappers"])
p("C18","Damaged or mismatching saved artifacts are refused, not misread",
"Loading from a saved artifact that is truncated, whose binary belongs to something else, whose header or description is missing, altered in kind, of an unknown schema or version, or that does not match the requested element type, dimensionality or companion (graph vs data vs ids) ends in an exception; it never yields an object silently missing or inventing contents, never crashes and never hangs. A failed load disturbs nothing else.",
["crash_points","fault_sequences","inputs"],"all truncation points of saved binaries, all removals and kind-changing edits of saved descriptions",
"Tests contain a few negative loads; the space of partial files left by an interrupted save or copy is as large as the files themselves.",
["include/svs/core/io/native.h","include/svs/core/io/binary.h","include/svs/core/io/vecs.h","include/svs/lib/saveload/load.h","include/svs/lib/readwrite.h","include/svs/lib/file.h","include/svs/core/data/io.h","include/svs/core/graph/graph.h","include/svs/core/translation.h","include/svs/index/inverted/clustering.h",V+"index.h",V+"dynamic_index.h"],
[("magic/uuid headers","core/io/native.h"),("schema and version checks","lib/saveload/load.h"),("size consistency checks on assembly","vamana/index.h, vamana/dynamic_index.h")],None,["exceptions from load functions"])
p("C19","Vector file formats are read and written faithfully",
"Every supported vector file format (the float, half, byte, int8 and integer *vecs family, the two-integer-header binary format, and the library's native format) is written byte-for-byte as documented and read back to exactly the stored vectors, in order, with the right count and dimensions, also with element conversion, a limit on the number of vectors, or streaming element access. Files in a directory are found by their stored identity.",
["inputs"],"all element types, dimensions, counts, limits and conversions",
"Tests use one small stored file per format; shape and type combinations and foreign-written files are not sampled.",
["include/svs/core/io/vecs.h","include/svs/core/io/binary.h","include/svs/core/io/native.h","include/svs/core/data/io.h","include/svs/core/io.h","include/svs/core/loading.h","include/svs/lib/file.h","include/svs/lib/readwrite.h"],
[("readers/writers","core/io/*.h"),("auto_load / VectorDataLoader","core/data/io.h, core/data/simple.h"),("DirectoryIterator uuid lookup","lib/file.h, core/io/native.h")],None,["files on disk vs independent encoder/decoder"])
p("C20","Candidate buffers keep exactly the best candidates offered",
"A search buffer of a given window and capacity offered any sequence of candidates holds exactly the best distinct ones in best-first order, hands out for expansion each time the best not yet expanded one inside the window, and reports exhaustion exactly when none is left; the buffer for dynamic indexes additionally never counts deleted candidates toward its window and drops exactly them on cleanup. The visited filter never claims to have seen an id it has not been given.",
["inputs","histories"],"all offer/expand sequences, windows, capacities and deletion patterns",
"Tests use short scripted insertions; duplicates, ties, reuse after clear and eviction of deleted candidates give a combinatorial space.",
[V+"search_buffer.h",V+"dynamic_search_buffer.h",V+"filter.h","include/svs/lib/neighbor.h"],
[("SearchBuffer","search_buffer.h"),("MutableBuffer","dynamic_search_buffer.h"),("VisitedFilter","filter.h")],None,["insert/next/done/cleanup results vs list model"])
p("C21","Accuracy figures and calibration are truthful",
"The k-recall at n computed by the library is exactly the average fraction of the first k ground-truth ids found among the first n reported ids, in [0,1], for every non-empty shape of result and every pair of id types, and mismatching shapes are refused. Automatic calibration returns parameters that, when used, deliver at least the requested recall on the calibration queries whenever the largest permitted window attains it, installs exactly the parameters it returns, and leaves answers correct.",
["inputs","configurations"],"all result/ground-truth shapes and contents, all targets, indexes and calibration settings",
"Recall is tested on one stored example; calibration tests need an absent dataset.",
["include/svs/core/recall.h",V+"calibrate.h",V+"index.h",V+"dynamic_index.h"],
[("k_recall_at_n","core/recall.h"),("calibrate / optimize_search_buffer / tune_prefetch","calibrate.h")],None,["k_recall_at_n; VamanaIndex::calibrate"])
p("C22","Medioid and k-means results are what they claim",
"The computed medioid is the (accepted) vector nearest to the mean of the accepted vectors, and mean and pairwise statistics agree with exact arithmetic up to rounding, for every dataset size, element type, thread count and parallelisation parameter. K-means training starts from distinct vectors and returns the requested number of finite centroids inside the data's range; an epoch over the whole dataset does not increase the clustering objective beyond rounding, each batch moves every centroid to the running mean of what was assigned to it, and assignment maps each vector to a nearest centroid. Requests for more clusters than vectors are refused.",
["inputs","configurations","schedules"],"all datasets, sizes around batch boundaries, thread counts and parameters",
"Tests compare against one dataset; chunk boundaries, filters and seeds are not sampled.",
["include/svs/core/medioid.h","include/svs/core/kmeans.h"],
[("op_pairwise, find_medioid","core/medioid.h"),("train_impl","core/kmeans.h")],None,["find_medioid, compute_medioid, kmeans train"])
p("C23","Type-erased facades and dispatch reach exactly the right implementation",
"Calls through the type-erased index facades behave exactly like calls on the underlying typed index for every supported query type, and unsupported query types or capabilities raise exceptions. Given a set of registered implementations, dynamic dispatch invokes the one whose parameter conversions match best (later registration never displaces an equally good earlier one), exactly once with the arguments converted losslessly, and throws when none matches.",
["inputs","configurations"],"all sets and orders of registered implementations and all argument combinations",
"Tests register one or two methods each; ambiguity, ordering and combinations of arguments are combinatorial.",
["include/svs/lib/dispatcher.h","include/svs/orchestrators/manager.h","include/svs/orchestrators/vamana.h","include/svs/orchestrators/dynamic_vamana.h","include/svs/orchestrators/exhaustive.h","include/svs/orchestrators/inverted.h"],
[("Dispatcher best match","lib/dispatcher.h"),("IndexManager","orchestrators/manager.h")],None,["Dispatcher::invoke; svs::Vamana/DynamicVamana/Flat/Inverted"])
p("C24","Neighbor pruning keeps the rule that makes graphs navigable",
"Selecting a vertex's neighbors from a candidate list (already sorted best first) always keeps the nearest candidate, never selects the vertex itself, a candidate twice, more than the allowed number, or an id that was not offered, and otherwise keeps candidates by the relaxation rule: they are considered best first, in rounds of relaxation growing from 1 to the given alpha (one round for the legacy strategy), and one is kept exactly when no nearer kept candidate it is measured against (those of the same round in the iterative strategy, all in the progressive one) excludes it at that relaxation. The outcome depends only on the current inputs, never on what the output list held before.",
["inputs"],"all candidate lists, alphas, limits, metrics and strategies",
"Tests check one alpha and dataset per strategy through recall only.",
[V+"prune.h"],[("heuristic_prune_neighbors (iterative, progressive, legacy)","prune.h")],None,["heuristic_prune_neighbors outputs vs reference selection"])
p("C25","Lock-protected values are linearizable and locks exclude",
"Concurrent readers and writers of a lock-protected value observe complete values only, in an order consistent with real time, and copying or assigning such holders transfers exactly the current value; at most one thread is ever inside a spin lock's critical section, a failed try does not acquire it, and it can be used with the standard lock guards.",
["schedules","histories"],"all interleavings of concurrent get/set/lock/try_lock/unlock",
"Tests check exclusion in one short run and never check values against a history.",
["include/svs/lib/concurrency/readwrite_protected.h","include/svs/lib/spinlock.h"],
[("ReadWriteProtected","lib/concurrency/readwrite_protected.h"),("SpinLock","lib/spinlock.h")],None,["get/set histories, mutual exclusion witness"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
