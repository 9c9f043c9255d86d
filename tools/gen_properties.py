import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":x} for x in state]
    if obs: a["observe_at"]=[obs]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
T="include/svs/lib/threads/"
p("C01","A parallel job runs exactly once per worker and covers its partition once",
 "When a job is run on a thread pool, every worker executes it exactly once, and a statically or dynamically partitioned index range or sequence is processed so that every element is handled exactly once and nothing else is handled. The call returns only after all of this work is finished, and everything the caller wrote before the call is visible to the workers and everything they wrote is visible to the caller afterwards.",
 ["schedules","inputs","histories"],"every pool size, spin time, interleaving of caller and workers, sequence of jobs, pauses and resizes, and every range length and grain size",
 "A unit test sees the handful of hand-over timings the host happens to produce; a lost or doubled hand-over needs a particular interleaving of the spinning, sleeping and assignment steps.",
 [T+"threadpool.h",T+"thread.h",T+"thunks.h",T+"types.h"],
 [("hand-over state machine",T+"thread.h ThreadControlBlock"),("job dispatch",T+"threadpool.h run"),("partition thunks",T+"thunks.h")],
 ["per-thread atomic state word","job slot"],"job body call counts and element counts")
p("C02","Pool start, hand-over, sleep, resize and shutdown always make progress",
 "Starting a pool, handing work to a worker that is spinning, about to sleep, asleep or waking, resizing, moving and destroying the pool all complete, whatever the relative timing and whatever spurious wake-ups occur. When the system refuses to create a thread the operation raises an error, leaves no stray thread behind, and never hangs.",
 ["schedules","fault_sequences","histories"],"all interleavings, spin budgets, spurious wake-ups, stalled threads and thread-creation failures at any point of a pool's life",
 "A lost wake-up needs the controller to act in the few instructions between a worker's decision to sleep and its wait; ordinary runs almost never land there and a hang only shows as a timeout.",
 [T+"thread.h",T+"threadpool.h"],
 [("sleep/wake protocol",T+"thread.h try_sleep, notify_thread, shutdown"),("start-up hand-shake",T+"thread.h ThreadImpl constructor"),("resize",T+"threadpool.h resize")],
 ["condition variable and its mutex","state word"],"no run deadlocks or exceeds its step bound; number of live threads")
p("C03","A failing job is reported after all workers stopped, and the pool stays usable",
 "If the job fails with any kind of exception on any set of workers, including the calling thread, the call raises an error carrying every failing worker's message, and only after every worker has stopped touching the job and its data. Afterwards the pool has its former size and the next jobs run normally, even if replacing a worker failed in between.",
 ["schedules","fault_sequences","inputs"],"every subset of failing workers, exception type, timing of the failures and failing thread creation during recovery",
 "Tests throw one exception type from one worker under one timing; returning early while others still run is only visible when the others are slow.",
 [T+"threadpool.h",T+"thread.h"],
 [("failure collection",T+"threadpool.h manage_exception_during_run"),("worker failure path",T+"thread.h unsafe_run"),("worker replacement",T+"threadpool.h")],
 ["exception state, promise/future per worker"],"outcome of run, per-worker counts, later jobs")
p("C04","Concurrent callers of one pool are serialised, including against resizing",
 "Several threads may submit jobs, partitioned jobs and resizes to one pool at the same time. Each job still runs exactly once on every worker of one consistent pool size or covers its range exactly once, receives only its own failures, and all calls return.",
 ["schedules","histories"],"all interleavings of two to four callers and a resizer, with some jobs failing",
 "Needs two callers in the same few instructions; the existing tests use a pool from one thread.",
 [T+"threadpool.h"],[("use mutex",T+"threadpool.h run, resize"),("size seen by the partition",T+"threadpool.h run")],
 ["worker list, use mutex"],"per-caller job counts")
p("C05","Building, searching and updating indexes is free of data races",
 "Whatever the number of worker threads, no two threads of the library access the same memory in a conflicting way without ordering while an index is built, searched, updated, consolidated, compacted, calibrated or saved. Searching one index from several application threads at once is likewise free of such races and gives each caller the answers it would get alone.",
 ["schedules","inputs"],"all interleavings of worker threads and of concurrent searching application threads, on generated data sets and parameters",
 "A data race produces wrong results only under rare timings and compiler choices; results of a test run look right.",
 ["include/svs/index/vamana/vamana_build.h","include/svs/index/vamana/consolidate.h","include/svs/index/vamana/index.h","include/svs/index/vamana/dynamic_index.h","include/svs/index/flat/flat.h","include/svs/index/inverted/clustering.h"],
 [("vertex locks and update buffers","include/svs/index/vamana/vamana_build.h"),("per-thread scratch","include/svs/lib/threads/threadlocal.h"),("spin lock","include/svs/lib/spinlock.h")],
 ["graph adjacency lists, update buffers, per-thread scratch"],"happens-before checking of every instrumented access")
p("C06","Shared settings and locks behave atomically under concurrent use",
 "Reading and replacing a graph index's search parameters from several threads is linearizable: a reader sees exactly one written value, never a mixture, and a value once replaced does not come back. The spin lock gives mutual exclusion and makes the previous holder's writes visible, and the process-wide logger can be replaced while other threads log.",
 ["schedules","histories"],"all interleavings of readers, writers and copies of protected values and of lock users",
 "Torn or stale values need a reader inside a writer's critical section.",
 ["include/svs/lib/concurrency/readwrite_protected.h","include/svs/lib/spinlock.h","include/svs/core/logging.h","include/svs/index/vamana/index.h"],
 [("reader/writer protection","include/svs/lib/concurrency/readwrite_protected.h"),("spin lock","include/svs/lib/spinlock.h"),("logger registry","include/svs/core/logging.h")],
 ["protected value, lock word, global logger"],"recorded histories of reads and writes")
p("C07","Graph search answers do not depend on threads, schedule or earlier queries",
 "For a given index, query, neighbour count and search parameters, a graph search returns the same identifiers and distances for every number of threads, schedule, batch in which the query is placed and history of earlier searches. The answers are sorted by distance, contain no identifier twice and carry the true distance to the stored vector; a search window covering everything reachable finds the nearest of it. Positions for which nothing was found hold a recognisable no-result value rather than left-overs.",
 ["schedules","inputs","histories"],"all thread counts and interleavings, generated data sets, element types, distances, windows, filters on or off and sequences of query batches",
 "Depends on which queries previously used a thread's scratch space and how work was split; tests check recall averages on one split.",
 ["include/svs/index/vamana/index.h","include/svs/index/vamana/greedy_search.h","include/svs/index/vamana/search_buffer.h","include/svs/index/vamana/extensions.h","include/svs/index/vamana/filter.h"],
 [("greedy search","include/svs/index/vamana/greedy_search.h"),("search buffer","include/svs/index/vamana/search_buffer.h"),("batch search and result transfer","include/svs/index/vamana/extensions.h"),("visited filter","include/svs/index/vamana/filter.h")],
 ["per-thread search buffer, visited filter"],"query results")
p("C08","A built graph is well formed and loses no link, whatever the schedule",
 "A parallel graph build on any number of threads yields a graph whose lists stay within the configured maximum degree, name only existing nodes, and contain neither the node itself nor any node twice. Work split over threads loses nothing: with room for every link, pruning that discards none and no tied distances, each link has its reverse, every node can be reached, and the same set of links results from every schedule and thread count.",
 ["schedules","inputs"],"all interleavings, thread counts, data sets (with duplicates and ties), degrees, windows and pruning parameters",
 "A lost or duplicated back link from an interleaving of two workers changes recall imperceptibly and passes recall thresholds.",
 ["include/svs/index/vamana/vamana_build.h","include/svs/index/vamana/prune.h","include/svs/core/graph/graph.h"],
 [("batch build with back edges","include/svs/index/vamana/vamana_build.h"),("pruning","include/svs/index/vamana/prune.h"),("adjacency lists","include/svs/core/graph/graph.h")],
 ["graph, back-edge buffers, vertex locks"],"the built graph")
p("C09","The dynamic index tracks exactly the live points through any history",
 "After any sequence of additions, deletions, consolidations, compactions and save/load cycles, the dynamic index reports exactly the externally named points that were added and not deleted: membership, size, listing and stored vectors agree with that set. Searches return only live points, each at most once, with its true distance, in order, and never fewer than requested when enough live points can be found by the search.",
 ["histories","schedules","inputs"],"all generated histories of operations over identifiers, thread counts and interleavings",
 "State accumulates over many operations (slot reuse, soft-deleted nodes, remapped identifiers); tests follow one scripted history.",
 ["include/svs/index/vamana/dynamic_index.h","include/svs/index/vamana/consolidate.h","include/svs/index/vamana/dynamic_search_buffer.h","include/svs/core/translation.h","include/svs/core/compact.h","include/svs/core/data/simple.h"],
 [("slot state and deletion","include/svs/index/vamana/dynamic_index.h"),("identifier translation","include/svs/core/translation.h"),("soft-deletion aware buffer","include/svs/index/vamana/dynamic_search_buffer.h"),("graph repair","include/svs/index/vamana/consolidate.h")],
 ["slot metadata, translation tables, entry points, graph, data"],"answers of every operation against a model set")
p("C10","A rejected or failed update leaves the dynamic index as it was and usable",
 "Adding identifiers that already exist or repeat, deleting identifiers that do not exist, or an update that fails for lack of memory raises an error. Rejected requests change nothing, no failed update makes points appear or vanish other than those it named, and the index keeps answering correctly afterwards.",
 ["fault_sequences","histories","inputs"],"every invalid request and every point of allocation failure within an update, within generated histories",
 "Tests check that an error is raised, not the state after a failure at an arbitrary point.",
 ["include/svs/index/vamana/dynamic_index.h","include/svs/core/translation.h"],
 [("identifier checks","include/svs/core/translation.h insert, check_external_free"),("add_points / delete_entries","include/svs/index/vamana/dynamic_index.h")],
 ["translation tables, slot metadata"],"model comparison after the failed operation")
p("C11","Exhaustive search is exact under every partitioning and schedule",
 "An exhaustive search returns for every query the requested number of nearest stored vectors with their true distances in order, whatever the thread count, data batch size, query batch size and schedule, and likewise for dynamic change of the thread count between calls. Restricting the search to a subset of the data returns the nearest among that subset.",
 ["schedules","inputs"],"all thread counts, batch sizes including ones that do not divide the data, ties, neighbour counts up to and beyond the data size",
 "The result is merged from per-thread partial heaps over batch boundaries; a dropped boundary element needs a particular split.",
 ["include/svs/index/flat/flat.h","include/svs/index/flat/inserters.h"],
 [("tiled search","include/svs/index/flat/flat.h"),("bulk inserter","include/svs/index/flat/inserters.h")],
 ["per-query partial results"],"query results against a sequential scan")
p("C12","Clustering assigns every point once and its search is schedule independent",
 "Building a clustered index places every stored vector, as a centroid or a member, so that no vector is lost and each is assigned to centroids among those nearest to it as configured, independently of schedule and thread count. Searching it returns sorted, distinct identifiers with true distances that do not depend on threads, batching or earlier queries.",
 ["schedules","inputs","histories"],"all interleavings, thread counts, batch sizes, replica counts, centroid selections and query sequences",
 "Members are collected concurrently into shared lists; losing one under contention barely changes recall.",
 ["include/svs/index/inverted/clustering.h","include/svs/index/inverted/memory_based.h","include/svs/index/inverted/extensions.h"],
 [("cluster assignment","include/svs/index/inverted/clustering.h"),("two-level search","include/svs/index/inverted/memory_based.h")],
 ["cluster lists, centroid ids"],"cluster contents and query results")
p("C13","Saving and loading reproduces the index exactly, however I/O is chopped up",
 "An index, data set, graph, parameters or clustering saved and loaded again answers every query identically and holds identical contents, for every element type. This holds however the operating system splits reads and writes into short or interrupted transfers and in whatever order it lists directory entries.",
 ["fault_sequences","inputs","histories"],"all sizes, types, short and interrupted transfers and directory orders; repeated save/load chains",
 "The file system under test never returns short transfers or interruptions and lists entries in one order.",
 ["include/svs/lib/saveload/save.h","include/svs/lib/saveload/load.h","include/svs/core/io/native.h","include/svs/core/io/binary.h","include/svs/core/io/vecs.h","include/svs/core/graph/graph.h","include/svs/core/data/io.h","include/svs/core/translation.h"],
 [("save/load framework","include/svs/lib/saveload"),("native file format","include/svs/core/io/native.h"),("binary arrays","include/svs/core/io/binary.h")],
 ["files of a saved object"],"loaded object against the original")
p("C14","A save that cannot write everything raises an error",
 "If any part of saving an index, data set, graph or their settings fails, because the disk is full, a write, open, directory creation or close reports an error, the save operation raises an error. If it returns normally, everything is on disk and loads back equal.",
 ["fault_sequences","inputs"],"every position and kind of write-side I/O failure and every disk quota",
 "Tests never run on a failing disk; an ignored stream error is invisible until the data is needed.",
 ["include/svs/lib/saveload/save.h","include/svs/core/io/native.h","include/svs/core/io/binary.h","include/svs/core/io/vecs.h","include/svs/core/graph/graph.h","include/svs/core/translation.h","include/svs/index/inverted/clustering.h","include/svs/lib/file.h"],
 [("stream writers","include/svs/core/io/native.h Writer"),("array writers","include/svs/core/io/binary.h"),("configuration file","include/svs/lib/saveload/save.h")],
 ["output streams"],"outcome of save, then load")
p("C15","Loading truncated or unreadable files raises an error, never wrong contents",
 "If a saved object's files are cut short, missing, or cannot be read, loading raises an error or yields exactly what was saved. It never returns an object with silently different contents, crashes, or corrupts memory.",
 ["fault_sequences","inputs"],"every truncation point, missing file and read failure position",
 "Tests load intact files; a short read leaves zero-filled or stale memory that looks like data.",
 ["include/svs/lib/saveload/load.h","include/svs/core/io/native.h","include/svs/core/io/binary.h","include/svs/core/io/vecs.h","include/svs/core/graph/graph.h","include/svs/core/translation.h","include/svs/index/inverted/clustering.h"],
 [("stream readers","include/svs/core/io/native.h"),("array readers","include/svs/core/io/binary.h"),("graph and translation loading","include/svs/core/graph/graph.h, include/svs/core/translation.h")],
 ["input streams"],"outcome of load against the saved original")
p("C16","A process crash during a save never leaves a plausible wrong index",
 "If the process dies at any point while saving to fresh directories, loading what is there raises an error or yields exactly the saved object. A crash while writing never makes a partially written object load as if it were complete.",
 ["crash_points","inputs"],"every crash point between and inside the file operations of a save, with a torn last write",
 "Tests do not kill the process; the order in which data, headers and configuration reach the disk decides.",
 ["include/svs/lib/saveload/save.h","include/svs/core/io/native.h","include/svs/core/graph/graph.h","include/svs/index/vamana/dynamic_index.h","include/svs/index/vamana/index.h"],
 [("configuration written last","include/svs/lib/saveload/save.h save_to_disk"),("header rewritten at the end","include/svs/core/io/native.h Writer")],
 ["order of file operations"],"outcome of load after restart")
p("C17","Running out of memory raises an error without corruption or leak",
 "If a memory request or memory mapping fails at any point while data sets, graphs or indexes are created, grown, searched or loaded, the operation raises an error, all worker threads and memory it acquired are released, and the objects that existed before remain intact. The memory-mapping allocators release exactly what they mapped, also when used from several threads.",
 ["fault_sequences","schedules"],"every failing allocation or mapping, on any thread, in each operation",
 "Allocation failures do not occur in tests; clean-up paths are never executed.",
 ["include/svs/core/allocator.h","include/svs/core/data/simple.h","include/svs/lib/array.h","include/svs/index/vamana/index.h","include/svs/lib/threads/threadpool.h"],
 [("mapping allocators","include/svs/core/allocator.h"),("blocked data growth","include/svs/core/data/simple.h")],
 ["allocation registry"],"heap and mapping accounting, outcome, later use")
p("C18","Search calibration survives clock jumps and stalls and meets its target",
 "Calibrating search parameters terminates for every behaviour of the clock, leaves the index with parameters under which the requested recall is met whenever it reports so and it is attainable within its bounds, and leaves the thread count and everything else of the index unchanged. The outcome may prefer faster settings according to measured time, but never an invalid one.",
 ["schedules","fault_sequences","inputs"],"clock jumps forwards and backwards, stalls of any length between two clock readings, data sets, targets and bounds",
 "Depends on measured durations, which tests cannot steer to extremes.",
 ["include/svs/index/vamana/calibrate.h","include/svs/index/vamana/index.h","include/svs/lib/timing.h","benchmark/include/svs-benchmark/search.h","benchmark/include/svs-benchmark/inverted/memory/traits.h"],
 [("calibration loops","include/svs/index/vamana/calibrate.h"),("timing","include/svs/lib/timing.h")],
 ["search parameters, measured times"],"returned parameters and their recall")
p("C19","Generated names and identifiers never collide, and files are found by identifier",
 "Files created by one process, one after the other or from several threads, get distinct names and universally unique identifiers of the standard form, and looking a file up by its identifier in a directory finds exactly that file whatever other files are there and in whatever order they are listed.",
 ["schedules","inputs","fault_sequences"],"all interleavings of generating threads and directory orders",
 "A collision needs two threads in the same generator step.",
 ["include/svs/lib/uuid.h","include/svs/lib/saveload/save.h","include/svs/core/io/native.h"],
 [("identifier generation","include/svs/lib/uuid.h"),("file name counter","include/svs/lib/saveload/save.h SaveContext"),("lookup by identifier","include/svs/core/io/native.h")],
 ["name counter, random source"],"names and identifiers produced")
p("C20","Parallel medoid, k-means and compaction equal their sequential definition",
 "The parallel computation of a data set's medoid, k-means training and in-place compaction of data give the result of the sequential definition for every thread count, batch size and schedule: the medoid is a stored point nearest to the mean, every training result is finite and determined by its inputs and seed, and compaction moves exactly the kept elements in order.",
 ["schedules","inputs"],"all thread counts, splits, interleavings, predicates and index maps",
 "Results are reduced from per-thread partial results whose split depends on thread count and schedule.",
 ["include/svs/core/medioid.h","include/svs/core/kmeans.h","include/svs/core/compact.h","include/svs/core/data/simple.h"],
 [("partial reductions","include/svs/core/medioid.h"),("training","include/svs/core/kmeans.h"),("batched compaction","include/svs/core/compact.h")],
 ["per-thread partial results, compaction buffer"],"result against a sequential computation")
p("C23","Compressed and reduced data behave as the data they stand for, whatever fails",
 "Data compressed with locally adaptive quantisation (one and two levels, sequential and interleaved packing) holds every vector within half a quantisation step, in the same way for every number of threads and schedule, and distances to and between its vectors are those of the stored values. Data of reduced dimension is the product with the matrix given, or with an orthonormal one, for vectors and queries alike. Graph and exhaustive search over such data return distinct vectors with the distances of the full stored values, in order, each query as if alone; graphs built over it are well formed; adding, deleting, consolidating and compacting keep every live vector's stored value. Saved, it loads (also into another packing) with the same values or an error; failing disks, crashes and lack of memory raise an error and leave the index as before the request.",
 ["schedules","histories","fault_sequences","crash_points","inputs"],"all schedules and thread counts of compression, building and search, all histories of updates, all refused requests for memory, all disk failures and crash points, all vectors and bit widths",
 "The build of this repository's tests leaves compression out (its dependencies are absent), and elsewhere tests sample data sets on healthy systems.",
 ["include/svs/quantization/lvq/lvq.h","include/svs/leanvec/leanvec.h","include/svs/extensions/vamana/lvq.h","include/svs/extensions/vamana/leanvec.h","include/svs/extensions/inverted/lvq.h"],
 [("compression","include/svs/quantization/lvq/lvq.h LVQDataset::compress"),("reduction","include/svs/leanvec/leanvec.h LeanDataset::reduce"),("reranking","include/svs/extensions/vamana/lvq.h")],
 ["compressed data sets, indexes over them"],"stored values, answers, files")
p("C26","Benchmark results on disk are complete; failing to write them is an error",
 "While a benchmark run checkpoints its results into a file, that file at every moment holds one complete state of the results - the one before or the one after a checkpoint - for every reader and after a crash at any point, contains the results of every job whose checkpoint has returned, in order and each once, and is never replaced by a shortened version. A checkpoint or final save that could not write everything raises an error and leaves the last complete results in place.",
 ["crash_points","fault_sequences","schedules","histories"],"every crash point, failing or short write, failing close, rename or open, disk that fills up, concurrent reader, and sequence of jobs, of which some fail",
 "Tests never crash between the write and the rename or fill the disk.",
 ["benchmark/src/benchmark.cpp","benchmark/include/svs-benchmark/benchmark.h","benchmark/include/svs-benchmark/executable.h","include/svs/lib/file.h"],
 [("write aside and rename","benchmark/src/benchmark.cpp atomic_save"),("checkpointing","benchmark/include/svs-benchmark/benchmark.h Checkpoint"),("job loop","benchmark/include/svs-benchmark/executable.h")],
 ["results file"],"contents of the results file at every moment, errors raised")
p("C27","The reference for a changing data set is its live points and true neighbours",
 "The reference data set that drives updates of a changing index hands out each point at most once between additions and removals, with its own vector, tracks exactly the points that are in the set, and its ground truth for the queries equals an exhaustive search over exactly those points, through any history of additions and removals, for every bucket size, number of neighbours, thread count and schedule. The benchmark loop built on it reports every operation once, in order, judged against the ground truth of its moment, and keeps training and test queries apart.",
 ["histories","inputs","schedules"],"sequences of additions, removals and ground-truth requests with bucket sizes that do not divide the data, few points left, ties excluded, thread counts and interleavings",
 "The ground truth is merged from per-bucket results that depend on the history; a test compares one history.",
 ["include/svs/misc/dynamic_helper.h","benchmark/include/svs-benchmark/build.h","benchmark/include/svs-benchmark/datasets.h"],
 [("buckets and their merged ground truth","include/svs/misc/dynamic_helper.h ReferenceDataset"),("operation loop","benchmark/include/svs-benchmark/build.h dynamic_test_loop")],
 ["buckets in and out of the set"],"handed-out points, membership, ground truth, reports")
p("C28","Converting files with the utilities keeps every value or reports failure",
 "A command-line utility that converts vectors to half precision (native, vecs and bin files), converts legacy data and graph files, upgrades Vamana parameter files or assembles a Vamana index from data and a graph either exits with success, having written everything its source says - each vector, adjacency list and parameter - or exits with an error: with short and interrupted transfers, a disk that fills up, failing reads, writes, opens and closes, a source cut short; a crash leaves nothing that loads as a different complete result. Parameter files of every earlier version load with their own values and the documented defaults for what they lack. The utility that computes recall reports the exact recall.",
 ["fault_sequences","crash_points","inputs"],"all sizes, formats and element types, every position and kind of I/O failure and crash, every cut of the source, every earlier version of the parameters",
 "The utilities have no tests, and a test disk neither fills up nor fails.",
 ["utils/convert_data_to_float16.cpp","utils/convert_legacy.cpp","utils/upgrade_vamana_index_parameters.cpp","utils/assemble_vamana.cpp","utils/compute_recall.cpp","include/svs/lib/file_iterator.h","include/svs/index/vamana/index.h","include/svs/index/vamana/build_params.h","include/svs/index/vamana/search_params.h"],
 [("converters","utils"),("record iteration","include/svs/lib/file_iterator.h"),("loading of earlier versions","include/svs/index/vamana/index.h VamanaIndexParameters::load_legacy")],
 ["converted files"],"exit status and what the written files load as")
p("C29","Timers account for exactly the time that passed, in any nesting",
 "A timer reports for every label the number of finished sections and the time that passed in them by the steady clock: total, average, least and greatest, each section counted once under the section that was open when it began, whether it is left normally, finished early (also twice) or left by an exception. This holds while the clock stalls, is coarse, and the wall clock jumps in either direction; timers of different threads do not affect each other. The printed table lists every label once with these values, below its parent.",
 ["fault_sequences","histories","schedules"],"sequences of nested sections ended in every way, stalling and coarse clocks, wall clock jumps, several threads",
 "Real durations cannot be predicted, so tests only check that some time passed.",
 ["include/svs/lib/timing.h"],
 [("nested timers","include/svs/lib/timing.h Timer, AutoTime")],
 ["timer tree, clock"],"reported counts and durations, printed table")
p("C21","Distance kernels agree with the mathematical definition for all inputs",
 "The vectorised distance computations return the mathematically defined squared Euclidean, inner-product and cosine values up to rounding for every dimension and element type pair.",
 ["inputs"],"all dimensions, element types and values","Only sampled dimensions are tested.",
 ["include/svs/core/distance/euclidean.h","include/svs/core/distance/inner_product.h","include/svs/core/distance/cosine.h"],[("kernels","include/svs/core/distance")])
p("C22","Half-precision conversion rounds and restores correctly for all values",
 "Converting between single and half precision rounds to nearest and restores every representable value exactly, in the software and hardware paths alike.",
 ["inputs"],"all bit patterns","Tests sample values.",
 ["include/svs/lib/float16.h"],[("conversion","include/svs/lib/float16.h")])
p("C24","NUMA-bound pools run work on the node they were created for",
 "On a machine with several memory nodes, work and memory assigned to a node's pool stay on that node.",
 ["configurations"],"all node counts","The build has the feature disabled.",
 ["include/svs/lib/numa.h","include/svs/lib/threads/threadpool.h"],[("binding","include/svs/lib/numa.h")])
p("C25","A saved index survives loss of power",
 "Once a save has returned, the saved index survives a sudden loss of power.",
 ["crash_points"],"all power-loss points after a completed save","No test removes power.",
 ["include/svs/lib/saveload/save.h"],[("save to disk","include/svs/lib/saveload/save.h")])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert True
        f.write(json.dumps(x)+'\n')
