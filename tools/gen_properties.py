#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so the file stays consistent).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism])))

prop("C01", "Parallel stable sorts give the one stable order under every schedule",
 "Every parallel stable sort (plain, by comparator, by key, by cached key) leaves the view holding exactly its original elements in the unique stable sorted order of a consistent ordering, whatever the number of worker threads and however their work is interleaved, stolen or stalled. "
 "Nothing outside the view changes, and the call returns.",
 ["schedules", "inputs", "configurations"],
 "all interleavings of the fork/join tasks at callback granularity, 1..8 workers, all view layouts, element sizes and key distributions",
 "The tests sort 0..100 random u32 (one run of 1M) on whatever schedule the real pool happens to produce; no test controls or varies the interleaving, the worker count, the layout or tie patterns at chunk and merge-split boundaries.",
 ["src/par/merge_sort.rs", "src/lib.rs"],
 [("chunked parallel merge sort, concatenation of intact chunks, buffer ping-pong", "src/par/merge_sort.rs: par_merge_sort, recurse"),
  ("parallel merge split that keeps ties left-first", "src/par/merge_sort.rs: split_for_merge, par_merge"),
  ("index sort and in-place cycle permutation", "src/lib.rs: par_sort_by_cached_key")],
 [("buf", "scratch copy of every chunk, shared by all tasks through raw pointers", "src/par/merge_sort.rs")])

prop("C02", "Parallel unstable sort is sorted and schedule-independent",
 "Every parallel unstable sort leaves the view holding exactly its original elements in sorted order under every worker count and every interleaving of its tasks. "
 "The arrangement it produces, including the placement of equal elements, is the same for every schedule and equals that of any other run on the same element sequence with the same callback answers.",
 ["schedules", "inputs", "configurations"],
 "all interleavings of the fork/join tasks at callback granularity, 1..8 workers, all layouts and key distributions",
 "Tests check sortedness of u32 arrays where equal elements are indistinguishable, on one uncontrolled schedule each.",
 ["src/par/quick_sort.rs", "src/par/partition.rs", "src/par/heap_sort.rs", "src/par/insertion_sort.rs"],
 [("pattern-defeating quicksort with joins on disjoint halves and fixed-seed pattern breaking", "src/par/quick_sort.rs: recurse"),
  ("block partitioning", "src/par/partition.rs: partition, partition_in_blocks")])

prop("C03", "Parallel bulk selection returns the right elements under every schedule",
 "For every strictly ascending in-bounds index list, parallel bulk selection appends to the collection, behind what it already held, one reference per index in index order, each to the element that sorted order puts at that index and each located at that index of the view. "
 "Every other element keeps its place relative to the selected ones (not greater before, not smaller after), no element is lost, and the arrangement is the same for every worker count and interleaving.",
 ["schedules", "inputs", "configurations"],
 "all interleavings of the fork/join tasks, 1..8 workers, all index lists, layouts and key distributions",
 "The one test selects 5 fixed fractions of a random u32 array on one uncontrolled schedule; it never checks the rest of the array, pre-filled collections, ties, or other index lists.",
 ["src/par/partition.rs", "src/lib.rs"],
 [("recursion over indices with join on both sides of the pivot index", "src/par/partition.rs: par_partition_at_indices"),
  ("reserve / write into spare capacity / set_len", "src/lib.rs: par_select_many_nth_unstable*")],
 [("values", "uninitialised spare capacity written by several tasks", "src/par/partition.rs")])

prop("C04", "A callback panic on any worker leaves a parallel operation's data intact",
 "If the comparator or key function panics at any instant on any worker during a parallel sort or parallel bulk selection, the call returns by propagating the payload of one such panic, and only after every other task of the call has stopped running callbacks. "
 "Every element is then in the view exactly once with its contents unchanged, nothing is leaked or dropped twice, nothing outside the view has changed, and the collection of a bulk selection still holds exactly what it held before.",
 ["crash_points", "schedules", "fault_sequences"],
 "every callback invocation of every task as a panic point (also several panics), under all interleavings, 1..8 workers",
 "No test ever panics in a callback.",
 ["src/par/merge_sort.rs", "src/par/quick_sort.rs", "src/par/partition.rs", "src/par/insertion_sort.rs", "src/par/heap_sort.rs"],
 [("drop guards that refill holes and copy scratch back", "src/par/merge_sort.rs: InsertionHole, MergeHole, State, CopyOnDrop"),
  ("pivot guard and insertion hole", "src/par/partition.rs: partition, partition_equal; src/insertion_sort.rs: InsertionHole"),
  ("fork/join waits for both branches before unwinding", "rayon::join")])

prop("C05", "A callback panic at any instant leaves a sequentially sorted view intact",
 "If the comparator or key function panics at any instant of a sequential sort, stable or unstable, the panic propagates unchanged to the caller. "
 "Every element is then in the view exactly once with its contents unchanged, nothing is leaked or dropped twice, scratch memory is released, and nothing outside the view has changed.",
 ["crash_points", "inputs"],
 "every callback invocation as a panic point, all sizes, layouts, element sizes and key distributions, also after forced fallback to the worst-case algorithms",
 "No test ever panics in a callback.",
 ["src/merge_sort.rs", "src/insertion_sort.rs", "src/quick_sort.rs", "src/partition.rs", "src/heap_sort.rs", "src/stable_sort.rs"],
 [("drop guards for insertion, merge and pivot holes", "src/insertion_sort.rs: InsertionHole; src/merge_sort.rs: MergeHole; src/partition.rs: partition"),
  ("scratch and run buffers freed on unwind", "src/merge_sort.rs: BufGuard, RunVec")])

prop("C06", "A panic at any instant leaves selection, dedup and queries' data intact",
 "If a comparator, key function, same-bucket function, predicate or the caller's own collection panics at any instant of a sequential selection, bulk selection, deduplication, search or sortedness query, the panic propagates unchanged to the caller. "
 "Every element is then in the view exactly once with its contents unchanged apart from what the callback itself did, references already handed to the collection are valid, distinct, not shared with later callbacks, and correspond to the index they were handed with, and nothing outside the view has changed.",
 ["crash_points", "inputs"],
 "every callback and every collection extension as a panic point, all sizes, layouts and key distributions, also inside the linear-time fallback selection",
 "No test ever panics in a callback or in an Extend implementation.",
 ["src/partition.rs", "src/partition_dedup.rs", "src/lib.rs", "src/insertion_sort.rs"],
 [("pivot guard, block offsets, swaps only", "src/partition.rs: partition, partition_equal, partition_in_blocks, median_of_medians"),
  ("swap-based dedup valid between any two callbacks", "src/partition_dedup.rs")])

prop("C07", "Operations work correctly after earlier operations crashed on the same data",
 "After any history of operations on the same array and thread pool in which some crashed (callback panic, failed allocation, rejected arguments), retrying without faults gives the correct result for the elements the array has held all along, arranged as the same operation without that history would arrange them. "
 "A crashed operation leaves neither the thread pool, nor the array, nor later operations on other arrays in a state that changes their results.",
 ["histories", "fault_sequences", "schedules"],
 "histories of up to a dozen mixed sequential and parallel operations with faults in some of them, on one array and pool",
 "Tests run one operation per array and never fault.",
 ["src/lib.rs", "src/par/merge_sort.rs", "src/merge_sort.rs", "src/partition.rs", "src/quick_sort.rs"],
 [("no state outlives a call; drop guards restore the array", "all modules"),
  ("panic propagation through joins", "rayon::join call sites in src/par")])

prop("C08", "Concurrent callers on disjoint views each see only their own elements",
 "Any number of threads may at the same time run any operations on disjoint views, of arbitrary and even interleaved layouts, into one parent array while sharing one thread pool. "
 "Each call passes only elements of its own view to callbacks, has the same result as the corresponding operation on a contiguous slice of those elements run alone, and leaves every element outside its view untouched.",
 ["schedules", "histories", "inputs"],
 "interleavings of up to four callers and 1..8 workers, all operations of the public trait, disjoint strided/reversed/column/row views",
 "Tests are single-threaded and mostly use whole contiguous 1-dimensional arrays.",
 ["src/lib.rs", "src/par/merge_sort.rs", "src/par/partition.rs", "src/par/quick_sort.rs", "src/partition.rs", "src/insertion_sort.rs", "src/merge_sort.rs"],
 [("index-based access through view strides instead of raw pointer arithmetic", "all modules"),
  ("splitting of views into disjoint subviews", "split_at / slice_mut / multi_slice_mut call sites")])

prop("C09", "Inconsistent comparators never break memory safety, termination or conservation",
 "If comparator or key answers are arbitrary (not a total order, random, or changing during the call), every operation still terminates normally, or panics, within a bounded number of callback invocations. "
 "Only references to elements of the view are ever passed to callbacks, the view holds exactly its original elements afterwards, nothing outside it changed, and a bulk selection that returns yields exactly one distinct element per index.",
 ["fault_sequences", "schedules", "inputs"],
 "comparators that lie from any instant on (random, constant, flipped, non-transitive), sequential and parallel, all sizes and layouts",
 "Tests only use u32 ordering.",
 ["src/partition.rs", "src/par/partition.rs", "src/merge_sort.rs", "src/par/merge_sort.rs", "src/heap_sort.rs", "src/insertion_sort.rs", "src/quick_sort.rs"],
 [("bounds established independently of comparison answers", "partition loops, merge loops, run stack"),
  ("limit on bad pivots", "src/quick_sort.rs, src/partition.rs: limit")])

prop("C10", "An adversarial comparator cannot force more than worst-case-optimal work",
 "Against a comparator that chooses its answers adaptively, while staying consistent with some total order, every sort finishes with a correct result within a constant times n log n comparisons and every single selection within a constant times n, sequentially and in parallel. "
 "Bulk selection of m indices stays within a constant times n log m, with the constants independent of n.",
 ["fault_sequences", "inputs", "schedules"],
 "adaptive adversaries that force bad pivots, with any part of the elements fixed beforehand and with or without ties, sizes up to tens of thousands, sequential and parallel",
 "Random inputs practically never reach the fallback algorithms (heapsort, median of medians), let alone count comparisons.",
 ["src/quick_sort.rs", "src/par/quick_sort.rs", "src/partition.rs", "src/par/partition.rs", "src/heap_sort.rs", "src/par/heap_sort.rs"],
 [("heapsort fallback after too many imbalanced partitions", "recurse: limit"),
  ("median-of-ninthers fallback selection", "median_of_medians, median_of_ninthers, ninther")])

prop("C11", "A failed allocation never harms a stable sort's data or memory",
 "If any scratch allocation of a sequential stable sort fails, the call panics, having left every element in the view exactly once and having released, with their own size, exactly the blocks it had obtained. "
 "A retry after the outage sorts correctly, and a sort of n elements never holds scratch for more than half of them (plus bookkeeping that grows at most logarithmically with n).",
 ["fault_sequences", "inputs", "histories"],
 "failure of every k-th allocation, outages of any length, combined with callback panics, all sizes, layouts and run structures",
 "Allocation never fails in the tests.",
 ["src/stable_sort.rs", "src/merge_sort.rs"],
 [("scratch buffer and run stack guards", "src/merge_sort.rs: BufGuard, RunVec"),
  ("allocation closures", "src/stable_sort.rs")])

prop("C12", "In-place operations complete correctly during a total allocator outage",
 "Sequential unstable sorting, selection, bulk selection into a collection that needs no allocation, deduplication, reversal, searches and sortedness queries request no memory from the allocator. "
 "They therefore complete with the correct result even when every allocation fails, whenever that outage begins.",
 ["fault_sequences", "inputs"],
 "allocator outages beginning at any callback, all sizes, layouts and key distributions, also in fallback algorithms",
 "Allocation never fails and is never counted in the tests.",
 ["src/quick_sort.rs", "src/partition.rs", "src/partition_dedup.rs", "src/heap_sort.rs", "src/insertion_sort.rs", "src/lib.rs"],
 [("in-place swaps and stack-allocated block offsets only", "src/partition.rs: partition_in_blocks"),
  ("recursion spills to fresh stack segments (not the allocator)", "src/lib.rs: maybe_grow")])

prop("C13", "Cached-key sorts are atomic and compute each key at most once",
 "A cached-key sort, sequential or parallel, calls the key function at most once per element and exactly once if it completes on two or more elements, always on an element of the view, and the result is the stable order of those keys even if calling the function again would give other keys. "
 "If the key function or a key comparison panics at any instant, the view is exactly as it was before the call and every key computed so far is dropped exactly once.",
 ["crash_points", "schedules", "inputs"],
 "every key computation and key comparison as a panic point, all interleavings of the parallel key computation, sizes around the 255 and 65535 boundaries of the index type",
 "The tests call cached-key sorting only in doc examples of five elements.",
 ["src/lib.rs"],
 [("decorate, sort decorations, then panic-free cycle permutation", "src/lib.rs: sort_by_cached_key, par_sort_by_cached_key")],
 [("indices", "keys with the smallest sufficient index type", "src/lib.rs")])

prop("C14", "Callback access is exclusive and its side effects are never lost",
 "No two callbacks running at the same time, on any workers, are given the same element, and an element does not move or change while a callback holds a reference to it. "
 "Whatever callbacks store in elements through shared references (interior mutability) is in those elements when the operation returns or panics: no update is lost, duplicated or reverted.",
 ["schedules", "crash_points", "inputs"],
 "all interleavings at the granularity of a read-modify-write inside callbacks, 1..8 workers, with and without callback panics",
 "Tests use plain integers and comparators without side effects.",
 ["src/insertion_sort.rs", "src/par/insertion_sort.rs", "src/merge_sort.rs", "src/par/merge_sort.rs", "src/partition.rs", "src/par/partition.rs", "src/quick_sort.rs", "src/par/quick_sort.rs"],
 [("the hole guard copies back the very copy the comparator saw", "InsertionHole, MergeHole, partition's pivot guard"),
  ("tasks own disjoint subviews; predecessor pivot used by one task only", "src/par/quick_sort.rs: pred")])

prop("C15", "Bulk selection rejects corrupted index lists without harm under every schedule",
 "If the index list of a bulk selection contains an index out of bounds, a duplicate, or a descending pair, the call panics, sequentially and in parallel, under every schedule. "
 "Every element is then still in the view exactly once, nothing outside it changed, and the collection is still valid: unchanged for the parallel form, and otherwise extended only with references to distinct elements of the view.",
 ["fault_sequences", "schedules", "inputs"],
 "single and multiple corruptions (bit flips, swaps, duplicates, huge values) of valid index lists of any length, all interleavings, with and without overflow checks",
 "Only documented; no test passes a bad index list.",
 ["src/partition.rs", "src/par/partition.rs", "src/lib.rs"],
 [("bounds check of the relative index in each recursion step", "partition_at_index; partition_at_indices, par_partition_at_indices"),
  ("collection length set only after success", "src/lib.rs: par_select_many_nth_unstable*")])

prop("C16", "Unstable operations are deterministic: independent of history, thread and memory",
 "The arrangement left behind, the elements selected and the sequence of questions put to the callback by any sequential unstable sort, selection or bulk selection depend only on the element sequence and the callback's answers. "
 "They do not depend on earlier or concurrent operations, on the calling thread, on memory addresses or on the layout of the view.",
 ["histories", "schedules", "configurations"],
 "re-execution of the same operation on different threads, after different histories (also crashed ones), at different addresses and in different layouts",
 "No test runs the same unstable operation twice with distinguishable equal elements.",
 ["src/quick_sort.rs", "src/partition.rs", "src/heap_sort.rs"],
 [("fixed-seed pseudo-random pattern breaking derived from the length only", "src/partition.rs: break_patterns"),
  ("deterministic pivot choice", "src/partition.rs: choose_pivot, median_of_ninthers")])

prop("C17", "Sequential sorts and selection are correct on fault-free input",
 "Without faults, sequential stable sorts give the stable order, unstable sorts a sorted order, selection puts the right element at the index with smaller-or-equal before and greater-or-equal behind.",
 ["inputs"], "all inputs, single-threaded, no fault",
 "Tests sample small random u32 arrays.",
 ["src/merge_sort.rs", "src/quick_sort.rs", "src/partition.rs"],
 [("merge sort, quicksort, quickselect", "src/merge_sort.rs, src/quick_sort.rs, src/partition.rs")])

prop("C18", "Searches agree with linear scans on sorted views",
 "On a view sorted by the same ordering, binary search finds an equal element if there is one and otherwise the insertion point, and partition point finds the first element for which the predicate is false.",
 ["inputs"], "all sorted inputs", "Doc examples only.",
 ["src/lib.rs"], [("binary search loop invariant", "src/lib.rs: binary_search_by")])

prop("C19", "Containment, sortedness, reversal and dedup agree with their definitions",
 "Containment and sortedness queries, reversal and consecutive deduplication give what their definitions say for every view.",
 ["inputs"], "all inputs", "Small random u32 arrays and doc examples only.",
 ["src/lib.rs", "src/partition.rs", "src/partition_dedup.rs"],
 [("plain loops", "src/partition.rs: is_sorted, reverse; src/partition_dedup.rs")])

prop("C20", "Callbacks stay on the caller's threads, and one free worker suffices",
 "A sequential operation calls the caller's functions only on the calling thread; a parallel one calls them only there and on workers of the pool in effect, and neither starts threads or pools of its own. "
 "A parallel operation, called from inside or outside of the pool, alone or by several callers at once, completes with the correct result as long as one worker of the pool is free, however many others are occupied by unrelated work that never ends.",
 ["schedules", "configurations", "fault_sequences"],
 "all interleavings, pools of 1..8 workers of which all but one may be occupied from any instant on, calls from inside and outside, concurrent callers",
 "Tests run in an idle global pool and cannot see which thread a callback runs on; no test occupies workers or calls from inside of a pool.",
 ["src/par/merge_sort.rs", "src/par/quick_sort.rs", "src/par/partition.rs", "src/lib.rs"],
 [("fork/join only: every wait is for a task that the waiting thread can execute itself", "src/par/merge_sort.rs: recurse, par_merge; src/par/quick_sort.rs: recurse; src/par/partition.rs: par_partition_at_indices"),
  ("stack growth on the same thread", "src/lib.rs: maybe_grow")])

prop("C21", "Parallel operations on large inputs divide their work among the workers",
 "On large views in random order the parallel sorts, and the parallel bulk selection of many indices, divide their callbacks among tasks that need not wait for each other: with enough free workers, the longest chain of callbacks each of which has to wait for the previous one is at most a small multiple of the length (for stable sorts, the work on one worker's share of the chunks plus a logarithmic number of merge steps), well below the total a sequential execution needs. "
 "The key function of a parallel cached-key sort is called by several tasks as well.",
 ["schedules", "inputs", "configurations"],
 "views of some thousand to some hundred thousand elements with random keys, all schedules, 2..24 workers",
 "Tests assert results only; an operation that is silently sequential passes all of them.",
 ["src/par/merge_sort.rs", "src/par/quick_sort.rs", "src/par/partition.rs", "src/lib.rs"],
 [("chunks sorted by parallel iteration, recursive merge tree, split merges", "src/par/merge_sort.rs: par_merge_sort, recurse, par_merge"),
  ("join of both halves above the sequential limit", "src/par/quick_sort.rs: recurse; src/par/partition.rs: par_partition_at_indices"),
  ("keys computed in parallel", "src/lib.rs: par_sort_by_cached_key")])

prop("C22", "The questions of a parallel operation do not depend on the schedule",
 "Which pairs of elements (by initial position) a parallel sort, selection or bulk selection has the caller compare, which elements it has keys made of, and how often, is the same under every schedule, number of workers, number of occupied workers, and inside and outside of the pool; for cached keys this is said of the key function, not of the comparisons of keys.",
 ["schedules", "configurations", "inputs"],
 "all interleavings and steals, pools of 1..8 workers, calls from inside and outside, all layouts",
 "No test records the questions of a parallel operation, let alone under two controlled schedules.",
 ["src/par/merge_sort.rs", "src/par/quick_sort.rs", "src/par/partition.rs", "src/lib.rs"],
 [("chunk borders, merge splits and sequential limits depend on lengths only", "src/par/merge_sort.rs"),
  ("pivots and pattern breaking depend on the elements and lengths only", "src/par/quick_sort.rs, src/par/partition.rs")])

prop("C23", "Memory of parallel operations is bounded, and in-place ones need none",
 "A parallel unstable sort requests no memory of its own, and neither does a parallel bulk selection into a collection with enough room: they complete with the correct result during a total allocator outage that begins at any callback, under every schedule. "
 "A parallel stable sort never holds scratch for more than its n elements, a cached-key one never for more than a small multiple of its n keys and indices, plus bookkeeping in proportion to the number of chunks and of workers. "
 "Whatever was obtained has been released when the operation returns or panics.",
 ["schedules", "fault_sequences", "crash_points", "inputs"],
 "allocator outages beginning at any callback, panics at any callback, all interleavings, all element sizes",
 "Allocations are neither counted nor refused in the tests.",
 ["src/par/merge_sort.rs", "src/par/quick_sort.rs", "src/par/partition.rs", "src/par/heap_sort.rs", "src/lib.rs"],
 [("one buffer of n elements shared by all chunks and merges", "src/par/merge_sort.rs: par_merge_sort"),
  ("in-place swaps, stack-allocated block offsets, forks on the stack", "src/par/partition.rs, src/par/quick_sort.rs"),
  ("room reserved in the collection once", "src/lib.rs: par_select_many_nth_unstable*")],
 [("buf", "scratch of the parallel merge sort", "src/par/merge_sort.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
    
import jsonschema
schema = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P: jsonschema.validate(p, schema)
print(len(P), "properties")
