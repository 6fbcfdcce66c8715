#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept in a script so that the JSON stays valid).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=mech, observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = state
    assert len(title) <= 80, title
    P.append(d)
def m(name, where): return dict(name=name, where=where)
R="src/raw/mod.rs"; A="src/raw/alloc.rs"; M="src/map.rs"; S="src/set.rs"; U="src/raw/utils/"
ST=[dict(name="entry slot", meaning="null, entry pointer with COPYING/COPIED/BORROWED tags, or tombstone", where=R+" Entry"),
    dict(name="table metadata byte", meaning="EMPTY, TOMBSTONE or top 7 hash bits", where=R+" mod meta"),
    dict(name="resize state", meaning="next table, claim/copied counters, status, parker, deferred stack", where=R+" State")]

p("C01","Single-key operations are linearizable",
  "Every concurrent history of get, contains_key, insert, try_insert, remove and the other single-key operations on one map is equivalent to some sequential execution of the same operations on an ordinary map, in an order consistent with real time. In particular a completed insert is seen by every later get until the key is overwritten or removed, a removed value never comes back, and each replaced or removed value is handed to exactly one operation.",
  ["schedules","inputs","programs"],
  "All interleavings of the threads' atomic steps, all hash values of the keys (collisions included), all small programs of single-key operations, both resize modes, tables with and without tombstones.",
  "The existing tests run a handful of fixed programs and whatever schedules the OS produces; windows of one or two instructions (slot claimed but metadata not yet written, CAS lost to a racing update) are almost never hit.",
  [R,M],[m("slot CAS + metadata publication",R+" insert_at/update_at"),m("probe loop of readers",R+" get"),m("removal",R+" remove_if")],
  ["return values of HashMap operations"],ST)
p("C02","Reads happen-after the writes they observe (no data races)",
  "Whenever an operation returns a reference to a key or value, everything done before the operation that stored it (including construction of the key and value) happens-before the read. No sequence of map operations performed from several threads is ever a data race on a key, a value, a table or on internal bookkeeping.",
  ["schedules","inputs","programs"],
  "All interleavings at atomic-operation granularity under the happens-before relation that the program's own memory orderings create (not the stronger one of the host CPU), all hashes, all small programs.",
  "Tests run on x86, where most missing Acquire/Release orderings cannot misbehave at all, and no race detector runs in the test suite.",
  [R,A,U+"parker.rs",U+"stack.rs"],[m("Release CAS / Acquire loads on slots, metadata, table pointers and resize status",R)],
  ["every non-atomic access to shared memory"],ST)
p("C03","References stay valid while the guard is held; no use after free",
  "A key or value reference obtained through a guard stays valid, with its contents unchanged, until that guard is dropped or refreshed, whatever other threads insert, update, remove, clear or resize meanwhile. No operation ever touches freed memory, frees memory twice, or hands an object to the collector while it is still reachable.",
  ["schedules","inputs","programs","histories"],
  "All interleavings, with the collector reclaiming every retired object at the earliest moment its contract allows; all hashes; both resize modes including entries shared by two tables during an incremental resize.",
  "A premature retirement only shows when reclamation happens in a tiny window; the real collector batches retirements, so tests practically never reclaim early.",
  [R,A],[m("defer_retire with BORROWED entries deferred to the table being copied from",R+" defer_retire/drop_table"),m("old table retired after promotion",R+" try_promote")],
  ["every memory access of the map","references held across other operations"],ST)
p("C04","Every key and value is dropped exactly once and nothing leaks",
  "Once the map and all guards are gone, every key and every value ever handed to the map has been dropped exactly once, unless it was moved back to the caller, and all memory allocated by the map has been freed. This holds for replaced and removed entries, failed try_insert calls, aborted or retried compute calls, lost initialisation races, and maps dropped in the middle of any number of unfinished resizes.",
  ["schedules","inputs","histories","programs"],
  "All interleavings and all histories within the bounds, ending with the drop of the map in any reachable resize state.",
  "Tests count drops for a few fixed programs only; leaks or double drops on lost races and on unfinished (nested) resizes need particular schedules.",
  [R,A,U+"stack.rs"],[m("drop of nested tables skipping copied entries",R+" Drop for HashMap, drop_entries, drop_table"),m("freeing of entries that were not inserted",R+" insert, compute")],
  ["drop counters in key/value types","allocator"],ST)
p("C05","A single thread sees an ordinary map, whatever the hashes and resizes",
  "For every sequence of operations executed by one thread, every return value, the length and the iterated contents are those of a reference associative map. This holds for every assignment of hash values to keys (including colliding and adversarial ones), every initial capacity, both resize modes and every incremental chunk size, across any number of automatic or requested resizes in any stage of completion.",
  ["inputs","programs","configurations"],
  "All hash values of the keys, all programs of map operations up to a length bound starting from representative table states (empty, full, with tombstones, mid-resize, nested resizes).",
  "Tests use one or two hash functions and fixed programs; probe-limit, metadata-collision and tombstone combinations depend on rare hash values.",
  [R,A,"src/raw/probe.rs",M],[m("probe sequence and limit","src/raw/probe.rs"),m("search continues into the next table",R+" get, remove_if, compute_with")],
  ["return values, len, iter"],ST)
p("C06","Concurrent resizing never loses, duplicates or resurrects entries",
  "Resizing (growing, shrinking or same-size, incremental or blocking, one or several in progress at once) runs concurrently with any other operations without changing what they observe: an entry present before is found throughout, an update or removal during the copy is never undone by the copy, and no key becomes present twice. When the resizes have completed, the map contains exactly the keys and values the linearized operations left.",
  ["schedules","inputs","programs"],
  "All interleavings of operations with copying, promotion, aborted copies and nested resizes, for small tables and all hashes.",
  "The stress tests hit resize windows at random and check mostly final counts; races between the copying bit, the copied bit, promotion and writers need exact schedules.",
  [R],[m("COPYING/COPIED/BORROWED protocol",R+" copy_at_incremental, copy_at_blocking, wait_copied"),m("promotion",R+" try_promote"),m("retry in the next table",R+" prepare_retry, prepare_retry_insert")],
  ["return values during and contents after a resize"],ST)
p("C07","len() and is_empty() are exact when the map is quiescent",
  "Whenever no operation is in progress, len() equals the number of keys present and is_empty() says whether that is zero. This holds after every combination of concurrent inserts, updates, removals, conditional removals, compute calls, clear and retain, whichever threads performed them and across resizes.",
  ["schedules","inputs","programs"],
  "All interleavings and all small programs; the counter is sharded by thread so increments and decrements of one key may hit different shards.",
  "Tests check len after fixed programs; a missing or doubled count on a lost race is only visible under that schedule.",
  [R,U+"counter.rs"],[m("sharded counter",U+"counter.rs"),m("count updates at each successful transition",R+" insert, remove_if, compute_with, clear, retain")],
  ["len, is_empty vs iterated contents"])
p("C08","Iteration yields every stable entry once and nothing that was never there",
  "An iterator (also keys, values, and the set iterator) yields every entry that is present from before the iterator's creation until its exhaustion, exactly once for a key that is not removed and re-inserted meanwhile, and only key-value pairs that were actually in the map at some time during the iteration. It is safe and complete in the presence of concurrent updates, removals and resizes.",
  ["schedules","inputs","programs"],
  "All interleavings of one iterating thread with mutating threads, including resizes started before, during and after the iterator's creation.",
  "Tests iterate over quiescent maps or check nothing but absence of crashes in stress tests.",
  [R,M,S],[m("linearize before iterating",R+" iter, linearize"),m("metadata then slot",R+" Iter::next")],
  ["items yielded"])
p("C09","clear and retain remove exactly what they promise",
  "clear removes every entry that was present when it was called and not re-inserted concurrently; retain calls its predicate on entries of the map and removes exactly the key-value pairs for which the predicate returned false, never one for which it returned true or that replaced the tested one afterwards. Entries inserted after they return are unaffected, and both cope with resizes in progress.",
  ["schedules","inputs","programs"],
  "All interleavings with concurrent inserts, updates, removals and resizes, all hashes, all predicate outcomes.",
  "Tests call clear and retain single-threaded or without checking results under concurrency.",
  [R,M],[m("per-slot CAS loops, restart in the new table",R+" clear, retain")],
  ["contents after clear/retain","predicate calls"])
p("C10","update, compute and conditional operations act atomically",
  "update, update_or_insert(_with), get_or_insert(_with), try_insert(_with), compute and remove_if apply their closure to the value they actually replace or remove, atomically: no concurrent update is lost, the reported old and new values are the ones exchanged, and remove_if removes only an entry its predicate accepted. Initialisation closures run at most once, closures run only on current entries, an aborted or failed operation changes nothing and returns the value that caused it.",
  ["schedules","inputs","programs"],
  "All interleavings of conflicting read-modify-write operations on the same key, also during resizes, all closure outcomes (insert, remove, abort).",
  "Tests contend on counters and hope for a lost update; caching of computed values across retries and tables is only exercised on specific lost races.",
  [R,M],[m("compute loop with cached transitions",R+" compute_with, ComputeState"),m("remove_if retry loop",R+" remove_if")],
  ["return values, closure calls"])
p("C11","Operations always finish: no deadlock, lost wakeup or endless loop",
  "Every operation terminates: a thread running alone from any reachable state finishes its operation unless it waits for a copy another thread has claimed, and a thread that waits for another thread's copy or allocation is always woken once that finishes or is aborted. No schedule leaves a set of threads all waiting, and no sequence of operations or distribution of hashes makes an operation loop forever.",
  ["schedules","inputs","programs"],
  "All interleavings including park/unpark timing, all hashes including total collisions, nested and aborted resizes.",
  "A lost wakeup needs the notification to fall into one exact window; endless loops need unusual hash distributions.",
  [R,U+"parker.rs"],[m("park/unpark with pending counter",U+"parker.rs"),m("status checks and retry loops",R+" help_copy_blocking, help_copy_incremental, wait_copied, prepare_retry_insert")],
  ["termination of every call"])
p("C12","Guards of a different collector are always rejected",
  "Every public operation of HashMap and HashSet that takes a guard panics when the guard belongs to another collector, before reading or changing anything, in every state of the map including the empty, unallocated one. Guards of the map's own collector, local or owned, obtained from the map or from a shared collector, are accepted.",
  ["inputs","configurations","programs"],
  "All guard-taking entry points of both types, all four guard kinds, all map states.",
  "Tests check a few methods; forgetting the check in one method compiles and passes everything.",
  [M,S,R],[m("verify",R+" HashMap::verify")],
  ["panic or acceptance per method"])
p("C13","Capacity requests are honoured for every value",
  "with_capacity(n), builder capacity and (in a map without removed entries) reserve(n) give a table that takes n further insertions without reallocating for well-distributed hashes, for every n, and panic (never hang, misallocate or build a too-small table) when the size is not representable. The table allocation is large enough and correctly aligned for every slot and metadata byte it is used for, and a map never shrinks below its initial capacity.",
  ["inputs","configurations"],
  "All 64-bit values of the requested capacity, all table lengths and layouts, within the solver's reach of the size arithmetic.",
  "Tests use a dozen capacities; overflow and rounding boundaries near powers of two and near usize::MAX are not sampled.",
  ["src/raw/probe.rs",A,R],[m("entries_for","src/raw/probe.rs"),m("Table::layout / alloc",A),m("next capacity",R+" get_or_alloc_next, reserve")],
  ["allocation sizes requested, panics, number of resizes"])
p("C14","HashSet behaves like a set under all operations",
  "HashSet's insert, contains, get, remove, retain, clear, iter, len, reserve and comparison follow set semantics: insert returns true exactly when the element was absent, remove returns true exactly when it was present, and under concurrency each is linearizable. Its pinned and guard-based forms agree and its conversions (FromIterator, Extend, Clone, equality) preserve the elements.",
  ["schedules","inputs","programs"],
  "All hashes, small programs, interleavings of two threads, both resize modes.",
  "The set tests are sequential with one hasher.",
  [S],[m("delegation to the raw map",S)],
  ["return values of HashSet methods"])
p("C15","Pinned API and guard API of HashMap are equivalent",
  "Each method of a pinned map (pin, pin_owned) has exactly the effect and result of the corresponding HashMap method called with a guard of that map, for every argument and map state. Accessors through either API (get, get_key_value, contains_key, iter, keys, values, len, is_empty) agree with each other.",
  ["inputs","programs"],
  "All methods, all hashes, all small map states and arguments.",
  "Tests run through one API or the other with fixed data.",
  [M],[m("HashMapRef delegation",M+" impl HashMapRef")],
  ["return values of both APIs"])
p("C16","Equality, cloning, bulk construction and formatting preserve contents",
  "Two maps or sets compare equal exactly when they hold equal keys with equal values, regardless of capacity, hash order, resize state or mode; clone, FromIterator, From arrays, Extend and a serde round trip give a map with exactly the source's final contents, the last value winning for repeated keys. Cloning keeps the hasher and the clone is independent of the original. Debug output of maps, sets and their iterators shows exactly the entries (of an iterator: the ones still to come), each once, with its own value.",
  ["inputs","programs","configurations"],
  "All hashes, all small contents (including subset, different-value and same-size different-key pairs), maps mid-resize.",
  "Tests compare a few fixed maps; equality asymmetries on subsets or on mid-resize maps are not sampled.",
  [M,S,"src/serde_impls.rs"],[m("PartialEq/Clone/FromIterator/Extend",M),m("serde impls","src/serde_impls.rs")],
  ["results of ==, clone, collect, extend, (de)serialize, {:?}"])
p("C17","A panic in user code leaves the map usable and memory safe",
  "If a user-supplied closure, Hash, Eq or Clone implementation panics during an operation, the panic reaches the caller and the map stays consistent: no entry is corrupted, duplicated or half-inserted, no value is dropped twice, other entries and len are unaffected, and later operations behave normally and do not block.",
  ["inputs","programs","fault_sequences"],
  "Every call of user code during the operations as the panic point, all hashes, both resize modes, also mid-resize.",
  "No test injects panics.",
  [R,M],[m("closures run before any shared state changes",R+" compute_with, remove_if, retain")],
  ["state after catch_unwind"])
p("C18","Keys are not replaced by insert on an existing key",
  "Inserting a value for a key that is already present updates the value and keeps the key object that is in the map, as the documentation of HashMap::insert states (and HashSet::insert for an equal element). The key passed in is dropped.",
  ["inputs","programs"],
  "All keys that are equal without being identical, all hashes, all map states.",
  "No test uses keys that are equal but distinguishable.",
  [M,S,R],[m("insert on an occupied slot",R+" insert_inner")],
  ["get_key_value after insert"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
