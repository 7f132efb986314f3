#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the properties are worded)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
SH, SY, SP, UN, LS, OP, LIB, RW = ("src/shard.rs", "src/sync.rs", "src/sync_placeholder.rs", "src/unsync.rs",
    "src/linked_slab.rs", "src/options.rs", "src/lib.rs", "src/rw_lock.rs")

p("C01", "Resident weight never exceeds the capacity", """
Whenever no operation is in progress on it (and, for the concurrent cache, at any instant another thread can observe
it), the total weight a cache reports is at most its reported capacity, for every weight function, capacity, hot/ghost
split and shard count (as long as sums of weights fit in 64 bits). Pinned items may push it over, but then no evictable item other than the one admitted last stays
resident; weight added in place through a mutable reference (or by unpinning) may exceed it only until the next item
with a non-zero weight is admitted by an insertion.""",
 ["inputs", "histories", "configurations", "schedules"],
 "every history of operations, weight function, pinning pattern, capacity/allocation/shard configuration and schedule",
 "The tests use unit or string-length weights with capacities that are hardly ever reached; only one test of a fixed 100-step sequence drives eviction with varied weights.",
 [SH, SY, UN], [("eviction loops in insert, insert_existing and replace_placeholder", SH), ("advance_cold / advance_hot", SH), ("admission limit check against the hot target", SH), ("weight re-accounting when a mutable reference is dropped", SH)],
 [("weight_hot, weight_cold", "accounted weight of the hot and cold lists", SH), ("weight_capacity, weight_target_hot", "limits", SH)],
 ["weight(), capacity() after every call and from a concurrent observer thread"])
p("C02", "Size and weight reports match the contents", """
len, is_empty and weight always equal the number of resident items and the sum of their weights as the weight function
gives them, and every way of looking (get, peek, contains_key, iteration, retain) agrees on which items are resident with
which values. This includes after in-place mutation through get_mut or peek_mut, replacement, rejection of too heavy
items, eviction, failed loads, clear, drain and retain.""",
 ["inputs", "histories", "configurations", "schedules"],
 "every history, weights including zero and changing ones, every hasher and shard count, and quiescent points after concurrent runs",
 "Tests compare weight() at three fixed points; the internal validator only runs under cfg(fuzzing)/test on one path.",
 [SH, UN, SY], [("weight and count bookkeeping at every list transition", SH), ("cold_change_weight on RefMut drop", SH), ("sums over shards", SY)],
 [("num_hot, num_cold, weight_hot, weight_cold", "bookkeeping that the reports are computed from", SH)],
 ["len(), weight(), is_empty(), iter(), retain(|..| true), get/peek/contains_key over the key universe"])
p("C03", "A lookup returns the last value written or nothing", """
For any sequence of operations on one cache, a lookup of a key (by the owned key or any equivalent borrowed form) returns
either nothing or exactly the value most recently stored under that key. A key that was removed, evicted, rejected or
never inserted stays absent until it is stored again, and no operation on one key changes or removes-and-restores another
key's value. This holds for every hash function, including constant and heavily colliding ones, and any shard count.""",
 ["inputs", "histories", "configurations"],
 "every history of sequential operations over every public API, key set, hasher (adversarial ones included), capacity and shard count",
 "Tests look up a handful of keys just inserted, with well distributed hashes and no evictions in between.",
 [SH, SY, UN, LS], [("search / search_resident compare keys, not hashes", SH), ("map_insert / map_remove / rehash closures", SH), ("handle_insert_overweight drops the older value", SH), ("shard_for", SY), ("slot reuse in the slab", LS)],
 [("map, entries", "hash table of tokens into the slab holding keys and values", SH)], ["return values of all lookups"])
p("C04", "Concurrent operations on a key are linearizable", """
Under any thread schedule the operations of the concurrent cache on a key (insert, replace, remove, get, peek,
contains_key, guard insertion, load-through) appear to take effect atomically, in an order consistent with real time, as
on a map whose entries may also disappear by eviction: no lost update, no stale read after a completed write or removal,
no value nobody stored. While nothing can be evicted the behaviour is exactly that of a plain map. The one exemption is a
value handed to a call that waited on another caller's guard: it is the value that guard's holder inserts.""",
 ["schedules", "histories"], "every schedule of any number of threads and tasks over any programs of operations",
 "The existing multi-thread test only checks that a hit returns its own key; the shuttle test uses one key and one final read.",
 [SY, SP, SH, RW], [("per-shard reader-writer lock held across each operation", SY), ("replace_placeholder only fills the very placeholder the guard owns", SH)],
 [("shards", "independently locked partitions", SY)], ["call/return events of every client operation, checked against a sequential map"])
p("C05", "Eviction happens only under pressure; admissible inserts are admitted", """
An operation evicts items only if, when it starts, the resident weight (of its shard) plus the weight being admitted exceeds
the (shard's) capacity; no other operation evicts anything. An item inserted with insert under a key the cache has not seen before, whose weight is within the hot
share of the (shard's) capacity, is always admitted and readable right after the insert, and a heavier item that is not
pinned (and that the before-evict hook does not shrink) is never admitted.""",
 ["inputs", "histories", "configurations"], "every history, weight distribution, capacity, allocation split and shard count",
 "Tests never compare the resident set before and after an operation.",
 [SH, SY], [("loop conditions of the eviction loops", SH), ("admission limit", SH)], [("weight_target_hot", "admission limit and hot budget", SH)],
 ["resident set before and after each operation; eviction hook events"])
p("C06", "Pinned and zero-weight items are never evicted", """
Admitting other items never removes an item that is pinned or has zero weight: it leaves only by explicit removal
(remove, retain, clear, drain) or by a write to its own key. An item whose weight the before-evict hook sets to zero stays
resident with its modified value. An item that gains weight or is unpinned becomes evictable again.""",
 ["inputs", "histories", "configurations"], "every mix of pinned, weightless and ordinary items, transitions between them, and pressure",
 "One test covers a single zero-weight item; pinning is not tested at all outside the fuzz target.",
 [SH, LIB], [("zero-weight items are kept out of the eviction lists", SH), ("is_pinned skip in advance_cold/advance_hot", SH), ("link/unlink on weight transitions", SH)],
 [("hot/cold rings", "only evictable (non-zero) items are linked", SH)], ["resident set before and after each operation"])
p("C07", "Every stored pair meets exactly one fate", """
Every key/value pair handed to the cache is afterwards in exactly one place: resident, passed exactly once to the eviction
hook, handed back to the caller (by remove, drain or an Err), or dropped by an explicit clear, retain or drop of the cache.
No pair is lost silently, duplicated, dropped twice or reported as evicted while still readable, and what is reported or
handed back is the key and value that were stored.""",
 ["inputs", "histories", "schedules", "configurations"], "every history and schedule, including overwrites, rejected inserts, failed replaces, failed guard insertions and hook-modified weights",
 "No test installs a lifecycle hook or tracks drops.",
 [SH, SY, UN, SP], [("on_evict at each displacement site", SH), ("Err((key, value)) / Err(value) returns", SH), ("remove_internal, drain", SH)],
 [("entries", "owner of the pairs", SH)], ["eviction hook calls, returned pairs, live-instance counters of keys and values"])
p("C08", "Lifecycle hooks follow the request protocol", """
Each insert, replace, guard insertion or inserting load-through call begins exactly one request, reports every eviction it
causes to that request's state before returning, and calls end_request exactly once with that state iff it succeeded and is
not a _with_lifecycle call, which returns the state instead; lookups and removals begin none. The before-evict hook runs once on
an item, right before it is evicted for capacity or rejected as too heavy, never on a value displaced by a write to its own
key and never on a pinned item.""",
 ["inputs", "histories", "schedules"], "every operation in every cache state, for both cache variants",
 "No test observes hook calls.", [SH, SY, UN, SP, LIB], [("begin_request/end_request in each public entry point", SY), ("same in the unsync cache and its guard", UN), ("guard insertion", SP), ("before_evict/on_evict order", SH)],
 [("RequestState", "per-request user state", LIB)], ["hook call log"])
p("C09", "At most one loader per key at a time", """
While a guard for a key is outstanding every other get_value_or_guard or get_or_insert call on that key (blocking or async,
any thread) waits, so no two callers hold a guard for, or run the loader of, the same key at once unless the key was
explicitly inserted, removed or cleared meanwhile. Unrelated activity (eviction pressure, table growth, reserve, retain,
operations on other keys) never breaks this. Once the guard's value is inserted, every caller waiting on it gets that value
without running its own loader.""",
 ["schedules", "histories", "inputs"], "every schedule of threads and tasks, any outcome of the loaders, any unrelated traffic on the same shard",
 "Tests cover one key with nothing else happening in the cache; table growth, eviction and reserve while a load is in flight are not exercised.",
 [SP, SH, SY], [("upsert_placeholder under the shard write lock", SH), ("join_internal hands the guard to the notified waiter only", SP), ("placeholders survive rehash, eviction and retain", SH)],
 [("placeholder state", "loading / inserted / terminated and the waiter list", SP)], ["guard acquisition and release events, loader invocations"])
p("C10", "Waiting callers are never stranded", """
When a guard is released in any way (insertion, drop, loader error, panic or cancellation) the calls waiting on it make
progress: on insertion all of them return the value, otherwise exactly one takes over as loader and the others keep waiting
on it, and with no waiters the next call gets a guard at once. This holds for any mix of blocked threads, pending futures
(whichever waker polled them last), timeouts and dropped futures, including futures dropped after they were woken, and for
concurrent inserts, removes and clears of the key; no schedule deadlocks.""",
 ["schedules", "fault_sequences", "histories"], "every schedule and every mix of waiter kinds, cancellations, timeouts, loader failures and panics",
 "The stress tests sample a few schedules of one pattern; woken-then-dropped futures, waker changes, panics and mixes with clear/remove are hardly reached.",
 [SP, SY], [("notify / drop_uninserted_slow / drop_pending_waiter", SP), ("waiters are only added under the shard lock", SP), ("re-check of the notification flag when timing out", SP)],
 [("waiters, notified flags", "who is waiting and who was handed the guard", SP)], ["completion of every call; waker invocations; scheduler deadlock detection"])
p("C11", "Timeouts are honoured and abandoned waits leave no trace", """
get_value_or_guard with a timeout returns Timeout only if another caller holds the guard of that key, not before the given
duration has passed and without waiting substantially longer than it; with no guard outstanding it never times out. A call
that timed out, or a future that was dropped, leaves the cache as if it had never waited: it is never handed the guard
later, and does not keep others from getting the value or the guard.""",
 ["schedules", "inputs", "histories"], "every timeout value, moment of release relative to the deadline, and mix of other waiters",
 "One stress test uses a 1 ms timeout and retries; nothing checks durations or the state after a timeout.",
 [SP], [("timeout branch of join", SP), ("drop_pending_waiter", SP)], [("waiters", "list a departing waiter must leave", SP)], ["results, durations and later operations"])
p("C12", "In-flight loads are invisible and cannot clobber newer writes", """
A key being loaded is not counted, returned or visited by len, weight, get, peek, contains_key, remove, replace, iteration
or retain until its guard inserts. If the key is inserted (even if the value is too heavy to be kept) or removed, or the cache cleared, meanwhile, the guard's late
insertion fails, hands the value back to its caller and changes nothing; otherwise it succeeds and, if admitted, the value
is readable.""",
 ["schedules", "histories"], "every interleaving of guards (several per key over time) with writes, removals, clears, slot reuse and eviction",
 "Tests insert through a guard at once, with no other operation on the key in between.",
 [SP, SH], [("replace_placeholder identity check", SH), ("remove_placeholder identity check", SH), ("lookups match resident entries only", SH)],
 [("placeholder entries", "in-flight loads in the map", SH)], ["results of guard insertion and of all lookups while guards are held"])
p("C13", "Memory is bounded and nothing leaks", """
The cache retains keys and values only for resident items and in-flight loads: evictions, replacements, removals and failed,
abandoned or cancelled loads release theirs at once, and everything is released when the cache is dropped. Bookkeeping
memory is bounded in terms of the largest number of resident, in-flight and remembered (ghost) entries, so under endless
churn memory stops growing.""",
 ["histories", "inputs"], "every unbounded history with bounded residency",
 "Leaks are invisible to the tests; the run lengths and key counts are small.",
 [SH, LS, SP, UN], [("slot free list", LS), ("ghost list trimming", SH), ("remove_placeholder releases the slot", SH)],
 [("entries free list", "slot reuse", LS), ("capacity_non_resident", "ghost bound", SH)], ["live instances of keys and values; heap bytes in use"])
p("C14", "Memory-safe and free of data races", """
No sequence of safe API calls, from any number of threads and tasks, makes the cache produce undefined behaviour: no use
after free, out-of-bounds or uninitialised access, invalid or dangling reference, or data race.""",
 ["inputs", "schedules", "histories"], "every program of safe calls (leaked guards and references included), key/value types with heap data, and schedule",
 "The tests are not run under a sanitizer here and reach few of the unsafe paths.",
 [SH, LS, UN, SP, RW], [("get_unchecked / unreachable_unchecked / assume_init sites", SH), ("get_unchecked", LS), ("lifetime-extending pointer casts", UN), ("locks", RW)],
 [], ["Miri, AddressSanitizer and ThreadSanitizer reports, canaries inside keys and values"])
p("C15", "Panics in user code are contained", """
If user code run by the cache (loader, retain predicate, weight function, hook, key hashing or comparison, key or value
clone) panics, the panic reaches the caller of that operation, and the cache never aborts the process, drops a value twice,
returns a dropped or wrong value, or leaves a lock held: later calls return, normally or by panicking (a weight function that
panics on a value modified in place or by a hook excepted). If it was a loader or
a retain predicate, the cache stays fully usable, exactly as if the loader had returned an error or the retain call had not been
made (for a retain over several shards: had not reached the shard in which the predicate panicked).""",
 ["fault_sequences", "histories"], "a panic at every user callback invocation of every operation in any history",
 "No test panics in a callback.", [SH, SP, UN, SY], [("guards' drop during unwinding", SP), ("unsync guard drop", UN), ("order of state changes around callbacks", SH)],
 [], ["panic propagation, live-instance counters, later operations, process exit status"])
p("C16", "Observing the cache does not influence eviction", """
peek, peek_mut without modification, contains_key, the size and capacity reports, iteration, a retain that keeps
everything, reserve and cloning never change which items are evicted later or in what order, and replace with soft set
exchanges the value without changing the item's standing. Two caches with the same configuration and hasher that are given
the same sequence of other operations make identical eviction decisions.""",
 ["histories", "inputs", "configurations"], "every base history and every placement of observers in it",
 "No test compares eviction decisions.", [SH, UN, SY], [("peek paths leave the reference counter alone", SH), ("soft replace", SH), ("reserve rehash", SH)],
 [("referenced", "per-item use counter", SH)], ["eviction sequences and contents of twin caches"])
p("C17", "Scan resistant and frequency aware", """
A stream of new keys, each inserted once and never read, does not displace the established (hot) items however long it is;
a newly admitted item that is used again (get, get_mut, load-through hit, overwrite or hard replace) survives such a stream
while unused ones are the ones evicted, items used since they were last considered outlive unused ones, and a key inserted
again shortly after its eviction is admitted as hot. On skewed workloads polluted with scans the hit rate is well above that
of an LRU cache of the same capacity.""",
 ["histories", "configurations"], "every capacity, scan length and way of using an item",
 "No test looks at which item is evicted.", [SH], [("hot/cold/ghost lists", SH), ("referenced counters", SH), ("ghost hit admits as hot", SH)],
 [("hot_head, cold_head, ghost_head", "lists", SH), ("referenced", "use counter", SH)], ["which keys survive; hit counts against a reference LRU"])
p("C18", "Configuration is honoured", """
For every valid configuration the concurrent cache splits its capacity evenly over a power-of-two number of shards, not more
than the requested number rounded up; the capacity it reports is at least the requested weight capacity (as far as 64 bits
allow), exceeds it by less than one unit per shard, and keys are spread so that all of it can be used. The
heaviest admissible item follows the hot fraction, and the number of evicted keys remembered the ghost fraction of the estimated
items. Building options fails iff the weight capacity or
the estimated item count is missing, and hot or ghost fractions outside [0, 1] are rejected.""",
 ["configurations"], "every combination of shards, estimated items, weight capacity and allocations, including 0 and very large values",
 "One test constructs caches with five sizes and never uses them.", [SY, OP, UN, SH], [("with_options shard arithmetic", SY), ("OptionsBuilder::build", OP), ("shard_for", SY)],
 [("shards_mask", "shard selection", SY)], ["capacity(), shard_capacity(), num_shards(), contents after overfilling"])
p("C19", "A cloned cache is an independent, faithful copy", """
Cloning the non-concurrent cache yields the same contents, size, weight and capacity and the same future behaviour as the
original; afterwards operations on either one never affect the other.""",
 ["histories", "inputs"], "every history before the clone and every pair of histories after it",
 "Clone is not tested.", [SH, LS, UN], [("Clone for CacheShard and LinkedSlab", SH)], [], ["contents and eviction decisions of both copies"])
p("C20", "Hit and miss counters are exact", """
With stats enabled every get or get_mut adds exactly one hit if it returned a value and exactly one miss otherwise; a
load-through or guard call that finds the value resident adds exactly one hit and no miss, and one that finds the key absent
and not being loaded adds at least one miss and no hit. peek, contains_key, writes, removals and bulk operations add neither,
and no count is lost however many threads and shards are involved.""",
 ["histories", "schedules", "configurations"], "every history and schedule, both cache variants, any shard count",
 "The stats feature is never enabled in a test run.", [SH, SY, UN], [("record_hit / record_miss macros", SH), ("sums over shards", SY)], [("hits, misses", "atomic counters", SH)], ["hits(), misses() around every call"])
p("C21", "Bulk operations are exact", """
clear leaves the cache empty; drain empties it and yields every resident pair exactly once, and empties it even if the
iterator is dropped early; iter yields every resident pair exactly once; retain calls the predicate exactly once per resident
pair and removes exactly those it rejects, leaving the others and in-flight loads untouched. Afterwards the cache is fully
usable with its whole capacity, and one emptied by clear or drain works like a newly built one.""",
 ["histories", "inputs", "configurations", "schedules"], "every cache state (hot, cold, weightless, pinned, ghost, in-flight entries; every shard) and predicate; concurrent calls on other threads included",
 "Two tests retain over ten ordinary items; clear, drain and iter are untested.", [SH, SY, UN, LS], [("drain resets lists and counters", SH), ("retain collects then removes", SH), ("loops over all shards", SY)], [], ["yielded pairs, contents and reports before and after, later fill"])
p("C22", "Every operation terminates", """
Every operation that is not waiting for another caller's guard completes after a number of steps bounded in terms of the number
of resident entries (at most quadratic in it), even when all items are pinned, weightless or too heavy, or become so in a hook.""",
 ["inputs", "histories", "configurations"], "every history, pinning pattern, weight and hook behaviour",
 "Tests never fill a cache with pinned items.", [SH], [("termination conditions of advance_cold/advance_hot and the loops calling them", SH)], [], ["number of user callbacks per operation"])
p("C23", "Load-through calls run the loader exactly when needed", """
get_or_insert_with, get_or_insert_async, get_mut_or_insert_with and the guard APIs consult the loader or hand out a guard only
if the key is absent, run the loader at most once per call, and return the resident value, the loader's value or its error
unchanged. On success the value is stored under exactly that key, as a write would be, subject to admission (unless a write, removal or clear overtook the load: then that stands); on error nothing
is stored, and the key stays absent and can be loaded again.""",
 ["histories", "inputs", "configurations"], "every cache state, capacity (including ones that reject the value) and loader outcome, for both cache variants",
 "Tests load a few keys into an almost empty cache.", [SY, UN, SH, SP], [("upsert_placeholder / replace_placeholder", SH), ("get_or_insert_with and friends", UN), ("same", SY)], [], ["loader invocations, results and contents"])

p("C24", "No allocation in steady state", """
Apart from the state tables growing, which happens a bounded number of times per shard however many calls are made, lookups,
size reports, inserts, overwrites, replaces, removals and the evictions they cause allocate no memory; neither do load-through
and guard calls of the non-concurrent cache, load-through hits of the concurrent one, iteration, in-place mutation, rejected
inserts or a retain that keeps everything.""",
 ["histories", "inputs", "configurations"], "every unbounded mix of such calls on every configuration",
 "No test observes the allocator, and runs are too short to tell growth from a cost per call.",
 [SH, LS, SY, UN, LIB], [("slot reuse through the free list", LS), ("table reuse on insert and remove", SH), ("evicted items stashed in the request state by value", SY)],
 [("entries, map", "the tables that may grow", SH)], ["number of allocator calls made by the calling thread"])
p("C25", "User code that may use the cache runs outside its locks", """
In the concurrent cache loaders, begin_request, end_request, the waking of tasks, and whatever happens while a guard or an
unfinished future is held run with no lock held: they and any other thread may meanwhile call the cache, on the same shard
too, without blocking (except to wait for the very key being loaded), and a waker may even drop or poll the future it
belongs to. Lookups, load-through hits and size reports never keep one another waiting, even while one is cloning a value.
With the default lifecycle an item that an insert, replace or guard insertion evicts, displaces or rejects is dropped after
the locks were released (the last of them, if there are several), so that its destructor may use the cache.""",
 ["histories", "schedules", "inputs"], "every call that runs user code, in every cache state, and every call another thread makes meanwhile",
 "Loaders, wakers and destructors in the tests never use the cache, and no test makes one lookup wait inside another.",
 [SY, SP, RW], [("read locks for lookups", SY), ("guards hold no lock", SP), ("waiters are woken after unlocking", SP), ("DefaultLifecycle stashes the evicted item", SY)],
 [("shards", "one lock each", SY)], ["whether a helper thread's calls return while the user code is running"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
