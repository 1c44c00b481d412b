#!/usr/bin/env python3
"""Source of properties.jsonl.  Run `python3 tools/props.py` to regenerate."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

MAP = "rubymap/src/map.rs"; CORE = "rubymap/src/map/core.rs"; ENT = "rubymap/src/map/core/entry.rs"
RAW = "hashbrown/src/raw/mod.rs"; TBL = "hashbrown/src/table.rs"

prop("C01", "Ordered hash behaves as an insertion-ordered dictionary",
 "After any history of insertions, overwrites, lookups, removals, bulk operations and capacity changes, the ordered map holds exactly the pairs, in exactly the order, of an ideal insertion-ordered dictionary: overwriting keeps the position and the original key, order-preserving removal closes the gap, swap removal moves the last pair into it. Every operation's return value (old value, index, removed pair, presence) is the dictionary's, and every present key is found at its own position while absent keys are not found.",
 ["histories", "inputs"],
 "all finite histories of public map operations over any key multiset (including full and partial hash collisions), any starting capacity, at every size on both sides of the small/large representation switch",
 "The unit tests run short fixed scripts with well-spread integer keys; the space of histories crossing the 8-entry switch in both directions, with colliding hashes and tombstone-filled index tables, is unbounded.",
 [MAP, CORE, "rubymap/src/map/slice.rs", TBL, RAW],
 [("insert_full / push_entry", CORE), ("ensure_indexed (linear -> indexed promotion)", CORE), ("shift_remove_finish / swap_remove_finish / decrement_indices", CORE), ("erase_indices heuristics", CORE), ("RubyMap public methods", MAP)],
 [("entries", "pairs in order with their stored hash", CORE), ("indices", "hash -> position table, empty while linear", CORE), ("linear", "small representation flag", CORE)],
 ["every public call's return value", "full snapshot by iteration and by lookup after each step"])

prop("C02", "Errors raised by user hash/eql? surface and change nothing",
 "If a user-supplied hash or eql? callback raises while a map or set operation on one key is running, that operation returns precisely that error, and the container afterwards is indistinguishable from one on which the operation was never attempted. An error is never turned into 'absent', 'equal', a duplicate key or a lost pair, whatever the container's size, and execution of further callbacks stops at the error.",
 ["fault_sequences", "histories"],
 "every single-key operation x every container size/representation x every callback invocation index at which the fault may fire",
 "Existing tests only use infallible keys with error type (); no test ever makes a callback fail, so the error path of every operation is unexecuted.",
 [MAP, CORE, ENT, "rubymap/src/set.rs", RAW, TBL, "hashbrown/src/map.rs", "ruby_traits/src/lib.rs"],
 [("? propagation of eq/hash results", CORE), ("find / find_or_find_insert_slot", RAW), ("get_index_of", MAP)],
 [], ["returned Result", "container snapshot before/after", "callback trace"])

prop("C03", "One key identity: hash first, then eql?, in every operation and size",
 "In the ordered map and set, all keyed operations (lookup, membership, insert, entry, update, removal) use one notion of key identity: two keys are the same exactly when their hashes are equal and eql? says yes; a query key on a non-empty container is hashed once, and eql? is consulted only against stored keys whose stored hash equals the query's hash. The answer never depends on how many other entries the container holds or held, on its capacity history, or on which internal representation is active.",
 ["histories", "inputs", "configurations"],
 "all key populations including keys whose eql? ignores hash, whose hashes share every prefix/suffix bit pattern, and all capacity/tombstone histories leading to the same contents",
 "Tests use keys whose Eq and Hash agree, so consulting eql? on the wrong candidate or skipping the hash is invisible to them.",
 [MAP, CORE, ENT, RAW],
 [("linear_find (hash compare then eql)", CORE), ("equivalent closure passed to the index table", CORE), ("get_index_of comment on CRuby protocol", MAP), ("single-entry paths of shift/swap removal", MAP)],
 [("Bucket.hash", "hash remembered at insertion", "rubymap/src/lib.rs")],
 ["ordered trace of hash/eql? callbacks per operation", "return values of the same query on twin containers"])

prop("C04", "Symbol and pre-hashed fast paths agree with the general path",
 "Pairs stored through the symbol fast path or the caller-supplied-hash path are found, overwritten, enumerated and removed by the general path, and vice versa, provided the hash supplied is the general path's hash for that key; the fast paths run no user callback. Mixing the paths in any order yields the same container, positions and return values as the general path alone.",
 ["histories", "inputs"],
 "all interleavings of the symbol, pre-hashed (both equality flavours) and general operations over one container at any size",
 "Each fast path has at most a smoke test on its own; no test interleaves them on one map across the representation switch.",
 [MAP, CORE, TBL, RAW],
 [("insert_full_sym / insert_full_prehashed / insert_full_prehashed_with", CORE), ("get_index_of_prehashed(_with)", CORE), ("entry_sym / find_or_find_insert_slot_sym", TBL + ", " + RAW)],
 [], ["return values", "callback trace (must be empty on fast paths)", "snapshot"])

prop("C05", "Deletion during traversal keeps positions stable until compaction",
 "While a traversal window is open, deleting keys in place leaves every other entry at its position, makes the deleted key unfindable at once, and keeps every survivor findable and updatable; compacting at the end yields exactly the container that ordinary order-preserving deletion of the same keys would have produced, fully usable for later insertions, removals and growth.",
 ["histories"],
 "all sequences of lookups, value updates and in-place deletions (by key and by position) in any number of consecutive windows, at any size, followed by arbitrary ordinary operations; also re-keying a container's representation without rehashing",
 "The unit tests do not cover in-place deletion at all; windows interact with the index table's own deleted slots and with growth, which only long histories exercise.",
 [CORE, MAP, "monoruby/src/value/rvalue/hash.rs"],
 [("tombstone_remove_full / tombstone_index", CORE), ("compact_tombstones", CORE), ("map_keys", CORE)],
 [("dead entry", "entry kept in place with the dead key, absent from the index table", CORE)],
 ["positions and lookups inside the window", "snapshot after compaction against shift-deleted twin"])

prop("C06", "Ordered set behaves as an insertion-ordered set",
 "After any history of set operations (insert, replace, positional insert, take, removal, bulk and relational operations) the ordered set holds exactly the elements, order and return values of an ideal insertion-ordered set; replacing stores the new equal element in the old element's position; subset, superset, disjointness and equality answers match set algebra regardless of order.",
 ["histories", "inputs"],
 "all finite histories of public set operations over colliding and non-colliding elements, sizes on both sides of the representation switch",
 "Set tests are short scripted cases; replace, positional insert and relational operations over tombstoned or just-promoted tables are not reached.",
 ["rubymap/src/set.rs", "rubymap/src/set/iter.rs", "rubymap/src/set/slice.rs", CORE],
 [("RubySet methods delegating to the map core", "rubymap/src/set.rs"), ("replace_full", CORE), ("is_subset / is_superset / is_disjoint / eql", "rubymap/src/set.rs")],
 [], ["return values", "element sequence with identity tags"])

prop("C07", "Positional, reordering and in-place entry operations keep the index exact",
 "Moving, swapping, reversing, sorting, splitting, draining, truncating, position-based insertion/removal and every entry-handle operation produce the order a plain sequence of pairs would have, and afterwards every key is still found at precisely its new position. Stable sorts keep the relative order of equal elements, and out-of-range positions are refused without changing the container.",
 ["histories", "inputs"],
 "all sequences of positional/reordering/entry operations with arbitrary in-range and out-of-range positions on maps with colliding hashes, tombstones and varied spare capacity",
 "The reindexing code picks among several strategies from size/capacity ratios; tests hit a few ratios and never check every key's position afterwards with colliding hashes.",
 [MAP, CORE, ENT, "rubymap/src/map/slice.rs", "rubymap/src/util.rs"],
 [("move_index / increment_indices / decrement_indices", CORE), ("erase_indices", CORE), ("rebuild_hash_table / with_entries", CORE), ("Entry / IndexedEntry", ENT), ("simplify_range", "rubymap/src/util.rs")],
 [], ["order of pairs", "position reported for every key", "refusal of out-of-range positions"])

prop("C08", "Unordered tables implement map/set/multiset semantics under collisions",
 "The forked unordered hash map, hash set and low-level hash table return, for any history and any distribution of hash values, exactly what an ideal map, set or hash-keyed multiset would: nothing is lost, duplicated or found under a wrong key across growth, in-place rehash, deletion, shrink, drain and selective extraction. Every operation terminates, even when every slot is full or deleted.",
 ["histories", "inputs"],
 "all histories of public operations x hash functions from perfect to constant (including values agreeing in the tag bits or the position bits only)",
 "The bundled tests use random well-mixed hashes and insertion-heavy scripts; long churn with clustered hashes that fills tables with deleted markers is not exercised and the fork changed the probe/insert code.",
 [RAW, TBL, "hashbrown/src/map.rs", "hashbrown/src/set.rs", "hashbrown/src/control"],
 [("find_inner / find_or_find_insert_slot_inner / fix_insert_slot", RAW), ("erase", RAW), ("reserve_rehash / rehash_in_place / resize_inner", RAW), ("clear / clear_no_drop / drain / extract_if", RAW)],
 [("control bytes", "empty/deleted/tag per bucket", "hashbrown/src/control/tag.rs"), ("growth_left / items", "accounting of free and used slots", RAW)],
 ["return values", "multiset of contents", "lookup of every present and many absent keys"])

prop("C09", "Containers never touch invalid memory and drop every element exactly once",
 "No history of safe public operations on the ordered or unordered containers reads or writes memory outside live allocations, uses uninitialised or freed memory, or leaks an allocation; every key and value handed to a container is dropped exactly once or handed back exactly once, including when iterators, drains or entry handles are abandoned half-way.",
 ["histories"],
 "all histories of safe operations over element types of different size, alignment and drop behaviour (zero-sized, over-aligned, heap-owning), on both group-scan backends",
 "A test passes whether or not it reads stale memory; only an instrumented execution sees the access, and drop counts are asserted by a handful of tests on one path each.",
 [RAW, "hashbrown/src/map.rs", TBL, CORE, "rubymap/src/map/slice.rs"],
 [("RawTable drop / RawIntoIter drop / RawDrain drop / scope guards", RAW), ("Slice DST casts", "rubymap/src/map/slice.rs"), ("mem::replace based removal", CORE)],
 [], ["AddressSanitizer and Miri reports", "per-element live/drop ledger", "allocation ledger"])

prop("C10", "Published raw entry layout always matches the real container",
 "Whenever the container publishes a raw memory layout for its pairs, reading length, keys and values through that layout from a live container gives exactly what the public interface gives, for every key/value type pair, every size and after every kind of mutation; when the layout cannot be established it reports that instead of guessing.",
 ["configurations", "histories"],
 "all key/value/state/hasher type combinations (size, alignment, niches, zero-sized) x all container histories",
 "One test checks one type pair after straight insertion; machine code generated by the JIT relies on it for every instance at any moment.",
 ["rubymap/src/lib.rs", CORE, "monoruby/src/value/rvalue/hash.rs"],
 [("entries_layout probe", "rubymap/src/lib.rs"), ("entries_offset", CORE)],
 [], ["bytes read through the layout vs iteration"])

prop("C11", "Iterators visit each element once, in order, with exact counts",
 "Every iterator and slice view (shared, mutable, consuming, draining, keys, values, filtered extraction, hash-bucket iteration) yields each element of its range exactly once, in container order where the container is ordered, from either end or by skipping, with the remaining count exact at every moment and nothing after exhaustion. Clones, partial consumption, folding and abandoning an iterator leave the container in its documented state, and writes through mutable iterators land on the right elements.",
 ["inputs", "histories"],
 "all containers (any occupancy pattern) x all interleavings of front/back/nth/fold/clone/drop on every iterator kind",
 "Tests mostly collect() iterators front to back on freshly filled containers.",
 ["rubymap/src/map/iter.rs", "rubymap/src/set/iter.rs", "rubymap/src/map/slice.rs", "rubymap/src/macros.rs", RAW, "hashbrown/src/control/bitmask.rs"],
 [("iterator_methods! / double_ended_iterator_methods!", "rubymap/src/macros.rs"), ("RawIterRange::next_impl / fold_impl / RawIterHash / RawDrain / RawExtractIf", RAW), ("BitMaskIter", "hashbrown/src/control/bitmask.rs")],
 [], ["sequence yielded, len() and size_hint() at each step", "container after the iterator is gone"])

prop("C12", "Capacity promises are kept and reservations never change contents",
 "The reported capacity never falls below the element count; after reserving room for n more, n plain insertions of new keys succeed without any allocation by the container, and likewise after creating it with capacity n or when it reports room for n more; shrinking never loses elements and keeps at least what was asked; and an impossible reservation fails loudly instead of returning as if it had succeeded. No capacity operation changes contents, order or lookups.",
 ["histories", "inputs"],
 "all interleavings of reserve/reserve_exact/shrink/with_capacity/clear with inserts and removals, including sizes near the representation switch and near arithmetic limits",
 "Tests assert capacity() on fresh containers; whether later insertions really do not allocate is never observed, and overflow sizes are not tried in the fork.",
 [MAP, CORE, RAW, TBL, "hashbrown/src/map.rs", "hashbrown/src/set.rs"],
 [("reserve / reserve_exact / reserve_entries", CORE), ("capacity_to_buckets / bucket_mask_to_capacity / reserve_rehash / shrink_to", RAW)],
 [], ["allocator event log during promised insertions", "capacity() and snapshot", "panic or abort on impossible sizes"])

prop("C13", "Clones are equal, independent and consistently indexed",
 "A clone (or clone into an existing container of any size and history) equals its source in contents, order and lookups at the moment of cloning, and from then on neither side observes the other's changes; cloning into a container releases exactly its previous contents. Equality between containers is by content only, independent of capacity history and of order.",
 ["histories"],
 "all pairs (source history, destination history) including every combination of small/large representation, followed by divergent mutation of both sides",
 "clone_from onto a non-empty destination of another representation is not tested, nor is mutation after cloning with colliding hashes.",
 [CORE, MAP, "rubymap/src/lib.rs", RAW, "hashbrown/src/map.rs", "hashbrown/src/set.rs"],
 [("IndexMapCore::clone_from", CORE), ("RawTable::clone / clone_from / clone_from_spec", RAW), ("Bucket::clone_from", "rubymap/src/lib.rs"), ("PartialEq / RubyEql for maps and sets", MAP)],
 [], ["snapshots and lookups of both sides", "live/drop ledger"])

prop("C14", "Built-in key types keep the hash/eql? contract",
 "For the built-in key types and their compositions (integers, characters, booleans, unit, strings, optional values, sequences, references), eql? is an equivalence relation, eql? values hash identically through every reference/owned/borrowed form, unequal values of the same type are distinguished, and errors from element callbacks of composite keys surface unchanged.",
 ["inputs", "fault_sequences"],
 "all values (boundary-biased) of each supported type and nested composition, all pairs and triples drawn from them, in all borrowed forms",
 "ruby_traits has no tests of its own; the containers' tests use a few small integers and strings.",
 ["ruby_traits/src/lib.rs"],
 [("RubyEql / RubyHash / RubySymEql / RubySymHash / Equivalent blanket impls", "ruby_traits/src/lib.rs")],
 [], ["eql? truth table on sampled pairs/triples", "byte stream fed to the hasher", "error values"])

prop("C15", "A panicking callback or element leaves containers memory-safe and usable",
 "If user code called by a container (hash, eql?, comparison, predicate, clone, drop, closure) panics and the panic is caught, the container can still be inspected, used and dropped without memory errors or double drops; every element is dropped at most once, and lookups, iteration and the reported length agree with one another.",
 ["fault_sequences", "histories"],
 "every operation that runs user code x every invocation index at which the user code may panic, on containers of any size and history",
 "The tests contain a few single-point panic tests for upstream paths; the fork's changed paths and the ordered map have none.",
 [RAW, "hashbrown/src/map.rs", TBL, CORE, MAP, "hashbrown/src/scopeguard.rs"],
 [("scope guards in rehash_in_place, clone, clear, drain", RAW), ("retain_in_order / with_entries", CORE)],
 [], ["ledger and sanitizer reports after the caught panic", "agreement of len, iteration and lookups"])

prop("C16", "Builtin wrappers translate results and non-local returns faithfully",
 "A native method wrapped for the interpreter returns its value on success; on error it records exactly that error once, with one trace entry naming the method, and signals failure; a non-local return aimed at the wrapped frame itself becomes the returned value while one aimed elsewhere keeps propagating. Object wrapper types convert losslessly to and from the generic value and announce every mutable access to the write barrier when declared to do so.",
 ["programs", "histories"],
 "all wrapped bodies (success, error kinds, non-local return to own/other frame) and all read/write access sequences through wrapper types",
 "The macro crate has no tests; its expansion is only exercised by the full interpreter.",
 ["monoruby_attr/src/lib.rs"],
 [("monoruby_builtin expansion", "monoruby_attr/src/lib.rs"), ("monoruby_object expansion incl. write_barrier", "monoruby_attr/src/lib.rs")],
 [], ["calls made on a recording VM", "barrier events relative to memory writes"])

prop("C17", "Container behaviour is identical on every group-scan backend",
 "The vectorised and the portable implementations of control-byte scanning give the same observable container behaviour: for the same history every return value, the contents and every lookup agree, and each answers exactly as a byte-by-byte scan would.",
 ["configurations", "histories"],
 "all histories x {vectorised, portable} backends",
 "A test run exercises only the backend of the build machine; agreement between backends is never observed.",
 ["hashbrown/src/control/group/sse2.rs", "hashbrown/src/control/group/generic.rs", "hashbrown/src/control/bitmask.rs", "hashbrown/src/control/tag.rs", RAW],
 [("Group::match_tag / match_empty / match_empty_or_deleted / match_full / convert_special_to_empty_and_full_to_deleted", "hashbrown/src/control/group"), ("BitMask", "hashbrown/src/control/bitmask.rs")],
 [], ["digest of all return values per backend build"])

prop("C18", "The garbage collector reclaims exactly the unreachable objects",
 "After any history of allocations, reference updates announced to the write barrier, and minor or major collections, every object reachable from the roots is intact and never reclaimed or handed out again, and a full collection reclaims every object that is unreachable, finalising it exactly once. Live, free, allocated and collection counters agree with the actual heap at every quiescent point, and promotion, remembering and page reuse never change what the program can observe.",
 ["histories", "configurations"],
 "all object graphs (cycles, deep chains, old-to-young edges), all interleavings of allocation, mutation, root changes, minor/major collections and page growth/release",
 "The allocator has no test that compares the heap with an independent reachability computation; interpreter tests pass unless corruption happens to surface.",
 ["monoruby/src/alloc.rs", "monoruby/src/poll_flag.rs"],
 [("Allocator::alloc / gc / mark / sweep", "monoruby/src/alloc.rs"), ("remember / remembered set / promotion", "monoruby/src/alloc.rs"), ("page salvage and reuse", "monoruby/src/alloc.rs")],
 [("mark bits, free list, old bits, remembered set", "per-page metadata", "monoruby/src/alloc.rs")],
 ["shadow heap with independent reachability", "per-object free events", "cell contents (canaries)"])

prop("C19", "Array sort: ordered permutation or the comparator's error, never corruption",
 "Sorting an array with any comparator leaves a permutation of the input; with a consistent comparator the result is ordered, and equal elements keep their input order; when the comparator raises, exactly that error is returned, the comparator is not called again, and the array still contains precisely the original elements. Inconsistent or erroring comparators never cause out-of-bounds access, element loss or duplication, and the number of comparisons stays O(n log n).",
 ["inputs", "fault_sequences"],
 "all arrays (any length, duplicates, presorted runs) x comparators (total, partial, random, adversarial) x every comparison index at which the comparator may raise",
 "Interpreter tests sort small arrays with well-behaved blocks; merge paths with unsafe copies and errors at each comparison are not enumerated.",
 ["monoruby/src/executor/op/sort.rs"],
 [("merge_sort / insert_head / merge with hole guards", "monoruby/src/executor/op/sort.rs")],
 [], ["array after the call", "comparator call log", "AddressSanitizer/Miri reports"])

prop("C20", "Buffered I/O delivers every byte once, in order, whatever the OS does",
 "Through any mixture of buffered reads, line reads, ungets, seeks of the buffered kind, writes, flushes and short reads/writes, would-block results, interruptions or errors from the OS, the bytes delivered are exactly the bytes supplied, once each and in order; bytes accepted by a failed or interrupted write are never lost, duplicated or reordered when it is resumed. A pending signal stops a transfer without losing data, and a synchronous write, flush, close or disposal of a stream that succeeds has handed everything over.",
 ["fault_sequences", "histories"],
 "all sequences of read/write requests x all sequences of partial transfers and errors from the underlying descriptor x all chunk sizes around the buffer capacity",
 "Unit tests use files and well-behaved pipes; partial writes, would-block and interruption sequences are not enumerated.",
 ["monoruby/src/value/rvalue/io/buf.rs", "monoruby/src/value/rvalue/io.rs"],
 [("IoReader fill/consume/unget", "monoruby/src/value/rvalue/io/buf.rs"), ("WriteBuf::write / drain", "monoruby/src/value/rvalue/io/buf.rs"), ("IoWriter / StdFd", "monoruby/src/value/rvalue/io/buf.rs")],
 [], ["bytes seen by a recording sink/source", "accepted-byte accounting per call"])

prop("C21", "Safepoint requests from threads and signals are never lost or mixed up",
 "Collection requests, preemption ticks and pending signals are independent: raising or clearing one never raises or clears another, a request raised before a check is seen by that check or a later one, and each signal number delivered since the last drain is reported by the next one exactly once, lowest number first. While two or more threads are alive preemption ticks keep coming, in a forked child too. Doing all this concurrently from threads and signal handlers involves no data race and never touches an unregistered interpreter.",
 ["schedules", "fault_sequences"],
 "all interleavings of raise/consume/register/unregister across threads and asynchronous signal delivery points",
 "The flag words are only exercised by single-threaded interpreter tests; loss of a request shows as a rare hang.",
 ["monoruby/src/poll_flag.rs", "monoruby/src/preempt.rs", "monoruby/src/codegen/signal_table.rs"],
 [("byte lanes of the poll flag", "monoruby/src/poll_flag.rs"), ("preempt timer thread", "monoruby/src/preempt.rs"), ("PENDING_SIGNALS bitmap", "monoruby/src/codegen/signal_table.rs")],
 [("poll word", "GC / PREEMPT / SIGNAL lanes", "monoruby/src/poll_flag.rs")],
 ["event log of raises and observations", "ThreadSanitizer reports"])

prop("C22", "Offloaded native calls complete exactly once for their own requester",
 "Each native call offloaded to the worker pool runs exactly once, and its result is delivered exactly once, only to the thread that submitted it and only for its own ticket; discarded tickets' results are dropped without being delivered to anyone and nothing accumulates; a completion always wakes the submitting thread, with no wake-up lost. Concurrent submission, collection and discarding is free of data races.",
 ["schedules", "histories"],
 "all interleavings of submit/run/complete/take/discard across several submitting threads and workers, including discard racing with completion",
 "Interpreter tests submit one call at a time; races between completion, discard and collection are timing dependent.",
 ["monoruby/src/native_pool.rs"],
 [("submit / try_take / discard / drain", "monoruby/src/native_pool.rs"), ("completion pipe per thread, orphan table", "monoruby/src/native_pool.rs")],
 [], ["unique-id result ledger", "wake-up readability before each delivery", "ThreadSanitizer reports"])

prop("C23", "Identifier interning is a stable bijection under concurrency",
 "Interning the same name always yields the same identifier and different names always yield different identifiers, for the life of the process, from any number of threads; converting an identifier back gives the exact original bytes or string, and the predefined identifiers denote their documented names.",
 ["inputs", "schedules"],
 "all names (empty, non-ASCII, arbitrary bytes, operator names) x all concurrent interleavings of interning and reverse lookup",
 "No test interns concurrently or mixes byte and string names systematically.",
 ["monoruby/src/id_table.rs"],
 [("IdentifierTable get_id / get_name behind a global lock", "monoruby/src/id_table.rs"), ("predefined identifier list", "monoruby/src/id_table.rs")],
 [], ["name <-> id pairs seen by every thread"])

prop("C24", "File name patterns match as Ruby's fnmatch specifies",
 "For every pattern, path and flag combination the matcher's verdict equals the verdict of Ruby's documented fnmatch rules: wildcards, bracket sets, escapes, leading-period protection, pathname mode with recursive **/, case folding and brace expansion.",
 ["inputs"],
 "all patterns x paths x flag sets over a small alphabet that includes every metacharacter, plus longer random ones",
 "Tests list a few dozen pairs; interactions of period protection, separators and backtracking are combinatorial.",
 ["monoruby/src/builtins/fnmatch.rs"],
 [("fnmatch / match_segment / expand_braces", "monoruby/src/builtins/fnmatch.rs")],
 [], ["verdict vs independently written reference"])

prop("C25", "Register allocation never loses or mixes up a slot's value",
 "Under any sequence of register assignments, reuses, spills and slot releases, the value of every live interpreter slot can always be recovered - from its register if resident, otherwise from its stack slot - and equals the last value written to it; no two live slots share a register and a dirty value is written back before its register is reused.",
 ["histories", "programs"],
 "all sequences of allocate/bind/sync/release/spill operations and straight-line operation runs over any number of slots exceeding the register count",
 "The allocator is only exercised through compiled Ruby programs; the pressure patterns that force particular spill orders are not enumerated.",
 ["monoruby/src/codegen/jitgen/gp_alloc.rs"],
 [("GpRegFile::alloc_reg / bind / sync / take_dirty_spills / free_above_sp", "monoruby/src/codegen/jitgen/gp_alloc.rs"), ("allocate_run", "monoruby/src/codegen/jitgen/gp_alloc.rs")],
 [], ["simulated machine state vs reference slot values"])

prop("C26", "Object instance-variable storage is a faithful, leak-free growable array",
 "Per-object variable storage behaves as a growable array under any sequence of creation, growth, reads, writes, cloning and disposal: elements keep their values across growth, clones are independent, length and capacity are consistent, and memory is neither leaked, double-freed nor accessed out of bounds.",
 ["histories"],
 "all sequences of create/resize/push/write/clone/drop over any capacity including zero",
 "The hand-written unsafe container has no tests of its own.",
 ["monoruby/src/value/rvalue/ivar_table.rs"],
 [("MonoVec raw allocation and growth", "monoruby/src/value/rvalue/ivar_table.rs")],
 [], ["contents vs reference vector", "AddressSanitizer/Miri reports"])

prop("C27", "Seeded random streams are reproducible and follow the MT19937 definition",
 "For a given seed the generator produces exactly the MT19937 stream that Ruby's Random produces (integers, bounded integers, floats, bytes), two generators with equal state produce equal futures, and drawing from one never affects another; bounded draws always stay within their bound.",
 ["inputs", "histories"],
 "all seeds (including multi-word) x all interleavings of draw kinds x all bounds",
 "Tests check a few published values for one seed and one draw kind.",
 ["monoruby/src/globals/prng.rs", "monoruby/src/builtins/random.rs"],
 [("Mt init/next/limited draws", "monoruby/src/globals/prng.rs")],
 [], ["stream vs independently written generator"])

prop("C28", "Source positions map to the right line, column text and range",
 "For any source text, each byte position maps to the line that contains it, the lines shown for a location cover exactly that location's bytes, and the underline marks exactly the offending span, including empty files, missing final newlines, multi-byte characters and positions at end of file.",
 ["inputs"],
 "all source texts x all locations (including empty, multi-line and end-of-file)",
 "Diagnostics are only spot-checked; off-by-one errors at newlines and end of file are input-dependent.",
 ["monoruby/src/ast/source_info.rs"],
 [("line table construction and lookup", "monoruby/src/ast/source_info.rs")],
 [], ["line/col answers vs a scan of the text", "rendered excerpt"])

prop("C29", "The hang watchdog fires only, and always, when progress stops",
 "With the watchdog enabled a process that stops making progress is terminated with the documented status after the configured time, and a process that keeps reporting progress or has the watchdog disabled is never terminated by it; malformed settings disable it.",
 ["configurations", "schedules"],
 "all settings values x progress patterns",
 "Needs whole-process runs with timers; no test starts the watchdog.",
 ["monoruby/src/watchdog.rs"],
 [("SIGALRM handler and arming", "monoruby/src/watchdog.rs")],
 [], ["child process exit status and its progress log"])

prop("C30", "Strings keep their own bytes and an honest view of their encoding",
 "Whatever sequence of creating, copying, slicing, snapshotting, appending, byte writing, splicing, reversing, repeating, scrubbing and re-tagging produced a string, it holds exactly the bytes those operations define and changing one string never changes another, however storage is shared, reclaimed or collected. What it reports about itself - valid, ASCII-only, character count, character boundaries and positions, first code, order and equality - always agrees with a fresh scan of its bytes under its encoding, and two strings combine exactly when, and into the encoding that, Ruby's compatibility rule says. Its inspected or dumped text reads back as the same bytes, and an encoding's name always resolves to that encoding.",
 ["histories", "inputs", "states"],
 "all histories of string operations x all encodings x all byte contents",
 "Tests use short fixed strings; stale cached facts and shared buffers only show after particular histories.",
 ["monoruby/src/value/rvalue/string.rs", "monoruby/src/value/rvalue/string/printable.rs"],
 [("copy-on-write substrings and cached code range", "monoruby/src/value/rvalue/string.rs"), ("character iteration, compatibility and rendering", "monoruby/src/value/rvalue/string.rs")],
 [("content", "the bytes, their encoding and the remembered classification", "monoruby/src/value/rvalue/string.rs"), ("shared buffers", "the hidden owner several strings view", "monoruby/src/value/rvalue/string.rs")], ["bytes, encoding and self-description of every string"])

prop("C31", "Packing and unpacking binary data follow the template exactly",
 "For every template and argument list, packing produces exactly the bytes the directives define - size, sign, byte order, counts and star, padding and terminators, repositioning, Base64, quoted-printable, uuencoded, UTF-8, BER and LEB128 forms - in the encoding they imply, or appended to the given buffer, which keeps its identity and encoding. Unpacking those bytes, or any other bytes, yields exactly the values the directives read at each position, with nil for missing fixed-size items, and unpacking the first value gives the first of them. Malformed templates, too few or unsuitable arguments, moves outside the data and malformed encoded text raise the error Ruby defines, and no input reads outside the data or crashes.",
 ["inputs"],
 "all templates x argument lists x byte strings",
 "Tests pack a few values per directive; counts, combinations, malformed text and repositioning are hardly touched.",
 ["monoruby/src/value/rvalue/string/pack.rs"],
 [("template reading", "monoruby/src/value/rvalue/string/pack.rs"), ("directives of pack and unpack", "monoruby/src/value/rvalue/string/pack.rs")],
 [("cursor", "position in the data and next argument", "monoruby/src/value/rvalue/string/pack.rs")], ["packed bytes and encoding", "unpacked values", "errors"])

prop("C32", "Formatted text shows exactly what each directive asks for",
 "For every format and argument list, formatting yields exactly the literal text and, for each directive, its argument - taken in order, by number or by name - in the notation asked for: integers in the base given with sign, two's complement, prefix and precision; floats in fixed, exponent, general or hexadecimal notation correctly rounded; characters and text cut by precision; each padded to its width by the flags, counted in characters. The result's encoding follows the format and the text put in, and texts that cannot be joined raise. Unknown, unfinished or contradictory directives, mixed kinds of reference, missing or unsuitable arguments and unrepresentable widths raise the error Ruby defines, and no input crashes.",
 ["inputs"],
 "all formats x argument lists",
 "Tests format a few dozen combinations; flags, widths, precisions, rounding carries, encodings and malformed formats multiply beyond any list.",
 ["monoruby/src/executor/format.rs"],
 [("directive reading and references", "monoruby/src/executor/format.rs"), ("number and text layout", "monoruby/src/executor/format.rs")],
 [("reference state", "next argument and the kind of reference in use", "monoruby/src/executor/format.rs")], ["formatted text and encoding", "errors", "warnings"])

prop("C33", "JSON text is read and written without loss",
 "Reading a JSON text gives exactly the value it says - text with every escape and surrogate pair, integers of any size, numbers with fraction or exponent as the nearest float, arrays and objects in order with the last of equal keys - however it is spaced and nested. A text that is not JSON raises instead of giving a value. Writing null, booleans, finite numbers, text, symbols, arrays and hashes gives compact JSON that says exactly the same and reads back as the same value.",
 ["inputs"],
 "all UTF-8 texts x all values JSON can say, nested up to a hundred deep",
 "Tests read and write a few dozen short texts; malformed text, escapes, number spellings and nesting are hardly touched.",
 ["monoruby/src/builtins/json.rs"],
 [("reader", "monoruby/src/builtins/json.rs"), ("writer", "monoruby/src/builtins/json.rs")],
 [("reading position", "what of the text is consumed", "monoruby/src/builtins/json.rs")], ["values read", "refusals", "text written"])

prop("C34", "Fractions are exact and rounded as asked",
 "A fraction built from any two integers is held in lowest terms over a positive denominator, and sums, differences, products, quotients, comparison and text are those of the exact value; a zero denominator is refused. Floor, ceiling, truncation and rounding to any number of digits, positive or negative, give the neighbouring multiple of that digit that the direction, or the nearest and the tie rule, demand. A float becomes a fraction without loss, a fraction becomes the nearest float to within two last places, and the simplest fraction near a value is the one of smallest denominator.",
 ["inputs"],
 "all fractions of integers of any size x digits from -60 to 60 x tie rules",
 "Tests try a few dozen small fractions, mostly positive.",
 ["monoruby/src/value/rvalue/rational.rs"],
 [("fraction arithmetic and rounding", "monoruby/src/value/rvalue/rational.rs")],
 [("numerator and denominator", "the reduced pair", "monoruby/src/value/rvalue/rational.rs")], ["fractions", "integers", "floats", "errors"])

prop("C35", "Number operators give the exact or IEEE result and ask when they must",
 "For integers of any size and floats, addition, subtraction, multiplication, division, modulo, divmod, power, bitwise operations, shifts, bit and bit-range reads, negation and all comparisons give the mathematically exact result, floored where integers divide, or the IEEE double result once a float is involved; dividing an integer by zero, an impossible shift or power and an unordered comparison end in the error Ruby prescribes, never in a wrong number. When the other operand is not a number it is asked exactly once through coerce, to_int, == or <=>, its answer decides, and an error it raises from coerce, == or <=> passes through. A redefined operator is called with the original operands wherever the operator is written, and never from inside the built-in operator itself.",
 ["inputs","environment"],
 "all pairs of integers and floats x operators x redefinitions",
 "Tests use small operands and never combine a redefinition with a conversion.",
 ["monoruby/src/executor/op.rs", "monoruby/src/executor/op", "monoruby/src/value/numeric.rs"],
 [("operators", "monoruby/src/executor/op/binary_ops.rs"), ("comparison and bit access", "monoruby/src/executor/op.rs"), ("division and modulo", "monoruby/src/value/numeric.rs")],
 [("redefinition flags", "which basic operators the program replaced", "monoruby/src/executor/op.rs")], ["numbers", "errors", "methods called"])

prop("C36", "Exit handlers all run, in order, and decide the exit status",
 "When a program ends, the EXIT trap handler runs first, then every at_exit handler exactly once in reverse order of registration, including those registered meanwhile, then every finalizer exactly once with its object's id; a handler that raises or exits stops none of the others. The status is that of the last handler that called exit, otherwise 1 if a handler raised, otherwise the program's own. An error from a handler is reported and visible as $! to later handlers; one from a finalizer only warns, and only when warnings are not switched off.",
 ["histories","environment"],
 "all sets of handlers x what each of them does",
 "Tests end programs with one or two well-behaved handlers.",
 ["monoruby/src/executor/op.rs"],
 [("end of a program", "monoruby/src/executor/op.rs")],
 [("registered handlers", "trap, at_exit list, finalizers", "monoruby/src/executor/op.rs")], ["order of runs", "exit status", "reports", "$!"])

prop("C37", "Byte buffers stay inside their memory and views follow their source",
 "Every read, write, fill, copy, comparison, bit operation, typed number access and iteration on an IO::Buffer touches exactly the bytes asked for inside the buffer, or fails with the prescribed error and changes nothing, even when converting an argument resizes the buffer. Views share their bytes with the string, mapped file or buffer they were taken from, keep it alive, and are refused once it was freed, moved or shrunk below them. Flags, read-only protection, locks, transfer, resize and release of mappings follow the documented rules, and impossible sizes are refused.",
 ["inputs","histories","environment"],
 "all buffer sources x all histories of operations, views, locks and resizes",
 "Tests read and write a few bytes of small buffers.",
 ["monoruby/src/builtins/io_buffer.rs", "monoruby/src/value/rvalue/io_buffer.rs"],
 [("IO::Buffer methods", "monoruby/src/builtins/io_buffer.rs"), ("buffer storage", "monoruby/src/value/rvalue/io_buffer.rs")],
 [("buffer storage", "owned bytes, string view, file mapping or view of a buffer", "monoruby/src/value/rvalue/io_buffer.rs")], ["bytes of buffers, strings and files", "returned numbers and strings", "error classes", "flags", "open mappings"])

prop("C38", "Array methods agree with a plain list",
 "Every Array method answers what Ruby prescribes for the same list of elements, with the prescribed class of the answer, the prescribed values given to its block in order and the prescribed error for bad arguments, sizes or frozen receivers. A call changes only its receiver, only as prescribed, and an error from a block or a conversion leaves every array well formed and announces every stored object to the collector. Random selection and shuffling give every outcome the same chance and never repeat or lose a position.",
 ["inputs","histories"],
 "all lists x all methods, arguments, blocks and conversions x histories on shared arrays",
 "Tests call each method with a few literal lists.",
 ["monoruby/src/builtins/array.rs", "monoruby/src/value/rvalue/array.rs", "monoruby/src/executor/op/sort.rs"],
 [("Array methods", "monoruby/src/builtins/array.rs"), ("array storage", "monoruby/src/value/rvalue/array.rs"), ("sorting", "monoruby/src/executor/op/sort.rs")],
 [("array storage", "elements, capacity and frozen flag", "monoruby/src/value/rvalue/array.rs")], ["answers and their class and identity", "values given to blocks", "error classes", "contents of every array", "stores announced to the collector", "chance of each random outcome"])
prop("C39", "Array methods survive what their callbacks do",
 "While an Array method calls back into Ruby code (a block, a comparison, a hash or a conversion), that code may make the interpreter collect garbage: every object the method still needs, answers, stores or hands to a block afterwards is then still alive. The code may instead shrink, grow, clear or replace any array of the call: the method then finishes or raises a Ruby error, never panics, never reads outside the current elements and never shows a value that is not a live object. Whatever happens, no temporary root and no recursion guard is left behind.",
 ["inputs","histories"],
 "all Array methods x all moments of a collection or change inside a callback",
 "Tests use blocks without side effects; a collection falls at such a moment only by chance.",
 ["monoruby/src/builtins/array.rs", "monoruby/src/value/rvalue/array.rs", "monoruby/src/executor/op/sort.rs"],
 [("Array methods", "monoruby/src/builtins/array.rs"), ("array storage", "monoruby/src/value/rvalue/array.rs")],
 [("temporary roots", "objects kept alive for the duration of a call", "monoruby/src/builtins/array.rs")], ["objects alive at every use", "answers, elements and block arguments", "temporary roots and guards left after the call", "panics"])

prop("C48", "Hashes keep their pairs in order and answer accordingly",
 "Whatever is stored, deleted, shifted, merged, sifted, replaced, inverted or copied, a Hash holds exactly the pairs an ordered dictionary would, in insertion order, and every method answers, yields to its block, falls back to the default and raises as that dictionary requires; copies and results are independent of the receiver. Keys are told apart by hash and eql? (String keys copied and frozen, equal hashes being equal keys in any order) or by identity where the hash compares so, also when hash or eql? raise. While a hash is iterated, positions stay put, deletions and changes of existing keys take effect and new keys are refused; the collector is shown every key, value and default and is told of every stored object.",
 ["inputs","histories"],
 "all Hash methods x all keys, values, sizes, defaults and identity modes x nested iterations",
 "Tests compare single expressions with CRuby when it is installed; they do not mix forms, walks, defaults and deletions.",
 ["monoruby/src/builtins/hash.rs", "monoruby/src/value/rvalue/hash.rs", "rubymap/src"],
 [("Hash methods", "monoruby/src/builtins/hash.rs"), ("hash storage", "monoruby/src/value/rvalue/hash.rs")],
 [("pairs", "keys and values in insertion order", "monoruby/src/value/rvalue/hash.rs"), ("iteration depth", "walks under way", "monoruby/src/value/rvalue/hash.rs")],
 ["answers and errors", "pairs in order through every way in", "block and default calls", "objects shown to the collector", "panics"])
prop("C49", "Hash methods survive what their callbacks do",
 "When a block, a default proc, a conversion, or the == or inspect of an element run by a Hash method collects garbage or changes the hashes involved, the method goes on with objects that still exist: nothing it hands to a callback, stores or answers has been reclaimed, it never panics, and all hashes stay well formed and accept new keys afterwards. The hash and eql? of keys may collect garbage but are not supposed to change the hash being searched. While each or a filter in place is under way a new key is refused, no pair is skipped that was not deleted in time, and a filter in place shows no pair that has been deleted and removes exactly what its block chose; select and reject answer from the pairs they showed.",
 ["inputs","histories"],
 "all Hash methods that call back x all changes and collections at any of the calls",
 "Tests neither collect inside callbacks nor change the receiver from them, apart from a few hand-written cases.",
 ["monoruby/src/builtins/hash.rs", "monoruby/src/value/rvalue/hash.rs"],
 [("Hash methods", "monoruby/src/builtins/hash.rs"), ("hash storage", "monoruby/src/value/rvalue/hash.rs")],
 [("pairs", "keys and values in insertion order", "monoruby/src/value/rvalue/hash.rs"), ("iteration depth", "walks under way", "monoruby/src/value/rvalue/hash.rs")],
 ["objects handed to callbacks", "answers", "pairs through every way in", "pairs shown during walks", "panics"])

prop("C50", "Sets hold each element once, in order, whatever their callbacks do",
 "Whatever is added, deleted, merged, subtracted, replaced, mapped, sifted, flattened, combined or copied, a Set holds exactly the distinct elements it should, told apart by hash and eql? (unfrozen Strings copied and frozen) or by identity where the set compares so, in insertion order, and every method answers, yields each element once in order and raises as that requires: union, difference and copies keep the identity mode, intersection, mapping and flattening drop it, replacing adopts that of a set; frozen sets are never changed; equal sets have equal hashes. Comparisons follow inclusion, classify and divide group by what the block says (by mutual reachability for blocks of two arguments), operands that cannot be enumerated are refused with ArgumentError, and errors raised by elements or operands are passed on. Callbacks that collect garbage or change the set never make a method use, store, show or answer an object that no longer exists, or pass over an element that was not deleted; new elements are refused while each runs and accepted afterwards.",
 ["inputs","histories"],
 "all Set methods x all elements, operands, identity modes, nestings and callbacks",
 "Tests compare single expressions with CRuby when it is installed; they do not collect or change sets inside callbacks.",
 ["monoruby/src/builtins/set.rs", "monoruby/src/value/rvalue/hash.rs"],
 [("Set methods", "monoruby/src/builtins/set.rs"), ("hash storage", "monoruby/src/value/rvalue/hash.rs")],
 [("elements", "elements in insertion order and the comparison mode", "monoruby/src/value/rvalue/hash.rs")],
 ["answers and errors", "elements in order through every way in", "block calls", "objects handed to callbacks", "panics"])

prop("C51", "Ranges and arithmetic sequences stand for exactly their terms",
 "An arithmetic sequence has exactly the terms begin + i*step up to its end (without the end where it is excluded): size, first and last, with and without a count, agree with them, exactly for Integers of any size and Rationals and within rounding for Floats, missing ends make it endless, a zero or non-numeric step, negative counts and the last term of something endless are refused, and used as an index it selects the named elements of an array or refuses those outside. A Range keeps the ends it was made with, refuses ends that do not compare and a second initialization, and count, first, last, min, max, minmax (also by a block), entries, inclusion, equality and hash follow from its ends. Blocks are called once per element in order, and errors they raise end the walk and are passed on.",
 ["inputs","histories"],
 "all ranges and sequences of numbers and letters x methods, counts and blocks",
 "Tests compare single expressions with CRuby when it is installed; sizes at the limits of the integer representations and long fractions are not among them.",
 ["monoruby/src/builtins/arithmetic_sequence.rs", "monoruby/src/builtins/range.rs", "monoruby/src/value/rvalue/range.rs", "monoruby/src/value/rvalue/arithmetic_sequence.rs"],
 [("sequence methods", "monoruby/src/builtins/arithmetic_sequence.rs"), ("range methods", "monoruby/src/builtins/range.rs")],
 [("ends", "begin, end, step and whether the end is excluded", "monoruby/src/value/rvalue/range.rs")],
 ["answers and errors", "block calls", "ends kept alive", "panics"])
prop("C52", "Math functions give the right value, or refuse what they are not defined for",
 "Every function of Math answers, for Integers of any size, Floats and objects that convert themselves, the Float nearest to the mathematical value within rounding (factorials, scaling by powers of two and taking floats apart exactly), keeps NaN, and infinities and signed zeros as the function's limits say. Arguments outside the domain raise Math::DomainError, things that are not numbers TypeError, exponents that are no integers RangeError, and errors raised by conversions are passed on. The routine that compiled code calls answers the same.",
 ["inputs"],
 "all Math functions x all arguments",
 "Tests compare a few arguments per function.",
 ["monoruby/src/builtins/math.rs"],
 [("Math functions", "monoruby/src/builtins/math.rs")],
 [("none", "functions without state", "monoruby/src/builtins/math.rs")],
 ["answers and errors", "panics"])
prop("C53", "Rational methods are exact and ask others when they must",
 "Arithmetic, comparison, equality and whole powers of a Rational with Rationals and Integers of any size are exact and in lowest terms, `!=` always contradicts `==`, and with Floats they follow the Float value; powers too large to compute raise ArgumentError and division by zero ZeroDivisionError. floor, ceil, truncate and round answer an Integer or a Rational with the digits and tie rule asked for, and equal Rationals hash alike. Other objects are asked to coerce, or for equality, exactly once, their answer decides and their errors are passed on.",
 ["inputs", "what other objects answer"],
 "all Rational methods x all arguments x all answers of other objects",
 "Tests compare a few fractions per method and hardly any with large Integers or objects that coerce.",
 ["monoruby/src/builtins/numeric/rational.rs", "monoruby/src/value/rvalue/rational.rs"],
 [("Rational methods", "monoruby/src/builtins/numeric/rational.rs")],
 [("none", "methods without state", "monoruby/src/builtins/numeric/rational.rs")],
 ["answers and errors", "questions asked of other objects", "panics"])
prop("C54", "Float methods round, convert and step exactly",
 "floor, ceil, truncate and round of a Float answer the exact Integer for no or negative digits and the nearest Float to the exact decimal for positive ones, with the tie rule asked for, and give the Float itself back when it has no such digits; to_i and to_r are exact, rationalize finds the simplest fraction near enough, next_float and prev_float the very next value, and infinities and NaN raise FloatDomainError where there is no answer. `<=>` with Integers of any size is exact, equal Floats hash alike, div and quo follow the quotient. Other objects are asked to coerce first, their answer decides and their errors are passed on.",
 ["inputs", "what other objects answer"],
 "all Float methods but the operators x all arguments x all answers of other objects",
 "Tests compare a few floats per method and hardly any with many digits or large magnitudes.",
 ["monoruby/src/builtins/numeric/float.rs"],
 [("Float methods", "monoruby/src/builtins/numeric/float.rs")],
 [("none", "methods without state", "monoruby/src/builtins/numeric/float.rs")],
 ["answers and errors", "questions asked of other objects", "panics"])

NA = [
("C40", "Compiled code and the bytecode interpreter give identical results",
 "For every Ruby program, running it interpreted, with the JIT at any threshold, with inlining or with deoptimisation at any point produces the same output, the same exceptions and the same object state.",
 ["programs","configurations"], "all programs x all compilation points", "Tests run a fixed set of programs and compare with CRuby when it is installed.",
 ["monoruby/src/codegen", "monoruby/src/executor"], [("JIT compiler and deoptimisation", "monoruby/src/codegen/jitgen")]),
("C41", "The running interpreter never loses a live object at a collection",
 "At every point where the interpreter may collect, all objects still needed by compiled frames, native builtins, fibers and threads are found as roots, so no program ever observes a reclaimed or recycled object.",
 ["programs","schedules"], "all programs x all safepoints", "GC stress runs cover the tests' programs only.",
 ["monoruby/src/executor.rs", "monoruby/src/codegen", "monoruby/src/globals.rs"], [("root enumeration of frames and handles", "monoruby/src/executor.rs")]),
("C42", "Exceptions, ensure and non-local exits unwind exactly once and in order",
 "Whatever combination of raise, rescue, ensure, break, next, return, throw and fiber switch a program uses, each ensure body runs exactly once, innermost first, and control lands where Ruby's rules say, with the stack restored.",
 ["programs"], "all nestings of control constructs", "Tests cover hand-written nestings.",
 ["monoruby/src/executor", "monoruby/src/bytecodegen"], [("error propagation through frames", "monoruby/src/executor")]),
("C43", "Redefining a basic operation or method takes effect at once everywhere",
 "After any method, constant or basic operator is defined, redefined, removed, included or refined, every later call at every call site, compiled or not, sees the new definition.",
 ["histories","programs"], "all redefinition points x call sites", "Tests redefine a few operators at top level.",
 ["monoruby/src/globals/store", "monoruby/src/codegen/jitgen"], [("class version and inline cache guards", "monoruby/src/codegen")]),
("C44", "Green threads and fibers: no lost wake-ups, fair progress, isolated state",
 "Every runnable thread eventually runs, a thread blocked on a queue, mutex, sleep or I/O is woken exactly when its condition holds, and fiber/thread-local state never leaks between them.",
 ["schedules"], "all schedules of Ruby threads and fibers", "Timing dependent.",
 ["monoruby/src/scheduler.rs", "monoruby/src/executor.rs"], [("cooperative scheduler", "monoruby/src/scheduler.rs")]),
("C45", "Core classes agree with CRuby",
 "Strings, integers, floats, ranges, arrays, hashes, structs, time, encodings and formatting return what CRuby returns for the same calls, errors included.",
 ["inputs","programs"], "all calls and arguments", "Tests compare a finite list of expressions.",
 ["monoruby/src/builtins", "monoruby/src/value"], [("builtin implementations", "monoruby/src/builtins")]),
("C46", "Parsing and bytecode generation preserve program meaning",
 "Every syntactically valid program is accepted and compiled to bytecode with Ruby's evaluation order and scoping, every invalid one is rejected with a located error, and neither ever crashes the process.",
 ["programs"], "all source texts", "Tests use valid snippets.",
 ["monoruby/src/ast", "monoruby/src/bytecodegen"], [("prism bridge and bytecode generator", "monoruby/src/ast")]),
("C47", "The foreign function interface and dynamic libraries cannot corrupt the heap",
 "Calls through the FFI marshal every argument and result type losslessly, callbacks may re-enter the interpreter safely, and memory handed to or from native code is owned exactly once.",
 ["programs","histories"], "all signatures and callback patterns", "Tests call a few libc functions.",
 ["monoruby/src/builtins/fiddle.rs"], [("argument marshalling", "monoruby/src/builtins/fiddle.rs")]),
]
for (i, t, s, o, q, w, f, m) in NA:
    prop(i, t, s, o, q, w, f, m)

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps(p) + "\n")
    print(len(P), "properties")
