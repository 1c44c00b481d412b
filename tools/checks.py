"""Configuration of every check: what runs, what must have been observed."""


def plan(qs, ts, quick, thorough=None):
    """quick/thorough: list of (variant, shards[, opts])"""
    def mk(lst, secs):
        out = []
        for it in lst:
            d = {"variant": it[0], "shards": it[1], "secs": secs}
            if len(it) > 2:
                d.update(it[2])
            out.append(d)
        return out
    return {"quick": mk(quick, qs), "thorough": mk(thorough or quick, ts)}


STD = [("dbg", 4), ("prod", 2), ("asan", 2)]
TRUST = "rustc/LLVM code generation and the sanitizer runtimes are trusted"
BOUND = "only the executed histories are judged; sizes and step counts are bounded as described in DESIGN.md"

CHECKS = {}


def same_digests(runs, rerun):
    """The same cases must digest identically in every build; returns (run, case, message) or None."""
    groups = {}
    for r in runs:
        if r.result and r.result.get("digests"):
            groups.setdefault((r.meta["seed"], r.meta["shard"]), []).append(r)
    for key in sorted(groups):
        rs = groups[key]
        for other in rs[1:]:
            a, b = rs[0].result["digests"], other.result["digests"]
            for i, (x, y) in enumerate(zip(a, b)):
                if x == y:
                    continue
                for j in range(16 * i, 16 * i + 16):
                    case = rs[0].meta["shard"] + j * rs[0].meta["shards"]
                    p, q = rerun(rs[0], case), rerun(other, case)
                    if (p.result or {}).get("digest") != (q.result or {}).get("digest"):
                        return other, case, "the %s and %s builds observe different behaviour for the same history (case %d)" % (
                            rs[0].variant, other.variant, case)
                return other, None, "the %s and %s builds observe different behaviour within cases %d..%d" % (
                    rs[0].variant, other.variant, 16 * i, 16 * i + 15)
    return None



def add(cid, **kw):
    kw.setdefault("level", "exploration")
    kw.setdefault("assumptions", [BOUND, TRUST])
    CHECKS[cid] = kw


add("C01", pkg="hash", bin="c01", plan=plan(8, 60, STD), min=100,
    technique="reference-model monitor over random histories, debug+release+ASan builds",
    level_note="Every call's result and the full contents are compared with an insertion-ordered dictionary model after each step; held only on the histories executed.",
    rule="a case is a history of 20-2000 public map operations over a key universe with one of 10 hash clustering policies; "
         "non-trivial when it crossed from at most 8 to more than 8 entries; distinct by hash of the operation stream",
    gates={"crossed_up": 200, "crossed_down": 100, "op_drain": 50, "op_split_off": 50, "op_entry": 500, "op_shift_remove": 500,
           "op_swap_remove": 500, "op_retain": 50, "op_append": 20, "op_clone_from": 20, "refused_out_of_range": 50,
           "churn_cases": 5, "big_cases": 1})

add("C02", pkg="hash", bin="c02", plan=plan(8, 60, STD), min=100,
    technique="fault-injecting callback monitor with before/after state oracle, debug+release+ASan builds",
    level_note="For each single-key operation every reachable hash/eql? call is made to raise in turn; the returned error, the callbacks after the fault and the whole container state are compared with the untouched state.",
    rule="a case is a container history in which operations are first attempted with an injected error; non-trivial when at least one injected error fired; "
         "distinct by hash of the operation/fault stream",
    gates={"faults_injected": 2000, "state_compared": 2000, "faulted_above_8": 500, "faulted_upto_8": 500, "set_faults": 200,
           "multi_key_faults": 200, "op_tombstone_remove": 50})

add("C03", pkg="hash", bin="c03", plan=plan(8, 60, STD), min=100,
    technique="callback trace monitor (hash/eql? protocol) plus representation twins, debug+release+ASan builds",
    level_note="Every callback made by every keyed operation is traced and judged against the protocol, and each answer is compared with an identity model and with a same-content twin of another size history.",
    rule="a case is a history over keys whose hashes and eql? disagree in every combination; non-trivial when eql? calls were judged; "
         "distinct by hash of the operation and callback stream",
    gates={"protocol_judged": 5000, "set_protocol_judged": 1000, "judged_above_8": 1000, "judged_single": 500, "judged_upto_8": 1000,
           "eql_calls": 2000, "twins": 200})

add("C04", pkg="hash", bin="c04", plan=plan(8, 60, STD), min=100,
    technique="reference-model monitor over histories mixing fast and general paths, debug+release+ASan builds",
    level_note="Each step uses a randomly chosen path; results, order and lookups through both paths are compared with one model and the user-callback counter must not move on a fast path.",
    rule="a case is a history of 20-150 steps mixing symbol, pre-hashed and general operations; non-trivial when it crossed from at most 8 to more than 8 entries; "
         "distinct by hash of the operation stream",
    gates={"crossed_by_fast_path": 100, "crossed_by_general_path": 100, "fast_above_8": 1000, "fast_at_8": 200, "fast_below_8": 1000,
           "fast_sym_insert": 1000, "fast_prehashed_insert": 500, "fast_prehashed_with_insert": 500, "fast_prehashed_get": 500,
           "fast_prehashed_with_get": 500, "table_sym_entry": 1000, "default_hasher_cases": 50})

add("C05", pkg="hash", bin="c05", plan=plan(8, 60, STD), min=100,
    technique="traversal-window monitor: positional model during the window, order-preserving deletion model after it",
    level_note="Inside each window every position and every lookup is compared with the expected window; after compaction the container and a never-tombstoned twin are driven together and compared with the model.",
    rule="a case is 1-6 traversal windows each followed by an ordinary history; non-trivial when something was deleted inside a window; "
         "distinct by hash of deletions and sizes",
    gates={"windows": 500, "windows_above_8": 200, "windows_upto_8": 200, "windows_emptied": 30, "deleted_key_queried": 200,
           "overwrites_in_window": 200, "position_deletes": 200, "steps_after_compaction": 2000})

add("C06", pkg="hash", bin="c06", plan=plan(8, 60, STD), min=100,
    technique="reference-model monitor over random set histories, debug+release+ASan builds",
    level_note="Every call's result, the element order and every lookup are compared with a duplicate-free sequence model; held only on the histories executed.",
    rule="a case is a history of 20-200 (sometimes 3000) set operations; non-trivial when it crossed from at most 8 to more than 8 elements; "
         "distinct by hash of the operation stream",
    gates={"crossed_up": 200, "crossed_down": 100, "op_drain": 50, "op_relate": 200, "op_replace": 200, "op_shift_remove": 200,
           "op_insert_before": 50, "op_shift_insert": 50, "op_move_index": 50, "op_binary_search": 50, "refused_out_of_range": 50, "big_cases": 1})

add("C07", pkg="hash", bin="c07", plan=plan(8, 60, STD), min=100,
    technique="reference-sequence monitor for positional, reordering and entry-handle operations, debug+release+ASan builds",
    level_note="After every operation the order and the position of every key are compared with a plain vector of pairs; held only on the histories executed.",
    rule="a case is 10-100 positional/reordering/entry operations on a pre-filled map or set; non-trivial when more than one pair is left; "
         "distinct by hash of the operation stream",
    gates={"started_above_8": 200, "set_cases": 100, "op_move_index": 300, "op_sort": 500, "op_insert_before": 300, "op_shift_insert": 300,
           "op_insert_sorted": 100, "op_binary_search": 100, "op_entry": 1000, "op_indexed_entry": 500, "op_split_off": 50, "op_drain": 100,
           "op_reverse": 100, "refused_out_of_range": 200, "op_swap_remove_index": 100, "op_shift_remove_index": 100})

add("C08", pkg="hash", bin="c08", plan=plan(8, 60, STD), min=100,
    technique="reference-model monitor over random histories of the unordered containers, debug+release+ASan builds",
    level_note="Every call's result, the whole contents and every lookup are compared with a dictionary model; held only on the histories executed.",
    rule="a case is a history of 20-5000 operations on one of the three unordered containers; non-trivial when it resized with more than 7 elements; "
         "distinct by hash of the operation stream and sizes",
    gates={"kind_map": 50, "kind_set": 50, "kind_table": 50, "capacity_changes": 200, "op_entry": 500, "op_entry_ref": 100, "op_extract_if": 50,
           "op_drain": 50, "op_retain": 50, "op_iter_hash": 50, "op_clone": 50, "op_clone_from": 50, "churn_cases": 5, "big_cases": 1})

add("C09", pkg="hash", bin="c09",
    plan=plan(10, 75, [("dbg", 2), ("prod", 1), ("asan", 2), ("msan", 1), ("miri", 2, {"min": 4, "secs": 16})],
              [("dbg", 2), ("prod", 1), ("asan", 2), ("msan", 1), ("miri", 2, {"min": 8})]), min=100,
    technique="element ledger, allocation ledger, AddressSanitizer, MemorySanitizer and Miri over whole-API histories",
    level_note="Each element carries an identity checked on every clone, read and drop; bytes outstanding must return to the start; sanitizers watch every access of the executed histories.",
    rule="a case is a history on one container (ordered map/set, unordered map/set/table, or unusually sized/aligned elements), abandoned in one of several half-consumed ways; "
         "non-trivial always; distinct by hash of the operation stream",
    gates={"map_histories": 200, "set_histories": 100, "table_histories": 60, "table_map_histories": 60, "table_set_histories": 60,
           "odd_elements": 200, "odd_unit": 5, "odd_align128": 5, "odd_heap": 5, "ended_above_8": 50, "op_extract_if": 50, "op_drain": 100})

add("C11", pkg="hash", bin="c11", plan=plan(8, 60, STD), min=100,
    technique="iterator-law monitor: random consuming programs against the expected sequence or bag",
    level_note="Each iterator or slice view is driven by a random program of next/next_back/nth/fold/clone/abandon steps, with the remaining count checked at every step and the container's state afterwards.",
    rule="a case builds one container by a random history and runs 5-6 iterator programs on it; non-trivial when it holds more than one element; "
         "distinct by hash of container kind, iterator choice and size",
    gates={k: 50 for k in ("map_iter", "map_iter_mut", "map_keys", "map_values", "map_values_mut", "map_into_iter", "map_into_keys", "map_into_values", "map_drain",
                           "slice_views", "slice_views_mut", "boxed_into_iter", "set_iter", "set_drain", "set_into_iter", "hm_iter", "hm_iter_mut", "hm_drain",
                           "hm_extract_if", "hm_into_iter", "hm_values_mut", "hs_extract_if", "hs_drain", "ht_iter_hash", "ht_extract_if", "ht_drain",
                           "ht_into_iter", "iterator_clones")})

add("C10", pkg="hash", bin="c10", plan=plan(8, 60, STD), min=100,
    technique="raw-memory monitor: length, keys and values read through the published layout vs the public interface",
    level_note="After mutations, each live container is read byte-wise through the layout it publishes and compared with iteration, for 30 key/value/hasher type combinations.",
    rule="a case mutates one container of one type combination and reads it through the layout after each mutation; non-trivial when a layout was published and read; "
         "distinct by hash of combination and operation stream",
    gates={"layouts": 1000, "reads": 10000, "reads_above_8": 1000, "reads_upto_8": 1000, "reads_empty": 200, "pairs_read": 20000, "windows": 200, "mapped": 200})

add("C12", pkg="hash", bin="c12", plan=plan(8, 60, STD), min=100,
    technique="allocation-event monitor during promised insertions, with impossible-size probes, debug+release+ASan builds",
    level_note="The allocator's event counter must not move during insertions the container promised room for; contents, order and lookups are compared around every capacity operation.",
    rule="a case interleaves capacity operations with insertions and removals on one of five containers; non-trivial when promised insertions were counted; "
         "distinct by hash of the operation stream",
    gates={"reserved": 500, "shrunk": 500, "shrunk_to_more_than_len": 100, "filled_to_capacity": 100, "impossible_refused": 200, "impossible_refused_above_8": 50,
           "impossible_creation_refused": 50, "created_with_capacity": 500, "insertions_counted": 5000, "fill_crossed_8": 100, "small_types": 50,
           "kind_map": 50, "kind_set": 50, "kind_umap": 50, "kind_uset": 50, "kind_table": 50})

add("C13", pkg="hash", bin="c13", plan=plan(8, 60, STD), min=100,
    technique="twin monitor: clone and source driven apart against two models, element ledger, content-equality oracle",
    level_note="Clones and clone-into destinations of every size combination are compared with the source's model, then both sides are mutated and judged separately; ledger counts releases.",
    rule="a case clones one container (or clones into another with its own history) and drives both sides; non-trivial when both sides were mutated afterwards or an equality was decided; "
         "distinct by hash of the operation stream",
    gates={"clones": 200, "clone_from": 200, "from_small_small": 20, "from_small_large": 20, "from_large_small": 20, "from_large_large": 20,
           "table_clones": 50, "table_clone_from": 50, "set_clones": 50, "independent_rounds": 500, "eq_map": 50, "eq_set": 50, "eq_umap": 50,
           "eq_uset": 50, "equal_pairs": 100, "unequal_pairs": 100, "builtin_equality": 50,
           "equal_views": 50, "unequal_views": 50})

add("C14", pkg="hash", bin="c14", plan=plan(8, 60, STD), min=100,
    technique="contract monitor on eql?/hash streams of built-in keys, with raising element callbacks",
    level_note="Every byte fed to the hasher is recorded and compared between equal values and between owned, reference and borrowed forms; eql? is compared with value equality on pairs and triples; each element callback of composites raises in turn.",
    rule="a case draws a pool of one key type (28 types and compositions), or a composite with observed elements, and judges pairs, triples, forms and faults; "
         "non-trivial always; distinct by hash of the values",
    gates={**{k: 200 for k in ("t_bool", "t_char", "t_i8", "t_u8", "t_i16", "t_u16", "t_i32", "t_u32", "t_i64", "t_u64", "t_isize", "t_usize", "t_unit", "t_string",
                               "t_option", "t_vec", "comp_vec", "comp_slice", "comp_opt", "comp_opt_vec", "comp_vec_vec", "comp_nested_opt")},
           "equal_pairs": 10000, "unequal_pairs": 10000, "faults": 5000, "reference_forms": 5000, "borrowed_forms": 5000})

add("C15", pkg="hash", bin="c15", plan=plan(9, 60, [("dbg", 4), ("prod", 2), ("asan", 2)], [("dbg", 3), ("prod", 1), ("asan", 3), ("miri", 1, {"min": 8})]), min=100,
    technique="panic-injecting monitor with consistency oracle and element ledger, debug+release+ASan builds",
    level_note="A countdown fires a panic at a chosen moment of user code (hash, eql?, comparison, predicate, clone, closure, drop) inside each operation; afterwards length, iteration and every lookup must agree, no element may be dropped twice, and later operations are judged by the model.",
    rule="a case is a history in which operations are interrupted by injected panics; non-trivial when at least one panic fired; distinct by hash of the operation/moment stream",
    gates={"callback_panics": 2000, "drop_panics": 500, "panicked_above_8": 500, "panicked_upto_8": 500, "retain_panics": 100, "set_panics": 200, "umap_panics": 100,
           "uset_panics": 100, "table_panics": 100, "pair_clone_from": 50, "pair_append": 50, "pair_set": 50, "pair_table_clone_from": 50,
           "rehash_panics": 100, "rehash_lost_elements": 20})

add("C17", pkg="hash", bin="c17",
    plan=plan(8, 50, [("dbg", 2, {"sd": 0}), ("generic", 2, {"sd": 0}), ("sse42", 2, {"sd": 0}), ("prod", 1, {"sd": 1}), ("asan", 1, {"sd": 2})]), min=64, cross=same_digests,
    technique="cross-build digest monitor (SSE2, portable and SSE4.2-compiled scans) plus reference model over slot-pattern histories",
    level_note="The same seeded histories run in builds using different scan backends; every return value, the contents and every lookup are judged by the model in each and digested; the digests must agree case by case.",
    rule="a case is one history or one fill/hole/reinsert pattern over chosen control tags; non-trivial always; distinct by hash of the operation stream",
    gates={"patterns": 500, "chosen_tags": 200, "deleted": 10000, "rehashed": 200, "completely_full": 200, "resized": 100, "map_steps_above_8": 1000,
           "kind_map": 100, "kind_set": 100, "kind_table": 100})

add("C16", pkg="attr", bin="c16", plan=plan(5, 40, [("dbg", 2), ("prod", 2), ("asan", 2)]), min=100,
    technique="recording-interpreter monitor: event trace of expanded wrappers vs a rule model, debug+release+ASan builds",
    level_note="The real attribute macros expand wrappers against a recording interpreter; the complete order of calls, trace entries, recorded errors and barrier announcements is compared with a model of the rules.",
    rule="a case is a random tree of wrapped calls with raises, throws, rescues and non-local returns, or an access sequence on object wrappers; non-trivial always; "
         "distinct by hash of the tree or access stream",
    gates={"calls": 10000, "errors_recorded": 5000, "cases_with_nonlocal_return": 2000, "returns_left_the_outermost_frame": 500, "deep_cases": 500,
           "succeeded": 1000, "failed": 1000, "announced": 2000, "mutable_accesses": 5000, "marks": 500,
           "wrapper_plain": 200, "wrapper_barred": 200, "wrapper_multiword": 200, "wrapper_barredtwo": 200})

add("C19", pkg="mono", bin="c19", plan=plan(5, 40, [("dbg", 2), ("prod", 2), ("asan", 2)]), min=100,
    technique="observed-comparator monitor: permutation, order, stability, error and call-count oracles with canaries, debug+release+ASan builds",
    level_note="Every comparator call of the real sort is watched (only elements handed in, none after an error); the result is compared with a stable reference order, and guard words or ASan watch the array and scratch bounds.",
    rule="a case sorts one array shape under one comparator (consistent, random, constant, intransitive; possibly raising at a chosen comparison) or reads one comparator result; "
         "non-trivial when at least two elements; distinct by hash of ranks and mode",
    gates={"comparator_results": 1000, "consistent_sorted": 2000, "merged": 1000, "with_ties": 1000, "errors_surfaced": 500, "errors_in_merges": 300,
           "inconsistent_survived": 500, "via_block": 500, "via_spaceship": 500, "comparisons": 100000})

add("C20", pkg="mono", bin="c20", plan=plan(6, 40, [("dbg", 3), ("prod", 2), ("asan", 2)]), min=100,
    technique="byte-ledger monitor over real pipes, sockets, files, children and scripted descriptors with injected would-block, interruption and error results; debug+release+ASan builds",
    level_note="The real stream code moves bytes through real descriptors whose other end the monitor owns; every byte delivered or handed over is matched by position with the bytes supplied, including after interruptions and would-blocks.",
    rule="a case drives one stream (pipe, standard input, socket, file, child or scripted endpoint) through a random history of reads, line reads, pushbacks, seeks, writes and flushes; "
         "non-trivial when bytes moved; distinct by hash of the operations",
    gates={"pipe_streams": 300, "stdin_streams": 100, "socket_streams": 80, "pipe_sinks": 200, "files": 200, "children": 20, "threaded_streams": 20,
           "reads_interrupted": 500, "reads_blocked": 1000, "writes_blocked": 1000, "writes_interrupted": 150, "writes_abandoned": 100, "reads_abandoned": 300,
           "ungets": 1000, "seeks": 1000, "synchronous_writes": 1000, "flushes": 1000, "dropped_unclosed": 100, "real_interruptions": 20,
           "scripted_error": 200, "scripted_signal": 300, "scripted_would_block": 150, "ends_of_file": 1000})

add("C21", pkg="mono", bin="c21", plan=plan(6, 40, [("dbg", 2), ("prod", 2), ("asan", 1), ("tsan", 2)]), min=100,
    technique="event-ledger monitor of raises and observations under real signals, sender threads and timer threads; lane model; debug+release+ASan+TSan builds",
    level_note="Real signal handlers, foreign threads and the real timer raise requests while an interpreter thread polls; counters taken before and after each poll decide whether a request was lost, mixed up or reported too often.",
    rule="a case is one lane history, one storm of signals and ticks, one set of timers started and stopped near their ticks, one fork, one registration churn or the signal tables; "
         "non-trivial always; distinct by hash of the history or seed",
    gates={"model_histories": 200, "lane_steps": 5000, "drains": 200, "preempt_checks": 300, "gc_checks": 300, "storms": 20, "storm_drains": 20000, "storm_reports": 1000,
           "ticks_seen": 1000, "timers": 24, "timer_ticks": 60, "timer_restarts": 30, "timer_detached": 4, "forked_children": 2, "churned_interpreters": 400, "table_entries": 60})

add("C22", pkg="mono", bin="c22", plan=plan(6, 40, [("dbg", 2), ("prod", 2), ("asan", 2), ("tsan", 2)]), min=100,
    technique="ticket-ledger monitor of submissions, runs and deliveries over cooperative and native threads, real locks and FIFOs, heap watch; debug+release+ASan+TSan builds",
    level_note="The real pool runs instrumented calls (each counts its runs) and real lock/open calls; a cooperative scheduler with the interpreter's poll discipline decides lost wake-ups by its own clock, and bytes in use decide accumulation.",
    rule="a case is one set of cooperative threads issuing calls, one set of native threads handling tickets, one lock/open/FIFO call or one run of abandoned calls; non-trivial always; distinct by seed",
    gates={"green_runs": 50, "green_done": 500, "green_wakes": 500, "green_spurious": 100, "green_kills": 10, "ticket_runs": 50, "submitted": 1000, "collected": 500, "discarded": 300,
           "pipe_wakes": 300, "locks": 20, "locks_waited": 8, "failed_calls": 8, "files_opened": 8, "fifos_opened": 10, "interruptions": 20, "abandoned_and_counted": 2000})

add("C23", pkg="mono", bin="c23", plan=plan(4, 40, [("dbg", 2), ("prod", 2), ("tsan", 2)]), min=100,
    technique="process-lifetime ledger of names and identifiers over sequential and concurrent interning; debug+release+TSan builds",
    level_note="Every identifier the real table hands out is entered in a ledger kept for the life of the process; a second identifier for a name, a second name for an identifier, or a name read back differently is a violation.",
    rule="a case is one interning history, one race of threads over overlapping names, one listing or the predefined table; non-trivial always; distinct by hash of the names",
    gates={"new_names": 2000, "known_names": 2000, "byte_names": 1000, "derived_names": 500, "compared": 500, "read_back": 1000, "races": 100, "interned_concurrently": 10000,
           "listings": 5, "predefined_checked": 500})

add("C24", pkg="mono", bin="c24", plan=plan(5, 40, [("dbg", 3), ("prod", 4)]), min=100,
    technique="differential monitor: every verdict of the real matcher is compared with a transcription of the published algorithm, debug+release builds",
    level_note="Each generated pattern is put to the real matcher under all 32 flag sets with every string of up to two characters over the metacharacters and with near-miss instances of the pattern; inputs the rules leave open are counted and not judged.",
    rule="a case is one pattern with about seventy strings under all flag sets, plus its brace alternatives; non-trivial always; distinct by pattern",
    gates={"patterns": 1000, "matched": 100000, "unmatched": 500000, "recursive_matches": 10000, "bracket_matches": 10000, "brace_matches": 5000, "period_matches": 5000,
           "period_refusals": 5000, "escape_matches": 10000, "expansions": 2000, "real_expansions": 100, "segments": 100000})

add("C25", pkg="mono", bin="c25", plan=plan(4, 40, [("dbg", 2), ("prod", 2)]), min=100,
    technique="simulated-machine monitor: every load, spill, binding and side exit of the real allocator is replayed on a machine with unique values, debug+release builds",
    level_note="The real register file is driven through the compiler's own protocol and through whole operation runs; after each step every live slot is recovered by register, by flush and by side exit and compared with the value last written.",
    rule="a case is one history of operations, parked results, synchronisations, pops, flushes and copies, or one straight-line run; non-trivial always; distinct by hash of the history",
    gates={"operations": 5000, "evictions": 1000, "reuses": 3000, "loads": 3000, "side_exits": 5000, "in_place": 500, "doubled": 500, "synced": 500, "written_back": 500,
           "pops": 500, "flushes": 300, "copies": 200, "parked": 1000, "runs": 300, "run_operations": 2000, "run_evictions": 500, "dirty_seen": 10000})

add("C26", pkg="mono", bin="c26", plan=plan(4, 40, [("dbg", 2), ("prod", 2), ("asan", 2)]), min=100,
    technique="reference-vector and heap-block monitor: own allocator with guard bytes, garbage fill and moving growth, debug+release+ASan builds",
    level_note="Every block the real container requests or returns is entered with size and alignment, new memory holds garbage and growth always moves; contents, the three fields compiled code reads and the outstanding blocks are compared after every operation.",
    rule="a case is one history of creations, pushes, growth, reservations, writes, copies, moves and disposals over one element type, or one long growth; non-trivial always; distinct by hash of the history",
    gates={"histories": 1000, "long_growths": 100, "created_empty": 300, "clones_of_nothing": 50, "clones": 3000, "growths": 1000, "pushes": 5000, "resizes": 3000, "resizes_to_less": 1000,
           "reserves": 3000, "writes": 5000, "drops": 2000, "moves": 500, "promises_kept": 3000})

add("C27", pkg="mono", bin="c27", plan=plan(4, 40, [("dbg", 2), ("prod", 2)]), min=100,
    technique="reference-stream monitor: every word, real, integer and byte drawn is compared with a generator written as the bare recurrence, debug+release builds",
    level_note="The reference is checked at start against published outputs; the real generator is drawn in mixed order through the default stream, the counting functions and several generator objects at once, and every value, draw count, seed and equality answer is compared.",
    rule="a case is one seed with a mixed sequence of draws, or one history of several generator objects and the default one; non-trivial always; distinct by seed words and operation order",
    gates={"streams": 1000, "multi_word_seeds": 500, "negative_seeds": 200, "reals": 5000, "inclusive_reals": 5000, "bounded_integers": 10000, "redrawn": 1000, "big_integers": 5000,
           "byte_strings": 5000, "object_histories": 1000, "objects": 3000, "object_integers": 3000, "object_ranges": 1000, "object_wide_ranges": 300, "object_reals": 3000,
           "object_bytes": 1000, "sessions": 2000, "default_draws": 3000, "default_seeds": 1000, "system_seeds": 300, "equal": 5, "unequal": 500, "refused": 1000})

add("C28", pkg="mono", bin="c28", plan=plan(4, 30, [("dbg", 2), ("prod", 2)]), min=100,
    technique="differential monitor: every byte's line and every rendered excerpt is compared with a plain scan of the text, debug+release builds",
    level_note="All bytes of each generated text (and positions past it) are looked up, and about forty spans per text are rendered on terminals of several widths; heading, lines shown, column and length of the underline are recomputed from the text alone.",
    rule="a case is one text with all its positions and about forty spans; non-trivial if it has more than one line; distinct by text",
    gates={"texts": 1000, "positions": 100000, "locations": 20000, "lines_shown": 30000, "underlined": 20000, "line_ends": 10000, "multi_line": 5000, "multi_byte": 3000,
           "end_of_file": 3000, "cut_lines": 2000, "empty_texts": 50, "no_final_newline": 300, "merges": 3000})

add("C29", pkg="mono", bin="c29", plan=plan(2, 60, [("dbg", 3), ("prod", 3)]), min=1,
    technique="whole-process monitor: real processes run under the real watchdog with their own log of progress; exit status and clock decide, debug+release builds",
    level_note="Each case starts 64 processes with drawn settings and patterns of progress, computing, sleeping and blocked reads; a process stopped before its allowance, one still running well after it, one stopped while disabled and any other ending is a violation. Late endings are not judged while the machine holds sleeping threads up.",
    rule="a case is a batch of 64 processes; non-trivial always; distinct by hash of the plans",
    gates={"processes": 384, "fired": 90, "kept_alive": 30, "left_alone": 50, "far_from_due": 20, "one_second": 40, "polls": 300})

add("C18", pkg="mono", bin="c18", plan=plan(6, 60, [("dbg", 3), ("prod", 3)]), min=20,
    technique="shadow-heap monitor: objects in the real collector carry canaries and report their own finalisation; reachability is recomputed independently, debug+release builds",
    level_note="After every collection each finalised object must have been unreachable, each reachable object is compared field by field, no unreachable object may survive a full collection, and every counter, the free list, the old generation and the remembered set are recounted from the objects themselves.",
    rule="a case is one history of allocations, stores, root changes and collections, one run of over eighty young collections, one graph over sixty thousand objects deep, or one set of buffers; non-trivial always; distinct by hash of the history",
    gates={"histories": 300, "long_runs": 60, "deep_graphs": 3, "allocated": 1000000, "allocated_inline": 300000, "freed": 1000000, "checked": 5000000, "minors": 10000, "majors": 1000,
           "own_majors": 50, "remembered": 10000, "stores": 20000, "bulk_stores": 5000, "cycles": 1000, "page_fills": 200, "pages_released": 50, "pages_waiting": 200, "requested": 200,
           "switched_off": 300, "limit_reached": 20, "free_cells": 1000000})

add("C30", pkg="val", bin="c30", plan=plan(4, 50, [("dbg", 2), ("prod", 2), ("asan", 2)]), min=20,
    technique="shadow-model monitor: every live string is compared with an independent byte sequence after each operation while a collector frees what the strings do not keep alive, debug+release+AddressSanitizer builds",
    level_note="After each operation all strings of the history are compared with the model; what a string says about itself (validity, ASCII-only, character count, boundaries, order, rendering) is compared with a scan written from the encodings' definitions; references a string gains must be announced; no buffer may outlive the strings.",
    rule="a case is one history of at least thirty operations over up to eight strings in fourteen encodings; non-trivial always; distinct by final content",
    gates={"appends": 10000, "appends_that_changed_the_encoding": 1000, "incompatible_appends_refused": 2000, "splices": 10000, "incompatible_splices_refused": 1000, "multiple_splices": 2000,
           "raw_appends": 3000, "re-taggings": 3000, "writes": 5000, "substrings_sharing_a_buffer": 1500, "snapshots": 3000, "C_views": 3000, "reversals": 3000, "repetitions": 3000,
           "scrubs_that_replaced_something": 300, "scans_valid": 50000, "scans_broken": 10000, "renderings_read_back": 10000, "wide_strings_read_back": 1000,
           "strings_compared": 500000, "references_announced_to_the_collector": 3000, "objects_freed": 10000, "encoding_names": 3000})

add("C31", pkg="val", bin="c31", plan=plan(4, 50, [("dbg", 2), ("prod", 2), ("asan", 2)]), min=50,
    technique="differential monitor: every call compared with an independent reading of the directives on generated templates, arguments and data, debug+release+AddressSanitizer builds with exact-size inputs",
    level_note="Bytes, encoding, validity and errors of each packing and every unpacked value are compared with an oracle working on bit strings and wide integers; where the rules leave a result open only safety is judged.",
    rule="a case is about a hundred packings and unpackings; non-trivial always; distinct by packed bytes",
    gates={"directives_packed": 50000, "big_endian_directives": 3000, "texts_encoded": 10000, "packings_into_a_buffer": 5000, "packings_moving_in_a_buffer": 800, "packings_in_UTF_8": 800, "packings_in_US_ASCII": 2000,
           "refused_packings": 2000, "refused_unpackings": 2000, "unpackings_compared": 20000, "values_unpacked": 60000, "first_values_taken": 4000, "strict_texts_read": 800, "packed_bytes_read_back": 8000,
           "templates_refused": 600, "arbitrary_templates": 600, "addresses_followed": 100})
add("C32", pkg="val", bin="c32", plan=plan(5, 50, [("dbg", 2), ("prod", 2), ("asan", 2)]), min=100,
    technique="differential monitor: every formatted text compared with an independent reading of the directives on generated formats and arguments, debug+release+AddressSanitizer builds",
    level_note="The whole text, its encoding and the class of every demanded error are compared with an oracle built on wide integers, exact decimal expansion and the C library's number printing; where the rules leave a result open only safety is judged.",
    rule="a case is a dozen or so formats; non-trivial when a result or an error was demanded; distinct by format and arguments",
    gates={"directives_compared": 50000, "by_name": 4000, "by_number": 4000, "by_order": 10000, "char_directives": 2000, "decimal_directives": 8000, "radix_directives": 5000, "float_directives": 5000, "text_directives": 4000,
           "errors_demanded": 2000, "non_ascii_results": 1000, "with_broken_text": 300, "unused_arguments": 100, "wide_formats": 20, "encodings_from_arguments": 60})
add("C33", pkg="val", bin="c33", plan=plan(4, 40, [("dbg", 2), ("prod", 2), ("asan", 2)]), min=300,
    technique="differential monitor: every text read and every value written compared with an independent reader on generated values, texts and texts near them, debug+release+AddressSanitizer builds",
    level_note="Values read, texts refused, texts written (exactly, where numbers allow one spelling) and the round trip are compared with a reader written from the grammar; the C library gives the numbers; what the grammar leaves open is judged for safety only.",
    rule="a case is eight texts or values; non-trivial when a value, a refusal or a text was demanded; distinct by text or value",
    gates={"texts_read": 20000, "texts_refused": 15000, "round_trips": 20000, "texts_exact": 15000, "deeply_nested": 500, "long_texts": 15})

add("C34", pkg="val", bin="c34", plan=plan(4, 40, [("dbg", 2), ("prod", 2), ("asan", 2)]), min=300,
    technique="inequality monitor: every sum, quotient, comparison, rounding, conversion and simplest fraction checked by cross-multiplication on generated fractions, debug+release+AddressSanitizer builds",
    level_note="Each answer is checked against the definition on whole numbers: value, lowest terms, nearest digit and tie rule, exactness of floats, smallest denominator; conversion of wide parts to a float is judged to two units in the last place.",
    rule="a case is a dozen operations on fresh fractions; non-trivial always; distinct by kind of operation, signs and digits",
    gates={"arithmetic_judged": 20000, "ties_rounded": 6000, "digits_negative": 8000, "negative_values_rounded": 10000, "simplest_with_long_denominators": 2500, "ranges_with_zero": 2000,
           "to_f_normal": 3000, "to_f_exactly_judged": 6000, "extreme_magnitudes": 3000, "subnormals_converted": 1000})

add("C35", pkg="val", bin="c35", plan=plan(4, 40, [("dbg", 2), ("prod", 2), ("asan", 2)]), min=300,
    technique="definition monitor: every operator, bit read, shift, power and comparison on generated integers and floats judged exactly, every method called meanwhile recorded, debug+release+AddressSanitizer builds",
    level_note="Integer answers are checked by exact arithmetic, float answers against IEEE operations and the C library, and the recorded calls of coerce, to_int, == and <=> against the operands; ordering a wide word against a float may be exact or rounded.",
    rule="a case is a few dozen operations on fresh operands with a fresh set of redefinitions; non-trivial always; distinct by operation, operand kinds and result",
    gates={"exact_integers": 10000, "float_results": 25000, "floor_divisions": 6000, "divisions_of_unlike_signs": 2500, "float_divmods": 20000, "integer_powers": 4000, "unit_powers_of_wide_exponents": 250,
           "left_shifts": 5000, "right_shifts": 5000, "bit_ranges_beyond_a_word": 4000, "bits_far_beyond": 1300, "bitwise_with_negatives": 6000, "integer_float_comparisons": 30000, "comparisons_with_nan": 500,
           "coerced_pairs_used": 14000, "shift_widths_asked": 3000, "equality_asked": 8000, "answered_orders": 4000, "redefinitions_honoured": 10000, "redefinitions_elsewhere": 20000, "zero_divisions": 400, "words_overflowed": 500, "complex_judged": 10000,
           "complex_part_by_part": 800, "complex_coerced": 2500})

add("C36", pkg="val", bin="c36", plan=plan(3, 30, [("dbg", 2), ("prod", 2), ("asan", 2)]), min=300,
    technique="history monitor: every trap, exit handler and finalizer records its run, on generated programs whose handlers register more handlers, raise or exit, debug+release+AddressSanitizer builds",
    level_note="The recorded order, the exit status, $! as each handler saw it and the reported errors are compared with the order the registrations demand.",
    rule="a case is two dozen program endings; non-trivial always; distinct by the sequence of runs and the status",
    gates={"handlers_run": 300000, "finalizers_run": 150000, "traps_run": 15000, "registered_while_ending": 30000, "exit_and_failure_mixed": 15000, "finalizer_warnings": 20000,
           "status_chosen_by_handler": 20000, "status_left_alone": 20000, "status_of_failure": 7000})

add("C37", pkg="val", bin="c37", plan=plan(4, 40, [("dbg", 2), ("prod", 2), ("asan", 2)]), min=200,
    technique="shadow-memory monitor: every buffer, view, viewed string and mapped file is shadowed byte by byte through generated histories with locks, transfers, raising blocks and arguments that resize the buffer, debug+release+AddressSanitizer builds",
    level_note="After every operation all buffers, views, strings and files are compared with the shadow copies, the flags and validity of each with its history, and what it reports to the collector with what it views; at the end no file may stay mapped.",
    rule="a case is a history of two dozen operations on up to seven buffers; non-trivial when bytes were read or written; distinct by operations and outcomes",
    gates={"buffers_made": 2000, "buffers_freed": 1200, "buffers_resized": 1000, "buffers_transferred": 900, "views_taken": 2000, "views_of_views": 80, "writes_through_views": 50, "invalid_views_refused": 1200,
           "stale_views_written": 100, "freed_under_views": 50, "shrunk_under_views": 25, "sources_kept_alive": 25000, "copied_onto_itself": 4, "arguments_that_meddle": 400, "impossible_sizes": 400,
           "files_mapped": 500, "mappings_refused": 1000, "mappings_all_released": 200, "masked_in_place": 1400, "masked_copies": 1500, "masks_repeated": 800, "numbers_read": 200, "numbers_written": 250,
           "numbers_beyond_signed": 120, "number_lists_read": 800, "loops_followed": 1200, "buffers_compared": 900, "unequal_sizes_compared": 350, "dumps_read": 900, "locks_released": 700,
           "locks_left_by_errors": 150, "second_locks_refused": 30, "refused_while_locked": 80, "strings_opened": 700, "strings_built": 400, "blocks_that_raised": 200})

add("C38", pkg="val", bin="c38", plan=plan(4, 40, [("dbg", 3), ("prod", 2), ("asan", 1)]), min=200,
    technique="reference-model monitor: every call of an Array method in generated histories is replayed on a plain list, with blocks and conversions that raise, objects that convert themselves, frozen receivers and arrays holding themselves, debug+release+AddressSanitizer builds",
    level_note="After every call the answer, its class and freshness, the error, the sequence of values given to the block and the contents of every array in play are compared with the model; stores of objects must have been announced to the collector, and the chances of all outcomes of sampling and shuffling are added up exactly.",
    rule="a case is a history of four to thirteen calls on shared arrays; non-trivial when a method answered or raised; distinct by calls and outcomes",
    gates={"calls": 80000, "answers": 60000, "block_calls": 80000, "block_raised": 1600, "errors": 6500, "frozen": 1900, "object_raised": 600, "sorted": 1700, "stores": 2500, "direct": 700,
           "uniform": 380, "draw_sequences": 7500, "big_samples": 370, "picky": 380, "class_side": 380, "recursive": 380, "encodings": 380})
add("C39", pkg="val", bin="c39", plan=plan(4, 40, [("dbg", 3), ("prod", 2), ("asan", 1)]), min=200,
    technique="runtime monitor of object lifetime: generated Array calls whose blocks, comparisons and conversions run a precise collector or change the arrays of the call, with freed objects and abandoned element storage poisoned, debug+release+AddressSanitizer builds",
    level_note="A stand-in collector frees every object not reachable from the arguments, the receiver and the temporary roots at each callback; any later use, answer, element or block argument that is such an object is a violation, as is a panic, a read of abandoned storage, a root or recursion guard left behind.",
    rule="a case is a history of Array calls with meddling callbacks; non-trivial when a method answered or raised; distinct by calls and outcomes",
    gates={"calls": 25000, "answers": 6000, "callbacks": 100000, "changes": 7000, "collections": 15000, "objects_collected": 40000, "errors": 3500})

add("C48", pkg="dict", bin="c48", plan=plan(6, 45, [("dbg", 3), ("prod", 3), ("asan", 1)]), min=300,
    technique="runtime monitor: the real Hash class and its storage run in a stand-in interpreter next to an ordered list of pairs; answers, pairs, block calls, default calls, errors and what the collector is shown are compared after every call, debug+release+AddressSanitizer builds",
    level_note="Every generated call is also made on the model; afterwards every hash is read back through all ways in (traversal, positions, lookup, marking) and must hold exactly the model's pairs in order, with the same default, mode, class and flags; nested position walks are interleaved with changes.",
    rule="a case is a history of calls over a few hashes that may contain each other; non-trivial when a call was compared; distinct by calls, sizes and modes",
    gates={"plain-calls": 60000, "compiled-calls": 4000, "walks": 8000, "positions": 20000, "block-calls": 9000, "default-calls": 500, "raised": 3000,
           "raised:scripted": 50, "digests": 2500, "class-calls": 3000, "stored-objects": 6000})

add("C49", pkg="dict", bin="c49", plan=plan(4, 40, [("dbg", 3), ("prod", 2), ("asan", 1)]), min=300,
    technique="runtime monitor: the real Hash class runs in a stand-in interpreter whose precise collector runs, or whose callbacks change the hashes, inside every block, default proc, conversion, hash, eql? and == call; every object handed out, stored or answered is checked to be alive, walks are followed element by element, debug+release+AddressSanitizer builds",
    level_note="Reclaimed objects are poisoned and recognised at any use; after every call all hashes are read back through all ways in, a new key must be accepted again, and for walks whose block changes the hash each pair shown is checked against what the hash held at that moment.",
    rule="a case is a history of calls over a few hashes, either with the collector running inside callbacks or with callbacks that change things; non-trivial when something happened inside a call; distinct by method, shape and number of callbacks and doings",
    gates={"calls": 15000, "callbacks": 20000, "collections": 5000, "changes": 1500, "objects_collected": 15000, "walks-watched": 1500, "answers": 3000})

add("C50", pkg="dict", bin="c50", plan=plan(5, 45, [("dbg", 3), ("prod", 3), ("asan", 1)]), min=300,
    technique="runtime monitor: the real Set class over the real hash storage runs in a stand-in interpreter next to an ordered list of elements; answers, elements, block calls and errors are compared after every call, in other histories the collector runs or the block changes the sets inside every callback, debug+release+AddressSanitizer builds",
    level_note="Every generated call is also made on the model, including nested, frozen, identity-comparing and self-applied sets and operands that are arrays, sets or other enumerables; afterwards every set is read back through all ways in. With callbacks that collect or change, no stale object may be used, shown, stored or answered and no element be passed over.",
    rule="a case is a history of calls over a few sets; non-trivial always (every call is compared or watched); distinct by method, shape, outcome and number of callbacks and doings",
    gates={"calls": 20000, "answers-compared": 9000, "errors-compared": 500, "callbacks": 24000, "collections": 4000, "changes": 800, "objects_collected": 9000,
           "walks-watched": 1200, "raised:scripted": 80, "answers-watched": 1400, "graphs-flattened": 250, "graphs-refused": 80})

add("C51", pkg="dict", bin="c51", plan=plan(5, 45, [("dbg", 3), ("prod", 3), ("asan", 1)]), min=2000,
    technique="runtime monitor: the real Range and ArithmeticSequence methods run in a stand-in interpreter; sizes, terms, bounds, membership, sections and block calls are compared with the terms counted out in exact arithmetic, debug+release+AddressSanitizer builds",
    level_note="Ends and steps are Integers on both sides of the immediate range, Rationals and Floats (within rounding), missing ends, empty and reversed sequences; refused calls must raise the documented error and leave the range as it was.",
    rule="a case is one range or sequence read in every way, or one call with a scripted block; non-trivial always (every answer is compared); distinct by ends, step, method and block",
    gates={"sizes-exact": 8000, "sizes-rounded": 500, "terms": 40000, "terms-exact": 10000, "refused": 8000, "steps-refused": 800, "endless": 1000, "sections": 800,
           "indices-exact": 400, "outside": 1000, "ranges": 2000, "ranges-with-block": 1500, "walks": 1000, "raised": 150, "bounds": 2000, "ends-refused": 200,
           "letters": 2500, "within": 500, "beyond": 1500})

add("C52", pkg="dict", bin="c52", plan=plan(5, 45, [("dbg", 2), ("prod", 2), ("asan", 1)]), min=2000,
    technique="runtime monitor: the real Math functions run in a stand-in interpreter; values are compared with the C library and with exact arithmetic, the interpreter's way in with the one compiled code uses, and refused arguments with the domain, debug+release+AddressSanitizer builds",
    level_note="Arguments are Floats of every magnitude and at the edges of each domain, Integers of up to some thousand bits, objects that convert themselves, fail to or raise; factorials, ldexp and frexp are decided exactly, the rest within 1e-9.",
    rule="a case is one call; non-trivial always (answer or error is compared); distinct by function and arguments",
    gates={"values-compared": 8000, "ways-in-compared": 1500, "outside-domain": 1500, "not-numbers": 1500, "raised": 1000, "logarithms": 400, "logarithms-of-large": 70,
           "factorials": 35, "zeros": 50, "scaled": 700, "taken-apart": 800, "argument-counts": 200})
add("C53", pkg="dict", bin="c53", plan=plan(5, 45, [("dbg", 2), ("prod", 2), ("asan", 1)]), min=2000,
    technique="runtime monitor: the real methods of Rational and the fraction type below them run in a stand-in interpreter that notes what is asked of other objects; answers are compared with cross-multiplied whole numbers, debug+release+AddressSanitizer builds",
    level_note="Fractions of small, immediate-size and larger halves; the other side is a fraction, an Integer, a Float, an object that coerces, answers wrongly, raises or knows nothing; powers up to 12 exactly, beyond 32 bits refused; -4 to 4 digits.",
    rule="a case is one call, or all methods without argument on one fraction; non-trivial always (answer or error is compared); distinct by receiver, method and arguments",
    gates={"fractions": 8000, "whole-numbers": 6000, "truths": 6000, "floats": 1500, "refused": 3000, "powers": 700, "powers-of-units": 250, "far-powers": 300,
           "float-powers": 400, "complex-powers": 200, "rounded": 2000, "ties": 20, "handed-over": 120, "asked-equal": 80, "hashes": 1200, "argument-counts": 1200})
add("C54", pkg="dict", bin="c54", plan=plan(5, 45, [("dbg", 2), ("prod", 2), ("asan", 1)]), min=2000,
    technique="runtime monitor: the real methods of Float run in a stand-in interpreter that notes what is asked of other objects; floats are taken apart into exact fractions and every answer is decided on whole numbers, debug+release+AddressSanitizer builds",
    level_note="Floats of every magnitude, halves, eighths, decimals, neighbours of whole numbers, infinities and NaN; -24 to 10 digits exactly, up to 1000 within the last bits; other sides are Floats, Integers of any size and objects that coerce, answer wrongly, raise or know nothing. The arithmetic and comparison operators are C35's.",
    rule="a case is one call, or all methods without argument on one float; non-trivial always (answer or error is compared); distinct by receiver, method and arguments",
    gates={"rounded": 3000, "ties": 50, "digits-kept": 1200, "many-digits": 800, "whole-numbers": 5000, "floats": 9000, "truths": 8000, "refused": 1500, "fractions": 900,
           "rationalized": 500, "whole-rationalized": 300, "within-distance": 700, "handed-over": 100, "hashes": 2000, "argument-counts": 2000})
