#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so the wording is reviewable in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
LM, ST, LV, SS = "src/lsm_tree/map.rs", "src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/compaction/leveled.rs", "src/lsm_tree/sstable.rs"
BM, BN, BP = "src/bp_tree/map.rs", "src/bp_tree/node.rs", "src/bp_tree/pager.rs"
SK = "src/sync/stack.rs"
LSM = [LM, ST, LV, SS]
lstate = [("current metadata", "the set of on-disk tables reads and opens use", "curr_metadata in size_tiered.rs / leveled.rs"),
          ("next metadata", "the finished result of a background compaction, not yet adopted", "next_metadata"),
          ("compaction flag", "whether a background compaction is running", "is_compacting"),
          ("iterator count", "live iterators, which suspend compaction", "metadata_lock_count")]

p("L01", "LSM map answers like an ordered map under any background compaction",
  "Whatever the background compaction is doing at each instant, every successful operation of the log-structured map (insert, remove, get, contains, length, emptiness, minimum, maximum, ascending iteration) answers exactly as a plain ordered map given the same history of successful calls would, under both compaction strategies. The approximate length never under-reports the real one.",
  ["schedules", "histories", "configurations", "inputs"],
  "all operation histories of one client, all interleavings of it with the compaction threads it causes, all tuning parameters (memory budget, table counts and sizes, bucket bounds, level counts, growth factor), fixed- and variable-size keys and values",
  "The existing tests run one linear insert/update/remove script with one parameter set and whatever interleaving the OS happens to give; they cannot place a read between any two steps of a compaction, nor reach the deep level/bucket shapes where a stale value or an old tombstone wins.",
  LSM, [("newest logical time wins", "SSTableValue::cmp, SizeTieredStrategy::get, LeveledStrategy::get, *Iter::next"),
        ("tombstone purge rule", "SizeTieredMetadata::compact, LeveledStrategy::compact"),
        ("adoption of a finished compaction", "try_replace_metadata (both)"),
        ("snapshot handed to the compaction thread", "try_compact / spawn_compaction_thread (both)")],
  lstate, ["every public method of LsmMap"])
p("L02", "Flushed LSM data survives drop and reopen",
  "After a successful flush, dropping the log-structured map and opening the same folder again yields exactly the flushed contents, even if a compaction thread of the old instance is still running; a map that was created but never written, or cleared, reopens as empty. Writes, removals and flushes made after reopening supersede the old contents, for any number of reopen cycles.",
  ["schedules", "histories", "configurations"],
  "all histories of operations, flushes, drops and reopens, all positions of a still-running compaction thread at the drop and at the reopen",
  "Tests reopen at most once, after a quiet flush; none drops a map while its compaction thread runs, opens an unwritten store, or checks that updates after reopening win over everything stored before.",
  LSM, [("metadata rewritten on every table change", "try_compact, flush, get, len_hint, clear, iter"), ("logical clock persisted before use", "get_and_increment_logical_time"), ("folder reopened from metadata and table summaries", "SizeTieredStrategy::open, LeveledStrategy::open, SSTable::new")],
  lstate + [("logical time file", "the next logical time, so that later writes win after a reopen", "logical_time.dat")], ["LsmMap after reopen"])
p("L03", "A process crash leaves the LSM store at a flushed prefix of its history",
  "If the process is killed at any instant, including in the middle of a flush, a compaction, a clear or recovery itself, the store can be opened again and holds exactly the contents it had after some prefix of the operations issued so far. That prefix is never older than the last flush that returned success, and the reopened store keeps working normally.",
  ["crash_points", "schedules", "histories"],
  "all crash points between (and page-aligned torn points inside) file-system calls of client and compaction threads, all interleavings, all histories, repeated crashes",
  "No test crashes anything; the window between deleting replaced tables and recording the new table list is a few system calls wide and only matters when a kill lands inside it.",
  LSM, [("tables are complete before being referenced", "SSTableBuilder::flush then SSTable::new then push_sstable"), ("metadata replaced before old tables are deleted", "try_replace_metadata callers, clear"), ("metadata file write", "metadata.dat writers in both strategies")],
  lstate, ["contents after reopening the crash image"])
p("L04", "I/O errors in the LSM store surface as errors and lose nothing",
  "When a file-system call or thread creation fails in the log-structured map, the operation reports an error (never a panic, never a wrong answer), and no write acknowledged before is lost or rolled back, in memory or on disk. Once the failures stop, every operation works again, answers correctly, and only the operations that themselves reported an error may or may not have taken effect.",
  ["fault_sequences", "schedules", "histories"],
  "all sequences of injected I/O failures (open, create, read, write, seek, truncate, stat, directory listing, remove, rename; disk full; descriptor exhaustion; thread creation refused) on client and compaction threads, all interleavings",
  "No test injects any failure; error paths (a flush that fails half way, a compaction that fails, an iterator whose construction fails) are never executed.",
  LSM, [("errors propagate with ?", "all of lsm_tree"), ("memory tree emptied only after its table is on disk", "LsmMap::try_compact"), ("compaction error path", "spawn_compaction_thread"), ("lock count released on failure", "SizeTieredIter::new, LeveledIter::new")],
  lstate, ["results of LsmMap operations during and after faults"])
p("L05", "LSM compaction always makes progress again and nothing ever hangs",
  "Every operation of the log-structured map terminates under every schedule (no deadlock, no endless wait). Once failures stop and iterators are dropped, compaction resumes: repeated flushing keeps the number of on-disk tables within a bound given by the tuning parameters instead of growing with the number of flushes.",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings, all earlier histories including failed compactions, failed iterator constructions, failed thread creation, dropped iterators and reopens",
  "Tests check contents only; a compaction that silently stopped for ever (flag or count left set) still returns right answers and passes.",
  LSM, [("compaction flag reset on success and failure", "compact / spawn_compaction_thread"), ("iterator count decremented on drop", "SizeTieredIter::drop, LeveledIter::drop"), ("join before adopting", "flush, clear")],
  lstate, ["number of table folders after further flushes; termination within a step bound"])
p("L06", "The LSM store keeps no table that it no longer uses",
  "In the absence of crashes and failures, after a successful flush with no live iterator the store's folder contains exactly the tables the map still uses: nothing superseded by compaction or left half-built remains. Space is therefore proportional to live tables, not to the number of compactions ever run.",
  ["schedules", "histories", "configurations"],
  "all interleavings and all fault-free histories of operations, iterators and of drop and reopen straight after a flush, all tuning parameters",
  "Tests delete the whole folder at the end and never look inside it.",
  LSM, [("superseded tables are deleted on adoption", "try_replace_metadata (both)"), ("builder creates a folder up front", "SSTableBuilder::new")],
  lstate, ["directory listing against the table list recorded in the metadata file"])
p("L07", "LSM iterators show one consistent snapshot while the map is mutated",
  "An iterator over the log-structured map yields, in ascending order, exactly the entries present when it was created, however many insertions, removals, flushes and lookups happen while it is alive and however its steps interleave with them. Several iterators may be alive at once and be dropped in any order.",
  ["schedules", "histories"],
  "all interleavings of iterator steps with mutations, automatic and explicit flushes and reads, for any number of live iterators, both strategies",
  "Tests drain every iterator immediately after creating it; none mutates the map while an iterator is alive, so a table deleted or compacted under an iterator is never observed.",
  LSM, [("compaction suspended while iterators live", "metadata_lock_count check in try_compact"), ("tables opened lazily by the iterator", "SSTableDataIter::next")],
  lstate, ["items yielded by live iterators"])
p("L08", "Clearing the LSM map removes everything for good",
  "After clear returns success the log-structured map is empty for every read, stays empty across any compaction that was in flight and across reopening, and accepts new writes normally. Data from before the clear never reappears.",
  ["schedules", "histories", "crash_points"],
  "all interleavings of clear with running or just-finished compactions, all histories before and after it, drop/kill and reopen at any later point",
  "Tests clear once on a quiet map; none clears while a compaction is running or has finished without being adopted.",
  [LM, ST, LV], [("waits for the compaction thread and discards its result", "clear (both)"), ("metadata rewritten empty", "clear (both)")],
  lstate, ["reads after clear and after reopen"])
p("F01", "Short and interrupted reads and writes are invisible",
  "If the operating system completes any read or write of a store file only partially, or interrupts it with a signal, both on-disk maps (B+ tree and log-structured) behave exactly as if every transfer had completed at once. No operation fails and no data is lost, duplicated or misread because of it.",
  ["fault_sequences", "schedules", "inputs"],
  "every assignment of partial lengths (at least one byte) and EINTR interruptions to the reads and writes of client and compaction threads",
  "On local files the kernel practically never splits small transfers, so tests never see one.",
  LSM + [BM, BP], [("exact-transfer helpers", "read_exact / write_all / BufWriter use in pager.rs, sstable.rs, strategies")],
  None, ["all results of both on-disk maps"])
p("B01", "B+ tree operations are on disk when they return",
  "Every operation of the on-disk B+ tree map answers as a plain ordered map would, and after each successful operation a kill and reopen of the file shows exactly the contents, length, minimum, maximum and order at that point. This holds for any number of reopen cycles, any node degrees of three or more that fit a page, and any key and value types whose encodings fit the declared sizes.",
  ["crash_points", "histories", "inputs", "configurations"],
  "kill and reopen between any two operations of any history; fixed- and variable-size key and value types; all degrees",
  "Tests reopen once with one integer type and one degree; nothing checks that every single completed operation is already persistent, nor page overflow with variable-size types at full nodes.",
  [BM, BN, BP], [("write-through of every changed page and of the header", "Pager::write_node, allocate_node, deallocate_node, set_len, set_root_page"), ("page size derived from declared sizes", "LeafNode/InternalNode::get_max_size, Pager::get_node_size"), ("free page list", "allocate_node / deallocate_node")],
  [("header", "page count, length, root page, sizes, degrees, free list head", "Metadata in pager.rs")], ["contents after reopening the file image"])
p("B02", "B+ tree read failures are contained",
  "If a read fails in the on-disk B+ tree map, a lookup, minimum, maximum or iteration step returns an error instead of a wrong answer, and an insertion or removal whose reads fail before it has changed anything has no effect. The stored contents are intact and every later operation answers correctly once reads succeed again.",
  ["fault_sequences", "histories"],
  "every read or seek of every operation failing, in any combination, for all histories; iteration resumed after the error",
  "No test injects a read failure.",
  [BM, BP], [("search before write", "BpMap::search_node, insert, remove"), ("iterator keeps its position on error", "BpMapIterMut::next")],
  None, ["results during and after read faults; contents"])
p("B03", "A crash during a single-page B+ tree update is atomic",
  "If the process is killed at any instant while the on-disk B+ tree map replaces the value of an existing key, inserts into a leaf with room, or removes from a leaf that needs no rebalancing, the reopened map holds either the contents before or the contents after that operation, in order. All other keys are untouched, and the length counts either state.",
  ["crash_points", "histories"],
  "every crash point between file-system calls of such an operation, for all histories leading to it",
  "No test kills the process inside an operation.",
  [BM, BP], [("one page write carries the change", "insert/remove leaf write_node"), ("header length written separately", "Pager::set_len")],
  None, ["contents after reopening the crash image"])
p("B04", "A full disk leaves the B+ tree map unchanged and usable",
  "If the on-disk B+ tree map cannot grow its file because the disk is full, the insertion reports an error and the map still holds exactly its previous contents, in memory and after reopening. Lookups, replacements, removals, and insertions that need no new space keep working, and growth works again once space is available.",
  ["fault_sequences", "histories"],
  "every point at which growing the file can fail in any history, in particular inside cascading splits and root growth; space freed again at any later point",
  "No test runs out of space; the failure must hit one particular page allocation of a multi-page split.",
  [BM, BP], [("allocation of new pages during splits", "BpMap::insert, Pager::allocate_node"), ("page count bookkeeping", "Pager::allocate_node")],
  None, ["results and contents during and after the full-disk period"])
p("S01", "The concurrent stack is linearizable",
  "For every interleaving of pushes and pops by any number of threads, there is one total order of the operations, consistent with their real-time order, in which each pop returns the most recently pushed value not yet popped, or nothing exactly when the stack is empty.",
  ["schedules", "histories"],
  "all schedules of concurrent pushes and pops, including threads suspended at any instruction and address reuse after reclamation",
  "The only tests are single-threaded.",
  [SK], [("compare-and-swap on the head", "Stack::push, Stack::try_pop"), ("deferred reclamation prevents address reuse", "crossbeam_epoch pin/defer")],
  [("head", "top of the linked stack", "Stack.head")], ["return values of push/try_pop"])
p("S02", "The concurrent stack owns each value exactly once, without data races",
  "Every value pushed on the concurrent stack is either returned by exactly one pop or destroyed exactly once with the stack; no value is destroyed twice, leaked, or handed to two threads. No memory is accessed after being freed and all value accesses are ordered by synchronisation between the threads, under every schedule.",
  ["schedules", "histories"],
  "all schedules of pushes, pops, thread exits, memory reclamation and the final drop of the stack, for values with destructors",
  "Tests use plain integers on one thread: a double destruction or a leak of an integer has no effect, and a missing ordering never shows on one thread.",
  [SK], [("value moved out on pop", "Stack::try_pop"), ("node reclaimed after all readers left", "crossbeam_epoch guard.defer"), ("release/acquire on the head", "Stack::push / try_pop orderings")],
  [("node value", "owned by the node until popped", "Node.value")], ["destructor counts, allocator state, happens-before between accesses"])
p("S03", "The concurrent stack never blocks on a stalled thread",
  "If any threads are suspended for ever at arbitrary points inside push or pop, the remaining threads still complete their operations: a thread that runs alone completes its operation in a bounded number of steps. No schedule deadlocks. (The one-time set-up performed by the first operation in a process is outside this guarantee.)",
  ["schedules", "fault_sequences"],
  "all sets of threads stalled at any point, any schedule of the others",
  "No concurrent test exists; a lock or a wait for another thread passes single-threaded tests.",
  [SK], [("retry only when another thread made progress", "Stack::push / try_pop loops")],
  None, ["steps per completed operation while other threads are stalled"])
p("S04", "The concurrent stack's length is right when quiet and never absurd",
  "Whenever no operation is in progress, the reported length of the concurrent stack is the number of values it holds and emptiness agrees with it. While operations are in progress the reported length is never more than the pushes begun minus the pops completed, and never less than the pushes completed minus the pops begun.",
  ["schedules", "histories"],
  "all schedules of length queries with concurrent pushes and pops",
  "No test calls it concurrently; the transient lasts a few instructions.",
  [SK], [("counter updated around the head update", "Stack::push / try_pop / len")],
  [("len", "number of values", "Stack.len")], ["values of len and is_empty"])
p("M01", "In-memory collections destroy each element once despite caller faults",
  "For every in-memory collection, if caller code (comparison, destructor) panics at any point of any operation, or an iterator or the collection is abandoned half way, no element is ever destroyed twice and no memory is accessed out of bounds or after being freed, then or later. When no caller code panics, no operation panics, every element stays in its collection until an operation removes it, is then destroyed or handed back exactly once, and all memory is released in the end.",
  ["fault_sequences", "histories"],
  "a caller panic at the n-th comparison or destructor call of any operation, and iterators abandoned after any number of steps, in any history of operations including set algebra and concatenation",
  "Tests use plain integers and never panic in a comparison or abandon an owning iterator, so a double destruction or an out-of-bounds write goes unnoticed.",
  ["src/skiplist/map.rs", "src/skiplist/set.rs", "src/skiplist/list.rs", "src/treap/tree.rs", "src/treap/implicit_tree.rs", "src/avl_tree/tree.rs", "src/red_black_tree/tree.rs", "src/splay_tree/tree.rs", "src/radix/tree.rs", "src/radix/node.rs", "src/arena.rs"],
  [("manual node ownership", "skiplist Node::allocate/free/deallocate, Drop and IntoIter impls, union/intersection/difference, SkipList::add"), ("owned boxes moved through Options", "the tree modules"), ("slot reuse", "TypedArena::allocate/free")],
  None, ["destructor counts, allocator state"])
p("N01", "In-memory ordered maps and sets equal a plain ordered map",
  "For every history of operations, each in-memory ordered map or set (AVL, red-black, splay, treap, skip list, radix) returns exactly what a plain ordered map would for lookups, replacements, removals, floor, ceiling, minimum, maximum, length and iteration.",
  ["histories", "inputs"], "all histories and keys", "Tests use fixed scripts and one random sequence.",
  ["src/avl_tree/map.rs", "src/red_black_tree/map.rs", "src/splay_tree/map.rs", "src/treap/map.rs", "src/skiplist/map.rs", "src/radix/map.rs"],
  [("search-tree invariants", "tree.rs of each module")])
p("N02", "In-memory indexed lists equal a plain vector",
  "For every history of insertions, removals, concatenations and lookups by position, the treap list and skip list return exactly what a plain vector would.",
  ["histories", "inputs"], "all histories and positions", "Tests use fixed scripts and one random sequence.",
  ["src/treap/list.rs", "src/treap/implicit_tree.rs", "src/skiplist/list.rs"], [("subtree sizes and link distances", "implicit_tree.rs, SkipList::insert/remove/add")])
p("N03", "Set algebra on in-memory collections is exact",
  "Union, intersection, difference and symmetric difference of treap and skip-list maps and sets contain exactly the mathematically right keys, each with the left operand's value where both have one.",
  ["histories", "inputs"], "all pairs of operands", "Tests use one pair of small operands per operation.",
  ["src/treap/tree.rs", "src/skiplist/map.rs", "src/treap/set.rs", "src/skiplist/set.rs"], [("merge of sorted level-0 chains / split and merge", "SkipMap::union/intersection/map_difference, treap tree::union/intersection/difference")])
p("N04", "Arena handles stay valid and distinct until freed",
  "Every value stored in the typed arena is reachable through its handle until freed, no two live values share a handle, and freeing an absent handle is refused.",
  ["histories"], "all histories of allocate, free and access", "Tests use a handful of fixed calls.",
  ["src/arena.rs"], [("free list through vacant slots", "TypedArena::allocate/free")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
