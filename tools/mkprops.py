#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the entries stay uniform)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

INS = "src/tree/insert.rs"; FIX = "src/tree/fix.rs"; NODE = "src/tree/node.rs"; MOD = "src/tree/mod.rs"
REF = "src/tree/slice_ref.rs"; COW = "src/tree/cow.rs"; CUR = "src/cursor.rs"; IT = "src/tree/iter.rs"

p("C01", "Insertion splices the new slice into the content at the given index",
  "After inserting a slice of size n at index i, the content of the tree position by position is the old content before i, then the new slice's content, then the old content from i on moved by n, and the size of the tree has grown by exactly n. "
  "This holds for every feature parameterisation (plain, clone-on-write, slice references), every node width M in 1..=127, every tree shape, and every slice type whose split and join preserve content.",
  ["histories", "inputs", "configurations"],
  "all finite insertion histories (index, size, slice, cursor hint) on trees of every parameterisation, width and slice kind",
  "Unit tests replay about 40 fixed histories, nearly all with a joining constant slice and M in {3,...}; the node-split case analysis (two-key overflow, bubbling through several levels, join into an ancestor key) has far more reachable combinations than are listed.",
  [INS, FIX, NODE, MOD],
  [("insertion-point search", INS + " find_insertion_point"), ("edge and split-key insertion", INS + " do_insert_full, insert_rhs, do_insert_no_join"),
   ("upward propagation of sizes and split nodes", FIX + " OpUpdateState, BubbledInsertState::do_upward_step")],
  [("keys_pos / subtree_size", "relative positions of runs", NODE + " Leaf"), ("len", "number of slices", MOD + " Root")],
  ["return of insert / insert_with_cursor / insert_ref", "iter(..) over the whole tree", "size()", "number_of_slices()"])

p("C02", "Split and join callbacks: exact, at most once, and all of their effect kept",
  "An insertion asks the slice type to split only when the index lies strictly inside a stored run, exactly once, at an offset strictly between zero and that run's length. "
  "It offers the inserted slice to each run it touches for joining exactly once when the type may join and never otherwise, always with the left operand preceding the right; a refused join leaves both slices as they were. "
  "The resulting run list is the old one with exactly those splits, successful joins and the new slice applied: no run is lost, duplicated, reordered or left unjoined, and the slice count is the length of that list.",
  ["histories", "inputs", "configurations"],
  "all insertion histories with position-dependent, conditionally joining, never joining and constant slices",
  "Tests use only Constant slices (which cannot tell which operand survived, cannot see a wrong offset, and join transitively), and compare run lists after a few fixed histories.",
  [INS, NODE, "src/public_traits.rs"],
  [("split-key insertion", INS + " do_insert_full"), ("neighbour joins", INS + " try_join on adjacent keys"), ("temporary removal of a key while user code runs", NODE + " holes")],
  observe=["calls received by Slice::split_at and Slice::try_join", "iter(..)", "number_of_slices()"])

p("C03", "Lookup returns the run that contains the index",
  "For every index i with 0 <= i < size, looking up i yields the one stored run whose reported range [s, e) satisfies s <= i < e, with that run's slice and with size e - s. "
  "The runs found this way tile [0, size) without gap or overlap and are the same runs, in the same order and number, that iteration and the reported slice count describe.",
  ["histories", "inputs", "configurations"],
  "every index of every tree reachable by insertions and clones, with and without a cursor",
  "Tests look up a handful of indexes in fixed trees; an error in one relative position shows up only at particular indexes in particular shapes.",
  [MOD, NODE, "src/tree/entry.rs"],
  [("search_step", MOD + " search_step"), ("get_with_cursor", MOD)],
  observe=["get(i), get_with_cursor(c, i)", "SliceEntry::range/size/slice"])

p("C04", "Iteration yields exactly the overlapping runs, in order, from both ends",
  "Iterating over a valid range yields exactly the runs overlapping it, each once, with its true range, size and slice, in increasing order from the front and decreasing order from the back, under any interleaving of front and back steps; once the two ends meet, both directions yield nothing for ever. "
  "The range ending at (exclusive) zero with no start yields nothing; ranges that start after their end or include an index not below the size panic before anything is yielded.",
  ["histories", "inputs", "configurations"],
  "every range (all bound kinds) over every reachable tree, every interleaving of next and next_back, every parameterisation including trees that share nodes",
  "Tests drive a few iterators over fixed trees; the two cursors of the iterator walk a mutable path through nodes, and only certain pairs of positions, shapes, sharing and step orders exercise each transition.",
  [IT, MOD, "src/range.rs"],
  [("IterState / path stack", IT + " fwd_step, bkwd_step"), ("range validation", IT + " Iter::new")],
  observe=["iter(range), iter_with_cursor", "Iterator::next, DoubleEndedIterator::next_back"])

p("C05", "A cursor is only a hint",
  "Whatever path a cursor supplies -- accurate, stale, taken from another tree, too long, too short, or arbitrary -- a lookup, iteration or insertion that uses it gives the same result and leaves the same content as one that uses none, and never faults.",
  ["inputs", "histories", "configurations"],
  "all operations on all reachable trees with every hint path",
  "Tests pass empty cursors or the cursor just produced; a bad hint that happens to be in bounds but lead to a wrong child is exercised only by chance.",
  [MOD, INS, IT, CUR],
  [("hint check", MOD + " search_step"), ("hint use in insertion", INS + " find_insertion_point"), ("hint use in iteration", IT)],
  observe=["get_with_cursor, iter_with_cursor, insert_with_cursor, insert_ref_with_cursor vs. the same call without cursor"])

p("C06", "Produced cursors denote the true path, and bounded cursors keep it",
  "The cursor produced for a position -- by an insertion, by the tree, by an entry or by a slice reference -- lists exactly the child numbers on the way from the root to the node holding that position's run, so all of them agree with each other and, read in order over all runs, describe one search tree. "
  "A length-bounded cursor built from such a path gives back its first components, unchanged and in order, up to its capacity, and nothing else.",
  ["histories", "inputs", "configurations"],
  "cursors from all four sources for all positions of all reachable trees (including trees that share nodes with clones), all capacities",
  "Tests compare bounded cursors with each other, which cannot see an error common to both, and on COW trees never ask for a cursor in a tree with shared nodes.",
  [CUR, MOD, INS, "src/tree/entry.rs", REF],
  [("cursor built while walking up", INS + " CursorBuilder"), ("cursor_to", MOD), ("BoundedCursor buffer", CUR)],
  observe=["Cursor::prepend_to_path calls", "Cursor::into_path", "insert_with_cursor, cursor_to, SliceEntry::cursor, SliceRef::cursor"])

p("C07", "The tree stays a balanced B-tree of the configured width",
  "After any history every node holds at most 2M slices and every node but the root at least M, all leaves are at the same depth, and each inner node has one child more than it has slices. "
  "Hence no slice is further from the root than log base (M+1) of half the number of slices plus one, and the cost of reaching it is bounded by that.",
  ["histories", "configurations"],
  "all insertion/clone histories, every M in 1..=127",
  "Tests check shapes after fixed histories with small M; occupancy errors appear only for particular insertion positions within a full node, at particular depths and widths.",
  [INS, NODE, FIX],
  [("node split placement", INS + " split cases"), ("bubbling", INS + " BubbledInsertState"), ("new root", NODE + " make_new_parent")],
  observe=["cursor path of every run", "comparisons and additions performed on the index type per operation"])

p("C08", "A slice reference follows its slice through every change",
  "A reference to a slice keeps denoting that slice for as long as the tree exists: after any later insertions it reports the slice's current content, current range and current path; when its run is split it stays with the part before the insertion; when its run joins with another it denotes the joined run. "
  "References obtained from an insertion, from an entry, or by cloning a reference to the same run always agree.",
  ["histories", "inputs", "configurations"],
  "all histories of insertions, reference creation, cloning and dropping, over all shapes and slice kinds",
  "Tests follow a few references through fixed histories; each time a run moves between nodes, one of many code paths has to update the reference.",
  [REF, INS, FIX, NODE, "src/recycle.rs"],
  [("update/suspend of stored handles whenever a key moves", NODE + ", " + FIX), ("RecycleVec ids", "src/recycle.rs"), ("TraverseUpdate", FIX)],
  observe=["SliceRef::borrow_slice/range/cursor (and try_ forms)", "insert_ref, SliceEntry::make_ref, SliceRef::clone"])

p("C09", "Borrow discipline and lifetime of slice references and borrowed slices",
  "While any borrowed slice is held, insertion panics without changing the tree and reading still works; afterwards insertion works again. "
  "Dropping the tree ends the validity of all references, but if borrowed slices are held the content stays readable through them, and through the references, until the last of them is released, and is destroyed exactly then; references may be cloned, queried and dropped at any point, in any order, before and after the tree is gone and from within user code that an insertion or the destruction of the content calls, the fallible queries never panicking, and all memory is released exactly once when the last of tree, references and borrows is gone.",
  ["histories", "fault_sequences"],
  "all interleavings of creating, cloning, mapping and dropping borrows, references and the tree, and of insertions",
  "Tests never drop a tree before its references nor hold a borrow across another operation.",
  [REF, "src/param.rs", "src/recycle.rs"],
  [("BorrowState machine", REF), ("weak count and deallocation", REF + " SliceRef::drop, SliceRefStore::drop"), ("deferred destruction", REF + " drop_borrow")],
  [("borrow", "NotBorrowed/Mutable/Immutable(count, drop_if_zero)/Dropping/Dropped", REF), ("weak_count", "number of references sharing the store", REF)],
  ["SliceRef::is_valid/can_borrow/try_*", "Borrow deref/clone/map/drop", "drop of tree", "allocator and drop accounting"])

p("C10", "Clones are independent snapshots",
  "A clone of a tree -- deep for plain trees, shallow for clone-on-write trees -- has the content of the original at the time of cloning, and from then on no operation on one of them, including dropping it, changes what any other one contains, reports or iterates over.",
  ["histories", "configurations"],
  "all histories over families of trees related by cloning (clones of clones, clones taken between insertions, dropped in any order)",
  "The 30 or so COW tests are single fixed histories; which nodes are shared by whom depends on the whole history.",
  [COW, NODE, MOD, INS],
  [("make_unique on the way down", NODE), ("strong counts", COW), ("deep_clone", NODE)],
  observe=["content, size, count and lookups of every live tree after every operation"])

p("C11", "Concurrent use of clone-on-write clones is free of races and lost updates",
  "When clones of a clone-on-write tree are used by different threads at the same time (each thread cloning, inserting into, reading and dropping its own), every thread observes exactly what it would observe alone; under every interleaving no node is freed while still reachable, freed twice, leaked, or written while another tree can reach it. "
  "Every access one thread makes to a node happens before its reuse or release by another.",
  ["schedules", "histories"],
  "all interleavings of the atomic steps of two or three threads over trees that share nodes, and all memory orders the language allows",
  "No test starts a thread.",
  [COW, NODE, MOD],
  [("increment/decrement/is_unique", COW), ("make_unique: copy, increment children, release the old node", NODE), ("try_drop", NODE)],
  [("strong_count", "number of pointers to a node", NODE)],
  ["atomic operations on reference counts", "drop and allocation accounting", "content of each thread's tree"],
  "scheduling point and record at each atomic operation on a reference count")

p("C12", "Clone-on-write copies only the path, and nothing when unshared",
  "An insertion into a clone-on-write tree that shares nodes copies at most the nodes on the way down to the place of insertion (and their immediate slices); every slice outside those nodes stays shared, at the same address, with the other trees. "
  "A tree that shares nothing with a live tree is modified without copying any slice, and cloning a tree copies none.",
  ["histories", "configurations"],
  "all histories over families of shallow clones",
  "Tests check content only; copying too much is invisible to them.",
  [NODE, COW, INS],
  [("make_unique / into_child", NODE), ("is_unique", COW)],
  observe=["calls of the slice type's Clone", "addresses of slices reached through get/iter"])

p("C13", "Every slice is dropped exactly once, and nothing leaks",
  "Every slice handed to a tree, produced by a split, a join or a copy is dropped exactly once: by the user code that consumed it, or when the last tree (or held borrow) that can reach it goes away, never while still reachable. "
  "After all trees, references and borrows of any panic-free history are gone, no slice and no memory remains.",
  ["histories", "configurations"],
  "all panic-free histories of all parameterisations",
  "Tests use plain copyable slices, for which a missed or doubled drop has no effect.",
  [NODE, INS, MOD, COW, REF],
  [("do_drop", NODE), ("NodeBox / SharedNodeBox", MOD), ("moves of keys between nodes", NODE)],
  observe=["Drop of slices", "allocations and deallocations"])

p("C14", "A panic in user code never leads to a double drop or access to a dead slice",
  "If a user-supplied operation (splitting, joining, copying or dropping a slice, comparing or adding indexes, a cursor's methods) panics in the middle of an operation and the panic is caught, then no slice is ever dropped twice or read after it was dropped: each later operation on the tree, its clones and its references either panics or returns live slices, and dropping them all is safe. "
  "Trees that share nodes with the one being modified are unaffected.",
  ["fault_sequences", "crash_points", "histories"],
  "a panic at each call to user code in each history, followed by any continuation",
  "Tests inject no panics in user code.",
  [NODE, INS, REF, MOD, FIX],
  [("holes in leaves while a slice is lent to user code", NODE), ("NodeBox", MOD), ("borrow state left Mutable after a panic", REF)],
  [("holes", "keys temporarily moved out", NODE + " Leaf")],
  ["drop accounting", "results of all operations after a caught panic"])

p("C15", "Rejected calls panic cleanly and change nothing",
  "A lookup or cursor request at a negative index or one not below the size, an insertion at a negative index, beyond the size, or of a non-positive size, the creation of a tree from a non-positive size, and an iteration over an invalid range all panic, as does the creation of a tree of a width below 1 or above 127, and leave every tree, reference and borrow exactly as it was and fully usable; the slice passed to the rejected call is dropped once.",
  ["inputs", "histories", "configurations"],
  "all out-of-range arguments against all reachable trees",
  "Tests assert a few panics and stop; none uses the tree afterwards.",
  [MOD, INS, IT],
  [("argument checks", MOD + ", " + INS + " insert_internal, " + IT)],
  observe=["whether the call panics", "state of all trees and references afterwards"])

p("C16", "Any lawful index type works, including non-commutative ones",
  "The results of all operations depend on the index type only through its documented laws: for every lawful index type -- all unsigned widths and user-defined ones, including those where addition is not commutative -- inserting, looking up, iterating and following references give the ranges obtained by adding run sizes from left to right.",
  ["inputs", "configurations", "histories"],
  "all index types satisfying the documented laws, all histories",
  "All tests use u8 or usize, for which left and right subtraction coincide, so no test can distinguish a wrong direction.",
  [FIX, INS, MOD, "src/public_traits.rs", "src/tree/entry.rs", IT, NODE],
  [("directional arithmetic at every position update", FIX + " shift_keys, OpUpdateState"), ("ranges", MOD + " get_with_cursor")],
  observe=["size, get, iter, SliceRef::range with non-commutative and scaled wide indexes"])

p("C17", "Serialisation round-trips",
  "Serialising a tree yields the list of its runs in order, each as its size and its slice, and deserialising any such list yields the tree obtained by appending the runs one after the other; so a tree serialised and read back, in any parameterisation and width, has the same content, size and runs. "
  "Input that is not such a list is reported as an error.",
  ["histories", "inputs", "configurations"],
  "all reachable trees, all pairs of parameterisations, all well-formed run lists",
  "No test serialises anything.",
  ["src/serde.rs", "src/tree/entry.rs"],
  [("Serialize via iter", "src/serde.rs"), ("Deserialize via insert at end", "src/serde.rs")],
  observe=["serde_json of a tree", "deserialised tree's runs"])

p("C18", "Range bounds mean what they say",
  "For every range form the bounds reported are the ones written, membership holds exactly for the values between them, a range is reported as starting after its end or as naively empty exactly when no value can lie in it by comparison of its two bounds alone, and two ranges are reported as overlapping exactly when neither is empty and neither ends before the other starts.",
  ["inputs"],
  "all range forms over all (small) bounds, by value and by reference",
  "Only one doc example tests it.",
  ["src/range.rs"],
  [("RangeBounds default methods", "src/range.rs"), ("impls for std ranges and bound pairs", "src/range.rs")],
  observe=["RangeBounds::start_bound/end_bound/contains/starts_after_end/is_empty_naive/overlaps_naive"])

p("C19", "The exported reference model agrees with the tree",
  "For every history of insertions, lookups, iterations and reference queries, the reference model shipped for fuzzing accepts and rejects the same calls and gives the same answers as the tree does.",
  ["histories", "inputs"],
  "all histories over the model's interface",
  "The model is exercised by four fixed tests.",
  ["src/mock.rs"],
  [("vector of runs and stable ids", "src/mock.rs")],
  observe=["every return value and panic of the model's methods"])

p("C20", "Draining removes exactly the range and yields its pieces",
  "Draining a range yields the parts of runs inside it, split at its ends, from both directions, and leaves the tree with the content outside the range closed up, whether or not the iterator was exhausted.",
  ["histories", "inputs", "configurations"],
  "all ranges over all trees",
  "Not implemented in the code base; no test.",
  ["src/tree/drain.rs"], [("Drain", "src/tree/drain.rs")], observe=["drain, drain_with_cursor"])

p("C21", "Thread-safety markers admit exactly the sound uses",
  "Trees with slice references can be neither sent to nor shared between threads; plain trees are sendable when index and slice are; clone-on-write trees only when both are also shareable.",
  ["programs"],
  "all programs using the types",
  "A property of which programs compile; no test.",
  [MOD, "src/param.rs", "src/tree/entry.rs"], [("Send/Sync impls and RleTreeIsSend", MOD)], observe=["compiler acceptance"])

p("C22", "User code that breaks its contract leads to wrong answers, not memory errors",
  "When an index type, slice type or cursor passed to the tree breaks the contract of its trait (inconsistent comparisons or arithmetic, a split or join that returns the wrong pieces, a cursor that answers nonsense), "
  "calls may panic or answer wrongly, but no slice is dropped twice, used after it was dropped, or read where none is stored, and dropping the tree afterwards is safe.",
  ["histories", "inputs", "fault points"],
  "all histories in which any call into user code may answer wrongly, once or repeatedly, with or without debug assertions",
  "Tests only use lawful implementations; the documentation of the nodes says that unsafe code may not rely on user code (src/tree/node.rs: implementations of Index may be malicious).",
  [NODE, INS, FIX, IT, MOD, "src/public_traits.rs"],
  [("positions are never trusted for memory safety", NODE + " Leaf (documentation of keys_pos)"), ("searches fall back to a panic", IT + " panic_internal_error_or_bad_index"), ("holes", NODE)],
  observe=["life of every slice (created, used, dropped)", "panics that come from assumptions of unsafe code", "crashes"])

p("C23", "A tree of Constant values is the run-length encoding of its content",
  "A tree of the crate's own slice type Constant<T>, built by any history of insertions, always holds the one canonical run-length encoding of its content: every run shows one value, "
  "neighbouring runs never have equal values, and the number of slices is the number of maximal blocks of equal values. Lookups, iteration, clones and slice references agree with it, "
  "for every type of values (also without size, over-aligned, or owning memory) and every value is dropped exactly once.",
  ["histories", "inputs", "configurations"],
  "all histories over trees of Constant<T> of every parameterisation, width, index type and type of values",
  "Tests compare fixed histories; that no history ever leaves equal neighbours is a statement about all of them.",
  ["src/lib.rs", INS, NODE],
  [("Slice for Constant", "src/lib.rs"), ("joins with both neighbours", INS + " do_insert_full")],
  observe=["iter(..)", "number_of_slices()", "get", "make_ref / insert_ref"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
