#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the listed properties)."""
import json, os
A='src/avl.rs'; AS='src/avl/avl_set.rs'; B='src/btree.rs'; BS='src/btree/btree_set.rs'
C='src/btree/core.rs'; F='src/btree/fixed.rs'; S='src/stack.rs'; L='src/lib.rs'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe or [],hook_needed=hook)))

p('C01','AvlMap behaves as a standard sorted map under every operation history',
 'Any sequence of AvlMap operations (insert, remove, remove_entry, lookups, first/last queries and pops, get_mut, append, split_off, retain, clear, entry, extend, collecting, cloning and carrying on with either copy) returns the same results as the same sequence on std::collections::BTreeMap and leaves the same entries in the same ascending order with the same length. retain offers every entry exactly once, in ascending key order, and append prefers the values of the argument and leaves it empty. None of these calls panics, whatever the map\'s size, shape or sharing.',
 ['histories','inputs'],'all finite operation sequences over all keys, values, map sizes and tree shapes, on maps that share structure with clones or do not',
 'The crosscheck tests sample short insert/remove lists of u8 keys; deep trees, double rotations after removals, unequal-height joins and shared subtrees are reached only by luck.',
 [A],[('path copying insert/remove and rebalancing','src/avl.rs ins, rm, rm_leftmost, rm_rightmost, rebal_lf_to_rt, rebal_rt_to_lf, rot_*'),('join/split based bulk operations','src/avl.rs join, join2, split, Merger, retain'),('public map operations','src/avl.rs impl AvlMap')],
 [dict(name='root/len',meaning='tree and cached number of entries',where='src/avl.rs struct AvlMap'),dict(name='ht',meaning='cached subtree height',where='src/avl.rs struct Node')],
 ['return values of every AvlMap method','iteration order and len after each step'])

p('C02','BTreeMap behaves as a standard sorted map for every branching factor',
 'For every branching parameter N >= 1, any sequence of btree::BTreeMap operations (insert, remove, lookups, first/last queries and pops, get_mut, append, split_off, retain, clear, entry, extend, collecting, converting to Vec, cloning and carrying on with either copy) returns the same results as on std::collections::BTreeMap and leaves the same entries in the same ascending order with the same length. retain offers every entry exactly once, in ascending key order, and append prefers the values of the argument and leaves it empty. None of these calls panics, whatever the map\'s size, shape or sharing.',
 ['histories','inputs','configurations'],'all finite operation sequences, keys, values, sizes and tree shapes, for every const parameter N >= 1 and any sharing with clones',
 'Existing tests use small lists of u8 keys, mostly at N = 1 or 2; rebalancing, merging and splitting several levels up at other N, and on shared nodes, are not enumerated.',
 [B],[('insert with node splitting','src/btree.rs Node::insert, Node::split, BTreeMap::insert'),('removal with rotation and merging','src/btree.rs Node::remove, pop_first, pop_last, rebal, rot_lf, rot_rt, merge_kids, BTreeMap::rm_and_rebal'),('bulk operations','src/btree.rs append, split_off, retain')],
 [dict(name='elems/kids',meaning='sorted entries and children of a node',where='src/btree.rs struct Node'),dict(name='len',meaning='cached number of entries',where='src/btree.rs struct BTreeMap')],
 ['return values of every BTreeMap method','iteration order and len after each step'])

p('C03','AvlSet and BTreeSet behave as a standard sorted set under every history',
 'Any sequence of AvlSet or BTreeSet operations (insert, remove, take, replace, get, contains, first/last, pop_first/pop_last, append, split_off, retain, clear, range, extend, collecting, cloning) returns the same results as on std::collections::BTreeSet and leaves the same elements in the same ascending order with the same length. get, take, pops and iteration hand out the element instance actually stored, replace returns the previously stored equal element and stores the new one, and retain offers every element exactly once in ascending order. None of these calls panics.',
 ['histories','inputs','configurations'],'all finite operation sequences over all element values, sizes, shapes and sharing, for AvlSet and for BTreeSet with any branching parameter',
 'Set tests build sets from short byte vectors and call one operation; histories on shared sets and element identity (replace/take/get) are not covered.',
 [AS,BS],[('set wrappers over the maps','src/avl/avl_set.rs impl AvlSet; src/btree/btree_set.rs impl BTreeSet'),('AvlSet::retain rebuild','src/avl/avl_set.rs retain')],
 [dict(name='map',meaning='backing map from element to ()',where='src/avl/avl_set.rs, src/btree/btree_set.rs')],
 ['return values of every set method','iteration order and len'])

p('C04','Clones are independent: no operation on one copy is visible in another',
 'Once a collection (AvlMap, BTreeMap, AvlSet, BTreeSet, Stack, or btree::fixed::BTreeMap) has been cloned, no later sequence of operations on one copy - updates, in-place mutation through references, bulk operations that consume or empty it, partial iteration, clearing or dropping it - changes the contents, order or length observed through any other copy. This holds for families of clones of clones and for operations combining several members of one family.',
 ['histories'],'all histories that interleave clone, update, combine, consume and drop over any number of related copies',
 'Tests clone once and check one follow-up; independence quantifies over all interleavings of updates over a whole family of structure-sharing copies.',
 [A,AS,B,BS,C,F,S],[('copy-on-write of shared nodes','Arc::make_mut / take_node in src/avl.rs, Arc::make_mut in src/btree.rs and src/btree/core.rs, Rc::make_mut / try_unwrap in src/stack.rs'),('consuming iterators that clone shared nodes','IntoIter in src/avl.rs, src/btree.rs, src/btree/core.rs, src/stack.rs')],
 [dict(name='reference counts',meaning='a node may be mutated in place only when uniquely owned',where='Arc/Rc links in every node type')],
 ['full contents of every live copy after each operation'])

p('C05','Set algebra is exact for all operands, however they share structure',
 'For any two sets of the same type (AvlSet or BTreeSet), including a set and its own clone or partly shared relatives, the difference, intersection, union and symmetric_difference iterators, the operators & | ^ -, the new_union/new_intersection/new_diff/new_sym_diff constructors and the predicates is_subset, is_superset and is_disjoint give exactly the mathematical result. Iterators yield it in strictly ascending order and stay exhausted, constructed sets are fully usable with correct length, and by-reference forms leave both operands unchanged.',
 ['inputs','histories'],'all pairs of operand sets, of any absolute and relative sizes, overlap patterns and sharing, and any branching parameter',
 'Tests check random byte vectors for some operators; size-ratio dependent code paths, equal operands, containment chains and shared operands are not covered systematically.',
 [L,AS,BS,A],[('sorted merge iterator with keep policies','src/lib.rs SortedMergeIter, SetOpIter, make_set_op_iter'),('tree-structured set operations','src/avl.rs Merger, union, diff, intersect, sym_diff; src/btree/btree_set.rs new_*'),('predicates','src/avl/avl_set.rs is_subset, is_disjoint; src/btree/btree_set.rs is_subset, is_disjoint')],
 [],['elements yielded, predicate results, contents of results and operands'])

p('C06','Combining and splitting maps yields exactly the documented entries',
 'AvlMap::new_union keeps every key with right-hand values winning, new_intersect keeps left-hand entries whose keys occur on the right, new_diff keeps left-hand entries whose keys do not, new_sym_diff keeps entries occurring in exactly one map, and new_join concatenates two maps around a pivot; append (AvlMap and BTreeMap) merges with the argument\'s values winning and empties the argument, and split_off keeps keys below the bound and returns the rest. Each result, and each map left behind, has exactly those entries in ascending order, the correct length, and behaves correctly under further operations, for operands of any relative size and sharing.',
 ['inputs','histories'],'all pairs of maps (any sizes, ratios, overlap, key layout, shared or unshared, or one a clone of the other), all split points, and follow-up operations on the results',
 'Tests combine maps built from short random vectors once; very unequal heights, chains of joins/splits, and operands that share nodes are not covered.',
 [A,B],[('join-based algorithms','src/avl.rs join, join_lf, join_rt, join2, split, Merger::merge'),('BTreeMap bulk operations','src/btree.rs append, split_off')],
 [dict(name='len',meaning='recomputed after bulk operations',where='src/avl.rs append/split_off/new_*; src/btree.rs split_off')],
 ['contents, order, length and later behaviour of results'])

p('C07','Iterators yield each entry once, in order, from both ends, with exact sizes',
 'iter, iter_mut and into_iter of every map and set, and keys, values, values_mut, into_keys and into_values, yield every entry exactly once in ascending key order; double-ended ones, under any interleaving of front and back calls, yield the ascending sequence from the front and the descending one from the back until they meet, and then keep returning None. Wherever an iterator has an exact length, len() and size_hint() equal the number of items still to come after any number of calls, so that standard adapters which rely on it (zip, rev, enumerate, rposition, len) work. Dropping an iterator half way, or iterating a collection that shares structure with clones, changes nothing else.',
 ['histories','inputs'],'all maps and sets (all sizes, shapes, sharing, branching parameters) and all interleavings of next, next_back, len, size_hint and drop',
 'Tests iterate forward, or alternate directions on small maps for a few iterators only; the meeting point depends on tree shape and on the interleaving.',
 [A,AS,B,BS,C,F],[('work-list iterators','src/avl.rs InnerIter, Iter, IterMut, IntoIter; src/btree.rs InnerIter, BorrowedNodeIter, IntoNodeIter; src/btree/core.rs InnerIter, NodeIntoIter'),('size reporting','ExactSizeIterator/size_hint impls')],
 [],['items, len() and size_hint() at every step'])

p('C08','range and range_mut visit exactly the entries inside the bounds',
 'For every pair of lower and upper bounds (included, excluded or unbounded, present in the collection or not), range and range_mut on maps and range on sets yield exactly the entries within the bounds, ascending from the front and, where double-ended, descending from the back under any interleaving, then stay exhausted; their size hints never exclude the number of items actually left. Mutations made through range_mut reach exactly the yielded entries and no clone. Bounds that describe an empty or inverted range never yield an entry.',
 ['inputs','histories'],'all maps/sets, all bound kinds and positions (before, on, between and after stored keys), all front/back interleavings',
 'Tests sample Included/Excluded pairs over small byte maps; edges depend on where both bounds fall relative to each node on two root-to-leaf paths.',
 [A,AS,B,BS],[('left/right pruning of the work list','src/avl.rs range, range_mut'),('range edge search','src/btree.rs find_range_edges, make_worklist, make_mut_worklist, Range, RangeMut')],
 [],['items and size_hint of range iterators; map contents after range_mut'])

p('C09','Trees stay sorted and balanced; single-key operations stay logarithmic',
 'After any history of operations, including bulk combination, splitting, retain, deserialization-free construction and updates of shared copies, every map and set satisfies its own structural self-check (sorted keys, correct length, balance or uniform depth and node occupancy). Consequently a lookup, insert, remove, pop or range start on n entries makes only O(log n) key comparisons, and these, the first or last entry, len, clone and starting an iterator do not otherwise walk the collection either, even for adversarial (sorted, reversed, clustered) key orders.',
 ['histories','inputs'],'all operation histories, including sorted, reversed, alternating and clustered key orders, at sizes up to tens of thousands of entries',
 'Tests call the self-check after short random histories; imbalance accumulates only over specific rotation, join and removal sequences and changes no result, so ordinary assertions never see it.',
 [A,B,AS,BS,C,F],[('AVL rebalancing','src/avl.rs rebal_lf_to_rt, rebal_rt_to_lf, rot_*, join_lf, join_rt'),('B-tree occupancy','src/btree.rs rebal, rot_lf, rot_rt, merge_kids, split, stitch'),('structural self-check','src/lib.rs Map::check, Set::check')],
 [dict(name='ht',meaning='cached height used by rebalancing',where='src/avl.rs struct Node')],
 ['Map::check / Set::check','number of Ord::cmp calls per operation'])

p('C10','Cloning is lazy: copies are deferred and limited to what an update touches',
 'Cloning a collection copies no elements, and reading never copies any. A single-key update (insert, remove, pop, get_mut, push, top_mut) of a copy that shares structure copies only O(log n) elements (for a Stack, O(depth reached)), so the other elements stay shared; and when no other copy is alive any more, such updates, range_mut, iter_mut, append, split_off, the new_* combinations of AvlMap and AvlSet, retain (except on AvlMap) and consuming iteration copy no elements at all (the entry interface of a map may copy its key). In-place iteration (iter_mut, range_mut) of a sharing map that is abandoned after k entries copies only O(k + log n). Nor does any of this allocate memory in proportion to the collection: clone() allocates O(1), and a lookup, a single-key update, an iterator or range from start to end, a comparison, a subset or disjointness test and a lazy set operation allocate O(log n) (for a Stack O(1), apart from the nodes of elements copied).',
 ['histories','inputs'],'all histories of cloning, updating and dropping copies, at all sizes; element copies and live elements counted exactly, with generous constants',
 'Two Stack tests count clones in tiny cases; a lost sharing path or a needless deep copy changes no result and is invisible to value-based tests.',
 [A,B,C,S],[('structure sharing','Arc/Rc node links and #[derive(Clone)]/Clone impls of AvlMap, BTreeMap, fixed::BTreeMap, Stack'),('in-place update when unique','Arc::make_mut, take_node, Arc::try_unwrap, Rc::try_unwrap')],
 [],['number of element Clone calls per operation','number of live elements for a family of clones','heap bytes allocated per operation (counting global allocator)'])

p('C11','Every element is dropped exactly once: none leaked, duplicated or used after',
 'Over any history of any collection - including clones, removals, replacements, clears, bulk operations, in-place and consuming iterators abandoned at any point from either end - every element value created by the user or by cloning is eventually dropped exactly once when the collections and the values they handed out are gone. No operation compares, clones, returns or drops an element that has already been dropped or was never initialised, and removed or overwritten elements are released no later than the last copy containing them. When everything is gone, all heap memory is released: no node, list or iterator is left behind either.',
 ['histories','inputs'],'all operation histories and all abandonment points of iterators, over all collections, with element types that need Drop',
 'One test counts live values for one iterator; leaks and double drops do not change results, and the hand-written storage code has a separate path for every partial state.',
 [C,F,A,B,S,AS,BS],[('manual storage management','src/btree/core.rs InlineVec/Node/NodeIntoIter (ptr::read/write, MaybeUninit)'),('consuming iterators','src/avl.rs IntoIter; src/btree.rs IntoIter, OwnedNodeIntoIter, ArcNodeIntoIter; src/stack.rs IntoIter, clear, Drop')],
 [],['construction/clone/drop events of an instrumented element type','heap bytes live before and after a case (counting global allocator)'])

p('C12','Serde round-trips exactly and any input stream yields a valid map or an error',
 'Serializing any AvlMap, BTreeMap, AvlSet or BTreeSet emits its entries in ascending order with the exact count, and deserializing that gives back an equal collection. Deserializing any other entry stream - unsorted, with duplicate keys (the last value wins), with a length hint that is absent, exact, too small, too large or absurd - gives exactly the map the entries describe, valid and fully usable, with correct length; if the stream fails at any point, the error is reported, and a plain number or unit is refused with an error. This holds for self-describing formats and for those that are not. It never panics, and the memory it takes depends on the entries and not on the length hint.',
 ['inputs','fault_sequences'],'all entry streams, all length hints including usize::MAX, all positions of an injected stream error, all N',
 'Tests round-trip a handful of literal maps through exact hints; tree building depends on hint and count at every size, and wrong hints or failing streams are not tested.',
 [L,A,B,AS,BS],[('building from halves under a length hint','src/lib.rs serde::MapVisitor::visit_map, build_map_by_halves'),('make_half/stitch/make_whole','src/avl.rs impl Map for AvlMap; src/btree.rs impl Map for BTreeMap, Node::stitch'),('Serialize/Deserialize impls','src/avl.rs, src/btree.rs, src/avl/avl_set.rs, src/btree/btree_set.rs')],
 [],['tokens emitted by Serialize','result of Deserialize over a scripted MapAccess'])

p('C13','Equality, ordering, hashing and Debug depend only on contents',
 'For AvlMap, BTreeMap, AvlSet, BTreeSet and Stack, two collections compare equal exactly when they hold the same element sequence, regardless of how they were built, their internal shape or what they share; ordering comparisons equal the lexicographic comparison of their element sequences (maps and sets ascending, stacks from the top), and partial_cmp, <, >, and cmp agree. Equal collections hash equally and feed different sequences differently where hashing is offered, and Debug output lists exactly the contents in order. For elements that are only partially ordered (such as f64 with NaN), == and partial_cmp are those of the element sequences. Comparing never modifies or panics.',
 ['inputs','histories'],'all pairs of collections, including same contents with different construction histories, prefixes, single differences at any position, shared and unshared structure',
 'Tests compare a few literals; content-only behaviour must hold over all internal shapes, which only differing histories produce, and partially shared operands invite pointer short cuts.',
 [A,B,AS,BS,S],[('PartialEq/Ord/Hash/Debug impls','src/avl.rs, src/btree.rs, src/avl/avl_set.rs, src/btree/btree_set.rs, src/stack.rs')],
 [],['==, cmp, partial_cmp, hash of a recording hasher, Debug text'])

p('C14','Stack behaves as a LIFO sequence under every operation history',
 'Any sequence of Stack operations (push, pop, top, top_mut, remove, split_off, iter, iter_mut, into_iter, contains, len, is_empty, clear, extend, building from a Vec or an iterator, cloning or clone_from and carrying on with either copy) gives the results of the same operations on a vector whose last element is the top. Positions are vector indices (0 is the bottom element; split_off returns the part from the position up to the top); remove and split_off at valid positions never panic and at invalid ones panic without changing any stack, and iteration runs from the top to the bottom.',
 ['histories','inputs'],'all finite operation sequences over families of stacks with shared tails, all positions',
 'The stack tests fix a few short sequences; positional operations on partly shared lists depend on exactly which prefix is shared.',
 [S],[('shared list manipulation','src/stack.rs push, pop, remove, split_off, clear, iter_mut'),('length tracking','src/stack.rs struct Stack len')],
 [dict(name='len',meaning='cached number of elements',where='src/stack.rs struct Stack')],
 ['return values and contents of every stack of the family'])

p('C15','Stacks of any depth can be used, cloned, compared and dropped safely',
 'No Stack operation needs native call-stack space proportional to the number of elements: building, cloning, dropping, clearing, iterating, popping, comparing, splitting, removing and formatting work on a thread with a small call stack for stacks of hundreds of thousands of elements, whether they are uniquely owned, share a long tail with other stacks, or are dropped or overwritten (by assignment or clone_from) in any order, and whatever the elements are (plain, owning heap memory, zero-sized).',
 ['inputs','histories'],'all stack depths far beyond what recursion would survive, all orders of dropping stacks that share tails, all operations',
 'Tests use tens of elements, where recursion is harmless; the failure is a process abort that only depth reveals.',
 [S],[('iterative release of the list','src/stack.rs clear, Drop'),('iterative traversal','src/stack.rs remove, split_off, Iter, IterMut, PartialEq')],
 [],['process survival and results on a thread with a small call stack'])

p('C16','btree::fixed::BTreeMap behaves as a standard sorted map under every history',
 'Any sequence of insert, remove, get, get_mut, iter, iter_mut, into_iter, extend, collect, clear and clone on btree::fixed::BTreeMap gives the same results as on std::collections::BTreeMap and leaves the same entries in ascending order with the same length. This holds for any key and value types (zero-sized, small, large, heap-owning) and never reads or frees memory it should not.',
 ['histories','inputs','configurations'],'all operation sequences over key/value types of different sizes and drop behaviour, at sizes that force several tree levels, with and without shared nodes',
 'Its tests check inserts, removals and two iterators on small maps; multi-level splits, merges and shared nodes in hand-managed storage are barely reached.',
 [C,F],[('fixed-capacity node storage','src/btree/core.rs InlineVec, Node'),('insert/split/rotate/merge on raw storage','src/btree/core.rs Node::insert, split, rot_lf, rot_rt, merge, remove'),('map wrapper','src/btree/fixed.rs')],
 [dict(name='len',meaning='cached number of entries',where='src/btree/fixed.rs struct BTreeMap')],
 ['return values, iteration, canary and liveness of every element'])

p('C17','A panic in user code leaves other copies intact and memory safe',
 'If a user-supplied Clone, Ord, Drop or closure panics during any operation, every other copy sharing structure with the collection keeps exactly its contents and stays fully usable. The collection being operated on can still be iterated, looked up, updated and dropped without memory errors, and no element is dropped twice or observed after being dropped (elements in flight may be lost). A lookup, get_mut, insert or remove whose Ord panics, and a get_mut whose Clone panics, leave its contents as they were.',
 ['fault_sequences','histories'],'every operation on every collection, with the fault injected at every reachable call of user code (k-th clone, k-th comparison, k-th drop, k-th closure call)',
 'No existing test injects a panic; unwinding through half-finished copy-on-write or raw storage moves is a distinct path per call of user code.',
 [A,B,C,F,S,AS,BS],[('copy-on-write order of operations','Arc::make_mut/take_node then modify, src/avl.rs, src/btree.rs'),('raw storage moves around user code','src/btree/core.rs'),('take-and-rebuild operations','retain, append, split_off in src/avl.rs, src/btree.rs, src/avl/avl_set.rs')],
 [],['contents of sibling copies, liveness of elements after catch_unwind'])

p('C18','The entry interface inserts once, only when vacant, and targets its key',
 'For AvlMap and BTreeMap, entry(k) followed by or_insert, or_insert_with, or_insert_with_key or or_default returns a reference to the value stored under k, which is the existing value if k was present (untouched, and the default closure never called) and otherwise a newly inserted default (closure called exactly once, with the right key). and_modify runs its closure exactly when the key is present; writes through the returned reference change that entry only; key() reports the key; first_entry and last_entry address the least and greatest entries and exist exactly when the map is non-empty. The length and the contents of any other copy follow accordingly.',
 ['histories','inputs'],'all map states (sizes, shapes, sharing), all keys present or absent, all chains of entry calls',
 'Tests exercise entry on small literal maps; the returned reference is found after an insertion that may rebalance or copy shared nodes anywhere.',
 [L,A,B],[('Entry methods','src/lib.rs Entry::or_aux, or_insert_with_key, and_modify'),('entry constructors','src/avl.rs entry, first_entry, last_entry; src/btree.rs entry, first_entry, last_entry')],
 [],['closure call counts, returned references, map contents'])

p('C19','Writes through mutable access reach exactly the addressed entries',
 'Values written through get_mut, iter_mut, values_mut, range_mut, for_each_mut, retain\'s closure, Stack::top_mut and Stack::iter_mut appear in exactly the entries the reference was handed out for, are visible to all later reads of that collection, and survive later updates; keys, order and length are unaffected. No other entry and no clone observes them, including when the same nodes are written repeatedly across copies or when iteration is abandoned or runs from both ends.',
 ['histories','inputs'],'all collections, sizes, shapes and sharing states; all subsets of entries written, in any order, from either end',
 'Tests mutate all values of small unshared maps in one pass; partial, two-ended and repeated mutation over shared nodes is where a stale or un-copied node would be written.',
 [A,B,C,F,S],[('mutable traversal with copy-on-write','src/avl.rs get_mut, IterMut, range_mut, for_each_mut; src/btree.rs get_mut, IterMut, RangeMut; src/btree/core.rs; src/stack.rs top_mut, iter_mut')],
 [],['values read back after writes, in all copies'])

p('C20','Copies that share structure can be used from different threads independently',
 'Clones of an AvlMap, BTreeMap, AvlSet, BTreeSet or btree::fixed::BTreeMap may be moved to different threads and updated, read, iterated, consumed and dropped there concurrently. Under every interleaving each thread observes exactly the results it would get working alone on a private copy, and every element is still dropped exactly once. One collection may also be read and cloned through a shared reference by several threads at once; the collections are Send and Sync exactly when their elements are both.',
 ['schedules','histories'],'all interleavings of two to four threads working on clones of one collection, with switch points at every call of user code, and in addition free-running threads and threads that start the same step at the same instant',
 'No existing test uses threads; results depend on another thread dropping or copying a shared node between two steps of an operation.',
 [A,B,C],[('atomic reference counts and copy-on-write','Arc::make_mut, Arc::try_unwrap, take_node in src/avl.rs, src/btree.rs, src/btree/core.rs')],
 [],['per-thread results against a private model; element life-cycle events'])

p('C21','Misbehaving user code never causes memory errors or reaches other copies',
 'If the keys\' Ord breaks its contract (answers at random, always the same, in a cycle, changes over time, some keys incomparable), if Clone makes keys unequal to the original, or if an iterator given to extend or collect reports a wrong size, results of the affected collection are unspecified and an operation may panic, but no element is dropped twice, used after being dropped or read uninitialised, none is leaked unless an operation panicked, iteration and operations terminate, and copies that share structure but were not operated on keep exactly their contents. Holds for AvlMap, BTreeMap, AvlSet, BTreeSet and btree::fixed::BTreeMap.',
 ['histories','inputs'],'all operation histories over small families of copies, under every way of answering comparisons, before and after a collection was built lawfully',
 'No existing test supplies an unlawful order; the structural code then meets positions, splits and empty halves which lawful orders never produce, and fixed::BTreeMap moves its elements with raw copies.',
 [A,B,C,F,AS,BS],[('raw storage driven by search positions','src/btree/core.rs search_keys, insert, ins_split, remove, rebal, merge_kids'),('structural recursion on comparisons','src/avl.rs ins, rm, split, union, range; src/btree.rs split, append, insert, remove, Range')],
 [],['element life-cycle events, contents of untouched copies, termination'])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
