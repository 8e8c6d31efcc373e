#!/usr/bin/env python3
"""Writes ../properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))
PH='include/gtl/phmap.hpp'; BT='include/gtl/btree.hpp'; VE='include/gtl/vector.hpp'; BV='include/gtl/bit_vector.hpp'

prop('C01', 'Flat hash maps and sets behave as ideal associative containers',
 'After any sequence of lookups, insertions, assignments, erasures, clears, reserves and rehashes, a flat hash map or set holds exactly the keys inserted and not erased since, each once and with the value last given to it. Every call terminates and returns what an ideal unordered container would (found or not, inserted or not, the element, the number erased). This holds whatever the hash values (all equal, colliding in any way), the fill level and the history of erasures.',
 ['histories','inputs'], 'every operation sequence (bounded depth) from every listed start state (sizes around each growth boundary, with every erase pattern), for every collision profile of the hash function and both group-probing implementations',
 'Tests run a few fixed sequences with one good hash; wrong answers need a particular mix of collisions, tombstones, fill level and capacity.',
 [PH], [('find / insert by group probing over control bytes', PH+': raw_hash_set'), ('tombstone or empty on erase', PH+': erase_meta_only'), ('growth or in-place cleanup when full', PH+': rehash_and_grow_if_necessary')],
 [('control bytes','full/empty/deleted state of each slot',PH),('growth budget','insertions left before growing',PH)], ['public API of flat_hash_map / flat_hash_set'])

prop('C02', 'Node hash containers: ideal semantics and stable element addresses',
 'A node hash map or set answers every operation sequence as an ideal associative container does. In addition the address of an element never changes from its insertion to its erasure: not by insertions, erasures of others, growth, rehash, reserve, swap, move of the container, or by extracting the element and inserting it elsewhere.',
 ['histories','inputs'], 'every bounded operation sequence including moves, swaps, merges and node hand-over, from start states around growth boundaries',
 'Tests check pointer stability for one rehash; relocation happens on several distinct paths (growth, in-place cleanup, move, merge, node handles).',
 [PH], [('slots hold owning pointers', PH+': node_hash_policy'), ('transfer of slots', PH+': resize / drop_deletes_without_resize')])

prop('C03', 'Parallel hash containers, used by one thread, equal the reference container',
 'Any sequence of calls on a parallel flat or node hash map or set - including the callback calls that look up, modify, erase, insert or visit under the lock, whole-container visits and per-submap access - gives the results and contents of an ideal associative container, for every number of submaps. Callbacks run exactly when, as often as and on the element they are documented to. Every key is always reachable whichever call put it there.',
 ['histories','inputs','configurations'], 'every bounded operation sequence over the whole API, 1, 2 and 16 submaps, keys in equal and different submaps, with null and real mutexes, and with precomputed hashes',
 'Tests exercise each extended call once on a good hash; a disagreement between two calls on which submap or slot a key lives in needs the right pair of calls.',
 [PH], [('submap chosen from the hash', PH+': parallel_hash_set::subidx'), ('callback entry points', PH+': if_contains, modify_if, erase_if, try_emplace_l, lazy_emplace_l, for_each, with_submap')])

prop('C04', 'Concurrent single-key operations on parallel containers are linearizable',
 'On a parallel hash container with a real mutex type, any set of concurrent insertions, lookups, counts of a key, modifications under callback, erasures by key, conditional erasures, extractions by key and toggles (emplace_single) behaves as if each took effect atomically at some point between its call and its return. (Members documented or written without a lock - size, empty, capacity, copying - and the use of an iterator or reference after the call returned are the caller\'s to protect.) No schedule produces a data race inside the container, a deadlock, or a callback running without the exclusion it is promised (shared for reading, exclusive for writing).',
 ['schedules'], 'every interleaving (bounded preemptions; unbounded in thorough) of 2-3 threads with 1-3 operations each on colliding keys, with exclusive and reader-writer mutexes',
 'Tests run without control of the scheduler and mostly without a mutex; a window between two lock acquisitions is hit by luck only.',
 [PH], [('lock per submap around each operation', PH+': parallel_hash_set, LockableImpl'), ('read lock upgraded to write lock with re-check', PH+': ReadWriteLock')])

prop('C05', 'Whole-container operations are safe under concurrency',
 'Swap, merge, clear, comparison, rehash/reserve, for_each and per-submap visits of parallel hash containers with a real mutex may run concurrently with each other and with single-key operations: no schedule has a data race, a deadlock or a lost or duplicated element; each submap takes part atomically (different submaps possibly at different moments), each element is seen at most once by a visit, and elements not touched by the concurrent operations are all seen.',
 ['schedules'], 'every bounded-preemption interleaving of 2-3 threads running one or two whole-container operations on one or two shared containers, including opposite argument orders and self arguments',
 'Lock-order inversion and half-locked bulk operations show up only under particular interleavings; tests run them single-threaded.',
 [PH], [('all-submap locking', PH+': swap, merge, for_each, clear'), ('deadlock avoidance between two containers', PH+': UniqueLocks / ReadLocks')])

prop('C06', 'Hash containers have value semantics',
 'Copying, moving, assigning and swapping hash containers transfers exactly the elements, hash function, equality and, where its traits say so, the allocator; a copy equals its source and then evolves independently, a moved-from container is a usable container. Merging moves exactly the elements absent from the target and leaves the others; extracting and re-inserting nodes neither loses nor duplicates an element; equality means same elements regardless of history.',
 ['histories','configurations'], 'every bounded sequence over two or three containers of copy/move/assign/swap/merge/extract/insert-node/compare mixed with insertions and erasures, with stateful hashers and allocators with every propagation trait',
 'Each transfer path has its own code per allocator trait and fill state; tests check a few pairs.',
 [PH], [('copy/move construction and assignment', PH+': raw_hash_set'), ('merge, extract, node insert', PH), ('swap', PH)])

prop('C07', 'Iteration and iterator validity of hash containers',
 'A traversal visits every element exactly once and nothing else, through begin/end, const iterators and range-for alike. An erase invalidates only the erased element: erasing while traversing (by the iterator returned or advanced beforehand) visits each remaining element exactly once; insertions that do not grow the table leave iterators, pointers and references valid; every returned iterator designates the element it is documented to.',
 ['histories','inputs'], 'every erase subset during traversal for every small container content and layout, and every insertion sequence within the reserved size, in all container kinds',
 'Whether a traversal skips or repeats depends on slot layout, group boundaries and tombstones, which tests do not vary.',
 [PH], [('skip over empty or deleted slots', PH+': iterator'), ('erase keeps other slots in place', PH+': erase'), ('reserve guarantee', PH+': reserve')])

prop('C08', 'Capacity management of hash containers',
 'Reserving room for n elements in a flat or node container lets that many be present without any reallocation, from any state (a parallel container spreads the request over its submaps and promises nothing for a single one); rehash and reserve never lose elements and never leave the table so full that a lookup cannot end; load never exceeds the maximum; capacity stays bounded by the number of elements ever simultaneously present, however long insertions and erasures alternate.',
 ['histories','inputs'], 'every n up to 600 (5000 in thorough) from fresh, filled, erased and churned tables, for every container kind and group implementation',
 'Off-by-one errors in the capacity arithmetic show for particular sizes or after particular churn only.',
 [PH], [('capacity arithmetic', PH+': NormalizeCapacity, CapacityToGrowth, GrowthToLowerboundCapacity'), ('cleanup of tombstones in place', PH+': drop_deletes_without_resize')])

prop('C09', 'Hash containers manage element lifetimes and memory exactly',
 'Over any history every element constructed by a hash container is destroyed exactly once, no operation reads a dead or moved-from element, and every block obtained from the allocator is returned to it once with the size it was obtained with. Move-only, non-default-constructible and over-aligned element types work wherever the operation does not need more.',
 ['histories','configurations'], 'every bounded operation sequence on containers of address-tracked elements with a tracking allocator, in flat, node and parallel containers',
 'Tests count constructions for a few calls; a double destruction on one path of many needs a checker that watches every object along every history.',
 [PH], [('slot construct/destroy/transfer', PH+': hash policies'), ('allocation and release of the table', PH+': initialize_slots, destroy_slots')])

prop('C10', 'Hash containers survive exceptions at every point',
 'If an element constructor, an assignment, a callback or an allocation throws at any point of any operation that adds, copies or looks up elements, the exception reaches the caller, nothing leaks or is destroyed twice, the container remains consistent and usable, and elements not involved keep their values. A failed insertion of one element leaves the contents unchanged.',
 ['fault_sequences','histories'], 'for every operation in every listed state, a fault injected at each construction, copy, move-assignment, callback and allocation point in turn, followed by a full probe of the container',
 'Tests inject no faults; the k-th throwing point of an operation is reachable only by enumerating k.',
 [PH], [('construct before publishing the slot', PH+': emplace / commit of an insertion'), ('rollback in copies', PH+': copy constructor')])

prop('C11', 'Dumping and loading a hash container round-trips',
 'Dumping any flat or parallel flat hash container of trivially copyable elements and loading the bytes gives a container that equals the original, answers every lookup as it did and keeps working under further operations, whatever its history; loading replaces previous contents without leak. A failed or short write or read at any byte makes the call report failure.',
 ['histories','fault_sequences'], 'every small content and history (tombstones, cleared, reserved, empty), every size across growth boundaries, into empty and non-empty targets, and an I/O failure at every archive call',
 'Tests dump two fixed maps and never fail the archive.',
 ['include/gtl/phmap_dump.hpp', PH], [('raw image of table', 'include/gtl/phmap_dump.hpp: dump / load'), ('binary archives', 'include/gtl/phmap_dump.hpp: BinaryOutputArchive, BinaryInputArchive')])

prop('C12', 'B-tree maps and sets behave as std::map and std::set',
 'Every sequence of operations on a b-tree map or set gives the contents, the ordered traversal in both directions, the lookup and bound results, the returned iterators and the counts that std::map and std::set give, for any comparator and any insertion order, including hinted insertion and range erasure.',
 ['histories','inputs'], 'every operation sequence of bounded depth from trees of every shape reachable by ordered, reversed, interleaved and hinted filling up to several levels, with erasure of every key and of every range, for node sizes from the minimum up',
 'Split, merge and rebalance are chosen by fill of neighbours; tests reach the common cases with large nodes and random keys.',
 [BT], [('node split and rebalance', BT+': rebalance_or_split, try_merge_or_rebalance'), ('position lookup', BT+': internal_locate, lower_bound, upper_bound')])

prop('C13', 'B-tree multimaps and multisets behave as std::multimap and std::multiset',
 'Every sequence of operations on a b-tree multimap or multiset gives the results of std::multimap and std::multiset: all equal keys are kept, equal elements stay in insertion order, equal_range, count and bounds delimit exactly them, erase by key removes all and erase by position or range exactly those designated.',
 ['histories','inputs'], 'every bounded operation sequence over few keys so that runs of equal keys span nodes, plus every fill size, erase position and range of multi-level trees',
 'Runs of equal keys crossing node boundaries are rare in random tests, and their relative order is not checked.',
 [BT], [('insert after equals', BT+': insert_multi'), ('bounds over runs', BT+': lower_bound / upper_bound')])

prop('C14', 'B-tree containers: value semantics, lifetimes and node hand-over',
 'Copy, move, assignment, swap, merge and extract/insert of b-tree containers transfer exactly the elements (and comparator), leaving sources and targets independent and usable; comparisons agree with those of the element sequences. Over any history every element constructed is destroyed exactly once and all memory is returned.',
 ['histories','configurations'], 'every bounded sequence over two or three trees of several levels with address-tracked elements and tracking, propagating and non-propagating allocators',
 'Element moves between nodes happen on many paths; a slot leaked or destroyed twice on one of them is invisible to value checks.',
 [BT], [('slot transfer between nodes', BT+': btree_node'), ('copy/move/swap/merge', BT+': btree, btree_container')])

prop('C15', 'gtl::vector behaves as std::vector',
 'Every sequence of operations on gtl::vector gives the contents, sizes, returned iterators and exceptions of range-checked access that std::vector gives, for trivially copyable and other element types, forward and input iterators, and arguments that refer to its own elements; capacity is never below size, reserve prevents reallocation and growth is geometric.',
 ['histories','inputs'], 'every operation sequence of bounded depth with every position, count and alias, from every size and spare capacity up to a bound',
 'The result depends on position, count, spare capacity, aliasing and element type together; tests cover a few combinations.',
 [VE], [('insert by window or fresh memory', VE+': do_real_insert'), ('relocation', VE+': relocate_move / relocate_done'), ('growth', VE+': emplace_back_aux')])

prop('C16', 'gtl::vector: exact lifetimes and exception safety',
 'Over any history every element of a gtl::vector is constructed and destroyed exactly once and memory is returned with the size it was obtained with, for every allocator kind. If a constructor, assignment or allocation throws at any point, nothing leaks, the vector remains valid, and insertion at the end and reserve leave the contents unchanged.',
 ['fault_sequences','histories','configurations'], 'for every operation, state and position, a fault at each construction, assignment and allocation point, on address-tracked elements with standard and tracking allocators',
 'No test injects faults; rollback code runs only then.',
 [VE], [('rollback guards', VE+': scoped_guard uses'), ('copy or move on relocation', VE+': relocate_use_move')])

prop('C17', 'bit_vector behaves as an array of booleans',
 'Every operation of bit_vector - single-bit and whole changes, bitwise and shift operators, resize with either value, predicates, count, search of set bits, comparison, hash, conversions - gives the result of the same operation on a plain array of booleans, for every size; bits outside the vector never influence a result.',
 ['histories','inputs'], 'every size from 0 to beyond three words, every bit position, shift and pair of pattern operands, every operation sequence of bounded depth',
 'Word-boundary cases are many (size, position, shift modulo 64); tests use a few sizes.',
 [BV], [('word visitor with end mask', BV+': storage::visit_all / visit'), ('masking of the last word', BV+': resize')])

prop('C18', 'bit_view operates on exactly its range of bits',
 'A view over any range of a bit_vector reads and changes exactly the bits of its range as an array of booleans of that length would, and no other bit of the vector. This holds for assignment (from integers, lists and other views, overlapping or not), compound operators between views at any offsets, shifts, predicates, comparison, counting, search and printing.',
 ['inputs','histories'], 'every (first, last) range and every pair of offsets over several words, with patterned contents, for each operation',
 'Views straddle words at 64x64 relative offsets; tests use a handful.',
 [BV], [('range visitor', BV+': storage::visit'), ('shifted bit source', BV+': bit_sequence')])

prop('C19', 'lru_cache is a least-recently-used cache',
 'For any sequence of calls an lru_cache returns for each key the value last inserted and not evicted, counts a lookup as use, does not count an existence test as one, holds at most its maximum number of entries (the maximum divided by the number of shards, per shard, when sharded), and evicts the least recently used entry when an insertion of a new key exceeds the maximum. Clearing empties it, a larger limit takes effect at once, and moving a cache moves all of this.',
 ['histories'], 'every operation sequence of bounded depth for every small capacity, with colliding keys, against a list reference',
 'Recency order errors need several interleaved hits, insertions and evictions of the right keys.',
 ['include/gtl/lru_cache.hpp'], [('recency list plus hash index', 'include/gtl/lru_cache.hpp')])

prop('C20', 'The thread-safe lru_cache is correct under every schedule',
 'Concurrent use of one mutex-protected lru_cache is free of data races and deadlocks under every schedule; every value returned was inserted for that key, and after all calls return the cache is consistent: bounded in size, with each present key found and its recency list and index in agreement.',
 ['schedules'], 'every bounded-preemption interleaving of 2-3 threads doing 1-3 lookups/insertions that hit, miss and evict',
 'Tests of the cache are single-threaded.',
 ['include/gtl/lru_cache.hpp', PH], [('write lock around list reordering', 'include/gtl/lru_cache.hpp: get / insert')])

prop('C21', 'Memoization returns what the function returns, computed once while cached',
 'A memoized function (single-threaded, thread-safe and lru-limited forms, free functions, lambdas and recursive ones where supported) returns for all arguments exactly what the wrapped function returns; it calls the wrapped function only when the result is not cached, never twice for a cached argument; limited forms never hold more results than the limit and drop the least recently used one; contains reports the cached result without computing or inserting, clear forgets everything.',
 ['histories','inputs'], 'every bounded call sequence over few argument tuples for every cache limit and form, with a wrapped function that counts its calls',
 'Tests do not cover memoization; eviction order errors need particular call sequences.',
 ['include/gtl/memoize.hpp'], [('cache keyed by argument tuple', 'include/gtl/memoize.hpp')])

prop('C22', 'Thread-safe memoization is correct under every schedule',
 'Concurrent calls of a thread-safe memoized function (plain and lru-limited) are free of data races and deadlocks under every schedule, always return what the wrapped function returns for their arguments, and leave a consistent cache holding only correct results within its limit.',
 ['schedules'], 'every bounded-preemption interleaving of 2-3 threads calling, querying and clearing one memoized function with equal and different arguments, including recursive calls where supported',
 'No test runs the memoizers concurrently.',
 ['include/gtl/memoize.hpp', PH], [('lookup then insert under submap lock', 'include/gtl/memoize.hpp: mt_memoize, mt_memoize_lru')])

prop('C23', 'intrusive_ptr keeps the count equal to the number of owners',
 'After any sequence of constructions, copies, moves, converting and self assignments, resets, detaches, swaps and casts of intrusive pointers, the reference count of each object equals the number of pointers (and detached references) owning it, the object is destroyed exactly when that number drops to zero and never before, and each pointer refers to the object it was given; copying an object does not copy its count.',
 ['histories'], 'every operation sequence of bounded depth over three pointers (base and derived) and two objects with both counter policies',
 'The repository has no test for it.',
 ['include/gtl/intrusive.hpp'], [('add/release in each special member', 'include/gtl/intrusive.hpp')])

prop('C24', 'Thread-safe reference counting under every schedule',
 'When several threads copy, move, reset and release intrusive pointers with the thread-safe counter to one object, under every schedule the object is destroyed exactly once, after the last release, by exactly one thread, and all accesses made through a pointer happen before the destruction.',
 ['schedules'], 'every interleaving of 2-4 threads with up to 4 pointer operations each, with happens-before tracking of the memory order used',
 'No test; a lost update on the counter or a too weak memory order shows only under rare schedules.',
 ['include/gtl/intrusive.hpp'], [('atomic increment and decrement-and-test', 'include/gtl/intrusive.hpp: thread_safe_counter')])

prop('C25', 'Structure-of-arrays keeps its columns aligned',
 'For any sequence of operations on a soa - adding, resizing, reserving, clearing, copying, assigning rows, sorting by a column with or without a comparison, random access by row, column or view, printing - row i read through any accessor is the tuple of the i-th entries of the columns, rows are permuted as wholes, and sorting yields a stable ordered permutation; a comparison that throws leaves the rows as they were.',
 ['histories','inputs'], 'every content over a small alphabet up to a bounded number of rows and every operation sequence of bounded depth, against a vector of tuples',
 'The repository has no test for it.',
 ['include/gtl/soa.hpp'], [('parallel columns and permutation sort', 'include/gtl/soa.hpp')])

prop('C26', 'Hashing and equality of keys are coherent',
 'Keys that the containers consider equal hash equally under the default hash, across key types usable interchangeably in lookup (string, string view, C string, integers, enums, pointers, smart pointers, pairs, tuples, user hash_value) and across runs of the same build; a lookup by any such interchangeable key finds exactly what a lookup by the key type does; precomputed hashes give the same results as the hashed call.',
 ['inputs','configurations'], 'every pair of keys of small domains per type, every component of pairs and tuples, all short strings over a small alphabet, for every container kind',
 'Tests compare few values per type; incoherence shows as a rare lookup miss.',
 ['include/gtl/phmap_utils.hpp', PH, 'include/gtl/phmap_fwd_decl.hpp'], [('default hash and equality with transparent overloads', PH+': StringHashEq / HashEq; phmap_utils.hpp: Hash, HashState')])

prop('C27', 'Small utilities do what they document on every path',
 'Scope guards run their action exactly once at scope end on every exit path unless dismissed, scoped values restore the old value, change/replace report and return the old state, timestamps order modifications and combine to the latest, vector helpers (slice, cat, map) and the generalized binary search return the documented results for all arguments in their domain.',
 ['inputs','fault_sequences','histories'], 'every exit path (return, exception, dismissal) and argument combination within small bounds',
 'The repository has no test for them.',
 ['include/gtl/utils.hpp','include/gtl/vec_utils.hpp','include/gtl/adv_utils.hpp'], [('guards and helpers', 'include/gtl/utils.hpp')])

prop('C28', 'Concurrent readers and distinct containers never race',
 'Const operations (lookups, traversal, comparison, copying from, hashing, counting) of every container may run concurrently on one object without a data race and with the results of a sequential run, and operations on distinct containers never interfere: no hidden shared mutable state.',
 ['schedules'], 'every interleaving at synchronization points of 2 threads running every pair of const operations on one container, and every pair of mutating operations on two containers, with happens-before race detection over all memory accesses',
 'No test runs readers concurrently under a race detector.',
 [PH, BT, VE, BV, 'include/gtl/soa.hpp'], [('no mutable or static state behind const members', 'all headers')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
