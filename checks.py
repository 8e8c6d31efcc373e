"""Which harnesses decide which property, and how they are built."""
import os
CXX = 'clang++'
BASE = ['-std=c++20', '-w', '-g1', '-pthread', '-D_GLIBCXX_USE_TBB_PAR_BACKEND=0'] # no TBB here: execution policies run serially
KINDS = {
    # default: asserts on, address + undefined behaviour sanitizers
    'asan':   [CXX] + BASE + ['-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr,function'],
    # release build of the library as the tests use it
    'ndebug': [CXX] + BASE + ['-O2', '-DNDEBUG', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr,function'],
    'gcc':    ['g++'] + BASE + ['-O2', '-DNDEBUG'],
    'fast':   [CXX] + BASE + ['-O2'],
}
def compile_cmds(job, here, repo, bdir):
    kind = job.get('kind', 'asan')
    inc = ['-I' + repo + '/include', '-I' + here + '/lib', '-I' + here + '/harness']
    src = os.path.join(here, 'harness', job['src'])
    if kind in ('mc', 'mcnd'): # instrumented for the controlled scheduler lib/mc_rt.cpp, which replaces the ThreadSanitizer runtime
        o, r = job['bin'] + '.o', job['bin'] + '.rt.o'
        return [[CXX] + BASE + ['-O1', '-fno-pie', '-fsanitize=thread'] + (['-DNDEBUG'] if kind == 'mcnd' else []) + inc + list(job.get('flags', [])) + ['-c', src, '-o', o],
                [CXX] + BASE + ['-O2', '-fno-pie'] + inc + ['-c', os.path.join(here, 'lib', 'mc_rt.cpp'), '-o', r],
                [CXX, '-no-pie', '-pthread', o, r, '-o', job['bin']] + ['-Wl,--wrap=' + f for f in ('memcmp', 'malloc', 'free', 'realloc', 'calloc')]]
    return [KINDS[kind] + inc + list(job.get('flags', [])) + [src, '-o', job['bin']] + list(job.get('libs', []))]

CHECKS = {}
def check(pid, technique, bounds, level_note, jobs, assumptions=()):
    CHECKS[pid] = dict(technique=technique, bounds=bounds, level_note=level_note, jobs=jobs, assumptions=list(assumptions))
BIGT = '; fixed long histories (5 orders, 4 ways to erase, copies, moves, refills) at sizes around powers of two up to 66000 elements (thorough: 300000)'
def J(src, *flags, **kw):
    d = dict(src=src, flags=list(flags)); d.update(kw); return d
def big(part, *flags): return J('big.cpp', '-DPART=%d' % part, *flags)

SEQ = 'stateless model checking: exhaustive enumeration of operation sequences on the real code vs a reference model'
TRUST = 'Trusts the compiler, the sanitizer runtimes and the reference written in the harness; says nothing beyond the stated bounds.'

check('C23', SEQ,
      'all operation sequences up to depth 4 (quick) / 5 (thorough) over 3 pointers (base, base, derived), 2 objects, both counter policies',
      'Exhaustive within the bound on the real class under ASan/UBSan. ' + TRUST,
      [J('intrusive.cpp')])


HB = ('all sequences of the whole operation alphabet (about 45 operations x 4 keys) to depth 2 from up to 10 fill levels x 4 erase histories x 7 collision profiles and to depth 3 from the empty container; '
      'all sequences of the core alphabet to depth 4; every fill level up to 300 with 4 erase residues; sliding windows up to 60 live keys; in-place squash of tombstones with every clustered layout of one- and two-hash histories (squash unit). thorough: depths 3 / 5, fill levels to 2300, windows to 130' + BIGT)
check('C01', SEQ, HB, 'Exhaustive within the bound on the real class under ASan/UBSan, debug and release builds, SSE2 and portable probing. ' + TRUST,
      [J('hash_seq.cpp', '-DKIND=1', '-DELEM=1'), J('hash_seq.cpp', '-DKIND=1', '-DELEM=2', '-DLIGHT'),
       J('hash_seq.cpp', '-DKIND=1', '-DELEM=1', '-DLIGHT', '-DGTL_HAVE_SSE2=0', '-DGTL_HAVE_SSSE3=0', kind='ndebug'),
       J('hash_seq.cpp', '-DKIND=1', '-DELEM=4', '-DLIGHT'), J('hash_seq.cpp', '-DKIND=1', '-DELEM=3', '-DLIGHT'), J('hash_seq.cpp', '-DKIND=1', '-DELEM=5', '-DLIGHT')] + [big(1, '-DKIND=1')])
check('C02', SEQ, HB, 'As C01, plus the address of every element compared with the one recorded at insertion. ' + TRUST,
      [J('hash_seq.cpp', '-DKIND=2', '-DELEM=1'), J('hash_seq.cpp', '-DKIND=2', '-DELEM=2', '-DLIGHT'), J('hash_seq.cpp', '-DKIND=2', '-DELEM=3', '-DLIGHT'), J('hash_seq.cpp', '-DKIND=2', '-DELEM=4', '-DLIGHT', kind='ndebug')] + [big(1, '-DKIND=2')])
check('C03', SEQ, HB + '; 1, 2, 4 and 16 submaps; NullMutex, std::mutex, std::shared_mutex; whole visits also with execution policies (run serially)', 'As C01 for the parallel containers and their callback operations. ' + TRUST,
      [J('hash_seq.cpp', '-DKIND=3', '-DELEM=1', '-DNSUB=1'), J('hash_seq.cpp', '-DKIND=3', '-DELEM=2', '-DLIGHT', '-DNSUB=2', '-DMTX=std::mutex'),
       J('hash_seq.cpp', '-DKIND=4', '-DELEM=1', '-DLIGHT', '-DNSUB=4', '-DMTX=std::shared_mutex'), J('hash_seq.cpp', '-DKIND=4', '-DELEM=4', '-DLIGHT', '-DNSUB=0'),
       J('hash_seq.cpp', '-DKIND=3', '-DELEM=3', '-DLIGHT', '-DNSUB=2', '-DMTX=std::shared_mutex')] + [big(1, '-DKIND=3'), big(1, '-DKIND=4')])
check('C09', SEQ, 'the C01 exploration (reduced start states) with plain and address-checked element types - copyable, move-only key, move-only mapped, no default constructor, over-aligned to 64, throwing moves - and an allocator that pairs every block with its size and owner',
      'Exhaustive within the bound; an element knows its own address, so byte copies, double destruction, leaks and reads of dead or moved-from elements are all detected. ' + TRUST,
      [J('hash_seq.cpp', '-DKIND=1', '-DELEM=2', '-DLIGHT', '-DCHKALLOC'), J('hash_seq.cpp', '-DKIND=1', '-DELEM=6', '-DLIGHT', '-DCHKALLOC'), J('hash_seq.cpp', '-DKIND=2', '-DELEM=7', '-DLIGHT', '-DCHKALLOC'), J('hash_seq.cpp', '-DKIND=2', '-DELEM=5', '-DLIGHT', '-DCHKALLOC'),
       J('hash_seq.cpp', '-DKIND=2', '-DELEM=6', '-DLIGHT', '-DCHKALLOC'), J('hash_seq.cpp', '-DKIND=1', '-DELEM=3', '-DLIGHT', '-DCHKALLOC'), J('hash_seq.cpp', '-DKIND=3', '-DELEM=7', '-DLIGHT', '-DCHKALLOC', '-DNSUB=1'), J('hash_seq.cpp', '-DKIND=4', '-DELEM=6', '-DLIGHT', '-DCHKALLOC', '-DNSUB=1'), J('hash_seq.cpp', '-DKIND=2', '-DELEM=1', '-DLIGHT', '-DCHKALLOC'), J('hash_seq.cpp', '-DKIND=4', '-DELEM=1', '-DLIGHT', '-DCHKALLOC', '-DNSUB=1')])
check('C06', SEQ, 'two containers; all sequences of about 30 whole-container and node operations x 2 directions to depth 2 from 64 start pairs, depth 3 from 8, core alphabet depth 4; std::allocator, and checking allocators propagating always, never, on move or on copy only; equal/unequal allocators; thorough: depths 3 / 5 from more starts',
      'Exhaustive within the bound; checks contents, independence, hash/equality/allocator identity, allocator pairing. ' + TRUST,
      [J('hash_two.cpp', '-DKIND=1', '-DELEM=2', '-DSTDAL'), J('hash_two.cpp', '-DKIND=3', '-DELEM=1', '-DSTDAL'), J('hash_two.cpp', '-DKIND=2', '-DELEM=1', '-DSTDAL', tiers=('thorough',)), J('hash_two.cpp', '-DKIND=4', '-DELEM=2', '-DSTDAL', tiers=('thorough',)), J('hash_two.cpp', '-DKIND=1', '-DELEM=2', '-DTR=0'), J('hash_two.cpp', '-DKIND=1', '-DELEM=1', '-DTR=7'), J('hash_two.cpp', '-DKIND=2', '-DELEM=2', '-DTR=7'), J('hash_two.cpp', '-DKIND=2', '-DELEM=1', '-DTR=0', tiers=('thorough',)),
       J('hash_two.cpp', '-DKIND=3', '-DELEM=2', '-DTR=7'), J('hash_two.cpp', '-DKIND=3', '-DELEM=1', '-DTR=0'), J('hash_two.cpp', '-DKIND=4', '-DELEM=2', '-DTR=2'), J('hash_two.cpp', '-DKIND=4', '-DELEM=2', '-DTR=0', '-DNSUB=2', tiers=('thorough',)), J('hash_two.cpp', '-DKIND=1', '-DELEM=2', '-DTR=1'), J('hash_two.cpp', '-DKIND=2', '-DELEM=2', '-DTR=4', tiers=('thorough',))])
check('C07', SEQ, 'every fill level 0..29 (validity), 0..65 (forms of traversal), 11..69 step 3 and 0..10 with every subset of elements erased during the traversal in 6 ways; erase histories and collision profiles as in C01; thorough: all sizes to 139, subsets to 14 elements',
      'Exhaustive within the bound on the real classes under ASan/UBSan. ' + TRUST,
      [J('hash_iter.cpp', '-DKIND=%d' % k, only=['iter-']) for k in (1, 2, 3, 4)] + [J('hash_iter.cpp', '-DKIND=%d' % k, '-DSTDAL', only=['iter-']) for k in (1, 3)])
check('C08', SEQ, 'every fill level 0..33 x 5 erase histories x 3 collision profiles x every reserve(size+0..34), rehash(0..68), bucket-count constructor; alternations with every bound 1..60 of live elements in 4 patterns; thorough: 66 / 120',
      'Exhaustive within the bound; allocations counted by the checking allocator. ' + TRUST,
      [J('hash_iter.cpp', '-DKIND=%d' % k, only=['cap-']) for k in (1, 2, 3, 4)] + [J('hash_iter.cpp', '-DKIND=%d' % k, '-DSTDAL', only=['cap-']) for k in (1, 4)])
FLT = 'fault enumeration: every possible failing point of every operation from every start state within the bound, on the real code (exhaustive crash-point model checking)'
check('C10', FLT, 'every fill level 0..30 (61 thorough) x 5 erase histories x 4 collision profiles x every operation x 3 keys x every throwing point (element construction, copy, assignment, callback, allocation) until the operation completes',
      'Exhaustive within the bound; element moves, hash and equality do not throw. ' + TRUST,
      [J('hash_fault.cpp', '-DKIND=%d' % k) for k in (1, 2, 3, 4)] + [J('hash_fault.cpp', '-DKIND=%d' % k, '-DSTDAL') for k in (1, 2)])
check('C11', 'stateless model checking: exhaustive histories, then every failing byte of the written or read stream, on the real code',
      'every fill level 0..33 x 5 erase histories x 3 further histories x 3 collision profiles x 3 targets x 4 archive kinds (and the older version-less format), followed by every core operation (depth 2 for 3 sizes); a failure at every byte of write and read for 6 sizes; thorough: 0..129, depth 3, 12 sizes' + BIGT,
      'Exhaustive within the bound for 4 element layouts; loading corrupt (not truncated) data is out of scope. ' + TRUST,
      [J('hash_dump.cpp', '-DKIND=1'), J('hash_dump.cpp', '-DKIND=3'), big(7)])

BB = ('every start state of 0..30 elements (3 per node, so up to 4 levels) x 4 insertion orders x 6 erase patterns followed by every operation of an alphabet of about 35 x every present, absent and boundary key; all pairs of operations from 20 start states; core triples; all sequences of 7 insertions/erasures by rank; '
      'fill/drain of every size up to 90 in 16 order combinations; other node sizes (7, 15, 61 per node) at their boundaries. thorough: sizes to 70 and 260 (2500), depth 3 on more starts, ranks to 8' + BIGT)
check('C12', SEQ, BB, 'Exhaustive within the bound on btree_set and btree_map under ASan/UBSan, with internal asserts and verify(). ' + TRUST,
      [J('btree_seq.cpp', '-DCONT=%d' % c, '-DELEM=%d' % e) for c, e in ((1, 2), (2, 2), (1, 6), (2, 1), (2, 3), (1, 4), (2, 4), (2, 5), (1, 5))] + [big(2, '-DKIND=1')])
check('C13', SEQ, BB + '; duplicate keys in pairs, runs of 7 and all equal', 'Exhaustive within the bound on btree_multiset and btree_multimap under ASan/UBSan, with internal asserts and verify(). ' + TRUST,
      [J('btree_seq.cpp', '-DCONT=%d' % c, '-DELEM=%d' % e) for c, e in ((3, 2), (4, 2), (3, 6), (4, 1), (4, 3), (3, 4), (4, 4), (4, 5), (3, 5))] + [big(2, '-DKIND=2')])

check('C14', SEQ, 'two b-tree containers with 3 or 60 values per node; all sequences of about 27 whole-container and node operations x 2 directions to depth 2 from 200 start pairs, depth 3 from 8, core alphabet depth 4; ascending/descending comparators; allocators: none, all, copy-only, move-only propagating; plus every single-container operation from every size 0..30 (C12 alphabet) with tracked elements and a block-checking allocator; thorough: depths 3 / 5 from more starts',
      'Exhaustive within the bound; checks contents, independence, comparator and allocator identity, comparison operators, element and block pairing. ' + TRUST,
      [J('btree_two.cpp', '-DCONT=%d' % c, '-DELEM=%d' % e, '-DTR=%d' % t) for c, e, t in ((1, 2, 0), (2, 2, 7), (2, 2, 2), (3, 2, 1), (4, 2, 0), (4, 1, 7), (1, 1, 2))] +
      [J('btree_two.cpp', '-DCONT=%d' % c, '-DELEM=%d' % e, '-DTR=%d' % t, tiers=('thorough',)) for c, e, t in ((1, 2, 7), (3, 2, 6), (4, 2, 3), (2, 1, 4))] +
      [J('btree_seq.cpp', '-DCONT=2', '-DELEM=2', '-DCHKALLOC', only=['all1', 'core3']), J('btree_seq.cpp', '-DCONT=3', '-DELEM=6', '-DCHKALLOC', only=['all1'], tiers=('thorough',)), J('btree_seq.cpp', '-DCONT=3', '-DELEM=5', '-DCHKALLOC', only=['all', 'family'])])

check('C15', SEQ, 'every size 0..9 x spare capacity 0..5 x every one of 36 operations with every position, every count (0..5 or to beyond capacity), fresh values and values that are own elements; all pairs of operations from 6 start states; growth to 3000 elements in 5 ways from 4 starts; 8 element types; thorough: sizes to 16, pairs from 24 and triples from 6 starts' + BIGT,
      'Exhaustive within the bound on the real class under ASan/UBSan. ' + TRUST,
      [J('vec_seq.cpp', '-DELEM=%d' % e, '-DAL=%d' % a) for e, a in ((1, 0), (2, 0), (3, 0), (4, 0), (5, 0), (6, 0), (7, 0), (8, 0), (1, 1), (3, 2))] + [J('vec_seq.cpp', '-DELEM=1', '-DAL=0', kind='ndebug'), J('vec_seq.cpp', '-DELEM=2', '-DAL=0', kind='ndebug')] + [big(3)])
check('C16', FLT, 'every size 0..9 x spare capacity 0..5 x every operation and parameter x every failing construction, copy, move, assignment or allocation until the operation completes; and the C15 exploration with tracked elements and block-checking allocators of 3 propagation kinds; thorough: sizes to 14',
      'Exhaustive within the bound; elements know their address, blocks are paired with size and owner. ' + TRUST,
      [J('vec_fault.cpp', '-DELEM=%d' % e, '-DAL=%d' % a) for e, a in ((4, 0), (4, 1), (5, 0), (5, 1), (5, 2), (6, 0), (6, 1), (6, 2))] +
      [J('vec_seq.cpp', '-DELEM=%d' % e, '-DAL=%d' % a) for e, a in ((4, 1), (4, 2), (4, 3), (5, 1), (6, 2), (7, 1))])

check('C17', SEQ, 'all contents of all sizes 0..9 (pairs of contents for binary operations); every single set bit and single hole of all sizes to 300; all sizes to 140 and 21 boundary sizes x 8 patterns x 34 operations with every parameter (bit, shift, new size, operand pattern); all pairs of operations from 12 starts; thorough: sizes to 11 / 700 / 200, triples' + BIGT,
      'Exhaustive within the bound on the real class under ASan/UBSan; larger contents are covered by patterns and by the single-bit basis, not by all 2^n contents. ' + TRUST,
      [J('bits.cpp', only=['v-']), J('bits.cpp', kind='ndebug', only=['v-op1', 'v-op2'])] + [big(4)])
check('C18', SEQ, 'every range [first,last) of vectors of 1, 3, 64, 70, 130, 192 bits x 3 patterns x every single-view operation (shifts: every amount to 130 bits, boundary amounts above); every pair of equal-length ranges of the same and of different vectors (5, 70, 134 bits) x 7 operators and predicates; one differing bit at every place; sequences of 3; thorough: all pairs of 200 bits, all shifts of 260',
      'Exhaustive within the bound on the real class under ASan/UBSan; contents are patterns and single-bit bases. Overlapping operands of compound operators other than assignment are excluded. ' + TRUST,
      [J('bits.cpp', only=['w-']), J('bits.cpp', kind='ndebug', only=['w-one', 'w-seq'])])

check('C19', SEQ, 'all sequences of 5 core operations (insert, get, exists, clear) over 4 keys for a cache of 3; all sequences of 3 operations of the whole alphabet (11 operations incl. resizing, moves, three ways to insert) from 5 to 9 fill levels for caches of 3 and 4; 1, 2, 4 and 64 shards; int and string keys, all keys colliding; every history ends with reading all values and filling up with new keys to observe the eviction order; thorough: depths 6 / 4' + BIGT,
      'Exhaustive within the bound on the real class under ASan/UBSan, including leak accounting. ' + TRUST,
      [J('lru_memo.cpp', '-DPART=1'), J('lru_memo.cpp', '-DPART=1', kind='ndebug', only=['lru-int', 'lru-all'])] + [big(6)])
check('C21', SEQ, 'all sequences of 3 or 4 operations (call, contains, clear, reserve, call of a throwing function, move, copy or resize) over 3 to 8 arguments for 10 forms of memoize, mt_memoize, memoize_lru, mt_memoize_lru with function pointers and lambdas, by-value and by-reference arguments; 400 distinct arguments in 3 orders; recursive functions to depth 70; thorough: depths 4 / 5' + BIGT,
      'Exhaustive within the bound on the real classes under ASan/UBSan; the wrapped function counts its calls per argument. ' + TRUST,
      [J('lru_memo.cpp', '-DPART=%d' % p) for p in (2, 3, 4)] + [big(6, '-DMEMO')])

check('C25', SEQ, 'every assignment of 3 key values to up to 6 rows x 7 sort orders x 3 second sorts; every permutation of 7 rows; every size to 140 x 4 patterns x interleaved other sizes x 4 sorts; all sequences of 3 operations of an alphabet of 18 from 5 sizes; tracked elements through every sort of 7 rows; thorough: 8 rows, 9! permutations, sizes to 400, depth 4' + BIGT,
      'Exhaustive within the bound on the real class under ASan/UBSan; 4 columns of different types, each row carrying its own identity. ' + TRUST,
      [J('soa_util.cpp', only=['soa-']), J('soa_util.cpp', kind='ndebug', only=['soa-values', 'soa-sizes'])] + [big(5)])
check('C27', SEQ, 'guards: every combination of kind, enabling, dismissal and way of leaving the scope; nested value guards and change/replace on all triples of values; all sequences of 3 timestamp operations on 3 stamps; binary search: every range and threshold within small spans of 5 integer types (incl. at their limits), all triples of 15 boundary values of 6 types, 17 doubles of both signs; slices: every first, last, stride for up to 8 elements; cat/map of all sizes to 4; thorough: larger spans, depth 4',
      'Exhaustive within the bound on the real templates under ASan/UBSan. ' + TRUST,
      [J('soa_util.cpp', only=['util-']), J('soa_util.cpp', kind='ndebug', only=['util-'])])

MC = 'stateless model checking of the real code under a controlled scheduler: all schedules within the preemption bound, vector-clock race detection on every memory access, brute-force linearizability check'
MCNOTE = ' The code runs on fibers under lib/mc_rt.cpp, which replaces locks, atomics and the allocator; switches happen at lock and atomic operations, which suffices because every conflicting pair of plain accesses is checked for happens-before. Stale reads of relaxed atomics are not modelled. ' + TRUST
S_ = '-DMTX=std::shared_mutex'
def par(only): return [J('conc_par.cpp', '-DKIND=1', kind='mc', only=only), J('conc_par.cpp', '-DKIND=1', S_, kind='mc', only=only), J('conc_par.cpp', '-DKIND=2', S_, '-DLIGHT', kind='mcnd', only=only),
    J('conc_par.cpp', '-DKIND=3', S_, '-DLIGHT', kind='mc', only=only), J('conc_par.cpp', '-DKIND=4', '-DLIGHT', kind='mcnd', only=only), J('conc_par.cpp', '-DKIND=1', '-DNSUB=0', S_, '-DLIGHT', kind='mc', only=only), J('conc_par.cpp', '-DKIND=3', '-DNSUB=2', '-DLIGHT', kind='mc', only=only)]
check('C04', MC, '2 threads x 1 operation: all pairs of 28 single-key operations, 3 keys, 6 start states (incl. at the growth limit), all schedules; 2 x 2 and 3 x 1 with 8 core operations; 3 x 2 with 3; std::mutex and std::shared_mutex; flat/node maps and sets; 1, 2, 4 submaps; thorough: unbounded preemptions, whole alphabet 2 x 2, 2 x 3, 3 x 2',
      'Exhaustive within the bound.' + MCNOTE, par(['key-']))
check('C05', MC, '2 threads x 1 operation: all pairs of 24 whole-container and single-key operations in both directions between two containers, 4 start states; 3 x 1, 2 x 2 and 4 x 1 with core operations; with and without waiting writers blocking readers; thorough: deeper preemption bounds',
      'Exhaustive within the bound; outcome checked to be explained by one order of the operations per submap.' + MCNOTE, par(['whole-']))

check('C20', MC, 'caches of 3 entries with std::mutex and std::shared_mutex, 1 and 2 shards, and all keys colliding; 2 threads x 1 operation: all pairs of 6 operations x 5 keys from 4 fill levels, all schedules; 2 x 2, 3 x 1, 2 x 3 with core operations; then every entry is read, or evicted by new ones; thorough: unbounded preemptions, 3 x 2',
      'Exhaustive within the bound; results and the final cache (keys, values, recency order) must be explained by one order of the calls.' + MCNOTE, [J('conc_misc.cpp', '-DPART=1', kind='mc')])
check('C22', MC, 'mt_memoize with evaluation under the lock and outside it, mt_memoize_lru of 4; std::mutex and std::shared_mutex; a function that may throw and is preempted while it runs; 2 threads x 1: all pairs of 4 operations x 5 arguments from 3 fill levels, all schedules; 2 x 2, 3 x 1, 2 x 3 core; recursive fib to 4 in both threads; thorough: unbounded preemptions, 3 x 2',
      'Exhaustive within the bound; results, evaluation counts and the final cache must be explained by one order of the calls.' + MCNOTE, [J('conc_misc.cpp', '-DPART=2', kind='mc')])
check('C24', MC, '1 or 2 objects, each thread with its own pointers to them; 2 threads x 2 operations of 12 (all schedules with up to 4 preemptions), 2 x 3, 3 x 1, 3 x 2, 4 x 1 with core operations; passing through a locked box; thorough: unbounded 2 x 2, 2 x 4',
      'Exhaustive within the bound; every use through a pointer is a plain access that must happen before the writes of the destructor, with the memory orders of the counter taken into account.' + MCNOTE, [J('conc_misc.cpp', '-DPART=3', kind='mc'), J('conc_misc.cpp', '-DPART=3', kind='mcnd', only=['2x1', '2x3'])])

check('C26', SEQ, '27 key types (strings of 4 character/view kinds, integers of 5 widths, floating point, pairs, tuples, nested, enums, user types, bit vectors of different histories, raw/shared/unique/intrusive pointers) x every value of a list of 3 to 256 (all strings to length 3 over 4 characters, all 8-bit values, both zeros in every component) x every interchangeable form (2 to 6) x 5 contents x every lookup and one of 16 mutations, for all 8 container kinds (string keys) or a flat and a parallel node map (others); btree string containers likewise; the hashes of a second process of the same build compared; thorough: all types with all 8 kinds, release build too, mutations with every other content',
      'Exhaustive within the lists on the real classes under ASan/UBSan; equality classes are written down independently of the library. ' + TRUST,
      [J('hash_eq.cpp', '-DFAMG=%d' % g, '-O0', tiers=('quick',)) for g in (1, 8, 5, 7, 6, 4, 3, 2, 9)] + [J('hash_eq.cpp', '-DFAMG=%d' % g, '-DMORE', tiers=('thorough',)) for g in range(1, 10)] + [J('hash_eq.cpp', '-DFAMG=%d' % g, '-DMORE', kind='ndebug', tiers=('thorough',)) for g in range(1, 10)])
check('C28', MC, 'every pair of const operations (up to 15 per container: lookups, traversals, copies, comparisons, hashing, dumping) of two threads on one object, and every pair of modifying operations (up to 13) of two threads on two objects made before, by the threads, or copied from a shared one; 4 sizes each; flat/node/parallel hash containers with no, plain and shared mutexes, b-trees, vector, bit_vector and views, soa, lru_cache, memoize, helpers; thorough: pairs of sequences of 2, 3 readers',
      'Exhaustive within the bound; a race is reported whatever the schedule, because every access is compared with vector clocks; results compared with a sequential run.' + MCNOTE, [J('conc_read.cpp', '-DPART=%d' % p, kind='mc') for p in (3, 1, 2, 4)])
