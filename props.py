"""property id -> specifications (contracts) and bounded harnesses that decide it"""
TRUSTED = [
    'clang 18 front end and the LLVM passes lowerinvoke, sroa, simplifycfg, early-cse, loop-simplify (source to IR)',
    'the obligation generator engine/vc.py and the IR reader engine/ir.py',
    'z3 (python bindings) and cvc5',
    'exceptional exits (throw) are not followed: a path that throws has no postcondition',
    'one thread: no contract speaks about concurrent access',
]
AB = 'REPO/src/AssertBoost.cpp'
PROPS = {
    'P01': dict(
        specs=[('deque', '')],
        harness=[dict(src=['replay/deque.cpp', AB], seconds=6, shards=2)],
        bounded='operation sequences up to 60 steps, capacities 2..20, against std::vector with element lifetimes tracked; the only Deque member without a contract of its own is push_back(vector)',
        note='proof over all inputs of every function under contract; z3/cvc5, clang and the obligation generator are trusted; exceptions thrown by element constructors are not followed; sizes below 2^40',
    ),
    'P02': dict(
        specs=[('pq', '')],
        harness=[dict(src=['replay/pq.cpp', AB], seconds=6, shards=2)],
        bounded='operation sequences up to 90 steps against a multiset; strict and non-strict comparators, ties, 2 kB elements',
        note='proof over all inputs of every function under contract; z3/cvc5, clang and the obligation generator are trusted; comparator assumed to be a weak order; sizes below 2^30',
    ),
    'P03': dict(
        specs=[('hash', ''), ('maps', '^Hash(Map|Unique)')],
        harness=[dict(src=['replay/hash.cpp', AB, 'REPO/src/HashTable.cpp', 'REPO/src/Stats.cpp', 'REPO/src/HashFns.cpp', 'REPO/src/Double.cpp'], seconds=8, shards=3)],
        bounded='operation sequences on HashTable, HashMap and HashUnique against ordered maps; six hash functions from constant to injective',
        note='proof over all inputs of every HashTable member under contract, for an arbitrary equivalence relation and an arbitrary consistent hash, and of every HashMap and HashUnique member over those contracts (the key given may be one stored in the table); std::vector operations are contracts; z3/cvc5, clang and the obligation generator are trusted; fewer than 2^31-2 entries',
    ),
    'P04': dict(
        specs=[('hashfns', '')],
        harness=[dict(src=['replay/hashfns.cpp', AB, 'REPO/src/HashFns.cpp'], seconds=3, shards=2)],
        bounded='reference implementation on exactly sized buffers at every alignment, lengths to 3000; SharedPointerHash and PointerEqual are covered here only',
        note='proof in bit-vector arithmetic for every key: lengths below 2^47; strlen and std::string accessors by contract; z3/cvc5, clang and the obligation generator are trusted',
    ),
    'P05': dict(
        specs=[('maps', 'Rotating')],
        harness=[dict(src=['replay/rotating.cpp', AB] + ['REPO/src/%s.cpp' % n for n in ('HashTable', 'Stats', 'HashFns', 'Double')], seconds=6, shards=2)],
        bounded='operation sequences on RotatingHashMap with owning keys and values against two ordered maps, four hash functions',
        note='proof over all inputs of every RotatingHashMap member except memoryUsage, for an arbitrary key equivalence, over the contracts of HashMap and of the HashTable iterators (proved under P03); the user function is opaque (it may change the value, not the maps); boost::function calls and copies by contract; fewer than 2^31-2 entries; z3/cvc5, clang and the obligation generator are trusted',
    ),
    'P06': dict(
        specs=[('bytebuffer', '')],
        harness=[dict(src=['replay/bytebuffer.cpp', AB], seconds=8, shards=3)],
        bounded='operation sequences on four buffers that share storage, against strings; stream insertion (operator<<) is not covered',
        note='proof over all inputs of every member of NoCopyByteBuffer and ByteBuffer; boost::shared_ptr, std::string and std::istream by contract; debug log statements compiled out (DISABLE_DEBUG_LINTELLOG); z3/cvc5, clang and the obligation generator are trusted; sizes below 2^44',
    ),
    'P07': dict(
        specs=[('bmh', '')],
        harness=[dict(src=['replay/bmh.cpp', AB, 'REPO/src/BoyerMooreHorspool.cpp'], seconds=6, shards=2)],
        bounded='random needles and haystacks over small and full alphabets against std::string::find',
        note='proof over all inputs of both constructors, the destructor, find and matches; std::string and operator new by contract; z3/cvc5, clang and the obligation generator are trusted; sizes below 2^45; that find ends is proved only through the shift being at least 1',
    ),
    'P08': dict(
        specs=[('base64', '')],
        harness=[dict(src=['replay/base64.cpp', AB], seconds=5, shards=2)],
        bounded='random byte strings up to 300 bytes against a bit-by-bit encoder, on exactly sized buffers',
        note='proof over all inputs of every function of ASCIIbeticalB64; round trip and order are lemmas over the contracts; std::string by contract; the alphabet array is taken to keep its initial value (it is handed out as const only); data below 2^30 bytes; z3/cvc5, clang and the obligation generator are trusted; two threads making the inverse table at once are not covered',
    ),
    'P09': dict(
        specs=[('strutil', '')],
        harness=[dict(src=['replay/strutil.cpp', AB, 'REPO/src/StringUtil.cpp'], seconds=8, shards=2)],
        bounded='random texts up to 300 bytes for every function; ipv4tostring, stringtoipv4, stringToInteger in base 8, 10 and 16, string2wstring and wstring2string are decided only by this bounded check',
        note='proof over all inputs of mysqlEscape, hexstring, maybehexstring, hex2raw, unpackhex, ishexstring, maybehex2raw, escapeUnprintable, htmlEscapeUnprintable, toCSVform, split, join, prefixequal, suffixequal, downcaseString, upcaseString, stringIsBlank, stringIsSpace and stringToDouble; reversibility and join of split are lemmas over the contracts; std::string, std::vector, ctype ("C" locale) and strtod by contract; texts below 2^31 bytes; stringError and getHostFQDN are not covered; z3/cvc5, clang and the obligation generator are trusted',
    ),
    'P10': dict(
        specs=[('clock', '')],
        harness=[dict(src=['replay/clock.cpp'] + ['REPO/src/%s.cpp' % n for n in ('Clock', 'AssertBoost', 'AssertException', 'LintelLog', 'MersenneTwisterRandom',
                      'PThread', 'SimpleMutex', 'Stats', 'Double', 'StringUtil', 'HashFns', 'HashTable')], seconds=8, shards=2)],
        bounded='every microsecond, random nanoseconds, Tfracs, seconds (including NaN, infinities, rounding boundaries) and offsets; a clock with random rate and interval',
        note='proof over all inputs of every conversion and of todTfrac, setRecalibrateIntervalSeconds, todccTfrac_incremental (two consecutive readings) and todccTfrac_recalibrate; double arithmetic by the IEEE 754 rounding facts (exact where representable), finite values (NaN and infinities bounded only); cycle counter below 2^63, clock rate at least 1 MHz and below 2^40; gettimeofday, logging and Stats by contract; calibrateClock, initialMeasurements and estimateTodTfracLatency (timing measurements) are not covered; z3/cvc5, clang and the obligation generator are trusted',
    ),
    'P11': dict(
        specs=[('stats', '')],
        harness=[dict(src=['replay/stats.cpp'] + ['REPO/src/%s.cpp' % n for n in ('Stats', 'StatsSequence', 'StatsSeries', 'StatsEMA', 'AssertBoost', 'AssertException', 'Double')], seconds=8, shards=2)],
        bounded='sequences of add, merge and reset against the list of the values; StatsEMA, printed text, autocorrelation and iscorrelated95 only here',
        note='proof over all inputs of Stats (IEEE 754 rounding facts), StatsSequence::add for the three ways to merge and StatsSeries add, reset, autocovariance (doubles as real numbers: rounding ignored there); finite values below 2^500, counts below 2^53, buckets of fewer than 2^30 values, max_retain below 2^31, fewer than 2^32-1 samples in a series; StatsEMA is bounded only; std::vector and sqrt by contract; z3/cvc5, clang and the obligation generator are trusted',
    ),
    'P12': dict(
        specs=[('tuples', '')],
        harness=[dict(src=['replay/tuples.cpp'] + ['REPO/src/%s.cpp' % n for n in ('Stats', 'AssertBoost', 'AssertException', 'Double', 'HashFns', 'HashTable')], seconds=5, shards=2)],
        bounded='random tuples of 1, 2, 3, 5 and 9 elements of four types, as BitsetAnyTuple and as any-tuple, also as keys of HashMap and map, against vectors of optional values; printing only here',
        note='proof over all inputs of every function of Tuples.hpp except printing: the recursive ones as one step over an opaque element and an opaque rest, plus the whole recursion inlined for three elements with std::bitset; elements by contract (one rank decides == < >, the hash depends on it); BobJenkinsHashMix3 is an uninterpreted function here (its value is P04); boost::tuple comparison of any-tuples is trusted; z3/cvc5, clang and the obligation generator are trusted',
    ),
    'P13': dict(
        specs=[('quantile', '')],
        harness=[dict(src=['replay/quantile.cpp'] + ['REPO/src/%s.cpp' % n for n in ('StatsQuantile', 'Stats', 'AssertBoost', 'AssertException', 'LintelLog', 'Double', 'HashFns', 'HashTable', 'StringUtil', 'PThread', 'SimpleMutex', 'MersenneTwisterRandom')], seconds=14, shards=3)],
        bounded='random histories of add, merge, reset and query against the sorted values, for many errors, bounds, numbers and sizes of buffers; that the chosen number and size of buffers keep the promised error, getQuantile, its binary search, merging and the constructors are decided only by this bounded check',
        note='proof over all inputs of collapse and its three helpers, addQuantile, add, init_buffers, reset and the destructor: data-structure invariant, ranks exact without a collapse, moved by at most half the collapsed weight with one; values are numbers (no NaN), doubles are only compared; std::sort, operator new and PriorityQueue (P02) by contract; fewer than 2^31 collapses, total weight below 2^60; z3/cvc5, clang and the obligation generator are trusted',
    ),
    'P14': dict(
        specs=[('cube', '')],
        harness=[dict(src=['replay/cube.cpp'] + ['REPO/src/%s.cpp' % n for n in ('AssertBoost', 'AssertException', 'LintelLog', 'MersenneTwisterRandom', 'PThread', 'SimpleMutex', 'Stats', 'Double', 'StringUtil', 'HashFns', 'HashTable')], seconds=10, shards=2)],
        bounded='random histories of add, cube, prune, walk and clear over keys of three positions against maps of lists of values; walkOrdered and the binding of the cube and zero functions are decided only by this bounded check',
        note='proof over all inputs of cubeAddOne, addToCube, getCubeEntry, getHashEntry, operator[], add, walk, clear, the destructors, zeroWalk, walkZeros, fillHashUniqueTuple, hashUniqueTupleAdd and prune, for keys of three positions (the recursion over positions by contract); HashMap and HashUnique (P03), Stats (P11), boost::function and std::bitset by contract; the cube function decides by the flag and the any positions; callers keep the tables unchanged during a walk; z3/cvc5, clang and the obligation generator are trusted',
    ),
    'P15': dict(
        specs=[('mtrand', '')],
        harness=[dict(src=['replay/mtrand.cpp'] + ['REPO/src/%s.cpp' % n for n in ('AssertBoost', 'AssertException', 'LintelLog', 'MersenneTwisterRandom', 'PThread', 'SimpleMutex', 'Stats', 'Double', 'StringUtil', 'HashFns', 'HashTable')], seconds=10, shards=2)],
        bounded='random histories of draws and reseeding against std::mt19937 and transcriptions of the published recurrences; seed arrays of lengths other than 0, 1, 2, 3, 622, 623, 624, 625 and 1300 are decided only by this bounded check',
        note='proof over all seeds, states and inputs of MersenneTwisterInternal init, reloadArray, randInt and the constructors, of initArray for the lengths 0, 1, 2, 3, 622 to 625 and 1300 (all contents), of every member of RandomTempl, of MarsagliaInner of all ten published sizes (all members), MicroRandInner, and of MT_random_shuffle over vectors of int; loops over the fixed arrays of words are run through completely, word by word; doubles as reals with a relative rounding error of at most 2^-53 per operation (exact where the result is representable); BobJenkinsHashMix3 (P04) uninterpreted; gettimeofday, getpid, getppid and std::vector by contract; the seed chosen for seed 0 is not specified; z3/cvc5, clang and the obligation generator are trusted',
    ),
    'P16': dict(
        specs=[('histogram', '')],
        harness=[dict(src=['replay/histogram.cpp'] + ['REPO/src/%s.cpp' % n for n in ('AssertBoost', 'AssertException', 'LintelLog', 'MersenneTwisterRandom', 'PThread', 'SimpleMutex', 'Stats', 'Double', 'StringUtil', 'HashFns', 'HashTable', 'StatsHistogram')], seconds=10, shards=2)],
        bounded='random histories of all kinds of histograms and groups (fixed, scaling, growing; resets in between) against a model that keeps every value; percentile(), the edges of Log histograms, StatsHistogramGroup construction and the printed forms are decided only by this bounded check',
        note='proof for all ranges, numbers of bins up to 2^29 and values of the constructors, reset, sampleBin, add (fixed, scaling and growing), operator[], value and mode of StatsHistogramUniform, Log, UniformAccum and LogAccum, and of StatsHistogramGroup add and reset; scaling by a ghost edge and prefix sums of the counts (modulo 2^64) carried through every doubling, with the defining facts of prefix sums as lemmas; arithmetic over the reals (sampleBin of Uniform also with rounding: always a bin), products of edges and widths opaque with the linear facts stated as lemmas; exp and log uninterpreted; Stats by its contracts (P11); termination of the doubling loops is not proved; z3/cvc5, clang and the obligation generator are trusted',
    ),
    'P17': dict(
        specs=[('conststring', '')],
        harness=[dict(src=['replay/conststring.cpp'] + ['REPO/src/%s.cpp' % n for n in ('AssertBoost', 'AssertException', 'LintelLog', 'MersenneTwisterRandom', 'PThread', 'SimpleMutex', 'Stats', 'Double', 'StringUtil', 'HashFns', 'HashTable', 'ConstantString')], seconds=8, shards=2)],
        bounded='random histories of constant strings with null bytes, prefixes of each other, around the longest length and filling several buffers, against a set of std::strings; dumpInfo() is decided only by this bounded check',
        note='proof for all byte strings and all states of the pool of init (first use, any number of buffers, source bytes anywhere outside or inside the pool), the constructors, assignment, observers, comparisons, operators and hash functors; the table of strings by the contracts of HashTable (P03), std::vector, std::string, memcmp and strcmp by their specifications; the recursion of init is followed once and proved not to go deeper; z3/cvc5, clang and the obligation generator are trusted',
    ),
    'P18': dict(
        specs=[('interp', '')],
        harness=[dict(src=['replay/interp.cpp', 'REPO/src/AssertBoost.cpp', 'REPO/src/AssertException.cpp'], seconds=8, shards=2)],
        bounded='random ordered sequences of eight integer types (extreme, dense, skewed, with duplicates) against std::lower_bound, also with estimators that estimate anything within their contract and with other numbers of steps; iterators other than pointers and records with an order of their own are decided only by this bounded check',
        note='proof for all sequences of int64_t, uint64_t, int32_t, uint32_t, int8_t and uint16_t up to 2^45 values of the public function, and for int64_t of the search with any estimator (2 and 4 steps; single steps); partitioning by the value searched for as a ghost position; EstimateOffset for the same types and positions below 2^53, with doubles as reals rounded to nearest; std::lower_bound by its specification; termination is not proved (an endless search shows in the bounded check); z3/cvc5, clang and the obligation generator are trusted',
    ),
    'P19': dict(
        specs=[('atomic', '')],
        harness=[dict(src=['replay/atomic.cpp'], seconds=10, shards=2, libs=['-lpthread'])],
        bounded='random operations of eight integer types alone against a model, and four threads at a time whose amounts must add up, whose bits must stay, whose exchanged values must come out once; store followed by load of another flag by two threads',
        note='proof for Atomic<T> of int, uint32_t, int64_t, uint64_t, uint16_t and int8_t, all members, and the unsafe:: functions for five pairs of types: rely on arbitrary changes by other threads before every access; the inline assembly (x86, the variant that is compiled) is interpreted from its template and constraints (mov, xchg, xadd, cmpxchg, setz, mfence; lock prefix); a full barrier and a compiler barrier as ghost flags; sums modulo 2^w (overflow of signed types, undefined in C++, is not looked at); that the counter is aligned and that the loops of or, and, xor end is not proved; the std::atomic and __sync variants of the header are not compiled and not covered; z3/cvc5, clang and the obligation generator are trusted',
    ),
    'P20': dict(
        specs=[('locks', '')],
        harness=[dict(src=['replay/locks.cpp', AB, 'REPO/src/PThread.cpp', 'REPO/src/SimpleMutex.cpp', 'REPO/src/StringUtil.cpp'], seconds=12, shards=2, libs=['-lboost_thread', '-lboost_system', '-lpthread'])],
        bounded='random nestings of scoped locks and unlocks of three mutexes, with and without levels, some found taken, some left by an exception; mutex operations with errors put in; waits from random times of day; threads started, joined and refused; four threads at a time that exclude each other or wait for each other; a start that is refused (an assertion mapped to an exception) leaves the signals of the caller as they were',
        note='proof for PThreadMutex, SimpleMutex, PThreadScopedLock and -Unlock (with and without ordering group, nested), PThreadAutoLocker, LockOrderingGroup, PThreadCond, PThread and PThreadNoSignals: what happens between is unknown code that leaves the locks and the level of the thread as it found them; the pthread functions, clock_gettime, pthread_sigmask and boost::thread_specific_ptr are known by their specification (each call may fail, pthread_mutex_init without attributes does not, with glibc); that a mutex that is held excludes other threads is the specification of pthread, not proved; levels and seconds are real numbers (no NaN), the product with 1e9 is within its rounding; regions that are left by an exception, PThreadFunction, PThreadMisc and debugInfo are not under contract; z3/cvc5, clang and the obligation generator are trusted',
    ),
}
NOT_APPLICABLE = {}
