#!/usr/bin/env python3
"""the properties, kept here in readable form; writes properties.jsonl"""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))


prop('P01', 'Deque is a faithful double-ended sequence and owns its elements exactly once',
     'After any sequence of operations a double-ended queue holds exactly the values pushed and not yet popped, in order, whatever its storage layout: indexing, front, back, size, iteration and iterator arithmetic and comparison all agree with that sequence. '
     'Every element constructed in it is destroyed exactly once, none is read after destruction, and no storage is lost. '
     'Pushing a value that is itself stored in the queue behaves as pushing a copy of it.',
     ['inputs', 'histories'], 'all element types with ordinary copy and destroy behaviour, all capacities, all positions of the wrap-around point, all operation sequences, all iterator positions and offsets',
     'The test pushes and pops a few thousand integers; it has no element type with observable lifetime, few wrapped states, and cannot enumerate all capacities and wrap positions.',
     ['include/Lintel/Deque.hpp'],
     [('circular buffer with one spare slot', 'include/Lintel/Deque.hpp push_back/push_expand'), ('index wrap-around', 'include/Lintel/Deque.hpp at, iterator'), ('segment-wise destruction', 'include/Lintel/Deque.hpp clear/destroy_elements')],
     [('q_front/q_back/q_size', 'ends and capacity of the circular buffer', 'include/Lintel/Deque.hpp')], ['Deque public members', 'element constructor/destructor counts'])
prop('P02', 'PriorityQueue always yields a most important element and loses none',
     'After any sequence of pushes, pops and replacements a priority queue contains exactly the elements pushed and not removed, and its top is at least as important as every other element. '
     'Popping or replacing the top removes that element only, growth of the storage changes nothing, and the self check never fails on a queue manipulated through its interface.',
     ['inputs', 'histories'], 'all element values, all weak orders given by the comparator (ties included), all sizes up to 2^30, all operation sequences',
     'The tests pop a few random workloads with distinct or few tied values at few sizes; the heap shapes and tie patterns are unbounded.',
     ['include/Lintel/PriorityQueue.hpp'],
     [('sift down', 'include/Lintel/PriorityQueue.hpp pop/replaceTop'), ('bottom-up deletion', 'include/Lintel/PriorityQueue.hpp pop_bottom_up_heuristic'), ('sift up and doubling', 'include/Lintel/PriorityQueue.hpp push/double_size')],
     [('pq/pq_size/size_available', 'implicit binary heap', 'include/Lintel/PriorityQueue.hpp')], ['top()', 'size()', 'order of pops'])
prop('P03', 'Hash containers behave as finite maps and sets over the key equality',
     'A hash table, hash map or hash set returns for every key exactly what was last stored under it and not removed: lookup, existence, insertion, replacement, removal, erasure and size agree with a finite map (or multiset, where duplicates are explicitly allowed), for every hash function consistent with equality. '
     'Growing, reusing freed entries, copying, reserving and clearing never lose, duplicate or alter an entry. '
     'Iteration visits every entry exactly once and ends.',
     ['inputs', 'histories'], 'all key and value types, all equality relations with consistent hash functions (colliding ones included), all operation sequences, all load factors',
     'Tests use integer and string keys with a good hash, so collision chains are short and freed entries are rarely reused in the middle of chains.',
     ['include/Lintel/HashTable.hpp', 'include/Lintel/HashMap.hpp', 'include/Lintel/HashUnique.hpp', 'src/HashTable.cpp'],
     [('chains of entries in a vector, linked by index', 'include/Lintel/HashTable.hpp'), ('free list of removed entries', 'include/Lintel/HashTable.hpp remove/erase/internalAdd'), ('rehash on growth', 'include/Lintel/HashTable.hpp resizeHashTable')],
     [('chains, entry_points', 'entries and bucket heads', 'include/Lintel/HashTable.hpp'), ('free_list, free_list_size', 'removed entries', 'include/Lintel/HashTable.hpp')], ['lookup', 'size', 'iteration'])
prop('P04', 'Hash functions depend on the key value only and equal the published function',
     'The hash of a byte string is the published Bob Jenkins function of its bytes, its length and the previous hash, for every length and alignment, and reads no byte outside the key. '
     'Equal keys hash equally however they are held: C strings and C++ strings with the same characters, signed and unsigned integers of one width with the same bits; '
     'pair, pointer and user-defined hashes are functions of exactly the key value.',
     ['inputs'], 'all byte contents, lengths, alignments and previous hash values; all integral widths',
     'Tests compare a few sample values; a wrong shift for one tail length or a read past the key shows on a few of infinitely many keys.',
     ['src/HashFns.cpp', 'include/Lintel/HashFns.hpp'],
     [('blocks of twelve bytes and the tail switch', 'src/HashFns.cpp bobJenkinsHash'), ('dispatch by type', 'include/Lintel/HashFns.hpp Hash<T>')],
     [('a, b, c', 'mixing state', 'src/HashFns.cpp')], ['return values'])
prop('P05', 'RotatingHashMap holds exactly the entries used since the rotation before last',
     'Every key is in the recent table, the old table or neither, never both. operator[], lookup and exists find an entry in either table with its value, and afterwards it is a recent one (operator[] adds a default value for a new key); existsNoPromote, exists_recent, exists_old, size, empty never move an entry. '
     'rotate drops exactly the entries of the old table and makes the recent ones old, with their values; rotate with a function first calls it once for each entry about to go; flushRotate leaves the map empty (its function sees every entry once); walk calls its function once for every entry. '
     'remove takes the key out whichever table it is in, reports whether it was there, and refuses a missing key only if it must exist. No entry outlives its table and none is destroyed twice.',
     ['inputs', 'histories'], 'all sequences of operations and rotations, all key types with an equivalence and a consistent hash, all value types; keys not given by reference to an entry of the map',
     'One fixed sequence over int keys is tested; flushRotate, walk, existsNoPromote, keys in both roles and values changed by the function are not.',
     ['include/Lintel/RotatingHashMap.hpp', 'include/Lintel/HashMap.hpp'],
     [('promotion of an old entry on access', 'include/Lintel/RotatingHashMap.hpp lookup'), ('rotation and its function', 'include/Lintel/RotatingHashMap.hpp rotate, flushRotate')],
     [('table_recent, table_old', 'entries used since the last rotation, entries last used in the period before', 'include/Lintel/RotatingHashMap.hpp')], ['lookup results', 'calls of the function', 'sizes'])
prop('P06', 'A byte buffer reads exactly what was written to it and to no other buffer',
     'The readable bytes of a ByteBuffer are the bytes written and not yet consumed, in order, after every sequence of append, assign, replace, consume, extend, unextend, shift, resize, reset, purge and reads from streams; '
     'storage is never accessed outside its bounds, leaked or freed twice. '
     'Copies share storage, but no operation on one buffer changes the bytes another one shows; a shared buffer with storage is changed only if copying on write is allowed. '
     'Operations are refused only when their amount or range is invalid (a shared buffer is copied without spare room, so extending it may be refused), and invalid ones are always refused. '
     'Buffers compare equal exactly when their readable bytes are equal.',
     ['inputs', 'histories'], 'all buffer contents, sizes, offsets and amounts; any number of owners; streams of any length that end or fail anywhere',
     'Tests make a few buffers of known size; sharing combined with a consumed front, an empty storage or a wrapping range is not sampled.',
     ['include/Lintel/ByteBuffer.hpp'],
     [('storage with unavailable, readable and writeable region', 'include/Lintel/ByteBuffer.hpp NoCopyByteBuffer'), ('copy on write when not the only owner', 'include/Lintel/ByteBuffer.hpp ByteBuffer::uniqueify')],
     [('byte_data, data_size, front, back', 'one storage', 'include/Lintel/ByteBuffer.hpp'), ('rep, allow_copy_on_write', 'owner handle', 'include/Lintel/ByteBuffer.hpp')], ['readable bytes', 'refusal of operations'])
prop('P07', 'Substring search returns the first position of the needle',
     'A BoyerMooreHorspool searcher finds, in every haystack, the first position at which the needle occurs, and reports no match exactly when it does not occur; matches agrees with find. '
     'The searcher keeps a copy of the needle, never reads a byte outside the haystack or the needle, always ends, and only an empty needle is refused.',
     ['inputs'], 'all needles and haystacks, all byte values and lengths',
     'The test tries a handful of texts; a shift that is too large shows only for needles with particular repetitions at particular places of the haystack.',
     ['src/BoyerMooreHorspool.cpp', 'include/Lintel/BoyerMooreHorspool.hpp'],
     [('bad character table', 'src/BoyerMooreHorspool.cpp init'), ('window comparison from the end', 'src/BoyerMooreHorspool.cpp find')],
     [('bad_char_shift', 'how far the window may move', 'include/Lintel/BoyerMooreHorspool.hpp')], ['find', 'matches'])
prop('P08', 'Ordered base 64: round trip, order and exact digits',
     'Encoding a byte string and decoding the result gives the byte string back, for every byte string. '
     'The encoding keeps the order: x < y exactly when encode(x) < encode(y), compared byte by byte, prefixes included. '
     'With an explicit number of digits every digit is written: the bits of the data followed (encodeBackward: preceded) by zero bits; numbers are written in base 64, most significant digit first. '
     'The alphabet is + , 0-9 A-Z a-z; nothing outside the given data and buffers is read or written, whatever characters are decoded.',
     ['inputs'], 'all byte strings, all pairs of byte strings, all numbers, all numbers of digits, all characters to decode',
     'The test encodes one random string of hexadecimal characters: high bytes, most digits, order, partial groups and invalid characters never occur.',
     ['include/Lintel/Base64.hpp'],
     [('bit accumulator', 'include/Lintel/Base64.hpp encode, decode, encodeBackward'), ('alphabet and its inverse', 'include/Lintel/Base64.hpp translate, detranslate')],
     [('trans_buf, bits', 'bits read but not yet written', 'include/Lintel/Base64.hpp')], ['encode', 'decode', 'encodeBackward'])
prop('P09', 'Text codecs: exact escapes, reversible, and only invalid input refused',
     'hexstring writes two lower-case digits per byte and hex2raw is its inverse, refusing exactly text that is not an even number of hexadecimal digits; the maybe- forms change exactly the texts they should. '
     'mysqlEscape, escapeUnprintable and toCSVform write for every byte exactly its documented code, so that the text can be read back: no raw NUL, newline, return or control-Z in a MySQL string, only printable characters in an escaped text, fields with comma, quote or line break always quoted and quotes doubled. '
     'split gives the pieces between the leftmost separators, appended to the vector, and join of them gives the text back. '
     'Prefix, suffix, case and blank tests look at every character; numbers are accepted exactly when the whole text is one.',
     ['inputs'], 'all byte strings of all lengths below 2 GB (split and join: any length), all separators, all lists of strings',
     'Tests use a few short texts; single high or control bytes, runs at the end, empty pieces and adjacent separators, and trailing garbage are not sampled.',
     ['src/StringUtil.cpp', 'include/Lintel/StringUtil.hpp'],
     [('escape tables', 'src/StringUtil.cpp mysql_escape_table, hextable'), ('run copying with escapes', 'src/StringUtil.cpp escapeUnprintable'), ('find and insert loops', 'src/StringUtil.cpp split, toCSVform')],
     [('position of each code in the output', 'where byte k of the input is written', 'src/StringUtil.cpp')], ['escape and unescape functions', 'split, join', 'string to number functions'])
prop('P10', 'Clock conversions are exact and the cycle clock stays on its calibration',
     'secMicroToTfrac and secNanoToTfrac give the least Tfrac (2^-32 s) not before the given time, TfracToSec/MicroSec/NanoSec/Tll/StructTimeval give the whole units of it rounded down, parts are always below a second, and s.us and s.ns survive the trip through Tfrac. '
     'secondsToTfrac gives the nearest Tfrac (carrying into the seconds) and refuses seconds it cannot represent; TfracToDouble and int64TfracToDouble are right to half a unit in the last place and keep the sign; TfracOffsetDouble moves a time by the nearest Tfrac to the offset. '
     'todccTfrac either recalibrates from one reading of the time of day or gives last calibration plus elapsed cycles in Tfrac, only within the recalibration interval and only when the counter advanced, so it never goes back between recalibrations; the interval always fits the 32-bit arithmetic used.',
     ['inputs', 'histories'], 'all seconds, all microseconds below 10^6, all nanoseconds below 10^9, all 64-bit Tfracs, all finite seconds and offsets, all cycle counter and time of day readings',
     'The self check samples 1% of the nanoseconds and a few boundaries; conversions from and to doubles, times after 2038 and cycle counters that go back are not tested.',
     ['include/Lintel/Clock.hpp', 'src/Clock.cpp'],
     [('conversions through double', 'include/Lintel/Clock.hpp secondsToTfrac, TfracToNanoSec'), ('extrapolation from the cycle counter', 'include/Lintel/Clock.hpp todccTfrac_incremental'), ('recalibration', 'src/Clock.cpp todccTfrac_recalibrate, setRecalibrateIntervalSeconds')],
     [('calibration', 'time of day and cycle counter of the last recalibration, interval in cycles', 'include/Lintel/Clock.hpp')], ['conversion functions', 'todccTfrac'])
prop('P11', 'Statistics are those of exactly the values that were added',
     'Stats reports the count, total, total of squares, minimum, maximum, mean, variance, standard deviation and 95% confidence interval of the values added since the last reset; adding another Stats (itself included) has the effect of adding all its values. '
     'A StatsSequence holds, after any number of values, at most max_retain buckets of equally many consecutive values, each merged (sum, mean or maximum, negative values included) from exactly its values, and loses none. '
     'A StatsSeries gives for every lag up to its maximum the autocovariance, mean product of the deviations from the mean of all pairs of values that far apart, 0 when there are none. '
     'A StatsEMA gives the mean while count <= 1/rate and (1-rate)*average + rate*value after each later value.',
     ['inputs', 'histories'], 'all finite values, all numbers of values, all sequences of add, merge and reset, all numbers of retained buckets, all lags',
     'Tests add short fixed sequences of positive numbers; negative maxima, merging of empty or overlapping accumulators, re-use after reset, lags beyond the number of values and repeated halving are not sampled.',
     ['src/Stats.cpp', 'include/Lintel/Stats.hpp', 'src/StatsSequence.cpp', 'src/StatsSeries.cpp', 'src/StatsEMA.cpp'],
     [('running sums', 'src/Stats.cpp Stats::add'), ('merging pairs of buckets when all are in use', 'src/StatsSequence.cpp StatsSequence::add'), ('products with the samples of each lag', 'src/StatsSeries.cpp StatsSeries::add, autocovariance')],
     [('number, sum, sumsq, min_value, max_value', 'sums over the values', 'include/Lintel/Stats.hpp'), ('values, new_value, points_remain_new_bucket', 'closed buckets and the open one', 'include/Lintel/StatsSequence.hpp'), ('samples, product, firstsamples', 'latest values and sums per lag', 'include/Lintel/StatsSeries.hpp')], ['accessors', 'printed text'])
prop('P12', 'Tuples hash, compare and order by their values and wildcards alone',
     'The hash of a tuple is its only element\'s hash, or BobJenkinsHashMix3 of the hashes of the first two elements and of the rest; a wildcard position hashes to one constant whatever value is stored under it. '
     'Two tuples with wildcards (BitsetAnyTuple) are equal when they have wildcards at the same positions and equal values at all others; equal tuples hash alike. '
     'operator< is a strict weak order consistent with that equality: lexicographic, values before wildcards, two wildcards alike; exactly one of less, equal, greater holds, and it is transitive. AnyPair (one value or wildcard) obeys the same. '
     'New tuples with wildcards made of a tuple have no wildcard; assigning an any-tuple from a tuple makes every position a value equal to the tuple\'s; printing shows (a * c), a star for each wildcard.',
     ['inputs'], 'all tuples of all lengths and element types whose == < > agree with one order and whose hash agrees with ==; all sets of wildcard positions; any stored values under wildcards',
     'Tests compare two fixed five-element tuples with a few wildcard positions; hidden values that differ, other lengths and hash consistency are not sampled.',
     ['include/Lintel/Tuples.hpp'],
     [('hash of two elements and the rest', 'include/Lintel/Tuples.hpp boost::tuples::hash, bitset_any_hash'), ('equality, order', 'include/Lintel/Tuples.hpp bitset_any_equal, bitset_any_strict_less_than')],
     [('BitsetAnyTuple::data, any', 'the values and which positions are wildcards', 'include/Lintel/Tuples.hpp'), ('AnyPair::any, val', 'one position', 'include/Lintel/Tuples.hpp')], ['operators', 'hash functions', 'printed text'])
prop('P13', 'Approximate quantiles lie within the promised rank error',
     'As long as at most Nbound values were added, StatsQuantile::getQuantile(phi) returns one of them whose rank is within quantile_error * n of phi * n, in whatever order they came; as long as nothing was collapsed it is the exact quantile. '
     'Later quantiles are never smaller than earlier ones, and a query changes no answer. A collapse merges all buffers of the lowest level into one of the sum of their weights, moves no rank by more than half that weight, and touches nothing else. '
     'reset forgets all values; adding another StatsQuantile (empty, lazy, of other sizes, or itself) adds its values; a lazy one behaves like one that is not. '
     'No access leaves the buffers, and all are released exactly once. Quantiles outside 0..1, too large an error and more values than the bound are refused.',
     ['inputs', 'histories'], 'all finite values, all sequences of add, merge, reset and query, all numbers and sizes of buffers, lazy or not',
     'Tests add a few fixed or random sequences with some sizes; the rank error after many collapses, odd and even weights, two buffers only, merging of empty, lazy or differently sized statistics and of one with itself are not sampled.',
     ['src/StatsQuantile.cpp', 'include/Lintel/StatsQuantile.hpp'],
     [('start of a buffer, collapse when all are full', 'src/StatsQuantile.cpp StatsQuantile::addQuantile'), ('weighted merge of the lowest level', 'src/StatsQuantile.cpp StatsQuantile::collapse'), ('search for the value at a rank', 'src/StatsQuantile.cpp StatsQuantile::getQuantileByBinSearchIndex')],
     [('all_buffers, cur_buffer, cur_buffer_pos', 'the values kept', 'include/Lintel/StatsQuantile.hpp'), ('buffer_weight, buffer_level, buffer_sorted', 'weight, level and order of each buffer', 'include/Lintel/StatsQuantile.hpp')], ['getQuantile', 'countll'])
prop('P14', 'Group statistics: every value reaches exactly the groups it belongs to',
     'A HashTupleStats holds exactly one statistic per distinct key, of exactly the values added under it; operator[] and add make it on first use, walk visits each key once, prune deletes exactly those the predicate chooses, clear deletes all, and every statistic is deleted exactly once. '
     'walkZeros visits every combination of the values seen in each position once (those of a given set of values if one is given), with the statistic of the key or else a zero that no value was added to (or one 0 if zeros count). '
     'A StatsCube asks its cube function about each of the 2^n ways to replace positions of a row by any, once, and adds the row exactly to the entries it wants; an entry with wildcards therefore holds the values of all rows that agree with it at the other positions. '
     'clear keeps or drops the base data as asked, and prune removes exactly the entries chosen.',
     ['inputs', 'histories'], 'all keys, all values, all sequences of add, cube, prune, walk and clear, all cube functions that depend on the key and the flag only',
     'Tests cube a handful of fixed rows of three positions; removal during a walk, re-use after clear, combinations without a row, and cube functions that refuse some sets are not sampled.',
     ['include/Lintel/StatsCube.hpp', 'include/Lintel/HashTupleStats.hpp'],
     [('recursion over the positions', 'include/Lintel/StatsCube.hpp cubeAddOne'), ('removal while walking', 'include/Lintel/StatsCube.hpp prune, include/Lintel/HashTupleStats.hpp prune'), ('all combinations of values', 'include/Lintel/HashTupleStats.hpp zeroWalk')],
     [('cube_data, base_data', 'statistics of wildcard keys and of full keys', 'include/Lintel/StatsCube.hpp'), ('data', 'key to statistic', 'include/Lintel/HashTupleStats.hpp')], ['walk, walkZeros, walkOrdered', 'size'])
prop('P15', 'Random numbers are those of the published generators, unbiased and in range',
     'A Mersenne twister gives exactly the numbers of MT19937 for its seed or seed array of any length, and Marsaglia\'s generators exactly those of the published multiply-with-carry and xorshift recurrences; construction, init and initArray determine all later results (randBoolFast too), whatever came before. '
     'randInt(max) is the next word modulo max; randIntUnbiased(max) takes only words of whole rounds, so that all results are equally likely; randDouble* lie in [0,1) or [0,1] as named, at the stated resolution, with both ends of the closed ones reachable; randBoolFast uses each of 64 drawn bits once. '
     'MT_random_shuffle leaves a permutation of the range, decided by one draw per place uniform over the places up to it. An empty seed array is refused.',
     ['inputs', 'histories'], 'all seeds and seed arrays, all sequences of draws and reseeding, all bounds, all ranges',
     'Tests compare 1000 numbers for one seed and one array of four words; long arrays, the end of a block of bits, words in the biased corner (as rare as 1 in 2^32), carries and reseeding are not sampled.',
     ['src/MersenneTwisterRandom.cpp', 'include/Lintel/MersenneTwisterRandom.hpp', 'include/Lintel/RandomBase.hpp', 'include/Lintel/MarsagliaRandom.hpp'],
     [('seeding and renewal of the words', 'src/MersenneTwisterRandom.cpp init, initArray, reloadArray'), ('derived numbers', 'include/Lintel/RandomBase.hpp RandomTempl'), ('multiply with carry', 'include/Lintel/MarsagliaRandom.hpp MarsagliaInner::randInt'), ('shuffle', 'include/Lintel/MersenneTwisterRandom.hpp MT_random_shuffle')],
     [('mt, mti', 'words of the state and the next one', 'include/Lintel/MersenneTwisterRandom.hpp'), ('boolState, boolShift', 'bits not yet used', 'include/Lintel/RandomBase.hpp'), ('x, c, i', 'words, carry and position', 'include/Lintel/MarsagliaRandom.hpp')], ['the sequence of results'])
prop('P16', 'A histogram counts every value once, in its bin, also when it scales or grows',
     'Every value added enters the statistics and exactly one bin: with edges at low + k * width (Log: low * exp(k / scaling)), a value belongs to the bin whose edges enclose it; values outside go to the first and last bin of a fixed range. '
     'A scalable histogram doubles its range until the value lies inside, a growable one gets more bins of the same width; either way the number of values (for Accum: the sum of values) below every edge that is left, and in all bins, is what was added there. '
     'There is an even number of at least as many bins as asked for; reset() empties all of them; mode() is the middle of a fullest bin; percentile() lies in the bin that holds that share of the values; indices past the last bin are refused. '
     'A StatsHistogramGroup passes each value to the histogram of the first range whose end is beyond it, or to the low or high statistics.',
     ['inputs', 'histories'], 'all ranges, numbers of bins and options, all sequences of values, resets and queries',
     'No test of the suite uses the histograms; rounding at the ends, scaling several times in either direction and growing are particular inputs and histories.',
     ['src/StatsHistogram.cpp', 'include/Lintel/StatsHistogram.hpp'],
     [('the bin of a value', 'src/StatsHistogram.cpp StatsHistogramUniform::sampleBin, StatsHistogramLog::sampleBin'), ('scaling and growing', 'src/StatsHistogram.cpp StatsHistogramUniform::add, StatsHistogramUniformAccum::add, StatsHistogramLog::add'), ('dispatch', 'src/StatsHistogram.cpp StatsHistogramGroup::add')],
     [('bins, val_bins', 'counts and sums per bin', 'include/Lintel/StatsHistogram.hpp'), ('bin_low, bin_high, bin_width, num_bins', 'the range and its edges', 'include/Lintel/StatsHistogram.hpp'), ('histograms, ranges, low, high', 'the parts of a group', 'include/Lintel/StatsHistogram.hpp')], ['counts, sums, edges, mode and percentiles'])
prop('P17', 'A constant string is stored once, never changes and behaves as its bytes',
     'A ConstantString made from n bytes (null bytes included) has those bytes, that length and a null byte after them for ever, whatever is stored later; two constant strings made of equal bytes are the same stored string, others are not, and nothing is stored twice. '
     'compare(), <, <=, ==, !=, >, >= against constant strings, std::strings and C strings, hash(), str() and << are those of the byte strings. A string that fits is never refused because of what was stored before; one too long is refused and leaves the pool as it was. dumpInfo() counts the strings stored.',
     ['inputs', 'histories'], 'all byte strings and all sequences of strings stored before, whatever buffers they fill',
     'No test of the suite uses ConstantString; null bytes inside strings, the ends of buffers and strings copied from the pool are particular inputs and histories.',
     ['src/ConstantString.cpp', 'include/Lintel/ConstantString.hpp'],
     [('storing a string', 'src/ConstantString.cpp ConstantString::init'), ('order and equality', 'include/Lintel/ConstantString.hpp ConstantString::compare, hteEqual and the operators')],
     [('buffers', 'memory of the strings: length, bytes, null byte', 'src/ConstantString.cpp'), ('hashtable', 'the set of the strings stored', 'src/ConstantString.cpp')], ['bytes, lengths, order and identity of constant strings'])
prop('P18', 'Interpolation search finds the lower bound, whatever the values and estimates',
     'For every sequence in order, interpolationLowerBound returns the first position whose value is not less than the one searched for (the end if there is none), as std::lower_bound does: with duplicates, skewed or extreme values of any integer type, signed or not, of any length. '
     'It reads only values of the sequence, and asks the estimator only about values in ]first, last]; any estimates from 0 to the last position give the same result. EstimateOffset gives such an estimate for every such question.',
     ['inputs'], 'all ordered sequences, all values, all estimators that keep their contract',
     'The test searches small positive numbers; signed values more than half the range apart, long skewed sequences, both ends moved in one round and positions that rounding carries past the end are particular inputs.',
     ['include/Lintel/unstable/InterpolationSearch.hpp'],
     [('interpolation and binary steps', 'include/Lintel/unstable/InterpolationSearch.hpp detail::interpolationLowerBound'), ('estimate of a position', 'include/Lintel/unstable/InterpolationSearch.hpp EstimateOffset')],
     [('begin, end, len', 'the range still searched: begin is less, the last is not', 'include/Lintel/unstable/InterpolationSearch.hpp')], ['the position returned'])
prop('P19', 'Every operation on an atomic counter is one indivisible step',
     'Whatever other threads do, each increment, decrement, addition, subtraction, or, and, xor, exchange, store and successful compare-and-exchange of a lintel::Atomic replaces the value the counter has at one moment by the right one of it, exactly once, and returns the value replaced (or, where it says so, the new one): no update is lost, doubled or seen half. '
     'A failed compare-and-exchange writes nothing and tells the value found; a load returns a value the counter had. Every such step orders the memory accesses before it against those after it, for processor and compiler, as sequential consistency asks; atomic_thread_fence does for its order. The unsafe:: functions do the same to plain integers, with amounts of any integer type converted to the type of the counter first.',
     ['schedules', 'inputs'], 'all interleavings with other threads (arbitrary changes of the counter between any two instructions), all values and amounts',
     'The test runs increments and additions by several threads for a while and every other operation alone; a lock prefix missing in compare-and-exchange, a value read again after the step, a store without a barrier or an amount of another type show only in particular interleavings or inputs.',
     ['include/Lintel/AtomicCounter.hpp'],
     [('steps in inline assembly', 'include/Lintel/AtomicCounter.hpp x86Gcc_*'), ('operations', 'include/Lintel/AtomicCounter.hpp Atomic')],
     [('counter', 'changed only by the steps', 'include/Lintel/AtomicCounter.hpp Atomic::counter')], ['values returned', 'the value of the counter', 'the order in which other threads see stores'])
prop('P20', 'Locks are held exactly in their regions and in order; threads do as asked',
     'While a SimpleScopedLock, PThreadScopedLock or PThreadAutoLocker exists its mutex is held by the thread that made it, except while a PThreadScopedUnlock of it exists; it is locked and unlocked once each time and not held afterwards. trylock and timedLock are true exactly if the mutex is held then; contention counts how often lock found it taken. '
     'With a LockOrderingGroup a lock is taken only above the level the thread is on, the thread is on the level of its innermost lock while it holds it and back on the one before afterwards; a lock against the order is refused before anything is locked, and one that fails leaves the thread on its level. '
     'A PThreadCond waits for its own condition with the mutex given, timedWait from now for the seconds given, to the nanosecond, for a proper time (nanoseconds below a second), and is true exactly on a timeout. '
     'PThread::start makes one thread, which calls run of the object once; join waits for it and returns what run returned; starting while one runs and joining without one are refused; the attributes set are those of the threads started from then on; PThreadNoSignals starts its threads with every signal blocked and leaves the signals of the caller as they were, also when start is refused. '
     'An error of the system is refused by an assertion and never taken for success, for a taken mutex or for a timeout.',
     ['inputs', 'histories', 'fault_sequences', 'schedules'], 'all levels, times and attributes, every outcome of every system call, whatever happens inside the regions',
     'The tests lock, wait and start threads in a few ways that succeed; errors of the system, times of day near a full second, locks of equal level, signals blocked by the caller and attributes set back are not tried, and which thread holds what is not observed.',
     ['include/Lintel/PThread.hpp.in', 'include/Lintel/LockOrderingGroup.hpp', 'include/Lintel/SimpleMutex.hpp', 'src/PThread.cpp', 'src/SimpleMutex.cpp'],
     [('mutexes and scoped locks', 'include/Lintel/PThread.hpp.in PThreadScopedOnlyMutex, PThreadScopedLock, PThreadScopedUnlock'), ('ordering', 'include/Lintel/LockOrderingGroup.hpp scopeDown, scopeUp'), ('conditions', 'include/Lintel/PThread.hpp.in PThreadCond'), ('threads', 'src/PThread.cpp PThread, PThreadNoSignals')],
     [('held', 'the mutex of a scoped lock is held while it exists', 'include/Lintel/PThread.hpp.in PThreadScopedLock'), ('cur_level', 'the level of the innermost ordered lock of the thread', 'include/Lintel/LockOrderingGroup.hpp')], ['exclusion of threads', 'refusals', 'times waited for', 'results of threads', 'signals blocked'])
open(V + '/properties.jsonl', 'w').write(''.join(json.dumps(p) + '\n' for p in P))
print(len(P), 'properties')
