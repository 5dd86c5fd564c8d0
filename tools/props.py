prop('C01', 'Base16/32/64/85 encoders and decoders are exact inverses',
 'For every byte sequence of every length, the base16, base32, base64 (standard and URL alphabet, padded and unpadded) and base85 encoders emit exactly the characters their published format prescribes, for a full group and for every tail. The matching decoder returns exactly the original bytes. This does not depend on how reading the output is interleaved with writing the input, and a peek always shows the item the next read returns.',
 ['inputs', 'histories'], 'every input byte sequence of every length, every alphabet and padding mode provided, every permitted interleaving of write, peek, read and flush',
 'the tests encode and decode one fixed sentence and one four byte string per base, with the default options and one reading pattern',
 ['utils/base16.cpp', 'utils/base32.cpp', 'utils/base64.cpp', 'utils/base85.cpp', 'utils/base64.tcc'],
 [('group state machine of each converter', 'utils/base64.cpp'), ('tail handling in flush', 'utils/base32.cpp'), ('radix conversion', 'utils/base85.cpp')])
prop('C02', 'URL percent-encoding round-trips every byte and escapes reserved ones',
 'Encoding any byte sequence for a URL yields only unreserved characters, the plus sign for a space and percent escapes with two hex digits, and decoding the result returns exactly the original bytes. The decoder accepts upper and lower case hex digits and passes unescaped characters through unchanged. The outcome does not depend on where the input is split between writes or on how reads are interleaved.',
 ['inputs', 'histories'], 'every byte sequence, every chunking',
 'the tests convert a few sample strings; escapes of other bytes, lower case escapes and interleavings are not sampled',
 ['utils/urlencode.cpp', 'utils/urlencode.h'], [('escape state machine', 'utils/urlencode.cpp')])
prop('C03', 'UTF-8 transcoding is exact for every code point',
 'Every Unicode code point converts to its shortest UTF-8 encoding, and decoding that encoding returns the same code point; a wide string converts to UTF-8 and back unchanged. The converters keep no memory of earlier characters, so this holds for text of any length.',
 ['inputs', 'histories'], 'every code point up to U+10FFFF, after any earlier text',
 'the tests convert one accented sentence, which uses one and two byte sequences away from the length boundaries',
 ['base/streams/utf.cpp', 'base/streams/utf.h', 'base/streams/utf.tcc'], [('length selection and bit packing', 'base/streams/utf.cpp')])
prop('C04', 'Integers print and parse exactly in every base',
 'Printing any signed or unsigned integer in any supported base gives its canonical digits, with a sign for negative values, and parsing these digits returns the same integer, the extreme values included. Parsing text that is not a number is reported, not silently turned into a value.',
 ['inputs'], 'every value of the machine integer types, bases 2 to 36',
 'tests print a handful of values', ['base/text/toString.tcc', 'base/text/toString.cpp', 'base/text/textParser.tcc', 'utils/json/json.cpp'],
 [('digit extraction', 'base/text/toString.tcc'), ('digit accumulation', 'base/text/textParser.tcc')])
prop('C05', 'Compact variable-length integers round-trip',
 'Every unsigned integer written in the compact variable-length form is read back as the same integer, and the reader consumes exactly the bytes the writer produced, so that numbers written one after another are read back in order.',
 ['inputs'], 'every 64-bit value', 'no test exercises the compact number format',
 ['base/streams/compressNumb.cpp', 'base/streams/compressNumb.h'], [('length prefix', 'base/streams/compressNumb.cpp')])
prop('C06', 'Checksums and digests follow their standards for any chunking',
 'CRC-32, MD5 and SHA-1 of any message equal the value their standard defines, and feeding the message in any sequence of pieces gives the same result as feeding it whole.',
 ['inputs', 'histories'], 'every message of every length, every split into pieces',
 'tests cannot enumerate messages, lengths around the block boundary and splits', ['utils/crc32.h', 'utils/md5.cpp', 'utils/sha1.cpp'],
 [('block buffering', 'utils/md5.cpp'), ('compression function', 'utils/sha1.cpp')])
prop('C07', 'LZW decompression restores what compression consumed',
 'For every byte sequence of any length, decompressing the compressed stream yields exactly the original bytes, across every code width change and every dictionary reset.',
 ['inputs', 'histories'], 'every byte sequence, every dictionary size', 'tests compress a few fixed texts', ['utils/lzw.cpp', 'utils/lzw.h'],
 [('dictionary growth and code width change', 'utils/lzw.cpp')])
prop('C08', 'JSON text round-trips strings, numbers and structure',
 'Serialising any JSON value and parsing the result gives an equal value: strings with any characters, including control characters, quotes and non-ASCII code points, integers, booleans, null, arrays and objects.',
 ['inputs'], 'every JSON value', 'tests parse and print a few documents', ['utils/json/jsonserializer.tcc', 'utils/json/jsonparser.tcc'],
 [('string escaping', 'utils/json/jsonserializer.tcc'), ('string unescaping', 'utils/json/jsonparser.tcc')])
prop('C09', 'HTTP message bodies are framed exactly',
 'The body delivered from an HTTP response is exactly the declared content: the bytes of all chunks in order for a chunked body, with chunk sizes in any hex form, or exactly the declared number of bytes, and no byte of the following message is consumed or delivered.',
 ['inputs', 'histories'], 'every body, every division into chunks, every split of the stream into reads', 'tests feed five fixed responses',
 ['base/streams/httpc.tcc', 'base/streams/httpc.cpp'], [('chunk header parser', 'base/streams/httpc.tcc')])
prop('C10', 'Buffered streams neither lose, duplicate nor reorder bytes',
 'Whatever sequence of reads, writes, peeks and flushes a user performs, the bytes read from a buffered stream are exactly the bytes of the underlying source in order, and the bytes that reach the underlying sink are exactly the bytes written in order, whatever amounts the underlying stream accepts or returns per call.',
 ['histories', 'inputs'], 'every sequence of operations, every sequence of partial transfer sizes', 'tests use whole files with one access pattern',
 ['base/streams/fileiobuff.tcc', 'base/containers/buffer.h'], [('buffer window arithmetic', 'base/streams/fileiobuff.tcc')])
prop('C11', 'Ordered maps and sets behave as sorted dictionaries',
 'After any sequence of insertions, erasures and lookups a map or set contains exactly the entries inserted and not erased, each key once; lookups find exactly these, iteration visits them in order, and the tree stays balanced so that the cost of every operation is logarithmic.',
 ['histories'], 'every sequence of operations with every order of keys', 'tests insert a few keys in one order', ['base/containers/avltree.tcc', 'base/containers/avltreenode.tcc', 'base/containers/map.tcc'],
 [('rotations and balance updates', 'base/containers/avltreenode.tcc')])
prop('C12', 'Dynamic arrays behave as sequences under any operation history',
 'Any sequence of appends, insertions, erasures, resizes, copies and swaps, also of the elements of the array itself, leaves a dynamic array holding exactly the sequence the operations define, with every element constructed and destroyed exactly once and no access outside the allocated storage. Moving or constructing a range of elements is undone completely when an element throws.',
 ['histories', 'inputs'], 'every length, capacity, position and count', 'tests use small arrays', ['base/containers/autoArray.tcc', 'base/containers/autoArray.h', 'base/objmanip.h'],
 [('growth and element moves', 'base/containers/autoArray.tcc')])
prop('C13', 'Double-ended queues keep order through growth and wrap-around',
 'Any sequence of pushes and pops at both ends, assignments through the mutable access, swaps and clears of a double-ended queue leaves exactly the elements a sequence would hold, in that order, whatever the capacity, fill and wrap position; every element is constructed and destroyed exactly once, also when the queue grows, is destroyed, or when copying or moving an element throws.',
 ['histories'], 'every state of capacity, fill and wrap position, every operation', 'no test pushes past a wrap-around', ['base/containers/deque.tcc', 'base/containers/deque.h'],
 [('ring index arithmetic and growth', 'base/containers/deque.tcc')])
prop('C14', 'Linked lists keep order and links under insertion and removal',
 'Any sequence of insertions and removals at any position of a linked list leaves exactly the intended sequence reachable from the first element, with the last element correctly known and every removed node released once. The iterator an operation returns refers the new item or the item after the erased one and can be used for the next operation.',
 ['histories'], 'every list and position', 'tests use few elements', ['base/containers/linkedList.h'], [('link updates', 'base/containers/linkedList.h')])
prop('C15', 'Heap sort and priority queues order elements correctly',
 'Pushing and popping elements in any order always yields the smallest (or largest) remaining element next, and sorting returns a sorted permutation of the input.',
 ['inputs', 'histories'], 'every sequence of elements', 'tests sort fixed data', ['base/containers/sort.tcc', 'base/containers/priorityQueue.tcc'], [('sift up and down', 'base/containers/sort.tcc')])
prop('C16', 'Reference-counted objects live exactly as long as they are referenced',
 'An object managed by counted smart pointers is destroyed exactly once, when its last reference goes away and never before, whatever sequence of copies, assignments, swaps and conversions is performed; a weak reference yields the object while it lives and nothing afterwards.',
 ['histories'], 'every sequence of pointer operations', 'tests create a few pointers', ['base/memory/refCntPtr.h', 'base/memory/refCntPtr.cpp', 'base/memory/weakref.h', 'base/memory/sharedPtr.h'],
 [('reference counter', 'base/memory/refCntPtr.cpp')])
prop('C17', 'Allocators hand out disjoint blocks of sufficient size',
 'Every block returned by the pool, cluster and node allocators is at least as large as requested, does not overlap any other live block, and can be released in any order; a released block is reusable and never handed out twice.',
 ['histories'], 'every sequence of allocations and releases of every size', 'tests allocate a few blocks', ['base/memory/clusterAlloc.cpp', 'base/memory/poolalloc.h', 'base/memory/nodeAlloc.cpp'],
 [('size classes and free lists', 'base/memory/clusterAlloc.cpp')])
prop('C18', 'Locks give mutual exclusion under every schedule',
 'At any time at most one thread holds a fast lock, spin lock or micro lock, whatever the interleaving; an attempt to take a held lock fails or waits and wakes only as the owner, an unlock passes the lock to exactly one waiting thread or frees it, and an unlock by a thread which does not own a spin lock or recursive lock changes nothing; a recursive lock is released only after as many unlocks as locks.',
 ['schedules'], 'every number of threads and every interleaving', 'tests run one schedule', ['mt/fastlock.h', 'mt/spinlock.h', 'mt/microlock.h'], [('atomic ownership transfer', 'mt/fastlock.h')])
prop('C19', 'Reader-writer locks exclude writers from everyone',
 'While a writer holds a reader-writer lock nobody else holds it, readers may share it, and once everyone has released it the lock can be taken again in either mode.',
 ['schedules', 'histories'], 'every history of lock, try and unlock calls by any number of threads', 'tests run one schedule', ['mt/rwlock.h', 'mt/fastrwlock.h', 'mt/semaphore.h', 'mt/gate.h'], [('level counters and wait queues', 'mt/rwlock.h')])
prop('C20', 'Calendar conversion is exact for every date',
 'Converting any date and time of day to a timestamp and back gives the same date and time, consecutive days differ by exactly one day including across leap years and centuries, and adding days, hours or seconds moves the timestamp by exactly that amount.',
 ['inputs'], 'every date the calendar supports', 'tests convert a few dates', ['base/timestamp.cpp', 'base/datetime.cpp'], [('Julian day computation', 'base/timestamp.cpp')])
prop('C21', 'Rational arithmetic is exact',
 'Adding, subtracting, multiplying, dividing, raising to a power and comparing rationals gives the mathematically exact result, reduced to the lowest terms with a positive denominator, in every case that fits the underlying integer type; floor, ceil and round give the exact integer (a half is rounded up), also for negative numbers, and the remainder belongs to the quotient rounded towards zero.',
 ['inputs'], 'every pair of operands within range', 'no test', ['base/rational.h'], [('common denominators', 'base/rational.h')])
prop('C22', 'A promise resolves once and every observer sees its outcome once',
 'A promise takes exactly one outcome, the first one given, and every observer registered before or after resolution is notified exactly once with it, in every interleaving of registration and resolution.',
 ['schedules', 'histories'], 'every interleaving of resolvers and observers', 'tests resolve in one order', ['base/actions/promise.tcc', 'base/actions/promise.h'], [('resolution under lock', 'base/actions/promise.tcc')])
prop('C23', 'Every waiter on a released lock or opened gate eventually proceeds',
 'A thread waiting for a lock, semaphore or gate eventually proceeds once the resource is released and stays available.',
 ['schedules'], 'every fair schedule', 'liveness over infinite schedules', ['mt/fastlock.h', 'mt/semaphore.h', 'mt/gate.h'], [('wake-up of queued threads', 'mt/fastlock.h')])
prop('C24', 'Message queues deliver every message once, in order',
 'Messages posted to a message queue by any threads are processed exactly once each by the worker, in the order they were posted, a priority message before all that wait; a cancelled or flushed message is rejected and released exactly once and never run, and the others are not affected; the queue never touches a message after another thread may have processed it, and its length counts the messages that wait.',
 ['schedules', 'histories'], 'every history of push and pump', 'tests use no concurrency', ['base/actions/msgQueue.cpp'], [('lock-free stack of new messages, private queue of the worker', 'base/actions/msgQueue.cpp')])

PF = 'contract-based deductive verification: WP/symbolic VCs over LLVM IR of the real code, discharged by z3/cvc5'
CLAIM = {
 'C01': ('proof', PF, 'Every group from an arbitrary group boundary (stable-cell induction) and every tail, all interleavings, against the RFC 4648 and Z85 definitions; sequences of any length follow by induction over groups. Trusted: clang front end, the lsvc VC generator, z3/cvc5.'),
 'C02': ('proof', PF, 'Every byte from an arbitrary character boundary of both converter generations; sequences follow by induction over characters. Trusted: clang front end, the VC generator, solvers.'),
 'C03': ('proof', PF, 'Every code point up to U+10FFFF from an arbitrary character boundary, both converter generations. Trusted: clang front end, the VC generator, solvers.'),
 'C04': ('proof', PF, 'Printing and parsing of every 64-bit and 32-bit value in every base 2 to 36, digit by digit under a recursion contract. Trusted: clang front end, the VC generator, solvers; the output buffer is used through its contract (C12).'),
 'C06': ('proof', PF, 'CRC-32 step and any block length, MD5 compression function against RFC 1321 and buffering and padding for any length and any split, SHA-1 compression function against FIPS 180-4 and padding for every tail length; SHA-1 fed by a stream is proved up to its first full block for any buffered beginning, and the block loop by invariant in the thorough tier (bounded lengths in the quick one). Trusted: clang front end, the VC generator, solvers, std::string and std::istream.'),
 'C12': ('proof', PF, 'Every operation of AutoArray from an arbitrary state (any length, capacity, position and count), over the contracts of the range operations of ObjManip, which are proved by loop invariants, throwing copies included. Histories follow by induction because every operation re-establishes the representation invariant. Element type: a class with ghost life time; allocator: StdAlloc. Trusted: clang front end, the VC generator, solvers, operator new/delete.'),
 'C13': ('proof', PF, 'Every public operation of Deque and its growth (move loops by invariant, in both wrap cases, with throwing copies) from an arbitrary state: any capacity, length and wrap position. Histories follow by induction because every operation re-establishes the representation invariant. Element type: a class with ghost life time. Trusted: clang front end, the VC generator, solvers, operator new/delete.'),
 'C11': ('proof', PF, 'Insertion, removal by value, by path and of the root, taking the last node and rebalancing: one level on a tree of any height over the contract of the recursive call (induction over height): order of the nodes kept, balance equal to the difference of heights, height reported exactly. The public interface of maps, trees and iterators over it: bounded, every balanced shape up to height 3 (quick) or 4 (thorough), every key position. Trusted: clang front end, the VC generator, solvers.'),
 'C16': ('proof', PF, 'Every operation of the counted pointers from an arbitrary state: any number of other references to either object, the empty pointers, aliased operands, an object owning the assigned pointer. Weak references with any number of other lockers; the wait of the owner by inductive invariant over any number of wake-ups. Shared pointers: any sharing among four pointers, every operation (a bound on the number of pointers). Atomic counters are treated as atomic; other threads are modelled by their net effect on the counters. Trusted: clang front end, the VC generator, solvers, operator new/delete.'),
 'C14': ('proof', PF, 'Every insertion, removal and access at an arbitrary position of a list of any length (all neighbourhoods: first, second, later, before the last, last, behind the end), with failing allocations and throwing copies; the rest of the list is framed. BOUNDED, not proved: copying, assigning and clearing whole lists of at most 3 items. Trusted: clang front end, the VC generator, solvers.'),
 'C21': ('proof', PF, 'Addition, subtraction, multiplication, division, comparison, inversion and sign for all 64-bit operands over the contract of the greatest common divisor (products and quotients uninterpreted: the code computes exactly the stated terms), floor and ceil for all operands. BOUNDED, not proved: the greatest common divisor for operands below 32; normalisation, remainder, power and round with the real functions for numerators up to 6 and denominators up to 4. Conversions from and to floating point are not covered.'),
 'C18': ('proof', PF + '; rely/guarantee: every shared access is a step of the other threads\' rely', 'Every interleaving of any number of threads with lock, tryLock, unlock, Async and the recursive variants: each shared access may be preceded by any allowed steps of other threads, each own step is checked against the guarantee. Trusted: clang front end, the VC generator, solvers; sequentially consistent atomics; threads use a lock only through its interface.'),
 'C24': ('proof', PF + '; rely/guarantee: every shared access is a step of the other threads\' rely', 'Posting, fetching (reversal of the stack), appending, taking, cancelling and flushing with queues of any length and any interleaving with other posting threads, one worker. BOUNDED besides: whole single-thread histories of 6 operations. Trusted: clang front end, the VC generator, solvers; sequentially consistent atomics; one worker thread.'),
 'C05': ('proof', PF, 'Every 64-bit value, unsigned and signed. Trusted: clang front end, the VC generator, solvers.'),
}
PEND = 'check under construction in this tree; not claimed'
NA = {p['id']: PEND for p in P}
NA['C23'] = 'liveness under fairness: a contract (partial-correctness postcondition or invariant) cannot express eventual progress; the safety part is in the exclusion properties'
