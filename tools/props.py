"""The property list: source of properties.jsonl and MANIFEST.json (written by tools/gen.py)."""
P = []

def prop(id, title, statement, over, qtext, why, files, mech, level_note, state=(), observe=(), level="model_checking", technique="explicit-state model checking of the implementation (bounded exhaustive operation sequences against a reference model)", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, state=state, observe=observe, level=level, technique=technique, level_note=level_note, na=na))

SEQ = "stateful depth-first enumeration of every operation sequence up to the stated depth on the real code, compared step by step with a reference model; deterministic families at larger sizes"
SCHED = "stateless model checking of the real code under a controlled scheduler: every interleaving up to the deviation bound, virtual time, happens-before race detection"
C = "common/container/"

prop("C01", "Linked list behaves as a sequence under every mix of operations",
 "After any sequence of operations on doubly linked lists (zero value included), forward and backward traversal, length and emptiness all describe the same sequence of elements that the documented operations produce. Operations given an element or mark of another list, or a removed one, change nothing. Element handles keep their identity and value across moves, and list copies add new elements without disturbing the source.",
 ["inputs", "histories"], "all operation sequences over two lists, up to the bounds, plus larger deterministic scripts",
 "There is no test for this package; pointer surgery goes wrong only for particular neighbour relations (moving next to oneself, self-append, foreign marks) that a few samples miss.",
 [C+"list/list.go"], [("insert/remove/move splice the ring", C+"list/list.go"), ("membership guard on the owning list", C+"list/list.go")],
 "Exhaustive for sequences of 5 (thorough 7) operations over two lists with at most 5 (6) elements, all element/mark choices; scripted families to 200 elements. Elements of a cleared list are not reused (as in container/list). Trusts the rewriter, which only adds step counters here.",
 technique=SEQ)

prop("C02", "Deque is a double-ended FIFO/LIFO queue and stack is LIFO",
 "A deque returns from either end exactly the elements pushed and not yet popped, in order; a stack pops and peeks the most recently pushed element. Length and emptiness agree with the content after every operation, and instances do not influence each other.",
 ["inputs", "histories"], "all interleavings of pushes and pops on two instances up to the bound, sizes up to 4097 by pattern",
 "No tests exist for these containers; order errors need particular mixes of both ends.",
 [C+"deque/deque.go", C+"stack/stack.go", C+"list/list.go"], [("delegation to the list ends", C+"deque/deque.go")],
 "Exhaustive for 7 (9) deque operations and 10 (13) stack operations on two instances each; deterministic push/pop patterns up to 4097 elements. Popping an empty container is outside the domain.",
 technique=SEQ)

prop("C03", "Binary heap and priority queue always yield a minimal element",
 "Whatever the initial slice and the sequence of push, pop, remove-at-index and fix, peek and pop return an element that no other element precedes, every element comes out exactly once, and length stays right. Fixing an index after changing its element restores the order, and removing an index returns and removes exactly one element.",
 ["inputs", "histories"], "all initial slices up to 7 elements over few priorities, all operation sequences up to the bound, both orders",
 "No test covers heaps; wrong sift directions show only for particular shapes and indexes.",
 [C+"heap/heap.go", C+"pqueue/pqueue.go"], [("sift up/down", C+"heap/heap.go"), ("heapify at construction", C+"heap/heap.go")],
 "Exhaustive over initial slices (<=7 elements, 4 priorities) with one operation, over 4 (6) operations after <=4 initial elements, and over every index at deterministic sizes up to 257. The element at an index is identified through a twin heap built by the same calls, so the heap must be deterministic.",
 technique=SEQ)

prop("C04", "n-ary heap yields a minimal element for every arity",
 "For every arity of at least 2, an n-ary heap returns by peek and pop an element that no other element precedes, each element exactly once, also after removing or fixing an index. An arity below 2 is refused.",
 ["inputs", "histories", "configurations"], "arities 2 to 64, all insertion orders of up to 7 elements, all operation sequences up to the bound",
 "No test exists; child selection errors depend on the arity and on which child is smallest.",
 [C+"heap/heapn.go"], [("child scan in down()", C+"heap/heapn.go")],
 "Arities 2..8 exhaustively (all operation sequences of 2 (4) after <=5 elements; all permutations of up to 7 (8)), and arities up to 64 by deterministic families with every removed/fixed index.",
 technique=SEQ)

prop("C05", "Keyed heap keeps its key index and its order consistent",
 "After any sequence of push (which replaces the value of a present key), remove by key and pop, lookup by key returns exactly the current value of present keys and reports others absent, and peek/pop return an entry that no other entry precedes. Length counts distinct keys.",
 ["inputs", "histories"], "all operation sequences over up to 6 keys, four orders, all value assignments of up to 7 keys followed by any one operation",
 "No test exists; a stale index after swaps shows only after particular push/update/remove histories.",
 [C+"meap/maep.go"], [("swap updates the key index", C+"meap/maep.go"), ("update in place then fix", C+"meap/maep.go")],
 "Exhaustive for 5 (7) operations over 4 keys x 3 values and 5 (6) operations over 6 keys, 4 comparison orders; every key checked after every step; families up to 255 keys.",
 technique=SEQ)

prop("C06", "Removable heap honours entry handles across every history",
 "An entry handle returned by push removes or updates exactly its own element while it is in the heap, and reports false without effect afterwards (popped or removed). Peek and pop always return an element that no other precedes and every element leaves exactly once.",
 ["inputs", "histories"], "all operation sequences with handles up to the bound, both orders",
 "No test exists; index tracking breaks only after particular interleavings of pops, removals and value changes.",
 [C+"reap/reap.go"], [("entry index maintained by swap and pop", C+"reap/reap.go")],
 "Exhaustive for 3 (5) operations after <=4 entries and one operation after <=7 (8), 3 priorities; every index at deterministic sizes up to 129.",
 technique=SEQ)

prop("C07", "Fixed-size rings are bounded FIFOs with exact capacity",
 "A fixed or power-of-two ring delivers elements first-in first-out through every single and batch operation, never holds more than its capacity (a batch push stores exactly what fits), and its length, free space, emptiness and fullness always agree. Popping or peeking an empty ring and pushing a full one panic; batch results never alias ring storage; construction refuses zero and too large sizes and the power-of-two ring rounds capacity up.",
 ["inputs", "histories", "configurations"], "capacities 1-5 (and families to 1025), all start positions, all operation sequences up to the bound",
 "No test exists; wrap-around errors need particular positions and batch sizes.",
 [C+"ringbuffer/fix/fix.go", C+"ringbuffer/round/roud.go", "common/math/math.go"], [("index modulo/mask arithmetic, split copies", C+"ringbuffer/fix/fix.go"), ("capacity rounding", C+"ringbuffer/round/roud.go")],
 "Exhaustive for 4 (5) operations from every start position at capacities 1..5(8), all batch sizes up to capacity+1; families to capacity 1025; huge capacities with zero-size elements.",
 technique=SEQ)

prop("C08", "Growing ring is an unbounded FIFO that never loses elements",
 "A growing ring accepts every push and delivers all elements first-in first-out, whatever its initial size (zero included) and however growth, wrap-around, batch operations and reset interleave. Growing to a minimum size yields at least that capacity and keeps the content.",
 ["inputs", "histories", "configurations"], "initial sizes 0-4 (families to 1000), all start positions, all operation sequences up to the bound",
 "No test exists; growth while wrapped is the classical missed case.",
 [C+"ringbuffer/unbounded/unbounded.go"], [("relocation in Grow", C+"ringbuffer/unbounded/unbounded.go")],
 "Exhaustive for 4 (5) operations from every start position; families of larger batches and sizes.",
 technique=SEQ)

prop("C09", "Fixed-size rings are safe for one producer and one consumer",
 "With one goroutine pushing and one popping concurrently, through single or batch operations guarded by the emptiness and fullness observers, every element that was stored comes out exactly once, in order and intact, no guarded call panics, and there is no data race.",
 ["schedules"], "all interleavings up to the preemption bound, at the granularity of every memory access, of two-operation programs (three in thorough) on capacities 1-3",
 "The documentation promises it; tests cannot enumerate schedules, and the failing windows are a few instructions wide.",
 [C+"ringbuffer/fix/fix.go", C+"ringbuffer/round/roud.go"], [("index published after the data", C+"ringbuffer/fix/fix.go")],
 "Every plain and atomic access of the ring is a scheduling point; preemption bound 2 (3); sequentially consistent interleavings plus a vector-clock race check against the Go memory model.",
 technique=SCHED)

prop("C10", "Set membership is exact",
 "After any sequence of additions and removals, a set contains exactly the elements added and not removed since, counts each once, and instances are independent.",
 ["inputs", "histories"], "all operation sequences over small domains of ints, strings, structs and floats",
 "No test exists; the guarantee is over histories.",
 [C+"set/set.go"], [("map-backed membership", C+"set/set.go")],
 "Exhaustive for 7 (12) operations on two sets over domains of 4-5 elements, families to 5000 elements.",
 technique=SEQ)

prop("C11", "Bloom filter has no false negatives and keeps its configured rate",
 "Every element added since the last clear is reported as contained, whether given as hash, bytes or string, for every capacity, rate and seed; a cleared or empty filter contains nothing. Filled to its capacity, a filter reports absent elements at about the configured false positive rate.",
 ["inputs", "histories", "configurations"], "capacities 0-6834 and up to 2^20, rates 1e-12 to 0.99, several seeds, all short operation sequences, structured hash families filled beyond capacity",
 "No test exists; a false negative needs a particular (hash, seed, size) combination, and a rate far off its target is invisible to any single lookup.",
 ["common/filter/bloom/bloom.go"], [("bit position per seed", "common/filter/bloom/bloom.go"), ("sizing from capacity and rate", "common/filter/bloom/bloom.go")],
 "Exhaustive over operation sequences of 2 (3) on 4 sizes x 8 rates and over the listed fill families; the rate is counted over a fully enumerated universe (85 configurations x 20 seeds x >=12000 absent elements) with a margin of 1.7x, so a rate between 1x and 1.7x of the configured one is not detected. Seeds come from the virtual clock.",
 technique=SEQ)

prop("C12", "Hash is a function of the content alone",
 "For one hasher, the value of an input depends only on its bytes: not on earlier calls, not on whether it was given as bytes or string, and not on the caller's buffer. Different inputs are told apart, wherever they differ.",
 ["inputs", "histories"], "all call sequences over 13 inputs up to the bound; every single-byte change and every length up to 300 (700)",
 "The tests print two hashes without comparing them.",
 ["common/hash/hash.go"], [("reset before write", "common/hash/hash.go")],
 "Exhaustive for call sequences of 3 (4) and the listed universes; hash seeds are random per process, a spurious 64-bit collision has probability below 1e-9.",
 technique=SEQ)

prop("C13", "Integer and float helpers are exact",
 "Min, max, absolute value, bit position, power-of-two tests and roundings, and integer logarithm return the mathematical result for every input whose result is representable. Splitting n into m parts yields the smallest part size that suffices and the size of the last part so that the parts add up to n.",
 ["inputs"], "all 8- and 16-bit values, all 64-bit values near powers of two, all (n,m) up to 300",
 "No test exists; boundary values (0, powers of two, extremes) are where such helpers fail.",
 ["common/math/math.go"], [("bit arithmetic", "common/math/math.go")],
 "Exhaustive over 8/16-bit domains and pairs, boundary enumeration at 32/64 bits. Zero and unrepresentable results are outside the domain.",
 technique="exhaustive enumeration of bounded input domains on the real code against an independent oracle")

L = "common/limiter/"
prop("C14", "Fixed window limiter admits exactly its limit per window",
 "A fixed window limiter admits a request exactly while the current window, which opens with the first request more than one window length after the previous opening, has admitted fewer than the limit. It recovers after any idle time, and limiters do not influence each other.",
 ["inputs", "histories", "configurations"], "all sequences of waits around the window boundaries and bursts, several windows and limits; long periodic streams; pairs of limiters",
 "The one test sleeps and samples a single stream; admission is a property of every history of arrival times.",
 [L+"fixed_window/fixed_window.go"], [("counter reset at the window boundary", L+"fixed_window/fixed_window.go")],
 "Virtual time. Exhaustive for 4 (6) steps over boundary waits x bursts against a reference limiter; request streams of up to 300 steps. Exactly on the boundary the reference follows the documented 'more than the window' rule.",
 technique=SEQ)
prop("C15", "Sliding window limiter never exceeds its limit in any window",
 "Whatever the arrival times, the number of requests a sliding window limiter admits within the slots of any one window never exceeds the limit, and a request is refused only when the window's slots are full. Invalid configurations (window not a multiple of the slot, and so on) are refused, and storage stays bounded by the slots of one window.",
 ["inputs", "histories", "configurations"], "all sequences of waits around slot and window boundaries and bursts; long periodic streams; pairs of limiters",
 "No test exists; over-admission needs arrivals on both sides of particular boundaries.",
 [L+"sliding_window/sliding_window.go"], [("expiry of slots, sum over the window", L+"sliding_window/sliding_window.go")],
 "Virtual time, slots aligned to the Unix epoch. Exhaustive for 4 (6) coarse and 7 (9) fine steps over 3 window/slot shapes and limits 1-3; streams of 300 steps.",
 technique=SEQ)
prop("C16", "Sliding log enforces every one of its strategies",
 "A sliding log admits a request exactly when all its strategies (limit per window) have room, an admitted request counts against all of them and a refused one against none, and the refusal names a violated strategy. Limiters built from the same strategy list stay independent, and old entries are discarded.",
 ["inputs", "histories", "configurations"], "all sequences of waits and bursts over strategy sets of 1-3, incl. the order given and equal windows; shared strategy slices",
 "No test exists; interplay of several windows shows only for particular arrival histories.",
 [L+"sliding_log/sliding_log.go"], [("counting back from the strategy boundary", L+"sliding_log/sliding_log.go"), ("strategies sorted at construction", L+"sliding_log/sliding_log.go")],
 "Virtual time. Exhaustive for 4 (5) coarse and 6 (8) fine steps per strategy set; streams of 150 steps; two limiters over shared slices for 4 (6) steps.",
 technique=SEQ)
prop("C17", "Leaky bucket admits at most peak plus drained requests",
 "A leaky bucket admits a request exactly while its level is below the peak, and drains its rate once per whole second. In any interval it therefore never admits more than the peak plus rate times the elapsed seconds (rounded up), it never blocks for ever, and idle time does not create credit beyond the peak.",
 ["inputs", "histories", "configurations"], "all sequences of waits around second boundaries and bursts over peaks and rates; long streams; pairs",
 "The test samples one stream; the bound must hold for every arrival history.",
 [L+"leaky_bucket/leaky_bucket_limiter.go"], [("draining by whole seconds", L+"leaky_bucket/leaky_bucket_limiter.go")],
 "Virtual time. Exhaustive for 4 (5) coarse and 6 (8) fine steps over peak x rate tables against a reference bucket, plus the interval bound on every prefix; streams of 200 steps.",
 technique=SEQ)
prop("C18", "Token bucket admits at most capacity plus earned tokens",
 "A token bucket admits a request exactly when a token is left; it gains its rate once per whole second, never holds more than its capacity and starts empty. In any interval it never admits more than the capacity plus rate times the elapsed seconds (rounded up).",
 ["inputs", "histories", "configurations"], "all sequences of waits around second boundaries and bursts over capacities and rates; long streams; pairs",
 "No test exists; the bound must hold for every arrival history.",
 [L+"token_bucket/token_bucket.go"], [("refill by whole seconds", L+"token_bucket/token_bucket.go")],
 "As C17.", technique=SEQ)
prop("C19", "Limiters stay correct under concurrent requests",
 "When several goroutines ask one limiter at the same time, the answers are those of some one-at-a-time order consistent with real time, so that concurrency never admits more than the sequential guarantee; there is no data race and no call blocks for ever.",
 ["schedules"], "all interleavings up to the preemption bound of 2x1, 2x2 and 3x1 requests on every limiter, with time passing at any scheduling point",
 "Check-then-act windows are a few instructions wide; tests with goroutines sample a handful of schedules.",
 [L+"fixed_window/fixed_window.go", L+"leaky_bucket/leaky_bucket_limiter.go", L+"sliding_log/sliding_log.go", L+"sliding_window/sliding_window.go", L+"token_bucket/token_bucket.go"],
 [("mutex around check and count", L+"token_bucket/token_bucket.go")],
 "Scheduling points at lock operations, atomics and clock reads; preemption bound 2-3 (3-5), linearizability against the reference limiters, vector-clock race detection.",
 technique=SCHED)
T = "common/timer/"
prop("C20", "Delay queue hands out every element once, in order, not early",
 "A delay queue returns from take every pushed element exactly once, never before its delay has passed and, when waiting, as soon as it has; among due elements the earliest comes first. Take returns at once with no element when its context is cancelled and loses nothing; the channel form delivers the same elements.",
 ["inputs", "histories"], "all sequences of pushes with boundary delays, waits, takes and cancellations up to the bound",
 "No test exists; order and timeliness are over every history of delays.",
 [T+"delayqueue/delayqueue.go"], [("wait for the head or a newer head", T+"delayqueue/delayqueue.go")],
 "Virtual time. Exhaustive for 6 (7) operations over 4 delays and 5 (6) over odd delays (negative, 1 ns, hours); channel consumers keep receiving until it is closed.",
 technique=SEQ)
prop("C21", "Delay queue loses no element and no wake-up under concurrency",
 "With goroutines pushing and taking concurrently and contexts cancelled at any moment, every element is delivered exactly once and not early, no push and no take blocks for ever while an element is due, cancelled takes return, and there is no data race or goroutine left behind.",
 ["schedules"], "all interleavings up to the deviation bound of programs with 1-2 pushers, 1-2 takers, cancellation and channel consumers, with timers firing and threads stalled at any scheduling point",
 "Lost wake-ups need a push or a cancellation within a window of a few instructions.",
 [T+"delayqueue/delayqueue.go"], [("sleeping flag and wake-up channel handshake", T+"delayqueue/delayqueue.go")],
 "Scheduling points at locks, atomics, channel operations, selects and clock reads; deviation bound 2-3 (3-4) per program; select choices and timer firings are enumerated; vector-clock race detection.",
 technique=SCHED)
W = T+"timingwheel/"
prop("C22", "Timing wheel runs every task once, on time and never early",
 "Every task given to the timing wheel, for any delay on any level and from any goroutine, whatever the number of slots, runs exactly once: not more than one tick before its expiry, and promptly after it when nothing is stalled. Adding never blocks the caller for ever, tasks do not delay each other, waiting does not poll, and there is no data race.",
 ["inputs", "histories", "schedules"], "all sequences of additions (delays around every level boundary) and waits; all interleavings up to the deviation bound of adders and the wheel, including stalled threads",
 "No test exists; misplaced tasks need particular delay/level/phase combinations or an adder interleaved with an advancing wheel.",
 [W+"timing_wheel.go", W+"bucket.go", W+"delayqueue.go"], [("bucket choice per level, reinsertion on flush", W+"timing_wheel.go"), ("bucket expiration set once per round", W+"bucket.go")],
 "Virtual time, tick >= 1 ms; wheel sizes 1 to 60 (one slot behaves like two). Window: (expiry - tick, expiry + 1.1 ms]; lateness is not judged in the runs that stall threads. Exhaustive over delay pairs/triples, phases and up to 2 adders; deviation bound 1-2 (2-3), including freezing any thread for a chosen time.",
 technique=SCHED)
prop("C23", "A stopped wheel timer never runs, and Stop tells the truth",
 "When Stop of a wheel timer returns true its task has not run and never will; when it returns false the task has run, is about to (its expiry is no more than a tick away or past), or had been stopped. At most one Stop returns true, and this holds at every moment, including while the timer moves between wheels.",
 ["histories", "schedules"], "stops at every boundary time of every delay, and all interleavings up to the bound of stoppers with the wheel, including double stops",
 "The race between Stop and a cascading or expiring bucket is a few instructions wide.",
 [W+"bucket.go", W+"timing_wheel.go"], [("timer's bucket pointer re-read under lock", W+"bucket.go")],
 "Virtual time; deviation bound 1-2 (2-3) with stalls and freezes. Stop may return false when another Stop overlaps.",
 technique=SCHED)
prop("C24", "A recurring wheel task runs once per scheduled occurrence",
 "A recurring task asks its schedule for the next time starting from the previous occurrence, runs exactly once for every occurrence at that time, continues until the schedule returns the zero time and then asks no more. A schedule without occurrences yields no timer, stopping ends it, and recurring tasks do not delay other timers. Occurrences however far ahead are waited for without polling.",
 ["inputs", "histories", "schedules"], "all sequences of schedules (gaps around wheel boundaries, zero and negative), waits and stops; interleavings up to the bound",
 "No test exists; the rescheduling runs concurrently with the wheel and with Stop.",
 [W+"timing_wheel.go"], [("task reschedules itself, then runs", W+"timing_wheel.go")],
 "Virtual time. Exhaustive for 4 (5) operations over 12 schedules on 3 wheels; deviation bound 1 (2); occurrences in the years 2100 to 9999 on 7 wheels. An occurrence in the past is due when it is asked for. A Stop that returns false for a recurring timer guarantees nothing.",
 technique=SCHED)
prop("C25", "Cancelling the wheel ends it cleanly at any moment",
 "When the context of a running timing wheel is cancelled, at whatever moment and however many slots have expired, Run returns, no goroutine is left behind and nothing panics. Afterwards the wheel still accepts and stops timers without blocking the caller.",
 ["schedules", "histories"], "all interleavings up to the bound of cancellation with adders, expirations and the wheel's goroutines; up to 25 slots expiring at once",
 "Shutdown races depend on where each goroutine is when the context ends.",
 [W+"delayqueue.go", W+"timing_wheel.go"], [("queue goroutine closes its channel", W+"delayqueue.go"), ("select on the context", W+"timing_wheel.go")],
 "Virtual time; deviation bound 1-2 (2-3) including stalls.",
 technique=SCHED)
U = "help/utils/"
FAULT = "exhaustive exploration of the real code on a scratch file system: every operation sequence up to the bound, and every failure point (write stopped after each byte, descriptor shortage, bad file) injected one by one, against a reference model"
ENUM = "bounded exhaustive enumeration of inputs executed on the real code (every string, value or combination up to the stated bound), compared with an independent reference"
prop("C26", "The thread-safe map behaves as a map under any concurrency",
 "Get, set, test-and-set, delete, length and the ranges of the locked map give, for any calls running at the same time, the results of some order of the calls consistent with real time: test-and-set stores only if the key is absent and returns the present value otherwise, a range visits each entry once and sees one state, a callback under the exclusive range may change the map. A panicking callback releases the lock. No data race, no call blocks for ever; the zero map is usable.",
 ["histories", "schedules"], "all operation sequences up to the bound over keys of several types; all interleavings up to the preemption bound of 2x1, 2x2 and 3x1 calls",
 "Tests sample a few schedules; a missing or wrong lock needs a particular interleaving of two calls.",
 [U+"maps.go"], [("RWMutex around an unlocked map", U+"maps.go")],
 "Sequences of 4 (5) operations; programs of 2x1 (bound 4, thorough 6), 2x2 and 3x1 (bound 2, 3) calls with every map iteration order; linearizability and vector-clock race detection.",
 technique=SCHED)
prop("C27", "Chunked uploads are reassembled exactly or reported as failed",
 "Chunks uploaded in any order, repeatedly, for several files, are stored under their index, and assembling gives exactly the concatenation of that file's chunks in index order, also when repeated or when an older result exists. A chunk whose checksum does not match is not stored. A failed write, an unreadable or missing chunk before the last, or a failed assembly is reported as an error, never as success, and repeating repairs it. Removing chunks removes those of that upload only. File names and checksums with path parts reach neither other uploads nor anything outside the upload directories. No descriptor stays open.",
 ["inputs", "histories", "faults"], "all sequences of uploads, assemblies and removals up to the bound; every byte at which a write can fail; missing, unreadable and malformed chunks",
 "No test exists; silent truncation needs a failure at a particular byte or an upload order that a sample does not contain.",
 [U+"breakpoint_continue.go"], [("one file per chunk, named by index", U+"breakpoint_continue.go"), ("assembly in index order", U+"breakpoint_continue.go")],
 "Sequences of 5 (7) operations over 2 files, 2 contents and 3 indexes; write failures after every byte through RLIMIT_FSIZE; descriptor limits. Names with path parts of up to 4 (5) tokens over 8; a missing last chunk cannot be told from a shorter upload.",
 technique=FAULT)
prop("C28", "Zip creation and extraction round-trip and stay inside the destination",
 "An archive made from a list of files holds exactly those files with their contents under the names with the given part replaced; extracting an archive writes exactly its entries under the destination and returns their paths. Extraction never writes outside the destination, whatever the entry names. Any failure, of a write, a directory, a checksum or a descriptor, is returned as an error, and large archives do not exhaust descriptors.",
 ["inputs", "faults"], "all archives of up to three entries over hostile names, types and contents; every truncation and changed byte of an archive; every byte at which a write can fail",
 "No test exists; traversal depends on the shape of entry names, and lost errors on the failing byte.",
 [U+"zip.go"], [("destination prefix check", U+"zip.go"), ("entry by entry extraction", U+"zip.go")],
 "Runs as an unprivileged user in a scratch directory. Archives of up to 3 entries, file lists of up to 3; the replaced part occurs at most once in a path.",
 technique=FAULT)
prop("C29", "File helpers report and change exactly what they name",
 "The existence, file and directory predicates answer exactly for the object a path names (links followed, but a link itself counts as a file for FileExist and in scans; paths below regular files do not exist). Creating a directory makes it, with its parents, and leaves an existing one alone; copying makes the destination equal the source, also over longer files, and leaves the source; moving and deleting affect exactly the named file; scanning lists exactly the files of a directory; checksums equal MD5 of the content. Failures are reported and leave other files unchanged.",
 ["inputs", "histories", "faults"], "all sequences of operations up to the bound over a small tree; copies over every earlier size; every byte at which a copy can fail",
 "No test exists; stale tails, swallowed errors and wrong answers need particular earlier states of the tree.",
 [U+"files.go", U+"md5.go"], [("stat-based predicates", U+"files.go"), ("create, copy, close", U+"files.go")],
 "Sequences of 2 (3) operations over trees with files, directories, links and unreadable objects; all observers are compared after every step; the root directory in a child with a root of its own. Checksummed readers do not fail.",
 technique=FAULT)
prop("C30", "AES, Base64 and digests are exact inverses and standard",
 "AES encryption and decryption are inverse for every plaintext and every AES key, use CBC with PKCS#7 padding, and never modify the caller's buffers, spare capacity included. Wrong key sizes and malformed ciphertexts (empty, partial blocks, wrong padding) give an error, never a panic. Base64 encoders and decoders are inverse in all their string and byte forms; digests equal MD5 in lower-case hexadecimal, with the optional prefix form as documented.",
 ["inputs"], "all lengths up to the bound with every key size and spare capacity; every changed padding byte; all byte strings up to 2 bytes and all lengths for Base64",
 "Padding and aliasing errors show only at block boundaries or with spare capacity.",
 [U+"md5.go", U+"base64.go", U+"breakpoint_continue.go"], [("PKCS#7 padding and unpadding", U+"md5.go"), ("CBC with the key's first block as IV", U+"md5.go")],
 "Lengths 0-100 (600) x key sizes x capacities; ciphertexts of 0-4 blocks with every padding. Secrecy is not judged (the IV is fixed by the format).",
 technique=ENUM)
prop("C31", "CSV files give back exactly the records appended to them",
 "Writing a record appends exactly that record, so that reading gives all records written, in order and with every field intact (commas, quotes, newlines, empty fields and any text included), records of different widths included, also over several files and reopenings. A failed write or open is reported as an error and leaves earlier records; a missing or malformed file reads as nothing.",
 ["inputs", "histories", "faults"], "all short field contents, all sequences of records up to the bound, every byte at which a write can fail",
 "No test exists; quoting depends on the content of fields and losses on the failing byte.",
 [U+"csv.go"], [("append with csv.Writer and flush", U+"csv.go")],
 "Fields of up to 4 (5) characters of a hostile alphabet; sequences of 4 (6) records. A field does not contain CR LF (read as LF, as by the standard CSV reader); a record has at least one field; an existing file ends with a newline.",
 technique=FAULT)
prop("C32", "Masks hide exactly what they promise, for any characters",
 "Masking a name, phone number, mail address, ID or card number keeps only the documented visible characters, counted in characters not bytes, and the result does not depend on the hidden ones: names of 1 character show nothing or only the first (customer names), of 5 and more the first and last two; mails at most three characters of the local part; 11-digit mobile numbers the first 3 and last 4; number masks star exactly the given count after the visible prefix (a number too short for that stays as it is). Substrings count characters and upper-casing the first letter keeps the rest.",
 ["inputs"], "all texts up to the bound over an alphabet of 1- to 4-byte characters, every position and length of numbers",
 "Leaks depend on length and on multi-byte characters.",
 [U+"strings.go"], [("rune slicing by length class", U+"strings.go")],
 "Texts up to 7 (9) characters over 6 kinds, mails up to 6 (8), numbers up to 30 digits with every mask count, all letters of the basic plane. Counts of number masks are not negative, substring bounds are in range.",
 technique=ENUM)
prop("C33", "Bulk insert stores every record exactly once, or says why not",
 "Inserting any number of records (structs, pointers, maps, with omitted fields) stores each record once, in order, with every field's exact value (64-bit integers, texts of any characters, NULL for absent fields), whatever table and columns are called (reserved words included), in statements within the database's placeholder limit. A record that cannot be converted, a failing statement, a duplicate key (reported as such) or an insert that affects no row is an error; a failed single batch stores nothing, and within the caller's transaction nothing remains after rollback. The records are not modified.",
 ["inputs", "faults"], "all lists of up to three records over 12 kinds and hostile values, every order of field iteration; record counts around every multiple of the chunk size; every failing statement",
 "No test exists; dropped fields depend on which record comes first and on map order, chunk errors on counts near the limit.",
 ["gorm_tools/gorm.go"], [("field names collected, values in the same order", "gorm_tools/gorm.go"), ("chunks by placeholder limit", "gorm_tools/gorm.go")],
 "Real gorm over database/sql on a model SQL database (lib/sqlx) with MySQL's conversions, 65535 placeholders and transactions. Names of tables and columns are texts without backtick and dot. Records are flat JSON objects with at least one field; map iteration order explored up to 3 (5) deviations.",
 technique="explicit-state exploration of the real code over a model database: every record list, map iteration order and failing statement up to the bound, final tables compared with a reference")
prop("C34", "Batch update sets each id's own values and nothing else",
 "A batch update by id sets, for every id of the map, exactly the given fields to exactly that id's values, whatever the map order, the number of ids and of fields, the kinds of the values and the names of table and columns (reserved words included), and leaves all other rows, fields and tables alone. Absent ids are ignored. Updates whose ids name different fields are refused or done completely, never partly dropped. Failing statements are reported; a chunk is updated entirely or not at all, and a caller's rollback undoes everything.",
 ["inputs", "faults"], "all updates of up to three ids and three fields (equal or not) in every map iteration order; sizes around every multiple of the chunk size; every failing statement",
 "No test exists; Go's random map order decides which fields and arguments are paired.",
 ["gorm_tools/update.go"], [("CASE arms and arguments built in one order", "gorm_tools/update.go"), ("chunks of 500 ids", "gorm_tools/update.go")],
 "Real gorm over database/sql on a model SQL database; map orders explored up to 3 (8) deviations; sizes up to 1501 (2000) ids, widths up to 4000 fields (as far as the placeholder limit matters).",
 technique="explicit-state exploration of the real code over a model database: every update, map iteration order and failing statement up to the bound, final tables compared with a reference")
prop("C35", "By-id and by-condition operations touch exactly the named rows",
 "Insert, delete, update by id, by ids and by condition, and soft delete affect exactly the rows they name, whatever table and columns are called, set exactly the given values (zero values and NULL included; updated_at and deleted_at to the current second for a soft delete), and report every database failure, in which case nothing changed. Unknown ids and empty id lists affect nothing; an empty condition is refused. They take part in the caller's transaction and do not influence later operations on the same handle.",
 ["inputs", "histories", "faults"], "all sequences of two operations over some 90 (three over a selection), every failure of statement, begin and commit, and all pairs inside a committed or rolled-back transaction",
 "No test exists; a widened condition or a swallowed error shows only for particular rows and failures.",
 ["gorm_tools/gorm.go"], [("WHERE by id, ids or map", "gorm_tools/gorm.go")],
 "Real gorm over database/sql on a model SQL database with virtual time. Thorough: three operations over all and four over a selection.",
 technique=SEQ)
prop("C36", "Number, size, rounding and date formatting is exact",
 "Integers survive formatting and parsing, and texts that are no decimal integer parse as zero. Rounding gives the nearest number with the given decimals (ties either way) as far as a float64 can tell, is monotone, symmetric and idempotent, and keeps numbers too large to have such decimals, for numbers of every size. Human-readable sizes use the largest unit smaller than the size (a size of exactly one unit may be shown in it or in the one below) and differ from it by at most half of the last shown digit. The date directory names the current day of the local time zone.",
 ["inputs"], "all integers of 18 bits and all around powers of two and ten, all short texts, sizes around every unit boundary, dense rounding grids, every day of 30 years at four instants",
 "Errors sit at unit boundaries, negative numbers and month ends.",
 [U+"ints.go", U+"math.go", U+"files.go", U+"times.go", U+"strings.go"], [("unit by repeated division or logarithm", U+"files.go"), ("rounding by offset and truncation", U+"math.go")],
 "Dense rounding grids for up to 6 decimals; all exponents with up to 320 decimals (idempotence for |f|*10^n < 2^49); n >= 0; sizes are not negative; the clock is virtual.",
 technique=ENUM)
prop("C37", "Path, link and content predicates are safe and exact",
 "A link accepted as same-site is never taken to another host by a browser, and plain site paths are accepted. A path accepted as not malicious stays below the directory it is joined to and is relative; paths without '..' that are relative are accepted. Suffix and image-name tests depend exactly on the last extension, content tests on the data's signature alone. Built links are the prefix and the key/value pairs in order, leaving out pairs with an empty key or value 0, and start with a single slash.",
 ["inputs"], "all strings up to the bound over the characters that matter to URL and path parsers; all two-byte contents and every signature with every tail; all parameter lists of up to three pairs",
 "Bypasses are particular character combinations that no sample guesses.",
 [U+"files.go", U+"url.go", U+"runtime.go"], [("first-characters test", U+"files.go"), ("absolute or '..' test", U+"files.go"), ("pairs joined by slashes", U+"url.go")],
 "Browser behaviour as in the WHATWG URL standard (model in the harness). Links up to 5 (6) tokens over 14, paths up to 6 (7) over 7; segments of a link contain no slash.",
 technique=ENUM)
prop("C38", "Random strings, JSON maps and switches keep their contracts",
 "A random string has exactly the requested length and only characters of the requested kind; every character of the kind can occur at every position, and calls, even at the same instant, do not determine each other. Maps written as JSON are valid JSON and read back equal; a text that is no JSON reads as no entries. A switch reads on unless it was set off; setting one changes only that one.",
 ["inputs", "histories"], "every outcome of the random source for strings of up to two characters and pairs of calls; all small maps and JSON texts; all sequences of switch settings up to the bound",
 "Tests cannot see which outcomes are impossible; exploring the random source's choices can.",
 [U+"rand.go", U+"maps.go"], [("kind table of ranges", U+"rand.go")],
 "math/rand is replaced by a source whose draws the harness enumerates, and whose seeds determine the draws; another source of randomness is judged by length and alphabet only. Numbers fit 32 bits.",
 technique="exhaustive enumeration of the outcomes of a controlled random source, and of inputs up to the bound, on the real code")
prop("C39", "Shell commands run completely and report their outcome",
 "Running a shell command text executes it line by line as one script, and nothing besides it, and returns exactly its standard output when its exit status is zero; otherwise, or when it dies, an error whose text is exactly its standard error, and no output. Output and text of any size arrive complete without blocking, and calls do not influence each other or the caller. Asking for a reload hangs up (signals) the parent process exactly once and no other process, and reports a failure exactly when it could not.",
 ["inputs", "histories"], "all scripts of up to two (three) pieces over 17 kinds, over 40 texts that end in the middle of a construct, every exit status, all combinations of output sizes around the pipe size on both streams",
 "Pipe deadlocks and lost statuses need sizes beyond a pipe buffer or particular endings.",
 [U+"cmd.go", U+"sys.go"], [("text on stdin, buffers on both outputs", U+"cmd.go"), ("signal through the kill command", U+"sys.go")],
 "Runs /bin/sh as an unprivileged user in a scratch directory. Commands that read the rest of the script from standard input, or leave background processes holding the output, are outside.",
 technique=ENUM)
prop("C40", "Calls, instances and goroutines do not influence one another",
 "What a package-level function of the helpers and the database tools returns or writes depends only on its own arguments, the files or rows it is given and the clock: neither earlier calls of anything in the module nor calls running at the same time in other goroutines (on other files, tables or maps, or with the same arguments where these are only read) change it, and there is no data race between them. The same holds for separate instances of the containers, limiters, filters, hashers and timers. Results already returned are not changed by later calls, and arguments are not written.",
 ["histories", "schedules"], "every sequence of up to three (four) of about 90 calls and instance lives, and every pair of them at the same time under every interleaving up to the deviation bound",
 "A shared buffer, cached hasher or lazily built table is correct in every single-call test; it shows only for particular pairs of calls, orders or interleavings.",
 ["help/utils/", "gorm_tools/", "common/"], [("no mutable package-level state", "help/utils/*.go, gorm_tools/*.go, common/**/*.go")],
 "Expected results come from the same call alone in a fresh process. Two argument sets per call. Pairs: deviation bound 1 (same function: 2, thorough 3) with every plain memory access a scheduling point and happens-before race detection; code in the standard library, gorm and the SQL driver runs without interruption. Random strings are compared by length and kind. Shell commands only in pairs with themselves.",
 technique=SCHED)
prop("C41", "File operations survive a stop or failing system call at any point",
 "Whatever system call of a file helper fails, and wherever the process stops (before a call that changes something, or in the middle of a write): only the paths the call names change; success is reported only with the complete result; no file stays open; what was moved is complete at one of the two places; chunks and sources stay until they are removed; earlier CSV records stay, and a record whose append failed is not there in part. Running the same operation again afterwards completes it, with the result of an undisturbed run.",
 ["crash points", "histories"], "every operation of about 30 file scenarios, every system call of it failing or being the last, every write torn at its first byte, half and last byte; up to two such events in one run, or one in each of two runs, and then an undisturbed run",
 "A test runs with a healthy disk and to the end; dropped errors of a write, rename or mkdir and wrong orders of the steps show only when that one step fails or is the last.",
 [U+"breakpoint_continue.go", U+"files.go", U+"zip.go", U+"csv.go", U+"md5.go", U+"maps.go"], [("errors of every step are returned", U+"breakpoint_continue.go"), ("temporary state of an assembly", U+"breakpoint_continue.go"), ("one write per record", U+"csv.go")],
 "The system calls are intercepted at the package os (a stand-in that forwards to the real one); the disk keeps what was written before a stop (no write-back cache is modelled). Closing and seeking do not fail. After a stop in the middle of the single write of a CSV record a part of it may remain.",
 technique="exhaustive enumeration of the stop and failure points of every run of the implementation (choice at every system call), with recovery runs, compared with the undisturbed run")
prop("C42", "File operations at the same time do not disturb one another",
 "Records appended to one CSV file at the same time are all there, each intact and those of one writer in order, and a reader sees complete records that never disappear. Chunks uploaded at the same time, assemblies, removals and uploads of other files next to each other, directories made, files moved, copied and deleted, and archives packed and unpacked at the same time give the result some order of the calls gives, and no call fails only because another one runs.",
 ["schedules"], "two or three goroutines with one or two calls each in about 22 settings, every interleaving of their system calls up to the preemption bound",
 "The lost record needs another append between positioning and writing; no single-threaded test can show it.",
 [U+"csv.go", U+"breakpoint_continue.go", U+"files.go", U+"zip.go"], [("append mode, one write per record", U+"csv.go"), ("directories made without a check first", U+"files.go")],
 "Every system call of the code under test is a scheduling point (stand-in for package os); goroutines stand for processes as well, as nothing but the files is shared. Preemption bound 2 (3 for the third group), thorough 3 or 4. Removing the chunks of an upload that is still going on is outside.",
 technique=SCHED)
prop("C43", "What an instance or a helper holds does not grow with the number of operations",
 "Memory, pending timers of the system, goroutines, open files and database connections held by an instance depend on the elements, timers, windows or waiters it has now, not on the number of operations it has gone through: repeating any mix of operations that brings an instance back to a small size, for as long as one likes, keeps nothing from the earlier rounds. Package-level helpers keep nothing of their arguments after they returned. After the end of a timing wheel and with nobody waiting at a delay queue, no goroutine and no timer of the system is left.",
 ["histories"], "every sequence of up to three (four) operations of every container, filter, limiter, timing wheel and delay queue, repeated hundreds to thousands of times (timers in virtual time), and some ten groups of helper calls with always new arguments",
 "A leak of one entry per operation passes every test: results stay right until the memory of a long-running service is used up; it needs a particular repeated mix of operations, such as removing instead of popping or stopping instead of firing.",
 ["common/", "help/utils/", "gorm_tools/"], [("removed entries leave maps, lists and heaps", "common/container/**/*.go"), ("old windows and logs dropped", "common/limiter/**/*.go"), ("timers stopped", "common/timer/**/*.go")],
 "Containers, limiters and helpers: live heap after a collection, growing by more than 4 bytes (helpers 32) per repetition in six stretches in a row; wheel and queue: reachable values, pending timers and goroutines growing through four stretches in a row. Capacity that an instance once needed may stay. The memory of the SQL driver is that of the stand-in driver.",
 technique=ENUM)

prop("C44", "Operations keep their order of cost, whatever the contents and the history",
 "Push, pop, remove and fix of the binary, n-ary, keyed and handle heaps and of the priority queue compare elements in the order of the depth of the heap (log n; n-ary: times the arity), and building a heap from n elements compares in the order of n, as documented. Operations on single elements of lists, deques, stacks, sets, rings and the thread-safe map, additions and queries of a Bloom filter and requests to a limiter take a number of steps that does not depend on the number of elements held or of requests before (sliding limiters: it depends on their number of small windows; growing structures: on average over a sequence of operations, also where pushes and pops alternate at any fill level). Adding and stopping wheel timers and pushing to and popping from a delay queue take steps in the order of log n, and a wheel runs n tasks in the order of n log n steps. Bulk insert and batch update send many records per statement.",
 ["inputs", "histories", "sizes"], "every operation of every container, limiter, delay queue and wheel at sizes from 1 to thousands of elements, seven patterns of contents, all indexes of heaps, alternation of pushes and pops at every fill level up to 140 (600)",
 "Every result of a slow operation is right, so no functional test fails; the cost shows only for particular contents, indexes or fill levels of big instances, such as a ring that is copied on every push at a certain size.",
 ["common/container/heap/heap.go", "common/container/heap/heapn.go", "common/container/", "common/limiter/", "common/timer/", "common/filter/bloom/bloom.go", "help/utils/", "gorm_tools/"], [("sift up and down along one path", "common/container/**/*.go"), ("growth by doubling", "common/container/ringbuffer/unbounded/unbounded.go"), ("old windows dropped", "common/limiter/**/*.go"), ("one bucket per time slot", "common/timer/timingwheel/*.go"), ("records per statement", "gorm_tools/*.go")],
 "Counted: calls of the comparison function, and loop iterations, function entries and elements copied in the instrumented packages. The limits are four to ten times what the code needs, so that constant factors are free; a cost that grows with n exceeds them from some 200 elements on. Sizes are a fixed list up to 1025 (16384), not all sizes. Memory allocation and map operations count as one step.",
 technique=ENUM)
