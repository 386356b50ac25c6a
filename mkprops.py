#!/usr/bin/env python3
"""Single source of the property texts: writes properties.jsonl (python3 mkprops.py)."""
import json, os

P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": qtext}, why_tests_cant=why, anchors=a))

# ------------------------------------------------------------- concurrency
p("C01", "Lock-free MPMC queue is an exactly-once FIFO under every schedule",
  "With any number of concurrent producers and consumers using the blocking and non-blocking operations of the lock-free multi-producer/multi-consumer bounded queue, every item whose enqueue succeeded is dequeued exactly once with its full contents, nothing else is ever dequeued, and the order is FIFO-linearizable (an item whose enqueue finished before another's began is never overtaken by it). "
  "A non-blocking operation fails only if the queue is really full (holds its power-of-two rounded capacity) or empty, or while another operation is in flight, and a blocking operation completes once space or an item exists. "
  "When quiescent, the size, full and empty queries agree with the contents, across any number of wrap-arounds.",
  ["schedules", "histories"], "every interleaving of any number of producer and consumer threads, queue capacities and operation mixes",
  "t_mpmcq runs a few free-running schedules with a queue that is almost never full or empty and prints latencies; it never forces preemption inside an operation nor checks the memory ordering of the hand-over.",
  ["inc/fast/mpmc_bounded_queue.h"], [("per-slot turn counters and CAS on head/tail", "MPMC_QUEUE_ENQ, MPMC_QUEUE_DEQ, *_WAIT")],
  [("head/tail", "tickets handed to producers/consumers", "struct __mpmc_q"), ("slot turn", "publication of slot contents", "_MPMC_SLOT_TYPE")],
  ["operation invocation/response events in the harness"])
p("C02", "Lock-free SPSC queue is an exactly-once FIFO with safe publication",
  "With one producer thread and one consumer thread, the single-producer/single-consumer bounded queue (static and dynamically sized) delivers exactly the enqueued items, each once, complete and in order. "
  "An enqueue fails only when size-1 items are pending and a dequeue fails only when none are; no item is visible to the consumer before it is completely written, and no slot is overwritten before it has been read. "
  "Size, full and empty queries made while nothing is in flight agree with the contents, and resetting empties the queue.",
  ["schedules", "histories"], "every interleaving of the two threads, every queue size and item type, across wrap-around",
  "t_spscq runs one free-running schedule on an almost idle ring of one size; ordering bugs that x86 hides and wrap/full corner cases are not reached.",
  ["inc/fast/spsc_bounded_queue.h"], [("acquire/release index hand-over", "SPSCQ_ENQ, SPSCQ_DEQ")],
  [("rd/wr", "next slot to read/write", "struct __spscq")])
p("C03", "Bulk ring buffer conserves and orders items for every sync mode",
  "In each single/multi producer and single/multi consumer mode, the bulk ring delivers every successfully enqueued pointer exactly once, never invents one, keeps each bulk enqueue contiguous and in order, and is FIFO-linearizable across producers and consumers. "
  "Fixed-count operations move all of the requested items or none and burst operations move as many as fit or are available and report how many; a short or failed move happens only for lack of room or items, or while another operation is in flight. "
  "At most size-1 items are held, and the used and free counts satisfy used + free = size-1 when quiescent.",
  ["schedules", "histories"], "every interleaving of producers and consumers, every bulk size, ring size, mode and index wrap-around",
  "t_ringbuf runs a fixed schedule and one mode pair on an unloaded ring; partial bulks, full/empty boundaries, wrap-around and preempted producers are not reached.",
  ["inc/fast/ringbuf.h"], [("two-step head reservation and ordered tail publication", "__rte_ring_mp_do_enqueue and siblings")],
  [("prod/cons head/tail", "reservation and publication indices", "struct rte_ring")])
p("C04", "Blocking bounded queue neither loses, duplicates, reorders nor deadlocks",
  "With any number of threads enqueueing into and dequeueing from the blocking bounded queue, each item is received exactly once and complete, items come out in the order the enqueues took effect, and never more than the capacity are pending. "
  "An enqueue blocks only while the queue is full and a dequeue only while it is empty: as long as the number of enqueues and dequeues match, every thread finishes. "
  "Accesses to the shared queue are free of data races.",
  ["schedules", "histories"], "every interleaving of any number of threads and every capacity from one item up, also when the enqueued object is itself the result of a dequeue",
  "t_prodcons exercises one producer and one consumer in whatever schedule the OS picks; a lost wake-up or race needs particular preemptions.",
  ["inc/fast/syncq.h"], [("two counting semaphores plus a mutex", "SYNCQ_ENQ, SYNCQ_DEQ, __syncobj_init")])
p("C05", "Worker pools run each submitted job exactly once and wait for all of them",
  "Every item submitted to a work manager or job manager pool is executed exactly once by the pool's callback with the submitted data and context, by a thread of that pool, and never after the wait/finish call has returned. "
  "The wait call returns only after everything submitted before it has finished executing, reports the number of failed jobs where it promises to, and terminates for every schedule with no thread left running. "
  "Tearing a pool down, and an initialization that fails, stops every thread and releases the pool's resources without touching freed memory.",
  ["schedules", "histories"], "every interleaving of submitters and workers, any pool size (including more workers than jobs, no jobs, one worker) and any mix of failing and succeeding jobs",
  "No test covers the pools in job.c and work.c beyond building them; lost wake-ups, double execution and shutdown races depend on the schedule.",
  ["src/posix/job.c", "src/posix/work.c", "inc/posix/job.h", "inc/posix/work.h", "inc/fast/syncq.h"],
  [("queue with shutdown sentinels, completion counters", "src/posix/work.c, src/posix/job.c")])

# ------------------------------------------------------------- hash tables, filters
p("C06", "Fast hash table behaves as a map for every history",
  "After any sequence of add, probe, replace, find, remove, enumerate and resize steps on the fast hash table, lookups report exactly the keys that are present with the value they were last given (a probe of a present key keeps the old value and reports it), removed or never-added keys are reported absent, and the element count equals the number of distinct keys. "
  "Dumping the table lists each present entry exactly once, growth never loses, duplicates or alters an entry, and all of this holds even when many keys collide. "
  "No history reads or writes outside the table's memory, and deleting the table releases all of it; memory use stays proportional to the peak number of live entries under insert/remove churn.",
  ["histories", "inputs", "configurations"], "every operation history, key set (including adversarially colliding keys and all-ones; 0 is reserved by the interface) and initial size",
  "t_fast-ht inserts one word list once and looks it up; removals interleaved with overflow into several bags, resizing in the middle of a chain and pathological keys are not sampled.",
  ["src/hashtable/fast-ht.c", "inc/utils/fast-ht.h"], [("fingerprinted bags chained per bucket, size doubling", "ht_add, ht_probe, ht_remove, resize")],
  [("bag slots", "hash key/value pairs", "struct bag"), ("fill, nodes, bags", "occupancy counters", "struct ht")])
p("C07", "Policy-driven hash table is a correct map with exactly-once destruction",
  "For every history of insert, conditional insert, replace, find, remove, conditional removal, iteration and clearing on the policy-based hash table, the contents equal those of a reference map keyed by the user's comparison function, the reported statistics agree with the history, and the destructor callback runs exactly once for each object that leaves the table (and never for one still in it). "
  "Full-table, bucket and sorted iterators visit each matching entry exactly once (the sorted one in comparison order), and automatic resizing starts when the share of filled buckets exceeds the configured threshold and preserves the contents. "
  "With a locking policy the table can be used by concurrent threads without data races, lost updates or self-deadlock on any return path, and every lock taken is released.",
  ["histories", "schedules", "configurations"], "every operation history, every policy combination (auto-resize or not, locking or not, custom allocator, degenerate hash function) and interleaving of threads",
  "t_hashtab performs insertion and deletion of one word list single-threaded; error returns under a lock, iterators on multi-node buckets and concurrent resizing are not exercised.",
  ["src/hashtable/hashtab.c", "src/hashtable/hashtab_iter.c", "inc/utils/hashtab.h", "inc/utils/lockmgr.h"],
  [("chained buckets, doubling resize, lock policy", "src/hashtable/hashtab.c"), ("iterators", "src/hashtable/hashtab_iter.c")])
p("C08", "Bloom filters never forget a member and keep their false-positive promise",
  "For every set of keys, the plain, counting and scalable Bloom filters answer yes for each key that was added (and, for the counting filter, not since removed as often as it was added), however many keys or repetitions were added. "
  "For keys never added, the fraction of yes answers stays near the requested error rate (filters of a thousand elements or more) as long as no more than the declared number of elements was added, and the scalable filter keeps it within its compounded bound while growing without limit. "
  "Removing a key the filter reports absent changes nothing, the reported element count (additions less removals) is right, filters compare equal exactly when they are identical, and no operation touches memory outside the filter.",
  ["histories", "inputs", "configurations"], "every key set, multiplicity, filter size and error rate, and every interleaving of adds and removes",
  "t_bloom adds one word list to a few filters; counter saturation, removal of absent keys, many scalable generations and extreme sizes are not reached.",
  ["src/hashtable/bloom.c", "inc/utils/bloom.h"], [("k-hash bit/counter array", "src/hashtable/bloom.c")])
p("C09", "Saved filters load back identical, and damaged files are rejected safely",
  "A Bloom or xor filter written to a file and read back (by either loading mode) answers every membership query exactly like the original and describes itself with the same parameters. "
  "If the file was truncated, extended, bit-flipped or otherwise corrupted, loading fails cleanly with an error (a file crafted with a matching checksum may also yield a filter that is safe to query); it never crashes, reads outside the file's contents, allocates absurdly or leaks. "
  "Saving replaces the target in one step, only after the content has reached the disk; a step that fails is reported as an error and leaves the old file as it was and no temporary file, open descriptor or mapping behind.",
  ["inputs", "fault_sequences", "configurations"], "every filter, every corruption of the file and every short write",
  "t_bloom and t_xorfilter-file save and load one good file each; corrupted headers with valid checksums and truncated files are never tried.",
  ["src/hashtable/bloom_marshal.c", "src/hashtable/xorfilter_marshal.c", "inc/utils/bloom.h", "inc/utils/xorfilter.h"],
  [("header with magic, parameters and checksum", "src/hashtable/bloom_marshal.c, src/hashtable/xorfilter_marshal.c")])
p("C10", "Xor filter contains every key it was built from",
  "For every set of distinct keys, of any size from one element up, building the 8-bit or 16-bit xor filter succeeds and every key it was built from tests as present. "
  "For other keys the false-positive rate is close to 1/256 or 1/65536 (from several hundred keys up), and construction and queries stay inside allocated memory and release it all on deletion. "
  "Invalid requests (no keys) fail cleanly without leaking.",
  ["inputs"], "every key set: sizes 0, 1, 2, ... up to millions; adjacent, sparse, adversarial and hash-like keys",
  "t_xorfilter builds filters over one or two large sets; tiny sets and construction retries are not reached.",
  ["src/hashtable/xorfilter.c", "inc/utils/xorfilter.h"], [("3-way peeling construction with reseeding", "src/hashtable/xorfilter.c")])

# ------------------------------------------------------------- allocators and containers
p("C11", "Fixed-size memory pool hands out disjoint, aligned, reusable blocks",
  "Every block obtained from a memory pool is suitably aligned, at least the configured block size, inside the pool's memory and disjoint from every other live block, so writing it never disturbs another block or the pool's own state; what is returned can be allocated again. "
  "A bounded pool yields at least one and never more than its configured maximum of live blocks and then fails cleanly, an unbounded one grows, and a pool laid over caller memory never uses a byte outside it. "
  "Deleting or finishing the pool returns all memory to the underlying allocator exactly once.",
  ["histories", "configurations"], "every alloc/free history, block size, limit, growth unit, caller-supplied memory size and misalignment, and underlying-allocator failures",
  "t_mempool allocates and frees in one pattern with one block size; limits, tiny growth units, caller memory of awkward size and allocation failure are not sampled.",
  ["src/mempool.c", "inc/utils/mempool.h", "inc/utils/memmgr.h"], [("free list over chunk list", "mempool_alloc, mempool_free")])
p("C12", "Arena and memory-manager blocks are disjoint, aligned and released together",
  "Every block obtained from an arena is aligned to eight bytes, at least as large as requested, disjoint from every other block of that arena and keeps its contents until the arena is deleted or freed, whatever mix of sizes (zero, tiny, larger than a chunk) was requested. "
  "A request that cannot be satisfied, including one whose size would overflow, fails without handing out a short block. "
  "Deleting the arena returns exactly what it took from the system, and arenas and generic memory managers built on it behave the same through their function-table interface.",
  ["histories", "inputs"], "every sequence of sizes, chunk sizes and underlying-allocation failures",
  "t_arena allocates a random but narrow range of sizes and checks little beyond non-nullness; sizes near chunk limits and integer limits are not sampled.",
  ["src/arena.c", "src/memmgr.c", "inc/utils/arena.h", "inc/utils/memmgr.h"], [("bump allocation in chunks", "arena_alloc")])
p("C13", "Growable vectors equal a reference sequence for every history",
  "After any sequence of append, push/pop at either end, indexed access, reserve/ensure, copy, append-vector, swap, reset, sort, shuffle, sample and initialize-from operations, a growable vector holds exactly the elements a reference sequence would hold, in the same order, and its length is right. "
  "Growth never loses or alters elements, shuffles are permutations, samples contain only elements of the source, and sorting yields an ordered permutation. "
  "No operation touches memory outside the vector's allocation or uses stale storage, and a pushed element may be an expression over the vector itself (its last element, a popped one).",
  ["histories", "inputs"], "every history and element type, starting from any capacity (including zero)",
  "t_vect runs one scripted history with one element type.",
  ["inc/fast/vect.h"], [("doubling reallocation macros", "VECT_RESERVE and friends")])
p("C14", "Intrusive lists keep their structure under every history",
  "After any sequence of insertions (head, tail, before, after), removals (head, tail, given node, during safe iteration) and concatenation supported by each intrusive list type (SL and DL lists, circular lists and hash-chain lists), walking the list in each supported direction visits exactly the elements a reference sequence holds, in order. "
  "Head, tail, first, last and emptiness queries agree with it, and removed nodes are not reachable. "
  "The links are consistent in both directions and no operation touches a node that is not in the list, also when the elements given to it are expressions such as the last element or one just removed.",
  ["histories"], "every history of list operations over any number of lists sharing nodes one after the other",
  "t_list runs a fixed script on two lists; order-dependent link corruption needs other histories.",
  ["inc/fast/list.h", "inc/fast/llist.h"], [("head/tail pointer maintenance macros", "SL_*, DL_* macros, list_*/hlist_*")])
p("C15", "Fixed queues and growable byte buffers keep contents and order",
  "The single-threaded bounded queue delivers exactly the enqueued elements in FIFO order, accepting an element exactly while fewer than size-1 are pending, over any number of wrap-arounds; its size, full and empty queries agree with the contents and resetting empties it. "
  "The growable buffer returns exactly the bytes or items that were appended, in order, keeps its size consistent and never loses content when it grows. "
  "Neither touches memory outside its storage.",
  ["histories"], "every history, size and element type",
  "No test exercises these containers over histories; they are only used incidentally.",
  ["inc/fast/queue.h", "inc/fast/buf.h"], [("ring indices", "FQ_* macros"), ("doubling reserve", "BUF_* macros")])
p("C16", "Bit sets and delimiter sets agree with a set model",
  "For every size and every history of set, clear, flip/assign, test and whole-set operations, bit vectors report exactly the bits of a reference set; operations on one bit change no other bit, and whole-set operations (set, clear, copy, and, or, xor, ...) act on all bits of the set. "
  "Byte-indexed delimiter sets answer correctly for all 256 byte values, including those with the high bit set. "
  "No operation touches memory outside the set.",
  ["histories", "inputs"], "every size (especially around word boundaries), index and history",
  "t_bitvect and t_bits check one size with sequential indices.",
  ["inc/fast/bitset.h", "src/bits.h"], [("word/bit index arithmetic", "inc/fast/bitset.h, src/bits.h")])
p("C17", "Binary heap always yields the minimum and keeps its elements",
  "After heapifying an arbitrary array and any sequence of inserts, minimum removals and removals at a position, the heap returns its elements in an order where each removal yields a minimum of those present, and the multiset of elements equals that of a reference. "
  "An insertion into a full heap and a removal beyond the end are refused and change nothing. "
  "No operation reads or writes outside the heap's array, including on the last, the only and the first element.",
  ["histories", "inputs"], "every history and every element order including duplicates",
  "No test covers the heap.",
  ["inc/utils/minheap.h"], [("sift-up/sift-down template functions", "inc/utils/minheap.h")])

# ------------------------------------------------------------- encoders and parsers
p("C18", "Fixed-width integer encoding round-trips in the documented byte order",
  "Encoding an 8, 16, 32 or 64 bit integer (or float/double where offered) in big or little endian writes exactly its width in bytes, most or least significant byte first as named, and decoding those bytes gives the value back, at any alignment. "
  "Byte swap and host/network conversion helpers are mutual inverses and agree with that order. "
  "No call touches a byte outside the field.",
  ["inputs"], "every value and every buffer alignment",
  "t_pack only samples a handful of values through another layer.",
  ["inc/fast/encdec.h", "inc/fast/byteorder.h", "inc/fast/swab.h", "inc/fast/little-endian.h", "inc/fast/big-endian.h"],
  [("shift based encoders/decoders", "inc/fast/encdec.h")])
p("C19", "Structured pack/unpack round-trips and never leaves its buffer",
  "For every valid format string and values, packing writes exactly the bytes the format documents (byte order, width, repeat counts, padding, strings) and returns their number, and unpacking that buffer with the same format restores the same values. "
  "For every format string (malformed, truncated, huge counts, odd characters) and every buffer size, both directions report an error rather than touching memory outside the given buffer or the format string. "
  "A buffer that is one byte too small is always rejected.",
  ["inputs"], "every format string, argument list and buffer length",
  "t_pack runs a handful of well-formed formats with sufficient buffers.",
  ["src/pack.c", "inc/utils/pack.h"], [("per-letter packer table", "src/pack.c")])
p("C20", "Field splitting returns exactly the fields of the line, in bounds",
  "Splitting a string on a set of single-byte delimiters, with or without squeezing of repeated delimiters, and splitting a comma-separated line with quoting, returns exactly the fields the documentation describes, in order, for every input and delimiter set, including bytes with the high bit set, quotes in odd places and empty strings. "
  "A caller-supplied result array is never overrun: excess fields are reported as an error instead. "
  "Tokens are disjoint, NUL-terminated pieces of the original buffer and no byte outside it is touched.",
  ["inputs"], "every input string, delimiter set, quoting and output-array size",
  "t_strsplit and t_strsplit_csv check a table of short ASCII examples.",
  ["src/strsplit.c", "src/strsplit_csv.c", "src/bits.h", "inc/utils/strutils.h"], [("delimiter bitset scan", "src/strsplit.c, src/strsplit_csv.c")])
p("C21", "Command-line splitting honours quotes and array limits",
  "Splitting a command line into words yields the whitespace-separated words with single- or double-quoted sections kept together and their quotes removed, for every input; an unterminated quote is reported as an error. "
  "At most the caller's array capacity is stored and overflow is reported, the words are disjoint NUL-terminated pieces of the caller's buffer, and nothing outside the buffer and array is touched. "
  "Re-quoting the resulting words and splitting again gives the same words.",
  ["inputs"], "every input string and array size",
  "t_splitargs checks a table of examples.",
  ["src/splitargs.c", "inc/utils/strutils.h"], [("quote-aware scanner", "src/splitargs.c")])
p("C22", "Size and number strings convert exactly, overflow is always reported",
  "Parsing a size string gives number times the documented multiplier of its suffix exactly, or a range error if that product does not fit in 64 bits, or an invalid-input error for malformed text; it never returns a wrapped or truncated value. "
  "Parsing integers in any supported base matches the mathematical value or reports overflow and reports where parsing stopped. "
  "Rendering a byte count for humans never writes beyond the given buffer, always terminates it, and denotes the amount with the largest unit not above it and a value within rounding of the true amount.",
  ["inputs"], "every string and every 64-bit value and buffer size",
  "t_strtosize and t_strtoi check small tables; the overflow boundary per suffix and buffer limits are not sampled, and the human-readable form is untested.",
  ["src/strtosize.c", "src/humanize.c", "inc/utils/strutils.h", "inc/utils/utils.h"], [("suffix table and overflow test", "src/strtosize.c"), ("unit table", "src/humanize.c")])
p("C23", "Escaping and unescaping strings are inverse and bounded",
  "Escaping a string with an escape character that is no letter or digit and unescaping the result gives the original back, for every content and escape set, and in the escaped form no byte of the set stands for itself. "
  "Unescaping any string decodes exactly the documented escapes (control letters, \\0 octal, decimal, \\x hexadecimal) and passes other bytes through; unquoting removes exactly one matching pair of surrounding quotes. "
  "The result is always terminated with the right length, and no input makes the functions read or write outside their buffers.",
  ["inputs"], "every string, escape set and escape character",
  "t_esc checks a few strings with ample buffers and unquoting has no test.",
  ["src/escape.c", "src/unescape.c", "src/strunquote.c", "inc/utils/strutils.h"], [("escape character tables", "src/escape.c, src/unescape.c")])
p("C24", "Growable strings equal a reference string for every history",
  "After any sequence of construction, duplication, append (character, C string, growable string), truncate, reset, chop, trim, unquote, copy, compare, line reading and finalize on a growable string, its contents and length equal those of a reference string, it is always NUL-terminated inside its storage, and its capacity is larger than its length. "
  "Appending a string to itself and operations at length/capacity boundaries behave like any other. "
  "No operation touches memory outside the string's storage or leaks it.",
  ["histories", "inputs"], "every history of operations and every content and length, especially at capacity boundaries",
  "Only variable expansion has a test; the growable string operations have none.",
  ["src/gstring.c", "inc/utils/gstring.h"], [("grow-on-demand append", "src/gstring.c")],
  [("str,len,cap", "storage, length and capacity", "struct gstr")])
p("C25", "Variable expansion substitutes every reference exactly once",
  "Expanding a string replaces each $name (the longest run of alphanumerics and $ # @ ? * ! < > % ^ & - _ | : .) and ${anything} reference by the value the lookup returns for exactly that name, turns \\$ into a plain dollar and leaves all other text alone, and reports unknown variables or malformed references as errors rather than producing partial garbage. "
  "The result equals that of a reference expander for every input, including values that contain dollars, very long names and values. "
  "No memory outside the strings is touched.",
  ["inputs", "configurations"], "every template string and variable mapping",
  "t_gvarexp checks a short table.",
  ["src/gstring_var.c", "inc/utils/gstring.h"], [("reference scanner", "src/gstring_var.c")])
p("C26", "Base64 encoding matches the standard and decoding inverts it, in bounds",
  "Encoding any byte string, in one call or in any split into chunks, yields standard base64 in lines of 72 characters with a final newline, and decoding that text, in one call or in arbitrary chunks, gives back exactly the original bytes. "
  "Decoding arbitrary text skips every character outside the alphabet and yields the whole bytes of the rest. "
  "A destination too small is reported, and no call writes beyond the destination or reads beyond the source.",
  ["inputs"], "every byte string, chunking and buffer size, and every malformed text",
  "t_b64_c round-trips some random strings with ample buffers.",
  ["src/b64_encode.c", "src/b64_decode.c", "inc/utils/base64.h"], [("3-step state machine", "src/b64_encode.c, src/b64_decode.c")])
p("C27", "Hex parsing and hex dumps are exact and bounded",
  "Parsing a hex string gives exactly the bytes it denotes (either case; a trailing odd digit is a high nibble), and malformed input or an output too small is reported without writing beyond the output. "
  "A hex dump of any byte string shows each byte exactly once, in order, with right offsets and printable column, 16 to a line, for every write, and its output is delivered completely or the writer's failure is reported. "
  "No byte outside the given buffers is touched.",
  ["inputs"], "every byte string, string length, chunking and buffer size",
  "t_str2hex and t_hexdump check a few short examples by eye.",
  ["src/str2hex.c", "src/hexdump.c", "inc/utils/hexdump.h", "inc/utils/strutils.h"], [("nibble decoder", "src/str2hex.c"), ("line buffered dumper", "src/hexdump.c")])
p("C28", "UUIDs are well-formed and their text form round-trips",
  "Every generated UUID has the right version and variant bits and otherwise independent, unbiased bits distinct from those of all others, and a failing entropy source is reported; its textual form is the canonical 8-4-4-4-12 hex form and parsing it gives the same UUID. "
  "Parsing accepts exactly canonical texts of either case and rejects everything else without touching memory outside the UUID. "
  "Formatting never writes beyond the given buffer and reports one that is too small.",
  ["inputs", "histories"], "every 128-bit value, every string and buffer size",
  "t_uuid round-trips a few generated values.",
  ["src/uuid.c", "inc/utils/uuid.h"], [("hex field formatter/parser", "src/uuid.c")])
p("C29", "ULIDs sort by creation time and their text form round-trips",
  "A generated ULID carries the millisecond wall-clock time of its creation in its first 48 bits and distinct, independent random bits, so ULIDs created at increasing times compare in that order both as bytes and as text. "
  "The 26-character Crockford base32 text of any ULID parses back to the same 128 bits and vice versa. "
  "Parsing rejects wrong lengths, characters outside the alphabet and values above 128 bits, and nothing outside the buffers is touched.",
  ["inputs", "histories"], "every 128-bit value, string and buffer size, and every generation time",
  "t_ulid round-trips a few generated values.",
  ["src/ulid.c", "inc/utils/ulid.h"], [("base32 coder", "src/ulid.c")])
p("C30", "IPv4 addresses, masks and prefixes parse exactly and print back",
  "Parsing an IPv4 address in dotted form gives exactly the 32-bit value the text denotes and rejects text that denotes none (wrong octet count, values above 255, stray characters), and the printed form of any address parses back to it. "
  "Address/mask parsing accepts a prefix length from 0 to 32 or a dotted mask, yields the corresponding mask exactly (all ones when none is given) and rejects other masks; converting a mask to a prefix length succeeds exactly for contiguous masks. "
  "Formatting never writes beyond the given size.",
  ["inputs"], "every 32-bit address, every prefix length and every string",
  "t_ipaddr checks a table of examples.",
  ["src/parse-ip.c", "inc/utils/parse-ip.h"], [("digit scanner", "src/parse-ip.c")])

# ------------------------------------------------------------- system services
p("C31", "Directory traversal visits every entry exactly once in order",
  "Walking any directory tree yields each directory exactly once before its contents and once after, and each other entry exactly once, with right path, name, level and type, matching an independent walk; the user's comparison function determines sibling order. "
  "Symbolic links are followed or reported as the options ask (cycles and dangling links are reported, not followed), skipping a directory skips exactly its subtree, and unreadable, vanishing or replaced entries are reported as such and not entered. "
  "The traversal leaves the working directory and open descriptors as they were and touches no memory it does not own, for any depth and name length.",
  ["inputs", "configurations", "fault_sequences"], "every tree shape, set of options, and concurrent removal, replacement or moving of entries",
  "t_fts walks one existing directory and prints it.",
  ["src/fts.c", "inc/fts.h"], [("fts_build/fts_read state machine with path buffer growth", "src/fts.c")])
p("C32", "Long and short option parsing agrees with the getopt_long contract",
  "For every argument vector, short option string and long option table, the parser reports the same options with the same arguments, flags, remaining operands and permutation as the getopt_long contract (BSD/GNU) prescribes, including abbreviations, exact matches taking precedence, optional and required arguments, '--' and errors. "
  "Operands keep their relative order and no argument is lost or duplicated by permutation. "
  "No argument vector makes it read outside the vector or the option tables.",
  ["inputs", "configurations"], "every argument vector, option table and parsing mode",
  "t_opt_test parses a generated table with no arguments.",
  ["src/getopt_long.c", "inc/getopt_long.h"], [("permutation and abbreviation matching", "getopt_internal, parse_long_options")])
p("C33", "Memory-mapped files and system exceptions report contents and errors faithfully",
  "Mapping any window of a file (whole, offset, odd sizes) gives exactly the file's bytes, writes through a shared writable mapping reach the file, a mapping opened for creation grows the file to its end, unmapping/destroying releases the mapping and descriptor, and locking or unlocking a range affects exactly the pages that the range touches. "
  "Opening or mapping something that cannot be mapped fails with an exception or error that carries the right error number and a message naming the cause, without leaking a descriptor. "
  "Formatting any such message, however long, neither aborts nor overflows.",
  ["inputs", "fault_sequences", "histories"], "every file size, offset, window, open mode and failure",
  "mmaptest maps one fixed file.",
  ["src/posix/mmap.cpp", "src/sysexception.cpp", "src/posix/syserror.cpp", "inc/utils/mmap.h", "inc/syserror.h"], [("class mmap_file", "src/posix/mmap.cpp")])
p("C34", "String search finds exactly the true occurrences",
  "Each string search algorithm offered (Knuth-Morris-Pratt, Boyer-Moore, Rabin-Karp) reports a match exactly where the pattern occurs in the text and none where it does not, for every text and pattern over the full byte range, including patterns longer than the text, periodic patterns and overlapping occurrences. "
  "All of them agree with a naive search about the set of all occurrences; an empty pattern matches nowhere. "
  "No search reads outside the text or pattern, and the Knuth-Morris-Pratt search compares a number of characters linear in the text and pattern.",
  ["inputs"], "every text and pattern of every length and byte value",
  "strmatch runs a small table of ASCII cases.",
  ["inc/utils/strmatch.h"], [("failure/bad-character/rolling-hash preprocessing", "inc/utils/strmatch.h")])
p("C35", "Log rotation never loses the newest generations",
  "Rotating a file renames it to generation 0, shifts each existing generation by one, and keeps at most the configured number (at least 1) of generations, never losing the newest ones or changing their contents, whichever generations existed before; up to 100 generations beyond the limit are deleted and nothing else in the directory is touched. "
  "Conditional rotation by size rotates exactly when the file is larger than the given number of megabytes. "
  "If a step fails the error is returned and no generation within the limit has been lost or overwritten.",
  ["histories", "fault_sequences", "configurations"], "every set of existing generations, limits, sizes and failing file-system steps",
  "t_rotatefile rotates one file once or twice with no failing step.",
  ["src/rotatefile.c", "inc/utils/rotatefile.h"], [("descending rename chain", "src/rotatefile.c")])
p("C36", "Path helpers: directory creation and path splitting are exact",
  "Creating a directory hierarchy succeeds for every absolute or relative path (redundant slashes, dots, existing prefixes, concurrent creators) by leaving every component as a directory with the requested permissions, and otherwise reports the error that stopped it, creating nothing outside the path. "
  "Directory-part extraction gives the POSIX dirname result for every path, or refuses when the buffer is smaller than the path needs. "
  "Neither ever writes beyond the given buffer.",
  ["inputs", "schedules", "fault_sequences"], "every path string and buffer size, and every interleaving of concurrent creators",
  "t_mkdirhier and t_dirname check small tables single-threaded.",
  ["src/mkdirhier.c", "src/dirname.c", "inc/utils/mkdirhier.h", "inc/utils/strutils.h"], [("component walk", "src/mkdirhier.c"), ("slash scan", "src/dirname.c")])

# ------------------------------------------------------------- hashing and randomness
p("C37", "Hash functions compute their published values from exactly the given bytes",
  "The named hash functions (CityHash, FastHash, FNV, Hsieh, Murmur3, SipHash-2-4, xxHash) return the value their published definition gives for every byte string and seed, in every width offered. "
  "The value depends on exactly the given bytes, their number and the seed: not on buffer alignment, on neighbouring memory or on earlier calls. "
  "No byte outside the input is read, for any length including zero.",
  ["inputs"], "every byte string length, content, alignment and seed",
  "t_siphash24 checks vectors for one function; t_hashspeed/t_hashbench only measure speed and collisions on words.",
  ["src/hashfunc/cityhash.c", "src/hashfunc/fasthash.c", "src/hashfunc/fnvhash.c", "src/hashfunc/hsieh_hash.c", "src/hashfunc/murmur3_hash.c", "src/hashfunc/siphash24.c", "src/hashfunc/xxhash.c", "src/hashfunc/yorrike.c", "inc/utils/hashfunc.h", "inc/utils/siphash.h", "inc/utils/xxhash.h"],
  [("block loop plus tail switch in each function", "src/hashfunc/*.c")])
p("C38", "Incremental hashing equals one-shot hashing for every chunking",
  "Feeding a byte string to the incremental SipHash or xxHash (32 and 64 bit) interface in any sequence of chunks, including empty ones, gives the same digest as hashing it in one call. "
  "Reading the digest does not disturb further updates where that is offered, and a reset or re-initialised state behaves like a new one. "
  "No update reads outside its chunk or writes outside the state.",
  ["inputs", "histories"], "every byte string, seed and chunking",
  "No test feeds more than one chunk.",
  ["src/hashfunc/siphash24.c", "src/hashfunc/xxhash.c", "inc/utils/siphash.h", "inc/utils/xxhash.h"], [("buffered partial block", "siphash24_update, XXH32_update, XXH64_update")])
p("C39", "Seeded pseudo-random generators reproduce their published sequences",
  "From a given state each seeded generator (xorshift64*, xorshift128+, xorshift1024*, xoroshiro128+, RomuQuad/Trio/Duo and SplitMix64) produces exactly the sequence of its published definition for any number of draws. "
  "Generators with separate states do not influence each other, and the same seed always gives the same sequence. "
  "Seeding never leaves a generator in its degenerate all-zero state, and frand() always lies in [0, 1).",
  ["inputs", "histories"], "every state and every number of draws",
  "t_xorrand, t_frand check a few statistics of outputs, which a wrong shift constant passes.",
  ["src/prng/xorshift.c", "src/prng/xoroshiro.c", "src/prng/romu-rand.c", "src/prng/frand.c", "inc/utils/xorshift-rand.h", "inc/utils/xoroshiro.h", "inc/utils/romu-rand.h", "inc/utils/splitmix.h"],
  [("state update functions", "src/prng/*.c")])
p("C40", "Cryptographic random stream: right bytes, reseeded, never shared or repeated",
  "The cryptographic generator's output is the ChaCha keystream of seeds taken from the system entropy source, with bytes consumed from the stream at most once and the key replaced at least every documented number of bytes, whatever sizes are requested. "
  "Different threads and a parent and its forked child never produce overlapping streams. "
  "Bounded draws are always below the bound and uniformly distributed for every bound, and exactly the requested number of bytes is written.",
  ["histories", "schedules", "inputs"], "every sequence of request sizes, bounds, threads and forks",
  "No test exercises it; repetition after fork, reseeding limits and bias need long or special histories.",
  ["src/arc4random.c", "src/chacha_private.h", "inc/utils/arc4random.h"], [("per-thread ChaCha state, stir on fork or exhaustion", "src/arc4random.c")])

# ------------------------------------------------------------- text I/O and misc
p("C41", "Line reading returns every line once, bounded by the buffer",
  "Reading a text stream line by line with freadline returns each line's bytes without its terminator (CR, LF or CRLF), in order, zero-terminated and with the right length (0 and an empty string for an empty line), including a final line without a newline, and then reports end of file. "
  "A line that does not fit together with its terminating zero is reported as too long without writing beyond the caller's buffer, for every nonempty buffer. "
  "Read errors are reported as errors, not as end of file.",
  ["inputs", "fault_sequences"], "every stream content, line length, buffer size and read error",
  "No test covers it.",
  ["src/freadline.c", "inc/utils/strutils.h", "inc/utils/utils.h"], [("getc loop with length bound", "src/freadline.c")])
p("C42", "Terminal helpers: password entry and progress bars are safe for any input",
  "Reading a password from a terminal returns exactly the typed line within the buffer limit with echo disabled during the entry, and always restores the terminal's settings, on success, interruption, end of file and over-long input. "
  "A progress bar drawn for any total, any sequence of updates and any terminal width never crashes, never shows more than 100 percent, is monotone, and shows completion exactly when the total is reached. "
  "Neither writes outside its buffers.",
  ["inputs", "configurations", "fault_sequences"], "every typed input, terminal size and update sequence",
  "t_readpass needs a terminal and is skipped; t_progress runs without one.",
  ["src/readpass.c", "src/progbar.c", "inc/utils/readpass.h", "inc/utils/progbar.h"], [("termios save/restore", "src/readpass.c"), ("width arithmetic", "src/progbar.c")])
p("C43", "Error reporting prints the whole message safely",
  "The error and warning reporters print the program name prefix, the formatted message, the text of the given error number when there is one, and exactly one newline, to the error stream, for every message length including empty and over-long ones, which are truncated but still terminated by a newline. "
  "A nonzero exit code terminates the program with that code and zero returns to the caller. "
  "No message makes them read or write outside their buffers.",
  ["inputs"], "every format, argument, message length and error number",
  "The reporters are only used incidentally with short messages.",
  ["src/error.c", "inc/error.h"], [("bounded vsnprintf with suffix", "src/error.c")])
p("C44", "Bounded copies and trims never overflow and equal the reference",
  "Bounded string copies copy as much of the source as fits, always terminate the destination when it has room for at least one byte, report truncation as documented and never write beyond the destination. "
  "Trimming removes exactly leading and trailing whitespace, and case-insensitive comparison agrees in sign with a reference comparison. "
  "No byte outside source and destination is touched for any lengths.",
  ["inputs"], "every source string, destination size and byte value",
  "t_strcopy checks a few lengths.",
  ["src/strcopy.c", "src/strlcpy.c", "src/strtrim.c", "src/strcasecmp.c", "inc/utils/strutils.h"], [("length-bounded loops", "src/strcopy.c")])
p("C45", "Constant-database reader finds every record and survives corrupt files",
  "In a well-formed constant database, every stored key is found with exactly its stored value (also keys whose hashes collide, empty keys and empty values) and absent keys are reported absent. "
  "For any other file content (truncated, random, with bad offsets or lengths), opening or looking up fails cleanly and never reads outside the mapped file. "
  "A failed open leaves no descriptor or mapping behind.",
  ["inputs", "fault_sequences"], "every key set and every corruption of the file",
  "The reader is not built or tested by the project's test suite.",
  ["src/cdb_read.c", "src/cdb_reader.h"], [("hash table probe with offset checks", "src/cdb_read.c")])
p("C46", "Compression stream wrappers round-trip for every chunking",
  "Compressing a byte string through the streaming wrapper in arbitrary chunks and decompressing the output in arbitrary chunks gives back exactly the original bytes, and the bytes accepted by the output callback (which may take only part of them) form one valid compressed stream. "
  "Corrupt compressed input is reported as an error, truncated input delivers what it holds and never reports the end of the stream, and a failing output callback (result 0 or negative) is reported as an error. "
  "No memory is leaked or accessed out of bounds.",
  ["inputs", "histories", "fault_sequences"], "every content, chunking, buffer size and corruption",
  "The wrappers are not built or tested by the project's test suite.",
  ["src/zbuf_c.c", "src/zbuf_unc.c", "inc/zlib"], [("deflate/inflate drive loops", "src/zbuf_c.c, src/zbuf_unc.c")])
p("C47", "Daemonizing detaches completely and keeps its promises",
  "After daemonizing, the one surviving process runs in a new session which it does not lead (so it has and gets no controlling terminal), is not a child of the original process, has standard input, output and error attached to the null device whatever was open before, file creation mask 022 and the given working directory (/tmp by default); its other descriptors are unchanged. "
  "The original process exits with code 0, output it had buffered is written exactly once, and failures (fork, directory, redirection) are returned as errors. "
  "No stray descriptors are left open by the procedure.",
  ["configurations", "fault_sequences"], "every initial descriptor, session and directory state",
  "No test covers it.",
  ["src/daemon.c", "inc/utils/daemon.h"], [("double fork and setsid", "src/daemon.c")])
p("C48", "Address resolution returns well-formed results and releases them",
  "Resolving numeric addresses and local names yields exactly the addresses a reference resolver yields, enumerating local interfaces lists each with the right name, flags and address, and formatting any socket address gives its standard text within the given buffer. "
  "Failures return an error without leaking memory. "
  "Results can be walked and freed exactly once.",
  ["inputs", "configurations"], "every numeric address, name, family and buffer size",
  "t_cresolve resolves one name and prints it.",
  ["src/c_resolve.c", "inc/utils/resolve.h"], [("getaddrinfo wrapper", "src/posix/c_resolve.c")])
p("C49", "Arithmetic, duration, clock and index helpers are exact over their domain",
  "The alignment, power-of-two and next-power macros and their C++ template counterparts give the mathematically right result for every integer type and every argument whose result fits (powers of two for positive values), evaluating each argument once. "
  "The duration macros give the exact number of units for every count whose result fits 64 bits, the clock helpers return exactly what the system clock (or cycle counter) says in their unit, and the speculation-safe index equals the index when it is in range and zero otherwise, for every size up to half the index range. "
  "The allocation macros return zeroed or sized objects of their type, array sizes are exact, and no argument in the domain causes undefined behaviour.",
  ["inputs"], "every argument value in the documented domain, every integer type, C and C++",
  "Incidental uses in the tests check a few constants only.",
  ["inc/utils/utils.h", "inc/utils/nospec.h", "inc/utils/typeutils.h", "inc/fast/tmutils.h", "inc/utils/new.h"], [("macros, inline functions and templates", "inc/utils/utils.h, inc/utils/nospec.h")])
p("C50", "Generated option parsers implement their specification",
  "For every valid option specification, the option-parser generator emits code that compiles and parses exactly the specified long and short options into the generated structure: exact values of every type, defaults, presence flags, ranges, required arguments, callbacks, remaining arguments and usage and version texts. "
  "Unknown options, missing arguments, malformed values and values out of range are reported and counted as errors. "
  "Invalid specifications are refused with a message and a failing exit status instead of producing a wrong parser.",
  ["inputs", "programs"], "every specification and every argument vector for it",
  "One checked-in specification is generated and built; no test runs the generated parser over its argument space or another specification.",
  ["tools/mkgetopt.py", "src/getopt_long.c"], [("template-driven generator", "tools/mkgetopt.py")])
p("C51", "Tree walk visits every entry exactly once with its type and status",
  "The file tree walk calls its callback exactly once for every entry below the root and for the root itself (parents before their contents), with the path built from the root, the type (file, directory, link or inaccessible) and the status of that entry; a directory that cannot be read is additionally reported as such and not entered. "
  "A callback that returns nonzero stops the walk at once and its value is returned; otherwise the result is 0, and a walk that cannot start or is cut short (memory exhausted) returns an error instead. "
  "Whatever the outcome no descriptor is left open and the working directory is unchanged.",
  ["inputs", "configurations"], "every tree, every kind of root and every stopping point",
  "The walk is not built or tested by the project's test suite.",
  ["src/ftw.c", "src/ftw.h"], [("recursive directory walk", "src/ftw.c")])

p("C52", "Running out of memory is reported or stops at a check, never corrupts",
  "Whenever an allocation fails inside the library (once, several times or for good), the call either returns its documented failure, leaving the object usable with exactly the contents it had before, or the program stops at an assertion where the interface has no error result; it never crashes otherwise, corrupts memory, loses or invents elements, or reports success for work not done. "
  "Once memory is available again the same objects work and a retried call succeeds. "
  "After destruction nothing stays allocated.",
  ["inputs", "fault_sequences"], "every allocation of every history as the failing one",
  "No test makes an allocation fail.",
  ["src/hashtable", "src/mempool.c", "src/arena.c", "src/memmgr.c", "src/strsplit.c", "src/gstring.c", "src/gstring_var.c", "src/pack.c", "src/posix/job.c", "src/posix/work.c", "src/readpass.c", "inc/fast"], [("every allocating function", "src/hashtable, src/*.c, inc/fast")])
p("C53", "Unrelated calls and objects can be used from many threads at once",
  "Any function of the library applied on several threads at the same time to different objects or buffers gives on every thread exactly the result it gives alone, whatever the others do, also when it is the first use in the process: there is no hidden shared state and no data race. "
  "The same holds for queries (lookups, membership tests, searches) on one shared object that nobody modifies. "
  "Functions documented as keeping global state (option parsing, frand) are excluded.",
  ["inputs", "schedules"], "every combination of calls, inputs and interleavings of threads",
  "The tests are single-threaded apart from those of the queues and pools.",
  ["src", "src/hashtable", "src/hashfunc", "src/posix", "inc/utils"], [("all reentrant functions", "src, inc")])
p("C54", "Semaphores and lock managers count and exclude exactly",
  "The portable semaphore (mutex and condition based) never lets more waits succeed than its initial value plus posts, wakes a waiter for every post, fails a non-blocking wait with EAGAIN exactly when it is zero, and may be destroyed and released by a waiter as soon as its wait has returned. "
  "A lock created from the mutex lock manager gives mutual exclusion and visibility between threads, independently of every other lock; the null managers never block or create anything, and every macro works on a deleted lock. "
  "A failing creation is reported with the error number and leaves nothing behind.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of posts, waits, locks and destruction",
  "No test uses them; lost wake-ups and use after destruction need particular interleavings.",
  ["src/posix/darwin_sem.c", "inc/Darwin/semaphore.h", "src/posix/cmutex.c", "inc/utils/lockmgr.h"], [("semaphore", "src/posix/darwin_sem.c"), ("lock managers", "src/posix/cmutex.c, inc/utils/lockmgr.h")])
p("C55", "The Fletcher checksum is the defined modular sum for every length",
  "The 32-bit Fletcher checksum of every sequence of 16-bit words equals the pair of running sums modulo 65535 (never written as zero) whatever the length and the values, including those that drive the intermediate sums to their maximum. "
  "It does not read outside or modify the data and changes whenever a bit flips or two neighbouring different words are exchanged (0 and 0xffff being the same value).",
  ["inputs"], "every word string",
  "The file is not built by the project's test suite.",
  ["src/fletcher-cksum.c"], [("deferred reduction", "src/fletcher-cksum.c")])
p("C56", "Affinity calls bind exactly the given thread to the given processor",
  "Binding the process, a thread or the calling thread to a permitted processor makes its affinity mask exactly that processor, leaves every other thread's mask unchanged and is inherited by later children. "
  "A processor that does not exist or is not permitted, or an absurd number, changes nothing and is reported as -EINVAL by the process call. "
  "The processor count is the number of processors online.",
  ["inputs", "histories", "configurations"], "every processor number and set of threads",
  "No test calls these functions with a result it checks.",
  ["src/posix/linux_cpu.c", "inc/utils/cpu.h"], [("affinity", "src/posix/linux_cpu.c")])
p("C57", "The dependency weeder deletes exactly the invalid dependency files",
  "For every list of dependency files the weeder echoes, in order, those whose rule names only existing files and leaves them untouched, deletes those that are empty, truncated before the rule or name a missing file, and ignores those that don't exist. "
  "It creates and deletes nothing else and never fails half-way.",
  ["inputs", "configurations"], "every set of dependency files as written by the compiler (paths without blanks)",
  "No test covers the script.",
  ["tools/depweed.py"], [("validate_dep", "tools/depweed.py")])
p("C58", "Secrets do not outlive their use",
  "When password entry returns, whether with the password, for want of a confirmation or with an error, its buffers on the stack hold nothing of what was typed. "
  "The random generator keeps neither the seeds it took from the system nor the bytes it has already given out anywhere in the process's memory, also in optimised builds.",
  ["inputs", "histories", "configurations"], "every password, outcome of its confirmation and end of the input; every history of random requests, across reseeding; every level of optimisation",
  "Tests look at returned values; what stays behind in memory afterwards, and whether the compiler removed the clearing of it, shows in no return value.",
  ["src/readpass.c", "src/arc4random.c"], [("portable_readpass", "src/readpass.c"), ("arc4random_buf", "src/arc4random.c")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
