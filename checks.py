"""Registry of the checks: for each property the workloads (jobs) that run.py builds and runs."""
FIBW = """pthread_create pthread_join pthread_detach pthread_self pthread_setaffinity_np pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock
 pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_signal pthread_cond_broadcast
 sem_init sem_destroy sem_wait sem_trywait sem_post sched_yield usleep nanosleep""".split()
from notes import N as _N
CHECKS = {}
def J(name, src, mode="asan", cases=100, shards=4, **kw):
    d = dict(name=name, src=[s if "/" in s else "harness/" + s for s in src.split()], mode=mode, cases=cases, shards=shards, **kw)
    if mode in ("fib", "fiba"): d.setdefault("wrap", FIBW)
    return d
def check(pid, technique, note, rule, jobs, assumptions=(), **kw):
    CHECKS[pid] = dict(technique=technique, note=note, rule=rule, jobs=jobs, assumptions=list(assumptions) or list(_N.get(pid, [])), **kw)

check("C01", "controlled-schedule runtime monitoring (preemption at every load/store) + FIFO-linearizability checker over recorded histories + TSan + delay injection",
  "Exploration: histories recorded from the real macros under seeded controlled schedules are checked by an exactly-once/FIFO-linearizability checker; TSan judges the hand-over ordering that x86 hides. Trusts the fiber scheduler (sequentially consistent interleavings) and TSan.",
  "a case is one queue configuration and one schedule/operation sequence; distinct = distinct hash of context-switch positions and recorded operations",
  [J("fib", "c01_mpmc.c", "fiba", cases=8000, shards=8, nolib=True, tcases=60000),
   J("model", "c01_mpmc.c", "asan", cases=250, shards=2, nolib=True, args=["mode=model"]),
   J("tsan", "c01_mpmc.c", "tsand", cases=10, shards=3, alone=True, nolib=True, tcases=150),
   J("delay", "c01_mpmc.c", "delay", cases=15, shards=2, alone=True, nolib=True, tcases=300)],
  floors={"schedules": 1000, "failed_attempts_alone": 20, "free_items": 1000})
QT = "controlled-schedule runtime monitoring (preemption at every load/store) + FIFO-linearizability checker over recorded histories + TSan + delay injection"
QN = "Exploration: histories recorded from the real code under seeded controlled schedules are checked by an exactly-once/FIFO checker; TSan judges the memory ordering that x86 hides; a sequential model checks fullness/counts. Trusts the fiber scheduler (sequentially consistent interleavings) and TSan."
QR = "a case is one queue configuration and one schedule/operation sequence; distinct = distinct hash of context-switch positions and recorded operations"
def queue_jobs(src, fibcases=8000, tsan=10, delay=15, alone=True):
    return [J("fib", src, "fiba", cases=fibcases, shards=8, nolib=True, tcases=fibcases * 15),
            J("model", src, "asan", cases=400, shards=2, nolib=True, args=["mode=model"]),
            J("tsan", src, "tsand", cases=tsan, shards=3, alone=True, nolib=True, tcases=tsan * 15),
            J("delay", src, "delay", cases=delay, shards=2, alone=True, nolib=True, tcases=delay * 20)]
check("C02", QT, QN, QR, queue_jobs("c02_spsc.c"), floors={"schedules": 1000, "failed_attempts_alone": 20, "free_items": 1000})
check("C03", QT, QN, QR, queue_jobs("c03_ring.c", 4000), floors={"schedules": 1000, "short_calls_alone": 20, "free_items": 1000})
check("C04", QT, QN, QR, [J("fib", "c04_syncq.c", "fiba", cases=8000, shards=8, nolib=True, tcases=120000),
   J("tsan", "c04_syncq.c", "tsand", cases=10, shards=3, alone=True, nolib=True, tcases=150),
   J("delay", "c04_syncq.c", "delay", cases=15, shards=2, alone=True, nolib=True, tcases=300)], floors={"schedules": 1000, "free_items": 1000})
check("C05", "controlled-schedule runtime monitoring with exact deadlock detection + exactly-once/ordering monitor + TSan + ASan/LSan",
  "Exploration: pools run on fibers with replaced pthread/semaphore primitives (exact deadlock and misuse detection, deterministic schedules, ASan on), plus free-running threads under TSan, delays and LSan; a per-job monitor checks exactly-once, data visibility, wait and error counts.",
  "a case is one pool configuration (kind, threads, submitters, jobs, failures) and one schedule; distinct = distinct hash of context-switch positions",
  [J("fib", "c05_pool.c", "fiba", cases=700, shards=8, tcases=20000),
   J("tsan", "c05_pool.c", "tsand", cases=25, shards=3, alone=True, tcases=300),
   J("asan", "c05_pool.c", "asan", cases=40, shards=2, alone=True, tcases=400)], floors={"schedules": 1000, "jobs_run": 1000, "failed_threads": 50, "failed_semaphores": 50, "failed_mutexes": 50})

DIFF = "differential runtime monitoring against an independent reference model, under ASan+UBSan"
def NOTE(what): return f"Exploration: {what} Random and boundary-biased workloads; every execution is judged by the reference and by ASan/UBSan (exactly sized heap buffers). Nothing is claimed for inputs not run."
check("C06", DIFF, NOTE("histories over generated key sets run on the real table next to a reference map; heap use is read from the sanitizer allocator."),
  "a case is one table configuration, key set and operation history; distinct = distinct hash of configuration and successful history",
  [J("asan", "c06_ht.c", cases=700, shards=6, tcases=30000), J("msan", "c06_ht.c", "msan", cases=150, shards=2, tcases=3000)], floors={"ops": 100000, "splits": 500, "churns": 10, "dumps": 200})
check("C07", DIFF + "; lock monitor; controlled schedules and TSan for the locking policy", NOTE("histories run on the real table next to a reference map with a destructor ledger, fault-injecting allocator and a lock monitor; concurrent use is run under controlled schedules and TSan."),
  "a case is one policy and operation history (or schedule); distinct = distinct hash of policy and history, or of context-switch positions",
  [J("seq", "c07_tab.c", cases=2500, shards=6, tcases=60000),
   J("fib", "c07_tab.c", "fiba", cases=500, shards=6, tcases=10000),
   J("tsan", "c07_tab.c", "tsand", cases=25, shards=2, args=["mode=mt"], alone=True, tcases=300)], floors={"ops": 100000, "iterations": 2000, "schedules": 500, "mt_splits": 100})
check("C08", DIFF, NOTE("filters of all kinds are filled next to a reference multiset; false-positive rates are measured on fresh keys with a statistical margin; element counts are read from the description."),
  "a case is one filter configuration, key style and history; distinct = distinct (kind, size, rate, style, adds)",
  [J("asan", "c08_bloom.c", cases=350, shards=6, tcases=8000), J("msan", "c08_bloom.c", "msan", cases=120, shards=2, tcases=2000)], floors={"adds": 200000, "fp_runs": 50, "counting_runs": 100})
check("C09", DIFF + "; fault injection; file mappings replaced by exactly sized heap blocks", NOTE("filters are saved, reloaded in both modes and compared; truncated, flipped, extended, random and crafted-with-valid-checksum files are loaded and queried with every byte past the file poisoned; saving runs with each failing step injected; descriptors, mappings and temporary files are counted."),
  "a case is one filter with its reloads and a dozen damaged files; distinct = distinct hash of filter size/kind and damage sequence",
  [J("asan", "c09_marsh.c", cases=300, shards=8, libs=["-lsodium"], wrap=["mmap", "munmap", "ftruncate", "rename", "mkostemp", "fstat", "fsync", "fdatasync"], tcases=6000)], floors={"load_faults": 700, "damaged_files": 5000, "faults": 500, "accepted": 50, "rejected": 2000})
check("C10", DIFF, NOTE("filters over every small size and many large key sets are queried for all keys and for fresh keys."),
  "a case is one key set; distinct = distinct (size, width, style)",
  [J("asan", "c10_xor.c", cases=300, shards=6, tcases=3000)], floors={"millions": 3, "keys": 50000})
check("C11", DIFF + "; allocation ledger and fault injection", NOTE("pools of every kind run random alloc/free histories next to a ledger of live blocks (painted and re-read) and of the memory taken from the underlying allocator, which also fails on request; caller memory is an exactly sized, possibly misaligned heap block."),
  "a case is one pool configuration and history; distinct = distinct hash of configuration and history",
  [J("asan", "c11_pool.c", cases=900, shards=6, tcases=20000), J("cpp", "c11_cpp.cpp", cases=300, shards=2, tcases=5000)], floors={"ops": 100000, "mem_pools": 200, "mem_refused": 50, "at_limit": 100, "refills": 300, "create_failed": 20, "cpp_runs": 100})
check("C12", DIFF + "; malloc ledger and fault injection", NOTE("arenas with every kind of chunk size serve random, boundary and near-overflow requests directly and through the manager interface; blocks are painted and re-read, malloc is counted and fails on request."),
  "a case is one arena and request sequence; distinct = distinct hash of chunk size and request sizes",
  [J("asan", "c12_arena.c", cases=900, shards=6, wrap=["malloc", "calloc", "free"], tcases=20000)], floors={"blocks": 50000, "refused_huge": 1000, "failed": 200})
check("C13", DIFF, NOTE("three vectors of one of four element types run random histories of every macro next to plain arrays; storage comes from the sanitizer allocator."),
  "a case is one element type and history; distinct = distinct hash of the operation sequence",
  [J("asan", "c13_vect.c", cases=1500, shards=6, nolib=True, tcases=40000)], floors={"ops": 100000, "shuffles": 1000, "samples": 500, "init_from": 500, "init_from_empty": 50})
check("C14", DIFF, NOTE("nodes that are separate heap blocks (freed and renewed when removed) move between three lists of one kind in random histories next to reference sequences; every list is walked in each direction after each operation."),
  "a case is one list kind and history; distinct = distinct hash of the history",
  [J("asan", "c14_list.c", cases=1500, shards=6, nolib=True, cflags=["-fno-sanitize=null,pointer-overflow,object-size"], tcases=40000)], floors={"ops": 100000, "purges": 2000})
check("C15", DIFF, NOTE("queues of five element types and sizes and byte buffers run random histories next to a reference."),
  "a case is one container and history; distinct = distinct hash of the history",
  [J("asan", "c15_fq.c", cases=1200, shards=6, nolib=True, tcases=40000)], floors={"ops": 100000, "full": 1000, "empty": 1000, "bufs": 500, "selfs": 1000})
check("C16", DIFF, NOTE("four bit sets of one size run random histories next to byte arrays, all bits compared after each operation; delimiter sets are asked all 256 byte values in each integer type."),
  "a case is one set size and history; distinct = distinct hash of the history",
  [J("asan", "c16_bits.c", cases=700, shards=6, nolib=True, tcases=20000)], floors={"ops": 50000, "delim_sets": 2000})
check("C17", DIFF, NOTE("heaps over exactly sized arrays run random insert/remove-minimum/remove-at histories next to a multiset; heap order is checked after each operation."),
  "a case is one capacity, initial array and history; distinct = distinct hash of the history",
  [J("asan", "c17_heap.cpp", cases=1200, shards=6, nolib=True, tcases=40000)], floors={"large": 9, "ops": 50000, "minima": 10000, "removed_at": 5000, "full": 500})
check("C18", DIFF, NOTE("boundary and random values are encoded and decoded at every alignment; bytes are predicted by arithmetic on the value; 16-bit values are exhausted."),
  "a case is one width, order and value, or one value through all swap macros; distinct = distinct (width, order, value)",
  [J("asan", "c18_enc.c c18_be.c", cases=40000, shards=3, nolib=True, tcases=2000000)], floors={"fields": 50000, "swaps": 10000})
check("C19", DIFF, NOTE("random well-formed and damaged formats are interpreted by a reference that makes the arguments and the expected bytes; buffers are exactly sized heap blocks, often exactly fitting or one short."),
  "a case is one format with its arguments, buffer size and bytes; distinct = distinct format",
  [J("asan", "c19_pack.c", cases=25000, shards=6, tcases=1000000), J("msan", "c19_pack.c", "msan", cases=8000, shards=2, tcases=200000)], floors={"packed": 20000, "pack_refused": 10000, "exact_fit": 5000, "one_short": 2000, "unpacked": 10000, "unpack_refused": 10000})
check("C20", DIFF, NOTE("random lines over delimiters, quotes, blanks and all byte values are split in exactly sized buffers and compared with reference splitters."),
  "a case is one line, delimiter set and array size; distinct = distinct (line, delimiters, mode)",
  [J("asan", "c20_split.c", cases=120000, shards=6, tcases=1000000)], floors={"csv": 20000, "fixed": 20000, "dynamic": 20000, "no_space": 10000, "unterminated": 5000, "grown": 500})
check("C21", DIFF, NOTE("random command lines are split in exactly sized buffers and compared with a reference; re-quoted words are split again."),
  "a case is one command line and array size; distinct = distinct line",
  [J("asan", "c21_args.c", cases=120000, shards=6, tcases=1000000)], floors={"split": 20000, "no_space": 10000, "unterminated": 10000, "requoted": 15000})
check("C22", DIFF, NOTE("numbers around every overflow boundary in every base with every suffix, and damaged variants, are compared with 128-bit arithmetic; rendered sizes are parsed back and compared, in exactly sized buffers."),
  "a case is one text and base, or one byte count and buffer size; distinct = distinct text or count",
  [J("asan", "c22_num.cpp", cases=150000, shards=6, tcases=3000000)], floors={"sizes": 100000, "overflows": 50000, "malformed": 50000, "humanized": 100000, "strtoi": 100000})
check("C23", DIFF, NOTE("random strings, escape sets and escape characters are escaped and unescaped, and random escaped text is decoded, in exactly sized buffers; results are compared with reference decoders; unquoting likewise."),
  "a case is one string with escape set and character, one escaped text, or one string to unquote; distinct = distinct such inputs",
  [J("asan", "c23_esc.c", cases=120000, shards=6, tcases=2000000)], floors={"roundtrips": 50000, "unescaped": 50000, "decoded": 20000, "unquoted": 10000, "not_quoted": 10000})
check("C24", DIFF, NOTE("four growable strings run random histories of every operation next to reference strings; all four are compared after each operation."),
  "a case is one history; distinct = distinct hash of the operations and sizes",
  [J("asan", "c24_gstr.c", cases=6000, shards=6, tcases=150000), J("msan", "c24_gstr.c", "msan", cases=1500, shards=2, tcases=30000)], floors={"ops": 200000, "self_append": 5000, "boundary": 5000, "lines": 20000, "finalized": 1000, "read_errors": 500})
check("C25", DIFF, NOTE("templates of text, references, escapes and damaged references over random mappings are expanded and compared with a reference expander, including the names looked up."),
  "a case is one template and mapping; distinct = distinct template",
  [J("asan", "c25_var.c", cases=100000, shards=6, tcases=1500000)], floors={"expanded": 30000, "unknown": 20000, "malformed": 20000, "substituted": 50000})
check("C26", DIFF, NOTE("random byte strings are encoded and decoded whole and in random chunks, and random text is decoded, each call with exactly sized source and destination, and compared with a reference coder."),
  "a case is one byte string or text and its chunkings; distinct = distinct hash of content and chunk sizes",
  [J("asan", "c26_b64.c", cases=25000, shards=6, tcases=500000), J("msan", "c26_b64.c", "msan", cases=8000, shards=2, tcases=100000)], floors={"roundtrips": 20000, "enc_chunks": 100000, "dec_chunks": 100000, "enc_small": 20000, "dec_small": 20000, "garbage": 10000, "multiline": 5000})
check("C27", DIFF, NOTE("hex texts are parsed into exactly sized outputs; dumps go to recording and failing writers and streams; both are compared with references."),
  "a case is one text and output size, or one byte string with its writes; distinct = distinct hash of those",
  [J("asan", "c27_hex.c", cases=60000, shards=6, tcases=800000)], floors={"parsed": 30000, "no_room": 20000, "malformed": 10000, "dumps": 30000, "streams": 20000, "write_failures": 10000})
check("C28", DIFF + "; entropy fault injection", NOTE("generated UUIDs are checked for their fixed bits, collisions and stuck bits; random and damaged texts are parsed and values printed in exactly sized buffers."),
  "a case is one generated UUID, one value printed, or one text parsed, with its buffer size; distinct = distinct such inputs",
  [J("asan", "c28_uuid.c", cases=120000, shards=6, wrap=["getentropy"], extra_src=["src/uuid2str.c"], tcases=1500000)], floors={"generated": 50000, "parsed": 50000, "parse_refused": 50000, "printed": 50000, "print_refused": 20000, "entropy_failures": 1000, "byte_places": 500000})
check("C29", DIFF + "; controlled clock; entropy fault injection", NOTE("ULIDs are generated under a controlled clock over the whole 48-bit range and under the real one, and compared in order as bytes and text; values are printed and random and damaged texts parsed in exactly sized buffers."),
  "a case is one run of generated ULIDs, one value printed, or one text parsed; distinct = distinct such inputs",
  [J("asan", "c29_ulid.c", cases=60000, shards=6, wrap=["getentropy", "gettimeofday", "clock_gettime", "time"], tcases=800000)], floors={"generated": 50000, "ordered": 30000, "parsed": 30000, "parse_refused": 20000, "printed": 30000, "entropy_failures": 500, "real_clock": 1000, "byte_places": 500000})
check("C30", DIFF, NOTE("addresses, prefixes and masks, valid and damaged, are parsed and printed in exactly sized buffers and compared with a reference."),
  "a case is one text or one address with buffer size; distinct = distinct such inputs",
  [J("asan", "c30_ip.c", cases=150000, shards=6, tcases=2000000)], floors={"addr_ok": 50000, "addr_refused": 20000, "mask_ok": 50000, "mask_refused": 50000, "with_mask": 50000, "cidr_ok": 50000, "cidr_refused": 50000, "printed": 50000})
check("C31", "differential runtime monitoring: every event judged online against an independent walk; descriptor/working-directory monitor; fault injection; ASan+UBSan+LSan", NOTE("random trees (long names, deep chains, links of every kind, permissions) are walked as an unprivileged user in a scratch directory under random options, orders and per-entry instructions, with entries vanishing and allocations failing; each event is compared with an independent openat/readdir/fstatat walk."),
  "a case is one tree, option set, order and instruction sequence; distinct = distinct hash of options and of the sequence of entry types and levels",
  [J("asan", "c31_fts.c", cases=700, shards=8, unpriv=True, wrap=["malloc", "realloc", "stat", "lstat", "fstat", "fstatat", "open", "fcntl"], tcases=15000)], floors={"swapped": 60, "prefollowed": 80, "root_children": 400, "leaf_children": 800, "open_refused": 50, "moved_away": 30, "too_long": 50, "full_tips": 100, "preskipped": 500, "wide": 8, "entries": 20000, "directories": 8000, "completed": 1500, "cycles": 500, "dangling": 500, "followed_dirs": 200, "skipped": 200, "vanished": 200, "unreadable": 100, "children_calls": 500, "alloc_failures": 100, "deep_chains": 300})
check("C32", DIFF, NOTE("random option strings, long-option tables and argument vectors are parsed in every mode (permuting, in-order, POSIX), with earlier parses abandoned and reset, and every return value, argument, index, flag, message and the final order of the vector are compared with a model of the contract."),
  "a case is two successive parses with their tables and vectors; distinct = distinct sequences of returned options",
  [J("asan", "c32_getopt.c", cases=60000, shards=6, tcases=800000)], floors={"options": 100000, "long_options": 50000, "errors": 50000, "arguments": 50000, "operands": 50000, "in_order": 10000, "abandoned": 10000, "parsed": 100000})
check("C33", DIFF + "; /proc/self/maps and descriptor monitors; system-call fault injection", NOTE("files are mapped in random windows through mmap_file as an unprivileged user in a scratch directory, written and grown through the mappings, unmapped and destroyed, with open, fstat, ftruncate and mmap failing; contents are compared with the file, mappings with /proc/self/maps, exceptions with the failed call; exception texts of every length are built."),
  "a case is one file with its history of windows, writes and unmaps, one failing open, or one exception text; distinct = distinct flags, sizes and texts",
  [J("asan", "c33_mmap.cpp", cases=9000, shards=6, unpriv=True, wrap=["fstat", "ftruncate", "mmap", "open", "__open_2", "mlock", "munlock"], tcases=120000)], floors={"locks": 10000, "huge": 50, "files": 10000, "windows": 20000, "writes": 5000, "grown": 1000, "refused": 5000, "unmapped": 3000, "bad_opens": 3000, "texts": 5000, "exceptions": 5000})
check("C34", DIFF, NOTE("patterns and texts over small, large and high-byte alphabets, periodic and not, are searched in exactly sized buffers by every algorithm and compared with a naive search."),
  "a case is one pattern and text; distinct = distinct such pairs",
  [J("asan", "c34_match.cpp", cases=25000, shards=6, tcases=400000)], floors={"linear": 15000, "large": 50, "searches": 500000, "matches": 300000, "overlapping": 10000, "long_found": 2000, "longer_than_text": 5000, "empty": 1000, "high_bytes_found": 10000})
check("C35", DIFF + "; system-call fault injection", NOTE("directories with random generations (gaps, excess ones, directories in their place, look-alike names) are rotated as an unprivileged user in a scratch directory, unconditionally and by size, with any stat or rename failing and names of any length; the directory is compared with a model by content."),
  "a case is one directory, limit and rotation; distinct = distinct sets of generations, limits and results",
  [J("asan", "c35_rotate.c", cases=2500, shards=6, unpriv=True, wrap=["stat", "rename", "unlink"], tcases=40000)], floors={"rotated": 3000, "generations": 10000, "due": 500, "not_due": 1000, "failed_steps": 1000, "too_long": 500, "bad_generation": 100})
check("C36", DIFF + "; injected races and system-call faults", NOTE("paths with redundant slashes, dots, links, files in the way, closed directories and maximal lengths are created as an unprivileged user in a scratch tree while other creators (injected at the exact system call, and real threads) interfere or mkdir fails; the tree is compared with one made by an independent descriptor-based walk. dirname is compared with the POSIX rule in exactly sized buffers."),
  "a case is one path with tree, mode and interference, one concurrent creation, or one dirname call; distinct = distinct such inputs",
  [J("asan", "c36_path.c", cases=6000, shards=6, unpriv=True, wrap=["mkdir"], tcases=100000, libs=["-lpthread"])], floors={"created": 5000, "refused": 3000, "raced": 1000, "failed_mkdir": 300, "concurrent": 500, "dirnames": 8000, "dirname_refused": 500})
check("C37", DIFF, NOTE("every hash function is run on byte strings of every length from 0 to 600 and random longer ones, in exactly sized buffers at every alignment, under special and random seeds, and compared with independent byte-wise definitions that are themselves pinned by published test vectors."),
  "a case is one byte string, alignment and seed given to all functions; distinct = distinct inputs",
  [J("asan", "c37_hash.c", cases=20000, shards=4, tcases=400000), J("msan", "c37_hash.c", mode="msan", cases=6000, shards=2, tcases=60000)], floors={"hashes": 1000000, "unaligned": 50000, "vectors": 13})
check("C38", DIFF, NOTE("byte strings are fed to the incremental interfaces in random chunkings around the block sizes (with empty chunks), digests are read in between, states are reused after a reset, and every digest is compared with an independent one-shot definition and with the library's own one-shot function."),
  "a case is a sequence of byte strings with their chunkings on one state; distinct = distinct lengths and chunkings",
  [J("asan", "c38_stream.c", cases=15000, shards=4, tcases=300000), J("msan", "c38_stream.c", mode="msan", cases=4000, shards=2, tcases=40000)], floors={"digests": 300000, "updates": 500000, "empty_updates": 20000, "continued": 50000, "reused": 20000})
check("C39", DIFF + "; controlled entropy", NOTE("five generators of random kinds, seeded or set to arbitrary states, are drawn from in random interleavings and every value and final state is compared with the published definition; seeding is observed under a controlled entropy source, including zero seeds and the seed whose mix is zero."),
  "a case is five generators with seeds or states and an interleaving of draws; distinct = distinct kinds and states",
  [J("asan", "c39_prng.c", cases=8000, shards=4, wrap=["getentropy"], tcases=200000)], floors={"draws": 2000000, "seeded": 50000, "system_seeded": 20000, "states": 20000, "frand": 50000})
check("C40", "online trace checker: every output byte judged against an exact model over the recorded entropy; fork and thread monitors; TSan", NOTE("the entropy source is interposed and logged; random sequences of requests (around the buffer and reseed limits), bounded draws, threads and forks are run and every byte compared with the documented ChaCha construction computed with libsodium from the logged entropy of that thread."),
  "a case is one history of requests, one run of four threads, one fork or one entropy failure; distinct = distinct histories",
  [J("asan", "c40_arc4.c", cases=700, shards=4, wrap=["getentropy"], libs=["-lsodium"], tcases=6000), J("tsan", "c40_arc4.c", mode="tsan", cases=60, shards=2, wrap=["getentropy"], libs=["-lsodium"], tcases=600)], floors={"bytes": 5000000, "reseeds": 10000, "bounded": 5000, "rejected": 1000, "edge_bounds": 1000, "threads": 500, "forks": 100, "entropy_failures": 100})
check("C41", DIFF + "; injected read errors", NOTE("streams of lines with lengths around the buffer size and CR, LF and CRLF breaks are read through a custom stream that delivers arbitrary chunks and fails at chosen positions; every returned line, length and code is compared with a reference splitter."),
  "a case is a stream, a buffer size, a chunking and a failure position; distinct = distinct content, size and failure",
  [J("asan", "c41_lines.c", cases=20000, shards=4, tcases=400000), J("msan", "c41_lines.c", mode="msan", cases=5000, shards=2, tcases=50000)], floors={"lines": 80000, "eofs": 10000, "errors": 2000, "too_long": 5000, "full_lines": 5000, "unterminated": 2000, "crlf": 5000, "empty_lines": 5000})
check("C42", "runtime monitoring of the real helpers on pseudo-terminals: typed text, echo, terminal settings and descriptors compared before, during and after; every drawn bar parsed and judged; ASan+UBSan", NOTE("passwords are typed at pseudo-terminals and pipes (with confirmation, mismatches, end of input, interruption, refused settings, over-long lines) and bars are drawn on pseudo-terminals of every width for random totals and updates."),
  "a case is one password entry or one progress bar with its updates; distinct = distinct typed text and mode, or totals, widths and updates",
  [J("asan", "c42_term.c", cases=1500, shards=6, wrap=["tcsetattr", "tcgetattr"], libs=["-lutil"], tcases=20000)], floors={"decoys": 100, "passwords": 500, "typed_lines": 500, "empty": 50, "eofs": 50, "interrupts": 30, "refused": 20, "mismatches": 50, "bars": 50000, "complete": 10000, "silent": 5000, "finished": 3000})
check("C43", DIFF, NOTE("error, warn and die are called with messages of every length around their internal limit, empty ones, trailing newlines, unprintable wide strings, error numbers of both signs and unknown ones, with output pending on the standard stream; every byte on the error stream and every exit code is compared with the reference."),
  "a case is one call; distinct = distinct function, message and error number",
  [J("asan", "c43_error.c", cases=6000, shards=4, cflags=["-Wno-format-security", "-Wno-format"], tcases=100000)], floors={"errors": 5000, "warnings": 8000, "deaths": 400, "exits": 1000, "truncated": 3000, "empty": 1000, "errnos": 3000, "pending": 4000, "unprintable": 300})
check("C44", DIFF, NOTE("strings over small, blank and high-byte alphabets are copied into exactly sized destinations of every size around their length, trimmed in place and compared in both directions, also with unterminated operands for the bounded comparison."),
  "a case is one string, destination size and partner string; distinct = distinct strings and sizes",
  [J("asan", "c44_str.c", cases=60000, shards=4, extra_src=["src/strlcpy.c", "src/strcasecmp.c"], cflags=["-Dstrlcpy=pl_strlcpy", "-Dstrcasecmp=pl_strcasecmp", "-Dstrncasecmp=pl_strncasecmp"], tcases=1500000), J("msan", "c44_str.c", mode="msan", cases=15000, shards=2, extra_src=["src/strlcpy.c", "src/strcasecmp.c"], cflags=["-Dstrlcpy=pl_strlcpy", "-Dstrcasecmp=pl_strcasecmp", "-Dstrncasecmp=pl_strncasecmp"], tcases=150000)], floors={"copied": 50000, "truncated": 30000, "edge": 30000, "trims": 100000, "blank": 5000, "less": 10000, "greater": 10000, "equal": 10000, "unterminated": 20000, "byte_pairs": 4000000})
check("C45", DIFF + "; exact mappings through an interposed mmap; system-call fault injection", NOTE("database files are built by an independent writer (keys with equal hashes, empty keys and values, full and sparse tables), then kept, truncated, or corrupted in index, slots and lengths; every lookup of present, absent and colliding keys is compared with a bounds-checked reference lookup, with the mapping replaced by an exactly sized heap block so that every stray read is seen."),
  "a case is one file with its lookups; distinct = distinct index and size of the file",
  [J("asan", "c45_cdb.c", cases=700, shards=6, unpriv=True, extra_src=["src/cdb_read.c"], wrap=["mmap", "munmap", "fstat"], tcases=15000), J("real", "c45_cdb.c", args=["mode=real"], cases=150, shards=2, unpriv=True, extra_src=["src/cdb_read.c"], wrap=["mmap", "munmap", "fstat"], tcases=2000), J("huge", "c45_cdb.c", args=["mode=rhuge"], cases=40, shards=2, unpriv=True, extra_src=["src/cdb_read.c"], wrap=["mmap", "munmap", "fstat"], tcases=400)], floors={"huge_files": 70, "far_found": 5000, "files": 1500, "corrupt_files": 1000, "found": 50000, "absent": 30000, "collisions": 500, "zero_hashes": 500, "corrupt_lookups": 3000, "empty_values": 5000, "failed_opens": 200})
check("C46", DIFF + "; counting, failing allocator and failing callbacks", NOTE("byte strings of several kinds are compressed in random chunks through every size of output buffer with callbacks that accept part of the data or fail, the output is inflated by zlib itself, and it is fed back intact, truncated, damaged or with a tail through the decompressor; results and bytes are compared with one-shot zlib."),
  "a case is one byte string with its parameters, chunkings, callback behaviour and damage; distinct = distinct contents and parameters",
  [J("asan", "c46_zbuf.c", cases=2500, shards=6, extra_src=["src/zbuf_c.c", "src/zbuf_unc.c"], libs=["-lz"], tcases=50000)], floors={"resumed": 150, "megabytes": 20, "chunks": 200000, "compressed": 8000, "roundtrips": 4000, "tails": 1000, "truncations": 1000, "damages": 1000, "callback_failures": 1000, "failed_allocs": 300})
check("C47", "runtime monitoring of the real procedure: the surviving process reports session, parent, terminal, descriptors, mask, directory and output, judged against the promises; system-call fault injection", NOTE("processes with random descriptor states, sessions, controlling terminals, masks, directories and pending output daemonize themselves while forks, opens and duplications are made to fail."),
  "a case is one daemonization; distinct = distinct initial states and faults",
  [J("asan", "c47_daemon.c", cases=250, shards=6, unpriv=True, wrap=["fork", "open", "dup2"], libs=["-lutil"], env={"ASAN_OPTIONS+": "detect_leaks=0"}, tcases=5000)], floors={"daemons": 400, "failures": 200, "from_terminal": 80, "closed_stdio": 150, "pending": 200})
check("C48", DIFF + "; simulated interfaces and name service with fault injection", NOTE("interface lists (unsorted, repeated, without address, long names) and host tables are simulated through interposed system interfaces, which also count what is released and fail on demand; enumeration, lookup by interface, resolution and printing are compared with the simulated truth, and with the real system's lists."),
  "a case is one interface table and one query, or one printed address; distinct = distinct tables and queries",
  [J("asan", "c48_resolve.c", cases=8000, shards=4, wrap=["getifaddrs", "freeifaddrs", "ioctl", "getaddrinfo", "freeaddrinfo"], tcases=150000)], floors={"enumerations": 3000, "if_addresses": 10000, "interfaces": 2000, "no_interface": 2000, "numeric": 1000, "numeric6": 200, "hosts": 500, "unknown_hosts": 1000, "failures": 500, "texts": 2000, "short_buffers": 1000})
check("C49", DIFF + "; controlled clocks", NOTE("the macros, inline functions and templates are applied, from C and from C++, to values of every integer type around powers of two, type limits and at random, and compared with 128-bit division; clocks are interposed and set to arbitrary times; undefined behaviour is trapped."),
  "a case is one value with one alignment, one index and size, one count of time units and clock setting, or one round of allocations; distinct = distinct values",
  [J("asan", "c49_arith.c", cases=200000, shards=3, wrap=["gettimeofday", "clock_gettime"], tcases=3000000), J("cxx", "c49_cxx.cpp", cases=200000, shards=3, wrap=["gettimeofday", "clock_gettime"], tcases=3000000)], floors={"aligned_up": 100000, "already_aligned": 20000, "powers": 20000, "rounded": 100000, "templates": 70000, "in_range": 200000, "out_of_range": 200000, "durations": 500000, "clocks": 200000, "allocations": 100000})
import os, sys, importlib.util as _il
def PY(fname):
    sp = _il.spec_from_file_location(fname, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", fname + ".py"))
    m = _il.module_from_spec(sp); sys.dont_write_bytecode = True; sp.loader.exec_module(m); return m
check("C50", "differential runtime monitoring of generated programs: random specifications are run through the real generator, the parsers compiled under ASan+UBSan and their results compared with an independent interpretation of the specification", NOTE("specifications over all types, directives, quotings and place holders are generated and, half of the time, also damaged (which must be refused); every parser is run on about 40 argument vectors (abbreviations, bundles, permutation, range limits, malformed values); members, flags, callbacks, remaining arguments, error counts and help texts are compared."),
  "a case is one specification with one argument vector, or one invalid specification; distinct = distinct pairs of specification and vector",
  [dict(J("gen", "x", cases=14, shards=8, tcases=200), py=PY("c50_gen").run)], floors={"parsers": 60, "parsed": 1000, "rejected": 500, "members": 5000, "callbacks": 100, "helps": 50, "versions": 50, "refused_specs": 20})
check("C51", DIFF + "; descriptor and directory monitors", NOTE("random trees (unreadable directories, links, pipes, odd and maximal names) are walked as an unprivileged user in a scratch directory, from relative, absolute, linked, plain-file and missing roots, with the callback stopping the walk anywhere; visits, types, status, order, results, open descriptors and the working directory are compared with an independent recursive walk."),
  "a case is one tree, root and stopping point; distinct = distinct shapes, roots and stopping points",
  [J("asan", "c51_ftw.c", cases=1500, shards=6, unpriv=True, wrap=["malloc", "calloc", "realloc"], extra_src=["src/ftw.c"], cflags=["-Dftw=pl_ftw", "-D_XOPEN_SOURCE=700"], tcases=25000)], floors={"faulted": 200, "visits": 50000, "complete": 3000, "stopped": 1000, "unreadable": 1000, "links": 10000, "fifos": 2000})
check("C52", "runtime fault injection: every allocation of the library is counted and made to fail at chosen calls in the real code, outcomes judged against models, block ledger and ASan+UBSan", NOTE("scenarios over tables, filters, pools, strings, containers and managers run in children whose allocator fails at one, several or all calls from a chosen one; results, contents after the failure, retries and outstanding blocks are compared with models; a failed program must have stopped at an assertion."),
  "a case is one scenario with its random history and the range of failing allocations; distinct = distinct histories and ranges",
  [J("asan", "c52_nomem.c", cases=600, shards=7, unpriv=True, wrap=["malloc", "calloc", "realloc", "free", "strdup", "posix_memalign"], libs=["-lsodium"], env={"ASAN_OPTIONS+": "detect_leaks=0"}, tcases=12000)], floors={"faulted": 5000, "reported": 1000, "survived": 2000, "stopped": 1000})
check("C53", "differential runtime monitoring: results computed by concurrent threads compared with those computed alone; TSan for hidden shared state", NOTE("about 80 functions and object types are exercised by two to eight threads at once, each on its own data (and, for queries, on shared unmodified objects), under TSan and free-running; every result is compared with the one computed single-threaded."),
  "a case is one set of operations with inputs and a number of threads; distinct = distinct sets",
  [J("tsan", "c53_reent.c c53_cxx.cpp", mode="tsan", cases=200, shards=5, unpriv=True, alone=True, libs=["-lsodium"], tcases=1500), J("free", "c53_reent.c c53_cxx.cpp", cases=500, shards=3, unpriv=True, alone=True, libs=["-lsodium"], tcases=4000), J("cold", "c53_reent.c c53_cxx.cpp", mode="tsan", args=["mode=cold"], cases=150, shards=4, unpriv=True, libs=["-lsodium"], tcases=4000)], floors={"cold_operations": 5000, "operations": 40000, "overlapped": 5000})
check("C54", "runtime monitoring: counting, conservation and mutual-exclusion monitors on real threads with injected delays; TSan; injected creation failures", NOTE("semaphores built on mutex and condition, and the lock managers, run random histories against a counter; producers, consumers and critical sections run on up to eight threads with delays injected around every primitive; completion semaphores are destroyed and their memory reused by the waiter as soon as it wakes."),
  "a case is one history, one thread workload, one batch of completions, one set of locks or one failing creation; distinct = distinct workloads",
  [J(n, "c54_sync.c", mode=m, cases=k, shards=sh, timeout=600, hang=120, tcases=t, extra_src=["src/posix/darwin_sem.c"], cflags=["-I%s/inc/Darwin" % os.environ.get("VERIF_REPO", "/repo")] + ["-Dsem_%s=pl_sem_%s" % (x, x) for x in ("init", "destroy", "wait", "post", "trywait", "t")],
     wrap=["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_broadcast", "pthread_cond_signal", "pthread_mutex_init", "pthread_cond_init", "pthread_mutex_destroy", "pthread_cond_destroy"]) for n, m, k, sh, t in (("tsan", "tsan", 500, 4, 10000), ("asan", "asan", 1500, 4, 30000))],
  floors={"waits": 10000, "tries": 20000, "posts": 20000, "entries": 50000, "overlaps": 200, "completions": 5000, "locked": 10000, "independent": 100, "null_locks": 200, "init_failures": 200})
check("C55", DIFF, NOTE("word strings of every length up to 1500, around multiples of the block size and random longer ones (all ones, zeros, values at the modulus, random) in exactly sized buffers are summed and compared with the modular definition, itself pinned by published vectors; flipped bits and exchanged words must change the sum."),
  "a case is one word string; distinct = distinct length, kind and sum",
  [J("asan", "c55_fletcher.c", cases=15000, shards=2, tcases=300000, extra_src=["src/fletcher-cksum.c"])], floors={"sums": 15000, "vectors": 3, "flips": 5000, "swaps": 3000})
check("C56", "runtime monitoring: affinity masks read back from the kernel after every call", NOTE("processes and their threads are bound to permitted, absent and absurd processors in random order; after every call the masks of all threads, the result, the processor actually run on and the mask inherited by children are compared with a model."),
  "a case is one process or one set of threads with a sequence of bindings; distinct = distinct sequences",
  [J("asan", "c56_cpu.c", cases=1000, shards=3, tcases=20000)], floors={"process_runs": 1000, "thread_runs": 1000})
check("C57", "differential runtime monitoring of the real script in scratch directories: directory contents, echoed names and exit status compared with an independent reading of the rules", NOTE("directories of dependency files (valid with continuation lines, absolute and linked prerequisites; with missing, dangling or directory prerequisites; empty, blank, truncated; absent) are weeded and every file compared before and after."),
  "a case is one directory with one list of arguments; distinct = distinct arguments and outcomes",
  [dict(J("script", "x", cases=150, shards=6, tcases=2500), py=PY("c57_depweed").run)], floors={"kept": 1000, "deleted": 1000})
check("C58", "runtime monitoring by memory search: the process's own writable memory (stack, data, thread-local storage, heap) is searched, after real operations of optimised builds, for secrets the harness keeps only in encoded form", NOTE("passwords are typed (accepted, confirmed at once or late, never confirmed, cut off by the end of the input) and fresh generator processes are drawn on, some past their reseeding; what was typed, every seed taken from the system and bytes of every delivered output are then searched for."),
  "a case is one password entry or one generator process; distinct = distinct case parameters",
  [J("rel", "c58_wipe.c", "rel", cases=120, shards=4, wrap=["getentropy"], libs=["-Wl,-z,now"], tcases=4000), J("clang", "c58_wipe.c", "clang2", cases=120, shards=3, wrap=["getentropy"], libs=["-Wl,-z,now"], tcases=4000), J("plain", "c58_wipe.c", "plain", cases=120, shards=3, wrap=["getentropy"], libs=["-Wl,-z,now"], tcases=4000)], floors={"generators": 400, "passwords": 150, "refused_passwords": 100, "seeds": 400, "outputs": 20000, "megabytes_searched": 100})
# far larger sizes than the histories above reach
for _p, _m, _n in [("C01", "mpmc", 6), ("C02", "spsc", 6), ("C04", "syncq", 6), ("C06", "fht", 5), ("C07", "tab", 4), ("C08", "bloom", 2), ("C11", "pool", 4), ("C12", "arena", 4), ("C13", "vect", 4), ("C15", "fq", 8), ("C16", "bits", 6), ("C19", "pack", 12), ("C20", "split", 12), ("C21", "args", 12),
                   ("C23", "esc", 20), ("C24", "gstr", 6), ("C25", "var", 8), ("C26", "b64", 6), ("C27", "hex", 5), ("C32", "getopt", 8), ("C41", "lines", 12), ("C44", "str", 30)]:
    CHECKS[_p]["jobs"].append(J("big", "big.c", args=["mode=" + _m], cases=_n, shards=3, tcases=_n * 30)); CHECKS[_p].setdefault("floors", {})["big_cases"] = _n * 3
CHECKS["C37"]["jobs"].append(J("huge", "c37_huge.c", "plain", args=["mode=one"], cases=2, shards=6, tcases=8, timeout=600, hang=300)); CHECKS["C37"]["floors"]["huge"] = 12
CHECKS["C38"]["jobs"].append(J("huge", "c37_huge.c", "plain", args=["mode=inc"], cases=1, shards=3, tcases=4, timeout=600, hang=300)); CHECKS["C38"]["floors"]["huge"] = 3

for _p, _d in [("C01", "MPMC"), ("C02", "SPSC"), ("C03", "RING")]:
    CHECKS[_p]["jobs"].append(J("long", "long.c", "rel", cases=1, shards=1, tcases=2, cflags=["-D" + _d], timeout=800, hang=700, nolib=True)); CHECKS[_p].setdefault("floors", {})["long_elements"] = 1 << 28

for _p, _m in [("C24", "gstr"), ("C23", "gtext"), ("C20", "str"), ("C27", "hex"), ("C15", "buf"), ("C13", "vect"), ("C44", "str"), ("C21", "str"), ("C16", "bits"), ("C55", "fletch")]:
    CHECKS[_p]["jobs"].append(J("giant", "giant.c", "rel", args=["mode=" + _m], cases=1, shards=1, tcases=6, timeout=600, hang=300, **(dict(cflags=["-DFLETCH"], extra_src=["src/fletcher-cksum.c"]) if _m == "fletch" else {}))); CHECKS[_p].setdefault("floors", {})["giants"] = 1

# the same oracles over the project's release configuration (gcc -O3, debug aids off): what sanitizer builds at -O1 may hide
NOREL = set()
for _p, _c in CHECKS.items():
    _j = _c["jobs"][0]
    if _j["mode"] != "asan" or _j.get("py") or _p in NOREL: continue
    _r = dict(_j); _r.update(name="rel", mode="rel", shards=2, cases=max(1, _j["cases"] * _j["shards"] // 8)); _r["tcases"] = max(1, (_j.get("tcases") or _j["cases"] * 10) // 2)
    _c["jobs"].append(_r)
CHECKS["C06"]["jobs"].append(J("nosimd", "c06_ht.c", cases=150, shards=2, tcases=4000, cflags=["-D__NO_SIMD__=1"], libflags=["-D__NO_SIMD__=1"]))
CHECKS["C37"]["jobs"].append(J("xxalt", CHECKS["C37"]["jobs"][0]["src"][0], cases=CHECKS["C37"]["jobs"][0]["cases"] // 4, shards=2, libflags=["-DXXH_FORCE_MEMORY_ACCESS=1", "-DXXH_FORCE_ALIGN_CHECK=1"]))
