"""Per-property assumptions and domain limits: written into the evidence files and DESIGN.md."""
FIB = ["the fiber scheduler explores sequentially consistent interleavings only; weaker orderings are left to TSan and the delay runs",
       "random and preemption-bounded schedules: an interleaving that no seed produced is not covered"]
N = {
"C01": FIB + ["MPMC_QUEUE_RESET/FINI are called without concurrent users"],
"C02": FIB + ["exactly one producer and one consumer thread", "the PEEK and FLUSH operations named in the header's comment do not exist"],
"C03": FIB + ["mode flags match the number of threads actually used"],
"C04": FIB,
"C05": FIB + ["submitters stop before destroy/finish is called, as the headers demand", "TSan does not see the hand-over through futexes of a thread that exits; one dummy thread is kept alive"],
"C06": ["key 0 is excluded (callers hash their keys)", "heap use is read from the ASan allocator"],
"C07": ["user callbacks do not call back into the same table", "iteration and modification are not concurrent (the interface offers no such guarantee)"],
"C08": ["false-positive rates are judged with a margin of 60 % plus six standard deviations of the requested rate (ten times the rate for the counting filter)"],
"C09": ["SHA-256 collisions are not considered", "a file with a valid checksum is only required to be handled safely, not to be detected"],
"C10": ["keys are distinct, as documented", "rates are judged from several hundred keys up (tiny filters share fingerprints legitimately)"],
"C11": ["the pool is used from one thread (documented)"],
"C12": ["the arena is used from one thread (documented)"],
"C13": ["element sizes 1, 4, 8 and 24 bytes; user random functions return nonnegative numbers"],
"C14": ["containers are walked and modified from one thread; BSD idioms that read a null head are accepted as written"],
"C15": ["one thread"],
"C16": ["sizes up to 4000 bits"],
"C17": ["the comparison is a strict weak order"],
"C18": ["x86-64: the big-endian host branch is compiled but not run"],
"C19": ["doubles and floats are IEEE; pointer arguments match their count"],
"C20": ["strsplit_csv: quote handling as documented in strutils.h"],
"C21": [],
"C22": ["humanize: within one hundredth (the last printed digit) of the exact quotient"],
"C23": ["the escape character is no letter or digit"],
"C24": ["one thread"],
"C25": ["names of up to 2000 characters"],
"C26": ["the standard alphabet"],
"C27": ["the callback of the dumper reports errors by a negative result"],
"C28": ["uniqueness and randomness are judged on recorded entropy, not statistically"],
"C29": ["order inside one millisecond is not promised"],
"C30": ["leading zeros are decimal, as the code reads them"],
"C31": ["the tree does not change during the walk, except in the cases where entries vanish, appear, are replaced or are moved on purpose", "POSIX file system semantics of the scratch directory"],
"C32": ["'W;' with an empty argument is left unspecified"],
"C33": ["known finding: mmap:private-default", "message texts longer than the internal buffer are truncated"],
"C34": ["the algorithms of strmatch.h; Rabin-Karp hashing is part of the code under test"],
"C35": ["nobody else renames the generations during a rotation"],
"C36": ["no component is removed concurrently; other creators may race"],
"C37": ["known finding: hash:yorrike-ignores-bytes", "FNV ignores its seed in the 32-bit variant as published in the header", "unaligned word loads in murmur3 and fasthash are technically undefined; alignment checking is off as x86 permits them"],
"C38": [],
"C39": ["frand's global state is not thread-safe and is used from one thread"],
"C40": ["the system entropy source is interposed; wiping of used buffer bytes is not observable"],
"C41": ["errors are delivered by a custom stream (fopencookie)"],
"C42": ["output of a pseudo-terminal is awaited with a marker byte; interruption is tested when the signal is handled by the caller"],
"C43": [],
"C44": ["ASCII case folding"],
"C45": ["for corrupt files only safety and 'no value that is not in the file' are demanded"],
"C46": ["the installed zlib is the reference"],
"C47": ["Linux; signals other than SIGHUP are not sent during the procedure"],
"C48": ["interface ioctls and the name service are simulated; the real lists are compared once per shard"],
"C49": ["clocks are interposed"],
"C50": ["excluded: empty option values, place holders without default of numeric kind used before assignment, optional-argument options with a nonzero default, a bare repetition of an optional-argument option after an explicit value"],
"C51": ["an unreadable directory is reported as directory and then as unreadable"],
"C52": ["NDEBUG is not defined: assertions are how interfaces without an error result stop"],
"C53": ["frand and getopt_long keep process-wide state and are excluded"],
"C54": ["the semaphore of the Darwin port is built on Linux under other symbol names"],
"C55": ["0 and 0xffff are the same value in the sum"],
"C56": ["the process call concerns the calling thread and what it creates afterwards (Linux); the permitted set is that of the sandbox"],
"C57": ["paths without blanks, as the compiler escapes them; one rule per file (no -MP)"],
"C58": ["runs of 40 bytes are searched for, so that what passes through registers does not count", "for passwords only the stack is searched: the buffers of stdio belong to the C library"],
}
