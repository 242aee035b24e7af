# Source of /verif/properties.jsonl: python3 tools/props.py > properties.jsonl
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

p("C01", "Integer encodings are exact and round-trip for every value",
  "Fixed-width encoding of any 32/64-bit value writes exactly 4/8 bytes, least significant first, and varint encoding writes the shortest base-128 form, of exactly the length the length function reports. Decoding an encoding, whatever bytes follow it, yields the original value and leaves exactly the bytes that followed.",
  ["inputs"], "every uint32/uint64 value, both the pointer-level and the string/slice-level routines, any trailing bytes",
  "There is no coding test at all; 2^64 values with seven length-class boundaries per routine cannot be sampled exhaustively.",
  ["util/coding.h", "util/coding.cc"],
  [("EncodeFixed*/DecodeFixed*, EncodeVarint*/GetVarint*", "util/coding.h, util/coding.cc"), ("VarintLength", "util/coding.cc")],
  ["return values and bytes of Put*/Encode*/Get*/Decode*/VarintLength"])
p("C02", "Decoders are safe and exact on arbitrary, truncated or hostile bytes",
  "Decoding a varint or a length-prefixed string from any byte string reads only bytes of that input, and either fails or returns the value the bytes denote, advancing past exactly the bytes used; a returned string lies wholly inside the input. A varint that ends before its last byte or runs over 5 (32-bit) or 10 (64-bit) bytes is rejected, a failed varint decode leaves the input where it was, and a length prefix larger than the rest of the input is rejected.",
  ["inputs"], "every byte string up to the stated length, including truncated, over-long and hostile length prefixes",
  "No test decodes malformed input; the defect cases are rare byte patterns at the end of a buffer.",
  ["util/coding.h", "util/coding.cc"],
  [("GetVarint32Ptr/GetVarint32PtrFallback/GetVarint64Ptr limit checks", "util/coding.cc"), ("GetLengthPrefixedSlice (both forms)", "util/coding.cc")],
  ["return value, output value, remaining input of Get*"])
p("C03", "Values appended to a buffer decode back in order",
  "Appending any sequence of fixed-width, varint and length-prefixed values to a string leaves what the string already held untouched and adds only the encodings, in order. Decoding that string in the same order returns the same values and string contents and consumes it completely.",
  ["inputs", "histories"], "every mix of value kinds and values up to the stated sequence length and string length",
  "No test of the string-appending routines; a codec can be right alone and still overwrite or over-consume its neighbours.",
  ["util/coding.cc", "util/coding.h"],
  [("Put* append to *dst", "util/coding.cc"), ("Get* advance the slice", "util/coding.cc")],
  ["contents of the string after Put*, results of Get*"])
p("C04", "Decimal numbers parse exactly, and formatting round-trips",
  "Parsing a decimal number from any text consumes the maximal leading run of digits and returns its value, returns failure if there is no leading digit (input untouched) or the value exceeds the 64-bit maximum, and never reads past the text. Formatting any 64-bit number gives its canonical decimal digits (appended to what the string held), which parse back to the number whatever non-digit text follows.",
  ["inputs"], "every byte string up to the stated length (past the 20-digit overflow boundary) and every uint64 value",
  "The tests try a few dozen values; the overflow boundary depends on value and last digit together and trailing bytes can be anything.",
  ["util/logging.cc", "util/logging.h"],
  [("overflow check before value*10+digit", "util/logging.cc ConsumeDecimalNumber"), ("AppendNumberTo/NumberToString", "util/logging.cc")],
  ["return value, *val, remaining slice, formatted string"])
p("C05", "Escaping leaves printable text alone and makes every byte printable",
  "Escaping any byte string appends, for each byte in order, the byte itself when it is printable ASCII (space to tilde) and otherwise backslash, x and its two lower-case hex digits. What the destination held before is kept and nothing else is added.",
  ["inputs"], "every byte string up to the stated length",
  "Escaping has no test; signed-char and range-end mistakes only show on particular bytes.",
  ["util/logging.cc"], [("AppendEscapedStringTo/EscapeString", "util/logging.cc")], ["the escaped string"])
p("C06", "Slice comparison is a total bytewise order consistent with equality",
  "Comparing two byte slices orders them by unsigned bytes with a proper prefix first; the result is antisymmetric and transitive, is zero exactly when equality holds, and prefix tests agree with the bytes, for any content including NULs and high bytes. Slice accessors, prefix removal, clearing and conversion to string preserve exactly the bytes referenced and read nothing outside them.",
  ["inputs"], "every pair/triple of byte strings up to the stated length",
  "Slices are only used incidentally by the tests; ordering laws quantify over pairs and triples of arbitrary strings.",
  ["include/lsmdb/slice.h"], [("Slice::compare, operator==, starts_with, remove_prefix, ToString", "include/lsmdb/slice.h")],
  ["results of compare, ==, !=, starts_with, operator[], ToString"])
p("C07", "A status keeps its code and message through copy, move and assignment",
  "A status built from any code and one or two messages reports exactly that code and prints the kind's fixed prefix followed by the message (two messages joined by colon and space), and the OK status prints OK. Copying, moving and assigning statuses in any sequence, including onto themselves, gives every live status the expected code and text, and all storage is freed exactly once.",
  ["inputs", "histories"], "every code, message contents up to the stated length, and every sequence of copy/move/assign operations up to the stated length",
  "The one test moves two statuses; aliasing, copy-after-move and ownership depend on operation sequences.",
  ["include/lsmdb/status.h", "util/status.cc"],
  [("Status ctor layout, CopyState, operator=", "include/lsmdb/status.h, util/status.cc")],
  ["ok/Is*, ToString, heap accounting"],
  [("state_", "length, code and message in one owned array", "include/lsmdb/status.h")])
p("C08", "The hash is a fixed function of the bytes and stays inside them",
  "The hash of a byte string depends only on its bytes, its length and the seed, equals the published LevelDB hash of them, does not depend on where the bytes lie in memory, and reads no byte outside them.",
  ["inputs"], "every byte string up to the stated length, every seed, every placement",
  "Six known answers are tested; tail handling with high bytes and every length residue needs all bytes values.",
  ["util/hash.cc"], [("4-byte loop and 1-3 byte tail", "util/hash.cc Hash")], ["Hash()"])
p("C09", "The pseudo-random generator stays in range and follows its recurrence",
  "From every seed, each step of the generator yields 16807 times the previous state modulo 2^31-1, never 0 or 2^31-1, so the sequence never degenerates; degenerate seeds are replaced at construction. The bounded draws (uniform, one-in-n, skewed) stay in their documented ranges for every positive bound.",
  ["inputs"], "every 32-bit seed, every positive bound (skewed: max_log 0..30)",
  "No test of the generator; the reduction's carry case and degenerate states are hit by a handful of the 2^31 states.",
  ["util/random.h"], [("Random::Next two-step reduction", "util/random.h"), ("seed sanitising", "util/random.h Random::Random")],
  ["Next, Uniform, OneIn, Skewed"])
p("C10", "Arena allocations are valid, disjoint and live until the arena dies",
  "Every block an arena hands out is at least as large as asked, writable in full, disjoint from every other block of the arena, and keeps its contents until the arena is destroyed, whatever the sequence of plain and aligned requests. Destroying the arena frees all its memory exactly once.",
  ["inputs", "histories"], "every sequence of plain/aligned requests up to the stated length, every request size up to the stated bound",
  "The test replays one pseudo-random sequence; block-exhaustion and quarter-block boundaries depend on exact sizes in sequence.",
  ["util/arena.h", "util/arena.cc"],
  [("Allocate/AllocateAligned/AllocateFallback bump pointer and remaining-bytes accounting", "util/arena.h, util/arena.cc"), ("~Arena", "util/arena.cc")],
  ["returned pointers, memory safety of writes, heap accounting"],
  [("alloc_ptr_, alloc_bytes_remaining_", "free tail of the current block", "util/arena.h"), ("blocks_", "every block to free", "util/arena.h")])
p("C11", "Arena alignment and memory-usage accounting are right",
  "Every aligned request returns memory aligned for a pointer, after any history. Reported memory usage is zero for a fresh arena, never decreases, never falls below the bytes handed out, and always equals the bytes obtained from the system plus one pointer per obtained block; small requests share blocks (4096 bytes) and waste at most a quarter block when a new one is started. Another thread may ask for the usage while the arena is in use: there is no data race, and the values it sees never go down.",
  ["inputs", "histories"], "every sequence of plain/aligned requests up to the stated length, every request size up to the stated bound",
  "The test checks alignment not at all and usage only within 10% on one sequence.",
  ["util/arena.h", "util/arena.cc"],
  [("slop computation", "util/arena.cc AllocateAligned"), ("memory_usage_ update", "util/arena.cc AllocateNewBlock")],
  ["returned pointers, MemoryUsage(), allocations made"])
p("C12", "The cache maps each key to its latest value",
  "After any sequence of insert, lookup, release, erase and prune, and while capacity is not exceeded, looking up a key returns a handle to the value most recently inserted under exactly that key since it was last erased or dropped, and nothing for other keys; the total charge reported equals the sum of charges of the entries currently cached. This holds whatever hash values and collisions the keys have and across internal table growth; a cache of capacity zero caches nothing but still hands out working handles.",
  ["inputs", "histories"], "every operation sequence up to the stated length over a small key set, every hash value assignment within the stated set, every charge",
  "Tests run fixed scripts with 4-byte keys whose hashes never collide in a chain in a chosen way.",
  ["util/cache.cc", "include/lsmdb/cache.h"],
  [("HandleTable FindPointer/Insert/Remove/Resize", "util/cache.cc"), ("ShardedLRUCache dispatch by hash", "util/cache.cc"), ("LRUCache::Insert/Erase/FinishErase usage_ accounting", "util/cache.cc")],
  ["Lookup/Value, TotalCharge"])
p("C13", "Cached entries outlive every handle and are deleted exactly once",
  "An entry's value is never passed to its deleter while the caller still holds a handle to it, even if it is erased, replaced, pruned or evicted meanwhile, and its handle keeps returning the same value. Once it is neither cached nor held, its deleter is called exactly once with its own key and value, immediately; destroying the cache deletes everything left, and no memory is leaked or touched after being freed.",
  ["inputs", "histories"], "every operation sequence up to the stated length with every choice of which handles are kept",
  "Reference-count errors need a particular interleaving of replace, erase, eviction and release on the same entry.",
  ["util/cache.cc"],
  [("Ref/Unref and in_cache", "util/cache.cc"), ("FinishErase", "util/cache.cc"), ("~LRUCache", "util/cache.cc")],
  ["deleter calls, Value(handle), heap accounting"],
  [("refs, in_cache", "cache reference plus one per outstanding handle", "util/cache.cc LRUHandle")])
p("C14", "Eviction is least-recently-used and bounded by capacity",
  "When an insert returns, the cache (each of its 16 partitions, selected by the top four bits of the hash of the key, whose capacity is one sixteenth of the total, rounded up) holds more than its capacity only if every other entry in that partition is in use; entries are evicted only when the capacity would be exceeded, never while in use, and always in order of least recent use, where use ends when the last handle is released. Pruning removes exactly the entries not in use, for any capacity value.",
  ["inputs", "histories", "configurations"], "every operation sequence up to the stated length, every charge within the stated bound, every capacity",
  "Tests check one long fixed pattern and an approximate weight bound.",
  ["util/cache.cc"],
  [("lru_/in_use_ lists", "util/cache.cc"), ("eviction loop in LRUCache::Insert", "util/cache.cc"), ("per-shard capacity", "util/cache.cc ShardedLRUCache")],
  ["which keys remain, deleter order, TotalCharge"])
p("C15", "The cache is safe and consistent under concurrent use",
  "For every interleaving of threads calling the cache (insert, lookup, release, erase, prune, total charge, new id) there is no data race, deadlock, double deletion or use of freed memory, the results are those of some sequential order (totals and pruning visit the partitions one after the other), and ids handed out are pairwise distinct.",
  ["schedules", "histories"], "every schedule of the stated threads and per-thread operations, symbolic operations and keys",
  "All cache tests are single-threaded.",
  ["util/cache.cc", "util/mutexlock.h", "port/port_stdcxx.h"],
  [("LRUCache::mutex_, id_mutex_", "util/cache.cc"), ("MutexLock", "util/mutexlock.h")], ["results, deleter calls, happens-before race check"])
p("C16", "The skip list behaves as a sorted set under every insertion order",
  "After any sequence of insertions of distinct keys, a key is contained exactly if it was inserted; iteration forwards and backwards visits all keys exactly once in comparator order; seeking lands on the first key at or after the target, and seeking to first/last or stepping off either end behaves accordingly. This holds whatever node heights the generator draws and for any type of key and any comparator that is a strict total order, of whose results only the sign counts.",
  ["inputs", "histories"], "every insertion order of the stated number of symbolic keys, every symbolic seek target, symbolic node heights",
  "The skip list test file contains no test; no insertion is ever exercised.",
  ["db/skiplist.h"],
  [("FindGreaterOrEqual/FindLessThan/FindLast", "db/skiplist.h"), ("Insert linking", "db/skiplist.h"), ("RandomHeight", "db/skiplist.h")],
  ["Contains, Iterator"])
p("C17", "Skip-list readers run safely beside one writer",
  "A reader running concurrently with a writer, with no lock, sees every key whose insertion finished before the read began, never a key that was not inserted, and keys in strictly increasing order, under every interleaving and every outcome the C++ memory model allows for the list's atomics. There is no data race on a node's contents. Lists are independent of each other, so writers of different lists need no common lock.",
  ["schedules"], "every schedule of one writer and the stated readers at the granularity of atomic operations, with stale relaxed reads allowed by release/acquire semantics",
  "No test is concurrent, and on x86 a weakened ordering never shows.",
  ["db/skiplist.h"],
  [("release store in SetNext, acquire load in Next", "db/skiplist.h Node"), ("NoBarrier_SetNext before publication, bottom level first", "db/skiplist.h Insert"), ("relaxed max_height_", "db/skiplist.h")],
  ["Contains, Iterator from the reader thread; race check"])
p("C18", "In-memory files return exactly the bytes written",
  "For any sequence of appends, in pieces of any size, a file's size is the total appended since it was created or last truncated, and sequential, random-access and skipped reads return exactly those bytes from the requested position, shortened only by end of file; a random read starting beyond the end is an error, a skip past the end stops at the end. Reads touch only the caller's buffer of the requested size.",
  ["inputs", "histories"], "every file length and offset/count within the stated windows (around the 8 KiB block boundaries), symbolic contents",
  "Tests write one 300 KiB pattern and read it whole; boundary offsets and lengths are not varied.",
  ["helpers/memenv/memenv.cc"],
  [("FileState::Append/Read block arithmetic", "helpers/memenv/memenv.cc"), ("SequentialFileImpl position", "helpers/memenv/memenv.cc")],
  ["Read/Skip/GetFileSize results"])
p("C19", "The in-memory file system names behave like a file system",
  "After any sequence of create (truncating), open for append, write, remove, rename and lookups over any names, existence, size, contents and directory listing are those of a map from name to contents: creating empties and makes visible, append-opening creates if missing and otherwise preserves, rename moves the contents and replaces the target (renaming to itself changes nothing), remove deletes only that name, and operations on missing names fail without side effects and give a null file. Listing a directory gives each existing name below it once, relative to it. Making and removing directories and locking a name leave every file as it is.",
  ["histories", "inputs"], "every operation sequence up to the stated length over the stated names",
  "The test runs one script; append-open of a missing file followed by any other use, or rename onto itself/onto an existing file, is never tried.",
  ["helpers/memenv/memenv.cc", "helpers/memenv/memenv.h"],
  [("file_map_ updates", "helpers/memenv/memenv.cc InMemoryEnv"), ("GetChildren prefix match", "helpers/memenv/memenv.cc")],
  ["FileExists, GetFileSize, GetChildren, reads, statuses"])
p("C20", "Open in-memory files stay usable after remove, rename and env teardown",
  "A reader or writer opened on an in-memory file stays valid and keeps accessing the same file, whatever is later removed, renamed, replaced or recreated and in whatever order handles are closed and the environment destroyed. When the environment and all handles are gone, all memory has been freed exactly once.",
  ["histories"], "every sequence of open/remove/rename/overwrite/close/destroy up to the stated length",
  "Only one overwrite-while-open case is tested, without leak or use-after-free detection.",
  ["helpers/memenv/memenv.cc"], [("FileState reference count", "helpers/memenv/memenv.cc")], ["reads through open handles, heap accounting"],
  [("refs_", "one per map entry plus one per open handle", "helpers/memenv/memenv.cc FileState")])
p("C21", "The in-memory environment is safe under concurrent use",
  "For every interleaving of threads using one in-memory environment and shared files (append, random reads, open, close, rename, remove, size, existence, listing) there is no data race, deadlock, leak, double free or use of freed memory, and readers see a prefix of the bytes appended, always in whole appended pieces.",
  ["schedules"], "every schedule of the stated threads and operations",
  "All tests are single-threaded.",
  ["helpers/memenv/memenv.cc"], [("mutex_, blocks_mutex_, refs_mutex_", "helpers/memenv/memenv.cc")], ["results, heap accounting, happens-before race check"])
p("C22", "A POSIX writable file delivers exactly the appended bytes in order",
  "However the operating system splits, interrupts or refuses writes, the bytes that reach the file are always a prefix of the concatenation of the data appended, in order, until an operation reports an error; if append, then flush, sync or close, all report success then all appended bytes have reached the file. An interrupted write is retried, and any failed write or close is reported by the call that made it.",
  ["inputs", "fault_sequences", "histories"], "every sequence of append/flush/sync/close within the stated count, append sizes around the 64 KiB buffer boundary, every split/EINTR/error pattern of write()",
  "The POSIX environment has no test at all, and the kernel rarely splits writes.",
  ["util/env_posix.cc"],
  [("PosixWritableFile::Append/FlushBuffer/WriteUnbuffered", "util/env_posix.cc")], ["bytes received by write(2), returned statuses"],
  [("buf_, pos_", "data not yet written", "util/env_posix.cc PosixWritableFile")])
p("C23", "Sync makes everything appended durable, directory entry first for manifests",
  "When sync reports success, every byte appended before it has been written and then covered by a successful data sync of that file, so no crash afterwards loses it; for a file whose base name starts with MANIFEST the containing directory is synced successfully first, before any of the buffered manifest data is written. If any of these steps fails, sync reports the failure.",
  ["crash_points", "fault_sequences", "inputs"], "every file name within the stated bound, every failure of open/fsync/write, every crash point after any system call",
  "No test syncs a POSIX file; durability is invisible without a crash.",
  ["util/env_posix.cc"],
  [("PosixWritableFile::Sync, SyncDirIfManifest, SyncFd", "util/env_posix.cc"), ("Dirname/Basename/IsManifest", "util/env_posix.cc")], ["order and results of open/write/fsync/fdatasync/close"])
p("C24", "POSIX reads return the file's own bytes or an error",
  "Sequential reads return the consecutive bytes the operating system delivers, retrying interruptions; skipping advances the position by the amount skipped and never moves it backwards. A random-access read of any offset and length, whichever access method the file got, returns exactly the file's bytes at that offset (at most the length asked, shortened only at end of file) or an error, never bytes outside the file or the caller's buffer.",
  ["inputs", "fault_sequences", "configurations"], "every offset, length and skip distance (64-bit), every short/interrupted/failed read, both mmap and pread paths",
  "The POSIX environment has no test; huge offsets and interrupted reads do not occur in practice runs.",
  ["util/env_posix.cc"],
  [("PosixSequentialFile::Read/Skip", "util/env_posix.cc"), ("PosixRandomAccessFile::Read", "util/env_posix.cc"), ("PosixMmapReadableFile::Read bounds check", "util/env_posix.cc")], ["Read results and statuses"])
p("C25", "POSIX file handles never leak or double-release system resources",
  "Whatever system calls fail, every file descriptor, memory mapping and heap object acquired on behalf of a file is released exactly once when the object is deleted, or before the failing call returns; the number of simultaneously held mappings and permanently open read-only descriptors never exceeds the configured limits, and capacity is given back so later opens can use it.",
  ["fault_sequences", "histories", "configurations"], "every sequence of opens/reads/deletes up to the stated length, every failure pattern, every small limit",
  "No test exercises failure paths or limits.",
  ["util/env_posix.cc"],
  [("Limiter Acquire/Release", "util/env_posix.cc"), ("destructors close/munmap", "util/env_posix.cc"), ("error paths in NewRandomAccessFile, NewLogger, LockFile", "util/env_posix.cc")], ["open fds and mappings in the OS model, heap accounting"],
  [("acquires_allowed_", "remaining capacity", "util/env_posix.cc Limiter")])
p("C26", "At most one holder has a file lock at any time",
  "From a successful lock of a file until its unlock, no other lock attempt on that name succeeds, neither from another thread of the process nor from another process, and in particular failed attempts do not break the holder's lock. Locks of different names do not affect each other. After a successful unlock or a failed attempt the file can be locked again, and a failed attempt stores a null lock, reports an error and leaks nothing.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of lock/unlock calls of the stated threads with another process's attempts (POSIX record-lock semantics: closing any descriptor of a file drops the process's locks), every failure of open/fcntl",
  "Only the in-memory no-op lock is tested; POSIX lock loss on close needs a particular order of calls.",
  ["util/env_posix.cc"],
  [("PosixLockTable", "util/env_posix.cc"), ("LockFile/UnlockFile ordering of table, fcntl and close", "util/env_posix.cc"), ("LockOrUnlock", "util/env_posix.cc")], ["returned statuses, record locks in the OS model"],
  [("locked_files_", "names locked by this process", "util/env_posix.cc PosixLockTable")])
p("C27", "Every scheduled task runs exactly once, in order, in the background",
  "Every task passed to schedule, from any thread including from within a task, is run exactly once with its own argument on one background thread that is not the caller's, in the order scheduled, and no wake-up is ever lost; tasks see everything their scheduler did before. Starting a thread runs its function exactly once with its argument in a new thread, and does not wait for it.",
  ["schedules", "histories"], "every interleaving of the stated scheduling threads and the background thread at synchronisation points",
  "There is no test of scheduling; lost wake-ups need a particular interleaving.",
  ["util/env_posix.cc", "port/port_stdcxx.h"],
  [("Schedule/BackgroundThreadMain mutex, queue and signal", "util/env_posix.cc"), ("port::CondVar", "port/port_stdcxx.h")], ["task runs"])
p("C28", "Every failed OS call is reported with the right kind and no stray result",
  "Each environment operation acts on exactly the paths it was given and reports success exactly if the operating system did; on failure it returns not-found when the system said no such file and an I/O error otherwise, carrying the file's name and the system's message, and stores a null object (or size zero). Opening modes match the operation: writable files are created and truncated, appendable files created and preserved, readers neither.",
  ["fault_sequences", "inputs"], "every error number from every system call used by each operation, short symbolic paths",
  "No test makes a POSIX call fail.",
  ["util/env_posix.cc", "util/env.cc"],
  [("PosixError", "util/env_posix.cc"), ("each PosixEnv method", "util/env_posix.cc")], ["returned status, out-parameters, calls made to the OS model"])
p("C29", "Whole-file helpers write all or clean up, and read back the same bytes",
  "Writing a string to a file, with or without sync, returns OK only if the data was appended, (synced,) and closed successfully, and on any failure after the file was opened returns that failure and removes the file; reading a file to a string returns exactly its bytes for any file length and read fragmentation, or the error that occurred. The file object is always destroyed exactly once and other environment state is untouched.",
  ["inputs", "fault_sequences"], "every failure point, every fragmentation of reads up to the stated number of fragments, data around the buffer size",
  "Used once as a helper by one in-memory test; failures are never injected.",
  ["util/env.cc"], [("DoWriteStringToFile", "util/env.cc"), ("ReadFileToString", "util/env.cc")], ["calls on a model Env, status, resulting string"])
p("C30", "The environment wrapper forwards every operation unchanged",
  "Every operation on a wrapping environment is passed once, with the same arguments, to the wrapped one and its result and outputs are returned unchanged; the in-memory environment does so for everything that is not file storage. An environment that does not implement append-opening reports not-supported and a null file.",
  ["inputs", "programs"], "every operation, symbolic arguments, results and outputs",
  "Forwarding is only exercised incidentally; a swapped argument or wrong target would go unnoticed.",
  ["include/lsmdb/env.h", "util/env.cc"], [("EnvWapper methods", "include/lsmdb/env.h"), ("Env::NewAppendableFile", "util/env.cc")], ["calls seen by a recording Env"])
p("C31", "Each log call writes one complete, newline-terminated record",
  "Every log call appends exactly one record at the end of the log, whatever the file held before and others add to it: a timestamp-and-thread header, the whole formatted message whatever its length, and exactly one added newline if the message does not already end in one; it never writes outside its buffers, leaks, or emits a partial record. Logging to a null logger does nothing.",
  ["inputs"], "every formatted message length up to the stated bound (across the 512-byte stack buffer boundary), every header length allowed, symbolic message bytes",
  "The POSIX logger has no test; the truncation boundary is a few lengths out of all.",
  ["util/posix_logger.h", "util/env.cc"], [("two-iteration buffer sizing in Logv", "util/posix_logger.h"), ("Log", "util/env.cc")], ["bytes passed to fwrite, flush, close"])
p("C32", "Clock and temporary-directory services report what the system says",
  "The microsecond clock returns exactly seconds*1000000+microseconds of the system time for every time; sleeping requests exactly the given duration. The test directory is the configured one if set and non-empty, otherwise a fixed per-user path; it is created if needed, and repeated calls and the default environment object are always the same, and the default environment stays usable until the process has ended, during exit handlers and the destruction of static objects too.",
  ["inputs", "configurations"], "every system time, duration, user id, environment-variable setting",
  "No test covers them.",
  ["util/env_posix.cc"], [("NowMicros, SleepForMicroseconds, GetTestDirectory, Env::Default", "util/env_posix.cc")], ["results and calls made to the OS model"])
p("C33", "Locks exclude and condition waits never miss a wake-up",
  "At most one thread holds a port mutex at a time, and what a thread did while holding it is visible to the next holder; a scoped lock is released on every way out. Waiting on a condition variable gives the mutex up while waiting and holds it again on return, a signal wakes at least one waiter and a broadcast all of them. Optional facilities that are not compiled in report so and touch none of their outputs.",
  ["schedules"], "every interleaving of the stated threads and rounds, with spurious wake-ups",
  "The wrappers have no test of their own; a lost wake-up or double release shows under particular schedules only.",
  ["port/port_stdcxx.h", "util/mutexlock.h"],
  [("Mutex, CondVar (adopt_lock/release)", "port/port_stdcxx.h"), ("MutexLock", "util/mutexlock.h")],
  ["mutual exclusion, visibility and termination of threads using them"])
p("C34", "The command-line tool accepts exactly its commands",
  "For any argument vector the tool exits with status 0 exactly if the first argument is the command it knows (dump); otherwise it shows its usage and exits with status 1. It reads only the arguments it was given.",
  ["inputs"], "every argument count and every command text up to the stated bounds",
  "The tool has no test.",
  ["db/lsmdb_util.cc"], [("main", "db/lsmdb_util.cc")], ["exit status, output"])
p("C35", "No open file is inherited by a program the process starts",
  "Whatever operation of the POSIX environment opens a file or a directory (to read, reopen, map, write, append, log, lock or sync it), on a system that offers close-on-exec the descriptor carries that mark from the moment it exists until it is closed, so a program that any thread starts at any moment never inherits an open database file, log or lock file.",
  ["histories", "fault_sequences"], "every short history of operations, every descriptor and mapping limit of 0 and 1, one failed call anywhere",
  "The tests never execute a program while files are open; one forgotten open among nine suffices to leak.",
  ["util/env_posix.cc"], [("kOpenBaseFlags", "util/env_posix.cc"), ("every ::open, ::fopen, ::fdopen", "util/env_posix.cc")],
  ["flags of every descriptor in the model of the operating system"])
p("C36", "Random test data and injected file errors are as promised",
  "Random strings have exactly the requested length and only printable characters, all of which can occur; random keys have the requested length and consist of the ten documented boundary characters, all of which can occur; a compressible string has exactly the requested length and repeats a random printable piece of the given fraction of that length (at least one character). The returned slice refers to the string given, and equal generator states give equal data. The error-injecting environment, while told to, fails every creation and append-opening of a writable file with an I/O error that names the file, gives no object, counts it and changes nothing; otherwise it behaves as the in-memory environment it wraps.",
  ["inputs", "histories"], "every generator state and the stated lengths and fractions; every short history of openings and switches",
  "They serve tests and are not tested themselves; a wrong one makes other tests weaker without failing any.",
  ["util/test_util.cc", "util/test_util.h"],
  [("RandomString, RandomKey, CompressibleString", "util/test_util.cc"), ("ErrorEnv", "util/test_util.h")],
  ["generated bytes; statuses, objects, counter and files of the environment"])

for x in P:
    assert len(x["title"]) <= 80, x["id"]
    print(json.dumps(x))
