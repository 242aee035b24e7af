"""The registry of checks: property -> cases (harness entry points with bounds)."""
CHECKS = {}
NOT_APPLICABLE = {}


def check(pid, cases, bounds, outside="", assumptions=(), stubs=()):
    CHECKS[pid] = dict(cases=cases, bounds=bounds, outside=outside, assumptions=list(assumptions), stubs=list(stubs))


def case(file, entry, **kw):
    return dict(file=file, entry=entry, **kw)


check("C01", [
    case("coding", "c01_fixed", covers=["end"]),
    case("coding", "c01_fixed_decode", covers=["end"]),
    case("coding", "c01_varint32", covers=["longest", "shortest"]),
    case("coding", "c01_varint64", covers=["longest", "shortest"]),
    case("coding", "c01_varlen", covers=["end"]),
], bounds="all 2^32 / 2^64 values; 0..30 arbitrary bytes after the encoding; fixed decoding of all 12-byte buffers at 5 offsets",
    outside="encodings followed by more than 30 bytes (decoders stop at the last byte of the varint)")
check("C02", [
    case("coding", "c02_varint32", covers=["accepted", "overlong", "truncated"]),
    case("coding", "c02_varint64", covers=["accepted", "overlong", "truncated"]),
    case("coding", "c02_slice", covers=["accepted", "two-byte prefix", "too long", "bad prefix"]),
    case("coding", "c02_huge", covers=["accepted", "too long", "bad prefix"]),
], bounds="every 12-byte start of an input of any size up to 2^46 (varint32, varint64, length-prefixed); varint32: every input of 0..7, 16, 17, 20, 32, 100 bytes; varint64: every input of 0..12, 16, 17, 20, 32, 100 bytes; length-prefixed: every input of 0..7, 9, 127..131, 260 and 300 bytes (all bytes symbolic, all 2^32 claimed lengths)",
    outside="inputs above 2^46 bytes")
check("C03", [
    case("coding", "c03_sequence", covers=["string", "end"], quick=dict(ops=3, slice=2), thorough=dict(ops=4, slice=2), weight=3),
    case("coding", "c03_long", covers=["end"], opts=["--max-steps", "400000000"], quick=dict(sizes=14), thorough=dict(sizes=14)),
], bounds=dict(quick="every sequence of 3 appended values of the 5 kinds, all values, strings of 0..2 arbitrary bytes, after 0 or 3 arbitrary earlier bytes; one string of 126..129, 255, 256, 300, 16383, 16384, 65535..65537, 2097151 or 2097152 bytes (the first and last 40 arbitrary)",
               thorough="as quick with sequences of 4 values"),
    outside="longer sequences and strings")
check("C04", [
    case("logging", "c04_parse", covers=["no digit", "accepted", "overflow", "20 digits accepted"], quick=dict(n=21), thorough=dict(n=26)),
    case("logging", "c04_zeros", covers=["accepted", "overflow"], quick=dict(rests=4, lo=19, ks=2), thorough=dict(rests=6, lo=1, ks=21), deep=True),
    case("logging", "c04_format", covers=["20 digits", "1 digit"]),
], bounds=dict(quick="every text of up to 21 leading digits (leading zeros included) followed by 0..2 arbitrary bytes; 0..5000 leading zeros before every 19 or 20 digits, and up to 30 bytes after them; formatting of all 2^64 numbers, parsed back before 0..2 arbitrary bytes",
               thorough="as quick with up to 26 leading digits; zeros before every 1..21 digits and up to 70000 bytes after them"),
    outside="runs of more than 26 digits that do not begin with zeros (the parser gives up at the 21st)",
    stubs=["snprintf: exact model of %llu (digits tied to the value by their positional sum)"])
check("C05", [
    case("logging", "c05_escape", covers=["printable", "escaped"], quick=dict(n=4), thorough=dict(n=5)),
    case("logging", "c05_position", covers=["end"], quick=dict(len=120), thorough=dict(len=300)),
    case("logging", "c05_long", covers=["end"]),
], bounds=dict(quick="every byte string of 0..4 bytes after 0 or 2 arbitrary earlier bytes; one arbitrary byte at every position of a 120-byte text, and in the middle or near the end of texts of 255..257, 1000, 4095..4097, 5000 bytes",
               thorough="0..5 bytes; 300-byte text"),
    outside="longer strings with several unusual bytes", stubs=["snprintf: exact model of %02x"])
check("C06", [
    case("slice", "c06_order", covers=["end"], quick=dict(n=4), thorough=dict(n=5)),
    case("slice", "c06_long", covers=["end"], quick=dict(sizes=12), thorough=dict(sizes=15)),
    case("slice", "c06_long", name="c06_every", covers=["end"], quick=dict(every=40), thorough=dict(every=130)),
    case("slice", "c06_huge", covers=["end"], quick=dict(n=2), thorough=dict(n=8)),
    case("slice", "c06_contents", covers=["end"], quick=dict(sizes=4), thorough=dict(sizes=9), deep=True),
    case("slice", "c06_access", covers=["end"], quick=dict(n=4), thorough=dict(n=6)),
], bounds=dict(quick="a slice of 0..2 bytes against one of any 64-bit size (and remove_prefix by any 64-bit length); every triple of slices of 0..4 arbitrary bytes; every pair of slices of 1, 7..9, 15..17, 33, 64, 65, 127, 128 arbitrary bytes, and of every length up to 40 with one as long, one shorter or one longer; pairs of 300, 65540, 2^31+3, 2^32+5 bytes that differ in one arbitrary byte at one of 3 positions; accessors on 0..4 arbitrary bytes",
               thorough="triples of 0..5 bytes; pairs up to 257 bytes; accessors on 0..6 bytes"),
    outside="other longer slices (comparison is memcmp over the shorter length)",
    stubs=["memcmp/memcpy/strlen: exact models; memcmp returns -1/0/1"])
check("C07", [
    case("status", "c07_build", covers=["two messages", "end"], quick=dict(n=2), thorough=dict(n=4)),
    case("status", "c07_long", covers=["end"], opts=["--max-steps", "400000000"], quick=dict(sizes=18), thorough=dict(sizes=20)),
    case("status", "c07_long", name="c07_every", covers=["end"], opts=["--max-steps", "400000000"], quick=dict(every=301), thorough=dict(every=1100)),
    case("status", "c07_assign", covers=["end"], quick=dict(n=2), thorough=dict(n=4), weight=2),
    case("status", "c07_sequence", covers=["end"], quick=dict(ops=2), thorough=dict(ops=3), weight=3),
], bounds=dict(quick="all 6 kinds, one or two messages of 0..2 arbitrary bytes; copy, move and swap between every two such statuses (second message up to 1 byte); messages of 18 lengths from 0 to 131072 (around 2^7, 2^8, 2^16; first and last bytes arbitrary), and of every length up to 300, alone, before and after a short one; every sequence of 2 operations (5 kinds, any source and target of 3 statuses)",
               thorough="messages of 0..4 bytes, up to 2^24; sequences of 3 operations"),
    outside="longer sequences; messages of 4 GB and more (length field is 32 bits)")
check("C08", [
    case("hashrand", "c08_hash", covers=["longest", "empty"], quick=dict(n=40), thorough=dict(n=130)),
    case("hashrand", "c08_long", covers=["end"], opts=["--max-steps", "400000000"]),
], bounds=dict(quick="all byte strings of 0..40 bytes at 4 alignments and of 48, 63..65, 127..129, 255..257 and 1000 bytes; 9 lengths up to 131072 with the first and last 64 bytes arbitrary; all 2^32 seeds", thorough="0..130 bytes"),
    outside="other lengths")
check("C09", [
    case("hashrand", "c09_next", covers=["end"]),
    case("hashrand", "c09_long", covers=["end"], quick=dict(steps=5000), thorough=dict(steps=100000)),
    case("hashrand", "c09_bounded", covers=["end"]),
    case("hashrand", "c09_skewed", covers=["end"], quick=dict(logs=5), thorough=dict(logs=16)),
], bounds="all 2^32 seeds, two steps (any state in range is also a seed, so this covers every step of every sequence); all 2^31-1 bounds; Skewed with max_log in {0,1,3,12,30} (thorough: 16 values); 5000 steps from each of 4 seeds",
    outside="non-positive bounds (excluded by the interface)")
ARENA_OUT = "longer histories; sizes above 10000 that are not listed; a request of 0 bytes (excluded by the interface); allocation failure"
check("C10", [
    case("arena", "c10_disjoint", covers=["end"], quick=dict(ops=3), thorough=dict(ops=4), weight=3),
    case("arena", "c10_contents", covers=["end"], quick=dict(ops=2, sizes=8), thorough=dict(ops=3, sizes=14)),
    case("arena", "c10_many", covers=["end"], quick=dict(blocks=66000), opts=["--max-steps", "400000000"]),
    case("arena", "c10_huge", covers=["end"], quick=dict(sizes=6), thorough=dict(sizes=13)),
], bounds=dict(quick="every history of 3 plain/aligned requests of any sizes 1..10000 (disjoint, in bounds); every history of 2 requests with sizes at 8 boundary values from 4 fill levels of the first block (full contents); 66000 blocks; 2 requests of 6 sizes from 65535 to 2^32+24",
               thorough="histories of 4 requests of any sizes; 3 requests of 14 boundary sizes; 13 sizes up to 2^33+9"),
    outside=ARENA_OUT, stubs=["operator new[]: fresh 16-byte aligned memory"])
check("C11", [
    case("arena", "c11_accounting", covers=["end", "block", "shared"], quick=dict(ops=3), thorough=dict(ops=4)),
    case("arena", "c11_huge", covers=["end"], quick=dict(sizes=8), thorough=dict(sizes=13, ops=3)),
    case("arena", "c11_concurrent", covers=["end", "between"], quick=dict(), thorough=dict(ops=4, reads=4)),
], bounds=dict(quick="every interleaving of 3 requests of 4 sizes with 3 readings of the usage by another thread; every history of 3 plain/aligned requests of any sizes 1..10000; histories of 2 requests of 8 sizes from 65535 to 2^32+24 between small ones", thorough="4 requests and 4 readings; histories of 4 requests; 3 of 13 sizes up to 2^33+9"),
    outside=ARENA_OUT, stubs=["operator new[]: fresh 16-byte aligned memory"])
CACHE_STUB = ["Hash: replaced by a function the harness controls (every collision pattern listed in the bounds)"]
check("C12", [
    case("cache", "c12_mapping", covers=["end", "replaced", "found"], quick=dict(keys=3, ops=4), thorough=dict(keys=3, ops=5), weight=3),
    case("cache", "c12_growth", covers=["end"], quick=dict(counts=5), thorough=dict(counts=6)),
    case("cache", "c12_hash", covers=["end"], quick=dict(keys=2), thorough=dict(keys=3)),
    case("cache", "c12_table", covers=["end"], opts=["--max-steps", "400000000"]),
    case("cache", "c12_chain", covers=["end"], quick=dict(n=34), thorough=dict(n=130), opts=["--max-steps", "400000000"]),
    case("cache", "c12_keys", covers=["end"]),
    case("cache", "c12_zero", covers=["end"]),
    case("cache", "c12_capacity", covers=["end"]),
    case("cache", "c12_charges", covers=["end"], quick=dict(ops=4), thorough=dict(ops=5)),
], bounds=dict(quick="every history of 4 operations over 3 keys and 5 collision patterns; up to 17 keys in one partition with 6 bucket patterns (table growth), one erased or replaced; 2 keys with all 2^64 hash values; tables of up to 1100 keys with 4 bucket patterns; tables of 34 keys with one chain of every length; 4 colliding keys of every length from 2 to 133 and of 9 up to 65538 that differ in one byte or in length; capacity 0 with every history of 3 operations; 11 capacity values up to 2^64-1; every history of 4 operations over 2 keys with every 55-bit charge",
               thorough="histories of 5 operations; up to 20 keys; 3 keys with all hash values; chains of every length among 130 keys"),
    outside="longer arbitrary histories, larger tables", stubs=CACHE_STUB)
check("C13", [
    case("cache", "c13_handles", covers=["end", "second handle", "deleted"], quick=dict(keys=2, ops=4), thorough=dict(keys=2, ops=5)),
    case("cache", "c13_many", covers=["end"], quick=dict(counts=7), thorough=dict(counts=11), opts=["--max-steps", "400000000"]),
    case("cache", "c13_keys", covers=["end"]),
    case("cache", "c13_weights", covers=["end"], quick=dict(ops=4), thorough=dict(ops=5)),
], bounds=dict(quick="every history of 4 operations over 2 keys with every 55-bit charge and no shortage of room; every history of 4 operations (insert, lookup, erase, prune, release of any held handle) over 2 keys, 4 capacities, 5 collision patterns, then all handles released in turn and the cache destroyed; 126..300 handles of one entry that is then erased, replaced or pruned; keys of every length up to 130 and of 9 up to 70001 bytes deleted in 4 ways",
               thorough="histories of 5 operations; up to 66000 handles of one entry"),
    outside="longer histories; handles released after the cache is destroyed (forbidden by the interface); a deleter that calls the cache", stubs=CACHE_STUB)
check("C14", [
    case("cache", "c14_lru", covers=["end", "eviction"], quick=dict(ops=3), thorough=dict(ops=4), weight=3),
    case("cache", "c14_charges", covers=["end", "eviction", "several evictions"], quick=dict(ops=2, fill=4), thorough=dict(ops=3, fill=4), weight=3),
    case("cache", "c14_many", covers=["end", "many leave"], quick=dict(sizes=6), thorough=dict(sizes=7)),
    case("cache", "c14_symbolic", covers=["end"], quick=dict(n=4), thorough=dict(n=5)),
], bounds=dict(quick="5, 20, 40, 70, 130, 300 entries of one partition released in 3 orders, none or some kept, then pruned or followed by an insert of 6 charges; up to 2 (4 with mixed charges) entries inserted and released, then every history of 3 (2) operations out of insert/lookup (handle kept or released), release of any held handle, erase, prune over 3 keys; capacities of 0, 1, 2, 3 per partition; 5 collision patterns; plus 4 inserts with every 64-bit capacity and every 60-bit charge, one handle kept, one entry touched",
               thorough="4 operations (3 with mixed charges); 5 inserts with symbolic capacity and charges"),
    outside="longer histories, more keys; sums of charges that overflow 64 bits", stubs=CACHE_STUB)
check("C15", [
    case("cache_mt", "c15_same", covers=["end"], quick=dict(a=2, b=2), thorough=dict(a=3, b=2), weight=3),
    case("cache_mt", "c15_evict", covers=["end"], quick=dict(a=2, b=2), thorough=dict(a=3, b=2), weight=3),
    case("cache_mt", "c15_apart", covers=["end"], quick=dict(a=2, b=2), thorough=dict(a=3, b=2)),
    case("cache_mt", "c15_evict", name="c15_strict", covers=["end"], quick=dict(a=1, b=1, strict=1), thorough=dict(a=2, b=1, strict=1), opts_quick=["--preempt", "3"], opts_thorough=["--preempt", "3"]),
    case("cache_mt", "c15_sweeps", covers=["end"], opts_quick=["--preempt", "2"], opts_thorough=["--preempt", "3"]),
    case("cache_mt", "c15_ids", covers=["end"], quick=dict(threads=2), thorough=dict(threads=3)),
    case("cache_mt", "c15_manyids", covers=["end"], quick=dict(n=70000), thorough=dict(n=200000), opts=["--max-steps", "2000000000"]),
], bounds=dict(quick="70000 ids of one cache; every interleaving (at lock granularity, data races checked by vector clocks) of two threads, each running any 2 pieces out of insert+release, lookup+value+release, erase, and (one thread) prune, total charge, over 2 keys colliding / in one partition of capacity 1 / in two partitions, on an empty cache or one holding an entry; prune and total charge in both threads with at most 2 preemptions; one piece each with operations delayed (real-time order) and at most 3 preemptions; two threads drawing 2 ids each",
               thorough="3 pieces against 2; 3 preemptions; 3 threads drawing ids"),
    outside="more threads and operations; destroying the cache while it is in use (forbidden)", stubs=CACHE_STUB)
SKIP_STUB = ["Random::Next: replaced, so that every new node gets any height of a chosen set"]
check("C16", [
    case("skiplist", "c16_symbolic", covers=["end"], quick=dict(n=4, heights=3), thorough=dict(n=5, heights=3), weight=3),
    case("skiplist", "c16_order", covers=["end"], quick=dict(n=5, heights=3), thorough=dict(n=6, heights=4), weight=2),
    case("skiplist", "c16_reverse", covers=["end"]),
    case("skiplist", "c16_types", covers=["end"], quick=dict(n=4), thorough=dict(n=5)),
    case("skiplist", "c16_magnitudes", covers=["end"], quick=dict(n=3), thorough=dict(n=4)),
    case("skiplist", "c16_long", covers=["end"], quick=dict(n=100), thorough=dict(n=1000), opts=["--max-steps", "400000000"], deep=True),
], bounds=dict(quick="every insertion order of 4 keys with all 2^64 values each, every combination of heights 1, 2, 12, and every probe key; every insertion order of 5 ranks with an iterator kept across; the reversed order; 100 keys in 4 orders under a comparator with a state, one probe of any value; keys of 1, 8 and 40 bytes in every order of 4, 7 pairs of comparator results up to 2^31-1 in every order of 3",
               thorough="5 keys; 6 ranks with heights 1, 2, 3, 12; 1000 keys"), outside="other long histories, other heights; inserting a key twice (forbidden)", stubs=SKIP_STUB)
check("C17", [
    case("skiplist", "c17_forward", covers=["end", "saw a new key", "saw no new key"], quick=dict(inserts=2, heights=3), thorough=dict(inserts=2, heights=4)),
    case("skiplist", "c17_backward", covers=["end", "saw a new key", "saw no new key"], quick=dict(inserts=2, heights=2), thorough=dict(inserts=2, heights=3), weight=3),
    case("skiplist", "c17_backward", name="c17_backward_tall", covers=["end", "saw a new key", "saw no new key"], quick=dict(inserts=1, heights=3), thorough=dict(inserts=1, heights=4), weight=2),
    case("skiplist", "c17_lookup", covers=["end", "saw a new key"], quick=dict(inserts=2, heights=3), thorough=dict(inserts=2, heights=4), weight=3),
    case("skiplist", "c17_lists", covers=["end"]),
    case("skiplist", "c17_readers", covers=["end"], quick=dict(inserts=1, heights=3, before=1), thorough=dict(inserts=2, heights=2)),
], bounds=dict(quick="one writer inserting 2 keys (heights 1, 2, 12; backward scans: heights 1, 2, or one key of any of them) into a list of 0..2 keys, beside one reader scanning forwards or backwards, looking up or seeking any position, every interleaving of their atomic accesses; one writer (1 key) and two readers; two lists with a writer each",
               thorough="heights 1, 2, 3, 12; two keys and two readers"),
    outside="more keys and readers; interleavings are sequentially consistent, with every conflicting access that is not ordered by the code's own acquire/release pairs reported as a race",
    stubs=SKIP_STUB)
MEM_STUB = ["base environment: a recording stub that fails the check if asked for file storage", "std::map red-black tree, std::string, std::vector: the real library code"]
check("C18", [
    case("memenv", "c18_blocks", covers=["end", "beyond"], quick=dict(pieces=3, sizes=5, lens=3), thorough=dict(pieces=3, sizes=8, lens=7), weight=2),
    case("memenv", "c18_ranges", covers=["end"]),
    case("memenv", "c18_anywhere", covers=["end"]),
    case("memenv", "c18_long", covers=["end"], quick=dict(sizes=3), thorough=dict(sizes=8), opts=["--max-steps", "400000000"], deep=True),
    case("memenv", "c18_huge", covers=["end"], validate=1, mem=8000, opts=["--max-steps", "2000000000"], deep=True),
    case("memenv", "c18_history", covers=["end"], quick=dict(ops=5), thorough=dict(ops=6, lens=2)),
], bounds=dict(quick="files of 3 appends with sizes out of 0, 1, 8191, 8192, 8193 (contents fully symbolic), read at 16 offsets (block boundaries, middles, the end) with 3 lengths, by random access and after a skip; every offset of a file of 2 blocks and 77 bytes, lengths 0..3, by random access and after a skip; files of 0..3 bytes with every 64-bit offset, length and skip; every history of 5 operations out of append (1 or 8191 bytes), truncate, reopen for append, sequential read, skip; files of two long appends (up to 140002 bytes) read in 6 lengths from 8 offsets; one file of more than 2^32 bytes, read and skipped around 2^30, 2^31, 2^32 and at its end",
               thorough="8 append sizes up to 16384, 7 lengths; long appends up to 400000 bytes; histories of 6 operations"),
    outside="files of more than 2^32 + 2^15 bytes and longer histories; what a reader does after the file is truncated below its position; a skip or read by several threads through one sequential file (excluded by the interface)", stubs=MEM_STUB)
check("C19", [
    case("memenv", "c19_names", covers=["end", "appended to an existing file", "renamed to itself"], quick=dict(ops=3), thorough=dict(ops=4)),
    case("memenv", "c19_others", covers=["end"]),
    case("memenv", "c19_anynames", covers=["end"], quick=dict(len=2), thorough=dict(len=3)),
    case("memenv", "c19_longnames", covers=["end"], quick=dict(lens=5), thorough=dict(lens=11), opts=["--max-steps", "100000000"]),
    case("memenv", "c19_manynames", covers=["end"], quick=dict(files=60), thorough=dict(files=300), opts=["--max-steps", "400000000"], deep=True),
], bounds=dict(quick="every history of 3 operations out of create, append-open, remove, rename (including to itself) over 3 names that are prefixes of each other, with symbolic contents of equal or different sizes; all pairs of distinct names of 1..2 arbitrary bytes below a directory; names of 15..4097 bytes that differ in one symbolic byte or in length by one; 60 files; every set of 4 files with one operation on a directory or lock of any of the names",
               thorough="histories of 4 operations; names of 1..3 bytes; names up to 65537 bytes; 300 files"),
    outside="longer histories, more names; directories named with a trailing slash or as the root", stubs=MEM_STUB)
check("C20", [
    case("memenv", "c20_handles", covers=["end", "reader of a live name", "reader of a removed file"], quick=dict(ops=4), thorough=dict(ops=5), weight=2),
    case("memenv", "c20_misc", covers=["end"]),
    case("memenv", "c20_many", covers=["end"], quick=dict(counts=11), thorough=dict(counts=15), opts=["--max-steps", "2000000000"]),
], bounds=dict(quick="15 to 300 handles (11 counts around 16, 128 and 256) of one file, closed in two orders after removing, replacing, destroying the environment or nothing; every history of 4 operations out of create, append-open, open random/sequential, remove, rename, close a handle, over 2 names, each writer appending and each reader reading after every step, then three orders of closing the handles and destroying the environment",
               thorough="histories of 5 operations"),
    outside="longer histories, more names and handles", stubs=MEM_STUB)
check("C21", [
    case("memenv_mt", "c21_pieces", name="c21_every", covers=["end"], quick=dict(a=1, b=1), thorough=dict(a=2, b=1), weight=2),
    case("memenv_mt", "c21_pieces", name="c21_strict", covers=["end"], quick=dict(a=1, b=1, strict=1), thorough=dict(a=2, b=1, strict=1), opts_quick=["--preempt", "3"], opts_thorough=["--preempt", "3"], weight=2),
    case("memenv_mt", "c21_pieces", name="c21_two", covers=["end"], quick=dict(a=2, b=2, akinds=5, bkinds=5), thorough=dict(a=2, b=2), opts_quick=["--preempt", "1"], opts_thorough=["--preempt", "2"], weight=3),
    case("memenv_mt", "c21_blocks", covers=["end"]),
    case("memenv_mt", "c21_close", covers=["end"]),
], bounds=dict(quick="two threads: every interleaving of one piece each, out of 12 (create+append+close, append-open+append+close, open+read+close, sequential open+skips+read, shared reader, remove, rename both ways, size, exists, list), starting from a file that is there, also open, or open and removed; the same with operations delayed (real-time order) and at most 3 preemptions; two pieces each out of 5 with at most 1 preemption; appends across a block boundary against skip, read, size and truncation; every interleaving of closing handles against remove and rename",
               thorough="two pieces against one, all interleavings (and 3 preemptions with real-time order); two against two with 2 preemptions"),
    outside="more threads and operations; use of the environment during its destruction (forbidden)", stubs=MEM_STUB)
FS_STUB = ["operating system: lib/models_fs.cc, an executable model of files, directories, descriptors, record locks, mappings and stdio with symbolic faults"]
check("C22", [
    case("posix_write", "c22_write", covers=["end", "closed", "error reported"], quick=dict(ops=3, sizes=5), thorough=dict(ops=4, sizes=6), weight=3),
    case("posix_write", "c22_long", covers=["end"], quick=dict(sizes=3), thorough=dict(sizes=9, faults=2, shorts=2), opts=["--max-steps", "400000000"], deep=True),
    case("posix_write", "c22_huge", covers=["end"], validate=1, mem=8000, opts=["--max-steps", "2000000000"], deep=True),
    case("posix_write", "c22_split", covers=["end"], quick=dict(), thorough=dict(interrupts=3, shorts=4)),
], bounds=dict(quick="partial writes include writes of no bytes; every history of 3 writer operations (append of 5 sizes around the 65536-byte buffer, with symbolic bytes at the buffer boundaries, flush, sync, close) after a truncating or appending open, with one failed system call at any point (symbolic errno), one EINTR and one partial write of symbolic length; destruction without close; two long appends (4096 to 5 x 65536 bytes) around a short one with one failed, one interrupted and one partial write; one append of more than 2^32 bytes",
               thorough="histories of 4 operations, 6 sizes, long appends of 9 sizes, up to 3 EINTR and 4 partial writes in one append"),
    outside="longer histories; a write system call that returns 0; use of a file after Close; several descriptors writing one file; the bytes away from the checked boundaries are concrete and position-dependent", stubs=FS_STUB)
check("C23", [
    case("posix_write", "c23_sync", covers=["end", "manifest synced", "manifest sync failed", "synced again"], quick=dict(names=9), thorough=dict(names=9, faults=2, sizes=4, rounds=3)),
    case("posix_write", "c23_long", covers=["end"], quick=dict(lens=4), thorough=dict(lens=8, faults=2), opts=["--max-steps", "200000000"]),
], bounds=dict(quick="9 names (manifest or not, in the root, in a directory, without a directory, near-miss names), data written before, every point of one failed call, repeated syncs; directories 1..4 deep of long components (paths up to 1240 bytes), absolute and relative, beside shorter ones, with long and near-miss names",
               thorough="two failed calls, more sizes, 3 rounds of append and sync"),
    outside="what the device does with an acknowledged sync; platforms with fdatasync replaced (F_FULLFSYNC)", stubs=FS_STUB)
check("C24", [
    case("posix_read", "c24_sequential", covers=["end", "read", "skip refused"], quick=dict(ops=3), thorough=dict(ops=4, interrupts=2)),
    case("posix_read", "c24_mapped", covers=["end", "bytes", "refused"], quick=dict(reads=1), thorough=dict(reads=2)),
    case("posix_read", "c24_descriptor", covers=["end", "bytes", "failed"], quick=dict(reads=1), thorough=dict(reads=2)),
    case("posix_read", "c24_reopened", covers=["end", "bytes", "failed"], quick=dict(reads=1), thorough=dict(reads=2)),
    case("posix_read", "c24_long", covers=["end"], quick=dict(sizes=4), thorough=dict(sizes=7), deep=True),
    case("posix_read", "c24_huge", covers=["end"], quick=dict(sizes=2), thorough=dict(sizes=3)),
    case("posix_read", "c24_replaced", covers=["end", "old", "new"]),
    case("posix_read", "c24_shared", covers=["end"]),
], bounds=dict(quick="files of up to 6 symbolic bytes; every history of 3 sequential operations (read of symbolic length, skip of a symbolic 64-bit count); one random read of any 64-bit offset and any 64-bit length through a mapping, a kept descriptor and a reopened name; one failed call, one EINTR; a file replaced at any point during the open; two threads reading through one reader; files of 4096 to 131072 bytes with one symbolic byte, 8 lengths at 10 offsets; files of 2^31 + 5 and 2^32 + 9 bytes, read and skipped around 2^31, the middle and the end",
               thorough="histories of 4 operations with 2 EINTR; two random reads; files of 200003, 1048583 and 2^33 + 1 bytes"),
    outside="partial results of pread in the middle of a file; a file shortened or rewritten in place after the open; readers without a kept descriptor whose name was meanwhile replaced (they read by name); the contents of long files away from the marked places", stubs=FS_STUB)
check("C25", [
    case("posix_handles", "c25_handles", covers=["end", "open failed"], quick=dict(ops=3, limits=2), thorough=dict(ops=4), weight=2),
    case("posix_handles", "c25_limits", covers=["end", "several", "open failed"], quick=dict(ops=5), thorough=dict(ops=6, faults=2)),
    case("posix_handles", "c25_threads", covers=["end"]),
    case("posix_handles", "c25_default", covers=["end"]),
], bounds=dict(quick="every history of 3 operations (open for random or sequential reading, writing or appending, read, close in any order) with descriptor and mapping limits 0 and 1 and one failed call at any point; 5 opens against symbolic limits; two threads opening and closing; the default limits from a symbolic RLIMIT_NOFILE",
               thorough="histories of 4 and 6 operations, 2 failed calls"),
    outside="failure of munmap and of close (reported nowhere by the interface); longer histories", stubs=FS_STUB)
check("C26", [
    case("posix_lock", "c26_history", covers=["end", "lock failed", "unlock failed", "refused while held", "other process refused"], quick=dict(ops=4), thorough=dict(ops=5, faults=2), weight=2),
    case("posix_lock", "c26_names", covers=["end"], quick=dict(), thorough=dict()),
    case("posix_lock", "c26_threads", name="c26_two", covers=["end"], quick=dict(arounds=2, brounds=2, other=0), thorough=dict(arounds=3, brounds=3, other=0)),
    case("posix_lock", "c26_threads", name="c26_process", covers=["end"], quick=dict(arounds=2, brounds=1), thorough=dict(arounds=3, brounds=2)),
], bounds=dict(quick="every pair of 9 names that are alike; every history of 4 operations (lock, unlock, attempts of another process, over 2 names) with one failed call at any point and symbolic errno; two threads with 2 rounds of lock and unlock each, and with another process, under every interleaving",
               thorough="histories of 5 operations with 2 failed calls; 3 rounds per thread"),
    outside="one file under two names (links, different spellings); a failed close; locks on parts of a file", stubs=FS_STUB)
check("C27", [
    case("sched", "c27_one", covers=["end"], quick=dict(n=6), thorough=dict(n=8), opts=["--spurious", "1"]),
    case("sched", "c27_one", name="c27_many", covers=["end"], quick=dict(n=14), thorough=dict(n=20), opts_quick=["--preempt", "1"], opts_thorough=["--preempt", "2"]),
    case("sched", "c27_one", name="c27_long", covers=["end"], quick=dict(n=150), thorough=dict(n=300), opts=["--preempt", "0", "--max-steps", "400000000"], deep=True),
    case("sched", "c27_two", covers=["end"], quick=dict(a=3, b=2), thorough=dict(a=3, b=3), opts=["--spurious", "1"]),
    case("sched", "c27_nested", covers=["end"], quick=dict(n=5), thorough=dict(n=6), opts=["--spurious", "1"]),
    case("sched", "c27_start", covers=["end"]),
], bounds=dict(quick="6 tasks from one thread (with and without the background thread going to sleep in between), 3+2 tasks from two threads, 5 tasks scheduled by tasks, under every interleaving with 1 spurious wake-up; 14 tasks with one preemption; 150 tasks without; two started threads",
               thorough="8, 3+3 and 6 tasks; 20 tasks with 2 preemptions, 300 without"),
    outside="more tasks and threads; failure to create a thread (the standard library terminates the process); shutdown (there is none)")
check("C28", [
    case("posix_calls", "c28_names", covers=["done", "refused", "failed", "renamed", "exists", "does not exist"], quick=dict(), thorough=dict(faults=2)),
    case("posix_calls", "c28_open", covers=["done", "refused", "failed", "created", "existed"], quick=dict(faults=1), thorough=dict(faults=3)),
    case("posix_calls", "c28_children", covers=["done", "refused", "failed"], quick=dict(), thorough=dict(faults=3)),
    case("posix_calls", "c28_lock", covers=["done", "refused", "failed", "unlock failed"], quick=dict(), thorough=dict(faults=2)),
    case("posix_calls", "c28_long", covers=["end"], quick=dict(lens=5), thorough=dict(lens=12), opts=["--max-steps", "200000000"]),
    case("posix_calls", "c28_longfail", covers=["end", "failed"], quick=dict(lens=7, depths=4), thorough=dict(lens=7, depths=4), opts=["--max-steps", "200000000"]),
    case("posix_calls", "c28_kinds", covers=["done", "failed"], quick=dict(), thorough=dict(len=3)),
], bounds=dict(quick="every operation over 9 paths (existing, missing, directories, missing parent, file as parent, empty, relative) and all pairs for rename, with each one system call failing with a symbolic errno 1..133, any file size up to 2^63-1, every set of access rights refused for the existence test, refused reading or writing for opens, arbitrary one- or two-letter names; every operation on names of 16..255 bytes in directories nested 1, 2 and 5 deep (paths up to 1260 bytes), beside a name that differs in one (symbolic) byte and one that is shorter by one; every step of every operation and of open readers, writers and locks failing, with names of 15..255 bytes in directories up to 5 deep",
               thorough="up to 3 failing calls; names of up to 3 letters; 12 lengths of long names"),
    outside="paths of more than 1260 bytes; symbolic links, permissions and mount points beyond their error numbers; failed close and closedir (reported nowhere by the interface)", stubs=FS_STUB)
check("C29", [
    case("wholefile", "c29_write", covers=["written", "synced", "removed", "not opened"], quick=dict(), thorough=dict(faults=3, len=9)),
    case("wholefile", "c29_read", covers=["read", "read failed", "open failed"], quick=dict(), thorough=dict(len=8)),
    case("wholefile", "c29_sizes", covers=["end"], quick=dict(sizes=6), thorough=dict(sizes=6)),
    case("wholefile", "c29_posix", covers=["written", "failed"], quick=dict(), thorough=dict(faults=2, interrupts=2, shorts=2)),
    case("wholefile", "c29_memory", covers=["end"], quick=dict(), thorough=dict(sizes=12)),
    case("wholefile", "c29_big", covers=["end"], quick=dict(sizes=8), thorough=dict(sizes=10), opts=["--max-steps", "2000000000"]),
], bounds=dict(quick="8 lengths from 40 kB to 5 MB, read whole, in pieces of at most 5000 bytes, and written to and read from the in-memory environment; over a model environment: data of up to 3 symbolic bytes, up to 2 failures at any step with any kind and message, and a failing removal; reading up to 4 symbolic bytes in every fragmentation, from scratch or foreign memory, with a failure at any read; 6 lengths around multiples of the 8192-byte buffer with 2 odd fragments; over the real POSIX environment with one failed call, one EINTR, one partial write; over the in-memory environment at 9 sizes up to 16384",
               thorough="8 symbolic bytes, 3 failures; 2 failed calls"),
    outside="longer files with every fragmentation; environments that leave the result object undefined on failure", stubs=FS_STUB)
check("C30", [
    case("wrapper", "c30_wrapper", covers=["end"]),
    case("wrapper", "c30_wrapper", name="c30_long", covers=["end"], quick=dict(lengths=5, messages=2), thorough=dict(lengths=5, messages=3)),
    case("wrapper", "c30_memory", covers=["end"], quick=dict(lengths=2)),
    case("wrapper", "c30_unsupported", covers=["end"]),
], bounds=dict(quick="every operation, arguments of 0, 2 and 17 symbolic bytes, of 300 and 4100 bytes (the first 17 and the last symbolic), messages of 5000 bytes, lists of 302 entries, every status kind with symbolic message, null and non-null objects, any 64-bit value, wrapper around environment and around wrapper",
               thorough="the same"),
    outside="longer strings; exceptions", stubs=MEM_STUB)
check("C31", [
    case("logger", "c31_lengths", covers=["end", "has newline", "newline added"], quick=dict(ids=4, around=12, more=8), thorough=dict(ids=4, around=200, more=8), weight=2),
    case("logger", "c31_lengths", name="c31_every", covers=["end", "has newline", "newline added"], quick=dict(ids=1, every=360), thorough=dict(ids=2, every=4200), weight=2),
    case("logger", "c31_header", covers=["end"], quick=dict(), thorough=dict(joint=1), weight=2),
    case("logger", "c31_arguments", covers=["end"]),
    case("logger", "c31_faults", covers=["end", "lost", "torn"], quick=dict(records=4, faults=2), thorough=dict(records=4, faults=2, interrupts=2, shorts=2)),
    case("logger", "c31_threads", covers=["end"], quick=dict(), thorough=dict(a=2, b=2)),
    case("logger", "c31_append", covers=["end", "two", "newline added"]),
    case("logger", "c31_null", covers=["end"]),
], bounds=dict(quick="message lengths 0,1,2,100,900,2000,4070,5000 and all within 12 of the 512-byte buffer limit for 4 thread-id lengths, with symbolic bytes at the ends and the boundary; every 64-bit thread id with one time, all times with four-digit years with a short and a long thread id; %s %c %d %llx arguments in messages of 8 lengths; 4 records with 2 failed writes, one EINTR, one partial write; two threads through one logger, all interleavings",
               thorough="all lengths within 200 of the limit; every thread id with all times; more faults; two records per thread"),
    outside="formats that the C library rejects; messages near 2^31 bytes; years beyond 9999; records torn by the system itself after a failed partial write; other format directives", stubs=FS_STUB)
check("C32", [
    case("clock", "c32_now", covers=["end"]),
    case("clock", "c32_sleep", covers=["slept", "nothing to sleep"], quick=dict(), thorough=dict(interrupts=3)),
    case("clock", "c32_directory", covers=["configured", "default"], quick=dict(), thorough=dict(len=5)),
    case("clock", "c32_longdir", covers=["end"], quick=dict(lens=5), thorough=dict(lens=13)),
    case("clock", "c32_default", covers=["end"]),
    case("clock", "c32_exit", covers=["end"]),
], bounds=dict(quick="every time whose microseconds fit 64 bits, every 32-bit sleep time with up to 2 interruptions leaving any remainder, every 31-bit user id, TEST_TMPDIR unset, empty, of 1..3 arbitrary bytes, existing, missing, below a missing directory, of 14, 15, 99, 255, 1100 bytes with one arbitrary byte; one failed mkdir; two threads asking for the default environment first; files, locks, directory and tasks used after the exit handlers have run",
               thorough="3 interruptions; 5 bytes; 13 lengths up to 1100"),
    outside="clock errors; user ids of 2^31 and more (shown as negative numbers)", stubs=FS_STUB)
check("C33", [
    case("sync", "c33_mutex", covers=["end"], quick=dict(rounds=3), thorough=dict(rounds=5)),
    case("sync", "c33_mutex", name="c33_three", covers=["end"], quick=dict(threads=3, rounds=2), thorough=dict(threads=3, rounds=3)),
    case("sync", "c33_wait", covers=["end"], opts=["--spurious", "1"], quick=dict(waiters=2), thorough=dict(waiters=3)),
    case("sync", "c33_wait", name="c33_one", covers=["end"], opts=["--spurious", "2"], quick=dict(waiters=1), thorough=dict(waiters=1)),
    case("sync", "c33_handover", covers=["end"], opts=["--spurious", "1"], quick=dict(rounds=2), thorough=dict(rounds=4)),
    case("sync", "c33_absent", covers=["end"]),
], bounds=dict(quick="2 threads with 3 critical sections each, 3 threads with 2; 2 waiters and a broadcast, 1 waiter and a signal, from inside and outside the mutex; 2 hand-overs in both directions; spurious wake-ups",
               thorough="5 sections, 3 waiters, 4 hand-overs"),
    outside="more threads; the correctness of std::mutex and std::condition_variable themselves, which are modelled")
check("C34", [
    case("tool", "c34_tool", covers=["usage", "dump"], quick=dict(), thorough=dict(args=6, len=12)),
], bounds=dict(quick="0..3 arguments, command of 0..5 or 8 arbitrary bytes, or 12 of them followed by up to 288 more", thorough="0..5 arguments, command of 0..12 bytes or longer ones"),
    outside="longer commands")
check("C35", [
    case("posix_handles", "c35_inherit", covers=["end", "sequential", "manifest synced", "locked", "logged", "kept open"], quick=dict(ops=2), thorough=dict(ops=3, interrupts=1), weight=2),
], bounds=dict(quick="every history of 2 operations out of 12 kinds (open for random or sequential reading, read, write, append and sync with and without manifest, lock, log, list, whole-file helpers, the calls on names), limits 0 and 1, one failed call at any point", thorough="histories of 3 operations, one interruption"),
    outside="descriptors the process itself opens; programs started without execution of a new image (fork alone); systems without O_CLOEXEC", stubs=FS_STUB)
check("C36", [
    case("testutil", "c36_strings", covers=["string", "key"], quick=dict(lens=8), thorough=dict(lens=10)),
    case("testutil", "c36_variety", covers=["end"], opts=["--max-steps", "400000000"]),
    case("testutil", "c36_compressible", covers=["end"], quick=dict(lens=10), thorough=dict(lens=11)),
    case("testutil", "c36_errors", covers=["error", "no error"], quick=dict(ops=4), thorough=dict(ops=6)),
], bounds=dict(quick="every sequence of numbers from the generator; random strings and keys of 0..3, 15..17 and 100 characters, compressible strings of 0..5, 8, 10, 17, 100 characters for 6 fractions; 4000 characters from 3 states (variety, concrete); every history of 4 openings of 2 files and switches",
               thorough="strings and keys up to 1030 characters, compressible strings up to 1000; histories of 6"),
    outside="other fractions (floating point is concrete); negative lengths; the matchers and macros (the test framework is replaced by a stub of its headers)",
    stubs=["Random::Next: any number in its range, the same for equal states (C09 decides the real one)", "gtest/gmock headers: only what the declarations need"])
