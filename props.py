"""What each check builds and explores."""
CACHE = ["util/cache.cc", "util/hash.cc", "util/status.cc"]
ARENA = ["util/arena.cc"]
POSIX = ["util/env_posix.cc", "util/env.cc", "util/status.cc"]
PROPS = {
    "C01": dict(harness=["c01.cc"], only=CACHE, level="model_checking", space="All histories of insert/lookup/release/erase/prune to a depth over keys with equal 32-bit hashes, equal buckets, prefixes, embedded zeros; growth runs; keys to 70000 bytes and to 65536 bytes apart from a prefix; tens of thousands of live entries with colliding buckets, every one looked up after each growth; histories to 4 (5) with charges beyond a partition's room, against the LRU model. All histories over the empty key and one of a zero byte with charges of zero.",
                assumptions=[]),
    "C02": dict(harness=["c02.cc"], only=CACHE, level="model_checking", space="All histories to a depth, with handles held across every other operation; up to 140000 handles on one entry; thousands of held and released entries at once."),
    "C03": dict(harness=["c03.cc"], only=CACHE, level="model_checking", space="All histories to a depth against an exact per-partition LRU model; capacities and charges at every rounding and overflow edge; insertions that must evict anything from one to hundreds of entries; prunes and one large insert that must empty a partition of 999 to 70000, with or without some in use."),
    "C04": dict(harness=["c04.cc"], only=CACHE, level="model_checking", space="All interleavings (unbounded preemption, or bounded where stated) of all small 2- and 3-thread programs over the cache operations, on colliding keys and several capacities; results compared with every sequential order of an exact LRU model; data races, deadlocks and invalid accesses detected on each; 2 million (32 million) ids of one cache compared."),
    "C05": dict(harness=["c05.cc", "c05_real.cc"], shadow=["c05.cc"], only=ARENA, level="model_checking", space="All insertion orders of up to 6 (thorough 7) keys with all node heights up to 3, of 3 keys with all heights to 8 (12), under four comparators; after every insert all observations are compared with a sorted set. Heights are enumerated through a stand-in for the random draws; long runs with the real generator; towers of the greatest height in every order."),
    "C06": dict(harness=["c06.cc"], shadow=["c06.cc"], only=ARENA, level="model_checking", space="All insertion orders and heights of 2-4 keys against all reads, with every load allowed to return any store the C++11 release/acquire model permits; plus real interleavings to a preemption bound; happens-before race detection on every node access; towers of the greatest height read while inserted."),
    "C07": dict(harness=["c07.cc"], only=ARENA, level="model_checking", space="All histories of 3 (4) requests from 17 sizes x 2 forms; all 4097 fill levels of a block x sizes around every boundary (thorough: all sizes to 1100) x both forms; sizes over 2^31 and 2^32; every block's exact bounds, overlap, contents, alignment and the accounting checked after each request. Arenas of 20000 (200000) blocks."),
    "C22": dict(harness=["c22.cc"], only=["util/coding.cc"], variants=["instr", "plain"], level="model_checking", technique="exhaustive enumeration of inputs on the compiled code, with exact memory bounds", space="All 2^32 32-bit values; 64-bit values around every power of two, over every pattern of 7-bit groups and bytes from a small alphabet, and with up to 3 bit runs; all byte strings over an 8-byte alphabet to length 6 (7); every truncation; every access checked against the exact input range."),
    "C23": dict(harness=["c23.cc"], only=["util/hash.cc"], variants=["instr", "plain"], level="model_checking", technique="exhaustive enumeration of inputs on the compiled code, with exact memory bounds", space="All inputs of up to 4 bytes, all lengths to 70 (300) x 8 alignments x 6 seeds, each byte position x all 256 values, lengths beyond 2^32; compared with an independent reference."),
    "C24": dict(harness=["c24.cc"], only=["util/logging.cc"], variants=["instr", "plain"], level="model_checking", technique="exhaustive enumeration of inputs on the compiled code, with exact memory bounds", space="All texts over 13 characters to length 5 (6); all digit changes around the 64-bit limit with leading zeros and suffixes; numbers around all powers of 2 and 10 and 50 million others; all byte pairs and all lengths for escaping; leading zeros to 2000 digits; two threads formatting at once."),
    "C25": dict(harness=["c25.cc"], only=["util/status.cc"], level="model_checking", technique="exhaustive enumeration of operation histories on the compiled code", space="All histories of 4 (5) constructions, copies, moves, self-assignments and destructions over three statuses; all kinds x messages x lengths to 600 (3000) and to 16 MB; heap bounds, leaks and double frees checked; assignments over statuses of equal length, prefix or kind. Messages of 2^31+2 (2^32-20) bytes."),
    "C26": dict(harness=["c26.cc"], only=["util/status.cc"], level="model_checking", technique="exhaustive enumeration of inputs on the compiled code, with exact memory bounds", space="All pairs of strings to length 3 (4) over 5 byte values, all byte pairs, long common prefixes, sizes beyond 2^32; all narrowings; slices to 8 GB that differ in one byte."),
    "C27": dict(harness=["c27.cc"], only=["util/status.cc"], variants=["plain"], level="model_checking", technique="exhaustive exploration of the generator's state space", space="The transition function on all 2^31-2 states, one whole period on one object, all 2^32 seeds; bounded, one-in-n and skewed draws for 64 bounds x 200000 states."),
    "C19": dict(harness=["c19.cc"], only=["helpers/memenv/memenv.cc", "util/env.cc", "util/status.cc"], level="model_checking", space="All histories over 1-3 names of create, append-open, append, close, rename (every pair, a name onto itself included) and remove, with up to two writers left open, to depth 4-6 (5-8); all triples (quadruples) of append sizes around block boundaries with reads at every boundary x 8 lengths; all read/skip/append patterns of 4 (5) steps; files of 20 (200) MB, some 2500 (25000) blocks; one file of 4 GB read around 2^31 and 2^32. Listings of 30 name shapes around the directory in all triples, and all names but two."),
    "C20": dict(harness=["c20.cc"], only=["helpers/memenv/memenv.cc", "util/env.cc", "util/status.cc"], level="model_checking", space="All programs of 2 threads x 2-3 and 3 threads x 1-2 calls out of 15, on files of 2 and 8190 bytes (appends cross a block), all their interleavings to a preemption bound; each result set and the final contents compared with every sequential order of a file model; data races, deadlocks and invalid accesses detected on each; two and three threads on open handles of one file, and on two environments."),
    "C21": dict(harness=["c21.cc"], only=["helpers/memenv/memenv.cc", "util/env.cc", "util/status.cc"], level="model_checking", space="All histories over one and two names of creating, append-opening, opening readers, using and deleting up to three open objects, removing and renaming, to depth 4-6 (5-7), with every order of destroying the environment and the objects; exact heap accounting; renames between all pairs of 9 names that begin or end alike; all interleavings of the last references going away in three threads. All sequences of 4 (5) of 13 other operations (locks, loggers, missing names, listings) against the heap."),
    "C08": dict(harness=["c08.cc"], only=POSIX, level="model_checking", space="All histories of 3-5 (4-6) appends of sizes at every edge of the 64 KB buffer, flushes and syncs, on new and existing, writable and appendable files, with up to 2-3 writes interrupted or cut short at any call; all fill levels around the edge x sizes; two files in two threads, all interleavings to a preemption bound; several objects used in turn by one thread, on different files and (appending) on one file, with closes and reopenings; the histories of 2-3 calls and the fills also on the kernel itself; appends of 2^31-1 to 2^33 bytes after and before small ones. Part of it again with the standard descriptors closed, so that 0 to 2 are given out."),
    "C09": dict(harness=["c09.cc"], only=POSIX, level="model_checking", space="All histories to depth 3-5 of open, append, flush, sync, close and destroy, with up to 2 (3) failed, short or interrupted system calls at any point and every error number that matters, in all open modes, for plain and MANIFEST names in sub-, relative and root directories; one failure with every error number the calls can report. Part of it again with the standard descriptors closed, so that 0 to 2 are given out."),
    "C10": dict(harness=["c10.cc"], only=POSIX, level="model_checking", space="All histories to depth 3-4 (4-5) of manifest appends, flushes and syncs mixed with creating, writing, syncing and renaming a data file, removing files, making directories and writing whole files synced, for new, replaced and appended manifests in sub-, relative, root and current directories; a crash before every system call and after the last, alone or with one failed, short or interrupted call; after it every subset of unsynced directory updates and data writes lost or torn; two threads each with a manifest; six forms of directory x six manifest names; every error number a sync's calls can report; after a failed call what a later sync of the same file covers. All histories of two objects on one file, synced through either or a third. Part of it again with the standard descriptors closed, so that 0 to 2 are given out.", assumptions=["A failed system call leaves unsynced data where it was; each directory update is atomic and survives independently of the others."]),
    "C11": dict(harness=["c11.cc"], only=POSIX, level="model_checking", space="Mapping, kept descriptor and reopening: all sizes, offsets and lengths below 14 (26), and every combination of offsets and lengths around 0, the middle, the end, page boundaries, 2^31, 2^32, 2^62, 2^63, 2^64 for 9 (10) file sizes; all sequential histories of 5-6 (6-7) reads, skips (to 2^64-1) and growths; up to 2-3 failed, short or interrupted system calls at any point, and one with every error number; all interleavings of two (three) threads reading one file or opening and reading one name, and of a rename replacing the file; counts of 2^31 to 2^33+1 on small files and mapped ones of 5 GB; sparse files of 5 GB read at random and sequentially around 2^31 and 2^32; the same offsets, lengths, histories and names run on the kernel itself. Part of it again with the standard descriptors closed, so that 0 to 2 are given out."),
    "C12": dict(harness=["c12.cc"], only=POSIX, level="model_checking", space="All histories of 6 (7) opens, closes and reads on up to four random-access files (empty, missing and directory names included) for every limit pair in 0-2, and of 4 (5) with up to 2 failing calls; default limits for 7 resource limits with up to 1300-1600 files; two and three threads opening, reading, closing, all interleavings to a preemption bound; all sequences of 3 (4) out of 17 kinds of operation with up to 2 (3) failing calls, or one with every error number. Mappings and descriptors counted after every step, heap memory at the end, capacity compared before and after. All sequences of 4 (5) of 9 operations with the standard descriptors closed, so that 0 to 2 are given out."),
    "C13": dict(harness=["c13.cc"], only=POSIX, level="model_checking", space="Two processes (two instances of the library) with record locks modelled per process: all histories of 5 (6) lock and unlock calls by either process on three names and exits, with up to 2 failing calls to 6 (7), and to 4 (5) with every error number; 2-4 threads in one or two processes locking, holding and releasing in rounds, all interleavings to a preemption bound (two threads: all), with failing calls, and with a process exiting at any moment; every held lock is checked to be in force at every step; 2 to 250 locks held at once, released in three orders; all pairs of 13 names that look alike (same base name, a prefix, with and without directories, long); all histories of 4 (5) calls and the pairs of names also on the kernel itself, with one real process for each. Contents of missing, empty and filled lock files after every call of a history. Part of it again with the standard descriptors closed, so that 0 to 2 are given out.", assumptions=["Lock files are named by one spelling and are not removed, or opened by other means, while locked."]),
    "C14": dict(harness=["c14.cc"], only=POSIX, level="model_checking", space="All programs of 1-3 threads that schedule or start up to 3 (4) functions, which may schedule or start more; chains of functions scheduling each other beside another caller; work given while the background thread sleeps or is held up by a function waiting for its caller; all interleavings to a preemption bound of 3-5 (3-unbounded), with up to 2 spurious wakeups; races between caller and function detected; 2000 (20000) items in a row; argument values and pointers of every kind, null included. Up to 9 started functions that each wait for the next.", assumptions=["Creating a thread does not fail."]),
    "C15": dict(harness=["c15.cc"], only=POSIX, level="model_checking", space="All message lengths to 1400 (9000) and around stdio and page sizes to 3 MB, of letters or arbitrary bytes, with and without newline; all histories of 4 (5) messages of lengths at the buffer edges, two loggers on one file opened and closed in any order, no logger, passing time; the memory used by repeating 1-3 messages; 33 dates and 9 fractions of a second, from 1900 to 9999, in a time zone of no whole hours with summer time; two threads with two messages and three with one, of all length and newline combinations, all interleavings to a preemption bound; the file parsed against the exact expected records after every call. The same message repeated through two loggers, in every order; every error at every write of up to four messages. Part of it again with the standard descriptors closed, so that 0 to 2 are given out."),
    "C16": dict(harness=["c16.cc"], only=POSIX, level="model_checking", space="All sequences of 2 (3) operations (create, append, mkdir, rmdir, remove, rename of any two) over nine names (nested, below a file, trailing slash, relative, empty, below nothing) and of 4 (5) over small sets, every name observed and every directory listed after each step; every system call failing with every error number it can report within two faults; names starting with odd characters; directories of 0 to 40 (100) entries, names of 254 to 5000 bytes, all size pairs around the buffer edge; the same sequences run on the kernel itself, so that model and model system are bound to it; sizes to 2^40, files without permissions under another user, symbolic links to files, directories, nothing and each other, file systems that do not type their entries. Part of it again with the standard descriptors closed, so that 0 to 2 are given out."),
    "C17": dict(harness=["c17.cc"], only=POSIX + ["helpers/memenv/memenv.cc"], level="model_checking", space="Every length 0-2500 (9000) and three around each of eleven buffer-size multiples to 1 MB, with and without sync, over no file, shorter and longer files, on the POSIX, in-memory and real-kernel environments; all 256 bytes and all strings to 4 (5) of awkward ones; every system call of a write or read failing or cut short in every way within 3 (4) faults, and with every error number; a fake environment in which every step may fail with every status, files may appear late, and reads may be cut short in every pattern of 5 (7) cuts; failing closes. Part of it again with the standard descriptors closed, so that 0 to 2 are given out."),
    "C18": dict(harness=["c18.cc"], only=["util/env.cc", "util/status.cc"], level="model_checking", space="All 19 operations and all ordered pairs of them, on the wrapper, a subclass, a wrapper around a wrapper and a subclass overriding one operation, with every combination of five names, six statuses, extreme numbers, results and callables; the recording target is compared call by call. The default appending of an environment, direct and wrapped; out-parameters must reach the target as the caller left them."),
    "C28": dict(harness=["c28.cc"], only=["util/status.cc"], level="model_checking", space="All 1-thread programs of 3 (4), 2-thread of 2 and 3- and 4-thread of 1 critical sections of eight kinds (plain, scoped, early return, exception, loop, nested, heap), and all 2- and 3-thread programs of 1 and 2 monitor operations (wait on either of two condition variables, signal, signal all, with or without the mutex), all interleavings, unbounded or to a preemption bound, with spurious wakeups as deviations; judged at quiescence against the obligations each signal created; flags, bounded queues, turns; every plain access race-checked by happens-before."),
    "C29": dict(harness=["c29.cc"], only=POSIX, level="model_checking", space="All interleavings (to a bound) of two and three threads making the first calls and using the result in six ways, calls from scheduled work and started threads, before, during and after the destruction of statics at exit; 14 x 7 clock values; 15 sleep lengths with up to 4 (8) interruptions and with the system time set meanwhile; nine settings of the configured directory x seven users x existing or not, all pairs of ten users, two threads, every system call failing; user ids to 2^32-1. The clock set forward and back by 14 steps, 3 (5) times."),
    "C30": dict(harness=["c30.cc"], only=POSIX, level="model_checking", space="All programs of 2 threads x 1-2 (2-3 over smaller menus) and 3 threads x 1-2 calls out of 23: naming operations, opening in every way, appending, syncing, reading, locking, logging, giving away work; all their interleavings, unbounded or to a preemption bound; each result set and the final files compared with every sequential order of a file-system model; data races, deadlocks, leaks and invalid accesses detected on each.", assumptions=["Files do not shrink under an open random-access file."]),
    "C31": dict(harness=["c31.cc"], level="model_checking", space="All pairs (with all interleavings to a preemption bound), all triples and pairs of pairs out of 22 activities on objects of the thread's own or on shared constant values: encoding, decoding, hashing, printing, parsing, escaping, drawing, statuses, slices, arenas, lists, caches, POSIX and in-memory files, whole files, failing calls, locks, logs, wrappers, the clock; every result compared with the one obtained alone; data races, leaks and invalid accesses detected on each."),
    "C32": dict(harness=["c32.cc"], only=POSIX, level="model_checking", space="All sequences of 2 (3) calls out of 23 (opening in every way, reading, appending, syncing, manifests, locking, logging, listing, whole files, naming, scheduled work, closing) with the program started at any moment of any call, all sequences of 3 (4) with one after each call, the same with one (two) failing system calls, two threads of 1 (2) calls each with the program started at any moment; crowds of objects beyond the limits, large contents; the kernel's own flags for all sequences of 2 (3)."),
}
