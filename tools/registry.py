"""What each property's check runs, and what the evidence says about it."""
SIM_STUB = ["kernel thread scheduler, mutexes, condition variables, futexes, clocks and sleeps (simulated)",
            "heap (real allocator behind a seam with quarantine, poisoning and failing allocations)"]
FS_STUB = ["file system below /simfs (in memory, with faults)"]
BASE = ["executions are sequentially consistent interleavings at synchronisation, I/O, digest and sampled plain memory accesses; weak-memory reorderings are covered only through happens-before race detection",
        "gsl-lite, expected-lite (and bencode for metafiles) are stand-ins with the documented behaviour, because the libraries are not installed here"]

BINARIES = {
    "h_prim": {
        "harness": ["h_prim.cpp", "queue.cpp", "pool.cpp", "processor.cpp", "digest.cpp", "merkle.cpp"],
        "repo": ["src/file_entry.cpp", "src/hasher/backends/openssl.cpp"],
        "flags": ["-DDOTTORRENT_USE_OPENSSL"],
    },
    "h_pipe": {
        "harness": ["h_pipe.cpp", "pipe.cpp", "queue.cpp", "pool.cpp", "processor.cpp", "merkle.cpp", "addfile.cpp"],
        "repo": ["src/**/*.cpp"],
        "exclude": [r"/metafile", r"/magnet_uri", r"isal", r"wolfssl", r"gcrypt", r"wincng", r"_mb\.cpp", r"multi_buffer", r"/info_hash", r"announce"],
        "flags": ["-DDOTTORRENT_USE_OPENSSL"],
    },
}

BINARIES["h_isal"] = {
    "harness": ["h_isal.cpp", "pipe.cpp", "mbdigest.cpp", "isal_standin.cpp"],
    "repo": ["src/**/*.cpp"],
    "exclude": [r"/metafile", r"/magnet_uri", r"wolfssl", r"gcrypt", r"wincng", r"/info_hash", r"announce"],
    "flags": ["-DDOTTORRENT_USE_OPENSSL", "-DDOTTORRENT_USE_ISAL"],
}

BINARIES["h_meta"] = {
    "harness": ["h_meta.cpp", "meta.cpp"],
    "repo": ["src/**/*.cpp"],
    "exclude": [r"/magnet_uri", r"isal", r"wolfssl", r"gcrypt", r"wincng", r"_mb\.cpp", r"multi_buffer"],
    "flags": ["-DDOTTORRENT_USE_OPENSSL"],
    "shims_first": ["shims2"],
}

PROBES = {
    "queue": {1: "an operation failed midway (element copy/move or allocation threw)", 2: "a push was blocked at quiescence",
              3: "a pop was blocked at quiescence", 4: "all threads finished and the queue was drained", 60: "history too long for the checker", 61: "linearizability search gave up"},
    "pool": {1: "a get failed with bad_alloc and was retried", 2: "pool destroyed while objects were out", 3: "whole capacity taken at the end", 4: "pool destroyed before its objects", 6: "object shared by several holders"},
    "digest": {1: "creating a hasher failed", 2: "finalising failed", 3: "updating failed", 4: "one-shot digest failed", 5: "unavailable algorithm refused", 6: "digests compared with the reference"},
    "meta": {52: "a save reported success", 53: "a save reported failure", 54: "a metafile was loaded", 55: "loading reported failure", 56: "files verified against a loaded metafile", 57: "a damaged metafile was loaded", 58: "a damaged metafile was refused"},
    "merkle": {1: "update failed and was retried", 2: "tree compared with the reference", 3: "reader found a checksum while writers were running"},
    "addfile": {1: "a file was added", 2: "adding was refused", 3: "a symbolic link was added as a link", 4: "the disk changed while a file was being added", 5: "the disk changed"},
    "edits": {60: "a run completed", 61: "a run was cancelled", 62: "a file was added", 63: "a file was removed", 64: "the piece size was set", 65: "the storage was copied", 67: "a verification within the history"},
    "processor": {1: "items discarded by a cancellation"},
    "pipe": {1: "hashes compared with the reference", 2: "two or more file-data buffers alive at once", 3: "as many file-data buffers alive as allowed",
             4: "second run compared", 10: "verdicts compared with the reference", 11: "a damaged piece was present", 20: "hashing cancelled", 21: "fresh run after a cancelled one",
             22: "cancelled before all pieces were hashed", 23: "verification cancelled", 30: "failure reported by an exception", 32: "fresh run after a reported failure", 33: "start repeated after it failed", 31: "completed normally",
             50: "a round of multi-buffer jobs compared", 40: "hashing completed", 41: "verification completed", 42: "later run on the same storage", 43: "cancelled", 44: "never started"},
}

PRIMS = ["include/dottorrent/concurrent_queue.hpp", "include/dottorrent/object_pool.hpp", "include/dottorrent/concurrent_queue_processor.hpp", "include/dottorrent/merkle_tree.hpp"]
HASHER = ["src/storage_hasher.cpp", "src/*chunk_reader.cpp", "src/chunk_hasher_single_buffer.cpp", "src/v*_chunk_hasher_sb.cpp", "src/v*_piece_writer.cpp", "src/v*_checksum_hasher.cpp", "src/file_storage.cpp", "src/file_entry.cpp", "src/hasher/backends/openssl.cpp", "libcrypto", "libstdc++ (threads, streams, filesystem)"]
VERIFIER = ["src/storage_verifier.cpp", "src/v*_piece_verifier.cpp"]

PROPS = {
    "C10": dict(binary="h_prim", probes="queue", quick_secs=25, thorough_secs=600,
                workload="2-5 (thorough 6) threads with up to 18 (24) random push/try_push/pop/try_pop/size/set_capacity operations on a queue of capacity 0..8 or unbounded, element copies/moves and allocations that throw",
                oracle="Wing-Gong linearizability search of the recorded history against a bounded FIFO",
                real=["include/dottorrent/concurrent_queue.hpp", "libstdc++"], stub=SIM_STUB, assumptions=BASE),
    "C11": dict(binary="h_prim", probes="queue", quick_secs=25, thorough_secs=600,
                workload="as C10 without throwing elements; a controller thread waits for quiescence, then unblocks one caller at a time by taking, adding or raising the capacity",
                oracle="at every quiescent point no push waits while size < capacity and no pop waits while size > 0; every thread finishes within 400 controller rounds; deadlock and livelock detection by the scheduler",
                real=["include/dottorrent/concurrent_queue.hpp", "libstdc++"], stub=SIM_STUB, assumptions=BASE),
    "C12": dict(binary="h_prim", probes="pool", quick_secs=25, thorough_secs=600,
                workload="1-3 getters (one inside get at a time), 0-4 holder threads, capacity 1-5, prefilled or not, objects kept, passed on, shared by several holders or released at once; pool moved, destroyed early or before its objects; allocations inside get fail",
                oracle="ownership tokens carried in the objects, counts of objects held and alive, final drain of the whole capacity, exactly-once destruction, deadlock detection",
                real=["include/dottorrent/object_pool.hpp", "include/dottorrent/concurrent_queue.hpp", "libstdc++"], stub=SIM_STUB, assumptions=BASE),
    "C13": dict(binary="h_prim", probes="processor", quick_secs=25, thorough_secs=600,
                workload="0-4 workers (0 = hardware concurrency), 1-3 producers, up to 14 (24) items, bounded and unbounded queues, items queued before or after start; stop, cancel at a random step, destruction without wait",
                oracle="history of queued/invoked/finished items: exactly once (stop, destroy), at most once (cancel), none after wait; no thread left; deadlock and livelock detection",
                real=["include/dottorrent/concurrent_queue_processor.hpp", "include/dottorrent/concurrent_queue.hpp", "libstdc++ jthread"], stub=SIM_STUB, assumptions=BASE),
    "C16": dict(binary="h_prim", probes="digest", quick_secs=25, thorough_secs=600,
                workload="1-4 threads with 3 hashers each over 15 algorithms, random updates (sizes around block boundaries, span and string overloads) and finalisations, one-shot digests; every libcrypto digest call can fail",
                oracle="libcrypto one-shot reference digest over the bytes fed, guard bytes behind the exactly sized output buffer, count of live digest contexts",
                real=["src/hasher/backends/openssl.cpp", "include/dottorrent/hasher/*", "include/dottorrent/hash.hpp", "include/dottorrent/checksum.hpp", "libcrypto"], stub=SIM_STUB + ["result of a failing libcrypto call (injected)"], assumptions=BASE),
    "C01": dict(binary="h_pipe", probes="pipe", quick_secs=25, thorough_secs=900,
                workload="1-6 (thorough 9) files with sizes on and around block, piece and I/O block boundaries or empty, piece size 16-64 KiB, I/O block 1-4 pieces, 1-4 hasher threads, default or explicit memory limit, v1, explicit padding entries; short reads, EINTR, slow reads",
                oracle="reference v1 piece hashes computed from the in-memory contents with one-shot SHA-1",
                real=HASHER, stub=SIM_STUB + FS_STUB, assumptions=BASE),
    "C02": dict(binary="h_pipe", probes="pipe", quick_secs=25, thorough_secs=900,
                workload="1-6 (thorough 9) files with sizes on and around block, piece and I/O block boundaries or empty, piece size 16-64 KiB, I/O block 1-4 pieces, 1-4 hasher threads, default or explicit memory limit, v2; short reads, EINTR, slow reads",
                oracle="reference merkle roots and piece layers computed from the in-memory contents",
                real=HASHER, stub=SIM_STUB + FS_STUB, assumptions=BASE),
    "C03": dict(binary="h_pipe", probes="pipe", quick_secs=25, thorough_secs=900,
                workload="1-6 (thorough 9) files with sizes on and around block, piece and I/O block boundaries or empty, piece size 16-64 KiB, I/O block 1-4 pieces, 1-4 hasher threads, default or explicit memory limit, hybrid; short reads, EINTR, slow reads",
                oracle="reference padded layout, v1 pieces over it, v2 roots and layers",
                real=HASHER, stub=SIM_STUB + FS_STUB, assumptions=BASE),
    "C04": dict(binary="h_pipe", probes="pipe", quick_secs=25, thorough_secs=900,
                workload="1-6 (thorough 9) files with sizes on and around block, piece and I/O block boundaries or empty, piece size 16-64 KiB, I/O block 1-4 pieces, 1-4 hasher threads, default or explicit memory limit, all protocols with 1-3 of 7 checksum algorithms; short reads, EINTR, slow reads",
                oracle="one-shot reference digest of every regular file",
                real=HASHER, stub=SIM_STUB + FS_STUB, assumptions=BASE),
    "C05": dict(binary="h_pipe", probes="pipe", quick_secs=25, thorough_secs=900,
                workload="1-6 (thorough 9) files with sizes on and around block, piece and I/O block boundaries or empty, piece size 16-64 KiB, I/O block 1-4 pieces, 1-4 hasher threads, default or explicit memory limit, v1; up to 3 damages: bit flips, missing, truncated, extended files; short reads, EINTR, slow reads",
                oracle="reference verdict per piece and percentage per file from original and on-disk contents",
                real=HASHER + VERIFIER, stub=SIM_STUB + FS_STUB, assumptions=BASE),
    "C06": dict(binary="h_pipe", probes="pipe", quick_secs=25, thorough_secs=900,
                workload="1-6 (thorough 9) files with sizes on and around block, piece and I/O block boundaries or empty, piece size 16-64 KiB, I/O block 1-4 pieces, 1-4 hasher threads, default or explicit memory limit, v2 and hybrid; up to 3 damages: bit flips, missing, truncated, extended files; short reads, EINTR, slow reads",
                oracle="reference verdict per piece and percentage per file from original and on-disk contents",
                real=HASHER + VERIFIER, stub=SIM_STUB + FS_STUB, assumptions=BASE),
    "C07": dict(binary="h_pipe", probes="pipe", quick_secs=25, thorough_secs=900,
                workload="1-6 (thorough 9) files with sizes on and around block, piece and I/O block boundaries or empty, piece size 16-64 KiB, I/O block 1-4 pieces, 1-4 hasher threads, default or explicit memory limit, all protocols, hashing and verification, up to 3 runs at once, smallest queues, spurious wake-ups; short reads, EINTR, slow reads",
                oracle="deadlock and livelock detection by the scheduler (fair scheduling after the step budget), crash detection, state after wait",
                real=HASHER + VERIFIER, stub=SIM_STUB + FS_STUB, assumptions=BASE),
    "C08": dict(binary="h_pipe", probes="pipe", quick_secs=25, thorough_secs=900,
                workload="1-6 (thorough 9) files with sizes on and around block, piece and I/O block boundaries or empty, piece size 16-64 KiB, I/O block 1-4 pieces, 1-4 hasher threads, default or explicit memory limit, all protocols, hashing and verification; cancel after a random number of scheduling steps or before start, fresh run afterwards",
                oracle="deadlock, livelock and crash detection; object state; threads and files left; every visible hash, root, checksum and verdict against the reference",
                real=HASHER + VERIFIER, stub=SIM_STUB + FS_STUB, assumptions=BASE),
    "C09": dict(binary="h_pipe", probes="pipe", quick_secs=25, thorough_secs=900,
                workload="1-6 (thorough 9) files with sizes on and around block, piece and I/O block boundaries or empty, piece size 16-64 KiB, I/O block 1-4 pieces, 1-4 hasher threads, default or explicit memory limit, all protocols; open, read, stat and close failures at random calls, files removed, made unreadable, shortened or grown before or during the run",
                oracle="exception or termination, or the result equals the reference over the promised contents",
                real=HASHER, stub=SIM_STUB + FS_STUB, assumptions=BASE),
    "C14": dict(binary="h_pipe", probes="pipe", quick_secs=25, thorough_secs=900,
                workload="1-6 (thorough 9) files with sizes on and around block, piece and I/O block boundaries or empty, piece size 16-64 KiB, I/O block 1-4 pieces, 1-4 hasher threads, default or explicit memory limit, all protocols, hashing and verification of damaged files; progress polled from the starting thread or another one at random steps",
                oracle="monotone counters, bounds, exact totals after completion",
                real=HASHER, stub=SIM_STUB + FS_STUB, assumptions=BASE),
    "C15": dict(binary="h_pipe", probes="pipe", quick_secs=25, thorough_secs=900,
                workload="1-6 (thorough 9) files with sizes on and around block, piece and I/O block boundaries or empty, piece size 16-64 KiB, I/O block 1-4 pieces, 1-4 hasher threads, default or explicit memory limit, all protocols, hashing, verification, cancellation, parallel runs, progress polling, and the concurrent containers on their own; every plain memory access of library, harness and libstdc++ templates is tracked",
                oracle="vector-clock happens-before race detector, lock misuse, use after free (quarantined, poisoned heap)",
                real=HASHER + VERIFIER + PRIMS, stub=SIM_STUB + FS_STUB, assumptions=BASE),
    "C18": dict(binary="h_pipe", probes="pipe", quick_secs=25, thorough_secs=900,
                workload="1-6 (thorough 9) files with sizes on and around block, piece and I/O block boundaries or empty, piece size 16-64 KiB, I/O block 1-4 pieces, 1-4 hasher threads, default or explicit memory limit, all protocols, more blocks than buffers, starved consumers",
                oracle="allocations of at least one I/O block are counted: peak alive at most the documented capacity, none larger than a block, none left",
                real=HASHER + VERIFIER, stub=SIM_STUB + FS_STUB, assumptions=BASE),
    "C19": dict(binary="h_pipe", probes="pipe", quick_secs=25, thorough_secs=900,
                workload="1-6 (thorough 9) files with sizes on and around block, piece and I/O block boundaries or empty, piece size 16-64 KiB, I/O block 1-4 pieces, 1-4 hasher threads, default or explicit memory limit, all protocols, hashing and verification; up to 7 random start/wait/cancel/poll operations in any order, later run on the same storage",
                oracle="lifecycle state machine; refused calls throw; results against the reference",
                real=HASHER + VERIFIER, stub=SIM_STUB + FS_STUB, assumptions=BASE),
    "C22": dict(binary="h_pipe", probes="pipe", quick_secs=25, thorough_secs=900,
                workload="hashing (all protocols, 0-3 checksums) and verification of 1-6 (thorough 9) files as in C01-C06, waited for or cancelled after a random number of steps; thread creation, allocations (in every thread) or digest calls fail at random points, once or repeatedly; after a reported failure a fresh run with the resources back",
                oracle="exception, termination, or results equal to the reference; deadlock and livelock detection; threads, files and digest contexts left; the fresh run is exact",
                real=HASHER + VERIFIER, stub=SIM_STUB + FS_STUB + ["result of a failing libcrypto call (injected)"], assumptions=BASE),
    "C23": dict(binary="h_pipe", probes="addfile", quick_secs=20, thorough_secs=400,
                workload="1-3 threads add files to storages of their own (21 spellings of paths below, at and outside the root directory, three option sets) while another process creates, removes, resizes, re-links and changes the mode of 8 files; stat and readlink calls and allocations fail, slow disk",
                oracle="history of disk states: an accepted entry has the right relative path and a size, flag and link target the file had at an instant of the call; a refusal leaves the storage unchanged and has a cause",
                real=["src/file_storage.cpp", "src/file_entry.cpp", "libstdc++ filesystem"], stub=SIM_STUB + FS_STUB, assumptions=BASE),
    "C24": dict(binary="h_pipe", probes="edits", quick_secs=25, thorough_secs=900,
                workload="histories of 3-16 (thorough 30) steps on one storage of up to 6 (9) files: files added (from disk or as entries, with attributes and links), removed, cleared, padding added, piece size set, contents changed on disk, storage copied or assigned, completed and cancelled hashing runs of every protocol with changing checksums, verifications",
                oracle="model of the storage: entries, counts, totals, claimed protocols after every step; pieces, roots, layers and checksums against references of the contents at the time of the run; directory queries",
                real=HASHER + VERIFIER, stub=SIM_STUB + FS_STUB, assumptions=BASE),
    "C21": dict(binary="h_isal", probes="pipe", quick_secs=25, thorough_secs=900,
                workload="the workloads of C01-C06 and C08 in a build with the multi-buffer backend, multi-buffer hashing on (85 %) or off; plus 1-3 threads using the multi-buffer hasher interface directly (4 algorithms, 1-40 jobs, 1-4 parts per job, any submission and finalisation order)",
                oracle="the reference metadata, verdicts, progress and memory bound of C01-C06, C14, C18; one-shot reference digests",
                real=HASHER + VERIFIER + ["src/v*_chunk_hasher_mb.cpp", "src/chunk_hasher_multi_buffer.cpp", "src/hasher/backends/isal.cpp", "include/dottorrent/hasher/isal_multi_buffer_hasher.hpp"],
                stub=SIM_STUB + FS_STUB + ["isa-l_crypto job managers (stand-in that completes the jobs in flight in an order the simulator chooses, reading each buffer only then)"],
                assumptions=BASE + ["isa-l_crypto behaves as documented; its vector code is not run"]),
    "C17": dict(binary="h_meta", probes="meta", quick_secs=25, thorough_secs=900,
                workload="1-6 (thorough 9) files are hashed (all protocols, single and multi file mode, checksums) under a simulated schedule, the metafile gets random fields, may be copied, and is saved by 1-3 threads (file, stream, limited stream, output iterator) over nothing or an older file; the result may be cut at any byte; it is loaded in one of four ways and the (possibly damaged) files are verified against what was loaded; failing opens, writes, closes, reads and allocations, full disk after any byte, short writes and reads, EINTR",
                oracle="file bytes equal the encoding or an error was reported; independent walk over the encoding against reference metadata; every field, hash, root, layer and checksum after loading; info hash against the digest of the saved info dictionary; reference verdicts",
                real=["src/metafile.cpp", "src/metafile_parsing.cpp", "src/metafile_serialization.cpp", "src/announce_url_list.cpp", "include/dottorrent/serialization/*"] + HASHER + VERIFIER, stub=SIM_STUB + FS_STUB + ["bencode library (stand-in encoder and decoder with the same interface)"], assumptions=BASE),
    "C25": dict(binary="h_meta", probes="meta", quick_secs=20, thorough_secs=600,
                workload="metafiles of 1-6 (thorough 9) files of every protocol with random fields, attributes, links and checksums; on disk 1-3 bits or bytes change, ranges are zeroed, replaced by another block, written twice or lost, or the tail is that of an older file; loaded in four ways with split reads and (10 %) failing allocations; 16 damaged versions per run",
                oracle="an exception or a consistent metafile (piece count, layers, names, link targets, totals) that can be saved again; no termination, contract failure, crash, hang or file left open",
                real=["src/metafile.cpp", "src/metafile_parsing.cpp", "src/metafile_serialization.cpp", "src/announce_url_list.cpp", "include/dottorrent/serialization/*", "src/file_storage.cpp", "src/file_entry.cpp"], stub=SIM_STUB + FS_STUB + ["bencode library (stand-in encoder and decoder with the same interface)"], assumptions=BASE),
    "C20": dict(binary="h_prim", probes="merkle", quick_secs=25, thorough_secs=600,
                workload="1-4 threads set distinct and (35 %) also common leaves of a tree of 1-33 (129) leaves in random orders, some leaves left unset, digest calls that fail during update; 1-4 writers and 0-2 readers on the checksums of one file entry",
                oracle="sequential reference tree computed with one-shot SHA-256; expected checksum values",
                real=["include/dottorrent/merkle_tree.hpp", "src/file_entry.cpp", "include/dottorrent/checksum.hpp", "libcrypto"], stub=SIM_STUB, assumptions=BASE),
}

NOT_APPLICABLE = {k: "Pure function of its input: no concurrency, time, I/O or multi-party behaviour for a simulated schedule or fault to vary, so deterministic simulation has nothing to decide (property-based testing or proof would)." for k in ("N01", "N02", "N03", "N04", "N05", "N06")}
