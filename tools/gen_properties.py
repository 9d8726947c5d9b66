#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

S = "src/"; I = "include/dottorrent/"
PIPE = [S+"storage_hasher.cpp", S+"chunk_reader.cpp", S+"chunk_processor_base.cpp",
        S+"chunk_hasher_single_buffer.cpp", I+"concurrent_queue.hpp", I+"object_pool.hpp",
        I+"concurrent_queue_processor.hpp"]

prop("C01", "v1 piece hashes are exact under every schedule and read pattern",
 "v1 hashing of readable files completes, and then the storage holds exactly one hash per piece and the i-th one is the SHA-1 of the i-th piece-size slice of the concatenation of all files in storage order (padding entries count as zero bytes, the last slice may be short). "
 "This holds for every file layout (empty files, one-byte files, sizes on or next to piece and I/O block boundaries), every thread count, I/O block size and memory limit, every interleaving of reader, hasher and writer threads, and however the operating system splits or interrupts the reads. "
 "Hashing the same content twice gives the same pieces.",
 ["schedules","inputs","configurations","fault_sequences"],
 "all interleavings of the reader, N hasher, writer and caller threads x file layouts x piece/block sizes x queue capacities x benign I/O behaviour (short reads, EINTR, slow disk)",
 "The tests hash one directory with default options, compare the result with nothing, and see one interleaving per run; they are not even built here.",
 PIPE+[S+"v1_chunk_reader.cpp", S+"v1_chunk_hasher_sb.cpp", S+"v1_piece_writer.cpp", S+"file_storage.cpp"],
 [("chunk carries its first piece index, so hashers may finish in any order", S+"v1_chunk_hasher_sb.cpp"),
  ("pooled buffers are exclusively owned until the last consumer drops them", I+"object_pool.hpp"),
  ("single writer thread stores finished pieces by index", S+"v1_piece_writer.cpp")],
 [("pieces_","v1 piece hashes by index", S+"file_storage.cpp"),("piece_index_","first piece of the chunk being filled", S+"v1_chunk_reader.cpp")],
 ["file_storage::pieces() after storage_hasher::wait()"])

prop("C02", "v2 merkle roots and piece layers are exact under every schedule",
 "v2 hashing of readable files completes, and then every non-empty file carries v2 data: its pieces root is the root of the SHA-256 merkle tree over its 16 KiB blocks padded with zero hashes to a power of two, and its piece layer is the tree layer covering one piece per node restricted to nodes that cover file data (empty when the file fits in one piece). "
 "This holds for every file layout, in particular sizes on or next to block, piece and I/O block boundaries and empty files in between, every thread count, I/O block size and memory limit, every interleaving, and however reads are split or interrupted.",
 ["schedules","inputs","configurations","fault_sequences"],
 "interleavings x file layouts x piece/block sizes x queue capacities x benign I/O behaviour",
 "Tests compare one small directory with itself; blocks finishing out of order, block-boundary sizes and split reads are never produced.",
 PIPE+[S+"v2_chunk_reader.cpp", S+"v2_chunk_hasher_sb.cpp", S+"v2_piece_writer.cpp", I+"merkle_tree.hpp", S+"file_entry.cpp"],
 [("per-file counter of finished blocks triggers tree completion exactly once", S+"v2_piece_writer.cpp"),
  ("leaf position derives from chunk piece index, independent of completion order", S+"v2_chunk_hasher_sb.cpp")],
 [("file_blocks_hashed_","finished 16 KiB blocks per file", S+"v2_piece_writer.cpp")],
 ["file_entry::pieces_root(), piece_layer() after storage_hasher::wait()"])

prop("C03", "hybrid hashing yields consistent, exact v1 and v2 metadata",
 "Hybrid hashing of readable files completes, and then padding entries have been inserted so that every regular file starts on a piece boundary (none after the last file), the regular files keep their order and sizes, and both the v1 pieces over the padded byte stream (padding is zero bytes) and the v2 roots and layers of every regular file are exact. "
 "This holds for every layout, configuration, interleaving and read pattern.",
 ["schedules","inputs","configurations"],
 "interleavings (two writer queues fed by the same hashers) x layouts needing and not needing padding x configurations",
 "One test hashes one directory hybrid-mode without an oracle for either half.",
 PIPE+[S+"v2_chunk_reader.cpp", S+"v2_chunk_hasher_sb.cpp", S+"v2_piece_writer.cpp", S+"file_storage.cpp"],
 [("padding insertion before hashing", S+"file_storage.cpp"),("shared zero padding buffer guarded by a mutex; v1 piece offsets per file", S+"v2_chunk_hasher_sb.cpp")],
 None, ["file_storage entries, pieces(), pieces_root(), piece_layer() after wait()"])

prop("C04", "per-file checksums are exact for every requested algorithm",
 "Hashing readable files with requested per-file checksums completes (v1, v2 or hybrid), and then every regular file, including empty ones and the first and the last, carries for every requested algorithm exactly the digest of its own contents, and padding entries do not disturb the others. "
 "This holds for every layout, number and choice of algorithms, configuration, interleaving and read pattern.",
 ["schedules","inputs","configurations"],
 "interleavings of one checksum thread per algorithm with reader and hashers x layouts x algorithm sets",
 "The only checksum test is commented out.",
 PIPE+[S+"v1_checksum_hasher.cpp", S+"v2_checksum_hasher.cpp", S+"file_entry.cpp", I+"checksum.hpp", I+"hash.hpp"],
 [("one dedicated consumer per algorithm receives every chunk in order", S+"storage_hasher.cpp"),("file boundaries re-derived from file sizes (v1) or chunk file index (v2)", S+"v1_checksum_hasher.cpp")],
 None, ["file_entry::get_checksum() after wait()"])

prop("C05", "v1 verification reports exactly the intact pieces",
 "v1 verification completes whatever became of the files on disk, its result has one entry per piece, and an entry is 1 if and only if all bytes of that piece are present at their place and hash to the recorded value; a file whose bytes are damaged, missing altogether, cut short or grown affects only the pieces its own bytes lie in. "
 "This holds for every combination of damaged files, every layout and configuration, every interleaving and every split of the reads, and the per-file percentage agrees with the result entries of that file's pieces. (The reader represents absent bytes as zero bytes; whether an absent stretch whose recorded content was all zero counts as intact is left open.)",
 ["schedules","inputs","configurations","fault_sequences"],
 "interleavings x on-disk damage (bit flips, missing, truncated, extended files) x layouts x configurations",
 "The test verifies an intact directory right after hashing it and expects all ones.",
 [S+"storage_verifier.cpp", S+"v1_chunk_reader.cpp", S+"v1_chunk_hasher_sb.cpp", S+"v1_piece_verifier.cpp", S+"file_storage.cpp", I+"concurrent_queue.hpp", I+"concurrent_queue_processor.hpp"],
 [("missing data is zero filled or skipped piece-wise so later pieces keep their index", S+"v1_chunk_reader.cpp"),("recorded hash compared per finished piece", S+"v1_piece_verifier.cpp")],
 [("piece_map_","per piece verdict", S+"v1_piece_verifier.cpp")], ["storage_verifier::result(), percentage()"])

prop("C06", "v2 and hybrid verification reports exactly the intact pieces",
 "v2 or hybrid verification completes whatever became of the files on disk, its result lists the files in order with one entry per piece-layer node (one for a file that fits in a piece, none for an empty file), and an entry is 1 if and only if that part of the file is present and matches the recorded metadata; damage to one file never changes the entries of another. "
 "This holds for every combination of damaged or missing files, every layout (empty files included) and configuration, every interleaving and every split of the reads, and the per-file percentage agrees with the result. (As in C05, absent stretches whose recorded content was all zero are left open.)",
 ["schedules","inputs","configurations","fault_sequences"],
 "interleavings x on-disk damage x layouts x configurations",
 "The test verifies an intact directory right after hashing it and expects all ones; hybrid verification has no test.",
 [S+"storage_verifier.cpp", S+"v2_chunk_reader.cpp", S+"v2_chunk_hasher_sb.cpp", S+"v2_piece_verifier.cpp", I+"merkle_tree.hpp", S+"file_storage.cpp"],
 [("merkle tree rebuilt per file and compared root-first, then layer by layer", S+"v2_piece_verifier.cpp")],
 [("piece_map_","per piece verdict", S+"v2_piece_verifier.cpp"),("file_offsets_","first verdict of each file", S+"v2_piece_verifier.cpp")],
 ["storage_verifier::result(), percentage()"])

prop("C07", "a started hashing or verification run always completes",
 "Once a hashing or verification run has been started on readable files and the caller waits for it, the wait returns after a bounded number of scheduling steps and the object reports done; no interleaving, thread count, queue capacity, spurious wake-up or slow disk leads to deadlock, livelock, a lost wake-up or a crash. "
 "This includes the smallest legal configurations (one thread, minimum queue, files of size zero, no pieces at all) and several independent runs in one process.",
 ["schedules","configurations","inputs"],
 "interleavings incl. spurious wake-ups and adversarial wake-up order x capacities x thread counts x layouts",
 "A test observes one schedule of one configuration; a deadlock that needs a specific order of block and notify shows up as a rare hang.",
 PIPE+[S+"storage_verifier.cpp", S+"v1_chunk_reader.cpp", S+"v2_chunk_reader.cpp"],
 [("sentinel items wake blocked consumers at shutdown", S+"chunk_processor_base.cpp"),("bounded queues with two condition variables", I+"concurrent_queue.hpp"),("pool hands buffers back through a blocking queue", I+"object_pool.hpp")],
 None, ["return of wait(); done(), running()"])

prop("C08", "cancelling at any instant returns and leaves a clean state",
 "Cancelling a hashing or verification run at any instant, before start or at any point of its execution, returns after a bounded number of steps without deadlock, crash or contract violation, all worker threads have ended by then, and the object afterwards reports cancelled and done and not running and can be destroyed. "
 "A piece hash, root or verdict that is visible after cancellation is either unset or correct.",
 ["schedules","crash_points","configurations"],
 "cancellation instant x interleavings x capacities x thread counts x layouts",
 "No test cancels a running hasher; the outcome depends on which queue is full and who is blocked at that instant.",
 PIPE+[S+"storage_verifier.cpp", S+"v1_chunk_reader.cpp", S+"v2_chunk_reader.cpp"],
 [("cancellation flag polled by the reader, stop tokens for hashers and writers", S+"chunk_processor_base.cpp"),("cancel() requests everything first and then joins in pipeline order", S+"storage_hasher.cpp")],
 None, ["return of cancel(); cancelled(), done(), running(); thread count"])

prop("C09", "I/O failures never produce silently wrong hashes",
 "If a file cannot be opened or read (permission, descriptor limit, I/O error at any byte offset) or is shortened or grown while a v1, v2 or hybrid hashing run is in progress, the run never completes normally with hashes that differ from the true metadata of the bytes the storage promised: it either reports the failure by an exception or by terminating, or its result is exact. "
 "Transient, retryable conditions (short reads, interrupted calls) do not count as failures and leave the result exact.",
 ["fault_sequences","schedules","crash_points"],
 "fault kind x fault position (open, each read, between reads) x interleavings",
 "Tests never see a failing read; the silent case looks like success.",
 [S+"v1_chunk_reader.cpp", S+"v2_chunk_reader.cpp", S+"chunk_reader.cpp", S+"storage_hasher.cpp", S+"v2_piece_writer.cpp"],
 [("stream state checked after each read; reader throws on failure", S+"v1_chunk_reader.cpp")],
 None, ["normal return of wait() together with pieces/roots; exception or termination"])

prop("C10", "the concurrent queue is a linearizable bounded FIFO",
 "Every concurrent history of push, try_push, pop, try_pop, size and set_capacity on the queue is equivalent to some sequential order, consistent with real time, of operations on a bounded FIFO: no item is lost, duplicated, altered or reordered, a refused try_push means the queue was full and a refused try_pop that it was empty, and the number of stored items never exceeds the capacity in force when an item was added. "
 "An item whose copy or move throws, or an allocation that fails inside an operation, leaves the queue's other contents intact and the queue usable.",
 ["schedules","histories","fault_sequences"],
 "interleavings of up to four clients with arbitrary operation mixes, capacity changes, failing allocations",
 "The queue has no unit test at all; a test would sample one interleaving.",
 [I+"concurrent_queue.hpp"],
 [("one mutex around every access; predicates re-checked after waiting", I+"concurrent_queue.hpp")],
 [("queue_","stored items", I+"concurrent_queue.hpp"),("capacity_","limit in force", I+"concurrent_queue.hpp")],
 ["return values and out-parameters of the queue's methods"])

prop("C11", "no caller of the concurrent queue is left blocked needlessly",
 "A blocked push returns within a bounded number of steps once the queue has room, whether room appears because an item was taken or because the capacity was raised, and a blocked pop returns once an item is available; this holds for any number of blocked callers, any wake-up order and spurious wake-ups. "
 "When no other operation is in progress, nobody waits although its condition holds.",
 ["schedules","histories"],
 "interleavings of blocked producers and consumers, wake-up order, spurious wake-ups, capacity changes",
 "Lost wake-ups need a particular interleaving and show as hangs.",
 [I+"concurrent_queue.hpp"],
 [("notify after every state change that can satisfy a waiter", I+"concurrent_queue.hpp")],
 None, ["completion of push/pop calls at quiescence"])

prop("C12", "pooled objects are exclusive, bounded, recycled and never lost",
 "An object obtained from the pool is owned by exactly one holder until its last reference is dropped, at most capacity objects obtained from the pool are alive at any time, and a getter (one thread inside get at a time) blocks only while all of them are in use and proceeds once one is released from whatever thread. "
 "Objects may outlive the pool and are then destroyed exactly once, and a failing allocation during get reports the failure without permanently reducing the pool.",
 ["schedules","histories","fault_sequences"],
 "interleavings of one getter with releasing threads, pool destruction at any instant, failing allocations",
 "The pool has no unit test; double ownership needs a release racing with a get.",
 [I+"object_pool.hpp", I+"concurrent_queue.hpp"],
 [("custom deleter returns the resource to the free list through a weak pointer", I+"object_pool.hpp"),("remaining-capacity counter before construct, blocking pop afterwards", I+"object_pool.hpp")],
 [("resources_left_","objects that may still be created", I+"object_pool.hpp")], ["identity and lifetime of objects returned by get()"])

prop("C13", "the queue processor runs every accepted item exactly once",
 "With any number of worker threads, every item queued before the stop request is passed to the work function exactly once and unaltered before wait returns (also when the processor is destroyed instead of waited for); nothing is invoked twice or after wait returned. "
 "After a cancellation request wait also returns within a bounded number of steps without crash, whatever items are still queued, having invoked the work function at most once per item.",
 ["schedules","histories"],
 "interleavings of producers, workers, stop, cancel and destruction",
 "No unit test; the shutdown handshake depends on which worker consumes which wake-up marker.",
 [I+"concurrent_queue_processor.hpp", I+"concurrent_queue.hpp"],
 [("empty optionals as wake-up markers, remaining items drained after stop", I+"concurrent_queue_processor.hpp")],
 None, ["invocations of the work function; return of wait()"])

prop("C14", "progress figures are monotone, bounded and finally complete",
 "While a hashing run of readable files or a verification run is in progress, the bytes read, bytes hashed and bytes done seen by the caller never decrease and never exceed their final values, bytes done never exceeds the total file size, and the current-file progress always names an existing file with an offset no larger than that file. "
 "After completion bytes done equals the total size of the files (including padding entries for v1, excluding padding otherwise), also when verification found files missing; after hashing bytes read lies between the totals without and with padding, and bytes hashed equals the amount of data hashed (for hybrid: the files once for v2 and the padded stream once for v1).",
 ["schedules","inputs","configurations"],
 "polling instants x interleavings x layouts",
 "Tests never poll progress.",
 [S+"storage_hasher.cpp", S+"storage_verifier.cpp", S+"chunk_processor_base.cpp", S+"chunk_reader.cpp", S+"v1_chunk_hasher_sb.cpp", S+"v2_chunk_hasher_sb.cpp"],
 [("relaxed atomic counters, cumulative file size table", S+"storage_hasher.cpp")],
 None, ["bytes_read(), bytes_hashed(), bytes_done(), current_file_progress()"])

prop("C15", "the hashing and verification pipeline is free of data races",
 "During hashing, verification, progress polling and cancellation no two threads access the same memory location without ordering where at least one writes, for every configuration and interleaving, and no thread touches an object after it was destroyed. "
 "The same holds for the concurrent queue, the object pool, the queue processor, concurrent checksum updates on one file entry and concurrent leaf updates on one merkle tree.",
 ["schedules","configurations","histories"],
 "interleavings x configurations, judged by happens-before rather than by outcome",
 "A race rarely changes an outcome in a test run; the tests run without a race detector.",
 PIPE+[S+"storage_verifier.cpp", I+"merkle_tree.hpp", S+"file_entry.cpp", S+"v2_piece_writer.cpp"],
 [("queues transfer ownership; counters are atomics; trees and checksum maps carry mutexes", I+"merkle_tree.hpp")],
 None, ["memory accesses of instrumented repository code"])

prop("C16", "streaming digests are exact, independent, and never silently wrong",
 "A digest obtained through the hasher interface equals the algorithm applied to the concatenation of the bytes fed since creation or the previous finalisation, however the bytes were split, for every supported algorithm, with any number of hashers used by different threads in any interleaving. "
 "If the cryptographic library reports a failure in any of its calls, the hasher reports an error instead of delivering a digest as if nothing had happened, and releases what it had acquired.",
 ["schedules","inputs","fault_sequences"],
 "split points and interleavings of several hashers x failing library calls at every position",
 "Only the backend's version string is tested; failing library calls are never produced.",
 [S+"hasher/backends/openssl.cpp", I+"hasher/openssl_hasher.hpp", I+"hasher/factory.hpp", I+"hash.hpp"],
 [("context re-initialised after each finalisation; return codes turned into exceptions", S+"hasher/backends/openssl.cpp")],
 None, ["digest bytes; exceptions; live library contexts"])

prop("C17", "saving and loading a metafile is all-or-error under disk faults",
 "Saving a metafile either leaves a file that contains the complete encoding or reports an error; a full disk, write error or short write never results in a normal return with a truncated or altered file, and the stream variant reports failures through its stream. "
 "Loading from a file yields exactly the metafile that was saved however the reads are split - its trackers, dates, comment, private flag and other fields, the files with their sizes, paths, attributes and checksums (v2 files in the order of the sorted file tree), the v1 pieces and the v2 roots and piece layers - with an info hash equal to the digest of the info dictionary in the file, and verifying the files against the loaded metafile gives the same verdicts as against the hashed storage. "
 "A file that cannot be read completely or is cut at any byte yields an error, never a different metafile. This covers metafiles made from a hashed v1, v2 or hybrid storage whose file mode is set (single file or directory), with executable files, links, empty files and extra info fields, saved as any protocol the storage supports (a hybrid storage as v1, v2 or hybrid), by one thread or by several threads to different files.",
 ["fault_sequences","crash_points","inputs"],
 "write failure or cut at every byte offset x short writes x read faults",
 "Tests load intact sample files only.",
 [S+"metafile.cpp", S+"metafile_serialization.cpp", S+"metafile_parsing.cpp", I+"metafile.hpp"],
 [("stream written through an iterator and closed", S+"metafile.cpp")],
 None, ["return of save_metafile/load_metafile, bytes on the simulated disk"])

prop("C18", "memory for file data stays within the configured bound",
 "The file-data buffers alive during a hashing or verification run never exceed in number the queue capacity derived from the memory limit (at least four) and in size one I/O block each, no matter how far the hashers or checksum threads fall behind the reader, and all of them are released when the run object is destroyed. "
 "A slow consumer therefore throttles the reader instead of growing memory.",
 ["schedules","configurations"],
 "starved hashers and checksum threads x memory limits x file counts",
 "Tests neither limit memory nor stall consumers.",
 [I+"object_pool.hpp", S+"chunk_reader.cpp", S+"storage_hasher.cpp", S+"storage_verifier.cpp", I+"concurrent_queue.hpp", I+"aligned_allocator.hpp"],
 [("bounded buffer pool and bounded queues give back-pressure", S+"chunk_reader.cpp")],
 None, ["aligned buffer allocations seen by the simulator's allocator"])

prop("C19", "run objects obey their lifecycle in every call order",
 "A hashing or verification object reports not started, not running and not done when created, started and running and not done between start and the end of wait or cancel, and done and not running afterwards, with cancelled true only after cancel; waiting before start, waiting or cancelling or starting again when done, and starting after cancellation are refused with an exception that changes nothing. "
 "An object that was never started, was cancelled before start, or has completed can be destroyed safely, and a later run on the same storage works and gives exact results.",
 ["histories","schedules"],
 "call sequences of the public API x interleavings with the worker threads",
 "Tests use one call order only.",
 [S+"storage_hasher.cpp", S+"storage_verifier.cpp", S+"chunk_reader.cpp", S+"chunk_processor_base.cpp"],
 [("started/stopped/cancelled flags checked at each entry point", S+"storage_hasher.cpp")],
 None, ["return values and exceptions of the public API"])

prop("C20", "a merkle tree does not depend on the order its leaves arrive in",
 "For any number of leaves set by any number of threads in any order and interleaving, the root and all layers computed by update afterwards equal those of the sequential reference tree with zero hashes for padding and for leaves never set; a leaf set by several threads holds, unbroken, the value of a call that no other call followed. "
 "Checksums added to and looked up on one file entry by several threads behave likewise: each stored value is found unaltered.",
 ["schedules","inputs"],
 "leaf orders and interleavings x leaf counts",
 "The tree test sets leaves sequentially in one thread.",
 [I+"merkle_tree.hpp", S+"file_entry.cpp"],
 [("reader/writer lock around node access", I+"merkle_tree.hpp"),("mutex around the checksum map", S+"file_entry.cpp")],
 None, ["merkle_tree root(), get_layer(), get_node(); file_entry::get_checksum()"])

prop("C21", "multi-buffer hashing gives the same metadata as single-buffer hashing",
 "Built with the multi-buffer library, hashing and verification with multi-buffer enabled give exactly the results C01, C02, C03, C05 and C06 require, finish with the progress figures C14 requires, keep the memory bound of C18 and can be cancelled as C08 requires, and the multi-buffer digest interface itself returns for every job of a round the digest of that job's data for every supported algorithm, for every order in which the library completes the submitted jobs, every number of jobs per chunk, and every interleaving.",
 ["schedules","inputs","configurations"],
 "job completion order x interleavings x layouts",
 "The comparison test hashes one directory and the library completes jobs in one order.",
 [S+"v1_chunk_hasher_mb.cpp", S+"v2_chunk_hasher_mb.cpp", S+"chunk_hasher_multi_buffer.cpp", I+"hasher/isal_multi_buffer_hasher.hpp", I+"hasher/backends/isal.hpp", I+"merkle_tree.hpp"],
 [("per job contexts, results fetched by job id after flush", I+"hasher/backends/isal.hpp")],
 None, ["pieces, roots, layers after wait()"])

prop("C22", "refused threads, memory or digests never hang or corrupt a run",
 "If the system refuses a thread, the start of a hashing or verification run throws an exception, every thread it had created has ended, the object still reports not started, and it can be started again or destroyed; a new run works. "
 "If an allocation or a digest call fails at any point of a run, the run neither hangs nor completes normally with wrong hashes or verdicts: it ends by an exception, by terminating the process, or with exact results, and after an exception no thread, open file or digest context is left once the object is destroyed.",
 ["fault_sequences","schedules","histories"],
 "failing thread creations, allocations and digest calls at every point x interleavings",
 "Tests never make a system call, allocation or library call fail.",
 [S+"storage_hasher.cpp", S+"storage_verifier.cpp", S+"chunk_processor_base.cpp", S+"chunk_reader.cpp", I+"concurrent_queue_processor.hpp", S+"hasher/backends/openssl.cpp"],
 [("parts started one after the other, exceptions passed to the caller of start", S+"storage_hasher.cpp"),("worker exceptions end the process", S+"chunk_processor_base.cpp")],
 None, ["exceptions of start() and wait(), termination, results, threads left"])

prop("C23", "adding a file from disk is exact or refused, and then changes nothing",
 "Adding a file or link from disk to a storage either throws and leaves the storage (entries, file count, total sizes) as it was, or appends exactly one entry whose path is the normalised path of the file relative to the root directory and whose size, executable flag and link target are those the file had at some instant of the call. "
 "Files outside the root directory (also when named through .., a relative path or a longer name with the same prefix), directories, missing files and links to nothing are refused. Links are followed unless copying them was asked for; a copied link has size zero and a target relative to the root directory, and is refused if the target lies outside. "
 "This holds while other processes create, replace, resize, remove or relink the files, and when file status calls, link reads or memory allocations fail; a file that nobody touches is added when no call fails.",
 ["schedules","fault_sequences","inputs"],
 "interleavings of the calls with changes by other processes x failing status, readlink and allocation calls x path spellings x options",
 "Tests add files from a directory nobody else touches and no call fails.",
 [S+"file_entry.cpp", S+"file_storage.cpp", I+"file_storage.hpp", I+"file_entry.hpp"],
 [("entry built completely before the storage is changed", S+"file_storage.cpp"),("status, size and link target read by separate calls", S+"file_entry.cpp")],
 [("files_","entries", S+"file_storage.cpp"),("total_file_size_","sum of the sizes", S+"file_storage.cpp")], ["entries and totals of the storage after add_file"])

prop("C24", "a storage never carries stale or lost metadata, whatever its history",
 "Over every history of adding, removing and clearing files, adding padding, setting the piece size, changes of file contents on disk, copying or assigning the storage, removing checksums, verification, and completed or cancelled hashing runs of any protocol: the counts, total sizes, piece count, file mode and directory queries (contents of a directory, number of directories) always describe exactly the current entries. "
 "A change of the file list drops the v1 pieces, setting the piece size drops v1 pieces and v2 roots and layers, and the storage claims a protocol only if its current files were hashed so; nothing else loses metadata: removing or copying keeps the v2 data and checksums of the remaining files. "
 "A completed run leaves exactly the metadata (pieces, roots, layers, requested checksums, and for hybrid the padding) of a run on a fresh storage with the same regular files and their present contents; a cancelled run leaves only values of the previous or the present contents, or none.",
 ["histories","schedules","inputs"],
 "sequences of edits, content changes, runs and cancellations x interleavings within the runs x file layouts",
 "Tests hash a fresh storage once and never edit it afterwards.",
 [S+"file_storage.cpp", I+"file_storage.hpp", S+"file_entry.cpp", S+"storage_hasher.cpp", S+"v2_piece_writer.cpp", S+"v1_checksum_hasher.cpp"],
 [("edits invalidate pieces and the directory index", S+"file_storage.cpp"),("hybrid runs lay out padding anew", S+"file_storage.cpp"),("checksums replaced by name", S+"file_entry.cpp")],
 [("pieces_","v1 pieces, valid for the current file list and piece size", S+"file_storage.cpp"),("has_v2_data_","entry carries v2 data", S+"file_entry.cpp"),("index_valid_","directory index is current", S+"file_storage.cpp")],
 ["accessors of file_storage and file_entry after every step"])

prop("C25", "a damaged metafile is refused or loads as a consistent one",
 "Whatever happened to a saved metafile on its disk (flipped bits, changed bytes, zeroed ranges, blocks lost, written twice or replaced, a new file over the tail of an older one, a file written again while it is loaded), however it is loaded (from a path, a stream, text or bytes), whatever reads or allocations do meanwhile and however many threads load metafiles at the same time: loading either throws an exception derived from std::exception or returns a consistent metafile. It never terminates the process, reads out of bounds, hangs, or leaves a file open. "
 "Consistent means: every file has a relative, non-empty name, links have a target, the total size is the sum of the files, the piece size is a power of two, the number of v1 pieces and of piece layer hashes per file fits the sizes, v1 and v2 descriptions of a hybrid list the same files, and the metafile can be saved and loaded again with the same protocol and the same files.",
 ["inputs","faults","crash points","schedules"],
 "damage at any place of any metafile x four ways to load x read splits, failing allocations and concurrent loads",
 "Tests load a few intact files.",
 [S+"metafile_parsing.cpp", S+"metafile.cpp", S+"metafile_serialization.cpp", I+"announce_url_list.hpp"],
 [("checks before anything is built from the data", S+"metafile_parsing.cpp"),("v1 and v2 lists compared", S+"metafile_parsing.cpp")],
 [("pieces_","v1 pieces of the loaded storage", S+"file_storage.cpp"),("piece_layer_","v2 layer of a loaded file", S+"file_entry.cpp")],
 ["load_metafile, read_metafile; accessors of the metafile and its storage"])

# ---- pure functions: listed for completeness, not applicable to this technique ----
def na(id, title, statement, files, mech):
    prop(id, title, statement, ["inputs"], "all inputs", "Tests sample a handful of inputs.", files, mech)
na("N01", "hexadecimal encoding and decoding are inverse and strict",
   "Encoding any bytes to hexadecimal and decoding the text gives the bytes back, and text with a non-hexadecimal character or odd length is rejected.",
   [I+"hex.hpp"], [("lookup tables", I+"hex.hpp")])
na("N02", "percent encoding and decoding are inverse",
   "Percent-encoding any string and decoding it gives the string back, and only unreserved characters stay unencoded.",
   [I+"percent_encoding.hpp"], [("character classes", I+"percent_encoding.hpp")])
na("N03", "magnet links round-trip",
   "Encoding a magnet link and parsing it gives the same info hashes, trackers, peers and selections.",
   [I+"magnet_uri.hpp", S+"magnet_uri.cpp"], [("parameter parser and writer", S+"magnet_uri.cpp")])
na("N04", "announce lists keep tiers ordered and entries unique",
   "After any sequence of insertions and removals the announce list is ordered by tier and contains each URL at most once per tier.",
   [I+"announce_url_list.hpp", S+"announce_url_list.cpp"], [("ordered insertion", S+"announce_url_list.cpp")])
na("N05", "metafile serialisation and parsing are inverse",
   "Serialising any metafile in a protocol version its storage supports and parsing the bytes gives a metafile with the same content, and the info hash is a function of the info dictionary only.",
   [S+"metafile_serialization.cpp", S+"metafile_parsing.cpp", S+"metafile.cpp"], [("encoder and parser per field", S+"metafile_parsing.cpp")])
na("N06", "automatic piece size is a legal power of two",
   "For every total size the chosen piece size is a power of two between the documented limits and does not shrink when the total grows.",
   [S+"file_storage.cpp"], [("clamped logarithm", S+"file_storage.cpp")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
