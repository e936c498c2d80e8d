#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SC, SD = "src/serial/842_compress.c", "src/serial/842_decompress.c"
OC, OD, BS = "src/serial_optimized/842_compress.cpp", "src/serial_optimized/842_decompress.cpp", "src/serial_optimized/bitstream.cpp"
CH, CRC = "src/common/trivial_chunked.h", "src/common/crc32.h"
COMP, DECOMP = "src/stream/DataCompressionStream.cpp", "src/stream/DataDecompressionStream.cpp"
CLH, CLK = "src/ocl/cl842decompress.cpp", "src/ocl/decompress.cl"

prop("C01", "Compression followed by decompression restores the data exactly",
 "For every byte string, a successful sw842 or optsw842 compression into a sufficiently large buffer, followed by decompression of the result by either software decompressor, returns 0 and yields exactly the original bytes and length. This holds for any length the compressor accepts (sw842: any; optsw842: any multiple of 8, including 0) and for any alignment of the input, compressed and output buffers. With a large enough output buffer compression of an accepted length always succeeds.",
 ["inputs", "configurations"], "every input content and length, every pair (compressor, decompressor), every buffer alignment 0..7",
 "The tests round-trip six fixed patterns at one size and alignment; losslessness quantifies over all inputs, in particular those that hit each template, each ring-buffer wrap and each repeat-count boundary at each bit phase.",
 [SC, SD, OC, OD, BS, "src/common/opcodes.h"],
 [("greedy template choice over hash of ring contents", SC), ("hash tables verified against rolling fifos", OC), ("ring-buffer index reconstruction", SD + ", " + OD)],
 ["return values, output bytes and lengths of sw842_/optsw842_compress and _decompress"])

prop("C02", "Every compressed buffer is a well-formed 842 bitstream",
 "Whatever bytes are compressed, the buffer produced by sw842_compress or optsw842_compress is exactly one well-formed bitstream of the documented 842 format: only documented templates, index arguments that refer only to data already emitted, an end template, the big-endian CRC-32 (poly 0x04C11DB7, init 0, no reflection) of the original data, then zero padding to a multiple of 8 bytes. An independent decoder written from the format description recovers the original data from it. optsw842, whose streams must also be acceptable to hardware, never uses the software-only short-data template, and sw842 uses it only once, at the end, when the length is not a multiple of 8.",
 ["inputs"], "every input content and length",
 "Tests compare only against this library's own decoder or one golden stream per pattern, so a compressor and decompressor that drift together (or break hardware/GPU interoperability) still pass.",
 [SC, OC, BS, CRC, "src/common/crc32table.h", "src/common/842.h", "src/common/opcodes.h"],
 [("add_template/add_bits", SC), ("stream_write_bits", BS), ("crc32_be", CRC)],
 ["bytes written to the output buffer of the compressors"])

prop("C03", "Decompressors give every well-formed stream its documented meaning",
 "For every well-formed 842 bitstream (any sequence of the 26 templates with any valid index arguments, any repeat count, zeros, end and correct CRC, padded to a multiple of 8 bytes, whether or not this library's compressors would ever produce it), sw842_decompress and optsw842_decompress return 0 and output exactly the bytes the format defines. Bytes that follow the end of the stream in the input buffer do not matter, and neither does the alignment of the buffers. sw842_decompress also honours the short-data template at the end of a stream.",
 ["inputs"], "every well-formed stream, including ones from other encoders (hardware), at every bit phase and ring position",
 "Tests decode a handful of golden streams; the set of template sequences x index values x ring positions is unbounded and other encoders make choices this library's compressor never makes.",
 [SD, OD, "src/common/842.h"],
 [("__do_index ring section arithmetic", SD), ("do_index/do_data per template switch", OD), ("next_bits/read_bits", SD + ", " + OD)],
 ["output bytes, *olen and return value of the decompressors"])

prop("C04", "Malformed streams are rejected, never decoded",
 "A stream that uses an undefined template, an index argument that reaches beyond the data output so far, a repeat with no complete previous 8 bytes, or an empty short-data argument, or that ends before its end template and CRC are complete, is never reported as successfully decompressed: both software decompressors return a negative error and report an output length of 0. The same holds for the software-only short-data template in optsw842, which does not support it (when called with buffers of its preferred 8-byte alignment; for others it falls back to the plain decoder).",
 ["inputs"], "every byte string that is not a well-formed stream (any position and kind of malformation, any truncation point)",
 "Tests feed a few fixed malformed buffers; a missing check shows only for the particular template, index, ring position or truncation point that it guards.",
 [SD, OD],
 [("offset + size > total check", SD + ", " + OD), ("input length check in next_bits/read_word", SD + ", " + OD), ("template dispatch defaults", SD + ", " + OD)],
 ["return value and *olen of the decompressors"])

prop("C05", "Decompression succeeds only if the stored CRC matches the output",
 "Whenever sw842_decompress or optsw842_decompress reports success, the CRC-32 stored after the end template equals the CRC-32 of exactly the bytes it output. Consequently any corruption of a compressed buffer either is detected (negative return, length 0) or provably decodes to data with the stored checksum; a corruption confined to the stored CRC is always detected.",
 ["inputs"], "every compressed stream and every corruption of it (each single bit, bursts, byte substitutions, in literals, indices and the CRC itself), for every output length and alignment",
 "One test flips one CRC per implementation; partial comparisons, wrong lengths fed to the CRC or table errors are visible only for particular bits, lengths or alignments.",
 [SD, OD, CRC, "src/common/crc32table.h"],
 [("CRC compare at end of stream", SD + ", " + OD), ("slicing-by-8 crc32_be", CRC)],
 ["return value, *olen and output bytes of the decompressors"])

prop("C06", "Decompressing hostile bytes is memory-safe and bounded",
 "For any input bytes, input length and output capacity, decompression with sw842 or optsw842 terminates, reads nothing outside the given input, writes nothing outside the first *olen bytes of the output buffer, reads no output bytes it has not itself written, modifies no input byte, and executes no undefined behaviour or assertion failure.",
 ["inputs"], "every byte string (random, mutated-valid, structured hostile), every input length 0.., every output capacity 0.., every alignment, adjacent inaccessible memory",
 "Tests use generous in-bounds buffers with few hostile inputs; over-reads by a few bytes at a particular bit phase or capacity do not change their results.",
 [SD, OD, CRC],
 [("ilen accounting in next_bits/read_word", SD + ", " + OD), ("olen accounting per operation", SD + ", " + OD)],
 ["AddressSanitizer/UBSan/MemorySanitizer reports on exact-size heap buffers", "guard bytes around the output", "input snapshot"])

prop("C07", "Compressing any bytes is memory-safe",
 "For any input bytes and length (including 0) and any output capacity, compression with sw842 or optsw842 reads nothing outside the given input, writes nothing outside the first *olen bytes of the output buffer, modifies no input byte and executes no undefined behaviour or assertion failure, whatever the alignment of the buffers.",
 ["inputs"], "every input, every input length from 0, every output capacity from 0 to beyond what is needed, every alignment",
 "Tests use fixed sizes with slack around the buffers, so a stray read or write of a few bytes at a particular length, capacity or bit phase goes unnoticed.",
 [SC, OC, BS],
 [("add_bits end-of-buffer splitting", SC), ("stream_write_word end check", BS), ("input loop bounds", SC + ", " + OC)],
 ["AddressSanitizer/UBSan reports on exact-size heap buffers", "guard bytes around the output", "input snapshot"])

prop("C08", "Output capacity is honoured exactly",
 "If the output capacity passed in *olen is at least the size a call needs, compression or decompression succeeds with output bytes and length that do not depend on how much larger the capacity is; if it is smaller, the call returns -ENOSPC, sets *olen to 0 and never writes past the capacity. On success *olen is exactly the number of bytes produced, and on every failure of the software functions *olen is 0.",
 ["inputs", "configurations"], "every input, every capacity from 0 to beyond the needed size, both directions, both implementations, every alignment",
 "Tests try half and one-less capacity on fixed patterns; boundary handling depends on the bit phase and on how many bytes remain, which differ for every input and capacity.",
 [SC, SD, OC, OD, BS],
 [("olen accounting", SC + ", " + SD), ("ENOSPC pre-checks", OD), ("bitstream_full_exception", BS)],
 ["return value, *olen, output bytes and guard bytes after the capacity"])

prop("C09", "Chunked calls are equivalent to a sequence of single calls",
 "sw842/optsw842 _compress_chunked and _decompress_chunked produce, for every chunk, exactly the return value, output length and output bytes that the single-chunk call gives for the bytes at in + i*istride and out + i*ostride, for any number of chunks, any strides (including total spans over 4 GiB) and any mix of succeeding and failing chunks. A chunk whose input length is SIZE_MAX is skipped: its return value, output length and output bytes are left untouched; no byte between chunks is written. The function implementing each direction is reached through the implementation table, and the call as a whole reports failure exactly if some chunk failed with an error other than insufficient space.",
 ["inputs", "configurations"], "every number of chunks, stride, per-chunk length/capacity and skip pattern, every mix of failures",
 "No existing test calls any chunked function at all; offset arithmetic errors appear only for large strides or chunk counts.",
 [CH, SC, OC, "include/lib842/common.h"],
 [("LIB842_DEFINE_TRIVIAL_CHUNKED_COMPRESS", CH), ("get_*_implementation tables", SC + ", " + OC)],
 ["rets, olens, output buffer and gaps after a chunked call, compared with single calls"])

prop("C10", "Results are a pure function of the input bytes",
 "The result of each compress or decompress call (return value, length, bytes) depends only on the input bytes, the capacity and whether the buffers are 8-byte aligned: it is the same for every call, whatever was processed before, whatever the previous contents of the output buffer, of freshly allocated heap memory and of the stack, and whatever lies around the input buffer. No decision or output byte depends on uninitialised memory.",
 ["inputs", "histories"], "every input, after every history of earlier calls, for every prior content of uninitialised memory",
 "Tests run each call once in a fresh process where heap memory is mostly zero, which is exactly the situation that hides uninitialised state.",
 [SC, OC, SD, OD],
 [("explicit initialisation of node/hash tables", SC + ", " + OC)],
 ["outputs under different heap fill patterns and histories", "MemorySanitizer reports"])

prop("C11", "Concurrent calls on distinct buffers do not interfere",
 "Any number of threads may call the sw842 and optsw842 compress, decompress and chunked functions and the implementation getters at the same time on distinct buffers; each call then has the same result as when run alone, and no data race occurs. Threads may also share the same input buffer.",
 ["schedules", "inputs"], "every interleaving of concurrent calls from several threads",
 "All existing tests are single-threaded, although streams, OpenMP users and hardware fallbacks call these functions from many threads.",
 [SC, SD, OC, OD, BS],
 [("no mutable static state; per-call parameter blocks", SC + ", " + OC)],
 ["ThreadSanitizer reports", "results compared with the single-threaded results"])

prop("C12", "No call leaks memory or other resources on any path",
 "Every sw842 and optsw842 compress, decompress or chunked call releases everything it allocated before returning, on success and on every failure (insufficient capacity at any point, malformed or truncated input, unsupported length), so that an arbitrarily long sequence of calls does not grow the process.",
 ["inputs", "fault_sequences"], "every input and every failure point (each capacity from 0 up, each truncation point)",
 "Tests exit right after one or two calls and never inspect the heap.",
 [SC, OC, BS],
 [("cleanup label and destroy_hashtable", SC), ("stream_close/free on both exits", OC)],
 ["live allocation count before/after each call", "LeakSanitizer"])

prop("C13", "Compression is as effective as the format's greedy encoding promises",
 "sw842_compress never emits more bits for an 8-byte group than the cheapest documented template allows given the data still in the three rings (runs of an identical group cost one 11-bit repeat per 64, zero groups 5 bits), so its output is never longer than the greedy reference encoding. optsw842_compress collapses runs and zero groups in the same way, never expands a group beyond 69 bits, and loses only a small fraction to its lossy hashing. Hence output never exceeds 69 bits per 8 bytes plus trailer and padding.",
 ["inputs"], "every input; the size of the result compared with an independent greedy encoder over the same input",
 "Tests check one golden size bound on fixed patterns; a lost hash update or a wrong template preference keeps every round trip correct and only silently degrades compression.",
 [SC, OC, "src/common/opcodes.h"],
 [("comp_ops ordered by size", SC), ("replace_hash keeps the ring's exact contents", SC), ("templateKeys/ops_dict", OC + ", src/common/opcodes.h"), ("repeat_count", SC + ", " + OC)],
 ["compressed length per input"])

prop("C14", "Running out of memory fails a call cleanly",
 "If any allocation that a sw842 or optsw842 compress, decompress or chunked call makes is refused (one of them, or all from some point on), the call still returns: it does not crash, end the process or let an exception escape; it either gives exactly its normal result or returns a negative error other than -ENOSPC (which would mean incompressible data) with *olen 0 (in chunked calls for that chunk only, and for the whole), writes nothing outside its output, releases everything it allocated, and later calls are not affected.",
 ["inputs", "fault_sequences"], "every input and every allocation of the call that can fail",
 "No test makes an allocation fail; the tables of sw842_compress are allocated node by node, so that there are thousands of such points in one call.",
 [SC, OC, BS],
 [("malloc of the parameter block and of the hash nodes, uthash tables and their growth", SC), ("parameter block and stream_open", OC + ", " + BS)],
 ["result of each call under refused allocations", "live allocations after it"])

prop("S01", "Compression streams deliver every block exactly once, faithfully",
 "For every source buffer, thread count and implementation, a compression operation that is finalized without cancellation or error hands each whole block of the source to the block callback exactly once, with its right offset; every chunk in it is either a compressed chunk that decompresses to exactly the source chunk and whose size is at most the compressible threshold, or is marked with size CHUNK_SIZE and is readable unchanged through the block. No other block is delivered.",
 ["schedules", "inputs"], "every interleaving of the compression threads, every mix of compressible and incompressible chunks, sizes from 0 up, 1..N threads",
 "No existing test constructs a stream at all.",
 [COMP, "include/lib842/stream/comp.h", "include/lib842/stream/block.h"],
 [("atomic _current_offset hand-out", COMP), ("handle_block", COMP), ("Block::get_chunk", "include/lib842/stream/block.h")],
 ["block callback events (offset, sizes, chunk contents) per operation"])

prop("S02", "Epochs order the delivery of blocks",
 "When an epoch size is set on a compression stream, no block at or beyond a multiple of that size is delivered until the delivery (callback) of every block before that multiple has completed, for every operation on that stream, and the operation still completes. Without an epoch size every block is still delivered.",
 ["schedules"], "every interleaving of the compression threads, thread counts below, equal to and above the number of blocks per epoch, sizes not a multiple of the epoch",
 "No existing test covers streams; ordering depends on thread timing.",
 [COMP, "include/lib842/detail/barrier.h"],
 [("num_epochs barrier waits", COMP), ("barrier generations", "include/lib842/detail/barrier.h")],
 ["start/end sequence numbers of block callbacks"])

prop("S03", "Compression finalize reports once, after all work, and allows reuse",
 "The finalize callback of a compression operation is called exactly once, after every block callback of the operation has returned, with true if no error occurred; no block callback runs after it until the next start. With cancel, no new blocks are started (so at most a bounded number are still delivered, each at most once and faithful) and the callback is still called exactly once. The stream can then be started again, also from inside the finalize callback, and each operation behaves like the first.",
 ["schedules", "histories"], "every interleaving, every sequence of operations (sizes, cancel/no cancel, errors, epochs) on one stream, finalize called before, during or after the work",
 "No existing test covers streams; this is a property of histories and interleavings.",
 [COMP, "include/lib842/stream/comp.h"],
 [("_finalize_barrier and leader reset", COMP), ("_trigger generation", COMP)],
 ["event log of start, block, finalize events"])

prop("S04", "A failing compressor implementation surfaces as a failed operation",
 "If the compression implementation fails for any chunk batch of an operation, or the buffer of a block can not be allocated, the operation's finalize callback is called with false (exactly once), the error is logged once, the failing block is delivered only as an error marker (offset SIZE_MAX, no buffer) and never as valid data, other delivered blocks are still faithful, the operation starts no new blocks (but a bounded number already claimed) and terminates, and the next operation on the same stream starts with a clean slate. Chunks that are merely incompressible (insufficient space) are not an error.",
 ["fault_sequences", "schedules"], "every position and number of injected failures, every thread count and epoch setting, followed by further operations",
 "No existing test covers streams or injects implementation failures.",
 [COMP, "include/lib842/stream/comp.h"],
 [("block.offset == SIZE_MAX handling and _error", COMP)],
 ["block and finalize events under injected failures", "error logger calls"])

prop("S05", "Decompression streams write exactly the right bytes",
 "After an uncancelled, error-free decompression operation has been finalized, every chunk of every pushed block that was present (compressed or uncompressed) has been written to its place in the destination and equals the original data; absent chunks (size 0), other parts of the destination and memory around it are untouched. This holds for any order and concurrency of pushes, any thread count, and any mix of compressed, uncompressed and absent chunks, and push_block returns true throughout.",
 ["schedules", "inputs"], "every order and interleaving of pushes and worker threads, every mix of chunk kinds",
 "No existing test constructs a stream.",
 [DECOMP, "include/lib842/stream/decomp.h", "include/lib842/stream/block.h"],
 [("queue under _mutex", DECOMP), ("handle_block chunk classification", DECOMP)],
 ["destination buffer contents, push_block results, finalize events"])

prop("S06", "Corrupt or failing chunks fail the decompression operation, cleanly",
 "If any pushed chunk fails to decompress (corrupt data, implementation error) or does not decompress to exactly a full chunk, the operation is finalized with false instead of reporting success or terminating the process; later push_block calls of the operation return false, the finalize callback is called exactly once, and the stream remains usable for later operations, which report success again.",
 ["fault_sequences", "inputs", "schedules"], "every position and kind of corruption or failure, every interleaving, every later use",
 "No existing test covers streams or corrupt blocks.",
 [DECOMP],
 [("handle_block result and _error flag", DECOMP), ("per-chunk return values", CH)],
 ["finalize callback argument, push_block results, process survival"])

prop("S07", "Streams can be destroyed at any point without hang, leak or late calls",
 "Destroying a compression or decompression stream at any moment of its life (before it is ready, idle, during an operation, during finalization, with queued blocks, waiting on an epoch) returns after the bounded work in progress, joins all its threads, releases all memory, and no callback of the stream runs after the destructor has returned; a pending finalize callback is called at most once.",
 ["schedules", "crash_points"], "every point in an operation's life at which the destructor can be called, every thread count",
 "No existing test covers streams; shutdown races show only in rare interleavings.",
 [COMP, DECOMP, "include/lib842/detail/barrier.h"],
 [("_quit flag with notification and barrier interrupt", COMP + ", " + DECOMP)],
 ["callback events after destruction, thread count, heap, bounded completion"])

prop("S08", "Streams are free of data races",
 "No use of the public interface of the compression and decompression streams that follows the documented protocol (one controlling thread for start/finalize, any thread pushing blocks, callbacks running on worker threads, destruction at any time) causes a data race in the library, and everything written by the workers is visible to code running in or after the finalize callback.",
 ["schedules"], "every interleaving of controlling, pushing and worker threads over all operations, including destruction",
 "No existing test covers streams; data races do not show in single-threaded tests.",
 [COMP, DECOMP, "include/lib842/stream/comp.h", "include/lib842/stream/decomp.h", "include/lib842/detail/barrier.h", "include/lib842/detail/latch.h"],
 [("_mutex-protected state and trigger publication", COMP + ", " + DECOMP)],
 ["ThreadSanitizer reports"])

prop("S09", "Barrier and latch synchronise exactly as documented",
 "A barrier for N threads lets no thread leave its k-th wait before all N have arrived at their k-th wait, lets all of them leave once they have (for any number of consecutive rounds), and once interrupted never blocks anyone, including threads already waiting. A latch of count N lets no waiter through before N count-downs have happened and never blocks one afterwards; both make writes before an arrival visible after the wait.",
 ["schedules"], "every interleaving of the participating threads, every number of rounds, interrupt at any time",
 "No existing test covers these primitives, and their failures are schedule-dependent.",
 ["include/lib842/detail/barrier.h", "include/lib842/detail/latch.h"],
 [("generation counter", "include/lib842/detail/barrier.h"), ("condition variable predicate", "include/lib842/detail/latch.h")],
 ["arrival/departure event log", "ThreadSanitizer reports"])

prop("S10", "Streams respect the implementation's buffer and alignment contract",
 "Streams call the compression implementation only with whole blocks: the chunk buffers they allocate satisfy the implementation's preferred alignment, strides are the documented chunk spacing, the lengths passed are the real chunk sizes and capacities, skipped chunks are marked with SIZE_MAX, and input and output never overlap. A stream constructed for an implementation whose required alignment does not divide the chunk size is refused with an exception and leaves no threads behind, and so is one whose threads can not all be created. The thread placement policy changes nothing but placement.",
 ["configurations", "inputs"], "every implementation table (alignment from 1 to a page and beyond), every mix of chunks, both thread policies",
 "No existing test covers streams.",
 [COMP, DECOMP, "include/lib842/stream/block.h", "src/stream/numa_spread.cpp"],
 [("allocate_buffer(preferred_alignment)", COMP), ("required_alignment check", COMP + ", " + DECOMP)],
 ["arguments of each call into the implementation table"])

prop("S11", "Spreading puts the threads of a stream evenly on the NUMA nodes",
 "With the policy spread_threads_among_numa_nodes, each thread of a compression or decompression stream is bound to exactly the CPUs of one NUMA node on which the process may allocate memory and which has CPUs, and the numbers of threads on any two such nodes differ by at most one; with use_defaults no thread is bound. This holds on every machine: nodes without CPUs, gaps in the numbers of nodes or CPUs. Without NUMA, without such a node or when binding a thread fails, the stream works all the same.",
 ["configurations", "fault_sequences"], "every topology, every number of threads, a failure at every thread",
 "No existing test covers streams, and a test sees only the machine it runs on, which mostly has one node.",
 ["src/stream/numa_spread.cpp", COMP, DECOMP],
 [("get_numa_cpusets", "src/stream/numa_spread.cpp"), ("spread_threads_among_numa_nodes", "src/stream/numa_spread.cpp")],
 ["calls of pthread_setaffinity_np", "results of the stream's operations"])

prop("L01", "OpenCL decompression agrees with the software decompressors",
 "For every batch of chunks compressed with the 842 format (ALWAYS_COMPRESSED_CHUNKS layout, any chunk size, stride and number of chunks), the OpenCL decompressor writes to each chunk's slot exactly the bytes, length and status 0 that the format defines, and the kernel does not write other parts of the output; capacities and malformed streams are reported per chunk (negative status, length 0) without affecting other chunks. The mapping given by a shuffle map (any permutation) does not change any result.",
 ["inputs", "configurations"], "every well-formed stream per chunk, every number of chunks across work-group boundaries, every permutation",
 "Tests decompress a single chunk of a few fixed patterns; multi-chunk, offsets, shuffle maps and most template/index combinations are never run.",
 [CLH, CLK],
 [("decompress_core/do_op/get_index", CLK), ("buffer set-up and copies", CLH)],
 ["outputs, sizes and return values of CLHostDecompressor::decompress and CLDeviceDecompressor::decompress", "outputs of the kernel source compiled for the host"])

prop("L02", "Mixed compressed/uncompressed OpenCL containers decode correctly",
 "In the MAYBE_COMPRESSED_CHUNKS layout, a chunk that does not begin with the full marker is copied verbatim, a chunk with marker and size 0 leaves its destination untouched, and a chunk with marker and size n decompresses the n bytes at the end of the slot; status and size are reported accordingly for every chunk, whatever the mix and order of kinds and shuffle map. A call whose input and output sizes differ, or whose input and output are the same buffer, is refused with an exception without touching anything.",
 ["inputs", "configurations"], "every mix of chunk kinds, contents that begin with partial or near-miss markers, every number of chunks",
 "No existing test uses this layout.",
 [CLK, CLH, "include/lib842/common.h"],
 [("marker comparison and size field", CLK)],
 ["outputs of the kernel through OpenCL and through the host-compiled kernel source"])

prop("L03", "The OpenCL kernel stays inside its buffers on hostile input",
 "Whatever bytes the input chunks contain, the decompression kernel (ALWAYS and MAYBE layouts, with sizes and capacities given) terminates, reads only its own chunk's input slot and output, writes only within the capacity of its own chunk's output slot and its own status entries, and reports a negative status for anything that is not decodable within that capacity.",
 ["inputs"], "every byte string per chunk, including hostile container headers, every capacity",
 "Tests run few malformed inputs on one chunk, and no memory checker watches the kernel.",
 [CLK],
 [("error handling in read_bits/get_index/do_op", CLK), ("container header handling", CLK)],
 ["AddressSanitizer/UBSan on the kernel source compiled for the host, exact-size buffers"])

prop("L04", "The OpenCL program cache never changes results or availability",
 "Whatever the state of the on-disk program cache (absent, truncated anywhere, corrupt header fields, written by a build with other parameters, unreadable, unwritable or full device), constructing an OpenCL decompressor succeeds and it decompresses correctly; a cached program is used only for the same source, chunk size, stride, format and devices.",
 ["fault_sequences", "histories"], "every corruption or truncation point of the cache file, every I/O failure, every sequence of configurations sharing the cache",
 "Tests start from an empty cache and use one configuration.",
 [CLH],
 [("program_cache::find/set and fallback to source", CLH)],
 ["construction outcome and decompression results under injected cache states and I/O faults"])

prop("L05", "The OpenCL C entry point contains failures and handles every size",
 "cl842_decompress returns 0 with the exact data for every well-formed stream of any compressed size up to the tested megabytes, returns a negative error with length 0 for malformed streams or too small capacities, lets no C++ exception escape, accesses only the given buffers, and behaves the same on every call of a process, also from several threads.",
 ["inputs", "histories"], "every stream size (in particular beyond 64 KiB and 100 kB), malformed input, repeated and concurrent calls",
 "Tests use inputs of at most a few tens of kilobytes, one call per process.",
 [CLH],
 [("cl842_decompress wrapper", CLH)],
 ["return value, *olen and buffers of cl842_decompress"])

prop("T01", "Build-time generators reproduce their sources exactly",
 "The text embedded by the source-embedding tool is, byte for byte, the text of the file it was given, for any text file (so the OpenCL program that is built is the one in the repository), and the CRC table generator prints exactly the slicing-by-8 tables of the CRC-32 polynomial that the library ships. If the text can not be read or the output not be written, the embedding tool fails, so that the build stops.",
 ["inputs"], "every text file (quotes, backslashes, newlines, missing final newline, long lines, tabs, percent signs, non-ASCII bytes); every table entry",
 "Tests use the result on one file only and would not notice a changed character in a comment, an unused branch or a rarely used table entry.",
 ["src/tools/cl2c.cpp", "src/tools/gen_crc32table.c", "src/common/crc32table.h"],
 [("escaping loop", "src/tools/cl2c.cpp"), ("crc32init_be", "src/tools/gen_crc32table.c")],
 ["compiled string versus file bytes", "generated table versus shipped table versus definition"])

prop("L06", "OpenCL in-place decompression",
 "With INPLACE_COMPRESSED_CHUNKS, chunks without the marker and chunks marked as skipped are left exactly as they are and reported with the chunk size; marked chunks are replaced by their decompressed data, with nothing else in the buffer modified, whenever the output never gets ahead of the 6 words (48 bytes) of stream the decompressor holds; the documentation excludes other data, but for it too nothing outside of the chunk (or beyond the given limit) is accessed. Malformed streams and impossible sizes are reported per chunk. Buffers, sizes or offsets that are not the same for input and output are refused with an exception without touching anything.",
 ["inputs", "configurations"], "every chunk content, every number and order of chunks",
 "No existing test uses this layout: only whether a particular stream's output catches up with its input decides if it works.",
 [CLH, CLK],
 [("lookAheadBuffer", CLK), ("in-place branch of CLHostDecompressor::decompress and the check in CLDeviceDecompressor::decompress", CLH)],
 ["the buffer, sizes and return values after CLHostDecompressor::decompress and CLDeviceDecompressor::decompress", "the kernel source compiled for the host"])

prop("H01", "The cryptodev backend maps each request faithfully to the device",
 "Each hw842 compress/decompress call results in exactly one device request on the calling thread's own session that carries the right operation, buffers, strides, per-chunk lengths and capacities (skipped chunks marked), and returns the device's per-chunk results and lengths unchanged; misaligned buffers, sizes that do not fit the device's 32-bit fields and too many chunks are refused with -EINVAL without any request, and a failed request returns its negative errno. Buffers aligned as the implementation table announces are never refused as misaligned.",
 ["inputs", "fault_sequences"], "every chunk count, length, stride, capacity, alignment mask and device outcome",
 "This backend needs special hardware and a kernel module; no test here runs it.",
 ["src/cryptodev/842_interface.c"],
 [("c842_compress_chunked", "src/cryptodev/842_interface.c")],
 ["ioctl requests seen by a stand-in device"])

prop("H02", "The cryptodev backend keeps one clean session per thread",
 "Each thread that uses the hw842 functions gets its own device session, opened at first use and reused for all its later calls; when the thread ends the session is given back to the device and its descriptor closed, in this order and exactly once. If any step of opening the session fails, the call returns the negative errno, everything acquired so far is released, and a later call can succeed. The functions and the implementation table can be used from any number of threads at once.",
 ["schedules", "fault_sequences", "histories"], "every number of threads and calls, a failure injected at every device operation",
 "This backend needs special hardware and a kernel module; no test here runs it.",
 ["src/cryptodev/842_interface.c"],
 [("thread-specific context key", "src/cryptodev/842_interface.c"), ("c842_ctx_init unwinding", "src/cryptodev/842_interface.c")],
 ["open/ioctl/close events seen by a stand-in device"])

prop("A01", "The AIX backend passes every request and result on faithfully",
 "aix842_compress and aix842_decompress hand source, length, destination and capacity unchanged to the accelerator's compression or decompression, and return its result and its output length unchanged, for every size. The chunked functions do this for each chunk on its own slice (input stride, output stride), whatever happens to other chunks; skipped chunks (length SIZE_MAX) cause no request and no write; the return value is 0 if every chunk succeeded or had too little room (-ENOSPC), otherwise the first other result. The implementation table holds these functions.",
 ["inputs", "fault_sequences"], "every number of chunks, length, capacity, stride and device result",
 "This backend needs AIX; no test here compiles it.",
 ["src/aix/aix.c", "src/common/trivial_chunked.h"],
 [("aix842 functions", "src/aix/aix.c"), ("LIB842_DEFINE_TRIVIAL_CHUNKED_COMPRESS", "src/common/trivial_chunked.h")],
 ["requests seen by a stand-in accelerator"])

prop("G01", "The CUDA kernel decompresses every batch exactly and stays in its slots",
 "For every grid of threads and every batch of well-formed 842 streams (one per input slot of twice the chunk size, no short-data templates, at most one chunk of output each), cuda842_decompress writes to each chunk's output slot exactly the bytes the format defines and leaves the rest of the slot unchanged, whatever lies behind the streams and in the output before, and however the threads are interleaved. It accesses no device memory outside the two buffers, writes only to its own output slot, makes only naturally aligned accesses, and stops.",
 ["inputs", "schedules"], "every grid, batch of well-formed streams and interleaving of threads",
 "No test here runs it: there is no CUDA compiler or device.",
 ["src/cuda/842_decompress.cu", "src/cuda/842-internal.h", "src/common/842.h"], [("cuda842_decompress", "src/cuda/842_decompress.cu"), ("get_index and read_bits on the device", "src/cuda/842_decompress.cu")],
 ["device memory accesses of the interpreted kernel", "output buffer"])

prop("G02", "The HLS tokenizer splits every stream into its templates",
 "For every well-formed 842 stream (without short-data templates) handed to opcode_tokenizer in 16-byte bus words, the tokens written are exactly the stream's templates in order: each holds the 5-bit opcode and its parameters left-aligned in 69 bits with the rest zero, and only the final end token carries the last mark. A stream whose words end before its end template yields its complete tokens followed by an end token marked last. The tokenizer always stops, never waits for words after the last one, and never addresses bits outside its buffers; words after the end template do not change the tokens.",
 ["inputs"], "every well-formed stream, complete or cut at any bus word",
 "No test here runs it: the vendor HLS headers are not available.",
 ["src/hls/842_decomp.cpp"], [("opcode_tokenizer", "src/hls/842_decomp.cpp"), ("get_parameter_length", "src/hls/842_decomp.cpp")],
 ["tokens written to the output stream"])

prop("X01", "The sample programs report success only when the round trip is right",
 "Each sample program exits with 0 and prints its success message exactly when the data it was given (the file's, padded with zeros to whole chunks or blocks, or its own text) was compressed and decompressed to exactly the same bytes: for every readable file including an empty one, every number of threads and either placement policy. When the library reports an error, or returns wrong or too little data, or the file can not be read, the program exits with another code and does not print the message. What it prints as decompressed data is the data. (The in-place OpenCL program may fail for the data its documentation excludes.)",
 ["inputs", "fault_sequences"], "every file, every chunk that fails or comes out wrong",
 "The tests do not run these programs, and a run on a good file can not show that a failure would be noticed.",
 ["sample/compdecomp.c", "sample/compdecomp_streams.cpp", "sample/compdecomp_cl.cpp", "sample/compdecomp_driver.c"],
 [("compress_benchmark_core", "sample/compdecomp.c"), ("compdecomp, read_file", "sample/compdecomp_driver.c")],
 ["exit code, standard output and error of each program", "which library call was made to misbehave"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
