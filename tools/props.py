"""What each check runs: targets (executables built from /repo), number of cases per build and tier."""
import os
from vlib import Target, repo_sources, VERIF
import cl as _cl

def core_target(variant):
    return Target("core", ["core_worker.cpp"], repo_sources(["src/serial/", "src/serial_optimized/"]), variant)

def core(**per):
    """per: variant -> (quick cases, thorough cases[, procs])"""
    def plan(tier):
        out = []
        for v, spec in per.items():
            n = spec[0] if tier == "quick" else spec[1]
            if n: out.append(dict(variant=v, target=core_target(v), n=n, procs=spec[2] if len(spec) > 2 else None))
        return out
    return plan

WRAP = "pthread_mutex_lock pthread_mutex_unlock _ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE _ZNSt18condition_variable10notify_allEv _ZNSt18condition_variable10notify_oneEv".split()
def stream_target(variant):
    return Target("stream", ["stream_worker.cpp"], repo_sources(["src/serial/", "src/serial_optimized/", "src/stream/"]), variant,
                  config=["LIB842_HAVE_NUMA"], defs=["LIB842_HAVE_NUMA"], ldflags=["-lnuma"] + ["-Wl,--wrap=" + w for w in WRAP])
def stream(**per):
    def plan(tier):
        out = []
        for v, spec in per.items():
            n = spec[0] if tier == "quick" else spec[1]
            if n: out.append(dict(variant=v, target=stream_target(v), n=n, procs=spec[2] if len(spec) > 2 else None, replay_repeat=60, stall=120, cpu_stall=120))
        return out
    return plan

CHECKS = {}
def check(pid, plan, rule, technique, note, **kw):
    CHECKS[pid] = dict(plan=plan, rule=rule, technique=technique, note=note, **kw)

_inp = ("each case is a byte string from one of 14 generators (zeros, constants, random, dictionaries, text, periodic, template-directed groups, copies at "
        "ring-boundary distances, repeat runs at 63/64/65/128/..., sparse, mixtures), the first 560 walking every small length, one in 199 of 30 KB to 1.5 MB around powers of two, determined by (VERIF_SEED, property, index); ")
_str = ("each case is a bitstream from the stream generator (random token sequences with valid index arguments biased to newest/oldest/ring-wrap positions; one in 199 with up to 1 MB of output) "
        "determined by (VERIF_SEED, property, index); ")
_san = "ASan+UBSan and guard pages/canaries on every buffer"
NOTE = "Held on the executions of this run only (counts in the evidence file); trusts the reference model harness/ref842.h (written from the format, cross-checked encoder vs decoder) and the sanitizers. "

check("C01", core(release=(8000, 300000), plain=(40000, 1500000), asan=(6000, 200000)),
      _inp + "plus streams, capacities and lengths above 4 GiB; non-trivial: at least 16 bytes; distinct by (codec, compressed stream)",
      "round-trip oracle over generated inputs, product build and ASan+UBSan build",
      NOTE + "Inputs mostly up to 100 KB (quick) or 1 MB (thorough), one in 199 of 30 KB to 1.5 MB around powers of two, plus one above 4 GiB compressed by optsw842 and restored by both; thorough: also compressed by sw842, and one whose compressed form exceeds 4 GiB.")
check("C02", core(release=(12000, 300000), plain=(80000, 2000000), asan=(10000, 200000)),
      _inp + "non-trivial: more than one operation in the stream; distinct by (template sequence, length in bits, codec)",
      "independent bit-level reference decoder as online oracle on every compressed stream", NOTE)
check("C03", core(release=(30000, 1000000), plain=(150000, 5000000), asan=(40000, 1000000)),
      _str + "indices 0..1663 pair every template with every bit phase of the 64-bit word; trailing bytes and alignments are drawn too; non-trivial: at least one operation; distinct by (template sequence, end bit)",
      "reference model of the format as oracle over streams no compressor here would emit", NOTE)
check("C04", core(release=(20000, 600000), plain=(120000, 4000000), asan=(30000, 600000)),
      "each case is a hostile byte string (11 kinds: random, mutated, truncated, one injected malformation, spliced, ...), a sweep over every truncation point of a stream, a sweep of index arguments around the first invalid one, "
      "or a malformation whose CRC is what a lenient decoder would need; non-trivial: the reference model classifies it as malformed; distinct by bytes and class",
      "reference model classifies malformed streams; monitor of return value and length", NOTE + "Streams whose meaning the format leaves open (operations after short data) are not judged, except a repeat without 8 previous bytes.")
check("C05", core(plain=(8000, 200000), asan=(1200, 20000)),
      "each case is one stream (from the generator or from sw842_compress) presented with each CRC bit flipped, nine CRC substitutions, up to 400 data-bit flips, bursts, and token-level literal/repeat changes under the old CRC; "
      "non-trivial: the corrupted stream parses up to its CRC and mismatches (so only the CRC compare can reject it); distinct by bytes",
      "fault injection on streams; bitwise reference CRC-32 over the actual output as oracle", NOTE)
check("C06", core(release=(30000, 1000000), plain=(150000, 5000000), asan=(40000, 1000000), msan=(20000, 400000)),
      "each case is a hostile or valid stream decoded by both decoders under four capacities (exact, short by 1..8, random, tiny) with buffers flush against inaccessible pages; non-trivial: at least 2 bytes; distinct by (template sequence parsed, stop reason, length)",
      "ASan, UBSan, MSan (output buffer poisoned) and guard pages under a hostile-stream generator", NOTE)
check("C07", core(release=(3000, 80000), plain=(16000, 400000), asan=(8000, 200000)),
      _inp + "each compressed under ample, random, half and tiny capacities and 1..9 bytes below the exact need, any alignment; non-trivial: non-empty; distinct by content",
      "ASan, UBSan, guard pages and canaries around compress under capacity cuts", NOTE)
check("C08", core(release=(2000, 50000), plain=(12000, 300000), asan=(2000, 40000)),
      "each case sweeps one call over every capacity from 0 to need+17 (all of them when need <= 260, else the last 24 plus samples) and one much larger; non-trivial: at least one group; distinct by stream",
      "exhaustive capacity sweep around the exact need with an exactness oracle", NOTE)
check("C09", core(release=(8000, 200000), plain=(50000, 1200000), asan=(10000, 160000)),
      "each case is one chunked call (0..60 chunks; skipped, failing, short-capacity and good ones mixed; strides and alignments drawn; through the function or the implementation table) compared with single calls; cases 0..2 use strides so that chunks lie beyond 4 GiB; non-trivial: more than one chunk; distinct by input and mix",
      "differential oracle: chunked call against a sequence of single calls on identical memory", NOTE)
check("C10", core(plain=(50000, 1000000), msan=(12000, 200000)),
      "each case repeats one call 5 times with heap fill patterns (interposed malloc), stack fill, output prefill, surroundings, placement and history (other calls, failing ones) varied; non-trivial: input over 8 bytes; distinct by input, codec and direction",
      "metamorphic repetition under perturbed memory, and MemorySanitizer", NOTE)
check("C11", core(plain=(1500, 40000, 3), tsan=(400, 9000, 4)),
      "each case runs 2..8 threads x 40 calls (all entry points, getters, shared inputs, alignments) and compares each with its single-threaded result; every third instead makes the first calls of a fresh process from several threads at once; non-trivial: calls actually overlapped; distinct by set of inputs",
      "ThreadSanitizer and result comparison under concurrent calls", NOTE + "Interleavings are those the scheduler produced.", stall=120)
check("C12", core(plain=(20000, 400000)),
      "each case makes one call at every capacity up to the need (success, no space at every point, malformed, truncated, unsupported length), counting live allocations before and after through an interposed allocator, and open descriptors; non-trivial: non-empty input; distinct by input, codec, entry point",
      "allocation ledger (interposed malloc/free) balanced across every call", NOTE)
check("C13", core(plain=(40000, 300000)),
      _inp + "every 16th case aggregates 16 x 32 KiB of one kind for optsw842's ratio, another 16th makes groups whose cheapest template is known and looks which was used; non-trivial: more than two groups; distinct by content",
      "cost model of the greedy encoding over the exact ring contents as oracle", NOTE + "The optsw842 loss limit (6%, 20% on periodic data) is calibrated on the unchanged tree (worst seen 4.6% / 9.7%).")

OOMWRAP = "malloc calloc realloc free aligned_alloc memalign posix_memalign _Znwm _Znam _ZnwmRKSt9nothrow_t _ZnamRKSt9nothrow_t _ZdlPv _ZdaPv _ZdlPvm _ZdaPvm".split()
def oom(**per):
    def plan(tier):
        return [dict(variant=v, target=Target("oom", ["oom_worker.cpp"], repo_sources(["src/serial/", "src/serial_optimized/"]), v, ldflags=["-Wl,--wrap=" + w for w in OOMWRAP]),
                     n=s[0] if tier == "quick" else s[1], procs=s[2]) for v, s in per.items()]
    return plan
check("C14", oom(plain=(20000, 800000, 4), asan=(5000, 150000, 3), release=(4000, 100000, 1)),
      "each case is one call (or one batch of 1..4 chunks) repeated with chosen allocations refused: every one if there are at most 40, else the first 14, the last, three of each size and 12 others, alone or with all later ones; non-trivial: the call allocates; distinct by input, codec and entry point",
      "allocation failure injection (link-time wrapped allocator) with a ledger and a comparison with the undisturbed call", NOTE)

_sch = ("each case is a history of operations on one stream (threads 1..8, blocks, sizes, delays, failures, cancellation, reuse) determined by (VERIF_SEED, property, index), run with delays and spurious wakeups injected "
        "into the stream's mutex and condition variable calls; distinct by the observed global order of synchronisation operations (interleaving); non-trivial: more than one block or thread; ")
_SN = NOTE + "Interleavings are those produced by the scheduler and the injected delays (number of distinct ones in the evidence). Uses a stand-in codec for most cases and sw842/optsw842 for the rest. "
check("S01", stream(release=(200, 16000, 1), trace=(150, 8000, 1), plain=(2000, 90000, 5), asan=(300, 12000, 2)), _sch, "exactly-once and content oracle over recorded block events, with injected delays", _SN)
check("S02", stream(release=(900, 40000), plain=(6000, 250000)), _sch, "ordering oracle over the recorded entry and exit of block callbacks, deadlock watchdog", _SN)
check("S03", stream(release=(800, 30000), trace=(400, 15000), plain=(5000, 200000, 5), asan=(600, 20000, 3)), _sch, "oracle over recorded start, block and finalize events; retired sources made inaccessible; deadlock watchdog", _SN)
check("S04", stream(release=(1500, 40000), plain=(9000, 250000, 5), asan=(1200, 30000, 3)), _sch, "fault injection in a stand-in implementation with an oracle over block, finalize and log events", _SN)
check("S05", stream(release=(300, 16000, 1), trace=(200, 8000, 1), plain=(2400, 100000, 5), asan=(450, 16000, 2)), _sch, "oracle over the destination memory and push/finalize results", _SN)
check("S06", stream(release=(400, 16000, 1), trace=(200, 8000, 1), plain=(3400, 100000, 5), asan=(650, 16000, 2)), _sch, "fault injection (corrupt chunks, failing implementation) with an oracle over push/finalize results and process survival", _SN)
check("S07", stream(trace=(800, 25000), plain=(12000, 400000, 5), asan=(2000, 50000, 3)), _sch, "destruction at chosen points with callback, thread and allocation ledgers and a deadlock watchdog", _SN)
check("S08", stream(tsan=(2500, 80000), tsantrace=(400, 20000)), _sch, "ThreadSanitizer under perturbed schedules (harness adds no synchronisation)", _SN)
check("S09", stream(plain=(30000, 1000000, 5), tsan=(8000, 250000, 3)), _sch, "arrival/departure oracle, ThreadSanitizer, deadlock watchdog", _SN)
check("S10", stream(plain=(9000, 250000, 4), asan=(5000, 120000, 4)), _sch, "contract monitor inside a stand-in implementation; constructor refusal oracle", _SN)

def numa_target(variant):
    return Target("numa", ["numa_worker.cpp"], repo_sources(["src/serial/", "src/serial_optimized/", "src/stream/"]), variant, config=["LIB842_HAVE_NUMA"], defs=["LIB842_HAVE_NUMA"] + (["VERIF_TSAN"] if variant == "tsan" else []),
                  ldflags=["-lnuma"] + ["-Wl,--wrap=" + w for w in ("pthread_setaffinity_np", "get_nprocs", "get_nprocs_conf", "sysconf") if w != "sysconf" or variant == "plain"])
def numa(**per):
    return lambda tier: [dict(variant=v, target=numa_target(v), n=sp[0] if tier == "quick" else sp[1], procs=sp[2], stall=120, cpu_stall=120) for v, sp in per.items()]
check("S11", numa(plain=(6000, 150000, 5), tsan=(600, 15000, 3)), "each case is one process on one made-up machine (1..16 nodes with gaps in their numbers, SMT and offline CPUs, CPUs of a node consecutive, interleaved or shuffled, nodes without CPUs, nodes not allowed, no NUMA) "
      "that builds up to 3 streams of 1..24 threads, one after another or at the same time, with failures to bind injected in 12 %; determined by (VERIF_SEED, property, index); non-trivial and distinct by the machine's layout",
      "monitor of the calls that bind threads, on simulated topologies", NOTE + "The topology functions of libnuma and pthread_setaffinity_np are stand-ins; the kernel's reaction to an affinity mask without CPUs (EINVAL) is imitated.")

def ocl(**per):
    def plan(tier):
        out = []
        for v, spec in per.items():
            n = spec[0] if tier == "quick" else spec[1]
            if n: out.append(dict(variant=v, target=_cl.worker_target(v), n=n, procs=spec[2] if len(spec) > 2 else None, stall=120, cpu_stall=90, env={"POCL_MAX_PTHREAD_COUNT": "2"}))
        return out
    return plan
_ocl = ("each case is one batch of chunks (streams of the generator or of the compressors, hostile ones where said, sizes and limits given or not, shuffle map or not, offsets) run in turn through CLHostDecompressor on pocl, "
        "through CLDeviceDecompressor on guarded host memory, and work item by work item through the kernel compiled natively from the source and options the library passes to the OpenCL compiler; determined by (VERIF_SEED, property, index); "
        "non-trivial: a chunk with over 8 compressed bytes; distinct by (templates, content) of the chunk; ")
_ON = NOTE + "One OpenCL implementation (pocl, CPU). The native kernel runs work items one after another; the kernel has no communication between them. "
check("L01", ocl(plain=(2500, 100000, 4), asan=(2500, 80000, 4)), _ocl, "reference model as oracle over host, device and native kernel executions", _ON + "CRC mismatches are documented as not detected by the kernel.")
check("L02", ocl(plain=(2500, 100000, 4), asan=(2500, 80000, 4)), _ocl, "reference model as oracle over host, device and native kernel executions", _ON)
check("L03", ocl(plain=(1500, 60000, 3), asan=(8000, 300000, 4), msan=(4000, 150000, 1)), _ocl, "ASan, UBSan and MSan on the natively compiled kernel with everything but the chunk's own bytes poisoned; guard pages under pocl; reference model classifies what must be rejected", _ON)
check("L04", ocl(plain=(320, 8000, 4), asan=(160, 4000, 4)), "each case puts the program cache in one of 16 kinds of state (valid, for other parameters, truncated, corrupt header, corrupt lengths, foreign program, unreadable, not creatable, disk full, directory, ...) through interposed open calls, then builds decompressors and decompresses; "
      "non-trivial: every case; distinct by state and parameters", "fault injection into the cache file with a result oracle", _ON + "A damaged program body behind an intact header is outside the property except in its first bytes: the library has no checksum and the OpenCL implementation trusts it.")
check("L05", ocl(plain=(2500, 80000, 4), asan=(1200, 40000, 4)), "each case is one call of cl842_decompress (streams up to 700 KB, hostile ones, any capacity and alignment, every 20th from 2..5 threads at once); non-trivial: over 8 bytes; distinct by (templates, length, capacity)",
      "reference model as oracle, guard pages and canaries around every argument", _ON + "CRC mismatches are documented as not detected by the kernel.")
check("L06", ocl(plain=(4000, 120000, 4), asan=(4000, 120000, 4)), _ocl + "here everything in one buffer; ", "reference model with a lookahead simulation as oracle over host, device and native kernel executions", _ON + "CRC mismatches are documented as not detected by the kernel. Data whose output overtakes the 6 words of lookahead is documented not to work: for it, only memory accesses are judged.")

HWWRAP = "open open64 openat access fcntl fcntl64 close ioctl malloc calloc free tss_create tss_set tss_get call_once pthread_key_create pthread_setspecific".split()
def hw_target(variant, info):
    return Target("hw" if info else "hwni", ["hw_worker.cpp"], repo_sources(["src/cryptodev/"]), variant, config=["LIB842_HAVE_CRYPTODEV_LINUX_COMP"],
                  defs=[] if info else ["VERIF_NO_SESSINFO"], incs=[os.path.join(VERIF, "harness/fakecrypto")], ldflags=["-Wl,--wrap=" + w for w in HWWRAP if not (variant != "plain" and w.startswith("pthread_"))])
def hw(*specs):
    """specs: (variant, with CIOCGSESSINFO?, quick, thorough, procs)"""
    def plan(tier):
        return [dict(variant=v, target=hw_target(v, i), n=q if tier == "quick" else t, procs=p, replay_repeat=20, stall=120, cpu_stall=120) for v, i, q, t, p in specs]
    return plan
_hwr = ("each case is a device (alignment mask drawn), 1..6 threads and up to 12 calls each of the four functions, with chunk counts, strides, lengths, capacities and addresses around every 32-bit and alignment limit and a failure injected into some operations; "
        "every 25th (H01) or 6th (H02) case runs in a process that never used the backend; non-trivial: every call; distinct by (chunk count, strides, first length and capacity, injected failure, operation, low address bits); ")
_HN = NOTE + "The device, its header and its system calls are stand-ins written from the backend's use of them; the real driver is not available. Linux, C11 threads. "
check("H01", hw(("plain", True, 40000, 1000000, 3), ("plain", False, 12000, 300000, 2), ("asan", True, 16000, 300000, 3)), _hwr, "stand-in device comparing every request and result with the call", _HN)
check("H02", hw(("plain", True, 24000, 600000, 3), ("plain", False, 8000, 160000, 2), ("tsan", True, 6000, 120000, 3)), _hwr, "stand-in device as online monitor of sessions per thread, fault injection at every step, ThreadSanitizer", _HN)

def aix(*specs):
    def plan(tier):
        return [dict(variant=v, target=Target("aix", ["aix_worker.cpp"], ["src/aix/aix.c"], v, config=["LIB842_HAVE_AIX_HWCOMPRESSION"], incs=[os.path.join(VERIF, "harness/fakeaix")]),
                     n=q if tier == "quick" else t, procs=p) for v, q, t, p in specs]
    return plan
check("A01", aix(("plain", 60000, 2000000, 4), ("asan", 30000, 500000, 3), ("tsan", 6000, 100000, 1)),
      "each case is up to 4 calls (in up to 4 threads) of the four functions, directly or through the table, with 0..70 chunks, skipped chunks, lengths and capacities around every 32-bit limit and any device result; non-trivial: every call; distinct by workload",
      "stand-in accelerator comparing every request and result with the call", NOTE + "The accelerator and its header are stand-ins; AIX is not available.")

def hls(*specs):
    def plan(tier):
        return [dict(variant=v, target=Target("hls", ["hls_worker.cpp"], [], v, incs=[os.path.join(VERIF, "harness/fakehls")]),
                     n=q if tier == "quick" else t, procs=p) for v, q, t, p in specs]
    return plan
check("G02", hls(("plain", 60000, 1500000, 4), ("asan", 8000, 200000, 3), ("msan", 3000, 60000, 1)),
      "each case is a bitstream from the stream generator (without short-data templates), in 16-byte bus words, complete, with more words after its end, or cut at a word; non-trivial: more than one token; distinct by (template sequence, length)",
      "independent bit-level reference decoder as oracle for every token, range and queue monitors in the stand-in types, MSan for values never set", NOTE + "The vendor's headers are stand-ins; only the tokenizer exists in the product. Streams without short-data templates and with templates the format defines.")

import cuda as _cuda
def gpu(*specs):
    def plan(tier):
        return [dict(variant=v, target=_cuda.target(v), n=q if tier == "quick" else t, procs=p) for v, q, t, p in specs]
    return plan
check("G01", gpu(("plain", 16000, 600000, 7), ("asan", 500, 15000, 1)),
      "each case is a grid of 1..160 chunks (streams from the stream generator or from sw842, up to 1024 bytes each, garbage behind them and in the output) whose threads run in random slices; non-trivial: every case; distinct by template sequences",
      "the kernel's PTX (clang -O1 and -O2) interpreted with a monitor on every device memory access, outputs compared with the reference", NOTE + "PTX from clang instead of nvcc, semantics of the interpreter harness/ptx.h instead of a GPU; only the strict mode that the header defines.")

import t01 as _t01
check("T01", None, "each case is one text (17 kinds: printable, quotes, backslashes, newlines, CR LF, control characters, every single byte, random bytes, escapes, code, long lines, empty, odd endings, UTF-8 and invalid UTF-8, trigraphs, mixtures, up to 200 KB) embedded by cl2c, compiled (gcc, clang) and loaded; "
      "plus every entry of the generated and of the shipped CRC tables for both byte orders, tools run with unreadable input or unwritable output, and the program captured from the library; non-trivial: non-empty text; distinct by text or table entry",
      "byte comparison of the compiled string with the text, CRC tables against their bitwise definition, ASan+UBSan in the tools", NOTE + "Texts without NUL bytes.", run=_t01.run)

import x01 as _x01
check("X01", None, "each case is one run of one sample program (as the build makes them: OpenMP, streams, three OpenCL layouts) on one file (empty, around the chunk and block sizes, up to 3 MB, 8 kinds of content), without a file, or on something unreadable; "
      "in half of the runs the library between them misbehaves once (a flipped bit, lost data, an error); determined by (VERIF_SEED, property, index); non-trivial and distinct by program, misbehaviour and content",
      "result oracle over program runs with fault injection at the library's interface, ASan+UBSan", NOTE + "The in-place program may fail where the layout is documented not to work.", run=_x01.run)

NOT_APPLICABLE = {}
PENDING = "Machinery for this property is under construction."
