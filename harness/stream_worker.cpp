// Checks of the compression and decompression streams (S01..S10).
#include "main.h"
#include "schedmon.h"
#include <lib842/stream/comp.h>
#include <lib842/stream/decomp.h>
#include <lib842/sw.h>
#include <lib842/detail/barrier.h>
#include <lib842/detail/latch.h>
#include <ostream>
#include <streambuf>
#include <memory>
#include <thread>

using namespace lib842::stream;
#if defined(H_ASAN) || defined(H_TSAN)
#define H_SLOW 1
#else
#define H_SLOW 0
#endif
typedef std::atomic<uint32_t> au32;
typedef std::atomic<uint64_t> au64;
using sched::await; using sched::Arm;

// ------------------------------------------------------------------ reporting by property
enum { T1 = 1, T2 = 2, T3 = 4, T4 = 8, T5 = 16, T6 = 32, T7 = 64, T8 = 128, T9 = 256, T10 = 512 };
static unsigned propTag;
#define BAD(tags, key, ...) do { if ((tags) & propTag) fail(key, __VA_ARGS__); else stat("observations belonging to other properties"); } while (0)

// ------------------------------------------------------------------ event numbering
static au64 gSeq{1};
static inline uint64_t seq() { sched::tick(); return gSeq.fetch_add(1, RLX); }

// ------------------------------------------------------------------ error logger
static au32 logLines{0}, logCalls{0};
struct LogBuf : std::streambuf {
	int overflow(int c) override { if (c == '\n') logLines.fetch_add(1, RLX); return c; }
	std::streamsize xsputn(const char *s, std::streamsize n) override { for (std::streamsize i = 0; i < n; i++) if (s[i] == '\n') logLines.fetch_add(1, RLX); return n; }
};
struct LogStream { LogBuf b; std::ostream o; LogStream() : o(&b) {} };
static std::ostream &logger() { static thread_local LogStream l; logCalls.fetch_add(1, RLX); return l.o; }
struct DropBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char *, std::streamsize n) override { return n; } };
struct DropStream { DropBuf b; std::ostream o; DropStream() : o(&b) {} };
static std::ostream &dbgLogger() { static thread_local DropStream l; return l.o; }

// ------------------------------------------------------------------ stand-in codec
// A chunk carries its own orders for the stand-in codec: what size it "compresses" to, whether coding it fails and how long it takes.
struct Hdr {
	uint64_t magic, nonce;
	uint32_t chunk;      // number of the chunk in the operation
	uint32_t osize;      // compressed size; > CHUNK_SIZE: no space
	int32_t cerr, derr;  // error of compression / of decompression (1: short output, 2: ENOSPC in rets only)
	uint32_t delay;      // microseconds spent coding
	uint32_t sum;
};
static const uint64_t HMAGIC = 0x842C0DEC842C0DECull;
static uint32_t hsum(const Hdr &h) { return (uint32_t)fnv(&h, offsetof(Hdr, sum)); }
static uint8_t zeroChunk[CHUNK_SIZE];

struct Mon { // what the stand-in codec watches
	au64 calls{0}, chunks{0}, failures{0}, lastCallSeq{0};
	au64 active{0}, maxActive{0};
	size_t preferred = 1, required = 1;
	// memory the stream may be given (the operations' buffers)
	const uint8_t *lo[8] = {}, *hi[8] = {}; unsigned nregions = 0;
} ;
static Mon mon;
static void monReset() { mon.calls.store(0, RLX); mon.chunks.store(0, RLX); mon.failures.store(0, RLX); mon.active.store(0, RLX); mon.maxActive.store(0, RLX); mon.nregions = 0; }

static bool in_region(const uint8_t *p, size_t n) { for (unsigned i = 0; i < mon.nregions; i++) if (p >= mon.lo[i] && p + n <= mon.hi[i]) return true; return false; }

static void work(uint32_t us) { if (!us) return; if (us < 30) { for (volatile unsigned k = 0; k < us * 300; k++) ; } else { struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; nanosleep(&ts, nullptr); } }

static int fake_compress(const uint8_t *in, size_t ilen, uint8_t *out, size_t *olen)
{
	if (ilen != CHUNK_SIZE) { BAD(T10 | T1, "implementation called with a wrong length", "compress ilen %zu", ilen); return -EINVAL; }
	if (mon.nregions && !in_region(in, ilen)) { BAD(T10 | T1, "implementation called with input outside the source", "compress"); return -EINVAL; }
	if ((uintptr_t)out % mon.required) BAD(T10, "chunk buffer violates the required alignment", "out %p required %zu", (void *)out, mon.required);
	if (mon.nregions && in_region(out, 1)) BAD(T10, "output overlaps the source", "compress");
	Hdr h; memcpy(&h, in, sizeof h);
	if (h.magic != HMAGIC || h.sum != hsum(h)) { BAD(T10 | T1, "implementation called with wrong data", "compress: no chunk starts at the input pointer"); return -EINVAL; }
	size_t cap = *olen;
	if (cap) { out[0] = 1; out[cap - 1] = 2; } // the whole capacity must be usable
	work(h.delay);
	if (h.cerr) { mon.failures.fetch_add(1, RLX); *olen = 0; return h.cerr; }
	if (h.osize > cap || h.osize < sizeof h) { *olen = 0; return -ENOSPC; }
	memcpy(out, &h, sizeof h);
	out[h.osize - 1] = (uint8_t)h.sum;
	*olen = h.osize;
	return 0;
}
static int fake_decompress(const uint8_t *in, size_t ilen, uint8_t *out, size_t *olen)
{
	if (ilen < sizeof(Hdr) || ilen > COMPRESSIBLE_THRESHOLD) { BAD(T10 | T5, "implementation called with a wrong length", "decompress ilen %zu", ilen); return -EINVAL; }
	if (*olen != CHUNK_SIZE) BAD(T10, "implementation called with a wrong capacity", "decompress olen %zu", *olen);
	if (mon.nregions && !in_region(out, CHUNK_SIZE)) { BAD(T10 | T5, "implementation called with output outside the destination", "decompress"); return -EINVAL; }
	Hdr h; memcpy(&h, in, sizeof h);
	if (h.magic != HMAGIC || h.sum != hsum(h) || h.osize != ilen || in[ilen - 1] != (uint8_t)h.sum) { BAD(T10 | T5, "implementation called with wrong data", "decompress: chunk is not at the input pointer"); return -EINVAL; }
	work(h.delay);
	if (h.derr) mon.failures.fetch_add(1, RLX);
	if (h.derr == 2) { *olen = 0; return -ENOSPC; }
	if (h.derr < 0) { *olen = 0; return h.derr; }
	memcpy(out, &h, sizeof h);
	size_t n = h.derr == 1 ? CHUNK_SIZE - 8 : CHUNK_SIZE;
	memset(out + sizeof h, 0, n - sizeof h);
	*olen = n;
	return 0;
}
static int fake_chunked(bool comp, size_t num, int *rets, const uint8_t *in, size_t istride, const size_t *ilens, uint8_t *out, size_t ostride, size_t *olens)
{
	mon.calls.fetch_add(1, RLX);
	mon.lastCallSeq.store(seq(), RLX);
	uint64_t a = mon.active.fetch_add(1, RLX) + 1;
	if (a > mon.maxActive.load(RLX)) mon.maxActive.store(a, RLX);
	int ret = 0;
	if (comp && num && (uintptr_t)out % mon.preferred) BAD(T10, "chunk buffer violates the preferred alignment", "out %p preferred %zu", (void *)out, mon.preferred);
	for (size_t i = 0; i < num; i++) {
		if (ilens[i] == SIZE_MAX) { if (comp) BAD(T10 | T1, "chunk skipped in compression", "chunk %zu", i); continue; }
		mon.chunks.fetch_add(1, RLX);
		if (comp && olens[i] > ostride) BAD(T10, "capacity exceeds the stride", "%zu > %zu", olens[i], ostride);
		if (!comp && ilens[i] > istride && num > 1) BAD(T10, "length exceeds the stride", "%zu > %zu", ilens[i], istride);
		rets[i] = (comp ? fake_compress : fake_decompress)(in + i * istride, ilens[i], out + i * ostride, &olens[i]);
		if (ret == 0 && rets[i] != 0 && rets[i] != -ENOSPC) ret = rets[i];
	}
	mon.active.fetch_sub(1, RLX);
	sched::tick();
	return ret;
}
static int fake_compress_chunked(size_t n, int *r, const uint8_t *in, size_t is, const size_t *il, uint8_t *out, size_t os, size_t *ol) { return fake_chunked(true, n, r, in, is, il, out, os, ol); }
static int fake_decompress_chunked(size_t n, int *r, const uint8_t *in, size_t is, const size_t *il, uint8_t *out, size_t os, size_t *ol) { return fake_chunked(false, n, r, in, is, il, out, os, ol); }
static lib842_implementation fakeImpl = { fake_compress, fake_decompress, fake_compress_chunked, fake_decompress_chunked, 1, 1 };

// ------------------------------------------------------------------ memory for the operations
struct Region {
	uint8_t *map = nullptr; size_t len = 0;
	void need(size_t n) { // usable, zeroed
		n = (n + 4095) / 4096 * 4096;
		if (n > len) {
			if (map) munmap(map, len);
			len = n;
			map = (uint8_t *)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (map == MAP_FAILED) _exit(98);
			return;
		}
		mprotect(map, len, PROT_READ | PROT_WRITE);
		madvise(map, len, MADV_DONTNEED);
	}
	void lock() { if (map) mprotect(map, len, PROT_NONE); }
};
enum { MAXOPS = 6 };
static Region regs[MAXOPS], regs2[MAXOPS];

static unsigned osizeGen(Rng &r)
{
	switch (r.below(8)) {
	case 0: return (unsigned)CHUNK_SIZE + 1;                                     // no space
	case 1: return (unsigned)r.range(COMPRESSIBLE_THRESHOLD + 1, CHUNK_SIZE);    // fits, but above the threshold
	case 2: return (unsigned)COMPRESSIBLE_THRESHOLD;                             // exactly at it
	case 3: return (unsigned)COMPRESSIBLE_THRESHOLD + 1;
	case 4: return (unsigned)r.range(sizeof(Hdr) + 1, 512);
	default: return (unsigned)r.range(sizeof(Hdr) + 1, COMPRESSIBLE_THRESHOLD);
	}
}
static Hdr mkHdr(Rng &r, uint64_t nonce, uint32_t chunk, uint32_t osize, uint32_t delay)
{
	Hdr h; memset(&h, 0, sizeof h);
	h.magic = HMAGIC; h.nonce = nonce; h.chunk = chunk; h.osize = osize; h.delay = delay; h.sum = hsum(h);
	(void)r;
	return h;
}

// ------------------------------------------------------------------ compression
struct CompOp {
	// plan
	size_t blocks = 0, tail = 0; bool real = false; int mixKind = 0;
	bool cancel = false, startInCb = false; int finWhen = 0; // 0 at once, 1 after some us, 2 after n callbacks, 3 when all were delivered
	uint64_t finArg = 0; uint32_t delay = 0, cbDelay = 0; std::vector<uint32_t> failBlocks; unsigned keepPct = 0; int failErr = -5;
	uint64_t noBuffers0 = 0; unsigned noBuffer = 0; // the allocation of this block's buffer fails
	size_t epoch = ~(size_t)0; // other than the case's
	// memory
	const uint8_t *src = nullptr; uint64_t nonce = 0;
	// log
	std::unique_ptr<au32[]> count; std::unique_ptr<au64[]> in, out; std::unique_ptr<Block[]> kept; std::unique_ptr<au32[]> keptFlag;
	au32 delivered{0}, markers{0}, started{0}, strange{0}, cbActive{0};
	au32 finCalls{0}, finArgSeen{0}, done{0}, cbRunning{0};
	au64 finSeq{0}, lastOut{0}, firstIn{~0ull}, failuresEnd{0}, callsAtMarker{0}, callsEnd{0}; au32 linesEnd{0}; uint64_t failures0 = 0, finReturnCalls = 0, startSeq = 0; au32 lines0{0};
};
struct CompCase {
	unsigned threads = 1; thread_policy pol = thread_policy::use_defaults; size_t epoch = 0; const lib842_implementation *impl = &fakeImpl;
	unsigned nops = 0; CompOp ops[MAXOPS];
	DataCompressionStream *s = nullptr; uint64_t seed = 0;
};

static bool chunkOk(const CompOp &o, const Block &b, size_t i, const uint8_t *srcChunk, const char **why)
{
	const uint8_t *p = b.get_chunk(i);
	if (b.sizes[i] == CHUNK_SIZE) {
		if (!p) { *why = "uncompressed chunk has no data"; return false; }
		if (memcmp(p, srcChunk, CHUNK_SIZE)) { *why = "uncompressed chunk differs from the source"; return false; }
		return true;
	}
	if (b.sizes[i] == 0 || b.sizes[i] > COMPRESSIBLE_THRESHOLD) { *why = "chunk size above the threshold, or zero"; return false; }
	if (!p) { *why = "compressed chunk has no data"; return false; }
	if (!o.real) {
		Hdr h, s; memcpy(&s, srcChunk, sizeof s);
		if (b.sizes[i] != s.osize) { *why = "compressed chunk has the wrong size"; return false; }
		memcpy(&h, p, sizeof h);
		if (memcmp(&h, &s, sizeof h) || p[b.sizes[i] - 1] != (uint8_t)s.sum) { *why = "compressed chunk has wrong data"; return false; }
		return true;
	}
	std::vector<uint8_t> d(CHUNK_SIZE);
	size_t ol = CHUNK_SIZE;
	if (sw842_decompress(p, b.sizes[i], d.data(), &ol) || ol != CHUNK_SIZE || memcmp(d.data(), srcChunk, CHUNK_SIZE)) { *why = "compressed chunk does not decompress to the source"; return false; }
	return true;
}
static void blockOk(const CompOp &o, const Block &b, const char *when)
{
	const char *why = "";
	for (size_t i = 0; i < NUM_CHUNKS_PER_BLOCK; i++)
		if (!chunkOk(o, b, i, o.src + b.offset + i * CHUNK_SIZE, &why)) {
			BAD(T1 | T4, "delivered chunk is wrong", "%s (%s): block at %zu chunk %zu size %zu", why, when, b.offset, i, b.sizes[i]);
			return;
		}
}
static void onBlock(CompOp &o, Block &&b)
{
	uint64_t s = seq();
	sched::tlOff = true;
	o.cbActive.fetch_add(1, RLX);
	o.started.fetch_add(1, RLX);
	if (b.offset == SIZE_MAX) {
		if (o.markers.fetch_add(1, RLX) == 0) o.callsAtMarker.store(mon.calls.load(RLX), RLX);
		if (b.get_chunk_buffer()) BAD(T4, "error marker carries a buffer", "x");
	} else if (b.offset % BLOCK_SIZE || b.offset / BLOCK_SIZE >= o.blocks) {
		o.strange.fetch_add(1, RLX);
		BAD(T1, "block delivered that is not a whole block of the source", "offset %zu of %zu blocks", b.offset, o.blocks);
	} else {
		size_t n = b.offset / BLOCK_SIZE;
		uint32_t before = o.count[n].fetch_add(1, RLX);
		o.in[n].store(s, RLX);
		if (b.source != o.src + b.offset) BAD(T1, "block has the wrong source pointer", "offset %zu", b.offset);
		for (uint32_t f : o.failBlocks) if (f == n) { BAD(T4, "failing block delivered as valid data", "offset %zu", b.offset); }
		blockOk(o, b, "in callback");
		o.delivered.fetch_add(1, RLX);
		work(o.cbDelay);
		if (before == 0 && mix(o.nonce, n) % 100 < o.keepPct) {
			o.kept[n] = std::move(b);
			o.keptFlag[n].store(1, RLX);
		}
		o.out[n].store(seq(), RLX);
	}
	o.cbActive.fetch_sub(1, RLX);
	o.lastOut.store(seq(), RLX);
	sched::tlOff = false;
}

static au64 stat_noBuffer{0};
static void compStart(CompCase &c, unsigned k);
static void compFinalize(CompCase &c, unsigned k)
{
	CompOp &o = c.ops[k];
	CompCase *cp = &c;
	c.s->finalize(o.cancel, [cp, k](bool ok) {
		CompOp &o = cp->ops[k];
		sched::tlOff = true;
		o.cbRunning.store(1, RLX);
		o.finSeq.store(seq(), RLX);
#ifdef LEDGER
		if (o.noBuffer) {
			bigFail.store(0, RLX);
			if (bigFailed.load(RLX) != o.noBuffers0) { mon.failures.fetch_add(1, RLX); stat_noBuffer.fetch_add(1, RLX); }
		}
#endif
		o.failuresEnd.store(mon.failures.load(RLX), RLX); o.callsEnd.store(mon.calls.load(RLX), RLX); o.linesEnd.store(logLines.load(RLX), RLX);
		if (o.cbActive.load(RLX)) BAD(T3, "finalize callback runs while a block callback is running", "operation %u", k);
		o.finArgSeen.store(ok, RLX);
		o.finCalls.fetch_add(1, RLX);
		work(cp->seed % 3 ? 0 : 150);
		// blocks kept by the user are visible here without further synchronisation
		for (size_t n = 0; n < o.blocks; n++)
			if (o.keptFlag[n].load(RLX)) blockOk(o, o.kept[n], "in finalize callback");
		sched::tlOff = false;
		if (k + 1 < cp->nops && cp->ops[k + 1].startInCb) {
			compStart(*cp, k + 1);
			compFinalize(*cp, k + 1);
		}
		o.done.store(1, std::memory_order_release);
	});
	o.finReturnCalls = mon.calls.load(RLX);
}
static void compStart(CompCase &c, unsigned k)
{
	CompOp &o = c.ops[k];
	CompOp *op = &o;
	o.failures0 = mon.failures.load(RLX);
	o.lines0.store(logLines.load(RLX), RLX);
	o.startSeq = seq();
	c.s->start(o.src, o.blocks * BLOCK_SIZE + o.tail, [op](Block &&b) { onBlock(*op, std::move(b)); });
}
static void compPlan(CompOp &o, Rng &r, size_t maxBlocks, bool canReal)
{
	o.real = canReal;
	o.blocks = (size_t)(o.real ? r.range(r.chance(10) ? 0 : 1, H_SLOW ? 1 : 2) : r.chance(12) ? r.below(3) : r.chance(12) ? r.range(0, maxBlocks * 3) : r.range(1, maxBlocks));
	o.tail = r.chance(50) ? 0 : (size_t)r.below(BLOCK_SIZE);
	o.delay = r.chance(30) ? 0 : (uint32_t)r.below(r.chance(20) ? 120 : 25);
	o.cbDelay = r.chance(60) ? 0 : (uint32_t)r.below(r.chance(30) ? 1500 : 200);
	o.keepPct = r.chance(50) ? 0 : (unsigned)r.below(101);
	o.mixKind = (int)r.below(4);
	o.finWhen = (int)r.below(4);
	o.finArg = o.finWhen == 1 ? r.below(2000) : r.below(o.blocks + 1);
	o.nonce = r.next();
}
static void compPrepare(CompOp &o, Rng &r, Region &reg, unsigned align)
{
	size_t size = o.blocks * BLOCK_SIZE + o.tail;
	reg.need(size + 128);
	uint8_t *p = reg.map + align;
	o.src = p;
	if (o.real) {
		for (size_t i = 0; i < o.blocks * NUM_CHUNKS_PER_BLOCK; i++) {
			uint8_t *q = p + i * CHUNK_SIZE;
			if (r.chance(25)) { Bytes b = genInput(r, CHUNK_SIZE, true); if (!b.empty()) for (size_t k = 0; k < CHUNK_SIZE; k += b.size()) memcpy(q + k, b.data(), std::min(b.size(), CHUNK_SIZE - k)); }
			else if (r.chance(35)) { for (size_t k = 0; k < CHUNK_SIZE; k += 8) { uint64_t v = r.next(); memcpy(q + k, &v, 8); } }
			else { uint64_t a = r.next(); for (size_t k = 0; k < CHUNK_SIZE; k += 8) { uint64_t v = a + (r.chance(30) ? r.below(3) : 0); memcpy(q + k, &v, 8); } }
		}
	} else {
		for (size_t i = 0; i < o.blocks * NUM_CHUNKS_PER_BLOCK; i++) {
			unsigned os;
			switch (o.mixKind) {
			case 0: os = osizeGen(r); break;
			case 1: os = (unsigned)r.range(sizeof(Hdr) + 1, COMPRESSIBLE_THRESHOLD); break;
			case 2: os = (unsigned)CHUNK_SIZE + 1; break;
			default: os = r.chance(90) ? (unsigned)CHUNK_SIZE + 1 : osizeGen(r); break;
			}
			Hdr h = mkHdr(r, o.nonce, (uint32_t)i, os, i % NUM_CHUNKS_PER_BLOCK == 0 ? o.delay * 16 : r.chance(20) ? o.delay : 0);
			for (uint32_t f : o.failBlocks)
				if (f == i / NUM_CHUNKS_PER_BLOCK && i % NUM_CHUNKS_PER_BLOCK == (o.nonce + f) % NUM_CHUNKS_PER_BLOCK) h.cerr = o.failErr;
			h.sum = hsum(h);
			memcpy(p + i * CHUNK_SIZE, &h, sizeof h);
		}
	}
	if (o.tail) p[o.blocks * BLOCK_SIZE] = 0x11;
	o.count.reset(new au32[o.blocks + 1]()); o.in.reset(new au64[o.blocks + 1]()); o.out.reset(new au64[o.blocks + 1]());
	o.kept.reset(new Block[o.blocks + 1]); o.keptFlag.reset(new au32[o.blocks + 1]());
	if (mon.nregions < 8) { mon.lo[mon.nregions] = p; mon.hi[mon.nregions] = p + o.blocks * BLOCK_SIZE; mon.nregions++; }
}
// what must hold of an operation's log whether or not it was completed
static void compJudgeBlocks(CompCase &c, CompOp &o, unsigned k)
{
	uint64_t bad = 0;
	for (size_t n = 0; n < o.blocks; n++)
		if (o.count[n].load(RLX) > 1) bad = n + 1;
	if (bad) BAD(T1 | T3, "block delivered more than once", "operation %u block %llu", k, (unsigned long long)(bad - 1));
	size_t epoch = o.epoch == ~(size_t)0 ? c.epoch : o.epoch;
	if (epoch) {
		// every block at or beyond a multiple enters only after every block before it has been delivered
		uint64_t maxOut = 0; bool missing = false; size_t eb = epoch / BLOCK_SIZE; uint64_t prevMax = 0; bool prevMissing = false;
		uint64_t crossings = 0;
		for (size_t n = 0; n < o.blocks; n++) {
			if (n % eb == 0) { prevMax = maxOut; prevMissing = missing; if (n) crossings++; }
			bool del = o.count[n].load(RLX) != 0;
			if (del && n >= eb) {
				if (o.in[n].load(RLX) < prevMax)
					BAD(T2, "block delivered before an earlier epoch was complete", "operation %u block %zu, epoch %zu blocks, %u threads", k, n, eb, c.threads);
				else if (prevMissing && o.failBlocks.empty())
					BAD(T2, "block delivered although an earlier epoch is incomplete", "operation %u block %zu, epoch %zu blocks, %u threads", k, n, eb, c.threads);
			}
			if (del) maxOut = std::max(maxOut, o.out[n].load(RLX)); else missing = true;
		}
		stat("epoch boundaries", crossings);
	}
}
static void compJudge(CompCase &c, unsigned k)
{
	CompOp &o = c.ops[k];
	uint32_t fc = o.finCalls.load(RLX);
	if (fc != 1) BAD(T3 | T4, "finalize callback not called exactly once", "called %u times (operation %u)", fc, k);
	bool failed = o.failuresEnd.load(RLX) > o.failures0;
	bool arg = o.finArgSeen.load(RLX) != 0;
	if (failed && arg) BAD(T4, "failed operation reported as success", "operation %u, %u markers", k, o.markers.load(RLX));
	if (!failed && !arg) BAD(T3 | T4, "successful operation reported as failed", "operation %u", k);
	uint32_t lines = o.linesEnd.load(RLX) - o.lines0.load(RLX);
	{
		if (failed && lines != 1) BAD(T4, "error not logged exactly once", "%u lines logged", lines);
		if (!failed && lines) BAD(T4, "error logged although there was none", "%u lines logged", lines);
	}
	if (failed && !o.markers.load(RLX)) BAD(T4, "no error marker delivered", "operation %u", k);
	if (failed && o.markers.load(RLX) && !o.real && o.callsEnd.load(RLX) > o.callsAtMarker.load(RLX) + 2 * c.threads)
		BAD(T4, "new blocks started after the failure", "operation %u: %llu blocks were handed to the implementation after the error marker was delivered, %u threads", k, (unsigned long long)(o.callsEnd.load(RLX) - o.callsAtMarker.load(RLX)), c.threads);
	if (!failed && o.markers.load(RLX)) BAD(T1 | T4, "error marker delivered without an error", "operation %u", k);
	if (o.lastOut.load(RLX) > o.finSeq.load(RLX)) BAD(T3, "block callback after the finalize callback", "operation %u", k);
	if (!o.cancel && !failed) {
		for (size_t n = 0; n < o.blocks; n++)
			if (o.count[n].load(RLX) != 1) { BAD(T1 | T2, "block not delivered exactly once", "operation %u block %zu of %zu: %u times", k, n, o.blocks, o.count[n].load(RLX)); break; }
	}
	if (o.cancel && o.delivered.load(RLX) < o.blocks) stat("cancelled operations cut short");
	compJudgeBlocks(c, o, k);
	stat("blocks delivered", o.delivered.load(RLX)); stat("error markers", o.markers.load(RLX));
	stat(failed ? "failed operations" : "successful operations");
	if (o.cancel) stat("cancelled operations");
}
static void planCase(CompCase &c, Rng &r)
{
	static const unsigned th[] = {1, 2, 2, 3, 3, 4, 4, 5, 6, 8};
	c.threads = th[r.below(10)]; if (r.chance(1)) { c.threads = (unsigned)r.range(17, 40); stat("streams of many threads"); }
	c.pol = r.chance(15) ? thread_policy::spread_threads_among_numa_nodes : thread_policy::use_defaults;
	c.seed = r.next();
}
static void noise(Rng &r) { sched::begin(r.next(), r.chance(20) ? 0 : r.chance(50) ? (unsigned)r.range(2, 12) : (unsigned)r.range(12, 45)); }

static void setImplAlign(Rng &r)
{
	static const size_t al[] = {1, 1, 8, 16, 64, 128, 4096};
	fakeImpl.required_alignment = 1;
	fakeImpl.preferred_alignment = al[r.below(7)];
	mon.preferred = fakeImpl.preferred_alignment; mon.required = 1;
}
#ifdef LEDGER
static long big0;
static void ledgerStart() { big0 = liveBig.load(RLX); }
static void ledgerEnd(const char *what) { long d = liveBig.load(RLX) - big0; if (d > 0) BAD(T7 | T1 | T5, "block buffers leaked", "%ld buffers after %s", d, what); }
#else
static void ledgerStart() {}
static void ledgerEnd(const char *) {}
#endif

static void checkThreadsGone(unsigned before, const char *what)
{
	unsigned n = 0;
	for (int i = 0; i < 400; i++) { n = sched::countTasks(); if (n <= before) return; usleep(500); }
	BAD(T7 | T10, "threads left behind", "%u threads before, %u after %s", before, n, what);
}

// runs a complete sequence of compression operations
static void compRun(CompCase &c, Rng &r)
{
	for (unsigned k = 0; k < c.nops; k++) compPrepare(c.ops[k], r, regs[k], fakeImpl.required_alignment > 1 ? 0 : (unsigned)r.below(2) * (unsigned)r.below(64));
	unsigned tasks = sched::countTasks();
	noise(r);
	uint64_t trace = 0;
	{
		Arm a("destroying or constructing an idle compression stream");
		std::unique_ptr<DataCompressionStream> s(new DataCompressionStream(*c.impl, c.threads, c.pol, logger, dbgLogger));
		c.s = s.get();
		if (r.chance(50)) { Arm a2("in wait_until_ready"); s->wait_until_ready(); }
		if (c.epoch || r.chance(10)) s->set_offset_sync_epoch_multiple(c.epoch);
		size_t cur = c.epoch;
		for (unsigned k = 0; k < c.nops; k++) {
			CompOp &o = c.ops[k];
			if (!o.startInCb) {
				if (k && r.chance(25)) { // another epoch size for a later operation
					cur = r.chance(20) ? 0 : BLOCK_SIZE << (r.chance(10) ? r.range(8, 43) : r.below(6));
					s->set_offset_sync_epoch_multiple(cur);
					stat("epoch size changed between operations");
				}
				for (unsigned q = k; q < c.nops && (q == k || c.ops[q].startInCb); q++) c.ops[q].epoch = cur;
#ifdef LEDGER
				if (o.noBuffer) { o.noBuffers0 = bigFailed.load(RLX); bigFail.store((int)o.noBuffer, RLX); }
#endif
				compStart(c, k);
				if (o.finWhen == 1) usleep((unsigned)o.finArg);
				else if (o.finWhen == 2) await("waiting for blocks of a compression operation", [&] { return o.delivered.load(RLX) + o.markers.load(RLX) >= o.finArg || o.markers.load(RLX); });
				else if (o.finWhen == 3) await("waiting for blocks of a compression operation", [&] { return o.delivered.load(RLX) + o.markers.load(RLX) >= o.blocks || o.markers.load(RLX); });
				compFinalize(c, k);
			}
			await("waiting for the finalize callback of a compression operation", [&] { return o.done.load(std::memory_order_acquire) != 0; });
			if (o.cancel && !o.startInCb && !(k + 1 < c.nops && c.ops[k + 1].startInCb)) {
				uint64_t more = mon.calls.load(RLX) - o.finReturnCalls;
				if (c.impl == &fakeImpl && more > c.threads) BAD(T3, "new blocks started after cancelling", "%llu blocks, %u threads", (unsigned long long)more, c.threads);
			}
			if (!(k + 1 < c.nops && c.ops[k + 1].startInCb)) {
				for (unsigned q = 0; q <= k; q++) regs[q].lock(); // the stream has no business there any more
			}
		}
	}
	trace = sched::end();
	for (unsigned k = 0; k < c.nops; k++) compJudge(c, k);
	checkThreadsGone(tasks, "destroying the stream");
	uint64_t total = 0;
	for (unsigned k = 0; k < c.nops; k++) total += c.ops[k].delivered.load(RLX) + c.ops[k].markers.load(RLX);
	if (total > 1 && trace) distinct(trace);
	stat("most implementation calls at the same time > 1", mon.maxActive.load(RLX) > 1);
	for (unsigned k = 0; k < c.nops; k++) c.ops[k].kept.reset();
	ledgerEnd("compression operations");
}

// ------------------------------------------------------------------ decompression
struct DecPlanBlock { size_t pos; uint8_t kind[NUM_CHUNKS_PER_BLOCK]; /* 0 absent 1 compressed 2 raw */ bool bad; Block b; };
struct DecOp {
	size_t blocks = 0; bool real = false, cancel = false, startInCb = false, deep = false, sparse = false; unsigned pushers = 1; int finWhen = 0; uint32_t delay = 0; int badErr = -EINVAL;
	std::vector<size_t> badBlocks; size_t pushCount = 0;
	uint8_t *dst = nullptr; const uint8_t *src = nullptr; size_t lead = 0;
	std::vector<DecPlanBlock> plan;
	au32 finCalls{0}, finArgSeen{0}, done{0}, pushFalse{0}, pushTrue{0}, pushersLeft{0}, cbRunning{0}, notMonotone{0};
	au64 finSeq{0}, failuresEnd{0}, callsAtMarker{0}, callsEnd{0}; au32 linesEnd{0}; uint64_t failures0 = 0, finReturnCalls = 0; au32 lines0{0};
	bool processedBad = false;
};
struct DecCase { unsigned threads = 1; thread_policy pol = thread_policy::use_defaults; const lib842_implementation *impl = &fakeImpl; unsigned nops = 0; DecOp ops[MAXOPS]; DataDecompressionStream *s = nullptr; uint64_t seed = 0; };

static void decPlan(DecOp &o, Rng &r, size_t maxBlocks, bool real)
{
	o.real = real;
	o.blocks = (size_t)(real ? r.range(r.chance(10) ? 0 : 1, H_SLOW ? 1 : 2) : r.chance(10) ? r.below(2) : r.range(1, maxBlocks));
	o.pushers = (unsigned)r.range(1, 4);
	o.delay = r.chance(40) ? 0 : (uint32_t)r.below(r.chance(20) ? 1500 : 150);
	o.finWhen = (int)r.below(3);
	static const int errs[] = {-EINVAL, -EIO, 1, 2, -ENOSPC, -ENOMEM};
	o.badErr = errs[r.below(6)];
}
// a long queue in front of few threads: many blocks with little or nothing to decompress behind slow ones
static void decDeep(DecOp &o, Rng &r)
{
	o.deep = true; o.real = false; o.cancel = false;
	o.blocks = (size_t)r.range(40, H_SLOW ? 120 : 220);
	o.delay = (uint32_t)r.range(300, 1500);
	o.finWhen = 0;
	stat("operations with a long queue");
}
static const uint8_t PRE = 0x77;
static void decPrepare(DecOp &o, Rng &r, Region &dreg, Region &sreg)
{
	static std::vector<uint8_t> tmp(CHUNK_SIZE * 2);
	o.lead = r.chance(50) ? BLOCK_SIZE : 4096;
	if (o.real || fakeImpl.required_alignment == 1) o.lead += (size_t)r.below(2) * 8 * (size_t)r.below(8);
	dreg.need(o.lead + o.blocks * BLOCK_SIZE + BLOCK_SIZE);
	sreg.need(o.blocks * BLOCK_SIZE + 4096);
	o.dst = dreg.map + o.lead; uint8_t *src = sreg.map; o.src = src;
	memset(dreg.map + o.lead - 64, PRE, 64);
	memset(o.dst + o.blocks * BLOCK_SIZE, PRE, 64);
	size_t npos = o.blocks; std::vector<size_t> pos(npos);
	for (size_t i = 0; i < npos; i++) pos[i] = i;
	for (size_t i = npos; i > 1; i--) std::swap(pos[i - 1], pos[(size_t)r.below(i)]);
	if (o.sparse) { // some blocks around the multiples of 2 GiB and anywhere
		size_t k = 0;
		for (size_t i = 0; i < 40; i++) {
			size_t want = r.chance(60) ? r.below(npos / 2048 + 1) * 2048 + r.below(5) : r.below(npos);
			if (want < 2) want += 2;
			want -= r.below(3);
			if (want < npos && std::find(pos.begin(), pos.begin() + (long)k, want) == pos.begin() + (long)k) { pos[k] = want; k++; }
		}
		npos = k;
	}
	size_t use = o.sparse || r.chance(60) || o.deep ? npos : (size_t)r.below(npos + 1);
	if (o.badBlocks.size()) use = npos;
	o.plan.clear(); o.plan.resize(use);
	uint64_t nonce = r.next();
	int mixKind = (int)r.below(6); unsigned slowFirst = (unsigned)r.range(1, 8), deepKind = (unsigned)r.below(3);
	for (size_t u = 0; u < use; u++) {
		DecPlanBlock &p = o.plan[u];
		p.pos = pos[u]; p.bad = false;
		for (size_t bb : o.badBlocks) if (bb == u) p.bad = true;
		unsigned badChunk = (unsigned)r.below(NUM_CHUNKS_PER_BLOCK);
		bool anyc = false; size_t maxsz = 0;
		uint32_t sizes[NUM_CHUNKS_PER_BLOCK]; std::vector<Bytes> comp(NUM_CHUNKS_PER_BLOCK);
		int mk = mixKind == 5 ? (int)r.below(5) : mixKind;
		for (unsigned i = 0; i < NUM_CHUNKS_PER_BLOCK; i++) {
			int kd = mk == 0 ? 1 : mk == 1 ? 2 : mk == 2 ? (int)r.below(3) : mk == 3 ? (r.chance(80) ? 1 : 0) : (r.chance(50) ? 1 : 2);
			if (o.deep) kd = u < slowFirst ? (i % 4 == 0 ? 1 : 0) : deepKind == 2 ? (i == u % 16 && r.chance(60) ? (int)r.range(1, 2) : 0) : (i == u % 16 && (deepKind || r.chance(50)) ? 2 : 0);
			if (p.bad && i == badChunk) kd = 1;
			p.kind[i] = (uint8_t)kd; sizes[i] = 0;
			uint8_t *s = src + p.pos * BLOCK_SIZE + i * CHUNK_SIZE, *d = o.dst + p.pos * BLOCK_SIZE + i * CHUNK_SIZE;
			if (kd == 0) { memset(d, PRE, 64); d[CHUNK_SIZE - 1] = PRE; continue; }
			if (!o.real) {
				Hdr h = mkHdr(r, nonce, (uint32_t)(p.pos * NUM_CHUNKS_PER_BLOCK + i), (uint32_t)r.range(sizeof(Hdr) + 1, r.chance(30) ? 300 : COMPRESSIBLE_THRESHOLD), i % 4 == 0 ? o.delay : 0);
				if (p.bad && i == badChunk) h.derr = o.badErr;
				h.sum = hsum(h);
				memcpy(s, &h, sizeof h);
				sizes[i] = h.osize;
			} else {
				uint64_t a = r.next();
				for (size_t k = 0; k < CHUNK_SIZE; k += 8) { uint64_t v = a + (r.chance(20) ? r.below(4) : 0); memcpy(s + k, &v, 8); }
				size_t ol = tmp.size();
				if (kd == 1) {
					size_t n = CHUNK_SIZE;
					if (p.bad && i == badChunk && o.badErr == 1) n -= 8;
					if ((r.chance(50) ? sw842_compress : optsw842_compress)(s, n, tmp.data(), &ol) || ol > COMPRESSIBLE_THRESHOLD) { kd = p.kind[i] = 2; if (p.bad && i == badChunk) p.bad = false; }
					else {
						comp[i].assign(tmp.begin(), tmp.begin() + (long)ol);
						if (p.bad && i == badChunk && o.badErr != 1) {
							if (o.badErr == 2) comp[i].resize((size_t)r.range(1, ol - 8));           // truncated
							else for (int z = 0; z < 3; z++) comp[i][(size_t)r.below(ol)] ^= (uint8_t)(1 << r.below(8)); // corrupt
							// still good by chance?
							ref::Decoded dd = ref::decode(comp[i].data(), comp[i].size());
							if (dd.st == ref::OK || dd.shortNotLast) { comp[i].assign(tmp.begin(), tmp.begin() + (long)ol); p.bad = false; }
						}
						sizes[i] = (uint32_t)comp[i].size();
					}
				}
			}
			if (kd == 1) { anyc = true; maxsz = std::max<size_t>(maxsz, sizes[i]); }
		}
		Block &b = p.b;
		b.offset = p.pos * BLOCK_SIZE;
		b.source = nullptr;
		bool anyraw = false;
		for (unsigned i = 0; i < NUM_CHUNKS_PER_BLOCK; i++) { b.sizes[i] = p.kind[i] == 0 ? 0 : p.kind[i] == 2 ? CHUNK_SIZE : sizes[i]; anyraw |= p.kind[i] == 2; }
		if (anyraw) b.source = src + b.offset;
		b.chunk_padding = r.chance(50) ? CHUNK_SIZE : r.chance(50) ? (maxsz + 63) / 64 * 64 : COMPRESSIBLE_THRESHOLD;
		if (anyc) {
			uint8_t *q = b.allocate_buffer(64, b.chunk_padding);
			for (unsigned i = 0; i < NUM_CHUNKS_PER_BLOCK; i++) if (p.kind[i] == 1) {
				uint8_t *w = q + i * b.chunk_padding;
				if (o.real) memcpy(w, comp[i].data(), comp[i].size());
				else { Hdr h; memcpy(&h, src + b.offset + i * CHUNK_SIZE, sizeof h); memcpy(w, &h, sizeof h); w[h.osize - 1] = (uint8_t)h.sum; }
			}
		}
	}
	o.pushCount = use;
	if (!o.real && mon.nregions < 8) { mon.lo[mon.nregions] = o.dst; mon.hi[mon.nregions] = o.dst + o.blocks * BLOCK_SIZE; mon.nregions++; }
	else mon.nregions = 0;
}
static void decStart(DecCase &c, unsigned k)
{
	DecOp &o = c.ops[k];
	o.failures0 = mon.failures.load(RLX);
	o.lines0.store(logLines.load(RLX), RLX);
	c.s->start(o.dst);
}
static void pushRange(DecCase &c, DecOp &o, unsigned who, uint64_t sd)
{
	Rng r(sd, who);
	bool sawFalse = false;
	unsigned lazy = (unsigned)r.below(3);
	for (size_t u = who; u < o.pushCount; u += o.pushers) {
		if (lazy && r.chance(20)) usleep((unsigned)r.below(lazy == 1 ? 100 : 600));
		bool ok = c.s->push_block(std::move(o.plan[u].b));
		sched::tick();
		if (!ok) { o.pushFalse.fetch_add(1, RLX); sawFalse = true; }
		else { o.pushTrue.fetch_add(1, RLX); if (sawFalse) o.notMonotone.fetch_add(1, RLX); }
	}
	o.pushersLeft.fetch_sub(1, std::memory_order_acq_rel);
}
static void decFinalize(DecCase &c, unsigned k);
static void decPushAll(DecCase &c, unsigned k, bool single)
{
	DecOp &o = c.ops[k];
	if (single) o.pushers = 1;
	o.pushersLeft.store(o.pushers, RLX);
	std::vector<std::thread> ts;
	for (unsigned w = 1; w < o.pushers; w++) ts.emplace_back([&c, &o, w] { pushRange(c, o, w, c.seed); });
	pushRange(c, o, 0, c.seed);
	for (auto &t : ts) t.join();
}
static void decVerify(DecCase &c, DecOp &o, unsigned k, const char *when)
{
	// place and content of everything
	bool failed = o.failuresEnd.load(RLX) > o.failures0 || o.processedBad;
	std::vector<uint8_t> pushed(o.blocks, 0);
	for (auto &p : o.plan) pushed[p.pos] = 1;
	static thread_local uint8_t pre[64]; memset(pre, PRE, 64);
	if (memcmp(o.dst - 64, pre, 64) || memcmp(o.dst + o.blocks * BLOCK_SIZE, pre, 64)) BAD(T5, "memory around the destination changed", "operation %u %s", k, when);
	for (auto &p : o.plan)
		for (unsigned i = 0; i < NUM_CHUNKS_PER_BLOCK; i++) {
			const uint8_t *d = o.dst + p.pos * BLOCK_SIZE + i * CHUNK_SIZE, *s = o.src + p.pos * BLOCK_SIZE + i * CHUNK_SIZE;
			if (p.kind[i] == 0) {
				if (memcmp(d, pre, 64) || d[CHUNK_SIZE - 1] != PRE || memcmp(d + 64, zeroChunk, CHUNK_SIZE - 65))
					{ BAD(T5, "absent chunk was written", "operation %u block %zu chunk %u %s", k, p.pos, i, when); return; }
			} else if (!failed && !o.cancel) {
				if (memcmp(d, s, CHUNK_SIZE)) { BAD(T5, p.kind[i] == 1 ? "compressed chunk not restored" : "uncompressed chunk not restored", "operation %u block %zu chunk %u %s", k, p.pos, i, when); return; }
			}
		}
	for (size_t n = 0; n < o.blocks; n++) if (!pushed[n] && memcmp(o.dst + n * BLOCK_SIZE, zeroChunk, CHUNK_SIZE)) { BAD(T5, "block that was not pushed was written", "block %zu %s", n, when); return; }
}
static void decFinalize(DecCase &c, unsigned k)
{
	DecCase *cp = &c;
	DecOp &o = c.ops[k];
	c.s->finalize(o.cancel, [cp, k](bool ok) {
		DecOp &o = cp->ops[k];
		sched::tlOff = true;
		o.cbRunning.store(1, RLX);
		o.finSeq.store(seq(), RLX);
		o.failuresEnd.store(mon.failures.load(RLX), RLX); o.linesEnd.store(logLines.load(RLX), RLX);
		o.finArgSeen.store(ok, RLX);
		o.finCalls.fetch_add(1, RLX);
		if (mon.active.load(RLX)) BAD(T6 | T5, "finalize callback runs while decompression is going on", "operation %u", k);
		if (ok && !o.real) decVerify(*cp, o, k, "in the finalize callback");
		work(cp->seed % 3 ? 0 : 150);
		sched::tlOff = false;
		if (k + 1 < cp->nops && cp->ops[k + 1].startInCb) {
			decStart(*cp, k + 1);
			decPushAll(*cp, k + 1, true);
			decFinalize(*cp, k + 1);
		}
		o.done.store(1, std::memory_order_release);
	});
	o.finReturnCalls = mon.calls.load(RLX);
}
static void decJudge(DecCase &c, unsigned k)
{
	DecOp &o = c.ops[k];
	uint32_t fc = o.finCalls.load(RLX);
	if (fc != 1) BAD(T5 | T6, "finalize callback not called exactly once", "called %u times (operation %u)", fc, k);
	bool arg = o.finArgSeen.load(RLX) != 0, failed;
	unsigned nbad = 0; for (auto &p : o.plan) nbad += p.bad;
	if (!o.real) failed = o.failuresEnd.load(RLX) > o.failures0;
	else failed = nbad && (!o.cancel); // with real codecs: every block is processed unless dropped
	if (o.real && o.cancel && nbad) failed = !arg; // either
	o.processedBad = failed;
	if (failed && arg) BAD(T6, "failed operation reported as success", "operation %u (%u bad blocks, kind %d)", k, nbad, o.badErr);
	if (!failed && !arg) BAD(T5 | T6, "successful operation reported as failed", "operation %u", k);
	if (!failed && o.pushFalse.load(RLX)) BAD(T5 | T6, "push_block returned false without an error", "operation %u", k);
	if (o.notMonotone.load(RLX)) BAD(T6, "push_block returned true after false", "operation %u", k);
	uint32_t lines = o.linesEnd.load(RLX) - o.lines0.load(RLX);
	{
		if (failed && lines != 1) BAD(T6, "error not logged exactly once", "%u lines logged", lines);
		if (!failed && lines) BAD(T6, "error logged although there was none", "%u lines logged", lines);
	}
	stat(failed ? "failed operations" : "successful operations");
	stat("blocks pushed", o.pushTrue.load(RLX)); stat("pushes refused", o.pushFalse.load(RLX));
	if (o.cancel) stat("cancelled operations");
}
static void decRun(DecCase &c, Rng &r)
{
	for (unsigned k = 0; k < c.nops; k++) decPrepare(c.ops[k], r, regs[k], regs2[k]);
	if (c.impl != &fakeImpl) mon.nregions = 0;
	unsigned tasks = sched::countTasks();
	noise(r);
	uint64_t trace = 0;
	bool crossed = false;
	{
		Arm a("destroying or constructing an idle decompression stream");
		std::unique_ptr<DataDecompressionStream> s(new DataDecompressionStream(*c.impl, c.threads, c.pol, logger, dbgLogger));
		c.s = s.get();
		if (r.chance(50)) { Arm a2("in wait_until_ready"); s->wait_until_ready(); }
		for (unsigned k = 0; k < c.nops; k++) {
			DecOp &o = c.ops[k];
			if (!o.startInCb) {
				decStart(c, k);
				{ Arm a3("pushing blocks"); decPushAll(c, k, false); }
				unsigned nbad = 0; for (auto &p : o.plan) nbad += p.bad;
				if (o.badBlocks.size() && nbad && r.chance(50)) {
					// a failing block must turn later pushes away
					await("waiting for the failure of a decompression operation", [&] { return logLines.load(RLX) > o.lines0.load(RLX); });
					Block b; b.offset = 0; b.source = nullptr; b.sizes.fill(0); b.chunk_padding = 64;
					if (s->push_block(std::move(b))) BAD(T6, "push_block returned true after the operation had failed", "operation %u", k);
					else stat("pushes refused after a failure");
				}
				if (o.finWhen == 1) usleep((unsigned)r.below(1500));
				decFinalize(c, k);
			}
			await("waiting for the finalize callback of a decompression operation", [&] { return o.done.load(std::memory_order_acquire) != 0; });
			bool nextInCb = k + 1 < c.nops && c.ops[k + 1].startInCb;
			if (o.cancel && !o.startInCb && !nextInCb && c.impl == &fakeImpl) {
				uint64_t more = mon.calls.load(RLX) - o.finReturnCalls;
				if (more > c.threads) BAD(T5 | T6, "blocks of a cancelled operation still decompressed", "%llu blocks, %u threads", (unsigned long long)more, c.threads);
			}
			if (!nextInCb) {
				decJudge(c, k);
				decVerify(c, o, k, "after the operation");
				crossed |= o.pushTrue.load(RLX) > 1;
				regs[k].lock(); regs2[k].lock();
			} else { await("waiting for the finalize callback of a decompression operation", [&] { return c.ops[k + 1].done.load(std::memory_order_acquire) != 0; }); decJudge(c, k); decVerify(c, o, k, "after the next operation"); regs[k].lock(); regs2[k].lock(); }
		}
	}
	trace = sched::end();
	checkThreadsGone(tasks, "destroying the stream");
	if (trace && crossed) distinct(trace);
	stat("most implementation calls at the same time > 1", mon.maxActive.load(RLX) > 1);
	for (unsigned k = 0; k < c.nops; k++) c.ops[k].plan.clear();
	ledgerEnd("decompression operations");
}

// ------------------------------------------------------------------ compression feeding decompression
static void pipeRun(Rng &r)
{
	CompCase c; planCase(c, r);
	bool real = r.chance(H_SLOW ? 3 : 8);
	c.impl = real ? (r.chance(50) ? get_sw842_implementation() : get_optsw842_implementation()) : &fakeImpl;
	c.epoch = r.chance(30) ? BLOCK_SIZE << r.below(3) : 0;
	c.nops = 1;
	CompOp &o = c.ops[0];
	compPlan(o, r, 12, real); o.cancel = false; o.keepPct = 0;
	compPrepare(o, r, regs[0], 0);
	regs2[0].need(o.blocks * BLOCK_SIZE + BLOCK_SIZE);
	uint8_t *dst = regs2[0].map;
	if (mon.nregions < 8 && !real) { mon.lo[mon.nregions] = dst; mon.hi[mon.nregions] = dst + o.blocks * BLOCK_SIZE; mon.nregions++; }
	if (real) mon.nregions = 0;
	noise(r);
	au32 cdone{0}, ddone{0}, cok{0}, dok{0}, pushFail{0};
	{
		Arm a("constructing or destroying idle streams");
		std::unique_ptr<DataDecompressionStream> d(new DataDecompressionStream(*c.impl, (unsigned)r.range(1, 5), c.pol, logger, dbgLogger));
		std::unique_ptr<DataCompressionStream> s(new DataCompressionStream(*c.impl, c.threads, c.pol, logger, dbgLogger));
		if (c.epoch) s->set_offset_sync_epoch_multiple(c.epoch);
		for (unsigned round = 0; round < 2; round++) {
			cdone.store(0, RLX); ddone.store(0, RLX);
			DataDecompressionStream *dp = d.get();
			d->start(dst);
			s->start(o.src, o.blocks * BLOCK_SIZE + o.tail, [dp, &pushFail](Block &&b) { sched::tick(); if (!dp->push_block(std::move(b))) pushFail.fetch_add(1, RLX); });
			s->finalize(false, [&, dp](bool ok) {
				cok.store(ok, RLX);
				cdone.store(1, std::memory_order_release);
				dp->finalize(false, [&](bool ok2) { dok.store(ok2, RLX); ddone.store(1, std::memory_order_release); });
			});
			await("waiting for the end of a compression-decompression pipeline", [&] { return ddone.load(std::memory_order_acquire) && cdone.load(std::memory_order_acquire); });
			if (!cok.load(RLX) || !dok.load(RLX) || pushFail.load(RLX)) BAD(T1 | T5, "pipeline reported a failure", "compression %u decompression %u", cok.load(RLX), dok.load(RLX));
			if (o.blocks && memcmp(dst, o.src, o.blocks * BLOCK_SIZE)) BAD(T1 | T5, "pipeline does not restore the source", "%zu blocks, round %u", o.blocks, round);
			if (round == 0) madvise(dst, regs2[0].len, MADV_DONTNEED);
		}
	}
	uint64_t t = sched::end();
	if (t && o.blocks > 1) distinct(t);
	stat("pipelines");
	ledgerEnd("a pipeline");
}

// ------------------------------------------------------------------ destruction at any point
static void destroyComp(Rng &r)
{
	CompCase *cp = new CompCase; CompCase &c = *cp;
	planCase(c, r);
	setImplAlign(r);
	if (r.chance(50)) c.epoch = BLOCK_SIZE << r.below(4);
	c.nops = (unsigned)r.range(1, 2);
	for (unsigned k = 0; k < c.nops; k++) {
		CompOp &o = c.ops[k];
		compPlan(o, r, 20, false);
		o.blocks = std::max<size_t>(o.blocks, 1);
		o.cancel = r.chance(25);
		if (r.chance(20)) o.failBlocks.push_back((uint32_t)r.below(o.blocks));
		compPrepare(o, r, regs[k], 0);
	}
	unsigned tasks = sched::countTasks();
	int point = (int)r.below(9);
	noise(r);
	uint64_t dseq;
	unsigned last = c.nops - 1;
	{
		std::unique_ptr<DataCompressionStream> s;
		{ Arm a("constructing a compression stream"); s.reset(new DataCompressionStream(*c.impl, c.threads, c.pol, logger, dbgLogger)); }
		c.s = s.get();
		if (c.epoch) s->set_offset_sync_epoch_multiple(c.epoch);
		if (point == 1 || r.chance(20)) { Arm a("in wait_until_ready"); s->wait_until_ready(); }
		if (point >= 2) {
			for (unsigned k = 0; k < last; k++) { compStart(c, k); compFinalize(c, k); await("waiting for the finalize callback of a compression operation", [&] { return c.ops[k].done.load(std::memory_order_acquire) != 0; }); }
			CompOp &o = c.ops[last];
			compStart(c, last);
			if (point == 3) { uint64_t n = r.below(o.blocks) + 1; await("waiting for blocks of a compression operation", [&] { return o.started.load(RLX) >= n || o.markers.load(RLX); }); }
			else if (point == 4) { uint64_t n = mon.calls.load(RLX) + r.below(3); await("waiting for blocks of a compression operation", [&] { return mon.calls.load(RLX) >= n || o.markers.load(RLX) || o.delivered.load(RLX) >= o.blocks; }); }
			else if (point == 5) { compFinalize(c, last); }
			else if (point == 6) { compFinalize(c, last); await("waiting for the finalize callback of a compression operation", [&] { return o.cbRunning.load(RLX) != 0; }); }
			else if (point == 7) { compFinalize(c, last); await("waiting for the finalize callback of a compression operation", [&] { return o.done.load(std::memory_order_acquire) != 0; }); }
			else if (point == 8) { await("waiting for blocks of a compression operation", [&] { return o.delivered.load(RLX) + o.markers.load(RLX) >= o.blocks || o.markers.load(RLX); }); }
			if (r.chance(40)) usleep((unsigned)r.below(400));
		}
		char w[80]; static const char *const pts[] = {"right after construction", "when ready", "right after start", "with blocks delivered", "during compression", "right after finalize", "in the finalize callback", "after an operation", "before finalize"};
		snprintf(w, sizeof w, "destroying a compression stream %s", pts[point]);
		stat(w);
		Arm a("in the destructor of a compression stream");
		s.reset();
		dseq = seq();
	}
	// the user's memory may go away now
	for (unsigned k = 0; k < c.nops; k++) regs[k].lock();
	if (r.chance(20)) usleep((unsigned)r.below(3000));
	uint64_t t = sched::end();
	for (unsigned k = 0; k < c.nops; k++) {
		CompOp &o = c.ops[k];
		if (o.cbActive.load(RLX) || o.lastOut.load(RLX) > dseq || o.finSeq.load(RLX) > dseq) BAD(T7, "callback after the destructor returned", "operation %u", k);
		if (o.finCalls.load(RLX) > 1) BAD(T7 | T3, "finalize callback called more than once", "operation %u", k);
		if (point >= 2 && k < last && o.finCalls.load(RLX) != 1) BAD(T7 | T3, "finalize callback not called exactly once", "operation %u", k);
		compJudgeBlocks(c, o, k);
	}
	checkThreadsGone(tasks, "destroying the stream");
	if (t) distinct(t);
	delete cp;
	ledgerEnd("destroying a compression stream");
}
static void destroyDec(Rng &r)
{
	DecCase *cp = new DecCase; DecCase &c = *cp;
	static const unsigned th[] = {1, 2, 3, 4, 5, 8};
	c.threads = th[r.below(6)]; c.seed = r.next(); if (r.chance(1)) c.threads = (unsigned)r.range(17, 40);
	setImplAlign(r);
	c.nops = (unsigned)r.range(1, 2);
	for (unsigned k = 0; k < c.nops; k++) {
		decPlan(c.ops[k], r, 14, false);
		c.ops[k].cancel = r.chance(25);
		if (r.chance(20) && c.ops[k].blocks) c.ops[k].badBlocks.push_back((size_t)r.below(c.ops[k].blocks));
		decPrepare(c.ops[k], r, regs[k], regs2[k]);
	}
	unsigned tasks = sched::countTasks();
	int point = (int)r.below(8);
	noise(r);
	unsigned last = c.nops - 1; uint64_t dseq;
	{
		std::unique_ptr<DataDecompressionStream> s;
		{ Arm a("constructing a decompression stream"); s.reset(new DataDecompressionStream(*c.impl, c.threads, c.pol, logger, dbgLogger)); }
		c.s = s.get();
		if (point == 1 || r.chance(20)) { Arm a("in wait_until_ready"); s->wait_until_ready(); }
		if (point >= 2) {
			for (unsigned k = 0; k < last; k++) { decStart(c, k); decPushAll(c, k, false); decFinalize(c, k); await("waiting for the finalize callback of a decompression operation", [&] { return c.ops[k].done.load(std::memory_order_acquire) != 0; }); }
			DecOp &o = c.ops[last];
			decStart(c, last);
			if (point == 3) { // with part of the blocks pushed
				o.pushers = 1; size_t all = o.pushCount; o.pushCount = (size_t)r.below(all + 1); decPushAll(c, last, true);
			} else if (point >= 4) decPushAll(c, last, false);
			if (point == 5) decFinalize(c, last);
			if (point == 6) { decFinalize(c, last); await("waiting for the finalize callback of a decompression operation", [&] { return o.cbRunning.load(RLX) != 0; }); }
			if (point == 7) { decFinalize(c, last); await("waiting for the finalize callback of a decompression operation", [&] { return o.done.load(std::memory_order_acquire) != 0; }); }
			if (r.chance(40)) usleep((unsigned)r.below(400));
		}
		char w[80]; static const char *const pts[] = {"right after construction", "when ready", "right after start", "with some blocks pushed", "with all blocks pushed", "right after finalize", "in the finalize callback", "after an operation"};
		snprintf(w, sizeof w, "destroying a decompression stream %s", pts[point]);
		stat(w);
		Arm a("in the destructor of a decompression stream");
		s.reset();
		dseq = seq();
	}
	for (unsigned k = 0; k < c.nops; k++) { regs[k].lock(); regs2[k].lock(); }
	if (r.chance(20)) usleep((unsigned)r.below(3000));
	uint64_t t = sched::end();
	for (unsigned k = 0; k < c.nops; k++) {
		DecOp &o = c.ops[k];
		if (mon.active.load(RLX) || o.finSeq.load(RLX) > dseq || mon.lastCallSeq.load(RLX) > dseq) BAD(T7, "work or callback after the destructor returned", "operation %u", k);
		if (o.finCalls.load(RLX) > 1) BAD(T7 | T6, "finalize callback called more than once", "operation %u", k);
		if (point >= 2 && k < last && o.finCalls.load(RLX) != 1) BAD(T7 | T6, "finalize callback not called exactly once", "operation %u", k);
	}
	checkThreadsGone(tasks, "destroying the stream");
	if (t) distinct(t);
	delete cp;
	ledgerEnd("destroying a decompression stream");
}
// the destructor does not work through what is left
static void destroyPrompt(Rng &r)
{
	bool comp = r.chance(50); unsigned threads = (unsigned)r.range(1, 3);
	setImplAlign(r);
	for (int attempt = 0; ; attempt++) {
		monReset();
		uint64_t at, after, total;
		if (comp) {
			CompCase c; c.nops = 1; c.threads = threads;
			CompOp &o = c.ops[0]; compPlan(o, r, 1, false); o.blocks = 200; o.tail = 0; o.delay = 70; o.cbDelay = 0; o.keepPct = 0;
			compPrepare(o, r, regs[0], 0); total = o.blocks;
			std::unique_ptr<DataCompressionStream> s(new DataCompressionStream(*c.impl, threads, c.pol, logger, dbgLogger)); c.s = s.get();
			if (r.chance(50)) s->set_offset_sync_epoch_multiple(BLOCK_SIZE << r.below(5));
			compStart(c, 0);
			if (r.chance(50)) compFinalize(c, 0);
			usleep(3000);
			at = mon.calls.load(RLX);
			Arm a("in the destructor of a compression stream"); s.reset();
			after = mon.calls.load(RLX);
		} else {
			DecCase c; c.nops = 1; c.threads = threads;
			DecOp &o = c.ops[0]; decPlan(o, r, 1, false); o.blocks = 100; o.delay = 400;
			o.badBlocks.assign(1, (size_t)1000); decPrepare(o, r, regs[0], regs2[0]); total = 0;
			for (auto &p : o.plan) { bool any = false; for (auto kd : p.kind) any |= kd == 1; total += any; }
			std::unique_ptr<DataDecompressionStream> s(new DataDecompressionStream(*c.impl, threads, c.pol, logger, dbgLogger)); c.s = s.get();
			decStart(c, 0); decPushAll(c, 0, true);
			if (r.chance(50)) decFinalize(c, 0);
			at = mon.calls.load(RLX);
			Arm a("in the destructor of a decompression stream"); s.reset();
			after = mon.calls.load(RLX);
		}
		stat("prompt destructions timed");
		if (at >= total || total - at < 60 || after - at <= threads + (total - at) / 2) { if (at < total) stat("prompt destructions with work left"); break; }
		if (attempt >= 2) { BAD(T7, "destructor works through the remaining blocks", "%llu of %llu blocks left, %llu processed by the destructor", (unsigned long long)(total - at), (unsigned long long)total, (unsigned long long)(after - at)); break; }
	}
	distinct(mix(G.index, 0x77));
}

// ------------------------------------------------------------------ barrier and latch
static void barrierCase(Rng &r)
{
	unsigned n = (unsigned)r.range(1, 8), rounds = (unsigned)r.range(1, 60);
	if (r.chance(2)) { n = (unsigned)r.range(17, 70); rounds = (unsigned)r.range(1, 6); stat("barriers of many threads"); }
	bool many = n < 9 && r.chance(1); if (many) { rounds = (unsigned)r.range(257, 700); stat("barriers of hundreds of rounds"); }
	bool intr = r.chance(35); unsigned intrAfter = (unsigned)r.below(rounds + 1); unsigned useN = intr && r.chance(50) ? (unsigned)r.range(0, n) : n;
	if (intr && useN == n && r.chance(50) && n > 1) useN = n - 1;
	lib842::detail::barrier b((ptrdiff_t)n);
	std::vector<au32> arrived(rounds), left(rounds);
	std::vector<std::vector<uint32_t>> data(rounds, std::vector<uint32_t>(n, 0));
	au32 interrupted{0}, finished{0};
	noise(r);
	std::vector<std::thread> ts; uint64_t sd = r.next();
	for (unsigned t = 0; t < useN; t++) ts.emplace_back([&, t] {
		Rng q(sd, t);
		for (unsigned k = 0; k < rounds; k++) {
			if (q.chance(many ? 2 : 20)) usleep((unsigned)q.below(120));
			data[k][t] = k * 100 + t; // plain: visible to all after the wait
			arrived[k].fetch_add(1, RLX);
			b.arrive_and_wait();
			sched::tick();
			uint32_t a = arrived[k].load(RLX);
			left[k].fetch_add(1, RLX);
			if (!interrupted.load(RLX)) {
				// the interrupt flag is raised before interrupt() is called
				if (a != n) { if (!interrupted.load(RLX)) BAD(T9, "thread left the barrier before all had arrived", "round %u: %u of %u", k, a, n); }
				else for (unsigned u = 0; u < n; u++) if (data[k][u] != k * 100 + u) { BAD(T9, "write before the barrier not visible after it", "round %u thread %u", k, u); break; }
			}
		}
		finished.fetch_add(1, std::memory_order_acq_rel);
	});
	if (intr) {
		if (useN == n) await("waiting at a barrier", [&] { return intrAfter == 0 || left[intrAfter - 1].load(RLX) > 0 || finished.load(RLX) == useN; });
		else usleep((unsigned)r.below(3000));
		interrupted.store(1, RLX);
		b.interrupt();
		if (r.chance(30)) b.interrupt();
		stat("barrier interrupts");
	}
	await(intr ? "threads stay blocked at an interrupted barrier" : "threads stay blocked at a barrier all have reached", [&] { return finished.load(std::memory_order_acquire) == useN; });
	for (auto &t : ts) t.join();
	if (intr) { Arm a("an interrupted barrier blocks"); for (unsigned k = 0; k < 3; k++) b.arrive_and_wait(); }
	uint64_t t = sched::end(); if (t && useN > 1) distinct(t);
	stat("barrier rounds", rounds);
}
static void latchCase(Rng &r)
{
	unsigned n = (unsigned)r.below(9), waiters = (unsigned)r.range(1, 6);
	bool many = r.chance(3); if (many) { n = (unsigned)r.range(257, 600); stat("latches of hundreds"); }
	lib842::detail::latch l((ptrdiff_t)n);
	std::vector<uint32_t> data(n + 1, 0); au32 downs{0}, through{0};
	noise(r);
	std::vector<std::thread> ts; uint64_t sd = r.next();
	for (unsigned w = 0; w < waiters; w++) ts.emplace_back([&, w] {
		Rng q(sd, 100 + w); if (q.chance(50)) usleep((unsigned)q.below(400));
		for (int rep = 0; rep < 2; rep++) {
			l.wait(); sched::tick();
			uint32_t d = downs.load(RLX);
			if (d != n) BAD(T9, "waiter went through the latch too early", "%u of %u count-downs", d, n);
			else for (unsigned u = 0; u < n; u++) if (data[u] != u + 1) { BAD(T9, "write before count_down not visible after wait", "thread %u", u); break; }
		}
		through.fetch_add(1, std::memory_order_acq_rel);
	});
	bool single = many || r.chance(30);
	if (single) for (unsigned u = 0; u < n; u++) { if (r.chance(many ? 1 : 40)) usleep((unsigned)r.below(200)); if (u + 1 == n && through.load(RLX)) BAD(T9, "waiter went through the latch too early", "before the last count-down"); data[u] = u + 1; downs.fetch_add(1, RLX); l.count_down(); }
	else for (unsigned u = 0; u < n; u++) ts.emplace_back([&, u] { Rng q(sd, u); if (q.chance(50)) usleep((unsigned)q.below(300)); data[u] = u + 1; downs.fetch_add(1, RLX); l.count_down(); sched::tick(); });
	await("threads stay blocked at an open latch", [&] { return through.load(std::memory_order_acquire) == waiters; });
	for (auto &t : ts) t.join();
	uint64_t t = sched::end(); if (t) distinct(t);
	stat("latches");
}

// ------------------------------------------------------------------ implementation contract, construction
static void contractCase(Rng &r)
{
	static const size_t req[] = {1, 2, 8, 16, 128, 4096, 65536, 3, 5, 24, 131072, 100, 65535};
	size_t rq = req[r.below(13)]; bool okay = CHUNK_SIZE % rq == 0;
	fakeImpl.required_alignment = rq;
	size_t pf = 1; do pf = (size_t)1 << r.below(18); while (okay && pf < rq);
	fakeImpl.preferred_alignment = pf; mon.preferred = pf; mon.required = okay ? rq : 1;
	unsigned threads = (unsigned)r.range(1, 6); bool comp = r.chance(55);
	thread_policy pol = r.chance(50) ? thread_policy::use_defaults : thread_policy::spread_threads_among_numa_nodes;
	if (!okay) {
		unsigned before = sched::countTasks(); bool refused = false, other = false; uint32_t lc = logCalls.load(RLX);
		Arm a("constructing a stream for an unsuitable implementation");
		try {
			if (comp) { DataCompressionStream s(fakeImpl, threads, pol, logger, dbgLogger); }
			else { DataDecompressionStream s(fakeImpl, threads, pol, logger, dbgLogger); }
		} catch (const std::runtime_error &) { refused = true; } catch (...) { other = true; }
		if (!refused) BAD(T10, "unsuitable implementation accepted", "required alignment %zu%s", rq, other ? " (other exception)" : "");
		(void)lc;
		checkThreadsGone(before, "a refused construction");
		stat("refused constructions");
		distinct(mix(rq, threads * 2 + comp));
		fakeImpl.required_alignment = 1; mon.required = 1;
		return;
	}
#ifdef LEDGER
	if (r.chance(20)) { // one of the threads can not be created
		unsigned before = sched::countTasks(); bool refused = false; unsigned nth = (unsigned)r.range(1, threads);
		noise(r);
		{
			Arm a("constructing a stream while the system refuses to create threads");
			threadFail.store((int)nth, RLX);
			try {
				if (comp) { DataCompressionStream s(fakeImpl, threads, pol, logger, dbgLogger); threadFail.store(0, RLX); }
				else { DataDecompressionStream s(fakeImpl, threads, pol, logger, dbgLogger); threadFail.store(0, RLX); }
			} catch (const std::exception &) { refused = true; }
			threadFail.store(0, RLX);
		}
		sched::end();
		if (!refused) BAD(T10, "stream with fewer threads than asked for", "thread %u of %u could not be created", nth, threads);
		checkThreadsGone(before, "a construction for which a thread could not be created");
		stat("constructions without enough threads");
		distinct(mix(nth, threads * 2 + comp));
	}
#endif
	stat("preferred alignments over 64", pf > 64);
	if (comp) {
		CompCase c; planCase(c, r); c.threads = threads; c.pol = pol;
		if (r.chance(30)) c.epoch = BLOCK_SIZE << r.below(4);
		c.nops = (unsigned)r.range(1, 2);
		for (unsigned k = 0; k < c.nops; k++) compPlan(c.ops[k], r, 6, false);
		compRun(c, r);
		for (unsigned k = 0; k < c.nops; k++) if (c.ops[k].delivered.load(RLX) != c.ops[k].blocks) BAD(T10, "placement policy or alignment changes what is delivered", "%u of %zu", c.ops[k].delivered.load(RLX), c.ops[k].blocks);
	} else {
		DecCase c; c.threads = threads; c.pol = pol; c.seed = r.next(); c.nops = (unsigned)r.range(1, 2);
		for (unsigned k = 0; k < c.nops; k++) decPlan(c.ops[k], r, 6, false);
		decRun(c, r);
		for (unsigned k = 0; k < c.nops; k++) if (!c.ops[k].finArgSeen.load(RLX)) BAD(T10, "placement policy or alignment makes an operation fail", "x");
	}
	fakeImpl.required_alignment = 1; mon.required = 1;
}

// ------------------------------------------------------------------ dispatch
static const lib842_implementation *realImpl(Rng &r) { return r.chance(50) ? get_sw842_implementation() : get_optsw842_implementation(); }
static void compCase(Rng &r, int mode) // 1 plain, 2 epochs, 3 finalize/cancel, 4 errors
{
	CompCase c; planCase(c, r);
	setImplAlign(r);
	bool real = r.chance(H_SLOW ? 2 : mode == 1 ? 5 : 1) && mode != 4;
	if (real) c.impl = realImpl(r);
	if (mode == 2) { static const unsigned e[] = {0, 0, 1, 1, 2, 3, 4}; c.epoch = BLOCK_SIZE << e[r.below(7)]; }
	else if (r.chance(30)) c.epoch = BLOCK_SIZE << r.below(5);
	c.nops = (unsigned)r.range(1, real ? 2 : mode == 3 ? 5 : 3);
	for (unsigned k = 0; k < c.nops; k++) {
		CompOp &o = c.ops[k];
		compPlan(o, r, mode == 2 ? 24 : 14, real);
		if (!real && r.chance(2)) { o.blocks = (size_t)r.range(60, H_SLOW ? 150 : 400); o.keepPct = 0; if (o.finWhen == 2) o.finArg = r.below(o.blocks + 1); stat("operations of many blocks"); if (r.chance(30) && !k) c.epoch = BLOCK_SIZE << r.range(5, 9); }
		if (mode == 1) o.cancel = false;
		else if (mode == 2) o.cancel = r.chance(15);
		else o.cancel = r.chance(40);
		if (mode == 3) { o.startInCb = k > 0 && r.chance(35); if (r.chance(15) && o.blocks && !real) o.failBlocks.push_back((uint32_t)r.below(o.blocks)); }
		if (mode == 2 && k > 0 && r.chance(20)) o.startInCb = true;
		if (mode == 4) {
			o.cancel = r.chance(15);
			if (o.blocks && r.chance(70)) {
				static const int errs[] = {-EIO, -EINVAL, -ENOMEM, -1, -ETIMEDOUT};
				o.failErr = errs[r.below(5)];
				unsigned n = (unsigned)(r.chance(60) ? 1 : r.range(1, o.blocks)); for (unsigned i = 0; i < n; i++) o.failBlocks.push_back((uint32_t)(r.chance(30) ? 0 : r.below(o.blocks)));
			}
			o.startInCb = k > 0 && r.chance(20);
			if (o.blocks && !o.startInCb && r.chance(12)) o.noBuffer = (unsigned)r.range(1, o.blocks);
		}
		if (o.startInCb) o.finWhen = 0;
	}
	if (c.epoch) { // epochs must also be crossed by the first block of the tail
		for (unsigned k = 0; k < c.nops; k++) if (r.chance(15) && c.ops[k].blocks < 60) c.ops[k].blocks = std::min<size_t>(c.epoch / BLOCK_SIZE * (size_t)r.range(1, 4), real ? 2 : 64);
		for (unsigned k = 0; k < c.nops; k++) { c.ops[k].failBlocks.erase(std::remove_if(c.ops[k].failBlocks.begin(), c.ops[k].failBlocks.end(), [&](uint32_t f) { return f >= c.ops[k].blocks; }), c.ops[k].failBlocks.end()); c.ops[k].finArg = c.ops[k].finWhen == 2 ? std::min<uint64_t>(c.ops[k].finArg, c.ops[k].blocks) : c.ops[k].finArg; }
	}
	compRun(c, r);
}
static void decCase(Rng &r, int mode) // 5 faithful, 6 corrupt
{
	DecCase c; static const unsigned th[] = {1, 2, 2, 3, 4, 4, 6, 8};
	c.threads = th[r.below(8)]; if (r.chance(1)) { c.threads = (unsigned)r.range(17, 40); stat("streams of many threads"); } c.seed = r.next(); c.pol = r.chance(15) ? thread_policy::spread_threads_among_numa_nodes : thread_policy::use_defaults;
	setImplAlign(r);
	bool real = r.chance(H_SLOW ? 4 : 6);
	if (real) c.impl = realImpl(r);
	c.nops = (unsigned)r.range(1, real ? 2 : 3);
	for (unsigned k = 0; k < c.nops; k++) {
		DecOp &o = c.ops[k];
		decPlan(o, r, 10, real);
		o.cancel = r.chance(15);
		o.startInCb = k > 0 && r.chance(25) && !c.ops[k - 1].startInCb;
		if (!real && r.chance(mode == 5 ? 4 : 2)) { decDeep(o, r); c.threads = (unsigned)r.range(1, 3); }
		if (mode == 6 && r.chance(65) && o.blocks) { unsigned n = r.chance(70) ? 1 : (unsigned)r.range(1, 3); for (unsigned i = 0; i < n; i++) o.badBlocks.push_back((size_t)r.below(o.blocks)); if (r.chance(80)) o.cancel = false; }
	}
	decRun(c, r);
}
// one stream through a long life of small operations
static void longComp(Rng &r, int mode)
{
	unsigned n = (unsigned)r.range(258, H_SLOW ? 300 : 560), threads = (unsigned)r.range(1, 4);
	setImplAlign(r);
	unsigned tasks = sched::countTasks();
	noise(r);
	{
		std::unique_ptr<CompCase> keep[3]; // what an operation used outlives the next two
		std::unique_ptr<DataCompressionStream> s(new DataCompressionStream(fakeImpl, threads, thread_policy::use_defaults, logger, dbgLogger));
		size_t cur = 0;
		for (unsigned i = 0; i < n; i++) {
			CompCase *c = new CompCase; keep[i % 3].reset(c); Region &rg = regs[i % 3];
			c->s = s.get(); c->threads = threads; c->seed = r.next() | 1; c->nops = 1; monReset();
			if (c->seed % 3 == 0) c->seed++;
			CompOp &o = c->ops[0];
			compPlan(o, r, 3, false);
			o.blocks = r.below(4); o.delay = r.chance(90) ? 0 : 50; o.cbDelay = 0; o.finWhen = 0; o.finArg = 0; o.tail = 0;
			o.cancel = mode != 1 && r.chance(mode == 4 ? 5 : 15);
			if ((mode == 4 ? r.chance(35) : mode != 1 && mode != 2 && r.chance(8)) && o.blocks) { o.failErr = -EIO; o.failBlocks.push_back((uint32_t)r.below(o.blocks)); }
			if (i == 0 || r.chance(2)) { cur = r.chance(mode == 2 ? 20 : 60) ? 0 : BLOCK_SIZE << r.below(2); s->set_offset_sync_epoch_multiple(cur); }
			c->epoch = o.epoch = cur;
			compPrepare(o, r, rg, 0);
			compStart(*c, 0); compFinalize(*c, 0);
			await("waiting for the finalize callback of a compression operation", [&] { return o.done.load(std::memory_order_acquire) != 0; });
			compJudge(*c, 0); o.kept.reset();
		}
	}
	uint64_t t = sched::end(); if (t) distinct(t);
	checkThreadsGone(tasks, "destroying the stream");
	stat("streams with hundreds of operations"); stat("operations of long-lived streams", n);
	ledgerEnd("compression operations");
}
static void longDec(Rng &r, int mode)
{
	unsigned n = (unsigned)r.range(258, H_SLOW ? 300 : 560), threads = (unsigned)r.range(1, 4);
	setImplAlign(r);
	unsigned tasks = sched::countTasks();
	noise(r);
	{
		std::unique_ptr<DecCase> keep[3];
		std::unique_ptr<DataDecompressionStream> s(new DataDecompressionStream(fakeImpl, threads, thread_policy::use_defaults, logger, dbgLogger));
		for (unsigned i = 0; i < n; i++) {
			DecCase *c = new DecCase; keep[i % 3].reset(c);
			c->s = s.get(); c->threads = threads; c->seed = r.next() | 1; c->nops = 1; monReset();
			if (c->seed % 3 == 0) c->seed++;
			DecOp &o = c->ops[0];
			decPlan(o, r, 3, false);
			o.blocks = r.below(4); o.delay = r.chance(90) ? 0 : 50; o.finWhen = 0; o.pushers = r.chance(90) ? 1 : 2;
			o.cancel = r.chance(8);
			if (mode == 6 && o.blocks && r.chance(35)) { o.badBlocks.push_back((size_t)r.below(o.blocks)); o.cancel = false; }
			decPrepare(o, r, regs[i % 3], regs2[i % 3]);
			decStart(*c, 0); decPushAll(*c, 0, false); decFinalize(*c, 0);
			await("waiting for the finalize callback of a decompression operation", [&] { return o.done.load(std::memory_order_acquire) != 0; });
			decJudge(*c, 0); decVerify(*c, o, 0, "after the operation");
			o.plan.clear();
		}
	}
	uint64_t t = sched::end(); if (t) distinct(t);
	checkThreadsGone(tasks, "destroying the stream");
	stat("streams with hundreds of operations"); stat("operations of long-lived streams", n);
	ledgerEnd("decompression operations");
}
// sources and destinations of more than 4 GiB
static void hugeComp(Rng &r)
{
	CompCase *cp = new CompCase; CompCase &c = *cp; planCase(c, r);
	c.threads = (unsigned)r.range(2, 8);
	if (r.chance(60)) c.epoch = BLOCK_SIZE << r.range(4, 13);
	c.nops = 1;
	CompOp &o = c.ops[0];
	compPlan(o, r, 4, false);
	o.blocks = (size_t)r.range(4097, 4140); o.keepPct = 0; o.cancel = false; o.delay = o.cbDelay = 0; o.finWhen = r.chance(50) ? 0 : 3; o.finArg = 0; o.mixKind = (int)r.below(2);
	compRun(c, r);
	stat("operations of more than 4 GiB");
	delete cp;
}
static void hugeDec(Rng &r)
{
	DecCase *cp = new DecCase; DecCase &c = *cp;
	c.threads = (unsigned)r.range(1, 8); c.seed = r.next(); c.nops = 1;
	DecOp &o = c.ops[0];
	decPlan(o, r, 4, false);
	o.blocks = (size_t)r.range(4200, 12000); o.sparse = true; o.cancel = false; o.delay = 0;
	decRun(c, r);
	stat("operations of more than 4 GiB");
	delete cp;
}
static int propNo;
static void setup()
{
	if (strlen(G.prop) != 3 || G.prop[0] != 'S') _exit(99);
	propNo = atoi(G.prop + 1); propTag = 1u << (propNo - 1);
	if (propNo == 8) propTag = 0; // only the race detector (and crashes, deadlocks) decide S08
	sched::startWatchdog();
	while (!sched::dogTid.load(RLX)) usleep(100);
	// the stack of the watchdog and lazily created thread-locals exist from here on
}
#ifdef LEDGER
static long liveAt; static uint64_t casesSince;
#endif
static void runCase(uint64_t idx, Rng &r)
{
	(void)idx;
	monReset();
	ledgerStart();
	fakeImpl.required_alignment = 1; fakeImpl.preferred_alignment = 1; mon.preferred = 1; mon.required = 1;
	if (idx % 250 == 120 && propNo <= 6) {
		switch (propNo) { case 5: case 6: longDec(r, propNo); break; default: longComp(r, propNo); }
		return;
	}
	if (idx % 400 == 120 && propNo == 8) { if (r.chance(50)) longComp(r, 4); else longDec(r, 6); return; }
	switch (propNo) {
	case 1: if (!H_SLOW && idx % 1000 == 500) hugeComp(r); else if (r.chance(20)) pipeRun(r); else compCase(r, 1); break;
	case 2: if (!H_SLOW && idx % 3000 == 500) { hugeComp(r); break; } compCase(r, 2); if (r.chance(20)) { propTag |= T2; destroyComp(r); } break;
	case 3: compCase(r, 3); break;
	case 4: compCase(r, 4); break;
	case 5: if (!H_SLOW && idx % 100 == 50) hugeDec(r); else if (r.chance(20)) pipeRun(r); else decCase(r, 5); break;
	case 6: decCase(r, 6); break;
	case 7: if (idx % 40 == 7) destroyPrompt(r); else if (r.chance(50)) destroyComp(r); else destroyDec(r); break;
	case 8: switch (r.below(8)) { case 0: compCase(r, 1); break; case 1: compCase(r, 2); break; case 2: compCase(r, 3); break; case 3: compCase(r, 4); break; case 4: decCase(r, 5); break; case 5: decCase(r, 6); break; case 6: pipeRun(r); break; default: if (r.chance(50)) destroyComp(r); else destroyDec(r); } break;
	case 9: if (r.chance(65)) barrierCase(r); else latchCase(r); break;
	case 10: contractCase(r); break;
	}
#ifdef LEDGER
	if (propNo == 7) {
		if (idx == G.start + 60) { liveAt = liveAllocs.load(RLX); casesSince = 0; }
		casesSince++;
	}
#endif
}
static void finish()
{
#ifdef LEDGER
	if (propNo == 7 && G.end > G.start + 160) {
		long d = liveAllocs.load(RLX) - liveAt;
		stat("cases under the allocation ledger", casesSince);
		if (d > 60 + (long)casesSince / 4) fail("streams leak memory", "%ld more live allocations after %llu cases", d, (unsigned long long)casesSince);
	}
#endif
	if (stat_noBuffer.load(RLX)) stat("block buffers that could not be allocated", stat_noBuffer.load(RLX));
	stat("synchronisation operations observed", sched::nSync.load(RLX));
	stat("delays injected", sched::nDelays.load(RLX));
	stat("spurious wakeups injected", sched::nSpurious.load(RLX));
}
