// Monitors for the OpenCL decompressor (properties L01..L05).
#ifndef NO_HOST
#include "clio.h"
#include <lib842/cl.h>
#include <lib842/sw.h>
#include <lib842/common.h>
#include <thread>
#include <sstream>
#include <sys/stat.h>
#include <sys/resource.h>
#include <dirent.h>
#include "clorder.h"
#endif
#include "main.h"
#include "clconfigs.h"
#include "clnative.h"

static bool is(const char *p) { return strcmp(G.prop, p) == 0; }

// ---------------------------------------------------------------- what an OpenCL C program may call, for the native kernel
static __thread size_t curGid, curGlobal = 256;
size_t get_global_id(unsigned d) { return d ? 0 : curGid; }
size_t get_local_id(unsigned d) { return d ? 0 : curGid % 256; }
size_t get_group_id(unsigned d) { return d ? 0 : curGid / 256; }
size_t get_local_size(unsigned d) { return d ? 1 : 256; }
size_t get_global_size(unsigned d) { return d ? 1 : curGlobal; }
size_t get_num_groups(unsigned d) { return d ? 1 : curGlobal / 256; }
size_t get_global_offset(unsigned) { return 0; }
unsigned get_work_dim() { return 1; }

// ---------------------------------------------------------------- chunks
static const uint8_t marker[16] = { 0xbe, 0x5a, 0x46, 0xbf, 0x97, 0xe5, 0x2d, 0xd7, 0xb2, 0x7c, 0x94, 0x1a, 0xee, 0xd6, 0x70, 0x76 };

enum Kind { K_VALID, K_HOSTILE, K_RAW, K_SKIP, K_BADSIZE, K_ODDSIZE };
struct Chunk {
	int kind = K_VALID;
	Bytes slot;          // bytes of the slot that the decompressor may look at
	Bytes comp;          // the compressed stream in it
	ref::Decoded d;      // what it means
	size_t cap = 0;      // output limit given
	bool unlucky = false; // in place: the output overtakes what was read of the input
};
// compressed stream for a chunk whose decompressed size must not exceed maxOut and compressed size maxIn
static bool makeComp(Rng &r, size_t maxOut, size_t maxIn, Bytes &comp)
{
	for (int tries = 0; tries < 8; tries++) {
		if (r.chance(50)) {
			GenStream g = genStream(r, r.chance(80) ? 60 : 1500, false, maxOut);
			if (g.out.size() <= maxOut && g.bytes.size() <= maxIn) { comp = g.bytes; return true; }
		}
#ifndef NO_HOST
		else {
			size_t n = r.chance(30) ? maxOut : r.below(maxOut + 1);
			if (n > 8000 && r.chance(80)) n = r.below(8000);
			n &= ~(size_t)7;
			Bytes in; in.reserve(n + 8); genInto(r, in, n, (int)r.below(NUM_INPUT_KINDS));
			Bytes o(ref::bound(n) + 64);
			size_t ol = o.size();
			int ret = r.chance(70) ? optsw842_compress(in.data(), n, o.data(), &ol) : sw842_compress(in.data(), n, o.data(), &ol);
			o.resize(ol); o.resize((o.size() + 7) & ~(size_t)7);
			if (ret == 0 && o.size() <= maxIn) { comp = o; return true; }
		}
#endif
	}
	ref::BitWriter w; w.put(ref::OP_END, 5); w.put(0, 32); w.pad(8); comp = w.b;
	return comp.size() <= maxIn;
}
static size_t genCap(Rng &r, size_t need, size_t chunk)
{
	switch (r.below(8)) {
	case 0: return std::min(need, chunk);
	case 1: return need ? std::min(need - 1 - r.below(std::min<size_t>(need, 8)), chunk) : 0;
	case 2: return r.below(chunk + 1);
	case 3: return r.below(std::min<size_t>(chunk, 64) + 1);
	default: return chunk;
	}
}
// One ALWAYS chunk
static Chunk makeAlways(Rng &r, const ClCfg &c, bool hostile, size_t maxSlot)
{
	Chunk k;
	if (hostile) {
		k.kind = K_HOSTILE;
		k.comp = genHostile(r, r.chance(70) ? 40 : 400, nullptr);
		if (k.comp.size() > maxSlot) k.comp.resize(maxSlot);
		if (r.chance(25)) { size_t n = k.comp.size(); n -= r.below(std::min<size_t>(n, 9) + 1); k.comp.resize(n); }
	} else if (!makeComp(r, c.chunk, maxSlot, k.comp)) k.comp.clear();
	k.slot = k.comp;
	k.d = ref::decode(k.comp.data(), k.comp.size());
	k.cap = genCap(r, k.d.out.size(), c.chunk);
	return k;
}
static Chunk makeMaybe(Rng &r, const ClCfg &c, bool hostile, bool allowSkip)
{
	Chunk k;
	unsigned w = (unsigned)r.below(10);
	bool noroom = c.chunk < 64;
	if (w < 4 || noroom) { // raw, possibly beginning with a part of the marker
		k.kind = K_RAW;
		genInto(r, k.slot, c.chunk, (int)r.below(NUM_INPUT_KINDS));
		switch (r.below(5)) {
		case 0: memcpy(k.slot.data(), marker, 8); break;
		case 1: memcpy(k.slot.data() + 8, marker + 8, 8); break;
		case 2: memcpy(k.slot.data(), marker, 16); k.slot[r.below(16)] ^= (uint8_t)(1 << r.below(8)); break;
		}
		if (memcmp(k.slot.data(), marker, 16) == 0) k.slot[0] ^= 1;
		k.d.out = k.slot;
		k.cap = hostile ? genCap(r, c.chunk, c.chunk) : c.chunk;
		return k;
	}
	k.slot.assign(c.chunk, 0);
	for (auto &b : k.slot) b = (uint8_t)r.next();
	memcpy(k.slot.data(), marker, 16);
	uint64_t size;
	if (w == 4 && allowSkip) { k.kind = K_SKIP; size = 0; }
	else if (hostile && r.chance(30)) {
		k.kind = K_BADSIZE;
		switch (r.below(6)) {
		case 0: size = c.chunk - 24 + r.range(1, 40); break;
		case 1: size = c.chunk + r.below(100); break;
		case 2: size = r.next(); break;
		case 3: size = ~(uint64_t)0 - r.below(200); break;
		case 4: size = (uint64_t)1 << r.range(17, 63); break;
		default: size = r.range(c.chunk - 23, 2 * c.chunk); break;
		}
		if (size <= c.chunk - 24) size = c.chunk - 23;
	} else {
		if (hostile && r.chance(60)) { k.kind = K_HOSTILE; k.comp = genHostile(r, 40, nullptr); if (k.comp.size() > c.chunk - 24) k.comp.resize(c.chunk - 24); if (r.chance(70)) k.comp.resize(k.comp.size() & ~(size_t)7); if (k.comp.empty()) k.comp.push_back(0); }
		else if (!makeComp(r, c.chunk, c.chunk - 24, k.comp)) { k.comp.assign(8, 0); k.kind = K_HOSTILE; }
		size = k.comp.size();
		memcpy(k.slot.data() + c.chunk - size, k.comp.data(), size);
		k.d = ref::decode(k.comp.data(), k.comp.size());
		if (size % 8) k.kind = K_ODDSIZE; // where such a stream begins is not defined
	}
	memcpy(k.slot.data() + 16, &size, 8);
	k.cap = genCap(r, k.d.out.size(), c.chunk);
	if (k.kind == K_SKIP) k.cap = c.chunk;
	return k;
}
// Judges what was reported for a chunk: `hasOlen`/`hasRet` say whether sizes and return values were asked for
static void judge(const char *who, const ClCfg &c, const Chunk &k, bool hasOlen, bool hasRet, int ret, uint64_t olen, const uint8_t *out, const Bytes &before, const char *ctx)
{
	char key[200];
#define J(what, ...) do { snprintf(key, sizeof key, "%s: %s", who, what); fail(key, __VA_ARGS__); } while (0)
	stat("chunks.judged");
	if (!hasOlen && k.kind != K_SKIP && k.kind != K_RAW && k.d.out.size() > c.chunk) return;
	size_t cap = hasOlen ? k.cap : c.chunk;
	if (hasRet && ret > 0) { J("positive return value for a chunk", "ret=%d %s", ret, ctx); return; }
	if (k.kind == K_SKIP) {
		if (hasRet && ret) J("skipped chunk not accepted", "ret=%d %s", ret, ctx);
		if (!before.empty() && memcmp(out, before.data(), c.chunk)) J("output of a skipped chunk modified", "%s", ctx);
		if (hasOlen && k.cap >= c.chunk && olen != c.chunk) J("wrong size reported for a skipped chunk", "olen=%llu %s", (unsigned long long)olen, ctx);
		stat("chunks.skipped");
		return;
	}
	if (k.kind == K_BADSIZE) {
		if (hasRet && ret == 0) J("chunk with an impossible embedded size accepted", "%s", ctx);
		else if (hasOlen && olen != 0) J("failed chunk reports a length", "olen=%llu %s", (unsigned long long)olen, ctx);
		stat("chunks.badsize");
		return;
	}
	if (k.kind == K_ODDSIZE) {
		if (hasRet && hasOlen && (ret == 0 ? olen > cap : olen != 0)) J("impossible length", "ret=%d olen=%llu cap=%zu %s", ret, (unsigned long long)olen, cap, ctx);
		stat("chunks.oddsize");
		return;
	}
	bool meaningful = k.d.st == ref::OK || k.d.st == ref::BADCRC; // the kernel is documented not to check the CRC
	bool must = k.kind == K_RAW ? cap >= c.chunk : k.d.st == ref::OK && !k.d.usesShort && k.comp.size() % 8 == 0 && cap >= k.d.out.size();
	size_t want = k.d.out.size();
	bool ok = hasRet ? ret == 0 : must;
	if (hasRet && ret < 0) {
		if (must) J(k.kind == K_RAW ? "uncompressed chunk rejected" : "valid chunk rejected", "ret=%d cap=%zu out=%zu comp=%s %s", ret, cap, want, Hex(k.comp).s, ctx);
		if (hasOlen && olen != 0) J("failed chunk reports a length", "olen=%llu ret=%d %s", (unsigned long long)olen, ret, ctx);
		stat("chunks.rejected");
		return;
	}
	if (!ok) return;
	if (hasRet && !meaningful) { J("malformed chunk accepted", "class=%s ilen=%zu comp=%s %s", ref::statusName[k.d.st], k.comp.size(), Hex(k.comp).s, ctx); return; }
	if (hasOlen && olen > cap) { J("length larger than the limit", "olen=%llu cap=%zu %s", (unsigned long long)olen, cap, ctx); return; }
	if (hasRet && want > cap) { J("chunk accepted without space for its output", "out=%zu cap=%zu %s", want, cap, ctx); return; }
	if (hasOlen && olen != want) J("wrong decompressed length", "olen=%llu want=%zu %s", (unsigned long long)olen, want, ctx);
	else if (want && memcmp(out, k.d.out.data(), want)) {
		size_t i = 0; while (out[i] == k.d.out[i]) i++;
		J("wrong decompressed data", "first difference at %zu of %zu: got %02x want %02x, comp=%s %s", i, want, out[i], k.d.out[i], Hex(k.comp).s, ctx);
	}
	stat("chunks.accepted");
#undef J
}
static uint64_t chunkSig(const Chunk &k) { return mix(k.d.opsig, mix((uint64_t)k.kind * 16 + k.d.st, fnv(k.comp.data(), k.comp.size()))); }

// ---------------------------------------------------------------- the kernel, natively
static uint8_t noise(uint64_t i) { return (uint8_t)((i * 0x9E3779B97F4A7C15ull) >> 56); }
struct Poison {
#ifdef H_ASAN
	static void on(const void *p, size_t n) { __asan_poison_memory_region(p, n); }
	static void off(const void *p, size_t n) { __asan_unpoison_memory_region(p, n); }
#else
	static void on(const void *, size_t) {}
	static void off(const void *, size_t) {}
#endif
};
// now and then more chunks than fit 16 bits (where they are small)
static bool manyChunks(uint64_t idx, const ClCfg &c, uint64_t period) { return c.chunk == 64 && idx % period < 1000 && idx % 150 < 6; }
// Buffers of the size OpenCL would see, the work items run one at a time. Under ASan, everything a work item has no
// business with (other chunks' input and output, beyond ilen, beyond the limit) is poisoned while it runs.
__attribute__((no_sanitize("function")))
static void nativeCase(uint64_t idx, Rng &r, bool wantMaybe, bool anyFmt, bool hostile)
{
	// choose a kernel
	int cand[NUM_CFG], nc = 0;
	for (const Native *n = natives; n->f; n++) if (cfgs[n->cfg].fmt != 2 && (anyFmt || (cfgs[n->cfg].fmt == 1) == wantMaybe)) cand[nc++] = (int)(n - natives);
	if (!nc) { stat("native.unavailable"); return; }
	int pick = (int)r.below((uint64_t)nc);
	if (cfgs[natives[cand[pick]].cfg].chunk > 10000 && r.chance(60)) pick = (int)r.below((uint64_t)nc);
	const Native &nat = natives[cand[pick]];
	const ClCfg &c = cfgs[nat.cfg];
	bool always = c.fmt == 0, single = c.stride > ((size_t)1 << 30);
	size_t n = single ? 1 : r.chance(60) ? r.range(1, 4) : r.range(1, c.chunk > 10000 ? 6 : 24);
	bool hasIlen = always ? (hostile || r.chance(70)) : r.chance(40), hasOlen = hostile || r.chance(80), hasRet = r.chance(hostile ? 95 : 80), hasMap = r.chance(40);
	std::vector<Chunk> ch;
	size_t maxSlot = single ? 200000 : c.stride;
	for (size_t i = 0; i < n; i++) {
		bool h = hostile && r.chance(75);
		ch.push_back(always ? makeAlways(r, c, h, maxSlot) : makeMaybe(r, c, h, true));
		if (!hasOlen) ch.back().cap = c.chunk;
	}
	// chunk order: some slots may not be mentioned by the map (numChunks < slots)
	size_t slots = n + (hasMap && !single ? r.below(3) : 0);
	std::vector<uint64_t> map(n);
	std::vector<size_t> all(slots);
	for (size_t i = 0; i < slots; i++) all[i] = i;
	if (hasMap) for (size_t i = slots; i-- > 1;) std::swap(all[i], all[r.below(i + 1)]);
	for (size_t i = 0; i < n; i++) map[i] = all[i];
	size_t outStrideEnd = single ? std::max(ch[0].cap, c.chunk) : slots * c.chunk;
	if (single && hasOlen && r.chance(30)) { ch[0].cap = r.below(300000); outStrideEnd = std::max(outStrideEnd, ch[0].cap); }
	size_t inOff = r.chance(50) ? 0 : 8 * r.below(40), outOff = r.chance(50) ? 0 : 8 * r.below(40);
	// the input buffer ends with the last slot's content when sizes are given
	size_t slotBytes = always ? 0 : c.chunk;
	std::vector<const Chunk *> bySlot(slots, nullptr);
	for (size_t i = 0; i < n; i++) bySlot[map[i]] = &ch[i];
	size_t inSize = inOff;
	for (size_t s = 0; s < slots; s++) if (bySlot[s]) {
		size_t len = always ? (hasIlen ? bySlot[s]->slot.size() : single ? bySlot[s]->slot.size() + 64 : c.stride) : slotBytes;
		if (always && !hasIlen && !single && len < bySlot[s]->slot.size() + 64) len = bySlot[s]->slot.size() + 64; // without sizes, slots must have slack
		inSize = std::max(inSize, inOff + (single ? 0 : s * c.stride) + len);
	}
	if (r.chance(50)) inSize = (inSize + 7) & ~(size_t)7;
	GuardBuf in(inSize, 0, true), out(outOff + outStrideEnd, 0, true);
	for (size_t i = 0; i < inSize; i++) in.p[i] = noise(i + idx);
	for (size_t s = 0; s < slots; s++) if (bySlot[s] && !bySlot[s]->slot.empty()) memcpy(in.p + inOff + (single ? 0 : s * c.stride), bySlot[s]->slot.data(), bySlot[s]->slot.size());
	for (size_t i = 0; i < out.size; i++) out.p[i] = noise(i * 3 + idx);
	std::vector<uint8_t> before(out.p, out.p + out.size), inBefore(in.p, in.p + in.size);
	GuardBuf gi(8 * slots, 0, true), go(8 * slots, 0, true), gm(8 * n, 0, true), gr(4 * slots + (slots & 1 ? 4 : 0), 0, true);
	for (size_t s = 0; s < slots; s++) {
		uint64_t v = bySlot[s] ? (always ? bySlot[s]->comp.size() : r.next()) : 12345; memcpy(gi.p + 8 * s, &v, 8);
		v = bySlot[s] ? bySlot[s]->cap : 777; memcpy(go.p + 8 * s, &v, 8);
		int32_t e = 99; memcpy(gr.p + 4 * s, &e, 4);
	}
	memcpy(gm.p, map.data(), 8 * n);
#ifdef H_MSAN
	// contents the kernel must not depend on
	__msan_poison(out.p, out.size);
	for (size_t s = 0; s < slots; s++) { if (!bySlot[s]) __msan_poison(go.p + 8 * s, 8); __msan_poison(gr.p + 4 * s, 4); }
	if (always && hasIlen) { __msan_poison(in.p, in.size); for (size_t s = 0; s < slots; s++) if (bySlot[s]) __msan_unpoison(in.p + inOff + (single ? 0 : s * c.stride), bySlot[s]->comp.size()); }
#endif
	curGlobal = (n + 255) / 256 * 256;
	size_t extra = r.chance(30) ? 3 : 0; // work items beyond numChunks do nothing
	for (size_t w = 0; w < n + extra; w++) {
		size_t gid = w < n ? w : w == n ? n : r.range(n, curGlobal > n ? curGlobal - 1 : n);
		size_t s = w < n ? (hasMap ? map[w] : w) : 0;
		Poison::on(in.p, in.size); Poison::on(out.p, out.size); Poison::on(go.p, go.size); Poison::on(gi.p, gi.size); Poison::on(gr.p, gr.size);
		if (w < n) {
			const Chunk &k = *bySlot[s];
			uint8_t *slot = in.p + inOff + (single ? 0 : s * c.stride);
			if (always && hasIlen) Poison::off(slot, k.comp.size());
			else if (always) Poison::off(slot, std::min<size_t>(single ? k.slot.size() + 64 : std::max(c.stride, k.slot.size() + 64), (size_t)(in.p + in.size - slot)));
			else Poison::off(slot, c.chunk);
			Poison::off(out.p + outOff + (single ? 0 : s * c.chunk), hasOlen ? k.cap : c.chunk);
			Poison::off(go.p + 8 * s, 8); Poison::off(gi.p + 8 * s, 8); Poison::off(gr.p + (4 * s & ~(size_t)7), 8);
		}
		curGid = gid;
		nat.f(in.p, inOff, hasIlen ? gi.p : nullptr, out.p, outOff, hasOlen ? go.p : nullptr, n, hasMap ? gm.p : nullptr, hasRet ? gr.p : nullptr);
		stat("native.workitems");
	}
	Poison::off(in.p, in.size); Poison::off(out.p, out.size); Poison::off(go.p, go.size); Poison::off(gi.p, gi.size); Poison::off(gr.p, gr.size);
#ifdef H_MSAN
	for (size_t s = 0; s < slots; s++) if (bySlot[s]) {
		if (hasOlen) __msan_check_mem_is_initialized(go.p + 8 * s, 8);
		if (hasRet) __msan_check_mem_is_initialized(gr.p + 4 * s, 4);
		uint64_t ol; memcpy(&ol, go.p + 8 * s, 8);
		int32_t e; memcpy(&e, gr.p + 4 * s, 4);
		if (hasOlen && hasRet && e == 0 && bySlot[s]->kind != K_SKIP && ol <= bySlot[s]->cap) __msan_check_mem_is_initialized(out.p + outOff + (single ? 0 : s * c.chunk), ol);
	}
	__msan_unpoison(in.p, in.size); __msan_unpoison(out.p, out.size); __msan_unpoison(gr.p, gr.size); __msan_unpoison(go.p, go.size);
#endif
	char ctx[200];
	snprintf(ctx, sizeof ctx, "[format %d chunk %zu stride %zu n=%zu map=%d ilen=%d]", c.fmt, c.chunk, c.stride, n, hasMap, hasIlen);
	for (size_t s = 0; s < slots; s++) {
		uint64_t ol; memcpy(&ol, go.p + 8 * s, 8);
		int32_t e; memcpy(&e, gr.p + 4 * s, 4);
		uint8_t *o = out.p + outOff + (single ? 0 : s * c.chunk);
		size_t oi = (size_t)(o - out.p);
		size_t olim = single ? outStrideEnd : c.chunk;
		Bytes b(before.begin() + (ptrdiff_t)oi, before.begin() + (ptrdiff_t)(oi + olim));
#ifdef H_MSAN
		if (!bySlot[s]) continue;
#else
		if (!bySlot[s]) {
			if (memcmp(o, b.data(), olim) || ol != 777 || e != 99) fail("kernel: chunk outside of the map touched", "slot %zu %s", s, ctx);
			continue;
		}
		if (hasRet && e == 99) fail("kernel: no return value stored", "%s", ctx);
		if (!hasRet && e != 99) fail("kernel: return value stored unasked", "%s", ctx);
		if (!hasOlen && ol != (bySlot[s]->cap)) fail("kernel: length stored unasked", "%s", ctx);
		size_t lim = hasOlen ? std::min(bySlot[s]->cap, olim) : std::min(c.chunk, olim);
		if (memcmp(o + lim, b.data() + lim, olim - lim)) fail("kernel: output written beyond the limit", "cap=%zu %s", bySlot[s]->cap, ctx);
#endif
		judge("kernel", c, *bySlot[s], hasOlen, hasRet, e, ol, o,
#ifdef H_MSAN
		      Bytes(),
#else
		      b,
#endif
		      ctx);
		if (bySlot[s]->comp.size() > 8 || bySlot[s]->kind == K_RAW) distinct(chunkSig(*bySlot[s]));
	}
#ifndef H_MSAN
	if (outOff && memcmp(out.p, before.data(), outOff)) fail("kernel: bytes before the output offset written", "%s", ctx);
#endif
	if (in.size && memcmp(in.p, inBefore.data(), in.size)) fail("kernel: input modified", "%s", ctx);
	if (!in.ok() || !out.ok() || !gi.ok() || !go.ok() || !gr.ok() || !gm.ok()) fail("kernel: memory around a buffer modified", "%s", ctx);
	stat("native.calls");
	stat(always ? "native.format.always" : "native.format.maybe");
	if (hasMap) stat("native.with.shufflemap");
	sample("native format %d chunk %zu stride %zu, %zu chunks, first comp=%s", c.fmt, c.chunk, c.stride, n, Hex(ch[0].comp).s);
}

#ifndef NO_HOST
// ---------------------------------------------------------------- the host side, on pocl
using lib842::CLHostDecompressor; using lib842::CLDeviceDecompressor; using lib842::CLDecompressorInputFormat;
static CLDecompressorInputFormat fmtOf(const ClCfg &c) { return CL_FORMAT(c); }
static CLHostDecompressor *hosts[NUM_CFG];
static CLDeviceDecompressor *devs[NUM_CFG];
static cl::Context *gctx; static cl::CommandQueue *gq; static cl::vector<cl::Device> gdevs;
static std::ostringstream gErr, gDbg;
static void initDev()
{
	if (gctx) return;
	cl::vector<cl::Platform> ps; cl::Platform::get(&ps);
	for (auto &p : ps) { cl::vector<cl::Device> d; try { p.getDevices(CL_DEVICE_TYPE_ALL, &d); } catch (cl::Error &) { continue; } if (!d.empty()) { gdevs = { d[0] }; break; } }
	if (gdevs.empty()) { inconclusive("no OpenCL device"); _exit(96); }
	gctx = new cl::Context(gdevs); gq = new cl::CommandQueue(*gctx, gdevs[0], 0);
}
static CLHostDecompressor &host(int i) { if (!hosts[i]) hosts[i] = new CLHostDecompressor(cfgs[i].chunk, cfgs[i].stride, fmtOf(cfgs[i]), false, i % 2); return *hosts[i]; }
static CLDeviceDecompressor &dev(int i)
{
	initDev();
	if (!devs[i]) devs[i] = new CLDeviceDecompressor(*gctx, gdevs, cfgs[i].chunk, cfgs[i].stride, fmtOf(cfgs[i]), []() -> std::ostream & { return gErr; }, []() -> std::ostream & { return gDbg; });
	return *devs[i];
}
static const char *exWhat(const std::exception &e) { static char b[200]; snprintf(b, sizeof b, "%s", e.what()); return b; }
static std::vector<Chunk> makeChunks(Rng &r, const ClCfg &c, size_t n, bool hostile, bool allowSkip, bool hasOlen, bool lastMayBeLong)
{
	std::vector<Chunk> ch;
	for (size_t i = 0; i < n; i++) {
		bool h = hostile && r.chance(60);
		size_t maxSlot = c.stride > ((size_t)1 << 30) ? 200000 : c.stride;
		(void)lastMayBeLong;
		ch.push_back(c.fmt == 0 ? makeAlways(r, c, h, maxSlot) : makeMaybe(r, c, h, allowSkip));
		if (!hasOlen) { ch.back().cap = c.chunk; }
	}
	return ch;
}
static int pickCfg(uint64_t idx, bool maybe) { static const int a[] = { 1, 0, 3, 2, 5, 4 }, m[] = { 7, 6, 9, 8, 10 }; uint64_t k = idx / 150; return maybe ? m[k % 5] : a[k % 6]; }


// CLHostDecompressor
static void hostCase(uint64_t idx, Rng &r, bool maybe, bool hostile)
{
	int ci = pickCfg(idx, maybe);
	const ClCfg &c = cfgs[ci];
	if (c.fmt == 1 && c.stride != c.chunk) { ci = 8; }
	const ClCfg &cc = cfgs[ci];
	bool single = cc.stride > ((size_t)1 << 30), always = cc.fmt == 0;
	size_t n = single ? 1 : manyChunks(idx, cc, 20000) ? 65530 + r.below(3000) : r.chance(5) && cc.chunk <= 1024 ? r.range(250, 530) : r.range(1, cc.chunk > 10000 ? 5 : 20);
	bool hasIlen = always ? (hostile || r.chance(70)) : r.chance(30), hasOlen = hostile || r.chance(70), hasRet = r.chance(80), hasMap = r.chance(40), hasTime = r.chance(30);
	std::vector<Chunk> ch = makeChunks(r, cc, n, hostile, true, hasOlen, single);
	size_t inSize = always ? 0 : n * cc.chunk;
	size_t lastFull = 0;
	if (always) {
		size_t lastLen = ch[n - 1].slot.size();
		if (lastLen == 0 && hasIlen) { ch[n - 1] = makeAlways(r, cc, false, single ? 200000 : cc.stride); if (!hasOlen) ch[n - 1].cap = cc.chunk; lastLen = ch[n - 1].slot.size(); if (!lastLen) return; }
		lastFull = hasIlen ? (r.chance(50) || single ? lastLen : cc.stride) : single ? lastLen + 64 : cc.stride;
		if (lastFull < lastLen) lastFull = lastLen;
		inSize = (single ? 0 : (n - 1) * cc.stride) + lastFull;
		if (!hasIlen && !single) for (auto &k : ch) if (k.slot.size() + 64 > cc.stride) { hasIlen = true; }
	}
	size_t outSize = n * cc.chunk;
	if (single) outSize = ch[0].cap;
	GuardBuf in(inSize, (unsigned)(r.chance(70) ? 0 : r.below(8)), true), out(outSize, (unsigned)(r.chance(70) ? 0 : r.below(8)), true);
	for (size_t i = 0; i < inSize; i++) in.p[i] = noise(i + idx);
	for (size_t i = 0; i < n; i++) if (!ch[i].slot.empty()) memcpy(in.p + (single ? 0 : i * cc.stride), ch[i].slot.data(), ch[i].slot.size());
	for (size_t i = 0; i < outSize; i++) out.p[i] = noise(i * 3 + idx + 7);
	Bytes outBefore(out.p, out.p + outSize);
	Bytes inBefore(in.p, in.p + inSize);
	GuardBuf gi(n * sizeof(size_t), 0, true), go(n * sizeof(size_t), 0, true), gm(n * sizeof(size_t), 0, true), gr(n * sizeof(int), 0, true);
	size_t *il = (size_t *)gi.p, *ol = (size_t *)go.p, *mp = (size_t *)gm.p; int *rt = (int *)gr.p;
	for (size_t i = 0; i < n; i++) { il[i] = ch[i].comp.size(); ol[i] = ch[i].cap; mp[i] = i; rt[i] = 99; }
	for (size_t i = n; i-- > 1;) std::swap(mp[i], mp[r.below(i + 1)]);
	long long time = -77;
	char ctx[200];
	snprintf(ctx, sizeof ctx, "[host, format %d chunk %zu stride %zu n=%zu map=%d ilen=%d olen=%d ret=%d]", cc.fmt, cc.chunk, cc.stride, n, hasMap, hasIlen, hasOlen, hasRet);
	try {
		// calls that can not be right are refused without touching anything
		if (inSize && outSize && r.chance(8)) {
			bool maybe = cc.fmt == 1, thrown = false, sizes = maybe && r.chance(60);
			size_t isz = inSize, osz = sizes ? r.chance(30) ? 0 : r.below(n) * cc.chunk : outSize;
			if (sizes && r.chance(50)) { isz = osz; osz = outSize; } // the other way round: more output than input
			try { host(ci).decompress(in.p, isz, nullptr, sizes ? out.p : in.p, sizes ? osz : inSize, nullptr, nullptr, nullptr, nullptr); } catch (const cl::Error &) { thrown = true; }
			if (!thrown) fail(sizes ? "host: different sizes accepted" : "host: same buffer accepted", "%zu bytes of input, %zu of output %s", isz, osz, ctx);
			if (memcmp(in.p, inBefore.data(), inSize) || memcmp(out.p, outBefore.data(), outSize)) fail("host: refused call modifies a buffer", "%s", ctx);
			stat("host.refused");
		}
		host(ci).decompress(in.p, inSize, hasIlen ? il : nullptr, out.p, outSize, hasOlen ? ol : nullptr, hasMap ? mp : nullptr, hasRet ? rt : nullptr, hasTime ? &time : nullptr);
	} catch (const std::exception &e) {
		fail("host decompressor throws", "%s %s", exWhat(e), ctx);
		return;
	}
	stat("host.calls"); stat("host.chunks", n);
	if (hasMap) stat("host.with.shufflemap");
	if (n > 256) stat("host.over.one.workgroup");
	if (n > 60000) stat("host.over.16.bits");
	if (!in.ok() || !out.ok() || !gi.ok() || !go.ok() || !gm.ok() || !gr.ok()) fail("host decompressor writes outside its buffers", "%s", ctx);
	if (inSize && memcmp(in.p, inBefore.data(), inSize)) fail("host decompressor modifies its input", "%s", ctx);
	for (size_t i = 0; i < n; i++) {
		if (hasRet && rt[i] == 99) { fail("no return value stored for a chunk", "chunk %zu %s", i, ctx); continue; }
		if (single && !hasOlen && ch[i].d.out.size() > outSize) continue;
		judge("host", cc, ch[i], hasOlen, hasRet, rt[i], ol[i], out.p + (single ? 0 : i * cc.chunk), ch[i].kind == K_SKIP ? Bytes(outBefore.begin() + i * cc.chunk, outBefore.begin() + (i + 1) * cc.chunk) : Bytes(), ctx);
		distinct(chunkSig(ch[i]));
	}
	if (hasTime) { if (time == -77) fail("time not stored", "%s", ctx); }
	sample("host format %d chunk %zu stride %zu n=%zu, first comp=%s", cc.fmt, cc.chunk, cc.stride, n, Hex(ch[0].comp).s);
}
// CLDeviceDecompressor on buffers that live in guarded host memory
static void devCase(uint64_t idx, Rng &r, bool maybe, bool hostile)
{
	int ci = pickCfg(idx, maybe);
	const ClCfg &c = cfgs[ci];
	bool single = c.stride > ((size_t)1 << 30), always = c.fmt == 0;
	size_t n = single ? 1 : manyChunks(idx, c, 20000) ? 65530 + r.below(3000) : r.range(1, c.chunk > 10000 ? 4 : 16);
	bool hasIlen = always ? (hostile || r.chance(70)) : r.chance(30), hasOlen = hostile || r.chance(70), hasRet = r.chance(80), hasMap = r.chance(50);
	if (n > 60000) stat("device.over.16.bits");
	std::vector<Chunk> ch = makeChunks(r, c, n, hostile, true, hasOlen, single);
	if (always && !hasIlen) for (auto &k : ch) if (k.slot.size() + 64 > c.stride) hasIlen = true;
	size_t slots = n + (hasMap && !single ? r.below(3) : 0);
	std::vector<size_t> all(slots), bySlot(slots, (size_t)-1);
	for (size_t i = 0; i < slots; i++) all[i] = i;
	if (hasMap) for (size_t i = slots; i-- > 1;) std::swap(all[i], all[r.below(i + 1)]);
	for (size_t i = 0; i < n; i++) bySlot[all[i]] = i;
	size_t inOff = 8 * r.below(20), outOff = 8 * r.below(20);
	size_t inSize = inOff + 8, outSize = outOff + (single ? std::max(ch[0].cap, (size_t)8) : slots * c.chunk);
	for (size_t s = 0; s < slots; s++) if (bySlot[s] != (size_t)-1) {
		const Chunk &k = ch[bySlot[s]];
		size_t len = !always ? c.chunk : hasIlen ? k.slot.size() : single ? k.slot.size() + 64 : c.stride;
		inSize = std::max(inSize, inOff + (single ? 0 : s * c.stride) + len);
	}
	GuardBuf in(inSize, 0, true), out(outSize, 0, true);
	for (size_t i = 0; i < inSize; i++) in.p[i] = noise(i + idx);
	for (size_t i = 0; i < outSize; i++) out.p[i] = noise(i * 5 + idx);
	for (size_t s = 0; s < slots; s++) if (bySlot[s] != (size_t)-1 && !ch[bySlot[s]].slot.empty()) memcpy(in.p + inOff + (single ? 0 : s * c.stride), ch[bySlot[s]].slot.data(), ch[bySlot[s]].slot.size());
	Bytes inBefore(in.p, in.p + inSize), outBefore(out.p, out.p + outSize);
	std::vector<cl_ulong> il(slots, 1), ol(slots, 777), mp(n); std::vector<cl_int> rt(slots, 99);
	for (size_t s = 0; s < slots; s++) if (bySlot[s] != (size_t)-1) { il[s] = ch[bySlot[s]].comp.size(); ol[s] = ch[bySlot[s]].cap; }
	for (size_t i = 0; i < n; i++) mp[i] = all[i];
	char ctx[200];
	snprintf(ctx, sizeof ctx, "[device, format %d chunk %zu stride %zu n=%zu map=%d ilen=%d olen=%d ret=%d]", c.fmt, c.chunk, c.stride, n, hasMap, hasIlen, hasOlen, hasRet);
	bool useEvents = r.chance(25);
	try {
		CLDeviceDecompressor &d = dev(ci);
		auto hp = [&](void *p, size_t sz) { return cl::Buffer(*gctx, CL_MEM_READ_WRITE | CL_MEM_USE_HOST_PTR, sz, p); };
		cl::Buffer bin = hp(in.p, inSize), bout = hp(out.p, outSize), bil, bol, bmp, brt;
		if (hasIlen) bil = hp(il.data(), 8 * slots);
		if (hasOlen) bol = hp(ol.data(), 8 * slots);
		if (hasMap) bmp = hp(mp.data(), 8 * n);
		if (hasRet) brt = hp(rt.data(), 4 * slots);
		const cl::Buffer &p1 = CL_RETURN_VALUES_FIRST ? brt : bmp, &p2 = CL_RETURN_VALUES_FIRST ? bmp : brt;
		cl::Event done;
		if (useEvents) {
			cl::UserEvent gate(*gctx);
			cl::vector<cl::Event> wait = { gate };
			d.decompress(*gq, n, bin, inOff, bil, bout, outOff, bol, p1, p2, &wait, &done);
			gq->flush();
			if (r.chance(20)) usleep(3000);
			if (done.getInfo<CL_EVENT_COMMAND_EXECUTION_STATUS>() == CL_COMPLETE) fail("decompression did not wait for its event list", "%s", ctx);
			if (memcmp(out.p, outBefore.data(), outSize)) fail("output written before the events to wait for", "%s", ctx);
			gate.setStatus(CL_COMPLETE);
			done.wait();
			stat("device.with.events");
		} else if (r.chance(50)) { d.decompress(*gq, n, bin, inOff, bil, bout, outOff, bol, p1, p2, nullptr, &done); done.wait(); }
		else { d.decompress(*gq, n, bin, inOff, bil, bout, outOff, bol, p1, p2); gq->finish(); }
		// make the results visible on the host
		auto sync = [&](cl::Buffer &b, size_t sz) { void *m = gq->enqueueMapBuffer(b, CL_TRUE, CL_MAP_READ, 0, sz); gq->enqueueUnmapMemObject(b, m); };
		sync(bout, outSize); sync(bin, inSize);
		if (hasOlen) sync(bol, 8 * slots);
		if (hasRet) sync(brt, 4 * slots);
		gq->finish();
	} catch (const std::exception &e) { fail("device decompressor throws", "%s %s", exWhat(e), ctx); return; }
	stat("device.calls"); stat("device.chunks", n);
	if (!in.ok() || !out.ok()) fail("device decompressor writes outside its buffers", "%s", ctx);
	if (inSize && memcmp(in.p, inBefore.data(), inSize)) fail("device decompressor modifies its input", "%s", ctx);
	if (memcmp(out.p, outBefore.data(), outOff)) fail("bytes before the output offset written", "%s", ctx);
	for (size_t s = 0; s < slots; s++) {
		size_t o = outOff + (single ? 0 : s * c.chunk), lim = single ? outSize - outOff : c.chunk;
		if (bySlot[s] == (size_t)-1) {
			if (memcmp(out.p + o, outBefore.data() + o, lim) || ol[s] != 777 || rt[s] != 99) fail("chunk outside of the map touched", "slot %zu %s", s, ctx);
			continue;
		}
		const Chunk &k = ch[bySlot[s]];
		if (hasRet && rt[s] == 99) { fail("no return value stored for a chunk", "slot %zu %s", s, ctx); continue; }
		size_t w = std::min(hasOlen ? k.cap : c.chunk, lim);
		if (memcmp(out.p + o + w, outBefore.data() + o + w, lim - w)) fail("output written beyond the limit", "cap=%zu %s", k.cap, ctx);
		Bytes b(outBefore.begin() + (ptrdiff_t)o, outBefore.begin() + (ptrdiff_t)(o + lim));
		if (single && !hasOlen && k.d.out.size() > lim) continue;
		judge("device", c, k, hasOlen, hasRet, rt[s], ol[s], out.p + o, b, ctx);
		distinct(chunkSig(k));
	}
	sample("device format %d chunk %zu stride %zu n=%zu, first comp=%s", c.fmt, c.chunk, c.stride, n, Hex(ch[0].comp).s);
}

#endif
// ---------------------------------------------------------------- L06: in place
// Whether decompressing in place is documented to work: no word of output is stored over a word of the stream that is
// more than 6 words ahead of those consumed. base: words of the slot before the stream.
static bool overtakes(const std::vector<ref::Tok> &toks, size_t base, size_t words, size_t lookahead)
{
	uint64_t bits = 0, o = 0;
	for (const ref::Tok &t : toks) {
		uint64_t n = 1;
		bits += 5;
		if (t.op == ref::OP_REPEAT) { bits += 6; n = t.arg[0] + 1; }
		else if (t.op == ref::OP_SHORT) { bits += 3 + 8 * t.arg[0]; }
		else if (t.op <= 0x19) { ref::Template T = ref::makeTemplate(t.op); for (int i = 0; i < T.n; i++) bits += ref::slotBits(T.s[i]); }
		o += n; // the last word stored is o - 1
		uint64_t loaded = (bits + 63) / 64 + lookahead;
		for (uint64_t j = o - n; j < o; j++) if (j >= base && j - base >= loaded && j - base < words) return true;
	}
	return false;
}
static bool unluckyIn(const Bytes &comp, size_t chunk, size_t lookahead)
{
	std::vector<ref::Tok> toks; ref::decode(comp.data(), comp.size(), &toks);
	return overtakes(toks, (chunk - comp.size()) / 8, comp.size() / 8, lookahead);
}
// A stream whose cheap part comes first, as close to overtaking as possible (or just beyond)
static bool makeTight(Rng &r, size_t chunk, Bytes &comp)
{
	size_t words = chunk / 8;
	for (int tries = 0; tries < 20; tries++) {
		size_t most = std::max<size_t>(words * 64 / 75, 2), m = most > 90 && r.chance(75) ? r.range(80, most) : 1 + r.below(most); // literals
		std::vector<ref::Tok> tail;
		size_t n = 0;
		for (size_t i = 0; i < m; i++) {
			ref::Tok t; memset(&t, 0, sizeof t);
			if (r.chance(97)) { t.op = 0; t.arg[0] = r.next(); }
			else t.op = ref::OP_ZEROS;
			tail.push_back(t); n++;
		}
		if (n >= words) continue;
		unsigned kind = (unsigned)r.below(3);
		auto build = [&](size_t z, std::vector<ref::Tok> &toks) { // z words of cheap data in front
			toks.clear();
			for (size_t left = z; left;) {
				ref::Tok t; memset(&t, 0, sizeof t); t.op = ref::OP_ZEROS; size_t k = 1;
				if (kind && !toks.empty()) { t.op = ref::OP_REPEAT; k = std::min<size_t>(left, kind == 1 ? 64 : 3); t.arg[0] = k - 1; }
				toks.push_back(t); left -= k;
			}
			toks.insert(toks.end(), tail.begin(), tail.end());
			ref::BitWriter w; for (auto &t : toks) ref::putTok(w, t);
			w.put(ref::OP_END, 5); w.put(r.below(5) ? 0x12345678 : 0, 32); w.pad(8);
			return w.b;
		};
		std::vector<ref::Tok> toks;
		size_t lo = 0, hi = words - n; // largest z that does not overtake
		Bytes b = build(0, toks);
		if (b.size() > chunk - 24) continue;
		while (lo < hi) {
			size_t z = (lo + hi + 1) / 2; b = build(z, toks);
			if (b.size() > chunk - 24 || overtakes(toks, (chunk - b.size()) / 8, b.size() / 8, 6)) hi = z - 1; else lo = z;
		}
		size_t z = lo;
		if (r.chance(30)) z += r.range(1, 3); else if (r.chance(30)) z -= std::min<size_t>(z, r.below(3));
		if (z + n > words) z = words - n;
		comp = build(z, toks);
		if (comp.size() <= chunk - 24) return true;
	}
	return false;
}
static Chunk makeInplace(Rng &r, const ClCfg &c, bool hostile, bool hasOlen)
{
	for (int tries = 0;; tries++) {
		Chunk k = makeMaybe(r, c, hostile && hasOlen, true);
		if ((k.kind == K_VALID || k.kind == K_HOSTILE) && r.chance(45) && makeTight(r, c.chunk, k.comp)) {
			k.kind = K_VALID;
			for (size_t i = 24; i < c.chunk; i++) k.slot[i] = noise(i * 7 + k.comp.size());
			uint64_t size = k.comp.size(); memcpy(k.slot.data() + 16, &size, 8);
			memcpy(k.slot.data() + c.chunk - size, k.comp.data(), size);
			k.d = ref::decode(k.comp.data(), k.comp.size());
			k.cap = hostile ? genCap(r, k.d.out.size(), c.chunk) : c.chunk;
			stat("inplace.tight");
			if (!unluckyIn(k.comp, c.chunk, 6) && unluckyIn(k.comp, c.chunk, 5)) stat("inplace.exactly at the limit");
		}
		if (k.kind == K_VALID || k.kind == K_HOSTILE) k.unlucky = unluckyIn(k.comp, c.chunk, 6);
		if (k.kind == K_RAW || k.kind == K_SKIP) k.cap = c.chunk;
		if (!hasOlen) { if ((k.unlucky || k.kind == K_ODDSIZE || k.kind == K_BADSIZE || k.d.out.size() > c.chunk) && tries < 50) continue; k.cap = c.chunk; if (tries >= 50) { k = makeMaybe(r, c, false, false); while (k.kind != K_RAW) k = makeMaybe(r, c, false, false); k.cap = c.chunk; } }
		return k;
	}
}
static void judgeInplace(const char *who, const ClCfg &c, const Chunk &k, bool hasOlen, bool hasRet, int ret, uint64_t olen, const uint8_t *now, const char *ctx)
{
	char key[200];
#define J(what, ...) do { snprintf(key, sizeof key, "%s: %s", who, what); fail(key, __VA_ARGS__); } while (0)
	if (k.kind == K_RAW || k.kind == K_SKIP || k.kind == K_BADSIZE) {
		if (memcmp(now, k.slot.data(), c.chunk)) J("chunk that needs no work modified in place", "kind %d %s", k.kind, ctx);
		stat("inplace.untouched");
		if (k.kind == K_RAW) {
			if (hasRet && ret) J("uncompressed chunk rejected", "ret=%d %s", ret, ctx);
			if (hasOlen && olen != c.chunk) J("wrong size of an uncompressed chunk", "olen=%llu %s", (unsigned long long)olen, ctx);
			return;
		}
	}
	size_t cap = hasOlen ? k.cap : c.chunk;
	if (memcmp(now + cap, k.slot.data() + cap, c.chunk - cap)) J("written in place beyond the limit", "cap=%zu %s", cap, ctx);
	if (k.unlucky) { // documented not to work
		stat("inplace.unlucky");
		if (hasRet && ret > 0) J("positive return value for a chunk", "ret=%d %s", ret, ctx);
		if (hasOlen && (hasRet && ret ? olen != 0 : olen > cap)) J("impossible length", "ret=%d olen=%llu cap=%zu %s", ret, (unsigned long long)olen, cap, ctx);
		return;
	}
	judge(who, c, k, hasOlen, hasRet, ret, olen, now, Bytes(), ctx);
	if (k.kind == K_VALID && hasRet && ret == 0) {
		size_t n = k.d.out.size();
		if (n <= c.chunk && memcmp(now + n, k.slot.data() + n, c.chunk - n)) J("written in place beyond the decompressed data", "out=%zu %s", n, ctx);
		stat("inplace.decompressed");
	}
#undef J
}
__attribute__((no_sanitize("function")))
static void inplaceCase(uint64_t idx, Rng &r, int how) // how: 0 host, 1 device, 2 native
{
	int ci = FIRST_INPLACE + (int)((idx / 150 + (how == 2 ? idx : 0)) % NUM_INPLACE);
	const ClCfg &c = cfgs[ci];
	const Native *nat = nullptr;
	if (how == 2) { for (const Native *q = natives; q->f; q++) if (q->cfg == ci) nat = q; if (!nat) { stat("native.unavailable"); return; } }
	bool hostile = r.chance(35), hasIlen = r.chance(30), hasOlen = r.chance(75), hasRet = r.chance(85), hasMap = r.chance(40);
	size_t n = how < 2 && manyChunks(idx, c, 20000) ? 65530 + r.below(3000) : r.chance(5) && c.chunk <= 1024 ? r.range(250, 530) : r.range(1, c.chunk > 10000 ? 4 : 16);
	if (n > 60000) stat("inplace.over.16.bits");
	std::vector<Chunk> ch;
	for (size_t i = 0; i < n; i++) ch.push_back(makeInplace(r, c, hostile && r.chance(60), hasOlen));
	size_t slots = n + (hasMap && how ? r.below(3) : 0), off = how ? 8 * r.below(20) : 0;
	std::vector<uint64_t> map(slots); for (size_t i = 0; i < slots; i++) map[i] = i;
	if (hasMap) for (size_t i = slots; i-- > 1;) std::swap(map[i], map[r.below(i + 1)]);
	std::vector<const Chunk *> bySlot(slots, nullptr);
	for (size_t i = 0; i < n; i++) bySlot[map[i]] = &ch[i];
	GuardBuf buf(off + slots * c.chunk, how || r.chance(70) ? 0 : (unsigned)r.below(8), true);
	for (size_t i = 0; i < buf.size; i++) buf.p[i] = noise(i + idx);
	for (size_t s = 0; s < slots; s++) if (bySlot[s]) memcpy(buf.p + off + s * c.chunk, bySlot[s]->slot.data(), c.chunk);
	Bytes before(buf.p, buf.p + buf.size);
	GuardBuf gi(8 * slots, 0, true), go(8 * slots, 0, true), gm(8 * n, 0, true), gr(4 * slots + (slots & 1 ? 4 : 0), 0, true);
	for (size_t s = 0; s < slots; s++) {
		uint64_t v = bySlot[s] ? bySlot[s]->comp.size() : 12345; memcpy(gi.p + 8 * s, &v, 8);
		v = bySlot[s] ? bySlot[s]->cap : 777; memcpy(go.p + 8 * s, &v, 8);
		int32_t e = 99; memcpy(gr.p + 4 * s, &e, 4);
	}
	memcpy(gm.p, map.data(), 8 * n);
	char ctx[200];
	snprintf(ctx, sizeof ctx, "[in place, chunk %zu n=%zu map=%d ilen=%d olen=%d ret=%d]", c.chunk, n, hasMap, hasIlen, hasOlen, hasRet);
	const char *who = how == 2 ? "kernel" : how ? "device" : "host";
	if (how == 2) {
		curGlobal = (n + 255) / 256 * 256;
		for (size_t w = 0; w < n + (n < curGlobal ? 1 : 0); w++) {
			size_t s = w < n ? (hasMap ? map[w] : w) : 0;
			Poison::on(buf.p, buf.size); Poison::on(go.p, go.size); Poison::on(gr.p, gr.size);
			if (w < n) { Poison::off(buf.p + off + s * c.chunk, c.chunk); Poison::off(go.p + 8 * s, 8); Poison::off(gr.p + (4 * s & ~(size_t)7), 8); }
			curGid = w;
			nat->f(buf.p, off, hasIlen ? gi.p : nullptr, buf.p, off, hasOlen ? go.p : nullptr, n, hasMap ? gm.p : nullptr, hasRet ? gr.p : nullptr);
		}
		Poison::off(buf.p, buf.size); Poison::off(go.p, go.size); Poison::off(gr.p, gr.size);
		stat("native.calls");
	}
#ifndef NO_HOST
	else if (how == 0) {
		long long time = -77;
		try {
			if (r.chance(10)) { // not in place: refused
				GuardBuf other(buf.size, 0, true); bool thrown = false; memset(other.p, 0x5a, other.size); Bytes ob(other.p, other.p + other.size);
				try { host(ci).decompress(buf.p, buf.size, nullptr, other.p, other.size, nullptr, nullptr, nullptr, nullptr); } catch (const cl::Error &) { thrown = true; }
				if (!thrown) fail("host: different buffers accepted in place", "%s", ctx);
				if (memcmp(buf.p, before.data(), buf.size) || memcmp(other.p, ob.data(), other.size)) fail("host: refused call modifies a buffer", "%s", ctx);
				stat("host.refused");
			}
			if (r.chance(10)) { // not the same sizes: refused
				bool thrown = false; size_t less = r.chance(30) ? 0 : r.below(n) * c.chunk, isz = buf.size, osz = less;
				if (r.chance(50)) std::swap(isz, osz);
				try { host(ci).decompress(buf.p, isz, nullptr, buf.p, osz, nullptr, nullptr, nullptr, nullptr); } catch (const cl::Error &) { thrown = true; }
				if (!thrown) fail("host: different sizes accepted in place", "input %zu output %zu %s", isz, osz, ctx);
				if (memcmp(buf.p, before.data(), buf.size)) fail("host: refused call modifies a buffer", "%s", ctx);
				stat("host.refused.sizes");
			}
			host(ci).decompress(buf.p, buf.size, hasIlen ? (size_t *)gi.p : nullptr, buf.p, buf.size, hasOlen ? (size_t *)go.p : nullptr, hasMap ? (size_t *)gm.p : nullptr, hasRet ? (int *)gr.p : nullptr, r.chance(30) ? &time : nullptr);
		} catch (const std::exception &e) { fail("host: throws", "%s %s", exWhat(e), ctx); return; }
		stat("host.calls");
	} else {
		try {
			CLDeviceDecompressor &d = dev(ci);
			auto hp = [&](void *p, size_t sz) { return cl::Buffer(*gctx, CL_MEM_READ_WRITE | CL_MEM_USE_HOST_PTR, sz, p); };
			cl::Buffer b = hp(buf.p, buf.size), bil, bol, bmp, brt;
			if (hasIlen) bil = hp(gi.p, 8 * slots);
			if (hasOlen) bol = hp(go.p, 8 * slots);
			if (hasMap) bmp = hp(gm.p, 8 * n);
			if (hasRet) brt = hp(gr.p, 4 * slots);
			const cl::Buffer &p1 = CL_RETURN_VALUES_FIRST ? brt : bmp, &p2 = CL_RETURN_VALUES_FIRST ? bmp : brt;
			cl::Event done;
			if (r.chance(10)) {
				bool thrown = false;
				try { d.decompress(*gq, n, b, off, bil, b, off + 8, bol, p1, p2); } catch (const cl::Error &) { thrown = true; }
				if (!thrown) { gq->finish(); fail("device: different offsets accepted in place", "%s", ctx); return; }
				cl::Buffer other(*gctx, CL_MEM_READ_WRITE, buf.size); thrown = false;
				try { d.decompress(*gq, n, b, off, bil, other, off, bol, p1, p2); } catch (const cl::Error &) { thrown = true; }
				if (!thrown) { gq->finish(); fail("device: different buffers accepted in place", "%s", ctx); return; }
				stat("device.refused");
			}
			d.decompress(*gq, n, b, off, bil, b, off, bol, p1, p2, nullptr, &done); done.wait();
			auto sync = [&](cl::Buffer &x, size_t sz) { void *m = gq->enqueueMapBuffer(x, CL_TRUE, CL_MAP_READ, 0, sz); gq->enqueueUnmapMemObject(x, m); };
			sync(b, buf.size);
			if (hasOlen) sync(bol, 8 * slots);
			if (hasRet) sync(brt, 4 * slots);
			gq->finish();
		} catch (const std::exception &e) { fail("device: throws", "%s %s", exWhat(e), ctx); return; }
		stat("device.calls");
	}
#endif
	if (hasMap) stat("with.shufflemap");
	if (!buf.ok() || !gi.ok() || !go.ok() || !gm.ok() || !gr.ok()) fail("memory around a buffer modified", "%s %s", who, ctx);
	if (off && memcmp(buf.p, before.data(), off)) fail("bytes before the offset written", "%s %s", who, ctx);
	for (size_t s = 0; s < slots; s++) {
		uint64_t ol; memcpy(&ol, go.p + 8 * s, 8); int32_t e; memcpy(&e, gr.p + 4 * s, 4);
		uint8_t *now = buf.p + off + s * c.chunk;
		if (!bySlot[s]) { if (memcmp(now, before.data() + (now - buf.p), c.chunk) || ol != 777 || e != 99) fail("chunk outside of the map touched", "%s slot %zu %s", who, s, ctx); continue; }
		if (hasRet && e == 99) { fail("no return value stored for a chunk", "%s slot %zu %s", who, s, ctx); continue; }
		judgeInplace(who, c, *bySlot[s], hasOlen, hasRet, e, ol, now, ctx);
		distinct(chunkSig(*bySlot[s]));
	}
	sample("%s in place, chunk %zu, n=%zu, first comp=%s", who, c.chunk, n, Hex(ch[0].comp).s);
}

#ifndef NO_HOST
// ---------------------------------------------------------------- L04: program cache
static Bytes slurp(const char *p) { Bytes b; FILE *f = fopen(p, "rb"); if (!f) return b; uint8_t t[65536]; size_t n; while ((n = fread(t, 1, sizeof t, f)) > 0) b.insert(b.end(), t, t + n); fclose(f); return b; }
static void spew(const char *p, const Bytes &b) { FILE *f = fopen(p, "wb"); if (!f) _exit(98); if (!b.empty() && fwrite(b.data(), 1, b.size(), f) != b.size()) _exit(98); fclose(f); }
static char cacheFile[4096];
// the file(s) in the scratch cache directory
static bool findCache()
{
	char d[4096]; snprintf(d, sizeof d, "%s/cache", clio::dir);
	DIR *dp = opendir(d); if (!dp) return false;
	bool got = false;
	while (dirent *e = readdir(dp)) if (e->d_name[0] != '.') { snprintf(cacheFile, sizeof cacheFile, "%s/%s", d, e->d_name); got = true; }
	closedir(dp);
	return got;
}
static void clearCache() { while (findCache()) if (::unlink(cacheFile)) _exit(98); }
static const int l4cfg[] = { 8, 2, 3, 10 }; // 1024 MAYBE, 1024/2048, 512/640, 64 MAYBE
static const ClCfg l4[] = { { 0, 1024, 2048 }, { 0, 512, 2048 }, { 0, 1024, 1032 }, { 0, 1024, 1024 }, { 1, 1024, 1024 } };
enum { NL4 = 5 };
static Bytes l4file[NL4];
static char cacheName[4096];
// constructs a decompressor for configuration i and decompresses something whose result depends on all parameters
static void l4probe(int i, Rng &r, const char *what)
{
	const ClCfg &c = l4[i];
	size_t n = 3;
	std::vector<Chunk> ch;
	for (size_t k = 0; k < n; k++) { Chunk x = c.fmt == 0 ? makeAlways(r, c, false, c.stride) : makeMaybe(r, c, false, false); x.cap = c.chunk; ch.push_back(x); }
	// at least 8 bytes of output in chunks 1 and 2, so that a wrong stride, size or format shows
	for (size_t k = 1; k < n; k++) {
		Bytes in; genInto(r, in, c.chunk / 2, 2); Bytes o(4096); size_t ol = o.size();
		if (optsw842_compress(in.data(), in.size(), o.data(), &ol)) return;
		o.resize(ol); o.resize((o.size() + 7) & ~(size_t)7);
		if (c.fmt == 0) { ch[k].kind = K_VALID; ch[k].comp = ch[k].slot = o; ch[k].d = ref::decode(o.data(), o.size()); }
		else if (k == 2) { ch[k].kind = K_RAW; ch[k].comp.clear(); ch[k].slot.assign(c.chunk, 0); for (auto &b : ch[k].slot) b = (uint8_t)r.next(); ch[k].d = ref::Decoded(); ch[k].d.out = ch[k].slot; }
		else { ch[k].kind = K_VALID; ch[k].comp = o; ch[k].slot.assign(c.chunk, 7); memcpy(ch[k].slot.data(), marker, 16); uint64_t s = o.size(); memcpy(ch[k].slot.data() + 16, &s, 8); memcpy(ch[k].slot.data() + c.chunk - s, o.data(), s); ch[k].d = ref::decode(o.data(), o.size()); }
	}
	Bytes in(c.fmt == 0 ? n * c.stride : n * c.chunk, 0x5a), out(n * c.chunk, 0xCC);
	size_t il[3], ol[3]; int rt[3] = { 99, 99, 99 };
	for (size_t k = 0; k < n; k++) { if (!ch[k].slot.empty()) memcpy(in.data() + k * c.stride, ch[k].slot.data(), ch[k].slot.size()); il[k] = ch[k].comp.size(); ol[k] = ch[k].cap; }
	try {
		CLHostDecompressor d(c.chunk, c.stride, fmtOf(c), false, false);
		d.decompress(in.data(), in.size(), c.fmt == 0 ? il : nullptr, out.data(), out.size(), ol, nullptr, rt, nullptr);
	} catch (const std::exception &e) { fail("decompressor unusable because of its program cache", "%s: %s", what, exWhat(e)); return; }
	char ctx[200]; snprintf(ctx, sizeof ctx, "[cache: %s; format %d chunk %zu stride %zu]", what, c.fmt, c.chunk, c.stride);
	for (size_t k = 0; k < n; k++) judge("with program cache", c, ch[k], true, true, rt[k], ol[k], out.data() + k * c.chunk, Bytes(), ctx);
	stat("cache.probes");
}
// The layout of the cache file as written; empty when it is not as expected
struct Layout { bool ok = false; size_t namesAt = 0, binAt = 0, binLen = 0; };
static Layout layout(const Bytes &b)
{
	Layout l; size_t o = 8 + 8 + 4 + 4; uint64_t n, len;
	auto get = [&](uint64_t &v) { if (o + 8 > b.size()) return false; memcpy(&v, b.data() + o, 8); o += 8; return true; };
	l.namesAt = o;
	if (!get(n) || n != 1 || !get(len) || len > 10000) return l;
	o += len;
	if (!get(len)) return l;
	l.binAt = o; l.binLen = len;
	l.ok = o + len == b.size();
	return l;
}
static void l04(uint64_t idx, Rng &r)
{
	clio::mode = clio::NORMAL;
	if (l4file[0].empty()) { // the files the library itself writes for every configuration
		for (int i = 0; i < NL4; i++) {
			clearCache();
			Rng q(1, (uint64_t)i); l4probe(i, q, "absent");
			if (!findCache()) { inconclusive("the library wrote no program cache (redirected opens: %lu)", clio::touched); l4file[0].clear(); return; }
			snprintf(cacheName, sizeof cacheName, "%s", cacheFile);
			l4file[i] = slurp(cacheFile);
		}
	}
	int i = (int)r.below(NL4), j = (int)((i + 1 + (int)r.below(NL4 - 1)) % NL4);
	const Bytes &A = l4file[i], &B = l4file[j];
	Layout la = layout(A), lb = layout(B);
	if (la.ok) stat("cache.layout.known");
	Bytes f = A;
	char what[200];
	clearCache();
	unsigned kind = (unsigned)(idx % 17);
	bool put = true;
	switch (kind) {
	case 0: snprintf(what, sizeof what, "valid"); break;
	case 1: f = B; snprintf(what, sizeof what, "written for other parameters (format %d chunk %zu stride %zu)", l4[j].fmt, l4[j].chunk, l4[j].stride); break;
	case 2: { size_t n = r.chance(60) ? r.below(std::min<size_t>(A.size(), 160)) : r.below(A.size()); f.resize(n); snprintf(what, sizeof what, "truncated to %zu of %zu bytes", n, A.size()); break; }
	case 3: { f.clear(); size_t n = r.below(400); while (f.size() < n) f.push_back((uint8_t)r.next()); snprintf(what, sizeof what, "%zu random bytes", n); break; }
	case 4: { size_t head = la.ok ? la.binAt : 80; size_t at = 8 * r.below(head / 8); uint64_t v = r.chance(50) ? r.next() : (uint64_t)1 << r.below(64); if (r.chance(20)) v = ~0ull - r.below(40);
		if (la.ok && at == la.binAt - 8 && v < la.binLen && v) v |= 1ull << 63; // (a shortened program is a damaged program)
		memcpy(f.data() + at, &v, 8); snprintf(what, sizeof what, "word %zu of the header replaced by %llx", at / 8, (unsigned long long)v); break; }
	case 5: if (!la.ok) return; { static const uint64_t v[] = { ~0ull, 1ull << 62, 1ull << 63, 1ull << 40, 0, 2, 1000, (1ull << 33) + 1, 3 }; uint64_t x = v[r.below(9)]; size_t at = r.chance(33) ? la.namesAt : r.chance(50) ? la.namesAt + 8 : la.binAt - 8; if (at == la.binAt - 8 && x < la.binLen && x) x = la.binLen + 1 + r.below(9); memcpy(f.data() + at, &x, 8); snprintf(what, sizeof what, "length field at %zu set to %llx", at, (unsigned long long)x); } break;
	case 6: if (!la.ok || !lb.ok) return; { // other parameters' program behind a header that differs from ours in one field only
		f.assign(A.begin(), A.begin() + (ptrdiff_t)(la.binAt - 8)); f.insert(f.end(), B.begin() + (ptrdiff_t)(lb.binAt - 8), B.end());
		static const size_t at[] = { 20, 21, 22, 23 }; size_t a = at[r.below(4)]; size_t nameLen = la.binAt - 8 - la.namesAt - 16;
		if (r.chance(40) && nameLen) a = la.namesAt + 16 + r.below(nameLen);
		f[a] ^= (uint8_t)(1 << r.below(8));
		snprintf(what, sizeof what, "another program with %s of the header changed (byte %zu)", a < la.namesAt ? "the source hash" : "the device name", a); break; }
	case 7: if (!la.ok) return; { size_t n = r.range(1, std::min<size_t>(la.binLen, 64)); for (size_t k = 0; k < n; k++) f[la.binAt + k] = (uint8_t)r.next(); snprintf(what, sizeof what, "first %zu bytes of the program overwritten", n); break; }
	case 8: put = false; clio::mode = clio::READ_FAIL; clio::err = r.chance(50) ? EACCES : EIO; snprintf(what, sizeof what, "unreadable"); break;
	case 9: put = false; clio::mode = clio::WRITE_OPEN_FAIL; { static const int e[] = { EACCES, EROFS, ENOSPC, EMFILE, EPERM }; clio::err = e[r.below(5)]; } snprintf(what, sizeof what, "absent and can not be created (errno %d)", clio::err); break;
	case 10: put = false; clio::mode = clio::WRITE_FULL; snprintf(what, sizeof what, "absent and the disk is full"); break;
	case 11: put = false; clio::mode = clio::DIRECTORY; snprintf(what, sizeof what, "a directory"); break;
	case 12: f = B; clio::mode = clio::WRITE_OPEN_FAIL; clio::err = EACCES; snprintf(what, sizeof what, "written for other parameters and read-only"); break;
	case 13: f.insert(f.end(), r.range(1, 100), 0); snprintf(what, sizeof what, "followed by extra bytes"); break;
	case 14: f.clear(); snprintf(what, sizeof what, "empty"); break;
	case 15: { // built concurrently for different parameters
		put = false; snprintf(what, sizeof what, "shared by decompressors built concurrently");
		uint64_t seed = r.next(); unsigned nt = (unsigned)r.range(2, 4);
		for (int round = 0; round < 4; round++) {
			std::vector<std::thread> th;
			clio::slowWrites = r.chance(70);
			for (unsigned t = 0; t < nt; t++) th.emplace_back([=]() { Rng q(seed, t, (uint64_t)round); for (int k = 0; k < 2; k++) l4probe((int)q.below(NL4), q, "shared by decompressors built concurrently"); });
			for (auto &t : th) t.join();
			clio::slowWrites = false;
		}
		stat("cache.concurrent.rounds", 4);
		break; }
	default: { // several decompressors for several parameters built one after the other
		put = false; snprintf(what, sizeof what, "shared by decompressors with different parameters");
		for (int k = 0; k < 3; k++) l4probe((int)r.below(NL4), r, what);
		break; }
	}
	if (put) { int m = clio::mode; clio::mode = clio::NORMAL; spew(cacheName, f); clio::mode = m; }
	char st[60]; snprintf(st, sizeof st, "cache.kind.%02u", kind); stat(st);
	l4probe(i, r, what);
	clio::mode = clio::NORMAL;
	// whatever the file was, the next decompressor works as well, with or without a new file
	char again[300]; snprintf(again, sizeof again, "left behind after: %s", what);
	l4probe(r.chance(50) ? i : j, r, again);
	distinct(mix(fnv(what, strlen(what)), (uint64_t)i));
	sample("%s", what);
	(void)l4cfg;
}

// ---------------------------------------------------------------- L05: the C entry point
static void l05one(Rng &r, const char *mode, uint64_t *sig)
{
	Bytes in; ref::Decoded d;
	bool hostile = r.chance(40);
	int k = -1;
	if (hostile) in = genHostile(r, r.chance(80) ? 50 : 1000, &k);
	else if (r.chance(25)) { // large: beyond any single chunk size the implementation may have in mind
		size_t n = (r.chance(50) ? r.range(90000, 140000) : r.range(90000, G.thorough ? 3000000 : 700000)) & ~(size_t)7; Bytes u; genInto(r, u, n, r.chance(60) ? 2 : (int)r.below(NUM_INPUT_KINDS)); u.resize(n);
		in.resize(ref::bound(n) + 64); size_t ol = in.size(); if (optsw842_compress(u.data(), n, in.data(), &ol)) return; in.resize(ol);
		stat("entry.large");
	} else { GenStream g = genStream(r, 200, false, 60000); in = g.bytes; }
	d = ref::decode(in.data(), in.size());
	size_t caps[5] = { d.out.size(), d.out.size() + r.below(1000), r.chance(50) ? 0 : r.below(d.out.size() + 1), 65536, 0 };
	size_t cap = caps[r.below(5)];
	GuardBuf ib(in.size(), (unsigned)(r.chance(70) ? 0 : r.below(8)), true), ob(cap, (unsigned)(r.chance(70) ? 0 : r.below(8)), true);
	if (in.size()) memcpy(ib.p, in.data(), in.size());
	if (cap) memset(ob.p, 0xCC, cap);
	struct { uint64_t before[64]; size_t olen; uint64_t after[64]; } w; // the reported length is one variable, not an array
	for (int i = 0; i < 64; i++) w.before[i] = w.after[i] = 0x1122334455667788ull;
	w.olen = cap;
	int ret;
	try { ret = cl842_decompress(ib.p, in.size(), ob.p, &w.olen); }
	catch (const std::exception &e) { fail("exception out of a C function", "%s ilen=%zu cap=%zu", exWhat(e), in.size(), cap); return; }
	for (int i = 0; i < 64; i++) if (w.before[i] != 0x1122334455667788ull || w.after[i] != 0x1122334455667788ull) { fail("memory next to *olen modified", "%s ilen=%zu cap=%zu", mode, in.size(), cap); break; }
	if (!ob.ok()) fail("cl842_decompress writes outside its output", "%s ilen=%zu cap=%zu", mode, in.size(), cap);
	if (!ib.ok() || (in.size() && memcmp(ib.p, in.data(), in.size()))) fail("cl842_decompress modifies its input", "%s", mode);
	stat("entry.calls");
	bool meaningful = d.st == ref::OK || d.st == ref::BADCRC;
	bool must = d.st == ref::OK && !d.usesShort && in.size() % 8 == 0 && cap >= d.out.size();
	if (ret > 0) fail("cl842_decompress returns a positive value", "%d", ret);
	else if (ret < 0) {
		stat("entry.failed");
		if (must) fail("cl842_decompress rejects a valid stream", "%s ret=%d ilen=%zu cap=%zu", mode, ret, in.size(), cap);
		if (w.olen != 0) fail("cl842_decompress fails with a length", "%s ret=%d olen=%zu ilen=%zu cap=%zu", mode, ret, w.olen, in.size(), cap);
	} else {
		stat("entry.succeeded");
		if (!meaningful) fail("cl842_decompress accepts a malformed stream", "%s class=%s in=%s", mode, ref::statusName[d.st], Hex(in).s);
		else if (d.out.size() > cap) fail("cl842_decompress succeeds without space", "%s need=%zu cap=%zu", mode, d.out.size(), cap);
		else if (w.olen != d.out.size()) fail("cl842_decompress reports a wrong length", "%s olen=%zu want=%zu", mode, w.olen, d.out.size());
		else if (!d.out.empty() && memcmp(ob.p, d.out.data(), d.out.size())) fail("cl842_decompress gives wrong data", "%s ilen=%zu", mode, in.size());
	}
	*sig = mix(d.opsig, mix(in.size(), cap));
	if (in.size() > 8) distinct(*sig);
	sample("ilen=%zu cap=%zu class=%s ret=%d", in.size(), cap, ref::statusName[d.st], ret);
}
static void l05(uint64_t idx, Rng &r)
{
	if (idx % 20 == 19) { // several threads
		unsigned n = (unsigned)r.range(2, 5);
		std::vector<std::thread> th;
		uint64_t seed = r.next();
		for (unsigned t = 0; t < n; t++) th.emplace_back([=]() { Rng q(seed, t); uint64_t s; for (int k = 0; k < 6; k++) l05one(q, "concurrent", &s); });
		for (auto &t : th) t.join();
		stat("entry.concurrent.rounds");
		return;
	}
	uint64_t sig; l05one(r, "single", &sig);
}
#endif

#ifdef H_ASAN
extern "C" const char *__asan_default_options() { return "max_allocation_size_mb=6000"; }
#endif
static void setup()
{
#ifndef NO_HOST
#ifndef H_ASAN
	struct rlimit rl = { (rlim_t)6 << 30, (rlim_t)6 << 30 };
	if (is("L04")) setrlimit(RLIMIT_DATA, &rl);
#endif
	const char *s = getenv("VERIF_SCRATCH");
	snprintf(clio::dir, sizeof clio::dir, "%s", s ? s : "/nonexistent");
	char d[4096]; snprintf(d, sizeof d, "%s/cache", clio::dir);
	mkdir(d, 0755);
	if (!getenv("POCL_CACHE_DIR")) { snprintf(d, sizeof d, "%s/pocl", clio::dir); mkdir(d, 0755); setenv("POCL_CACHE_DIR", d, 1); }
	if (is("L05") || is("L04")) clio::mode = clio::NORMAL;
#endif
}
static void runCase(uint64_t idx, Rng &r)
{
	bool maybe = is("L02");
	if (is("L01") || is("L02") || is("L03")) {
		bool hostile = is("L03") || r.chance(15);
		bool anyFmt = is("L03");
		if (anyFmt) maybe = (idx / 150) % 2;
#ifdef NO_HOST
		nativeCase(idx, r, maybe, anyFmt, hostile);
#else
		switch (idx % 5) {
		case 0: hostCase(idx, r, maybe, hostile); break;
		case 1: devCase(idx, r, maybe, hostile); break;
		default: nativeCase(idx, r, maybe, anyFmt, hostile);
		}
#endif
		return;
	}
	if (is("L06")) {
#ifdef NO_HOST
		inplaceCase(idx, r, 2);
#else
		inplaceCase(idx, r, idx % 4 == 0 ? 0 : idx % 4 == 1 ? 1 : 2);
#endif
		return;
	}
#ifndef NO_HOST
	if (is("L04")) { l04(idx, r); return; }
	if (is("L05")) { l05(idx, r); return; }
#endif
	_exit(99);
}
static void finish() {}
