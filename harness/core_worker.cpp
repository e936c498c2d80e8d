// Monitors for the software codecs (properties C01..C13).
#include "main.h"
#include <lib842/sw.h>
#include <signal.h>
#include <atomic>
#include <thread>
#include <sys/socket.h>
#include <sys/wait.h>

struct Codec {
	const char *name;
	bool opt;
	lib842_compress_func compress;
	lib842_decompress_func decompress;
	lib842_compress_chunked_func compress_chunked;
	lib842_decompress_chunked_func decompress_chunked;
};
static Codec codecs[2];
static const lib842_implementation *impl(int i) { return i ? get_optsw842_implementation() : get_sw842_implementation(); }

// ---------------------------------------------------------------- allocation accounting (plain builds only)
#if !defined(H_ASAN) && !defined(H_MSAN) && !defined(H_TSAN)
#define H_COUNT_ALLOC 1
extern "C" {
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
}
static volatile long liveAllocs = 0;
static volatile unsigned long totalAllocs = 0;
static int fillMode = -1; // -1: leave, 0..255: fill byte, 256: address-dependent noise
static void fillFresh(void *p, size_t n)
{
	if (fillMode < 0 || !p) return;
	if (fillMode < 256) memset(p, fillMode, n);
	else { uint64_t x = (uint64_t)fillMode * 0x9E3779B97F4A7C15ull; uint8_t *b = (uint8_t *)p; for (size_t i = 0; i < n; i++) { if (i % 8 == 0) Rng::sm(x); b[i] = (uint8_t)(x >> (8 * (i % 8))); } }
}
extern "C" {
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p) { __atomic_add_fetch(&liveAllocs, 1, __ATOMIC_RELAXED); __atomic_add_fetch(&totalAllocs, 1, __ATOMIC_RELAXED); fillFresh(p, n); } return p; }
void free(void *p) { if (p) __atomic_sub_fetch(&liveAllocs, 1, __ATOMIC_RELAXED); __libc_free(p); }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (p) { __atomic_add_fetch(&liveAllocs, 1, __ATOMIC_RELAXED); __atomic_add_fetch(&totalAllocs, 1, __ATOMIC_RELAXED); } return p; }
void *realloc(void *q, size_t n) { void *p = __libc_realloc(q, n); if (!q && p) __atomic_add_fetch(&liveAllocs, 1, __ATOMIC_RELAXED); if (q && n == 0 && !p) __atomic_sub_fetch(&liveAllocs, 1, __ATOMIC_RELAXED); return p; }
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); if (p) { __atomic_add_fetch(&liveAllocs, 1, __ATOMIC_RELAXED); fillFresh(p, n); } return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **o, size_t a, size_t n) { void *p = memalign(a, n); if (!p) return ENOMEM; *o = p; return 0; }
}
#endif

// ---------------------------------------------------------------- one monitored call
struct Res { int ret; size_t olen; Bytes out; };
static bool sameRes(const Res &a, const Res &b) { return a.ret == b.ret && a.olen == b.olen && a.out == b.out; }

struct Place { unsigned ialign = 0, oalign = 0; bool iend = true, oend = true; };
static Place genPlace(Rng &r)
{
	Place p;
	p.iend = r.chance(75); p.oend = r.chance(75);
	switch (r.below(10)) {
	case 0: p.ialign = (unsigned)r.below(8); p.oalign = (unsigned)r.below(8); break;
	case 1: p.ialign = (unsigned)r.range(1, 7); break;
	case 2: p.oalign = (unsigned)r.range(1, 7); break;
	default: break;
	}
	return p;
}

static const uint64_t OLEN_MAGIC = 0xC0FFEE00C0FFEEull;
static Bytes prefill; // content put in the output buffer before the call (default pattern otherwise)
static uint8_t outFill = 0xCC;

// Runs one call in guarded buffers and checks what must hold of every call (memory effects, sane result).
// `what` is "sw842_compress" etc.
static Res call(const char *what, lib842_compress_func f, const uint8_t *in, size_t ilen, size_t cap, const Place &pl)
{
	static const char *pfx;
	pfx = what;
	GuardBuf ib(ilen, pl.ialign, pl.iend), ob(cap, pl.oalign, pl.oend);
	if (ilen) memcpy(ib.p, in, ilen);
#ifndef H_MSAN
	if (cap) memset(ob.p, outFill, cap);
#else
	__msan_allocated_memory(ob.p, cap);
#endif
	Res res;
	size_t olen = cap;
	char key[200];
	res.ret = f(ib.p, ilen, ob.p, &olen);
#ifdef H_MSAN
	__msan_check_mem_is_initialized(&res.ret, sizeof res.ret);
	__msan_check_mem_is_initialized(&olen, sizeof olen);
#endif
	res.olen = olen;
	if (!ob.ok()) { snprintf(key, sizeof key, "%s writes outside its output buffer", pfx); fail(key, "ilen=%zu cap=%zu ret=%d in=%s", ilen, cap, res.ret, Hex(in, ilen).s); }
	if (!ib.ok() || (ilen && memcmp(ib.p, in, ilen))) { snprintf(key, sizeof key, "%s modifies its input or memory around it", pfx); fail(key, "ilen=%zu cap=%zu ret=%d", ilen, cap, res.ret); }
	if (res.ret > 0) { snprintf(key, sizeof key, "%s returns a positive value", pfx); fail(key, "ret=%d ilen=%zu cap=%zu", res.ret, ilen, cap); }
	if (res.ret == 0 && olen > cap) { snprintf(key, sizeof key, "%s reports a length larger than the capacity", pfx); fail(key, "olen=%zu ilen=%zu cap=%zu", olen, ilen, cap); return res; }
	if (res.ret == 0) {
#ifdef H_MSAN
		if (olen) __msan_check_mem_is_initialized(ob.p, olen);
#endif
		res.out.assign(ob.p, ob.p + olen);
	}
	return res;
}
static const char *nm(const Codec &c, bool comp, bool viaTable = false)
{
	(void)viaTable;
	return c.opt ? (comp ? "optsw842_compress" : "optsw842_decompress") : (comp ? "sw842_compress" : "sw842_decompress");
}
static Res compress(const Codec &c, const Bytes &in, size_t cap, const Place &pl) { return call(nm(c, true), c.compress, in.data(), in.size(), cap, pl); }
static Res decompress(const Codec &c, const Bytes &in, size_t cap, const Place &pl) { return call(nm(c, false), c.decompress, in.data(), in.size(), cap, pl); }

static bool is(const char *p) { return strcmp(G.prop, p) == 0; }
static bool large(uint64_t idx) { if (idx % (is("C07") ? 500 : 199) != 198) return false; stat("large.cases"); return true; }
// A few cases of more than 16 MiB, in the plain build only
static bool giant(uint64_t idx)
{
#if !defined(H_ASAN) && !defined(H_MSAN) && !defined(H_TSAN)
	if (strcmp(G.variant, "release") && idx >= 1700 && idx < (G.thorough ? 1730u : 1703u)) { stat("giant.cases"); return true; }
#endif
	(void)idx; return false;
}
static Bytes genGiant(Rng &r, bool mult8, int *kind)
{
	size_t n = (r.chance(50) ? 16u << 20 : (size_t)r.range(16u << 20, 40u << 20)) + (size_t)r.below(600) * (mult8 ? 8 : 1);
	int k = (int)r.below(NUM_INPUT_KINDS); Bytes b;
	b.reserve(n + 300); genInto(r, b, n, k); b.resize(n);
	*kind = k;
	return b;
}
static size_t maxLen() { return G.thorough ? 200000 : 20000; }
static void inputStats(const Bytes &b, int kind)
{
	char n[40]; snprintf(n, sizeof n, "input.%s", inputKinds[kind]); stat(n);
	stat("input.bytes", b.size());
}
static Bytes makeInput(Rng &r, uint64_t idx, bool mult8, int *kind)
{
	// the first indices walk through every small length with every kind of content
	if (idx < 560) {
		*kind = (int)(idx % NUM_INPUT_KINDS);
		size_t n = idx / 2; if (mult8) n = n / 8 * 8 ;
		Bytes b; genInto(r, b, n, *kind); return b;
	}
	if ((is("C01") || is("C02")) && giant(idx)) return genGiant(r, mult8, kind);
	if (large(idx)) return genLarge(r, mult8, kind, is("C07") ? 17 : 20);
	return genInput(r, r.chance(5) ? maxLen() * 5 : maxLen() / 2, mult8, kind);
}

// ---------------------------------------------------------------- C01
#if !defined(H_ASAN) && !defined(H_MSAN) && !defined(H_TSAN)
// Shows the runner that a long case is alive, for a limited time.
struct Beat {
	std::atomic<bool> quit{false}; std::thread t;
	explicit Beat(unsigned secs) : t([this, secs] { for (unsigned i = 0; i < secs * 4 && !quit; i++) { if (i % 20 == 0) G.cur[1] = 1 + ((G.cur[1] >> 8) + 1) * 256; usleep(250000); } }) {}
	~Beat() { quit = true; t.join(); G.cur[1] = 1; }
};
static uint8_t *reserve(size_t n) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return p == MAP_FAILED ? nullptr : (uint8_t *)p; }
static size_t memAvailable()
{
	FILE *f = fopen("/proc/meminfo", "r"); char l[200]; unsigned long long k = 0;
	if (f) { while (fgets(l, sizeof l, f)) if (sscanf(l, "MemAvailable: %llu", &k) == 1) break; fclose(f); }
	return (size_t)k << 10;
}
static uint32_t refCrcFast(const uint8_t *p, size_t n) // the same polynomial as ref::crc32be, eight bytes at a time
{
	static uint32_t t[8][256];
	for (unsigned i = 0; i < 256; i++) { uint32_t x = i << 24; for (int k = 0; k < 8; k++) x = (x << 1) ^ ((x >> 31) ? 0x04c11db7u : 0); t[0][i] = x; }
	for (unsigned j = 1; j < 8; j++) for (unsigned i = 0; i < 256; i++) t[j][i] = t[j - 1][i] << 8 ^ t[0][t[j - 1][i] >> 24];
	uint32_t x = 0;
	for (; n >= 8; n -= 8, p += 8) {
		x ^= (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3];
		x = t[7][x >> 24] ^ t[6][x >> 16 & 255] ^ t[5][x >> 8 & 255] ^ t[4][x & 255] ^ t[3][p[4]] ^ t[2][p[5]] ^ t[1][p[6]] ^ t[0][p[7]];
	}
	for (; n; n--, p++) x = x << 8 ^ t[0][x >> 24 ^ *p];
	return x;
}
// Streams of more than 4 GiB. kind 0: mostly zeros through optsw842, both decompressors, and sw842_compress into too little space;
// 1: the same through sw842 (minutes); 2: random data, so that the compressed size exceeds 4 GiB as well (minutes).
static void c01_huge(int kind)
{
	const size_t n = (4ull << 30) + (kind == 2 ? 8ull << 20 : 40ull << 20) + 8;
	const size_t cap = kind == 2 ? n + n / 8 + 4096 : 512u << 20;
	if (memAvailable() < (kind == 2 ? 18ull << 30 : 8ull << 30)) { stat("huge.skipped"); return; }
	uint8_t *in = reserve(n), *c = reserve(cap), *out = reserve(n + 4096);
	if (!in || !c || !out) { stat("huge.skipped"); return; }
	Beat beat(kind ? 2400 : 300);
	Rng r(842, 842, (uint64_t)(842 + kind));
	if (kind == 2) for (size_t o = 0; o < n; o += 8) { uint64_t v = r.next(); memcpy(in + o, &v, 8); }
	else {
		std::vector<size_t> marks;
		for (int i = 0; i < 400; i++) { size_t o = r.below(n / 8) * 8; marks.push_back(o); }
		for (size_t o = (4ull << 30) - 4096; o < (4ull << 30) + 4096; o += 8) marks.push_back(o);
		marks.push_back(n - 8);
		uint64_t pool[16]; for (auto &x : pool) x = r.next();
		for (size_t o : marks) { uint64_t v = r.chance(50) ? pool[r.below(16)] : r.next(); memcpy(in + o, &v, 8); }
	}
	bool opt = kind == 0;
	size_t olen = cap;
	int ret = (opt ? optsw842_compress : sw842_compress)(in, n, c, &olen);
	if (ret) fail("compression fails on more than 4 GiB", "%s ret=%d", nm(codecs[opt], true), ret);
	else for (int di = 0; di < 2; di++) {
		if (di) { munmap(out, n + 4096); out = reserve(n + 4096); if (!out) { stat("huge.skipped"); break; } }
		size_t dlen = n;
		ret = codecs[di].decompress(c, olen, out, &dlen);
		char key[160]; snprintf(key, sizeof key, "%s does not restore more than 4 GiB", nm(codecs[di], false));
		if (ret || dlen != n || memcmp(in, out, n)) fail(key, "compressed by %s, ret=%d olen=%zu want=%zu", nm(codecs[opt], true), ret, dlen, n);
		else stat("huge.roundtrip");
	}
	if (!ret) { // the stream must end with the end template and the checksum of all the data
		uint32_t crc = refCrcFast(in, n); bool found = false;
		unsigned __int128 v = 0; for (size_t i = olen - 16; i < olen; i++) v = v << 8 | c[i];
		for (unsigned pad = 0; pad < 64 && !found; pad++) found = (v & (((unsigned __int128)1 << pad) - 1)) == 0 && (uint64_t)(v >> pad & 0x1fffffffffull) == ((uint64_t)0x1e << 32 | crc);
		if (!found) fail("wrong checksum in a stream of more than 4 GiB", "%s, expected %08x", nm(codecs[opt], true), crc);
	}
	if (kind == 0) { // must not be taken for a short input
		const size_t m = (4ull << 30) + 64;
		for (size_t o = 0; o < 1024; o += 8) { uint64_t v = r.next(); memcpy(in + o, &v, 8); }
		for (int ci = 0; ci < 2; ci++) {
			size_t ol = 320;
			ret = codecs[ci].compress(in, m, c, &ol);
			if (ret == 0) fail("more than 4 GiB compress into less space than they need", "%s olen=%zu", nm(codecs[ci], true), ol);
		}
		// capacities and lengths above 4 GiB with little data
		Bytes b; for (int i = 0; i < 64; i++) { uint64_t v = r.next(); for (int k = 0; k < 8; k++) b.push_back((uint8_t)(v >> 8 * k)); }
		for (int ci = 0; ci < 2; ci++) for (int di = 0; di < 2; di++) {
			size_t ol = (4ull << 30) + 8;
			ret = codecs[ci].compress(b.data(), b.size(), in, &ol);
			if (ret || ol > ref::bound(b.size())) { fail("compression fails with a capacity above 4 GiB", "%s ret=%d olen=%zu", nm(codecs[ci], true), ret, ol); continue; }
			size_t dl = (4ull << 30) + 8;
			ret = codecs[di].decompress(in, (4ull << 30) + 8, out, &dl);
			if (ret || dl != b.size() || memcmp(out, b.data(), dl)) fail("decompression fails with a length or capacity above 4 GiB", "%s ret=%d olen=%zu", nm(codecs[di], false), ret, dl);
		}
	}
	munmap(in, n); munmap(c, cap); if (out) munmap(out, n + 4096);
}
#endif
static void c01(uint64_t idx, Rng &r)
{
#if !defined(H_ASAN) && !defined(H_MSAN) && !defined(H_TSAN)
	if (idx == 0 && strcmp(G.variant, "release")) { c01_huge(0); return; }
	if (G.thorough && strcmp(G.variant, "release") && idx == 400000) { c01_huge(1); return; }
	if (G.thorough && strcmp(G.variant, "release") && idx == 800000) { c01_huge(2); return; }
#endif
	int kind; Bytes in = makeInput(r, idx, r.chance(65), &kind);
	inputStats(in, kind);
	bool nontrivial = in.size() >= 16;
	for (int ci = 0; ci < 2; ci++) {
		const Codec &c = codecs[ci];
		bool mult8 = in.size() % 8 == 0;
		if (c.opt && !mult8) continue;
		Place pl = genPlace(r);
		Res z = compress(c, in, ref::bound(in.size()) + r.below(3) * 8, pl);
		if (z.ret != 0) { fail(c.opt ? "optsw842_compress fails with ample capacity" : "sw842_compress fails with ample capacity", "ret=%d len=%zu kind=%s", z.ret, in.size(), inputKinds[kind]); continue; }
		for (int di = 0; di < 2; di++) {
			const Codec &d = codecs[di];
			if (d.opt && !mult8) continue;
			Place pd = genPlace(r);
			Res o = decompress(d, z.out, in.size() + (r.chance(50) ? 0 : r.below(100)), pd);
			stat("roundtrips");
			if (o.ret != 0 || o.out != in) {
				char key[160]; snprintf(key, sizeof key, "%s then %s does not restore the data", nm(c, true), nm(d, false));
				size_t k = 0; while (k < o.out.size() && k < in.size() && o.out[k] == in[k]) k++;
				fail(key, "ret=%d olen=%zu want=%zu first difference at %zu kind=%s ialign=%u oalign=%u", o.ret, o.olen, in.size(), k, inputKinds[kind], pd.ialign, pd.oalign);
			}
		}
		if (nontrivial) distinct(fnv(z.out.data(), z.out.size(), (uint64_t)ci + 1));
	}
	sample("len=%zu kind=%s head=%s", in.size(), inputKinds[kind], Hex(in).s);
}

// ---------------------------------------------------------------- C02
static void opStats(const ref::Decoded &d)
{
	for (int i = 0; i < 32; i++) if (d.hist[i]) { char n[32]; snprintf(n, sizeof n, "op.%02x", i); stat(n, d.hist[i]); }
	stat("ops", d.nops); stat("ring.wrapped.index", d.wraps);
}
static void c02(uint64_t idx, Rng &r)
{
	int kind; Bytes in = makeInput(r, idx, r.chance(65), &kind);
	inputStats(in, kind);
	for (int ci = 0; ci < 2; ci++) {
		const Codec &c = codecs[ci];
		if (c.opt && in.size() % 8) continue;
		Res z = compress(c, in, ref::bound(in.size()) + r.below(3) * 8, genPlace(r));
		if (z.ret != 0) { stat("compress.failed"); continue; }
		ref::Decoded d = ref::decode(z.out.data(), z.out.size());
		const char *n = nm(c, true);
		char key[200];
		if (d.st != ref::OK) { snprintf(key, sizeof key, "%s output is not well-formed (%s)", n, ref::statusName[d.st]); fail(key, "len=%zu kind=%s", in.size(), inputKinds[kind]); continue; }
		opStats(d);
		if (d.out != in) { snprintf(key, sizeof key, "%s output means other data", n); fail(key, "len=%zu got=%zu kind=%s", in.size(), d.out.size(), inputKinds[kind]); continue; }
		if (d.shortNotLast || d.hist[ref::OP_SHORT] > 1) { snprintf(key, sizeof key, "%s short data not at the end", n); fail(key, "len=%zu", in.size()); }
		if (d.usesShort && (c.opt || in.size() % 8 == 0)) { snprintf(key, sizeof key, "%s uses short data needlessly", n); fail(key, "len=%zu", in.size()); }
		if (z.out.size() % 8 || z.out.size() != ref::bitsToSize(d.endBit)) { snprintf(key, sizeof key, "%s output size is not the stream padded to 8", n); fail(key, "size=%zu end bit=%llu", z.out.size(), (unsigned long long)d.endBit); continue; }
		for (uint64_t b = d.endBit; b < z.out.size() * 8; b++)
			if (z.out[b / 8] >> (7 - b % 8) & 1) { snprintf(key, sizeof key, "%s padding is not zero", n); fail(key, "bit=%llu len=%zu", (unsigned long long)b, in.size()); break; }
		stat("streams.checked");
		if (d.nops > 1) distinct(mix(d.opsig, (uint64_t)ci * 31 + d.endBit));
	}
	sample("len=%zu kind=%s head=%s", in.size(), inputKinds[kind], Hex(in).s);
}

// ---------------------------------------------------------------- C03
static void c03(uint64_t idx, Rng &r)
{
	bool allowShort = r.chance(20);
	size_t maxOps = r.chance(60) ? 60 : r.chance(70) ? 500 : (G.thorough ? 8000 : 2500);
	GenStream g;
	if (idx < 26 * 64) { // every template at every bit phase, just after a random prefix
		ref::BitWriter w;
		int op = (int)(idx % 26), phase = (int)(idx / 26);
		auto add = [&](ref::Tok &t) { ref::putTok(w, t); applyTok(g.out, t); g.toks.push_back(t); };
		size_t pre = r.range(1, 80);
		for (size_t i = 0; i < pre; i++) { ref::Tok t; memset(&t, 0, sizeof t); t.op = 0; t.arg[0] = r.next(); add(t); }
		while ((int)(w.nbits % 64) != phase) { ref::Tok t; memset(&t, 0, sizeof t); t.op = ref::OP_ZEROS; add(t); if (g.toks.size() > 400) break; }
		for (int n = 0; n < 3; n++) {
			ref::Tok t; memset(&t, 0, sizeof t); t.op = (uint8_t)op;
			ref::Template T = ref::makeTemplate(op);
			for (int k = 0; k < T.n; k++) {
				if (T.s[k].kind == 'I') t.arg[k] = genIndex(r, T.s[k].size, g.out.size());
				else t.arg[k] = r.next() & (T.s[k].size == 8 ? ~0ull : (1ull << 8 * T.s[k].size) - 1);
			}
			add(t);
		}
		w.put(ref::OP_END, 5); w.put(ref::crc32(g.out.data(), g.out.size()), 32); g.endBit = w.nbits; w.pad(8); g.bytes = w.b;
		allowShort = false;
		stat("systematic.template.phase");
	} else if (giant(idx)) g = genStream(r, 6000000, allowShort, 40u << 20, 2400000);
	else if (large(idx)) g = genLargeStream(r, allowShort, 20);
	else
		g = genStream(r, maxOps, allowShort, G.thorough ? 300000 : 60000);
	ref::Decoded d = ref::decode(g.bytes.data(), g.bytes.size());
	if (d.st != ref::OK || d.out != g.out || d.endBit != g.endBit) { inconclusive("reference encoder and decoder disagree (%s)", ref::statusName[d.st]); return; }
	opStats(d);
	Bytes in = g.bytes;
	size_t trail = r.chance(50) ? 0 : r.chance(50) ? 8 * r.range(1, 6) : r.range(1, 40);
	for (size_t i = 0; i < trail; i++) in.push_back((uint8_t)r.next());
	for (int ci = 0; ci < 2; ci++) {
		const Codec &c = codecs[ci];
		if (c.opt && d.usesShort) continue;
		Place pl = genPlace(r);
		size_t cap = g.out.size() + (r.chance(50) ? 0 : r.below(600));
		Res o = decompress(c, in, cap, pl);
		stat("streams.decoded");
		if (o.ret != 0 || o.out != g.out) {
			char key[160]; snprintf(key, sizeof key, "%s mis-decodes a well-formed stream", nm(c, false));
			size_t k = 0; while (k < o.out.size() && k < g.out.size() && o.out[k] == g.out[k]) k++;
			fail(key, "ret=%d olen=%zu want=%zu first difference at output byte %zu, trailing=%zu ialign=%u oalign=%u stream=%s", o.ret, o.olen, g.out.size(), k, trail, pl.ialign, pl.oalign, Hex(g.bytes).s);
		}
	}
	if (d.nops > 0) distinct(mix(d.opsig, d.endBit));
	sample("ops=%llu out=%zu trailing=%zu stream=%s", (unsigned long long)d.nops, g.out.size(), trail, Hex(g.bytes).s);
}

// ---------------------------------------------------------------- C04
static void c04_check(const Bytes &in, size_t cap, Rng &r, const char *kind)
{
	ref::Decoded d = ref::decode(in.data(), in.size());
	bool bad = d.st == ref::TRUNC || d.st == ref::BADOP || d.st == ref::BADINDEX || d.st == ref::BADREPEAT || d.st == ref::BADSHORT;
	bool swDefined = !d.shortNotLast || d.st == ref::BADREPEAT;
	char n[60];
	if (bad) { snprintf(n, sizeof n, "malformed.%s", ref::statusName[d.st]); stat(n); }
	for (int ci = 0; ci < 2; ci++) {
		const Codec &c = codecs[ci];
		bool must = c.opt ? (bad || d.usesShort) : (bad && swDefined);
		if (!must) continue;
		Place pl = genPlace(r);
		if (c.opt && !bad) pl.ialign = pl.oalign = 0; // unaligned calls fall back to sw842, which supports short data
		Res o = decompress(c, in, cap, pl);
		stat("malformed.presented");
		if (o.ret >= 0 || o.olen != 0) {
			char key[200]; snprintf(key, sizeof key, "%s accepts a malformed stream (%s)", nm(c, false), c.opt && d.usesShort && !bad ? "short-data" : ref::statusName[d.st]);
			fail(key, "ret=%d olen=%zu kind=%s at op %llu out so far %zu ialign=%u oalign=%u in=%s", o.ret, o.olen, kind, (unsigned long long)d.nops, d.out.size(), pl.ialign, pl.oalign, Hex(in).s);
		}
	}
	if (bad && in.size() > 1) distinct(mix(fnv(in.data(), in.size()), (uint64_t)d.st));
}
static void c04(uint64_t idx, Rng &r)
{
	if (large(idx)) { // behind a long valid part
		GenStream g = genLargeStream(r, r.chance(20)); size_t cap = g.out.size() + 64;
		for (int i = 0; i < 6; i++) { // cut
			size_t need = (size_t)((g.endBit + 7) / 8); Bytes t(g.bytes); t.resize(i < 3 ? need - 1 - r.below(i ? 40 : 8) : r.below(need));
			c04_check(t, cap, r, "large truncation");
		}
		for (int i = 0; i < 4; i++) { // an undefined template
			size_t k = i ? r.below(g.toks.size() + 1) : g.toks.size(); ref::BitWriter w;
			for (size_t j = 0; j < k; j++) if (g.toks[j].op != ref::OP_SHORT) ref::putTok(w, g.toks[j]);
			static const int badOps[] = { 0x1a, 0x1f, 0x1d }; w.put((uint64_t)badOps[r.below(r.chance(80) ? 2 : 3)], 5);
			for (int j = 0; j < 20; j++) w.put(r.next(), 64);
			w.pad(8); c04_check(w.b, cap + 4096, r, "large, undefined template");
		}
		return;
	}
	if (idx % 10 == 0) { // every truncation point of a valid stream
		GenStream g = genStream(r, 40, r.chance(20), 5000);
		size_t need = (size_t)((g.endBit + 7) / 8);
		for (size_t l = 0; l < need; l++) { Bytes t(g.bytes.begin(), g.bytes.begin() + (ptrdiff_t)l); c04_check(t, g.out.size() + r.below(16), r, "truncation"); }
		stat("truncation.sweeps");
		return;
	}
	if (idx % 10 == 1) { // boundary of index validity: one index op just at/after the data available, swept
		unsigned tot = (unsigned)r.below(r.chance(50) ? 80 : 300); // groups already output
		int op = 1 + (int)r.below(25);
		ref::Template T = ref::makeTemplate(op);
		int slot = -1; for (int t = 0; t < 8 && slot < 0; t++) { int s = (int)r.below(T.n); if (T.s[s].kind == 'I') slot = s; }
		if (slot < 0) return;
		unsigned sz = T.s[slot].size; uint64_t lim = 1ull << ref::slotBits(T.s[slot]);
		uint64_t base = (uint64_t)tot * 8 / sz;
		for (int delta = -2; delta < 6; delta++) {
			uint64_t v = base + (uint64_t)(int64_t)delta;
			if (v >= lim) continue;
			ref::BitWriter w; Bytes out;
			for (unsigned i = 0; i < tot; i++) { ref::Tok t; memset(&t, 0, sizeof t); t.op = r.chance(80) ? 0 : (uint8_t)ref::OP_ZEROS; t.arg[0] = r.next(); ref::putTok(w, t); applyTok(out, t); }
			ref::Tok t; memset(&t, 0, sizeof t); t.op = (uint8_t)op;
			for (int k = 0; k < T.n; k++) if (T.s[k].kind == 'D') t.arg[k] = r.next() & (T.s[k].size == 8 ? ~0ull : (1ull << 8 * T.s[k].size) - 1); else if (k == slot) t.arg[k] = v; else t.arg[k] = genIndex(r, T.s[k].size, out.size());
			ref::putTok(w, t);
			// make the rest look perfect: if the bad index read zeros / stale bytes the CRC is unlikely to match anyway,
			// so the decisive observation is the code path; a lenient decoder is exposed through C06 and through this:
			w.put(ref::OP_END, 5); w.put(ref::crc32(out.data(), out.size()), 32); w.pad(8);
			c04_check(w.b, out.size() + 64, r, "index boundary");
		}
		stat("index.boundary.sweeps");
		return;
	}
	if (idx % 10 == 2) { // malformations with the CRC a lenient decoder would need
		// bad index decoded as: zeros / stale output buffer byte 0xCC / output untouched (skipped)
		ref::BitWriter w; Bytes out;
		unsigned tot = (unsigned)r.below(70);
		for (unsigned i = 0; i < tot; i++) { ref::Tok t; memset(&t, 0, sizeof t); t.op = 0; t.arg[0] = r.next(); ref::putTok(w, t); applyTok(out, t); }
		int how = (int)r.below(5);
		Bytes guess = out;
		if (how <= 2) {
			w.put(0x19, 5); unsigned base = tot; if (base > 255) base = 255;
			w.put(base, 8);
			if (how == 0) guess.insert(guess.end(), 8, 0); else if (how == 1) guess.insert(guess.end(), 8, outFill);
		} else if (how == 3) { // repeat first
			w = ref::BitWriter(); guess.clear();
			uint64_t n = r.below(64); w.put(ref::OP_REPEAT, 5); w.put(n, 6);
			if (r.chance(50)) guess.insert(guess.end(), 8 * (n + 1), 0); else if (r.chance(50)) guess.clear();
		} else { // undefined template taken as zeros / nothing
			w.put(r.chance(50) ? 0x1a : 0x1f, 5);
			if (r.chance(50)) guess.insert(guess.end(), 8, 0);
		}
		w.put(ref::OP_END, 5); w.put(ref::crc32(guess.data(), guess.size()), 32); w.pad(8);
		c04_check(w.b, guess.size() + 600, r, "malformed with matching crc");
		stat("lenient.crc.cases");
		return;
	}
	int kind; Bytes in = genHostile(r, r.chance(70) ? 50 : 400, &kind);
	c04_check(in, r.chance(80) ? 70000 : r.below(3000), r, hostileKinds[kind]);
	sample("kind=%s in=%s", hostileKinds[kind], Hex(in).s);
}

// ---------------------------------------------------------------- C05
static void c05_check(const Bytes &in, size_t cap, Rng &r, const char *kind, bool crcOnly)
{
	ref::Decoded d = ref::decode(in.data(), in.size());
	for (int ci = 0; ci < 2; ci++) {
		const Codec &c = codecs[ci];
		if (c.opt && d.usesShort) continue;
		Place pl = genPlace(r);
		Res o = decompress(c, in, cap, pl);
		stat("corrupted.presented");
		if (o.ret != 0) { stat("corrupted.detected"); if (o.olen != 0) { char key[160]; snprintf(key, sizeof key, "%s detects corruption but reports a length", nm(c, false)); fail(key, "ret=%d olen=%zu", o.ret, o.olen); } continue; }
		stat("corrupted.accepted");
		char key[200];
		if (crcOnly) { snprintf(key, sizeof key, "%s accepts a corrupted CRC", nm(c, false)); fail(key, "kind=%s out=%zu stream=%s", kind, o.out.size(), Hex(in).s); continue; }
		if (d.st == ref::BADCRC || (d.st == ref::OK && ref::crc32(o.out.data(), o.out.size()) != d.crcStored)) {
			snprintf(key, sizeof key, "%s succeeds although the stored CRC does not match its output", nm(c, false));
			fail(key, "kind=%s stored=%08x actual=%08x out=%zu stream=%s", kind, d.crcStored, ref::crc32(o.out.data(), o.out.size()), o.out.size(), Hex(in).s);
		}
	}
	if (d.st == ref::BADCRC) { stat("reached.crc.compare"); distinct(fnv(in.data(), in.size())); }
}
static void c05(uint64_t idx, Rng &r)
{
	GenStream g;
	bool big = large(idx), huge = giant(idx);
	if (huge) g = genStream(r, 6000000, false, 40u << 20, 2400000);
	else if (big && r.chance(60)) g = genLargeStream(r, r.chance(50), 18);
	else if (!big && r.chance(50)) g = genStream(r, r.chance(80) ? 30 : 700, r.chance(50), 20000);
	else { // compressor-made stream, every output length mod 8
		Bytes in = big ? genLarge(r, false, nullptr, 18) : genInput(r, 3000, false);
		Res z = compress(codecs[0], in, ref::bound(in.size()), Place());
		if (z.ret != 0) return;
		ref::Decoded d = ref::decode(z.out.data(), z.out.size());
		if (d.st != ref::OK) { stat("base.notwellformed"); return; }
		g.bytes = z.out; g.out = d.out; g.endBit = d.endBit;
	}
	uint64_t crcBit = g.endBit - 32;
	size_t cap = g.out.size() + 2000;
	auto flip = [](Bytes &b, uint64_t bit) { b[bit / 8] ^= (uint8_t)(0x80 >> (bit % 8)); };
	auto setCrc = [&](Bytes &b, uint32_t v) { for (int i = 0; i < 32; i++) { uint64_t bit = crcBit + (uint64_t)i; uint8_t m = (uint8_t)(0x80 >> (bit % 8)); if (v >> (31 - i) & 1) b[bit / 8] |= m; else b[bit / 8] &= (uint8_t)~m; } };
	if (huge) {
		Bytes b = g.bytes; flip(b, crcBit + r.below(32)); c05_check(b, cap, r, "crc bit", true);
		for (int i = 0; i < 2; i++) { b = g.bytes; flip(b, i ? crcBit - 6 - r.below(5) : r.below(crcBit)); c05_check(b, cap, r, "bit flip", false); }
		return;
	}
	// every bit of the CRC
	for (int i = 0; i < 32; i += big ? 5 : 1) { Bytes b = g.bytes; flip(b, crcBit + (uint64_t)i); c05_check(b, cap, r, "crc bit", true); }
	uint32_t t = ref::crc32(g.out.data(), g.out.size());
	uint32_t alts[] = { ~t, t ^ 0xffff0000u, t ^ 0xffffu, t << 8, __builtin_bswap32(t), 0, 0xffffffffu, (uint32_t)r.next(), t + 1 };
	for (uint32_t a : alts) if (a != t) { Bytes b = g.bytes; setCrc(b, a); c05_check(b, cap, r, "crc value", true); }
	// data bits: all of a small stream, a sample of a large one
	uint64_t n = crcBit;
	uint64_t step = n <= 400 ? 1 : big ? n / 12 : n / 300;
	for (uint64_t i = r.below(step); i < n; i += step) { Bytes b = g.bytes; flip(b, i); c05_check(b, cap, r, "bit flip", false); }
	for (int i = 0; i < (big ? 3 : 20); i++) { // bursts, byte substitutions, swaps
		Bytes b = g.bytes;
		if (r.chance(40)) { uint64_t o = r.below(n), l = r.range(2, 40); for (uint64_t k = o; k < o + l && k < g.endBit; k++) if (r.chance(50)) flip(b, k); }
		else if (r.chance(50)) b[r.below((g.endBit + 7) / 8)] = (uint8_t)r.next();
		else { size_t a = r.below(b.size()), e = r.below(b.size()); std::swap(b[a], b[e]); }
		c05_check(b, cap, r, "burst/substitution", false);
	}
	// single changes of literal bytes: re-encode the same tokens with one literal changed, CRC kept
	if (!g.toks.empty()) for (int i = 0; i < (big ? 4 : 16); i++) {
		std::vector<ref::Tok> tk = g.toks; size_t k = r.below(tk.size());
		if (i == 0) k = tk.size() - 1;
		if (i == 1) k = 0;
		if (tk[k].op == ref::OP_SHORT) tk[k].sh[r.below(tk[k].arg[0])] ^= (uint8_t)(1 << r.below(8));
		else if (tk[k].op == ref::OP_REPEAT) tk[k].arg[0] ^= 1;
		else if (tk[k].op <= 0x19) { ref::Template T = ref::makeTemplate(tk[k].op); int s = (int)r.below(T.n); if (T.s[s].kind == 'D') tk[k].arg[s] ^= 1ull << r.below(T.s[s].size * 8u); else continue; }
		else continue;
		ref::BitWriter w; for (auto &x : tk) ref::putTok(w, x);
		w.put(ref::OP_END, 5); w.put(t, 32); w.pad(8);
		c05_check(w.b, cap, r, "literal/repeat change", false);
	}
	sample("stream of %zu bytes, output %zu, head=%s", g.bytes.size(), g.out.size(), Hex(g.bytes).s);
	(void)idx;
}

// ---------------------------------------------------------------- C06
static void c06(uint64_t idx, Rng &r)
{
	int kind; Bytes in = genHostile(r, r.chance(70) ? 60 : 600, &kind);
	if (r.chance(15)) { GenStream g = genStream(r, 100, r.chance(50), 20000); in = g.bytes; kind = 1; }
	if (large(idx)) { in = genLargeStream(r, r.chance(50), 17).bytes; kind = 1; for (int i = 0; i < 3; i++) if (r.chance(60)) in[r.chance(50) ? r.below(in.size()) : in.size() - 1 - r.below(40)] ^= (uint8_t)(1 << r.below(8)); if (r.chance(30)) in.resize(in.size() - r.below(100)); }
	char n[40]; snprintf(n, sizeof n, "hostile.%s", hostileKinds[kind]); stat(n);
	ref::Decoded d = ref::decode(in.data(), in.size());
	size_t exact = d.out.size();
	for (int ci = 0; ci < 2; ci++) {
		size_t caps[4] = { exact, exact ? exact - 1 - r.below(exact < 8 ? exact : 8) : 0, r.below(2 * exact + 64), r.below(64) };
		for (size_t cap : caps) {
			Res o = decompress(codecs[ci], in, cap, genPlace(r));
			stat("calls"); if (o.ret == 0) stat("calls.success"); else stat("calls.failed");
		}
	}
	snprintf(n, sizeof n, "stopped.%s", ref::statusName[d.st]); stat(n);
	if (in.size() >= 2) distinct(mix(d.opsig, d.st * 100003ull + in.size()));
	sample("kind=%s in=%s", hostileKinds[kind], Hex(in).s);
	(void)idx;
}

// ---------------------------------------------------------------- C07
static void c07(uint64_t idx, Rng &r)
{
	int kind; Bytes in = makeInput(r, idx, r.chance(50), &kind);
	inputStats(in, kind);
	size_t b = ref::bound(in.size());
	for (int ci = 0; ci < 2; ci++) {
		size_t caps[4] = { b, r.below(b + 1), r.chance(50) ? in.size() : in.size() / 2, r.below(32) };
		for (size_t cap : caps) {
			Res o = compress(codecs[ci], in, cap, genPlace(r));
			stat("calls"); if (o.ret == 0) stat("calls.success"); else if (o.ret == -ENOSPC) stat("calls.enospc"); else stat("calls.otherfailure");
		}
		// capacity cut close to the exact need
		Res full = compress(codecs[ci], in, b, genPlace(r));
		if (full.ret == 0) for (size_t k = 1; k <= 9 && k <= full.olen; k += 1 + r.below(4)) { compress(codecs[ci], in, full.olen - k, genPlace(r)); stat("calls"); }
	}
	if (in.size()) distinct(fnv(in.data(), in.size()));
	sample("len=%zu kind=%s head=%s", in.size(), inputKinds[kind], Hex(in).s);
}

// ---------------------------------------------------------------- C08
static void c08_sweep(const char *name, lib842_compress_func f, const Bytes &in, size_t need, const Bytes &want, Rng &r, bool zeroOlenAlways)
{
	size_t top = need + 17;
	std::vector<size_t> caps;
	bool big = need > 30000;
	if (need <= 260) for (size_t c = 0; c <= top; c++) caps.push_back(c);
	else {
		for (size_t c = need - 24; c <= top; c += big ? 1 + r.below(8) : 1) caps.push_back(c);
		if (big) { caps.push_back(need); caps.push_back(need - 1); }
		for (int i = 0; i < (big ? 3 : 24); i++) caps.push_back(r.below(need));
		caps.push_back(0); caps.push_back(1); caps.push_back(7); caps.push_back(8);
	}
	caps.push_back(need + 4096 + r.below(5000));
	char key[200];
	for (size_t cap : caps) {
		Place pl = genPlace(r);
		Res o = call(name, f, in.data(), in.size(), cap, pl);
		stat("capacities.tried");
		if (cap >= need) {
			if (o.ret != 0) { snprintf(key, sizeof key, "%s fails although the capacity suffices", name); fail(key, "ret=%d cap=%zu need=%zu ilen=%zu ialign=%u oalign=%u", o.ret, cap, need, in.size(), pl.ialign, pl.oalign); }
			else if (o.out != want) { snprintf(key, sizeof key, "%s result depends on the excess capacity", name); fail(key, "cap=%zu need=%zu len=%zu", cap, need, o.out.size()); }
			else stat("capacity.sufficient.ok");
		} else {
			if (o.ret != -ENOSPC) { snprintf(key, sizeof key, "%s does not return -ENOSPC when the capacity is too small", name); fail(key, "ret=%d cap=%zu need=%zu ilen=%zu ialign=%u oalign=%u", o.ret, cap, need, in.size(), pl.ialign, pl.oalign); }
			if (o.olen != 0) { snprintf(key, sizeof key, "%s leaves a nonzero length on failure", name); fail(key, "olen=%zu cap=%zu need=%zu", o.olen, cap, need); }
			stat("capacity.short.checked");
		}
	}
	(void)zeroOlenAlways;
}
static void c08(uint64_t idx, Rng &r)
{
	int kind = 0; Bytes in;
	bool big = large(idx);
	if (idx % 3 == 2) { // decompression of streams from other encoders
		GenStream g = big ? genLargeStream(r, r.chance(30), 18) : genStream(r, r.chance(80) ? 20 : 400, r.chance(30), 20000);
		ref::Decoded d = ref::decode(g.bytes.data(), g.bytes.size());
		for (int ci = 0; ci < 2; ci++) if (!(codecs[ci].opt && d.usesShort)) c08_sweep(nm(codecs[ci], false), codecs[ci].decompress, g.bytes, g.out.size(), g.out, r, true);
		if (g.out.size()) distinct(fnv(g.bytes.data(), g.bytes.size()));
		return;
	}
	if (big) in = genLarge(r, false, &kind, 18);
	else if (r.chance(60)) { kind = (int)r.below(NUM_INPUT_KINDS); genInto(r, in, r.below(200), kind); } else in = genInput(r, 6000, false, &kind);
	if (r.chance(50)) in.resize(in.size() & ~(size_t)7);
	inputStats(in, kind);
	for (int ci = 0; ci < 2; ci++) {
		const Codec &c = codecs[ci];
		char key[160];
		if (c.opt && in.size() % 8) { // documented failure: must leave *olen at 0
			size_t cap = r.below(2 * ref::bound(in.size()));
			Place pl = genPlace(r);
			Res o = compress(c, in, cap, pl);
			stat("unsupported.length");
			if (o.ret != -EINVAL) { snprintf(key, sizeof key, "%s does not return -EINVAL for an unsupported length", nm(c, true)); fail(key, "ret=%d ilen=%zu", o.ret, in.size()); }
			if (o.ret != 0 && o.olen != 0) { snprintf(key, sizeof key, "%s leaves a nonzero length on failure", nm(c, true)); fail(key, "olen=%zu ilen=%zu cap=%zu (unsupported length)", o.olen, in.size(), cap); }
			continue;
		}
		Res z = compress(c, in, ref::bound(in.size()) + 8 * r.below(4), Place());
		if (z.ret != 0) { snprintf(key, sizeof key, "%s fails although the capacity suffices", nm(c, true)); fail(key, "ret=%d ilen=%zu", z.ret, in.size()); continue; }
		lib842_compress_func f = c.compress;
		if (!c.opt) c08_sweep(nm(c, true), f, in, z.olen, z.out, r, true);
		else {
			// fixed placement class: aligned
			size_t need = z.olen; std::vector<size_t> caps;
			if (need <= 260) for (size_t k = 0; k <= need + 17; k++) caps.push_back(k);
			else { for (size_t k = need - 24; k <= need + 17; k += big ? 1 + r.below(8) : 1) caps.push_back(k); if (big) { caps.push_back(need); caps.push_back(need - 1); } for (int i = 0; i < (big ? 3 : 24); i++) caps.push_back(r.below(need)); caps.push_back(0); caps.push_back(7); caps.push_back(8); }
			caps.push_back(need + 5000);
			for (size_t cap : caps) {
				Place pl; pl.iend = r.chance(75); pl.oend = r.chance(75);
				Res o = compress(c, in, cap, pl);
				stat("capacities.tried");
				if (cap >= need && (o.ret != 0 || o.out != z.out)) { snprintf(key, sizeof key, o.ret ? "%s fails although the capacity suffices" : "%s result depends on the excess capacity", nm(c, true)); fail(key, "ret=%d cap=%zu need=%zu", o.ret, cap, need); }
				if (cap < need && o.ret != -ENOSPC) { snprintf(key, sizeof key, "%s does not return -ENOSPC when the capacity is too small", nm(c, true)); fail(key, "ret=%d cap=%zu need=%zu", o.ret, cap, need); }
				if (cap < need && o.olen != 0) { snprintf(key, sizeof key, "%s leaves a nonzero length on failure", nm(c, true)); fail(key, "olen=%zu cap=%zu", o.olen, cap); }
				stat(cap >= need ? "capacity.sufficient.ok" : "capacity.short.checked");
			}
		}
		for (int di = 0; di < 2; di++) if (!(codecs[di].opt && in.size() % 8)) c08_sweep(nm(codecs[di], false), codecs[di].decompress, z.out, in.size(), in, r, true);
		if (in.size() >= 8) distinct(fnv(z.out.data(), z.out.size(), (uint64_t)ci));
	}
	// failures other than capacity also leave length 0
	int hk; Bytes h = genHostile(r, 30, &hk);
	for (int ci = 0; ci < 2; ci++) {
		Res o = decompress(codecs[ci], h, 30000, genPlace(r));
		if (o.ret != 0 && o.olen != 0) { char key[160]; snprintf(key, sizeof key, "%s leaves a nonzero length on failure", nm(codecs[ci], false)); fail(key, "ret=%d olen=%zu kind=%s", o.ret, o.olen, hostileKinds[hk]); }
		if (o.ret != 0) stat("other.failures");
	}
	sample("len=%zu kind=%s", in.size(), inputKinds[kind]);
}

// ---------------------------------------------------------------- C09
#if !defined(H_ASAN) && !defined(H_MSAN) && !defined(H_TSAN)
static void c09_huge(uint64_t which, Rng &r)
{
	// chunks spread over more than 4 GiB (sparse mappings): offsets must not wrap
	size_t n = which == 0 ? 3 : which == 1 ? 2 : 5;
	size_t is = which == 0 ? (2300ull << 20) : which == 1 ? (4096ull << 20) + 64 : 4096, os = which == 2 ? (1100ull << 20) : which == 1 ? 65536 : (2200ull << 20) + 8;
	const size_t clen = 4096, cap = 8192;
	size_t ispan = is * (n - 1) + clen, ospan = os * (n - 1) + cap;
	uint8_t *in = (uint8_t *)mmap(nullptr, ispan, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	uint8_t *out = (uint8_t *)mmap(nullptr, ospan, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (in == MAP_FAILED || out == MAP_FAILED) { stat("huge.skipped"); return; }
	for (int ci = 0; ci < 2; ci++) for (int dir = 0; dir < 2; dir++) {
		std::vector<Bytes> src, want; std::vector<size_t> il, ol; std::vector<int> rets;
		for (size_t i = 0; i < n; i++) {
			Bytes b; genInto(r, b, 2048, (int)(4 + r.below(6)));
			Res z = compress(codecs[ci], b, ref::bound(b.size()), Place());
			if (z.ret != 0) { stat("base.failed"); goto done; }
			if (dir == 0) { src.push_back(b); want.push_back(z.out); } else { src.push_back(z.out); want.push_back(b); }
			memcpy(in + i * is, src[i].data(), src[i].size());
			il.push_back(src[i].size()); ol.push_back(cap); rets.push_back(12345);
		}
		{
			int ret = (dir == 0 ? codecs[ci].compress_chunked : codecs[ci].decompress_chunked)(n, rets.data(), in, is, il.data(), out, os, ol.data());
			char key[160];
			snprintf(key, sizeof key, "%s chunked call differs from single calls beyond 4 GiB", codecs[ci].name);
			if (ret != 0) fail(key, "overall ret=%d", ret);
			for (size_t i = 0; i < n; i++)
				if (rets[i] != 0 || ol[i] != want[i].size() || memcmp(out + i * os, want[i].data(), want[i].size()))
					fail(key, "chunk %zu of %zu istride=%zu ostride=%zu dir=%d ret=%d olen=%zu want=%zu", i, n, is, os, dir, rets[i], ol[i], want[i].size());
			stat("chunked.over.4GiB");
			distinct(mix(which * 4 + (uint64_t)ci * 2 + (uint64_t)dir, 999));
		}
		madvise(out, ospan, MADV_DONTNEED); madvise(in, ispan, MADV_DONTNEED);
	}
done:
	munmap(in, ispan); munmap(out, ospan);
}
#endif
static void c09(uint64_t idx, Rng &r)
{
#if !defined(H_ASAN) && !defined(H_MSAN) && !defined(H_TSAN)
	if (idx < 3) { c09_huge(idx, r); return; }
#endif
	int ci = (int)r.below(2), dir = (int)r.below(2);
	bool many = false; // more chunks than fit 16 bits
#if !defined(H_ASAN) && !defined(H_MSAN) && !defined(H_TSAN)
	if (idx >= 4 && idx < 8) { many = true; ci = idx & 1; dir = idx >> 1 & 1; }
#endif
	const Codec &c = codecs[ci];
	bool viaTable = r.chance(50);
	bool big = large(idx);
	size_t n = big ? r.range(1, 4) : r.chance(10) ? 0 : r.chance(80) ? r.range(1, 9) : r.range(1, 60);
	if (many || (G.thorough && !big && r.chance(1))) n = 65536 + r.below(6000);
	size_t per = n > 1000 ? 24 : 1500;
	std::vector<Bytes> src(n); std::vector<size_t> il(n), ol(n); std::vector<int> rets(n);
	size_t maxin = 0, maxcap = 0;
	bool anyBad = false; unsigned kinds = 0;
	for (size_t i = 0; i < n; i++) {
		int what = (int)r.below(10); // 0 skip, 1 failing otherwise, 2 short capacity, else fine
		Bytes b = big ? genLarge(r, true, nullptr, 17) : genInput(r, per, true);
		if (dir == 0) { src[i] = b; if (what == 1) { src[i].push_back(1); } }
		else {
			Res z = compress(c, b, ref::bound(b.size()), Place());
			src[i] = z.ret == 0 ? z.out : Bytes(8, 0xff);
			if (what == 1) { int k; src[i] = genHostile(r, 20, &k); }
		}
		il[i] = src[i].size();
		ol[i] = dir == 0 ? ref::bound(b.size()) : b.size();
		if (what == 2) ol[i] = r.below(ol[i] + 1);
		if (what == 0) il[i] = SIZE_MAX;
		kinds |= 1u << (what < 3 ? what : 3);
		maxin = std::max(maxin, src[i].size()); maxcap = std::max(maxcap, ol[i]);
		rets[i] = (int)r.next();
	}
	size_t al = r.chance(80) ? 8 : 1;
	size_t is = (maxin + (r.chance(50) ? 0 : r.below(100)) + al - 1) / al * al, os = (maxcap + (r.chance(50) ? 0 : r.below(100)) + al - 1) / al * al;
	unsigned ia = r.chance(85) ? 0 : (unsigned)r.below(8), oa = r.chance(85) ? 0 : (unsigned)r.below(8);
	size_t ispan = n ? is * (n - 1) + maxin : 0, ospan = n ? os * (n - 1) + maxcap : 0;
	GuardBuf ib(ispan, ia, true), ob(ospan, oa, true);
	if (ispan) memset(ib.p, 0x3c, ispan);
	for (size_t i = 0; i < n; i++) if (il[i] != SIZE_MAX && il[i]) memcpy(ib.p + i * is, src[i].data(), src[i].size());
	Bytes inCopy(ib.p, ib.p + ispan);
	Bytes before(ospan); for (auto &x : before) x = (uint8_t)r.next();
	if (ospan) memcpy(ob.p, before.data(), ospan);
	// expected: single calls, one by one, on a private copy with identical alignment
	GuardBuf eb(ospan, oa, true);
	if (ospan) memcpy(eb.p, before.data(), ospan);
	std::vector<int> er = rets; std::vector<size_t> eo = ol;
	for (size_t i = 0; i < n; i++) {
		if (il[i] == SIZE_MAX) continue;
		er[i] = (dir == 0 ? c.compress : c.decompress)(ib.p + i * is, il[i], eb.p + i * os, &eo[i]);
		if (er[i] != 0 && er[i] != -ENOSPC) anyBad = true;
		stat(er[i] == 0 ? "chunk.ok" : er[i] == -ENOSPC ? "chunk.enospc" : "chunk.error");
	}
	Bytes expect(eb.p, eb.p + ospan);
	const lib842_implementation *im = impl(ci);
	lib842_compress_chunked_func f = dir == 0 ? (viaTable ? im->compress_chunked : c.compress_chunked) : (viaTable ? im->decompress_chunked : c.decompress_chunked);
	std::vector<size_t> il0 = il; std::vector<int> r0 = rets; std::vector<size_t> o0 = ol;
	int ret = f(n, rets.data(), ib.p, is, il.data(), ob.p, os, ol.data());
	char key[200];
	const char *fn = ci ? (dir ? "optsw842_decompress_chunked" : "optsw842_compress_chunked") : (dir ? "sw842_decompress_chunked" : "sw842_compress_chunked");
	stat("chunked.calls");
	if ((ret != 0) != anyBad) { snprintf(key, sizeof key, anyBad ? "%s reports success although a chunk failed" : "%s reports failure although no chunk failed", fn); fail(key, "ret=%d n=%zu table=%d", ret, n, viaTable); }
	else if (ret > 0) { snprintf(key, sizeof key, "%s returns a positive value", fn); fail(key, "ret=%d", ret); }
	if (il != il0) { snprintf(key, sizeof key, "%s modifies the input lengths", fn); fail(key, "n=%zu", n); }
	for (size_t i = 0; i < n; i++) {
		if (il0[i] == SIZE_MAX) {
			if (rets[i] != r0[i] || ol[i] != o0[i]) { snprintf(key, sizeof key, "%s touches a skipped chunk", fn); fail(key, "chunk=%zu n=%zu ret=%d olen=%zu", i, n, rets[i], ol[i]); }
			stat("chunk.skipped");
		} else if (rets[i] != er[i] || ol[i] != eo[i]) {
			snprintf(key, sizeof key, "%s differs from single calls", fn);
			fail(key, "chunk=%zu of %zu ret=%d/%d olen=%zu/%zu", i, n, rets[i], er[i], ol[i], eo[i]);
		}
	}
	if (ospan && memcmp(ob.p, expect.data(), ospan)) { // bytes of failed chunks beyond olen 0 are scratch: same code, same scratch expected within the capacity only
		for (size_t i = 0; i < n; i++) {
			size_t lo = i * os, cap = o0[i], len = il0[i] == SIZE_MAX ? 0 : (er[i] == 0 ? eo[i] : 0);
			if (len && memcmp(ob.p + lo, expect.data() + lo, len)) { snprintf(key, sizeof key, "%s differs from single calls", fn); fail(key, "bytes of chunk %zu of %zu", i, n); }
			size_t hi = i + 1 < n ? lo + os : ospan;
			size_t from = il0[i] == SIZE_MAX ? lo : std::min(hi, lo + cap);
			if (hi > from && memcmp(ob.p + from, before.data() + from, hi - from)) { snprintf(key, sizeof key, "%s writes between chunks", fn); fail(key, "after chunk %zu of %zu, skipped=%d", i, n, il0[i] == SIZE_MAX); }
		}
	}
	// independently of `expect`: bytes outside capacities are untouched
	for (size_t i = 0; i < n; i++) {
		size_t lo = i * os, hi = i + 1 < n ? lo + os : ospan, from = il0[i] == SIZE_MAX ? lo : std::min(hi, lo + o0[i]);
		if (hi > from && memcmp(ob.p + from, before.data() + from, hi - from)) { snprintf(key, sizeof key, "%s writes between chunks", fn); fail(key, "after chunk %zu of %zu", i, n); }
	}
	if (!ob.ok() || !ib.ok() || (ispan && memcmp(ib.p, inCopy.data(), ispan))) { snprintf(key, sizeof key, "%s writes outside its output", fn); fail(key, "n=%zu", n); }
	eb.ok();
	if (n > 1) distinct(mix(fnv(inCopy.data(), inCopy.size()), (uint64_t)(ci * 2 + dir) * 64 + kinds));
	sample("codec=%s dir=%s n=%zu istride=%zu ostride=%zu skip/err/short mask=%x", c.name, dir ? "decompress" : "compress", n, is, os, kinds);
	(void)idx;
}

// ---------------------------------------------------------------- C10
__attribute__((noinline)) static void stackFill(int pat)
{
	volatile uint8_t buf[48 * 1024];
	for (size_t i = 0; i < sizeof buf; i++) buf[i] = (uint8_t)(pat == 256 ? (i * 197 + 13) : pat);
	__asm__ volatile("" : : "r"(buf) : "memory");
}
static void c10(uint64_t idx, Rng &r)
{
	struct Call { int ci; bool comp; Bytes in; size_t cap; };
	Call base;
	base.ci = (int)r.below(2); base.comp = r.chance(60);
	int kind = 0;
	if (base.comp) { base.in = genInput(r, 6000, base.ci == 1, &kind); base.cap = r.chance(80) ? ref::bound(base.in.size()) : r.below(ref::bound(base.in.size()) + 1); }
	else { if (r.chance(50)) { GenStream g = genStream(r, 300, base.ci == 0, 20000); base.in = g.bytes; base.cap = g.out.size() + r.below(64); } else { base.in = genHostile(r, 100, &kind); base.cap = r.below(30000); } }
	if (large(idx)) {
		if (base.comp) { base.in = genLarge(r, base.ci == 1, &kind, 18); base.cap = ref::bound(base.in.size()); }
		else { GenStream g = genLargeStream(r, base.ci == 0, 18); base.in = g.bytes; base.cap = g.out.size() + r.below(64); }
	}
	const Codec &c = codecs[base.ci];
	bool unal = r.chance(15);
	auto once = [&](unsigned a) { Place p; p.ialign = unal ? 1 + a % 7 : 0; p.oalign = unal ? (a * 3) % 8 : 0; p.iend = a & 1; p.oend = a & 2;
		return base.comp ? compress(c, base.in, base.cap, p) : decompress(c, base.in, base.cap, p); };
	outFill = 0xCC;
	Res first = once(3);
	unsigned reps = 5;
	for (unsigned k = 0; k < reps; k++) {
		int pat = k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? 256 + (int)r.below(1000) : (int)r.below(256);
#ifdef H_COUNT_ALLOC
		fillMode = pat;
#endif
		outFill = (uint8_t)(k == 0 ? 0 : k == 1 ? 0xff : r.next());
		// disturb history: some other calls, including failing ones
		for (unsigned h = 0; h < r.below(3); h++) {
			int hk; Bytes o = r.chance(50) ? genHostile(r, 40, &hk) : genInput(r, 2000, true);
			const Codec &oc = codecs[r.below(2)];
			if (r.chance(50)) decompress(oc, o, r.below(5000), Place()); else compress(oc, o, r.below(5000), Place());
			stat("history.calls");
		}
		// same call twice with the input embedded in different surroundings
		stackFill(pat > 255 ? 256 : pat);
		Res again;
		if (k & 1) again = once((unsigned)r.below(8));
		else {
			Bytes big(base.in.size() + 64 + 32); for (auto &x : big) x = (uint8_t)r.next();
			uint8_t *q = big.data(); while (((uintptr_t)q & 7) != (unal ? 1u : 0u)) q++;
			q += 16;
			if (!base.in.empty()) memcpy(q, base.in.data(), base.in.size());
			GuardBuf ob(base.cap, 0, true);
#ifndef H_MSAN
			if (base.cap) memset(ob.p, outFill, base.cap);
#endif
			size_t ol = base.cap;
			again.ret = (base.comp ? c.compress : c.decompress)(q, base.in.size(), ob.p, &ol);
			again.olen = ol;
			if (again.ret == 0 && ol <= base.cap) again.out.assign(ob.p, ob.p + ol);
			ob.ok();
		}
#ifdef H_COUNT_ALLOC
		fillMode = -1;
#endif
		stat("repetitions");
		if (!sameRes(first, again)) {
			char key[160]; snprintf(key, sizeof key, "%s result is not a function of its input", nm(c, base.comp));
			fail(key, "first ret=%d olen=%zu, again ret=%d olen=%zu (fill %d, output prefill %02x)", first.ret, first.olen, again.ret, again.olen, pat, outFill);
			break;
		}
	}
	outFill = 0xCC;
	stat(first.ret == 0 ? "calls.success" : "calls.failed");
	if (base.in.size() > 8) distinct(mix(fnv(base.in.data(), base.in.size()), (uint64_t)base.ci * 2 + base.comp));
	sample("%s ilen=%zu cap=%zu ret=%d", nm(c, base.comp), base.in.size(), base.cap, first.ret);
	(void)idx;
}

// ---------------------------------------------------------------- C11
struct TCase { int ci; int what; Bytes in; size_t cap; Res want; unsigned off; Bytes known; bool isKnown; };
struct TShared { std::vector<TCase> *cases; unsigned nthreads; unsigned calls; uint64_t seed; pthread_barrier_t bar; volatile long inflight; volatile long maxInflight; volatile long overlapped; std::vector<std::pair<const TCase *, Res>> *later; };
struct TArg { TShared *s; unsigned id; };
static Res rawCall(const TCase &t, uint8_t *ob, unsigned char fill, uint8_t *ibuf)
{
	Res o; size_t ol = t.cap;
	const Codec &c = codecs[t.ci];
	memset(ob, fill, t.cap + 8);
	if (t.what < 2) o.ret = (t.what == 0 ? c.compress : c.decompress)(ibuf, t.in.size(), ob, &ol);
	else {
		const lib842_implementation *im = impl(t.ci);
		size_t il = t.in.size(); int rr = 4711;
		int all = (t.what == 2 ? im->compress_chunked : im->decompress_chunked)(1, &rr, ibuf, il, &il, ob, t.cap, &ol);
		o.ret = rr; (void)all;
	}
	o.olen = ol;
	if (o.ret == 0 && ol <= t.cap) o.out.assign(ob, ob + ol);
	return o;
}
static void *c11_thread(void *a)
{
	TArg *ta = (TArg *)a; TShared *s = ta->s;
	Rng r(s->seed, ta->id, 11);
	std::vector<uint64_t> ob(16384), ib(16384);
	pthread_barrier_wait(&s->bar);
	for (unsigned i = 0; i < s->calls; i++) {
		const TCase &t = (*s->cases)[r.below(s->cases->size())];
		uint8_t *in = const_cast<uint8_t *>(t.in.data()); // shared between threads
		bool shared = r.chance(60) && ((uintptr_t)in & 7) == 0 && !t.off;
		if (!shared) { uint8_t *to = (uint8_t *)ib.data() + t.off; if (t.in.size()) memcpy(to, t.in.data(), t.in.size()); in = to; }
		long n = __atomic_add_fetch(&s->inflight, 1, __ATOMIC_RELAXED);
		Res o = rawCall(t, (uint8_t *)ob.data() + t.off, (uint8_t)r.next(), in);
		__atomic_sub_fetch(&s->inflight, 1, __ATOMIC_RELAXED);
		if (n > 1) __atomic_add_fetch(&s->overlapped, 1, __ATOMIC_RELAXED);
		if (s->later) { s->later[ta->id].push_back({ &t, o }); continue; }
		if (!sameRes(o, t.want)) {
			char key[160]; snprintf(key, sizeof key, "%s gives a different result when threads run concurrently", nm(codecs[t.ci], t.what % 2 == 0));
			fail(key, "thread %u call %u ret=%d/%d olen=%zu/%zu", ta->id, i, o.ret, t.want.ret, o.olen, t.want.olen);
		}
	}
	return nullptr;
}
static void c11cases(std::vector<TCase> &cs, Rng &r)
{
	for (auto &t : cs) {
		t.ci = (int)r.below(2); t.what = (int)r.below(4); int k; t.isKnown = false;
		if (t.what % 2 == 0) { t.in = genInput(r, 4000, t.ci == 1 ? r.chance(95) : false, &k); if (r.chance(2)) { t.in.clear(); genInto(r, t.in, 65536, k); t.in.resize(65536); } t.cap = r.chance(85) ? ref::bound(t.in.size()) : r.below(200); }
		else if (r.chance(70)) { GenStream g = r.chance(3) ? genStream(r, 9000, t.ci == 0, 65536, 9000) : genStream(r, 200, t.ci == 0, 20000); t.in = g.bytes; t.cap = g.out.size() + r.below(8); t.known = g.out; t.isKnown = true; }
		else { t.in = genHostile(r, 60, &k); t.cap = r.below(20000); }
		t.cap = std::min<size_t>(t.cap, 120000);
		t.off = r.chance(70) ? 0 : (unsigned)r.below(8);
	}
}
static Res c11alone(const TCase &t)
{
	static std::vector<uint64_t> ob(16384), ib(16384);
	uint8_t *in = (uint8_t *)ib.data() + t.off;
	if (t.in.size()) memcpy(in, t.in.data(), t.in.size());
	return rawCall(t, (uint8_t *)ob.data() + t.off, 0x55, in);
}
static void c11threads(TShared &s)
{
	pthread_barrier_init(&s.bar, nullptr, s.nthreads);
	std::vector<pthread_t> th(s.nthreads); std::vector<TArg> args(s.nthreads);
	for (unsigned i = 0; i < s.nthreads; i++) { args[i] = { &s, i }; if (pthread_create(&th[i], nullptr, c11_thread, &args[i])) { inconclusive("pthread_create"); _exit(96); } }
	for (auto &t : th) pthread_join(t, nullptr);
	pthread_barrier_destroy(&s.bar);
}
// A process in which nothing of the library has run yet: its very first calls are concurrent ones
// (whatever is set up on first use is set up then). Forked from a process set aside before the first case.
static void c11fresh(uint64_t idx)
{
	Rng r(G.seed, 0x7e57, idx);
	std::vector<TCase> cs(r.range(1, 3));
	c11cases(cs, r);
	std::vector<std::pair<const TCase *, Res>> later[8];
	TShared s{}; s.cases = &cs; s.nthreads = (unsigned)r.range(2, 8); s.calls = 4; s.seed = r.next(); s.later = later;
	c11threads(s);
	for (auto &t : cs) t.want = c11alone(t);
	for (unsigned i = 0; i < s.nthreads; i++) for (auto &x : later[i]) {
		const TCase &t = *x.first; char key[160];
		snprintf(key, sizeof key, "%s gives a different result when first used by several threads", nm(codecs[t.ci], t.what % 2 == 0));
		if (!sameRes(x.second, t.want)) fail(key, "thread %u of %u ret=%d/%d olen=%zu/%zu", i, s.nthreads, x.second.ret, t.want.ret, x.second.olen, t.want.olen);
		else if (t.isKnown && (x.second.ret || x.second.out != t.known) && !(t.ci == 1 && x.second.ret < 0)) fail(key, "thread %u of %u ret=%d olen=%zu, not what the stream means", i, s.nthreads, x.second.ret, x.second.olen);
		else if (t.what % 2 == 0 && x.second.ret == 0) {
			ref::Decoded d = ref::decode(x.second.out.data(), x.second.out.size());
			if (d.st != ref::OK || d.out != t.in) fail(key, "thread %u of %u: not a compressed form of the input", i, s.nthreads);
		}
	}
	_exit(G.nfail ? 1 : 0);
}
static int zy[2];
static void c11zygote()
{
	if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, zy)) { inconclusive("socketpair"); _exit(98); }
	pid_t pid = fork();
	if (pid < 0) { inconclusive("fork"); _exit(98); }
	if (pid) { close(zy[1]); return; }
	close(zy[0]);
	uint64_t idx;
	while (read(zy[1], &idx, 8) == 8) {
		G.index = idx;
		pid_t c = fork(); int st = 98 << 8;
		if (c == 0) c11fresh(idx);
		if (c > 0) while (waitpid(c, &st, 0) < 0) if (errno != EINTR) break;
		if (write(zy[1], &st, sizeof st) != (ssize_t)sizeof st) break;
	}
	_exit(0);
}
static void c11(uint64_t idx, Rng &r)
{
	if (idx % 3 == 1) {
		int st;
		if (write(zy[0], &idx, 8) != 8 || read(zy[0], &st, sizeof st) != (ssize_t)sizeof st) { inconclusive("helper process lost"); _exit(98); }
		stat("fresh processes");
		if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(3); }
		if (WEXITSTATUS(st) == 1) G.nfail++;
		else if (WEXITSTATUS(st) != 0) _exit(WEXITSTATUS(st));
		return;
	}
	std::vector<TCase> cs(r.range(4, 16));
	// the getters race too: first case of a process calls them first from the threads
	c11cases(cs, r);
	for (auto &t : cs) { int w = t.what; if (idx % 4 == 0) t.what = w % 2; t.want = c11alone(t); t.what = w; }
	TShared s{}; s.cases = &cs; s.nthreads = (unsigned)r.range(2, 8); s.calls = 40; s.seed = r.next();
	c11threads(s);
	stat("threads", s.nthreads); stat("concurrent.calls", s.nthreads * s.calls); stat("calls.overlapping", (uint64_t)s.overlapped);
	uint64_t h = s.nthreads; for (auto &t : cs) h = mix(h, fnv(t.in.data(), t.in.size(), (uint64_t)t.what));
	if (s.overlapped > 0) distinct(h);
	sample("threads=%u calls=%u distinct inputs=%zu overlapping=%ld", s.nthreads, s.nthreads * s.calls, cs.size(), s.overlapped);
}

// ---------------------------------------------------------------- C12
#ifdef H_COUNT_ALLOC
#include <dirent.h>
static int countFds() { int n = 0; for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }
static void c12(uint64_t idx, Rng &r)
{
	int kind = 0, ci = (int)r.below(2), what = (int)r.below(4);
	const Codec &c = codecs[ci];
	Bytes in; size_t cap = 0; std::vector<size_t> caps;
	bool comp = what % 2 == 0;
	if (comp) {
		in = genInput(r, r.chance(70) ? 300 : 5000, r.chance(70), &kind);
		cap = ref::bound(in.size());
	} else if (r.chance(50)) { GenStream g = genStream(r, 60, r.chance(40), 6000); in = g.bytes; cap = g.out.size(); }
	else { in = genHostile(r, 60, &kind); cap = r.below(20000); }
	bool big = large(idx);
	if (big && comp) { in = genLarge(r, c.opt, &kind, 18); cap = ref::bound(in.size()); }
	else if (big) { GenStream g = genLargeStream(r, r.chance(40), 18); in = g.bytes; cap = g.out.size(); if (r.chance(30)) in[r.below(in.size())] ^= 8; }
	for (size_t k = 0; k <= cap; k += cap <= 400 ? 1 : 1 + cap / (big ? 6 : 120)) caps.push_back(k);
	caps.push_back(cap);
	std::vector<uint64_t> ib((in.size() + 16) / 8 + 2), ob((cap + 16) / 8 + 2);
	unsigned ia = r.chance(80) ? 0 : (unsigned)r.below(8);
	uint8_t *ip = (uint8_t *)ib.data() + ia, *op = (uint8_t *)ob.data();
	if (in.size()) memcpy(ip, in.data(), in.size());
	// warm up lazily initialised things (stdio buffers, exception machinery)
	{ size_t ol = 0; (comp ? c.compress : c.decompress)(ip, in.size(), op, &ol); size_t o2 = 0; codecs[1].compress((const uint8_t *)ob.data(), ob.size() * 8, op, &o2); }
	int fd0 = countFds();
	for (size_t k : caps) {
		long before = __atomic_load_n(&liveAllocs, __ATOMIC_RELAXED);
		unsigned long t0 = totalAllocs;
		int ret;
		size_t ol = k, il = in.size(); int rr = 0;
		if (what < 2) ret = (comp ? c.compress : c.decompress)(ip, il, op, &ol);
		else { (comp ? c.compress_chunked : c.decompress_chunked)(1, &rr, ip, il, &il, op, k, &ol); ret = rr; }
		long after = __atomic_load_n(&liveAllocs, __ATOMIC_RELAXED);
		stat("calls"); stat("allocations.observed", totalAllocs - t0);
		stat(ret == 0 ? "calls.success" : ret == -ENOSPC ? "calls.enospc" : "calls.otherfailure");
		if (after != before) {
			char key[160]; snprintf(key, sizeof key, "%s leaks memory (%s)", nm(c, comp), ret == 0 ? "success" : ret == -ENOSPC ? "no space" : "failure");
			fail(key, "ret=%d ilen=%zu cap=%zu allocations not released=%ld", ret, in.size(), k, after - before);
			break;
		}
	}
	if (countFds() != fd0) fail("a call leaks a file descriptor", "ilen=%zu", in.size());
	if (in.size()) distinct(mix(fnv(in.data(), in.size()), (uint64_t)(ci * 4 + what)));
	sample("%s ilen=%zu capacities=%zu", nm(c, comp), in.size(), caps.size());
	(void)idx;
}
#else
static void c12(uint64_t, Rng &) {}
#endif

// ---------------------------------------------------------------- C13
// "only a small fraction": over 16 x 32 KiB of one kind of data, the lossy hash tables of optsw842 (which remember
// one candidate per hash value) cost 0-4.6% over the exact greedy encoding (periodic data, with few distinct values, up to 9.7%).
static void c13_ratio(Rng &r)
{
	int kind = (int)r.below(NUM_INPUT_KINDS);
	uint64_t gsum = 0, osum = 0;
	for (int i = 0; i < 16; i++) {
		Bytes in; genInto(r, in, 32768, kind);
		Res z = compress(codecs[1], in, ref::bound(in.size()), Place());
		if (z.ret != 0) { stat("compress.failed"); return; }
		ref::Decoded d = ref::decode(z.out.data(), z.out.size());
		osum += d.st == ref::OK ? d.endBit : z.olen * 8; gsum += ref::greedyCost(in.data(), in.size()).bits;
	}
	uint64_t rel = osum * 1000 / gsum;
	char n[60]; snprintf(n, sizeof n, "optratio.%s.permille_sum", inputKinds[kind]); stat(n, rel);
	snprintf(n, sizeof n, "optratio.%s.n", inputKinds[kind]); stat(n);
	distinct(mix(osum, gsum));
	if (getenv("VERIF_RATIO")) fprintf(stderr, "RATIO %s %llu\n", inputKinds[kind], (unsigned long long)rel);
	if (rel > (kind == 6 ? 1200u : 1060u)) fail("optsw842_compress is far less effective than the greedy encoding", "16 x 32 KiB of kind %s: bits=%llu greedy=%llu", inputKinds[kind], (unsigned long long)osum, (unsigned long long)gsum);
}
// Each template is used where it is the cheapest: groups made for one template (its references point to recent data, which
// occurs nowhere else, the rest is random) among random ones. The exact compressor never misses one; the lossy one
// only when entries of its hash tables collide.
static void c13_templates(Rng &r)
{
	Bytes in; std::vector<int> want; size_t n = r.range(600, 2500);
	for (size_t i = 0; i < n; i++) {
		int op = i < 24 || r.chance(50) ? -1 : 1 + (int)r.below(25);
		want.push_back(op);
		if (op < 0) { uint64_t v = r.next(); for (int k = 0; k < 8; k++) in.push_back((uint8_t)(v >> 8 * k)); continue; }
		ref::Template T = ref::makeTemplate(op); size_t total = in.size();
		for (int k = 0; k < T.n; k++) {
			unsigned z = T.s[k].size;
			size_t from = total - z * r.range(1, 160 / z);
			for (unsigned b = 0; b < z; b++) in.push_back(T.s[k].kind == 'I' ? in[from + b] : (uint8_t)r.next());
		}
	}
	for (int ci = 0; ci < 2; ci++) {
		Res z = compress(codecs[ci], in, ref::bound(in.size()), Place());
		if (z.ret != 0) { stat("compress.failed"); return; }
		std::vector<ref::Tok> tk; ref::Decoded d = ref::decode(z.out.data(), z.out.size(), &tk);
		if (d.st != ref::OK || d.out != in) { stat("base.notwellformed"); return; }
		unsigned hit[26] = { 0 }, tot[26] = { 0 }; size_t g = 0;
		for (auto &t : tk) {
			if (t.op == ref::OP_REPEAT) { g += t.arg[0] + 1; continue; }
			if (t.op == ref::OP_ZEROS) { g++; continue; }
			if (t.op > 0x19) continue;
			int w = g < want.size() ? want[g] : -1; g++;
			if (w < 0) continue;
			auto bits = [](int op) { ref::Template T = ref::makeTemplate(op); unsigned b = 0; for (int k = 0; k < T.n; k++) b += ref::slotBits(T.s[k]); return b; };
			tot[w]++; if (bits(t.op) <= bits(w)) hit[w]++;
		}
		char key[160];
		for (int w = 1; w < 26; w++) if (tot[w] >= 12) {
			stat(ci ? "template.groups.optsw" : "template.groups.sw", tot[w]); stat(ci ? "template.hits.optsw" : "template.hits.sw", hit[w]);
			if (ci ? hit[w] * 100 < tot[w] * 30 : hit[w] < tot[w]) { snprintf(key, sizeof key, "%s does not use a template where it is the cheapest", nm(codecs[ci], true)); fail(key, "template %02x: %u of %u groups made for it cost at most as much", w, hit[w], tot[w]); }
		}
		distinct(mix(d.opsig, (uint64_t)ci));
	}
}
static void c13(uint64_t idx, Rng &r)
{
	int kind; Bytes in;
	if (idx % 16 == 0) { c13_ratio(r); return; }
	if (idx % 16 == 5) { c13_templates(r); return; }
	in = makeInput(r, idx, r.chance(70), &kind);
	inputStats(in, kind);
	ref::GreedyCost g = ref::greedyCost(in.data(), in.size());
	uint64_t want = ref::bitsToSize(g.bits), worst = ref::bitsToSize(g.worst);
	for (int ci = 0; ci < 2; ci++) {
		const Codec &c = codecs[ci];
		if (c.opt && in.size() % 8) continue;
		Place pl; Res z = compress(c, in, ref::bound(in.size()), pl);
		if (z.ret != 0) { stat("compress.failed"); continue; }
		ref::Decoded d = ref::decode(z.out.data(), z.out.size());
		uint64_t bits = d.st == ref::OK ? d.endBit : z.olen * 8;
		stat(c.opt ? "bits.optsw" : "bits.sw", bits);
		stat(c.opt ? "bits.greedy.mult8" : "bits.greedy", g.bits);
		char key[200];
		if (!c.opt && (z.olen > want || bits > g.bits)) { snprintf(key, sizeof key, "sw842_compress output exceeds the greedy encoding"); fail(key, "len=%zu bits=%llu greedy=%llu kind=%s head=%s", in.size(), (unsigned long long)bits, (unsigned long long)g.bits, inputKinds[kind], Hex(in).s); }
		if (c.opt && (z.olen > worst || bits > g.worst)) { snprintf(key, sizeof key, "optsw842_compress does not collapse runs or expands a group"); fail(key, "len=%zu bits=%llu bound=%llu kind=%s", in.size(), (unsigned long long)bits, (unsigned long long)g.worst, inputKinds[kind]); }
	}
	if (g.groups > 2) distinct(mix(g.bits, fnv(in.data(), in.size())));
	sample("len=%zu kind=%s greedy bits=%llu worst=%llu", in.size(), inputKinds[kind], (unsigned long long)g.bits, (unsigned long long)g.worst);
}

static void setup()
{
	codecs[0] = { "sw842", false, sw842_compress, sw842_decompress, sw842_compress_chunked, sw842_decompress_chunked };
	codecs[1] = { "optsw842", true, optsw842_compress, optsw842_decompress, optsw842_compress_chunked, optsw842_decompress_chunked };
	if (is("C11")) c11zygote();
	for (int i = 0; i < 2 && !is("C11"); i++) {
		const lib842_implementation *im = impl(i);
		// the table entry is an equivalent way in: use it for every other worker process
		if (G.start % 2) { codecs[i].compress = im->compress; codecs[i].decompress = im->decompress; }
	}
}
static void runCase(uint64_t idx, Rng &r)
{
	if (is("C01")) c01(idx, r); else if (is("C02")) c02(idx, r); else if (is("C03")) c03(idx, r);
	else if (is("C04")) c04(idx, r); else if (is("C05")) c05(idx, r); else if (is("C06")) c06(idx, r);
	else if (is("C07")) c07(idx, r); else if (is("C08")) c08(idx, r); else if (is("C09")) c09(idx, r);
	else if (is("C10")) c10(idx, r); else if (is("C11")) c11(idx, r); else if (is("C12")) c12(idx, r);
	else if (is("C13")) c13(idx, r); else _exit(99);
}
static void finish() {}
