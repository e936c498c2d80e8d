// Common harness code: deterministic RNG, reporting, guarded buffers, workload generators.
// Kept free of iostream/std::string/std::thread so that it is usable under MemorySanitizer too.
#ifndef VERIF_H_H
#define VERIF_H_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <pthread.h>
#include <sys/mman.h>
#include <algorithm>
#include <vector>
#include "ref842.h"

#if defined(__SANITIZE_ADDRESS__)
#define H_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define H_ASAN 1
#endif
#if __has_feature(memory_sanitizer)
#define H_MSAN 1
#endif
#if __has_feature(thread_sanitizer)
#define H_TSAN 1
#endif
#endif
#ifdef H_ASAN
#include <sanitizer/asan_interface.h>
#endif
#ifdef H_MSAN
#include <sanitizer/msan_interface.h>
#endif

typedef ref::Bytes Bytes;

// ---------------------------------------------------------------- RNG
struct Rng {
	uint64_t s[4];
	static uint64_t sm(uint64_t &x) {
		uint64_t z = (x += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	explicit Rng(uint64_t a, uint64_t b = 0, uint64_t c = 0) {
		uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x1234567) * 0xD1342543DE82EF95ull ^ (c + 77) * 0xA24BAED4963EE407ull;
		for (int i = 0; i < 4; i++) s[i] = sm(x);
	}
	static uint64_t rotl(uint64_t x, int k) { return x << k | x >> (64 - k); }
	uint64_t next() {
		uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
		s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
		return r;
	}
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
	bool chance(unsigned pct) { return below(100) < pct; }
};

// ---------------------------------------------------------------- reporting
static inline uint64_t fnv(const void *d, size_t n, uint64_t h = 14695981039346656037ull)
{
	const uint8_t *p = (const uint8_t *)d;
	for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 1099511628211ull;
	return h ^ (h >> 29);
}
static inline uint64_t mix(uint64_t a, uint64_t b) { uint64_t x = a * 0x9E3779B97F4A7C15ull + b; return Rng::sm(x); }

struct Env {
	const char *prop = "?";
	uint64_t seed = 1, start = 0, end = 0;
	bool thorough = false, replay = false;
	const char *variant = "?";
	int outfd = -1;          // result lines
	volatile uint64_t *cur = nullptr; // shared: current case index
	uint64_t index = 0;
	unsigned nfail = 0;
	// statistics
	std::vector<std::pair<const char *, uint64_t>> stats;
	std::vector<uint64_t> distinct;  // hashes of distinct non-trivial cases
	unsigned samples = 0;
	pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
};
extern Env G;

static inline void outLine(const char *s, size_t n)
{
	while (n > 0) {
		ssize_t w = write(G.outfd, s, n);
		if (w <= 0) _exit(97);
		s += w; n -= (size_t)w;
	}
}
static inline void jsonEscape(char *dst, size_t cap, const char *src)
{
	size_t j = 0;
	for (; *src && j + 8 < cap; src++) {
		unsigned char c = (unsigned char)*src;
		if (c == '"' || c == '\\') { dst[j++] = '\\'; dst[j++] = (char)c; }
		else if (c < 0x20 || c > 0x7e) { j += (size_t)snprintf(dst + j, 8, "\\u%04x", c); }
		else dst[j++] = (char)c;
	}
	dst[j] = 0;
}
static inline void stat(const char *name, uint64_t n = 1)
{
	pthread_mutex_lock(&G.mu);
	for (auto &s : G.stats)
		if (s.first == name || strcmp(s.first, name) == 0) { s.second += n; pthread_mutex_unlock(&G.mu); return; }
	G.stats.push_back(std::make_pair((const char *)strdup(name), n));
	pthread_mutex_unlock(&G.mu);
}
static inline void distinct(uint64_t h)
{
	pthread_mutex_lock(&G.mu);
	G.distinct.push_back(h);
	pthread_mutex_unlock(&G.mu);
}
// A violation of the property, identified by `key` (stable across runs), with free-form detail
__attribute__((format(printf, 2, 3)))
static inline void fail(const char *key, const char *fmt, ...)
{
	char d[1400], e[3000], k[600], line[4096];
	va_list ap; va_start(ap, fmt); vsnprintf(d, sizeof d, fmt, ap); va_end(ap);
	jsonEscape(e, sizeof e, d); jsonEscape(k, sizeof k, key);
	pthread_mutex_lock(&G.mu);
	G.nfail++;
	unsigned nf = G.nfail;
	pthread_mutex_unlock(&G.mu);
	if (nf > 200) return;
	int n = snprintf(line, sizeof line, "{\"t\":\"fail\",\"index\":%llu,\"key\":\"%s\",\"detail\":\"%s\"}\n",
			 (unsigned long long)G.index, k, e);
	outLine(line, (size_t)n);
}
// something that prevents a verdict (harness trouble), never a violation
__attribute__((format(printf, 1, 2)))
static inline void inconclusive(const char *fmt, ...)
{
	char d[1400], e[3000], line[4096];
	va_list ap; va_start(ap, fmt); vsnprintf(d, sizeof d, fmt, ap); va_end(ap);
	jsonEscape(e, sizeof e, d);
	int n = snprintf(line, sizeof line, "{\"t\":\"inconclusive\",\"index\":%llu,\"detail\":\"%s\"}\n", (unsigned long long)G.index, e);
	outLine(line, (size_t)n);
}
__attribute__((format(printf, 1, 2)))
static inline void sample(const char *fmt, ...)
{
	if (G.samples >= 2) return;
	G.samples++;
	char d[700], e[1500], line[2048];
	va_list ap; va_start(ap, fmt); vsnprintf(d, sizeof d, fmt, ap); va_end(ap);
	jsonEscape(e, sizeof e, d);
	int n = snprintf(line, sizeof line, "{\"t\":\"sample\",\"index\":%llu,\"detail\":\"%s\"}\n", (unsigned long long)G.index, e);
	outLine(line, (size_t)n);
}
struct Hex { char s[200]; explicit Hex(const uint8_t *p, size_t n) {
	size_t j = 0; for (size_t i = 0; i < n && j + 6 < sizeof s; i++) j += (size_t)snprintf(s + j, 3, "%02x", p[i]);
	if (n * 2 + 6 > sizeof s) snprintf(s + j, 4, "..."); else s[j] = 0; }
	explicit Hex(const Bytes &b) : Hex(b.data(), b.size()) {} };

// ---------------------------------------------------------------- guarded buffers
// A buffer of exactly `size` bytes at an address with (addr % 8 == align), placed either so that it ends
// as close as possible to an inaccessible page (endFlush) or begins right after one. Accesses past the page are
// caught by the MMU; the slack on both sides holds canaries, checked by ok(). Under ASan the slack is
// poisoned too, so that stray reads are caught byte for byte.
struct GuardBuf {
	uint8_t *map = nullptr, *p = nullptr, *lo = nullptr, *hi = nullptr;
	size_t size = 0, maplen = 0, body = 0;
	uint8_t canary = 0xA5;
	static size_t page() { static size_t ps = (size_t)sysconf(_SC_PAGESIZE); return ps; }
	GuardBuf() {}
	GuardBuf(size_t sz, unsigned align, bool endFlush) { init(sz, align, endFlush); }
	GuardBuf(const GuardBuf &) = delete;
	GuardBuf &operator=(const GuardBuf &) = delete;
	void init(size_t sz, unsigned align, bool endFlush) {
		release();
		size_t ps = page();
		size = sz;
		body = (sz + 16 + ps - 1) / ps * ps;
		maplen = body + 2 * ps;
		map = cacheTake(maplen);
		if (!map) {
			map = (uint8_t *)mmap(nullptr, maplen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (map == MAP_FAILED) _exit(98);
			if (mprotect(map + ps, body, PROT_READ | PROT_WRITE)) _exit(98);
		}
		lo = map + ps; hi = lo + body;
		if (endFlush) {
			p = hi - sz;
			while (((uintptr_t)p & 7) != align) p--;
		} else {
			p = lo;
			while (((uintptr_t)p & 7) != align) p++;
		}
		size_t before = std::min<size_t>((size_t)(p - lo), 64), after = std::min<size_t>((size_t)(hi - (p + size)), 64);
		memset(p - before, canary, before);
		memset(p + size, canary, after);
#ifdef H_ASAN
		__asan_poison_memory_region(lo, (size_t)(p - lo) / 8 * 8);
		if (hi > p + size) __asan_poison_memory_region(p + size, (size_t)(hi - (p + size)));
#endif
#ifdef H_MSAN
		if (p > lo) __msan_poison(lo, (size_t)(p - lo));
		if (hi > p + size) __msan_poison(p + size, (size_t)(hi - (p + size)));
#endif
	}
	bool ok() {
#ifdef H_ASAN
		__asan_unpoison_memory_region(lo, body);
#endif
#ifdef H_MSAN
		__msan_unpoison(lo, body);
#endif
		size_t before = std::min<size_t>((size_t)(p - lo), 64), after = std::min<size_t>((size_t)(hi - (p + size)), 64);
		for (size_t i = 0; i < before; i++) if (p[-1 - (ptrdiff_t)i] != canary) return false;
		for (size_t i = 0; i < after; i++) if (p[size + i] != canary) return false;
		return true;
	}
	void readonly() { mprotect(lo, body, PROT_READ); ro = true; }
	bool ro = false;
	void release() {
		if (!map) return;
#ifdef H_ASAN
		__asan_unpoison_memory_region(lo, body);
#endif
#ifdef H_MSAN
		__msan_unpoison(lo, body);
#endif
		if (ro) { mprotect(lo, body, PROT_READ | PROT_WRITE); ro = false; }
		cachePut(map, maplen);
		map = nullptr;
	}
	~GuardBuf() { release(); }
	// small cache of mappings (mprotect/mmap dominate otherwise)
	struct CacheEnt { uint8_t *m; size_t l; };
	static std::vector<CacheEnt> &cache() { static std::vector<CacheEnt> c; return c; }
	static pthread_mutex_t &cmu() { static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; return m; }
	static uint8_t *cacheTake(size_t l) {
		pthread_mutex_lock(&cmu());
		auto &c = cache();
		for (size_t i = 0; i < c.size(); i++)
			if (c[i].l == l) { uint8_t *m = c[i].m; c[i] = c.back(); c.pop_back(); pthread_mutex_unlock(&cmu()); return m; }
		pthread_mutex_unlock(&cmu());
		return nullptr;
	}
	static void cachePut(uint8_t *m, size_t l) {
		pthread_mutex_lock(&cmu());
		auto &c = cache();
		if (c.size() < 64 && l < (1u << 20)) { c.push_back({ m, l }); pthread_mutex_unlock(&cmu()); return; }
		pthread_mutex_unlock(&cmu());
		munmap(m, l);
	}
};

// ---------------------------------------------------------------- uncompressed-data generators
static const char *const inputKinds[] = {
	"zeros", "constant", "random", "smallalphabet", "dictionary", "text", "periodic", "ringdistance",
	"repeatruns", "templates", "sparse", "mixture", "counters", "halfrandom" };
enum { NUM_INPUT_KINDS = 14 };

static inline void put64(Bytes &b, uint64_t v) { for (int i = 7; i >= 0; i--) b.push_back((uint8_t)(v >> (8 * i))); }

static inline void genInto(Rng &r, Bytes &b, size_t n, int kind)
{
	size_t end = b.size() + n;
	switch (kind) {
	case 0: b.resize(end, 0); break;
	case 1: b.resize(end, (uint8_t)r.next()); break;
	case 2: while (b.size() < end) put64(b, r.next()); break;
	case 3: { unsigned a = (unsigned)r.range(1, 6); uint8_t base = (uint8_t)r.next();
		while (b.size() < end) b.push_back((uint8_t)(base + r.below(a))); break; }
	case 4: { // dictionary of 2/4/8 byte words, aligned
		std::vector<uint64_t> d; size_t k = r.range(2, 400);
		unsigned w = 2u << r.below(3);
		for (size_t i = 0; i < k; i++) d.push_back(r.next());
		while (b.size() < end) { uint64_t v = d[r.below(k)]; for (unsigned i = 0; i < w; i++) b.push_back((uint8_t)(v >> (8 * i))); }
		break; }
	case 5: { static const char *const w[] = { "the ", "of", "compress", "842", "data, ", "block\n", "0000", "return ", "if (", "static ", "int ", "{\n\t", "}\n", "ring", "index ", "" };
		while (b.size() < end) { const char *s = w[r.below(16)]; if (!*s) b.push_back((uint8_t)r.range(32, 126)); while (*s) b.push_back((uint8_t)*s++); }
		break; }
	case 6: { size_t per = r.chance(50) ? r.range(1, 40) : r.range(1, 5000); Bytes t; while (t.size() < per) t.push_back((uint8_t)r.next());
		for (size_t i = 0; b.size() < end; i++) b.push_back(t[i % per]); break; }
	case 7: { // copies from ring-boundary distances
		static const int dist[] = { 8, 16, 504, 512, 520, 528, 1024, 2040, 2048, 2056, 2064, 4096, 1536, 496, 2032 };
		size_t base = b.size(); (void)base;
		while (b.size() < end) {
			unsigned unit = 2u << r.below(3);
			size_t d = (size_t)dist[r.below(15)];
			if (r.chance(20)) d += 2 * (size_t)r.below(16);
			if (b.size() >= d + 8 && r.chance(75)) {
				size_t from = b.size() - d; // aligned units at that distance
				from -= from % 2;
				for (unsigned i = 0; i < unit; i++) b.push_back(b[from + i]);
			} else { uint64_t v = r.next(); for (unsigned i = 0; i < unit; i++) b.push_back((uint8_t)(v >> (8 * i))); }
		}
		break; }
	case 8: { static const int runs[] = { 1, 2, 3, 62, 63, 64, 65, 66, 127, 128, 129, 130, 192, 193, 256 };
		while (b.size() < end) { uint64_t v = r.chance(30) ? 0 : r.next(); int n2 = runs[r.below(15)]; while (n2-- && b.size() < end) put64(b, v); }
		break; }
	case 9: { // aim each 8-byte group at one template: D slots fresh, I slots from history
		while (b.size() % 8 && b.size() < end) b.push_back((uint8_t)r.next());
		while (b.size() < end) {
			int op = (int)r.below(26);
			ref::Template T = ref::makeTemplate(op);
			size_t total = b.size();
			for (int i = 0; i < T.n; i++) {
				unsigned sz = T.s[i].size;
				size_t ring = (size_t)ref::ringSize(sz);
				if (T.s[i].kind == 'D' || total < 8) { uint64_t v = r.next(); for (unsigned k = 0; k < sz; k++) b.push_back((uint8_t)(v >> (8 * k))); }
				else {
					size_t span = std::min(total, ring), slots = span / sz, k;
					switch (r.below(4)) {
					case 0: k = 0; break;              // newest
					case 1: k = slots - 1; break;      // oldest still in the ring
					default: k = r.below(slots);
					}
					size_t from = total - (k + 1) * sz;
					for (unsigned q = 0; q < sz; q++) b.push_back(b[from + q]);
				}
			}
		}
		break; }
	case 10: { size_t s = b.size(); b.resize(end, 0); size_t k = n / (size_t)r.range(4, 200) + 1; for (size_t i = 0; i < k && n; i++) b[s + r.below(n)] = (uint8_t)r.next(); break; }
	case 11: while (b.size() < end) genInto(r, b, std::min<size_t>(end - b.size(), 8 * r.range(1, 80)), (int)r.below(11)); break;
	case 12: { uint64_t v = r.next() & 0xffff, st = r.range(1, 3); while (b.size() < end) { put64(b, v); v += st; } break; }
	case 13: { bool which = r.chance(50); uint32_t fix = (uint32_t)r.next();
		while (b.size() < end) { uint64_t x = r.next(); put64(b, which ? ((uint64_t)fix << 32 | (uint32_t)x) : (x << 32 | fix)); if (r.chance(10)) which = !which; } break; }
	}
	b.resize(end);
}

static inline size_t genLen(Rng &r, size_t maxlen, bool mult8)
{
	size_t n;
	switch (r.below(8)) {
	case 0: n = r.below(33); break;
	case 1: n = r.below(130); break;
	case 2: n = r.range(480, 560); break;
	case 3: n = r.range(2000, 2120); break;
	case 4: n = r.range(4000, 4200); break;
	default: n = r.below(r.below(maxlen) + 1); break;
	}
	if (n > maxlen) n = r.below(maxlen + 1);
	if (mult8) n &= ~(size_t)7;
	return n;
}
static inline Bytes genInput(Rng &r, size_t maxlen, bool mult8, int *kind = nullptr)
{
	int k = (int)r.below(NUM_INPUT_KINDS);
	size_t n = genLen(r, maxlen, mult8);
	Bytes b;
	b.reserve(n + 300);
	genInto(r, b, n, k);
	if (kind) *kind = k;
	return b;
}

// Sizes of real use and around powers of two, where narrow counters and offsets wrap.
static inline size_t largeLen(Rng &r, bool mult8, unsigned maxShift = 20)
{
	unsigned k = r.chance(50) ? 16 : (unsigned)r.range(15, maxShift);
	static const int d[] = { 0, 0, 8, -8, 16, -16, 1, -1, 3, 512, 2048, -2048 };
	size_t n = r.chance(60) ? ((size_t)1 << k) + (size_t)(long)d[r.below(12)] : r.range(30000, (uint64_t)3 << (k - 1));
	if (mult8) n &= ~(size_t)7;
	return n;
}
static inline Bytes genLarge(Rng &r, bool mult8, int *kind = nullptr, unsigned maxShift = 20)
{
	int k = (int)r.below(NUM_INPUT_KINDS); size_t n = largeLen(r, mult8, maxShift); Bytes b;
	b.reserve(n + 300); genInto(r, b, n, k); b.resize(n);
	if (kind) *kind = k;
	return b;
}

// ---------------------------------------------------------------- well-formed stream generator
// Random token sequence with a running model of the output. Returns the whole stream (padded to 8).
struct GenStream { Bytes bytes, out; std::vector<ref::Tok> toks; uint64_t endBit; };

static inline void applyTok(Bytes &out, const ref::Tok &t)
{
	if (t.op == ref::OP_REPEAT) {
		for (uint64_t i = 0; i <= t.arg[0]; i++) { uint8_t l[8]; memcpy(l, out.data() + out.size() - 8, 8); out.insert(out.end(), l, l + 8); }
	} else if (t.op == ref::OP_ZEROS) out.insert(out.end(), 8, 0);
	else if (t.op == ref::OP_SHORT) out.insert(out.end(), t.sh, t.sh + t.arg[0]);
	else {
		ref::Template T = ref::makeTemplate(t.op);
		uint64_t total = out.size() / 8 * 8;
		for (int i = 0; i < T.n; i++) {
			if (T.s[i].kind == 'D') for (int k = T.s[i].size - 1; k >= 0; k--) out.push_back((uint8_t)(t.arg[i] >> (8 * k)));
			else { uint64_t abs = 0; ref::resolveIndex(t.arg[i], T.s[i].size, total, &abs); for (int k = 0; k < T.s[i].size; k++) { uint8_t v = out[abs + (unsigned)k]; out.push_back(v); } }
		}
	}
}
static inline uint64_t genIndex(Rng &r, unsigned size, uint64_t total)
{
	uint64_t ring = ref::ringSize(size), span = total < ring ? total : ring, slots = span / size;
	if (!slots) return 0;
	uint64_t from; // absolute offset
	switch (r.below(5)) {
	case 0: from = total - size; break;                   // newest
	case 1: from = total - span; break;                   // oldest
	case 2: from = total - span + size * r.below(slots < 5 ? slots : 5); break;
	default: from = total - span + size * r.below(slots); break;
	}
	return from % ring / size;
}
// maxOps: number of groups; allowShort: may end with a short-data template
static inline GenStream genStream(Rng &r, size_t maxOps, bool allowShort, size_t maxOut, size_t minOps = 0)
{
	GenStream g;
	ref::BitWriter w;
	size_t nops = minOps + r.below(maxOps - minOps + 1);
	int profile = (int)r.below(6); // 0 uniform, 1 index heavy, 2 one template mostly, 3 repeats, 4 literals first then far indexes, 5 zeros/repeats mixed
	int fav = (int)r.below(26);
	unsigned pOther = (unsigned)r.range(0, 60);
	for (size_t i = 0; i < nops && g.out.size() < maxOut; i++) {
		ref::Tok t; memset(&t, 0, sizeof t);
		int op;
		uint64_t total = g.out.size();
		switch (profile) {
		case 1: op = 1 + (int)r.below(25); break;
		case 2: op = r.chance(pOther) ? (int)r.below(26) : fav; break;
		case 3: op = r.chance(40) ? (int)ref::OP_REPEAT : (int)r.below(26); break;
		case 4: op = i < nops / 2 ? 0 : (int)(r.chance(50) ? 0x19 : r.chance(50) ? 0x18 : 0x12); break;
		case 5: op = r.chance(30) ? (int)ref::OP_REPEAT : r.chance(40) ? (int)ref::OP_ZEROS : (int)r.below(26); break;
		default: op = (int)r.below(28); if (op == 26) op = ref::OP_REPEAT; else if (op == 27) op = ref::OP_ZEROS; break;
		}
		if (total == 0 && (op == (int)ref::OP_REPEAT || (op < 26 && op != 0))) op = r.chance(70) ? 0 : (int)ref::OP_ZEROS;
		t.op = (uint8_t)op;
		if (op == (int)ref::OP_REPEAT) {
			t.arg[0] = r.chance(30) ? (r.chance(50) ? 63 : 0) : r.below(64);
			if (g.out.size() + 8 * (t.arg[0] + 1) > maxOut) t.arg[0] = 0;
		} else if (op < 26) {
			ref::Template T = ref::makeTemplate(op);
			for (int k = 0; k < T.n; k++) {
				if (T.s[k].kind == 'I') t.arg[k] = genIndex(r, T.s[k].size, total);
				else { uint64_t m = T.s[k].size == 8 ? ~0ull : (1ull << (8 * T.s[k].size)) - 1; t.arg[k] = r.chance(10) ? (r.chance(50) ? 0 : m) : r.next() & m; }
			}
		}
		ref::putTok(w, t);
		applyTok(g.out, t);
		g.toks.push_back(t);
	}
	if (allowShort && r.chance(60)) {
		ref::Tok t; memset(&t, 0, sizeof t);
		t.op = ref::OP_SHORT; t.arg[0] = r.range(1, 7);
		for (int i = 0; i < 7; i++) t.sh[i] = (uint8_t)r.next();
		ref::putTok(w, t); applyTok(g.out, t); g.toks.push_back(t);
	}
	w.put(ref::OP_END, 5);
	w.put(ref::crc32(g.out.data(), g.out.size()), 32);
	g.endBit = w.nbits;
	w.pad(8);
	g.bytes = w.b;
	return g;
}

static inline GenStream genLargeStream(Rng &r, bool allowShort, unsigned maxShift = 19) { return genStream(r, 200000, allowShort, largeLen(r, true, maxShift), 200000); }

// ---------------------------------------------------------------- hostile streams
static const char *const hostileKinds[] = { "random", "mutated", "truncated", "badop", "badindex", "badrepeat", "shortdata", "spliced", "opsoup", "bigrepeat", "nocrc" };
enum { NUM_HOSTILE = 11 };
static inline Bytes genHostile(Rng &r, size_t maxOps, int *kind)
{
	int k = (int)r.below(NUM_HOSTILE);
	if (kind) *kind = k;
	Bytes b;
	switch (k) {
	case 0: { size_t n = genLen(r, 600, r.chance(70)); while (b.size() < n) b.push_back((uint8_t)r.next()); break; }
	case 1: { GenStream g = genStream(r, maxOps, r.chance(30), 20000); b = g.bytes;
		size_t m = r.range(1, 6); for (size_t i = 0; i < m && !b.empty(); i++) { if (r.chance(50)) b[r.below(b.size())] ^= (uint8_t)(1 << r.below(8)); else b[r.below(b.size())] = (uint8_t)r.next(); } break; }
	case 2: { GenStream g = genStream(r, maxOps, r.chance(30), 20000); b = g.bytes; size_t c = r.below(b.size() + 1); if (r.chance(60)) c &= ~(size_t)7; b.resize(c); break; }
	case 7: { GenStream g = genStream(r, maxOps, false, 20000), h = genStream(r, maxOps, false, 20000); b = g.bytes; b.resize(r.below(b.size() + 1)); size_t o = r.below(h.bytes.size()); b.insert(b.end(), h.bytes.begin() + (ptrdiff_t)o, h.bytes.end()); break; }
	default: {
		// valid prefix, then one malformation at the token level, then a valid-looking suffix
		ref::BitWriter w; Bytes out;
		GenStream g = genStream(r, maxOps, false, 20000);
		size_t cut = r.below(g.toks.size() + 1);
		for (size_t i = 0; i < cut; i++) { ref::putTok(w, g.toks[i]); applyTok(out, g.toks[i]); }
		ref::Tok t; memset(&t, 0, sizeof t);
		if (k == 3) { static const uint8_t bad[] = { 0x1a, 0x1f, 0x1d, 0x1a, 0x1f }; t.op = bad[r.below(5)]; w.put(t.op, 5); w.put(r.next(), (unsigned)r.below(40)); }
		else if (k == 4) { // index argument beyond what has been output
			t.op = (uint8_t)r.range(1, 25); ref::Template T = ref::makeTemplate(t.op);
			for (int i = 0; i < T.n; i++) {
				unsigned bits = ref::slotBits(T.s[i]);
				uint64_t m = bits == 64 ? ~0ull : (1ull << bits) - 1;
				if (T.s[i].kind == 'I') { uint64_t tot = out.size(), first = tot / T.s[i].size; t.arg[i] = r.chance(50) ? first + r.below(3) : r.next(); t.arg[i] &= m; }
				else t.arg[i] = r.next() & m;
			}
			ref::putTok(w, t);
		} else if (k == 5) { w = ref::BitWriter(); cut = 0; t.op = ref::OP_REPEAT; t.arg[0] = r.below(64);
			if (r.chance(50)) { ref::Tok s; memset(&s, 0, sizeof s); s.op = ref::OP_SHORT; s.arg[0] = r.range(1, 7); for (int i = 0; i < 7; i++) s.sh[i] = (uint8_t)r.next(); ref::putTok(w, s); }
			ref::putTok(w, t); }
		else if (k == 6) { t.op = ref::OP_SHORT; t.arg[0] = r.below(8); for (int i = 0; i < 7; i++) t.sh[i] = (uint8_t)r.next(); ref::putTok(w, t); }
		else if (k == 8) { size_t n = r.range(1, 60); for (size_t i = 0; i < n; i++) { w.put(r.below(32), 5); unsigned nb = (unsigned)r.below(65); w.put(r.next(), nb); } }
		else if (k == 9) { size_t n = r.range(1, 30); w.put(0, 5); w.put(r.next(), 64); for (size_t i = 0; i < n; i++) { w.put(ref::OP_REPEAT, 5); w.put(63, 6); } }
		if (k != 10) { size_t more = r.below(4); for (size_t i = 0; i < more && cut + i < g.toks.size(); i++) ref::putTok(w, g.toks[cut + i]); }
		w.put(ref::OP_END, 5);
		if (k != 10) w.put(r.chance(50) ? 0 : r.next(), 32);
		else if (r.chance(50)) w.put(r.next(), (unsigned)r.below(32));
		if (r.chance(80)) w.pad(8);
		b = w.b;
		break; }
	}
	return b;
}
#endif
