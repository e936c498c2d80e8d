// Monitor for the software codecs when memory runs out (property C14). The allocation functions are wrapped at
// link time: while a call is watched, each allocation is counted and recorded, and chosen ones are refused.
#include "main.h"
#include <lib842/sw.h>
#include <new>
#include <map>

struct Codec { const char *name; lib842_compress_func compress; lib842_decompress_func decompress; lib842_compress_chunked_func compress_chunked; lib842_decompress_chunked_func decompress_chunked; };
static Codec codecs[2];

static bool armed = false;
static unsigned long nth = 0, failFrom = 0, failTo = 0, refused = 0; // 1-based: allocations failFrom..failTo are refused
static std::vector<size_t> *sizes = nullptr;                        // of the allocations seen, when wanted
static const size_t SLOTS = 1 << 17;
static void *live[SLOTS]; static size_t liveCount = 0; static bool full = false;
static void *const GONE = (void *)1;
static size_t slot(void *p) { return (size_t)(((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 40) % SLOTS; }
static void add(void *p)
{
	if (liveCount > SLOTS / 2) { full = true; return; }
	size_t i = slot(p); while (live[i] && live[i] != GONE) i = (i + 1) % SLOTS;
	live[i] = p; liveCount++;
}
static void del(void *p)
{
	for (size_t i = slot(p), n = 0; live[i] && n < SLOTS; i = (i + 1) % SLOTS, n++) if (live[i] == p) { live[i] = GONE; liveCount--; return; }
}
static bool refuse(size_t n)
{
	nth++;
	if (sizes) { armed = false; sizes->push_back(n); armed = true; }
	if (nth < failFrom || nth > failTo) return false;
	refused++; errno = ENOMEM; return true;
}
#define ALLOC(n, expr) if (!armed) return expr; if (refuse(n)) return nullptr; void *p = expr; if (p) add(p); return p
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__real_aligned_alloc(size_t, size_t); int __real_posix_memalign(void **, size_t, size_t); void *__real_memalign(size_t, size_t);
void *__real__Znwm(size_t); void *__real__Znam(size_t); void __real__ZdlPv(void *); void __real__ZdaPv(void *); void __real__ZdlPvm(void *, size_t); void __real__ZdaPvm(void *, size_t);
void *__real__ZnwmRKSt9nothrow_t(size_t, const std::nothrow_t &); void *__real__ZnamRKSt9nothrow_t(size_t, const std::nothrow_t &);
void *__wrap_malloc(size_t n) { ALLOC(n, __real_malloc(n)); }
void *__wrap_calloc(size_t a, size_t n) { ALLOC(a * n, __real_calloc(a, n)); }
void *__wrap_aligned_alloc(size_t a, size_t n) { ALLOC(n, __real_aligned_alloc(a, n)); }
void *__wrap_memalign(size_t a, size_t n) { ALLOC(n, __real_memalign(a, n)); }
int __wrap_posix_memalign(void **o, size_t a, size_t n) { if (armed && refuse(n)) return ENOMEM; int r = __real_posix_memalign(o, a, n); if (armed && !r) add(*o); return r; }
void *__wrap_realloc(void *q, size_t n) { if (armed && refuse(n)) return nullptr; if (armed && q) del(q); void *p = __real_realloc(q, n); if (armed && p) add(p); return p; }
void __wrap_free(void *p) { if (p && liveCount) del(p); __real_free(p); }
void *__wrap__Znwm(size_t n) { if (armed && refuse(n)) throw std::bad_alloc(); void *p = __real__Znwm(n); if (armed) add(p); return p; }
void *__wrap__Znam(size_t n) { if (armed && refuse(n)) throw std::bad_alloc(); void *p = __real__Znam(n); if (armed) add(p); return p; }
void *__wrap__ZnwmRKSt9nothrow_t(size_t n, const std::nothrow_t &t) { ALLOC(n, __real__ZnwmRKSt9nothrow_t(n, t)); }
void *__wrap__ZnamRKSt9nothrow_t(size_t n, const std::nothrow_t &t) { ALLOC(n, __real__ZnamRKSt9nothrow_t(n, t)); }
void __wrap__ZdlPv(void *p) { if (p && liveCount) del(p); __real__ZdlPv(p); }
void __wrap__ZdaPv(void *p) { if (p && liveCount) del(p); __real__ZdaPv(p); }
void __wrap__ZdlPvm(void *p, size_t n) { if (p && liveCount) del(p); __real__ZdlPvm(p, n); }
void __wrap__ZdaPvm(void *p, size_t n) { if (p && liveCount) del(p); __real__ZdaPvm(p, n); }
}

struct Out { int ret = 0; bool escaped = false; std::vector<int> rets; std::vector<size_t> olens; std::vector<Bytes> out; unsigned long seen = 0, refused = 0; size_t leaked = 0; };
struct Job {
	const Codec *c; bool comp, chunked; unsigned ialign, oalign; size_t n; std::vector<Bytes> in; std::vector<size_t> cap; size_t istride = 0, ostride = 0;
};
static char what[80];

static Out run(const Job &j, unsigned long from, unsigned long to, std::vector<size_t> *record)
{
	Out o; size_t isz = j.istride * (j.n - 1) + j.in[j.n - 1].size(), osz = j.ostride * (j.n - 1) + j.cap[j.n - 1];
	GuardBuf ib(isz, j.ialign, true), ob(osz, j.oalign, true);
	memset(ib.p, 0x11, isz); if (osz) memset(ob.p, 0xCC, osz);
	std::vector<size_t> ilens(j.n);
	o.olens = j.cap; o.rets.assign(j.n, 77);
	for (size_t i = 0; i < j.n; i++) { ilens[i] = j.in[i].size(); if (ilens[i]) memcpy(ib.p + i * j.istride, j.in[i].data(), ilens[i]); }
	Bytes before(ib.p, ib.p + isz);
	memset(live, 0, sizeof live); liveCount = 0; full = false; nth = refused = 0; failFrom = from; failTo = to; sizes = record;
	const size_t *il = ilens.data(); size_t *ol = o.olens.data(); int *rt = o.rets.data(); int ret = 0; bool esc = false;
	armed = true;
	try {
		if (j.chunked) ret = (j.comp ? j.c->compress_chunked : j.c->decompress_chunked)(j.n, rt, ib.p, j.istride, il, ob.p, j.ostride, ol);
		else ret = rt[0] = (j.comp ? j.c->compress : j.c->decompress)(ib.p, il[0], ob.p, ol);
	} catch (...) { esc = true; }
	armed = false;
	sizes = nullptr; o.ret = ret; o.escaped = esc; o.seen = nth; o.refused = refused; o.leaked = full ? 0 : liveCount;
	if (!ob.ok() || !ib.ok()) { char k[140]; snprintf(k, sizeof k, "%s: memory outside the buffers modified", what); fail(k, "allocations %lu..%lu refused", from, to); }
	if (Bytes(ib.p, ib.p + isz) != before) { char k[140]; snprintf(k, sizeof k, "%s: input modified", what); fail(k, "allocations %lu..%lu refused", from, to); }
	for (size_t i = 0; i < j.n; i++) {
		o.out.emplace_back(); uint8_t *p = ob.p + i * j.ostride;
		if (o.rets[i] == 0 && o.olens[i] <= j.cap[i]) o.out.back().assign(p, p + o.olens[i]);
		for (size_t k = j.cap[i]; i + 1 < j.n && k < j.ostride; k++) if (p[k] != 0xCC) { char ky[140]; snprintf(ky, sizeof ky, "%s: bytes between the chunks modified", what); fail(ky, "chunk %zu", i); break; }
	}
	return o;
}
static void setup()
{
	codecs[0] = { "sw842", sw842_compress, sw842_decompress, sw842_compress_chunked, sw842_decompress_chunked };
	codecs[1] = { "optsw842", optsw842_compress, optsw842_decompress, optsw842_compress_chunked, optsw842_decompress_chunked };
	// everything that is set up only once (stdio, exceptions) is
	uint64_t in[16] = { 1, 2, 3 }, out[40]; size_t ol = 0;
	for (auto &c : codecs) { ol = 0; c.compress((uint8_t *)in, 128, (uint8_t *)out, &ol); ol = sizeof out; c.compress((uint8_t *)in, 128, (uint8_t *)out, &ol); size_t o2 = 128; c.decompress((uint8_t *)out, ol, (uint8_t *)in, &o2); }
}
#define BAD(fmt, ...) do { char k_[200]; snprintf(k_, sizeof k_, "%s: %s", what, fmt); fail(k_, __VA_ARGS__); return; } while (0)
static void runCase(uint64_t idx, Rng &r)
{
	Job j; int kind = 0; (void)idx;
	int ci = r.chance(65) ? 0 : 1; j.c = &codecs[ci];
	j.comp = r.chance(88); j.chunked = r.chance(30);
	j.ialign = j.oalign = 0;
	if (r.chance(12)) { j.ialign = (unsigned)r.below(8); j.oalign = (unsigned)r.below(8); }
	j.n = j.chunked ? (size_t)r.range(1, 4) : 1;
	size_t mi = 0, mo = 0;
	for (size_t i = 0; i < j.n; i++) {
		Bytes b; size_t cap;
		if (j.comp) {
			b = genInput(r, r.chance(25) ? 12 : r.chance(70) ? 400 : 6000, ci == 1 && r.chance(95), &kind);
			if (r.chance(15)) { b.resize(r.range(200, 900) * 8); for (auto &x : b) x = (uint8_t)r.next(); } // all different: the tables grow
			cap = r.chance(80) ? ref::bound(b.size()) : r.below(ref::bound(b.size()) + 1);
		} else { GenStream g = genStream(r, 60, ci == 0, 4000); b = g.bytes; cap = r.chance(80) ? g.out.size() : r.below(g.out.size() + 1); if (r.chance(20) && b.size()) b[r.below(b.size())] ^= 4; }
		mi = std::max(mi, b.size()); mo = std::max(mo, cap);
		j.in.push_back(b); j.cap.push_back(cap);
	}
	j.istride = (mi + 7) / 8 * 8 + r.below(3) * 8; j.ostride = (mo + 7) / 8 * 8 + r.below(3) * 8;
	snprintf(what, sizeof what, "%s_%s%s", j.c->name, j.comp ? "compress" : "decompress", j.chunked ? "_chunked" : "");
	std::vector<size_t> sz; sz.reserve(1 << 16);
	Out good = run(j, 0, 0, &sz);
	stat("calls"); stat("allocations.seen", good.seen);
	if (good.leaked) { stat("leaks.without.failure"); return; } // C12's business
	if (good.escaped) { stat("exceptions.without.failure"); return; }
	if (!good.seen) { stat("calls.without.allocation"); return; }
	// which allocations to refuse: all of them if few, else the first, last, first of each size, and some others
	std::vector<unsigned long> ks;
	if (good.seen <= 40) for (unsigned long k = 1; k <= good.seen; k++) ks.push_back(k);
	else {
		for (unsigned long k = 1; k <= 14; k++) ks.push_back(k);
		ks.push_back(good.seen);
		std::map<size_t, unsigned> seen;
		for (size_t i = 0; i < sz.size() && i < good.seen; i++) if (seen[sz[i]]++ < 3 && i >= 14) ks.push_back(i + 1);
		for (int i = 0; i < 12; i++) ks.push_back((unsigned long)r.range(1, good.seen));
	}
	for (unsigned long k : ks) {
		bool rest = r.chance(30); // from then on everything is refused
		Out o = run(j, k, rest ? ~0ul : k, nullptr);
		if (!o.refused) { stat("not.reached"); continue; }
		stat("failures.injected", o.refused); stat(rest ? "runs.all.refused.from" : "runs.one.refused");
		if (o.escaped) BAD("an exception escapes when memory runs out", "allocation %lu of %lu", k, good.seen);
		if (o.leaked) BAD("memory is not released after an allocation failed", "%zu allocations remain; allocation %lu of %lu (%s) refused, returns %d", o.leaked, k, good.seen, rest ? "and all later" : "only", o.ret);
		int first = 0;
		for (size_t i = 0; i < j.n; i++) {
			if (o.rets[i] == 0) {
				if (good.rets[i] != 0 || o.olens[i] != good.olens[i] || o.out[i] != good.out[i]) BAD("an allocation failure changes a result that is reported as success", "chunk %zu of %zu length %zu, normally %d, %zu", i, j.n, o.olens[i], good.rets[i], good.olens[i]);
				stat("results.unaffected");
			} else {
				if (o.rets[i] > 0) BAD("no error code when memory runs out", "returns %d", o.rets[i]);
				if (o.olens[i] != 0) BAD("an output length is left when memory runs out", "returns %d, length %zu", o.rets[i], o.olens[i]);
				if (o.rets[i] == -ENOSPC && good.rets[i] != -ENOSPC) BAD("running out of memory is reported as a lack of output space", "chunk %zu, normally %d", i, good.rets[i]);
				if (o.rets[i] != good.rets[i]) stat("results.failed");
			}
			if (!first && o.rets[i] != 0 && o.rets[i] != -ENOSPC) first = o.rets[i];
		}
		if (j.chunked && o.ret != first) BAD("wrong result of the whole when memory runs out", "returns %d, the chunks %d", o.ret, first);
		if (!rest && j.n > 1) { // one failed allocation fails at most one chunk
			size_t bad = 0; for (size_t i = 0; i < j.n; i++) bad += o.rets[i] != good.rets[i];
			if (bad > 1) BAD("one failed allocation fails several chunks", "%zu of %zu", bad, j.n);
		}
		if (r.chance(25)) {
			Out again = run(j, 0, 0, nullptr);
			if (again.escaped || again.ret != good.ret || again.rets != good.rets || again.olens != good.olens || again.out != good.out) BAD("a call after one that ran out of memory differs", "returns %d, before %d", again.ret, good.ret);
			stat("calls.after");
		}
	}
	uint64_t h = (uint64_t)(ci * 4 + j.comp * 2 + j.chunked); for (auto &b : j.in) h = mix(h, fnv(b.data(), b.size()));
	distinct(h);
	sample("%s n=%zu ilen=%zu allocations=%lu refused one at a time=%zu", what, j.n, j.in[0].size(), good.seen, ks.size());
}
static void finish() {}
