// A01: the AIX backend against a stand-in accelerator, which judges every request when it arrives.
#include "main.h"
#include <lib842/aix.h>
#include <lib842/common.h>
#include <sys/vminfo.h>
#include <errno.h>
#include <string>
#include <thread>
#include <atomic>

struct Want { bool comp; const uint8_t *in; size_t ilen; uint8_t *out; size_t cap; int ret; size_t olen; };
struct Ctx { std::vector<Want> want; size_t next = 0; const char *bad = nullptr; char detail[200]; bool far = false, active = false; };
static thread_local Ctx *cx;
static std::atomic<int> stray{0};

static int device(bool comp, void *src, size_t ilen, void *dst, size_t *olen, int flags)
{
	Ctx *c = cx;
	if (!c || !c->active) { stray++; return EINVAL; }
	// requests of a call may come in any order
	size_t i = 0;
	while (i < c->want.size() && !(c->want[i].ret != INT32_MIN && c->want[i].in == src && c->want[i].out == dst)) i++;
	if (i == c->want.size()) { c->bad = "request that no chunk of the call asks for"; snprintf(c->detail, sizeof c->detail, "source %p destination %p", src, dst); return EINVAL; }
	Want &w = c->want[i];
	if (w.comp != comp) { c->bad = comp ? "compression instead of decompression" : "decompression instead of compression"; snprintf(c->detail, sizeof c->detail, "chunk %zu", i); }
	if (w.ilen != ilen) { c->bad = "source length changed on the way to the device"; snprintf(c->detail, sizeof c->detail, "chunk %zu: %zu instead of %zu", i, ilen, w.ilen); }
	if (!olen) { c->bad = "no output length passed"; return EINVAL; }
	if (w.cap != *olen) { c->bad = "output capacity changed on the way to the device"; snprintf(c->detail, sizeof c->detail, "chunk %zu: %zu instead of %zu", i, *olen, w.cap); }
	if (flags) { c->bad = "options passed to the device"; snprintf(c->detail, sizeof c->detail, "%x", flags); }
	int ret = w.ret;
	if (ret == 0 && !c->far) { size_t n = std::min<size_t>(w.olen, 64); for (size_t k = 0; k < n; k++) ((uint8_t *)dst)[k] = (uint8_t)(((uint8_t *)src)[k] ^ 0x5a); }
	*olen = w.olen;
	w.ret = INT32_MIN; // used up
	c->next++;
	return ret;
}
extern "C" int accel_compress(void *s, size_t n, void *d, size_t *o, int f) { return device(true, s, n, d, o, f); }
extern "C" int accel_decompress(void *s, size_t n, void *d, size_t *o, int f) { return device(false, s, n, d, o, f); }

static size_t len(Rng &r) { static const size_t l[] = {0, 1, 8, 64, 4096, 65536, 0x7fffffff, 0x80000000ull, 0xffffffff, 0x100000000ull, 0x100000008ull, SIZE_MAX - 1, 1ull << 62}; return r.chance(60) ? l[r.below(13)] : r.chance(50) ? r.next() >> r.below(60) : r.below(70000); }
static int err(Rng &r) { static const int e[] = {0, 0, 0, 0, 0, -ENOSPC, -ENOSPC, ENOSPC, -EIO, EIO, -EINVAL, EINVAL, -1, 1, -ENOMEM, INT32_MAX}; return e[r.below(16)]; }

static void one(Rng &r, std::string &bad, std::string &detail)
{
	bool comp = r.chance(50), table = r.chance(50), chunked = r.chance(70);
	const lib842_implementation *im = table ? get_aix842_implementation() : nullptr;
	auto f1 = comp ? (im ? im->compress : aix842_compress) : (im ? im->decompress : aix842_decompress);
	auto fn = comp ? (im ? im->compress_chunked : aix842_compress_chunked) : (im ? im->decompress_chunked : aix842_decompress_chunked);
	if (!f1 || !fn) { bad = "implementation table lacks a function"; return; }
	size_t n = chunked ? (r.chance(8) ? 0 : r.range(1, r.chance(10) ? 70 : 12)) : 1, is = r.range(64, 400), os = r.range(64, 400);
	// Far: strides of gigabytes. The addresses are made up, nothing may touch them
	bool far = chunked && r.chance(15);
	const uint8_t *ip = nullptr; uint8_t *op = nullptr; size_t fis = 0, fos = 0;
	if (far) { fis = r.range(1, 9) * (size_t)(r.chance(50) ? r.next() >> 34 : 1u << 30); fos = r.range(1, 9) * (size_t)(r.chance(50) ? r.next() >> 34 : 1u << 30); ip = (const uint8_t *)(uintptr_t)0x100000000000ull; op = (uint8_t *)(uintptr_t)0x300000000000ull; }
	Bytes in((n + 1) * is), out((n + 1) * os, 0xcc), before;
	if (!far) { ip = in.data(); op = out.data(); fis = is; fos = os; }
	for (auto &b : in) b = (uint8_t)r.next();
	Bytes in0 = in;
	std::vector<size_t> il(n + 1), ol(n + 1), ol0; std::vector<int> rets(n + 1, 0x5555), want(n + 1, 0);
	Ctx c;
	int firstErr = 0; bool any = false;
	std::vector<int> skip(n + 1, 0);
	for (size_t i = 0; i < n; i++) {
		il[i] = len(r); ol[i] = len(r);
		if (chunked && r.chance(15)) { il[i] = SIZE_MAX; skip[i] = 1; continue; }
		if (il[i] == SIZE_MAX) il[i]--;
		Want w = {comp, ip + i * fis, il[i], op + i * fos, ol[i], err(r), len(r)};
		want[i] = w.ret; any = true;
		if (!firstErr && w.ret != 0 && w.ret != -ENOSPC) firstErr = w.ret;
		c.want.push_back(w);
	}
	ol0 = ol; std::vector<Want> asked = c.want;
	c.active = true; c.far = far; cx = &c;
	int ret = chunked ? fn(n, rets.data(), ip, fis, il.data(), op, fos, ol.data()) : f1(in.data(), il[0], out.data(), &ol[0]);
	cx = nullptr;
	char d[300]; snprintf(d, sizeof d, "%s%s, %zu chunks, returned %d", comp ? "compress" : "decompress", chunked ? "_chunked" : "", n, ret);
	detail = d;
	if (c.bad) { bad = c.bad; detail += std::string(": ") + c.detail; return; }
	if (c.next != asked.size()) { bad = "chunk not passed to the device"; return; }
	if (!chunked) { if (ret != want[0]) { bad = "result of the device changed"; return; } }
	else if (ret != firstErr && any) { bad = "wrong result of a chunked call"; return; }
	if (in != in0) { bad = "source changed"; return; }
	size_t a = 0;
	for (size_t i = 0; i < n; i++) {
		uint8_t exp = 0xcc;
		if (skip[i]) { for (size_t k = 0; k < os; k++) if (out[i * os + k] != exp) { bad = "output of a skipped chunk changed"; return; } continue; }
		Want &w = asked[a++];
		if (chunked && rets[i] != want[i]) { bad = "wrong result of a chunk"; return; }
		if (ol[i] != w.olen) { bad = "output length of the device not returned"; return; }
		size_t k = 0, m = want[i] == 0 && !far ? std::min<size_t>(w.olen, 64) : 0;
		for (; k < m; k++) if (out[i * os + k] != (uint8_t)(in[i * is + k] ^ 0x5a)) { bad = "output of the device changed"; return; }
		for (; k < os; k++) if (out[i * os + k] != 0xcc) { bad = "write outside the output of the device"; return; }
	}
	if (rets[n] != 0x5555 || out[n * os] != 0xcc) { bad = "write after the last chunk"; return; }
}
static void setup() {}
static void runCase(uint64_t, Rng &r)
{
	unsigned nt = r.chance(10) ? (unsigned)r.range(2, 4) : 1;
	std::vector<std::string> bad(nt), det(nt); std::vector<std::thread> ts; uint64_t sd = r.next();
	auto f = [&](unsigned t) { Rng q(sd, t); unsigned k = (unsigned)q.range(1, 4); for (unsigned i = 0; i < k && bad[t].empty(); i++) one(q, bad[t], det[t]); };
	for (unsigned t = 1; t < nt; t++) ts.emplace_back(f, t);
	f(0);
	for (auto &t : ts) t.join();
	for (unsigned t = 0; t < nt; t++) if (!bad[t].empty()) fail(bad[t].c_str(), "%s", det[t].c_str());
	if (stray.exchange(0)) fail("device used from another thread or outside a call", "-");
	const lib842_implementation *im = get_aix842_implementation();
	if (im->required_alignment == 0 || im->preferred_alignment == 0 || 65536 % im->required_alignment) fail("table unusable for streams", "required %zu preferred %zu", im->required_alignment, im->preferred_alignment);
	distinct(sd);
	stat("calls checked in threads", nt);
}
static void finish() {}
