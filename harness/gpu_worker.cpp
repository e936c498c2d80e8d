// G01: the CUDA kernel, interpreted from the PTX that clang makes of it, every access to device memory watched.
#include "main.h"
#include "ref842.h"
#include "ptx.h"
#define __global__
#define __restrict__
#include <lib842/cuda.h>
#undef __restrict__
#include <lib842/sw.h>
#include <memory>

extern "C" { extern const unsigned char ptxText0[], ptxText1[]; }
static std::unique_ptr<ptx::Program> prog[2];
static const size_t CH = LIB842_CUDA_CHUNK_SIZE, SLOT = 2 * CH;
static const uint64_t IN_BASE = 0x700000000000ull, OUT_BASE = 0x710000000000ull;

struct Dev : ptx::Mem {
	Bytes in, out; std::vector<uint8_t> written; size_t chunks = 0;
	const char *bad = nullptr; char detail[200];
	uint64_t loads = 0, stores = 0;
	void fault(const char *w, unsigned t, uint64_t ad, unsigned n) {
		if (bad) return;
		bad = w;
		if (ad >= OUT_BASE - 0x100000) snprintf(detail, sizeof detail, "thread %u, %u bytes at output + %lld (slot %u starts at %zu)", t, n, (long long)(ad - OUT_BASE), t, t * CH);
		else snprintf(detail, sizeof detail, "thread %u, %u bytes at input + %lld (slot %u starts at %zu)", t, n, (long long)(ad - IN_BASE), t, t * SLOT);
	}
	void load(unsigned t, uint64_t ad, unsigned n, uint8_t *to, ptx::Space) override {
		loads++;
		if (ad % n) fault("misaligned read", t, ad, n);
		if (ad >= IN_BASE && ad + n <= IN_BASE + in.size()) { memcpy(to, in.data() + (ad - IN_BASE), n); return; }
		if (ad >= OUT_BASE && ad + n <= OUT_BASE + out.size()) { memcpy(to, out.data() + (ad - OUT_BASE), n); return; }
		fault("read outside the buffers", t, ad, n); memset(to, 0xa5, n);
	}
	void store(unsigned t, uint64_t ad, unsigned n, const uint8_t *from, ptx::Space) override {
		stores++;
		if (ad % n) fault("misaligned write", t, ad, n);
		uint64_t lo = OUT_BASE + t * CH;
		if (ad >= lo && ad + n <= lo + CH) { memcpy(out.data() + (ad - OUT_BASE), from, n); for (unsigned i = 0; i < n; i++) written[ad - OUT_BASE + i] = 1; return; }
		if (ad >= OUT_BASE && ad + n <= OUT_BASE + out.size()) fault("write into the slot of another chunk", t, ad, n);
		else fault("write outside the output", t, ad, n);
	}
};

static void setup()
{
	const unsigned char *t[2] = {ptxText0, ptxText1};
	for (int i = 0; i < 2; i++)
		try { prog[i].reset(new ptx::Program((const char *)t[i], "cuda842_decompress")); }
		catch (ptx::Err &e) { fprintf(stderr, "PTX: %s\n", e.what()); _exit(97); }
	if (prog[0]->nparams != 2) { fprintf(stderr, "kernel has %zu parameters\n", prog[0]->nparams); _exit(97); }
}
static void runCase(uint64_t, Rng &r)
{
	const ptx::Program &P = *prog[r.below(2)];
	size_t blocks = (size_t)r.range(1, 4), per = r.chance(20) ? (size_t)r.range(32, 40) : (size_t)r.range(1, 6), n = blocks * per;
	Dev d; d.chunks = n;
	d.in.resize(n * SLOT); d.out.resize(n * CH); d.written.assign(n * CH, 0);
	for (auto &b : d.in) b = (uint8_t)r.next();
	uint64_t g = r.next(); for (size_t i = 0; i < d.out.size(); i++) d.out[i] = (uint8_t)((g ^ i * 0x9E3779B97F4A7C15ull) >> 33);
	Bytes out0 = d.out;
	std::vector<Bytes> want(n); uint64_t sig = 0; std::vector<const char *> kind(n);
	for (size_t i = 0; i < n; i++) {
		Bytes c;
		for (;;) {
			if (r.chance(30)) {
				want[i] = genInput(r, CH, true); if (want[i].size() % 8) want[i].resize(want[i].size() / 8 * 8);
				if (r.chance(50)) want[i].resize(CH, want[i].empty() ? 0 : want[i].back());
				c.assign(SLOT, 0); size_t ol = SLOT; kind[i] = "compressed by sw842";
				if (sw842_compress(want[i].data(), want[i].size(), c.data(), &ol)) continue;
				c.resize(ol);
			} else {
				GenStream s = genStream(r, r.chance(50) ? 30 : 128, false, CH);
				if (s.out.size() > CH || s.bytes.size() > SLOT) continue;
				c = s.bytes; want[i] = s.out; kind[i] = "from the stream generator";
			}
			ref::Decoded x = ref::decode(c.data(), c.size());
			if (x.st == ref::OK && x.out == want[i] && !x.usesShort) { sig = mix(sig ^ x.opsig, x.out.size()); if (x.wraps) stat("chunks with indexes after a ring wrap"); for (int k = 0; k < 32; k++) if (x.hist[k]) { static char nm[32][16]; snprintf(nm[k], 16, "template %02x", k); stat(nm[k], x.hist[k]); } break; }
			stat("streams not judged");
		}
		memcpy(d.in.data() + i * SLOT, c.data(), c.size());
		if (r.chance(20)) memset(d.in.data() + i * SLOT + c.size(), 0, SLOT - c.size());
	}
	Bytes in0 = d.in;
	std::vector<ptx::Thread> th(n);
	for (size_t i = 0; i < n; i++) {
		ptx::Thread &t = th[i]; t.P = &P; t.id = (unsigned)i; t.tid = (unsigned)(i % per); t.ntid = (unsigned)per; t.cta = (unsigned)(i / per); t.ncta = (unsigned)blocks;
		t.r.resize(P.nregs); for (auto &x : t.r) x = r.next();
		t.local.resize(P.localSize); for (auto &x : t.local) x = (uint8_t)r.next();
		t.params = {IN_BASE, OUT_BASE};
	}
	// threads in random slices
	std::vector<size_t> live(n); for (size_t i = 0; i < n; i++) live[i] = i;
	unsigned slice = r.chance(50) ? 100000 : (unsigned)r.range(1, 300); uint64_t switches = 0;
	while (!live.empty() && !d.bad) {
		size_t k = (size_t)r.below(live.size()); ptx::Thread &t = th[live[k]];
		t.run(slice, d); switches++;
		if (t.steps > 3000000) { fail("kernel does not stop", "chunk of %zu bytes %s", want[live[k]].size(), kind[live[k]]); return; }
		if (t.done) { live[k] = live.back(); live.pop_back(); }
	}
	if (d.bad) { fail(d.bad, "%s", d.detail); return; }
	if (d.in != in0) { fail("input changed", "-"); return; }
	for (size_t i = 0; i < n; i++) {
		const uint8_t *o = d.out.data() + i * CH;
		if (want[i].size() && memcmp(o, want[i].data(), want[i].size())) { size_t k = 0; while (o[k] == want[i][k]) k++; fail("wrong output", "chunk %zu of %zu (%zu bytes, %s) differs at %zu: %02x instead of %02x", i, n, want[i].size(), kind[i], k, o[k], want[i][k]); return; }
		if (memcmp(o + want[i].size(), out0.data() + i * CH + want[i].size(), CH - want[i].size())) { fail("write after the end of the data", "chunk %zu of %zu bytes", i, want[i].size()); return; }
	}
	stat("chunks compared", n); stat("thread switches", switches); stat("device loads", d.loads); stat("device stores", d.stores);
	uint64_t steps = 0; for (auto &t : th) steps += t.steps; stat("instructions interpreted", steps);
	distinct(sig);
}
static void finish() {}
