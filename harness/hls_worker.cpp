// G02: the HLS tokenizer (src/hls), compiled natively with stand-ins for the vendor's headers.
#include "main.h"
#include "ref842.h"
#include <setjmp.h>
#define main hlsMain
#include <hls/842_decomp.cpp>
#undef main
#undef OP_REPEAT
#undef OP_ZEROS
#undef OP_END
using ref::Tok;

static const char *bad; static char badDetail[200]; static size_t limit;
static jmp_buf jb;
void hlsBad(const char *what, long long a, long long b, long long c) { if (!bad) { bad = what; snprintf(badDetail, sizeof badDetail, "(%lld, %lld) of %lld bits", a, b, c); } }
void hlsStuck() { longjmp(jb, 1); }
void hlsWritten(size_t n) { if (n > limit) longjmp(jb, 2); }

static void setup() {}
static void runCase(uint64_t, Rng &r)
{
	// one or more streams through the tokenizer
	GenStream g = genStream(r, r.chance(70) ? 40 : r.chance(70) ? 400 : 3000, false, 200000);
	Bytes b = g.bytes;
	bool cut = r.chance(25);
	while (b.size() % 16) b.push_back(r.chance(50) ? 0 : (uint8_t)r.next());
	if (cut) b.resize(((size_t)r.below(b.size() / 16) + 1) * 16);
	if (r.chance(20) && !cut) for (int k = (int)r.range(1, 3) * 16; k; k--) b.push_back((uint8_t)r.next()); // more after the end
	std::vector<Tok> want;
	ref::Decoded d = ref::decode(b.data(), b.size(), &want);
	if (d.st != ref::OK && d.st != ref::BADCRC && d.st != ref::TRUNC) { stat("streams not judged"); return; }
	static input_stream *inp; static tokenized_stream *outp; // leaked after a longjmp
	inp = new input_stream; outp = new tokenized_stream;
	input_stream &in = *inp; tokenized_stream &out = *outp;
	limit = SIZE_MAX;
	for (size_t i = 0; i < b.size(); i += 16) {
		input_stream_element e; e.keep = 0xffff; e.strb = 0xffff; e.last = i + 16 >= b.size();
		uint64_t lo = 0, hi = 0; for (int k = 7; k >= 0; k--) { lo = lo << 8 | b[i + (size_t)k]; hi = hi << 8 | b[i + 8 + (size_t)k]; }
		e.data(63, 0) = lo; e.data(127, 64) = hi; // little endian bus
		in.write(e);
	}
	bad = nullptr; limit = want.size() + 100;
	const char *where = "complete";
	if (d.st == ref::TRUNC) where = "cut";
	switch (setjmp(jb)) {
	case 0: opcode_tokenizer(in, out); break;
	case 1: fail("tokenizer waits for input that never comes", "%s stream of %zu bytes, %zu tokens expected", where, b.size(), want.size()); return;
	default: fail("tokenizer does not stop", "%s stream of %zu bytes, %zu tokens expected", where, b.size(), want.size()); return;
	}
	if (bad) { fail(bad, "%s, %s stream of %zu bytes", badDetail, where, b.size()); return; }
	size_t n = 0;
	for (;; n++) {
		if (out.empty()) { fail("token missing", "%zu of %zu tokens in a %s stream", n, want.size() + 1, where); return; }
		tokenized_stream_element t = out.read();
		bool end = n == want.size();
		ap_uint<69> w(0); int pos = 69;
		auto put = [&](uint64_t v, int k) { if (k) { w(pos - 1, pos - k) = v; pos -= k; } };
		if (end) put(ref::OP_END, 5);
		else {
			const Tok &k = want[n]; put(k.op, 5);
			if (k.op == ref::OP_REPEAT) put(k.arg[0], 6);
			else if (k.op <= 0x19) { ref::Template T = ref::makeTemplate(k.op); for (int i = 0; i < T.n; i++) put(k.arg[i], (int)ref::slotBits(T.s[i])); }
		}
		if (t.data != w) { fail(end ? "wrong end token" : "wrong token", "token %zu of %zu in a %s stream of %zu bytes: %02llx:%016llx instead of %02llx:%016llx", n, want.size(), where, b.size(), (unsigned long long)t.data.w[1], (unsigned long long)t.data.w[0], (unsigned long long)w.w[1], (unsigned long long)w.w[0]); return; }
		if ((t.last != 0) != end) { fail("last mark on the wrong token", "token %zu of %zu in a %s stream", n, want.size(), where); return; }
		if (end) break;
	}
	if (!out.empty()) fail("tokens after the end token", "%zu more", out.size());
	stat("tokens compared", n + 1); stat(d.st == ref::TRUNC ? "streams cut before their end" : "complete streams");
	for (int i = 0; i < 32; i++) if (d.hist[i]) { static char nm[32][24]; snprintf(nm[i], 24, "template %02x", i); stat(nm[i], d.hist[i]); }
	delete inp; delete outp;
	if (n > 1) distinct(mix(d.opsig, b.size()));
}
static void finish() {}
