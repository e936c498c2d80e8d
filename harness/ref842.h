// Independent reference model of the 842 format, written from the description of the format only
// (doc comment of 842.h / the published 842 format), deliberately bit-at-a-time and simple.
// It shares no code, table or header with the implementation under test.
#ifndef VERIF_REF842_H
#define VERIF_REF842_H
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <vector>

namespace ref {

typedef std::vector<uint8_t> Bytes;

// --- CRC-32, MSB first, poly 0x04C11DB7, init 0, no final xor (bitwise) ---
static inline uint32_t crc32(const uint8_t *d, size_t n)
{
	static uint32_t tab[256];
	static bool init = false;
	if (!init) { // table of the bitwise definition, for speed only
		for (uint32_t i = 0; i < 256; i++) {
			uint32_t c = i << 24;
			for (int k = 0; k < 8; k++)
				c = (c & 0x80000000u) ? (c << 1) ^ 0x04C11DB7u : (c << 1);
			tab[i] = c;
		}
		init = true;
	}
	uint32_t crc = 0;
	for (size_t i = 0; i < n; i++)
		crc = (crc << 8) ^ tab[((crc >> 24) ^ d[i]) & 0xff];
	return crc;
}

// Slots of a template: kind 'D' (data) or 'I' (index) and size in bytes
struct Slot { char kind; uint8_t size; };
struct Template { uint8_t n; Slot s[4]; };

// The table of the format. Templates 0..24 are a 5x5 grid: the first half of the
// group is encoded as (op / 5), the second half as (op % 5), with the five possibilities
//   0: D4 (or part of a D8)   1: D2 I2   2: I2 D2   3: I2 I2   4: I4
// and template 0x19 is I8.
static inline Template makeTemplate(int op)
{
	Template t = { 0, { { 0, 0 } } };
	auto add = [&](char k, uint8_t s) { t.s[t.n].kind = k; t.s[t.n].size = s; t.n++; };
	auto half = [&](int h) {
		switch (h) {
		case 0: add('D', 4); break;
		case 1: add('D', 2); add('I', 2); break;
		case 2: add('I', 2); add('D', 2); break;
		case 3: add('I', 2); add('I', 2); break;
		case 4: add('I', 4); break;
		}
	};
	if (op == 0x19) { add('I', 8); return t; }
	half(op / 5);
	half(op % 5);
	return t;
}
static inline unsigned slotBits(Slot s)
{
	return s.kind == 'D' ? s.size * 8u : (s.size == 4 ? 9u : 8u);
}
static inline uint64_t ringSize(unsigned size) { return size == 2 ? 512 : 2048; }

enum { OP_REPEAT = 0x1b, OP_ZEROS = 0x1c, OP_SHORT = 0x1d, OP_END = 0x1e };

struct Tok {
	uint8_t op;
	uint64_t arg[4]; // slot values / repeat count arg / short length in arg[0]
	uint8_t sh[7];   // short data bytes
};

struct BitWriter {
	Bytes b;
	uint64_t nbits = 0;
	void put(uint64_t v, unsigned n) {
		for (unsigned i = n; i-- > 0;) {
			if (nbits % 8 == 0) b.push_back(0);
			if ((v >> i) & 1) b[nbits / 8] |= (uint8_t)(0x80 >> (nbits % 8));
			nbits++;
		}
	}
	void pad(size_t mult) { while (b.size() % mult) b.push_back(0); nbits = b.size() * 8; }
};

struct BitReader {
	const uint8_t *d; uint64_t nbits; uint64_t pos = 0; bool eof = false;
	BitReader(const uint8_t *d_, size_t n) : d(d_), nbits((uint64_t)n * 8) {}
	uint64_t get(unsigned n) {
		if (pos + n > nbits) { eof = true; return 0; }
		uint64_t v = 0;
		for (unsigned i = 0; i < n; i++, pos++)
			v = v << 1 | ((d[pos / 8] >> (7 - pos % 8)) & 1);
		return v;
	}
};

// Absolute offset an index refers to, when `total` bytes (multiple of 8) have been output:
// the ring holds the last F bytes of output, position i*size of the ring was last written by the
// greatest absolute offset o < total with o % F == i*size. Returns false if nothing was written there yet.
static inline bool resolveIndex(uint64_t index, unsigned size, uint64_t total, uint64_t *abs)
{
	const uint64_t F = ringSize(size), slot = index * size;
	uint64_t best = UINT64_MAX;
	// candidates: slot + k*F, wholly below total
	if (slot + size > total) return false;
	best = slot + (total - size - slot) / F * F;
	*abs = best;
	return true;
}

enum Status { OK, TRUNC, BADOP, BADINDEX, BADREPEAT, BADSHORT, BADCRC };
static const char *const statusName[] = { "ok", "truncated", "bad-op", "bad-index", "bad-repeat", "bad-short", "bad-crc" };

struct Decoded {
	Status st = OK;
	Bytes out;
	uint64_t endBit = 0;    // first bit after the CRC
	uint32_t crcStored = 0;
	uint64_t crcBit = 0;    // first bit of the stored CRC
	bool usesShort = false;
	bool shortNotLast = false; // anything but END after short data: meaning not defined by the format
	uint32_t hist[32] = { 0 };
	uint64_t nops = 0;
	unsigned wraps = 0;     // index operations resolved after the ring had wrapped
	uint64_t opsig = 14695981039346656037ull;
};

static inline Decoded decode(const uint8_t *in, size_t n, std::vector<Tok> *toks = nullptr)
{
	Decoded r;
	BitReader br(in, n);
	for (;;) {
		unsigned op = (unsigned)br.get(5);
		if (br.eof) { r.st = TRUNC; return r; }
		if (r.usesShort && op != OP_END) r.shortNotLast = true;
		r.opsig = (r.opsig ^ op) * 1099511628211ull;
		Tok t; memset(&t, 0, sizeof(t)); t.op = (uint8_t)op;
		if (op == OP_END) { r.hist[op]++; break; }
		if (op == OP_REPEAT) {
			uint64_t c = br.get(6);
			if (br.eof) { r.st = TRUNC; return r; }
			t.arg[0] = c;
			if (r.out.size() < 8) { r.st = BADREPEAT; return r; }
			for (uint64_t i = 0; i <= c; i++) {
				uint8_t last[8];
				memcpy(last, r.out.data() + r.out.size() - 8, 8);
				r.out.insert(r.out.end(), last, last + 8);
			}
		} else if (op == OP_ZEROS) {
			r.out.insert(r.out.end(), 8, 0);
		} else if (op == OP_SHORT) {
			uint64_t c = br.get(3);
			if (br.eof) { r.st = TRUNC; return r; }
			if (c == 0) { r.st = BADSHORT; return r; }
			t.arg[0] = c;
			r.usesShort = true;
			for (uint64_t i = 0; i < c; i++) {
				uint8_t v = (uint8_t)br.get(8);
				if (br.eof) { r.st = TRUNC; return r; }
				t.sh[i] = v;
				r.out.push_back(v);
			}
		} else if (op <= 0x19) {
			Template T = makeTemplate((int)op);
			uint64_t total = r.out.size() / 8 * 8;
			for (int i = 0; i < T.n; i++) {
				Slot s = T.s[i];
				uint64_t v = br.get(slotBits(s));
				if (br.eof) { r.st = TRUNC; return r; }
				t.arg[i] = v;
				if (s.kind == 'D') {
					for (int k = s.size - 1; k >= 0; k--)
						r.out.push_back((uint8_t)(v >> (8 * k)));
				} else {
					uint64_t abs;
					if (!resolveIndex(v, s.size, total, &abs)) { r.st = BADINDEX; return r; }
					if (total > ringSize(s.size)) r.wraps++;
					for (int k = 0; k < s.size; k++)
						r.out.push_back(r.out[abs + k]);
				}
			}
		} else {
			r.st = BADOP;
			return r;
		}
		r.hist[op]++;
		r.nops++;
		if (toks) toks->push_back(t);
	}
	r.crcBit = br.pos;
	r.crcStored = (uint32_t)br.get(32);
	if (br.eof) { r.st = TRUNC; return r; }
	r.endBit = br.pos;
	if (r.crcStored != crc32(r.out.data(), r.out.size())) r.st = BADCRC;
	return r;
}

static inline void putTok(BitWriter &w, const Tok &t)
{
	w.put(t.op, 5);
	if (t.op == OP_REPEAT) w.put(t.arg[0], 6);
	else if (t.op == OP_SHORT) {
		w.put(t.arg[0], 3);
		for (uint64_t i = 0; i < t.arg[0]; i++) w.put(t.sh[i], 8);
	} else if (t.op <= 0x19) {
		Template T = makeTemplate(t.op);
		for (int i = 0; i < T.n; i++) w.put(t.arg[i], slotBits(T.s[i]));
	}
}

// Number of bits of the greedy encoding of `in` (cheapest template for each 8-byte group, given the rings),
// with an identical group cheaper as (part of) a repeat, including end and CRC (no padding).
// `worst` is the count if no index were ever used (zeros, repeats and literals only).
struct GreedyCost { uint64_t bits; uint64_t worst; uint64_t groups; uint64_t indexed; };
static inline uint64_t be(const uint8_t *p, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v = v << 8 | p[i]; return v; }

struct RingSet { // multiset of the values currently in one ring
	unsigned size; uint64_t slots;
	std::vector<uint64_t> val; std::vector<uint8_t> used;
	// open-addressing counting table
	std::vector<uint64_t> key; std::vector<uint32_t> cnt; std::vector<uint8_t> occ;
	uint64_t mask; uint64_t fill = 0;
	explicit RingSet(unsigned size_) : size(size_), slots(ringSize(size_) / size_) {
		val.assign(slots, 0); used.assign(slots, 0);
		mask = 8191; key.assign(mask + 1, 0); cnt.assign(mask + 1, 0); occ.assign(mask + 1, 0);
	}
	uint64_t find(uint64_t v) const {
		uint64_t h = (v * 0x9E3779B97F4A7C15ull) >> 40 & mask;
		while (occ[h] && key[h] != v) h = (h + 1) & mask;
		return h;
	}
	bool has(uint64_t v) const { uint64_t h = find(v); return occ[h] && cnt[h] > 0; }
	void rebuild() {
		std::fill(occ.begin(), occ.end(), 0); std::fill(cnt.begin(), cnt.end(), 0); fill = 0;
		for (uint64_t i = 0; i < slots; i++) if (used[i]) ins(val[i]);
	}
	void ins(uint64_t v) {
		uint64_t h = find(v);
		if (!occ[h]) { occ[h] = 1; key[h] = v; cnt[h] = 0; fill++; }
		cnt[h]++;
	}
	void put(uint64_t slot, uint64_t v) {
		if (used[slot]) cnt[find(val[slot])]--;
		used[slot] = 1; val[slot] = v;
		ins(v);
		if (fill > mask / 2) rebuild();
	}
};

static inline GreedyCost greedyCost(const uint8_t *in, size_t n)
{
	GreedyCost g = { 0, 0, 0, 0 };
	RingSet r2(2), r4(4), r8(8);
	size_t groups = n / 8;
	uint64_t run = 0;
	for (size_t i = 0; i < groups; i++) {
		const uint8_t *p = in + i * 8;
		bool same = i > 0 && memcmp(p, p - 8, 8) == 0;
		g.groups++;
		if (same) {
			if (run % 64 == 0) { g.bits += 11; g.worst += 11; }
			run++;
		} else {
			run = 0;
			uint64_t v8 = be(p, 8);
			if (v8 == 0) { g.bits += 5; g.worst += 5; }
			else {
				unsigned best = 69;
				if (r8.has(v8)) best = 13;
				else {
					unsigned half[2];
					for (int h = 0; h < 2; h++) {
						unsigned a = r2.has(be(p + h * 4, 2)) ? 8 : 16;
						unsigned b = r2.has(be(p + h * 4 + 2, 2)) ? 8 : 16;
						half[h] = a + b;
						if (r4.has(be(p + h * 4, 4)) && half[h] > 9) half[h] = 9;
					}
					best = 5 + half[0] + half[1];
				}
				if (best < 69) g.indexed++;
				g.bits += best; g.worst += 69;
			}
		}
		// the rings advance for every group
		uint64_t pos = i * 8;
		r8.put(pos / 8 % r8.slots, be(p, 8));
		for (int k = 0; k < 2; k++) r4.put((pos / 4 + k) % r4.slots, be(p + 4 * k, 4));
		for (int k = 0; k < 4; k++) r2.put((pos / 2 + k) % r2.slots, be(p + 2 * k, 2));
	}
	size_t rest = n % 8;
	if (rest) { g.bits += 8 + rest * 8; g.worst += 8 + rest * 8; }
	g.bits += 37; g.worst += 37;
	return g;
}
static inline uint64_t bitsToSize(uint64_t bits) { return (bits + 63) / 64 * 8; }
// No documented encoding needs more than 69 bits per group
static inline size_t bound(size_t n) { return (size_t)bitsToSize((uint64_t)(n / 8) * 69 + (n % 8 ? 8 + (n % 8) * 8 : 0) + 37); }

} // namespace ref
#endif
