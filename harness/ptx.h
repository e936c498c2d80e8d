// An interpreter for the part of PTX that clang emits for src/cuda, with every memory access handed to a monitor.
// Shifts, prmt and the like follow the PTX ISA (shift amounts are clamped). Registers start with garbage.
#ifndef VERIF_PTX_H
#define VERIF_PTX_H
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <string>
#include <vector>
#include <map>
#include <stdexcept>
namespace ptx {
struct Err : std::runtime_error { using runtime_error::runtime_error; };
enum Op { MOV, PACK, UNPACK, LD, ST, ADD, SUB, MUL, MAD, DIV, REM, NEG, ABS, MIN, MAX, AND, OR, XOR, NOT, CNOT, SHL, SHR, SETP, SELP, CVT, BRA, RET, PRMT, BFE, BFI, CLZ, POPC, BREV, BFIND, SHF, LOP3, NOP };
enum Cmp { EQ, NE, LT, LE, GT, GE };
enum Space { GENERIC, GLOBAL, CONST, PARAM, LOCAL, SHARED };
struct Val { int reg = -1; uint64_t imm = 0; int special = 0; };
struct Ins {
	Op op; int guard = -1; bool gneg = false;
	unsigned size = 8; bool sgn = false;          // operand type
	unsigned ssize = 8; bool ssgn = false;        // cvt: source type
	int mode = 0;                                 // mul: 0 lo 1 hi 2 wide; setp: comparison; shf: bit 0 right, bit 1 wrap
	int boolop = 0; Space space = GENERIC; unsigned vec = 1;
	int dst[4] = {-1, -1, -1, -1}; Val s[5]; int64_t off = 0; size_t target = 0; int line = 0;
};
struct Mem { virtual void load(unsigned thread, uint64_t addr, unsigned n, uint8_t *to, Space sp) = 0; virtual void store(unsigned thread, uint64_t addr, unsigned n, const uint8_t *from, Space sp) = 0; virtual ~Mem() {} };

static const uint64_t CONST_BASE = 0x10000000ull, LOCAL_BASE = 0x20000000ull, PARAM_BASE = 0x30000000ull;

struct Program {
	std::vector<Ins> code; size_t nregs = 0, nparams = 0, localSize = 0;
	std::vector<uint8_t> cdata; std::map<std::string, uint64_t> syms; std::string name;
	explicit Program(const std::string &text, const char *entry) { parse(text, entry); }
private:
	std::vector<std::map<std::string, int>> scopes;
	std::vector<std::string> params;
	std::map<std::string, size_t> labels;
	std::vector<std::pair<size_t, std::string>> fixups;
	static bool idc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '$' || c == '%' || c == '.'; }
	static std::string trim(const std::string &s) { size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
	static std::vector<std::string> split(const std::string &s, char c) { std::vector<std::string> r; int depth = 0; std::string cur; for (char k : s) { if (k == '{' || k == '[') depth++; if (k == '}' || k == ']') depth--; if (k == c && !depth) { r.push_back(trim(cur)); cur.clear(); } else cur += k; } r.push_back(trim(cur)); return r; }
	static uint64_t num(const std::string &s0) { std::string s = s0; bool neg = s[0] == '-'; if (neg) s = s.substr(1); uint64_t v = strtoull(s.c_str(), nullptr, 0); return neg ? (uint64_t)-(int64_t)v : v; }
	static unsigned tsize(const std::string &t) { if (t == "pred") return 1; if (t.size() < 2 || !strchr("bus", t[0])) throw Err("type " + t); int n = atoi(t.c_str() + 1); if (n != 8 && n != 16 && n != 32 && n != 64) throw Err("type " + t); return (unsigned)n / 8; }
	static bool isType(const std::string &t) { return t == "pred" || ((t[0] == 'b' || t[0] == 'u' || t[0] == 's') && t.size() >= 2 && t.size() <= 3 && isdigit((unsigned char)t[1])); }
	int findReg(const std::string &n) { for (size_t i = scopes.size(); i-- > 0;) { auto it = scopes[i].find(n); if (it != scopes[i].end()) return it->second; } return -1; }
	int reg(const std::string &n) { if (n == "_") return newReg(); int r = findReg(n); if (r < 0) throw Err("register " + n); return r; }
	int newReg() { return (int)nregs++; }
	Val operand(const std::string &n) {
		Val v;
		if (n.empty()) throw Err("empty operand");
		if (n[0] == '%') {
			int r = findReg(n); if (r >= 0) { v.reg = r; return v; }
			static const char *const sp[] = {"", "%tid.x", "%ntid.x", "%ctaid.x", "%nctaid.x", "%laneid", "%warpid", "%tid.y", "%tid.z", "%ctaid.y", "%ctaid.z", "%ntid.y", "%ntid.z", "%nctaid.y", "%nctaid.z"};
			for (int i = 1; i < 15; i++) if (n == sp[i]) { v.special = i; return v; }
			throw Err("register " + n);
		}
		if (isdigit((unsigned char)n[0]) || n[0] == '-') { v.imm = num(n); return v; }
		std::string b = n; uint64_t add = 0; size_t p = n.find('+'); if (p != std::string::npos) { b = trim(n.substr(0, p)); add = num(trim(n.substr(p + 1))); }
		auto it = syms.find(b); if (it != syms.end()) { v.imm = it->second + add; return v; }
		for (size_t i = 0; i < params.size(); i++) if (params[i] == b) { v.imm = PARAM_BASE + 8 * i + add; return v; }
		throw Err("symbol " + n);
	}
	void address(const std::string &s, Ins &I) {
		if (s.size() < 2 || s[0] != '[') throw Err("address " + s);
		std::string b = trim(s.substr(1, s.size() - 2)); size_t p = b.find_first_of("+-", 1);
		if (p != std::string::npos) { std::string o = trim(b.substr(p)); if (o[0] == '+') o = trim(o.substr(1)); I.off = (int64_t)num(o); b = trim(b.substr(0, p)); }
		I.s[0] = operand(b);
	}
	void instr(std::string st) {
		Ins I; I.op = NOP;
		if (st[0] == '@') { size_t e = st.find_first_of(" \t\n"); std::string g = st.substr(1, e - 1); if (g[0] == '!') { I.gneg = true; g = g.substr(1); } I.guard = reg(g); st = trim(st.substr(e)); }
		size_t e = st.find_first_of(" \t\n"); std::string on = e == std::string::npos ? st : st.substr(0, e), rest = e == std::string::npos ? "" : trim(st.substr(e));
		std::vector<std::string> m = split(on, '.'), a = rest.empty() ? std::vector<std::string>() : split(rest, ',');
		std::string b = m[0]; std::vector<std::string> types;
		for (size_t i = 1; i < m.size(); i++) if (isType(m[i])) types.push_back(m[i]);
		auto has = [&](const char *x) { for (size_t i = 1; i < m.size(); i++) if (m[i] == x) return true; return false; };
		if (types.size()) { I.size = tsize(types.back()); I.sgn = types.back()[0] == 's'; }
		auto D = [&](size_t i) { I.dst[0] = reg(a.at(i)); };
		auto S = [&](size_t from) { for (size_t i = from; i < a.size(); i++) { if (i - from >= 5) throw Err("operands: " + st); I.s[i - from] = operand(a[i]); } };
		static const std::map<std::string, Op> simple = {{"add", ADD}, {"sub", SUB}, {"div", DIV}, {"rem", REM}, {"neg", NEG}, {"abs", ABS}, {"min", MIN}, {"max", MAX}, {"and", AND}, {"or", OR}, {"xor", XOR}, {"not", NOT}, {"cnot", CNOT}, {"shl", SHL}, {"shr", SHR}, {"selp", SELP}, {"prmt", PRMT}, {"bfe", BFE}, {"bfi", BFI}, {"clz", CLZ}, {"popc", POPC}, {"brev", BREV}, {"bfind", BFIND}, {"lop3", LOP3}};
		auto it = simple.find(b);
		if (has("cc") || has("sat") || has("rn") || b == "addc" || b == "subc") throw Err("instruction " + st);
		if (it != simple.end()) { I.op = it->second; D(0); S(1); }
		else if (b == "mov") {
			if (a.at(0)[0] == '{') { I.op = UNPACK; auto v = split(a[0].substr(1, a[0].size() - 2), ','); I.vec = (unsigned)v.size(); for (size_t i = 0; i < v.size(); i++) I.dst[i] = reg(v[i]); I.s[0] = operand(a.at(1)); }
			else if (a.at(1)[0] == '{') { I.op = PACK; D(0); auto v = split(a[1].substr(1, a[1].size() - 2), ','); I.vec = (unsigned)v.size(); for (size_t i = 0; i < v.size(); i++) I.s[i] = operand(v[i]); }
			else { I.op = MOV; D(0); S(1); }
		} else if (b == "cvta") { I.op = MOV; D(0); S(1); }
		else if (b == "mul" || b == "mad" || b == "mul24" || b == "mad24") { if (b.size() > 3) throw Err("instruction " + st); I.op = b == "mul" ? MUL : MAD; I.mode = has("hi") ? 1 : has("wide") ? 2 : 0; D(0); S(1); }
		else if (b == "setp") {
			I.op = SETP;
			static const std::map<std::string, int> c = {{"eq", EQ}, {"ne", NE}, {"lt", LT}, {"le", LE}, {"gt", GT}, {"ge", GE}, {"lo", LT}, {"ls", LE}, {"hi", GT}, {"hs", GE}};
			auto k = c.find(m.at(1)); if (k == c.end()) throw Err("comparison " + st); I.mode = k->second;
			if (m.at(1) == "lo" || m.at(1) == "ls" || m.at(1) == "hi" || m.at(1) == "hs") I.sgn = false;
			I.boolop = has("and") ? 1 : has("or") ? 2 : has("xor") ? 3 : 0;
			size_t bar = a.at(0).find('|'); if (bar != std::string::npos) { I.dst[0] = reg(trim(a[0].substr(0, bar))); I.dst[1] = reg(trim(a[0].substr(bar + 1))); } else D(0);
			S(1);
			if (I.boolop && a.at(3)[0] == '!') throw Err("instruction " + st);
		} else if (b == "cvt") { I.op = CVT; if (types.size() != 2) throw Err("cvt " + st); I.size = tsize(types[0]); I.sgn = types[0][0] == 's'; I.ssize = tsize(types[1]); I.ssgn = types[1][0] == 's'; D(0); S(1); }
		else if (b == "ld" || b == "st" || b == "ldu") {
			I.op = b == "st" ? ST : LD; I.space = has("global") ? GLOBAL : has("const") ? CONST : has("param") ? PARAM : has("local") ? LOCAL : has("shared") ? SHARED : GENERIC;
			if (I.space == SHARED) throw Err("shared memory");
			I.vec = has("v2") ? 2 : has("v4") ? 4 : 1;
			const std::string &v = a.at(I.op == LD ? 0 : 1); std::vector<std::string> e = v[0] == '{' ? split(v.substr(1, v.size() - 2), ',') : std::vector<std::string>(1, v);
			if (e.size() != I.vec) throw Err("vector " + st);
			for (size_t i = 0; i < e.size(); i++) if (I.op == LD) I.dst[i] = reg(e[i]); else I.s[1 + i] = operand(e[i]);
			address(a.at(I.op == LD ? 1 : 0), I);
		} else if (b == "bra") { I.op = BRA; fixups.push_back({code.size(), a.at(0)}); }
		else if (b == "ret" || b == "exit") I.op = RET;
		else if (b == "shf") { I.op = SHF; I.mode = (has("r") ? 1 : 0) | (has("wrap") ? 2 : 0); D(0); S(1); }
		else if (b == "membar" || b == "fence" || b == "prefetch" || b == "nanosleep" || b == "pragma") I.op = NOP;
		else throw Err("instruction " + st);
		code.push_back(I);
	}
	void parse(const std::string &t0, const char *entry) {
		std::string t; // without comments
		for (size_t i = 0; i < t0.size();) { if (t0.compare(i, 2, "//") == 0) { while (i < t0.size() && t0[i] != '\n') i++; } else if (t0.compare(i, 2, "/*") == 0) { i = t0.find("*/", i) + 2; } else t += t0[i++]; }
		// module variables
		for (size_t i = 0; i < t.size();) {
			while (i < t.size() && isspace((unsigned char)t[i])) i++;
			size_t e = t.find_first_of(";{\n", i);
			std::string head = t.substr(i, e == std::string::npos ? std::string::npos : e - i);
			bool var = (head.find(".const") != std::string::npos || head.find(".global") != std::string::npos) && head.find(".func") == std::string::npos;
			if (var) {
				size_t semi = t.find(';', i); std::string d = t.substr(i, semi - i); i = semi + 1;
				size_t eq = d.find('='); std::string l = trim(d.substr(0, eq)); size_t count = 1;
				unsigned es = 1, al = 1; std::string nm;
				size_t p = 0; std::vector<std::string> w; while (p < l.size()) { while (p < l.size() && isspace((unsigned char)l[p])) p++; size_t q = p; while (q < l.size() && !isspace((unsigned char)l[q])) q++; if (q > p) w.push_back(l.substr(p, q - p)); p = q; }
				for (size_t k = 0; k < w.size(); k++) { if (w[k] == ".align") al = (unsigned)atoi(w.at(++k).c_str()); else if (w[k][0] == '.' && isType(w[k].substr(1))) es = tsize(w[k].substr(1)); else if (w[k][0] != '.') nm = w[k]; }
				size_t br = nm.find('['); if (br != std::string::npos) { count = strtoull(nm.c_str() + br + 1, nullptr, 0); nm = nm.substr(0, br); }
				while (cdata.size() % (al < 16 ? 16 : al)) cdata.push_back(0);
				syms[nm] = CONST_BASE + cdata.size();
				std::vector<std::string> vals; if (eq != std::string::npos) { std::string v = trim(d.substr(eq + 1)); if (v[0] == '{') v = v.substr(1, v.size() - 2); vals = split(v, ','); }
				for (size_t k = 0; k < count; k++) { uint64_t v = k < vals.size() && !vals[k].empty() ? num(vals[k]) : 0; for (unsigned z = 0; z < es; z++) cdata.push_back((uint8_t)(v >> (8 * z))); }
				continue;
			}
			if (head.find(".entry") != std::string::npos) { entryAt.push_back(i); }
			if (head.find(".entry") != std::string::npos || head.find(".func") != std::string::npos) { // skip the body
				size_t o = t.find('{', i), s = t.find(';', i); if (s != std::string::npos && s < o) { i = s + 1; continue; }
				int depth = 0; for (i = o; i < t.size(); i++) { if (t[i] == '{') depth++; if (t[i] == '}' && --depth == 0) { i++; break; } }
				continue;
			}
			if (e == std::string::npos) break;
			i = e + 1;
		}
		bool found = false;
		for (size_t at : entryAt) {
			size_t o = t.find('(', at); size_t w = t.find(".entry", at); name = trim(t.substr(w + 6, o - w - 6));
			if (name.find(entry) == std::string::npos) continue;
			if (found) throw Err("more than one kernel " + name);
			found = true;
			size_t c = t.find(')', o);
			for (auto &p : split(t.substr(o + 1, c - o - 1), ',')) if (!p.empty()) { size_t k = p.find_last_of(" \t"); params.push_back(trim(p.substr(k))); }
			nparams = params.size();
			size_t i = t.find('{', c);
			body(t, i);
		}
		if (!found) throw Err("kernel not found");
		for (auto &f : fixups) { auto l = labels.find(f.second); if (l == labels.end()) throw Err("label " + f.second); code[f.first].target = l->second; }
		Ins r; r.op = RET; code.push_back(r);
	}
	std::vector<size_t> entryAt;
	void body(const std::string &t, size_t i) {
		int depth = 0;
		for (; i < t.size();) {
			while (i < t.size() && isspace((unsigned char)t[i])) i++;
			if (t[i] == '{') { scopes.emplace_back(); depth++; i++; continue; }
			if (t[i] == '}') { scopes.pop_back(); i++; if (--depth == 0) return; continue; }
			if (t[i] == ';') { i++; continue; }
			size_t j = i; while (j < t.size() && idc(t[j])) j++;
			if (j > i && t[j] == ':') { labels[t.substr(i, j - i)] = code.size(); i = j + 1; continue; }
			size_t e = i; int d = 0; while (e < t.size() && !(t[e] == ';' && !d)) { if (t[e] == '{') d++; if (t[e] == '}') d--; e++; }
			std::string st = trim(t.substr(i, e - i)); i = e + 1;
			if (st[0] == '.') {
				if (st.compare(0, 4, ".reg") == 0) {
					std::string r = trim(st.substr(4)); size_t k = r.find_first_of(" \t"); r = trim(r.substr(k));
					for (auto &n : split(r, ',')) { size_t lt = n.find('<'); if (lt == std::string::npos) scopes.back()[n] = newReg(); else { int c = atoi(n.c_str() + lt + 1); std::string b = n.substr(0, lt); for (int z = 0; z < c; z++) scopes.back()[b + std::to_string(z)] = newReg(); } }
				} else if (st.compare(0, 6, ".local") == 0) {
					size_t br = st.find('['), sp = st.find_last_of(" \t", br); size_t n = strtoull(st.c_str() + br + 1, nullptr, 0);
					localSize = (localSize + 63) / 64 * 64; syms[trim(st.substr(sp, br - sp))] = LOCAL_BASE + localSize; localSize += n;
				} else if (st.compare(0, 7, ".pragma") == 0 || st.compare(0, 4, ".loc") == 0) ;
				else throw Err("directive " + st);
				continue;
			}
			instr(st);
		}
	}
};

struct Thread {
	const Program *P; unsigned id, tid, ntid, cta, ncta; size_t pc = 0; bool done = false; uint64_t steps = 0;
	std::vector<uint64_t> r; std::vector<uint8_t> local; std::vector<uint64_t> params;
	static uint64_t mask(unsigned n) { return n >= 8 ? ~0ull : (1ull << (8 * n)) - 1; }
	static int64_t sx(uint64_t v, unsigned n) { unsigned s = 64 - 8 * n; return (int64_t)(v << s) >> s; }
	uint64_t val(const Val &v) const {
		if (v.reg >= 0) return r[(size_t)v.reg];
		switch (v.special) { case 0: return v.imm; case 1: return tid; case 2: return ntid; case 3: return cta; case 4: return ncta; case 5: return tid % 32; case 6: return tid / 32; case 7: case 8: case 9: case 10: return 0; default: return 1; }
	}
	static uint64_t lop(unsigned lut, uint64_t a, uint64_t b, uint64_t c) { uint64_t o = 0; if (lut & 1) o |= ~a & ~b & ~c; if (lut & 2) o |= ~a & ~b & c; if (lut & 4) o |= ~a & b & ~c; if (lut & 8) o |= ~a & b & c; if (lut & 16) o |= a & ~b & ~c; if (lut & 32) o |= a & ~b & c; if (lut & 64) o |= a & b & ~c; if (lut & 128) o |= a & b & c; return o; }
	void run(unsigned n, Mem &mem) {
		for (; n && !done; n--) {
			const Ins &I = P->code[pc]; size_t next = pc + 1; steps++;
			if (I.guard >= 0 && ((r[(size_t)I.guard] & 1) != 0) == I.gneg) { pc = next; continue; }
			unsigned z = I.size; uint64_t M = mask(z), a, b, c, o = 0; bool set = true;
			switch (I.op) {
			case MOV: o = val(I.s[0]); break;
			case PACK: { unsigned e = z / I.vec; for (unsigned i = 0; i < I.vec; i++) o |= (val(I.s[i]) & mask(e)) << (8 * e * i); break; }
			case UNPACK: { unsigned e = z / I.vec; a = val(I.s[0]); for (unsigned i = 0; i < I.vec; i++) r[(size_t)I.dst[i]] = (a >> (8 * e * i)) & mask(e); set = false; break; }
			case LD: {
				uint64_t ad = val(I.s[0]) + (uint64_t)I.off; uint8_t buf[32];
				access(ad, z * I.vec, buf, false, mem, I.space);
				for (unsigned i = 0; i < I.vec; i++) { uint64_t v = 0; memcpy(&v, buf + i * z, z); r[(size_t)I.dst[i]] = I.sgn ? (uint64_t)sx(v, z) : v; }
				set = false; break; }
			case ST: {
				uint64_t ad = val(I.s[0]) + (uint64_t)I.off; uint8_t buf[32];
				for (unsigned i = 0; i < I.vec; i++) { uint64_t v = val(I.s[1 + i]); memcpy(buf + i * z, &v, z); }
				access(ad, z * I.vec, buf, true, mem, I.space);
				set = false; break; }
			case ADD: o = val(I.s[0]) + val(I.s[1]); break;
			case SUB: o = val(I.s[0]) - val(I.s[1]); break;
			case MUL: case MAD: {
				a = val(I.s[0]) & M; b = val(I.s[1]) & M; unsigned __int128 p = I.sgn ? (unsigned __int128)((__int128)sx(a, z) * sx(b, z)) : (unsigned __int128)a * b;
				if (I.mode == 1) p >>= 8 * z;
				o = (uint64_t)p; if (I.op == MAD) o += val(I.s[2]);
				if (I.mode == 2) M = mask(2 * z);
				break; }
			case DIV: case REM: a = val(I.s[0]) & M; b = val(I.s[1]) & M;
				if (!b) o = ~0ull; else if (I.sgn) { int64_t x = sx(a, z), y = sx(b, z); if (y == -1) o = I.op == DIV ? (uint64_t)-x : 0; else o = (uint64_t)(I.op == DIV ? x / y : x % y); } else o = I.op == DIV ? a / b : a % b; break;
			case NEG: o = 0 - val(I.s[0]); break;
			case ABS: { int64_t x = sx(val(I.s[0]) & M, z); o = (uint64_t)(x < 0 ? -x : x); break; }
			case MIN: case MAX: { a = val(I.s[0]) & M; b = val(I.s[1]) & M; bool lt = I.sgn ? sx(a, z) < sx(b, z) : a < b; o = lt == (I.op == MIN) ? a : b; break; }
			case AND: o = val(I.s[0]) & val(I.s[1]); break;
			case OR: o = val(I.s[0]) | val(I.s[1]); break;
			case XOR: o = val(I.s[0]) ^ val(I.s[1]); break;
			case NOT: o = ~val(I.s[0]); break;
			case CNOT: o = (val(I.s[0]) & M) == 0; break;
			case SHL: a = val(I.s[0]) & M; b = val(I.s[1]) & 0xffffffffu; o = b >= 8 * z ? 0 : a << b; break;
			case SHR: a = val(I.s[0]) & M; b = val(I.s[1]) & 0xffffffffu; if (I.sgn) { int64_t x = sx(a, z); o = (uint64_t)(x >> (b > 63 ? 63 : b)); } else o = b >= 8 * z ? 0 : a >> b; break;
			case SETP: {
				a = val(I.s[0]) & M; b = val(I.s[1]) & M; bool lt = I.sgn ? sx(a, z) < sx(b, z) : a < b, eq = a == b, v = false;
				switch (I.mode) { case EQ: v = eq; break; case NE: v = !eq; break; case LT: v = lt; break; case LE: v = lt || eq; break; case GT: v = !lt && !eq; break; case GE: v = !lt; break; }
				bool nv = !v; if (I.boolop) { bool q = val(I.s[2]) & 1; v = I.boolop == 1 ? v && q : I.boolop == 2 ? v || q : v != q; nv = I.boolop == 1 ? nv && q : I.boolop == 2 ? nv || q : nv != q; }
				if (I.dst[1] >= 0) r[(size_t)I.dst[1]] = nv;
				o = v; M = ~0ull; break; }
			case SELP: o = val(I.s[2]) & 1 ? val(I.s[0]) : val(I.s[1]); break;
			case CVT: a = val(I.s[0]) & mask(I.ssize); o = I.ssgn ? (uint64_t)sx(a, I.ssize) : a; break;
			case BRA: next = I.target; set = false; break;
			case RET: done = true; set = false; break;
			case PRMT: { uint64_t x = (val(I.s[0]) & 0xffffffffu) | (val(I.s[1]) & 0xffffffffu) << 32, sel = val(I.s[2]); for (int i = 0; i < 4; i++) { unsigned k = (sel >> (4 * i)) & 15; uint8_t v = (uint8_t)(x >> (8 * (k & 7))); if (k & 8) v = v & 0x80 ? 0xff : 0; o |= (uint64_t)v << (8 * i); } break; }
			case BFE: { a = val(I.s[0]) & M; unsigned p = (unsigned)val(I.s[1]) & 0xff, l = (unsigned)val(I.s[2]) & 0xff, w = 8 * z; uint64_t v = p >= w ? 0 : a >> p; if (l < 64) v &= (1ull << l) - 1; if (I.sgn && l) { unsigned top = p + l - 1 < w - 1 ? p + l - 1 : w - 1; if (a >> top & 1) v |= l < 64 ? ~0ull << l : 0; } o = v; break; }
			case BFI: { a = val(I.s[0]) & M; b = val(I.s[1]) & M; unsigned p = (unsigned)val(I.s[2]) & 0xff, l = (unsigned)val(I.s[3]) & 0xff; o = b; for (unsigned i = 0; i < l && p + i < 8 * z; i++) { o &= ~(1ull << (p + i)); o |= (i < 64 ? (a >> i & 1) : 0) << (p + i); } break; }
			case CLZ: { a = val(I.s[0]) & M; unsigned k = 0; while (k < 8 * z && !(a >> (8 * z - 1 - k) & 1)) k++; o = k; break; }
			case POPC: o = (uint64_t)__builtin_popcountll(val(I.s[0]) & M); break;
			case BREV: a = val(I.s[0]); for (unsigned i = 0; i < 8 * z; i++) o |= (a >> i & 1) << (8 * z - 1 - i); break;
			case BFIND: { a = val(I.s[0]) & M; if (I.sgn && sx(a, z) < 0) a = ~a & M; o = a ? 63 - (uint64_t)__builtin_clzll(a) : 0xffffffffu; break; }
			case SHF: { a = val(I.s[0]) & 0xffffffffu; b = val(I.s[1]) & 0xffffffffu; c = val(I.s[2]) & 0xffffffffu; unsigned k = (I.mode & 2) ? (unsigned)c & 31 : (unsigned)(c < 32 ? c : 32); uint64_t x = b << 32 | a; o = I.mode & 1 ? (k ? x >> k : x) : (k ? (x << k) >> 32 : b); break; }
			case LOP3: o = lop((unsigned)val(I.s[3]), val(I.s[0]), val(I.s[1]), val(I.s[2])); break;
			case NOP: set = false; break;
			}
			if (set) r[(size_t)I.dst[0]] = o & M;
			pc = next;
		}
	}
	void access(uint64_t ad, unsigned n, uint8_t *buf, bool write, Mem &mem, Space sp) {
		if (ad >= PARAM_BASE && ad + n <= PARAM_BASE + 8 * params.size() && !write) { memcpy(buf, (const uint8_t *)params.data() + (ad - PARAM_BASE), n); return; }
		if (ad >= CONST_BASE && ad + n <= CONST_BASE + P->cdata.size() && !write) { memcpy(buf, P->cdata.data() + (ad - CONST_BASE), n); return; }
		if (ad >= LOCAL_BASE && ad + n <= LOCAL_BASE + local.size()) { if (write) memcpy(local.data() + (ad - LOCAL_BASE), buf, n); else memcpy(buf, local.data() + (ad - LOCAL_BASE), n); return; }
		if (write) mem.store(id, ad, n, buf, sp); else mem.load(id, ad, n, buf, sp);
	}
};
}
#endif
