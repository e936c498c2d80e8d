// Stand-in for the vendor's arbitrary-precision integers: unsigned integers of W bits with bit ranges, as far as
// src/hls uses them (and a little further). Ranges outside the value are reported.
#ifndef FAKE_AP_INT_H
#define FAKE_AP_INT_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <type_traits>
void hlsBad(const char *what, long long a, long long b, long long c);
template <int W> struct ap_uint;
template <int W> struct ap_range {
	ap_uint<W> &v; int hi, lo;
	ap_range(ap_uint<W> &v_, long long h, long long l);
	ap_range(const ap_range &) = default;
	ap_range &operator=(const ap_range &o);
	template <int M> ap_range &operator=(const ap_uint<M> &o);
	template <int M> ap_range &operator=(const ap_range<M> &o);
	template <class T, std::enable_if_t<std::is_integral<T>::value || std::is_enum<T>::value, int> = 0> ap_range &operator=(T o);
	operator unsigned long long() const;
	unsigned long long to_uint64() const { return (unsigned long long)*this; }
	int length() const { return hi - lo + 1; }
	template <int M> ap_uint<M> get() const;
};
template <int W> struct ap_bit {
	ap_uint<W> &v; int i;
	operator bool() const;
	ap_bit &operator=(bool b);
	ap_bit &operator=(const ap_bit &o) { return *this = (bool)o; }
};
template <int W> struct ap_uint {
	static constexpr int NW = (W + 63) / 64;
	typedef std::conditional_t<(W < 64), long long, unsigned long long> Nat;
	uint64_t w[NW];
	ap_uint() {} // as the vendor's: not initialised
	template <class T, std::enable_if_t<std::is_integral<T>::value || std::is_enum<T>::value, int> = 0> ap_uint(T x) { set(x); }
	template <int M> ap_uint(const ap_uint<M> &o) { for (int i = 0; i < NW; i++) w[i] = i < ap_uint<M>::NW ? o.w[i] : 0; trim(); }
	ap_uint(const ap_uint &) = default;
	template <int M> ap_uint(const ap_range<M> &o) { *this = o.template get<W>(); }
	template <int M> ap_uint(const ap_bit<M> &o) { set((bool)o); }
	ap_uint &operator=(const ap_uint &) = default;
	template <class T> void set(T x) { w[0] = (uint64_t)(long long)x; uint64_t s = std::is_signed<T>::value && (long long)x < 0 ? ~0ull : 0; for (int i = 1; i < NW; i++) w[i] = s; trim(); }
	void trim() { if (W % 64) w[NW - 1] &= (~0ull >> (64 - W % 64)); }
	bool bit(int i) const { return w[i / 64] >> (i % 64) & 1; }
	void setBit(int i, bool b) { uint64_t m = 1ull << (i % 64); if (b) w[i / 64] |= m; else w[i / 64] &= ~m; }
	operator Nat() const { return (Nat)w[0]; }
	ap_range<W> operator()(long long hi, long long lo) { return ap_range<W>(*this, hi, lo); }
	ap_range<W> operator()(long long hi, long long lo) const { return ap_range<W>(const_cast<ap_uint &>(*this), hi, lo); }
	ap_range<W> range(long long hi, long long lo) { return (*this)(hi, lo); }
	ap_range<W> range(long long hi, long long lo) const { return (*this)(hi, lo); }
	ap_range<W> range() { return (*this)(W - 1, 0); }
	ap_bit<W> operator[](long long i) { if (i < 0 || i >= W) { hlsBad("bit outside the value", i, i, W); i = 0; } return ap_bit<W>{*this, (int)i}; }
	ap_bit<W> operator[](long long i) const { return const_cast<ap_uint &>(*this)[i]; }
	ap_uint shl(unsigned long long n) const { ap_uint r(0); if (n < (unsigned long long)W) for (int i = (int)n; i < W; i++) r.setBit(i, bit(i - (int)n)); return r; }
	ap_uint shr(unsigned long long n) const { ap_uint r(0); if (n < (unsigned long long)W) for (int i = 0; i + (int)n < W; i++) r.setBit(i, bit(i + (int)n)); return r; }
	template <class T> ap_uint operator<<(T n) const { long long k = (long long)n; return k < 0 ? shr((unsigned long long)-k) : shl((unsigned long long)k); }
	template <class T> ap_uint operator>>(T n) const { long long k = (long long)n; return k < 0 ? shl((unsigned long long)-k) : shr((unsigned long long)k); }
	template <class T> ap_uint &operator<<=(T n) { return *this = *this << n; }
	template <class T> ap_uint &operator>>=(T n) { return *this = *this >> n; }
	ap_uint operator~() const { ap_uint r; for (int i = 0; i < NW; i++) r.w[i] = ~w[i]; r.trim(); return r; }
	template <class T> ap_uint &operator|=(const T &o) { ap_uint x(o); for (int i = 0; i < NW; i++) w[i] |= x.w[i]; return *this; }
	template <class T> ap_uint &operator&=(const T &o) { ap_uint x(o); for (int i = 0; i < NW; i++) w[i] &= x.w[i]; return *this; }
	template <class T> ap_uint &operator^=(const T &o) { ap_uint x(o); for (int i = 0; i < NW; i++) w[i] ^= x.w[i]; return *this; }
	template <class T> ap_uint &operator+=(const T &o) { ap_uint x(o); unsigned __int128 c = 0; for (int i = 0; i < NW; i++) { c += (unsigned __int128)w[i] + x.w[i]; w[i] = (uint64_t)c; c >>= 64; } trim(); return *this; }
	template <class T> ap_uint &operator-=(const T &o) { ap_uint x(o); x = ~x; for (int i = 0; i < NW; i++) { unsigned __int128 c = (unsigned __int128)x.w[i] + 1; x.w[i] = (uint64_t)c; if (c >> 64 == 0) break; } x.trim(); return *this += x; }
	ap_uint &operator++() { return *this += 1; }
	ap_uint &operator--() { return *this -= 1; }
	ap_uint operator++(int) { ap_uint o = *this; *this += 1; return o; }
	ap_uint operator--(int) { ap_uint o = *this; *this -= 1; return o; }
	unsigned long long to_uint64() const { return w[0]; }
	long long to_int64() const { return (long long)w[0]; }
	unsigned to_uint() const { return (unsigned)w[0]; }
	int to_int() const { return (int)w[0]; }
	unsigned char to_uchar() const { return (unsigned char)w[0]; }
	bool to_bool() const { for (int i = 0; i < NW; i++) if (w[i]) return true; return false; }
	int length() const { return W; }
};
template <int W> struct ap_int : ap_uint<W> {}; // not used
// operators on values wider than the natural integers
#define FAKE_WIDE std::enable_if_t<(W > 64) || (M > 64), int> = 0
template <int W, int M, FAKE_WIDE> static inline bool operator==(const ap_uint<W> &a, const ap_uint<M> &b) { ap_uint<(W > M ? W : M)> x(a), y(b); return !memcmp(x.w, y.w, sizeof x.w); }
template <int W, int M, FAKE_WIDE> static inline bool operator!=(const ap_uint<W> &a, const ap_uint<M> &b) { return !(a == b); }
template <int W, int M, FAKE_WIDE> static inline auto operator|(const ap_uint<W> &a, const ap_uint<M> &b) { ap_uint<(W > M ? W : M)> x(a); return x |= b; }
template <int W, int M, FAKE_WIDE> static inline auto operator&(const ap_uint<W> &a, const ap_uint<M> &b) { ap_uint<(W > M ? W : M)> x(a); return x &= b; }
template <int W, int M, FAKE_WIDE> static inline auto operator^(const ap_uint<W> &a, const ap_uint<M> &b) { ap_uint<(W > M ? W : M)> x(a); return x ^= b; }
// concatenation
template <int W, int M> static inline ap_uint<W + M> operator,(const ap_uint<W> &a, const ap_uint<M> &b) { ap_uint<W + M> r(a); r <<= M; r |= b; return r; }

template <int W> ap_range<W>::ap_range(ap_uint<W> &v_, long long h, long long l) : v(v_), hi((int)h), lo((int)l) { if (h < l || l < 0 || h >= W) { hlsBad("bit range outside the value", h, l, W); hi = lo = 0; } }
template <int W> template <int M> ap_uint<M> ap_range<W>::get() const { ap_uint<M> r(0); for (int i = lo; i <= hi && i - lo < M; i++) r.setBit(i - lo, v.bit(i)); return r; }
template <int W> ap_range<W>::operator unsigned long long() const { return get<64>().w[0]; }
template <int W> ap_range<W> &ap_range<W>::operator=(const ap_range &o) { return *this = o.template get<W>(); }
template <int W> template <int M> ap_range<W> &ap_range<W>::operator=(const ap_range<M> &o) { return *this = o.template get<M>(); }
template <int W> template <int M> ap_range<W> &ap_range<W>::operator=(const ap_uint<M> &o) { for (int i = lo; i <= hi; i++) v.setBit(i, i - lo < M && o.bit(i - lo)); return *this; }
template <int W> template <class T, std::enable_if_t<std::is_integral<T>::value || std::is_enum<T>::value, int>> ap_range<W> &ap_range<W>::operator=(T o) { ap_uint<W> t(o); return *this = t; }
template <int W> ap_bit<W>::operator bool() const { return v.bit(i); }
template <int W> ap_bit<W> &ap_bit<W>::operator=(bool b) { v.setBit(i, b); return *this; }
#endif
