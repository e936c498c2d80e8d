// Stand-in for the vendor's streams: unbounded queues. Reading an empty stream, which blocks for ever in hardware, is reported.
#ifndef FAKE_HLS_STREAM_H
#define FAKE_HLS_STREAM_H
#include <deque>
void hlsBad(const char *what, long long a, long long b, long long c);
[[noreturn]] void hlsStuck();
void hlsWritten(size_t n);
namespace hls {
template <class T, int D = 0> struct stream {
	std::deque<T> q;
	unsigned long long reads = 0, writes = 0;
	stream() {}
	explicit stream(const char *) {}
	stream(const stream &) = delete;
	T read() { if (q.empty()) hlsStuck(); T t = q.front(); q.pop_front(); reads++; return t; }
	void read(T &t) { t = read(); }
	bool read_nb(T &t) { if (q.empty()) return false; t = read(); return true; }
	void write(const T &t) { q.push_back(t); writes++; hlsWritten(q.size()); }
	bool write_nb(const T &t) { write(t); return true; }
	bool empty() const { return q.empty(); }
	bool full() const { return false; }
	size_t size() const { return q.size(); }
	stream &operator>>(T &t) { t = read(); return *this; }
	stream &operator<<(const T &t) { write(t); return *this; }
};
}
#endif
