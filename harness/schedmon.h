// Schedule perturbation and observation: wrappers (ld --wrap) around the synchronisation calls of the code under
// test inject delays and (allowed) spurious wakeups and record the order in which the threads got through them; a watchdog recognises
// deadlocks; an interposed allocator keeps a ledger. Only relaxed atomics are used, so as not to add
// happens-before edges that would hide races from ThreadSanitizer.
#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
#include "h.h"
#include <dlfcn.h>
#include <atomic>
#include <mutex>
#include <condition_variable>
#include <dirent.h>
#include <sys/syscall.h>
#include <time.h>
#include <unordered_set>

#define RLX std::memory_order_relaxed
namespace sched {
static std::atomic<unsigned> level{0};      // percentage of synchronisation calls that get a delay
static std::atomic<uint64_t> caseSeed{0};
static std::atomic<unsigned> ordinal{0};
static std::atomic<uint32_t> tracePos{0};
static uint8_t trace[1 << 16];
static std::atomic<uint64_t> nDelays{0}, nSpurious{0}, nSync{0};
static thread_local uint64_t tlSeed = 0, tlRng = 0;
static thread_local unsigned tlOrd = 0;
static thread_local bool tlOff = false;

static inline uint64_t rnd()
{
	uint64_t cs = caseSeed.load(RLX);
	if (tlSeed != cs) { tlSeed = cs; tlOrd = ordinal.fetch_add(1, RLX); tlRng = mix(cs, tlOrd + 1); }
	return Rng::sm(tlRng);
}
static inline void note(unsigned site)
{
	rnd();
	uint32_t i = tracePos.fetch_add(1, RLX);
	if (i < sizeof trace) __atomic_store_n(&trace[i], (uint8_t)(tlOrd << 4 | site), __ATOMIC_RELAXED);
}
static inline void delayBy(uint64_t r)
{
	nDelays.fetch_add(1, RLX);
	switch (r % 8) {
	case 0: case 1: case 2: sched_yield(); break;
	case 3: case 4: usleep((unsigned)(r >> 8) % 40); break;
	case 5: case 6: usleep((unsigned)(r >> 8) % 250); break;
	default: for (volatile unsigned k = 0; k < (r >> 8) % 3000; k++) ; break;
	}
}
static inline void perturb(unsigned site)
{
	unsigned lv = level.load(RLX);
	if (!lv || tlOff) return;
	note(site);
	uint64_t r = rnd();
	if (r % 100 < lv) delayBy(r >> 8);
}
static inline void begin(uint64_t seed, unsigned lv)
{
	caseSeed.store(seed | 1, RLX); ordinal.store(0, RLX); tracePos.store(0, RLX); level.store(lv, RLX);
}
// hash of the order of synchronisation operations seen since begin(); 0 if there were none
static inline uint64_t end()
{
	level.store(0, RLX);
	uint32_t n = tracePos.load(RLX);
	nSync.fetch_add(n, RLX);
	return n ? fnv(trace, std::min<size_t>(n, sizeof trace)) : 0;
}

// ---- deadlock watchdog
static std::atomic<const char *> armedWhat{nullptr};
static std::atomic<uint64_t> progress{0};
static std::atomic<pid_t> mainTid{0}, dogTid{0};
static pid_t runtimeTids[8]; static unsigned nRuntime = 0; // threads of the sanitizer runtime
static std::atomic<uint64_t> armSeq{0};

static uint64_t othersState(bool *allAsleep)
{
	// sum of CPU ticks and context switches of all threads but main and watchdog
	uint64_t sum = 0; *allAsleep = true;
	DIR *d = opendir("/proc/self/task");
	if (!d) { *allAsleep = false; return 0; }
	while (struct dirent *e = readdir(d)) {
		pid_t t = (pid_t)atoi(e->d_name);
		if (t <= 0 || t == mainTid.load(RLX) || t == dogTid.load(RLX)) continue;
		bool rt = false; for (unsigned i = 0; i < nRuntime; i++) rt |= runtimeTids[i] == t;
		if (rt) continue;
		char p[64], b[1024]; snprintf(p, sizeof p, "/proc/self/task/%d/stat", t);
		int fd = open(p, O_RDONLY | O_CLOEXEC); if (fd < 0) { sum += 7777; continue; }
		ssize_t n = read(fd, b, sizeof b - 1); close(fd);
		if (n <= 0) continue;
		b[n] = 0;
		char *q = strrchr(b, ')'); if (!q) continue;
		char st = q[2]; unsigned long u = 0, s = 0;
		sscanf(q + 4, "%*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &u, &s);
		if (st != 'S') *allAsleep = false;
		sum = sum * 31 + (uint64_t)t * 1000003 + u + s;
		snprintf(p, sizeof p, "/proc/self/task/%d/status", t);
		if ((fd = open(p, O_RDONLY | O_CLOEXEC)) >= 0) {
			char c[4096]; n = read(fd, c, sizeof c - 1); close(fd);
			if (n > 0) { c[n] = 0; if (char *v = strstr(c, "voluntary_ctxt_switches:")) sum += 31 * strtoull(v + 24, nullptr, 10); }
		}
	}
	closedir(d);
	return sum;
}
static void *watchdog(void *)
{
	tlOff = true;
	dogTid.store((pid_t)syscall(SYS_gettid), RLX);
	uint64_t lastSeq = 0, lastProg = 0, lastState = 0; unsigned quiet = 0;
	for (;;) {
		usleep(100000);
		const char *w = armedWhat.load(RLX);
		uint64_t sq = armSeq.load(RLX), pr = progress.load(RLX); bool asleep;
		if (!w) { quiet = 0; continue; }
		uint64_t st = othersState(&asleep);
		if (asleep && sq == lastSeq && pr == lastProg && st == lastState) quiet++; else quiet = 0;
		lastSeq = sq; lastProg = pr; lastState = st;
		if (quiet >= 80) { // 8 s without any thread doing anything
			char k[300]; snprintf(k, sizeof k, "deadlock %s", w);
			fail(k, "no thread of the process has run for 8 s (progress counter %llu)", (unsigned long long)pr);
			_exit(95);
		}
	}
	return nullptr;
}
static void startWatchdog()
{
	mainTid.store((pid_t)syscall(SYS_gettid), RLX);
	if (DIR *d = opendir("/proc/self/task")) {
		while (struct dirent *e = readdir(d)) { pid_t x = (pid_t)atoi(e->d_name); if (x > 0 && x != mainTid.load(RLX) && nRuntime < 8) runtimeTids[nRuntime++] = x; }
		closedir(d);
	}
	pthread_t t; if (pthread_create(&t, nullptr, watchdog, nullptr)) _exit(98);
	pthread_detach(t);
}
struct Arm {
	const char *prev;
	explicit Arm(const char *w) : prev(armedWhat.load(RLX)) { armSeq.fetch_add(1, RLX); armedWhat.store(w, RLX); }
	~Arm() { armedWhat.store(prev, RLX); armSeq.fetch_add(1, RLX); }
};
static inline void tick() { progress.fetch_add(1, RLX); }
// waits for a condition that library threads bring about
template<class F> static inline void await(const char *what, F cond)
{
	Arm a(what);
	for (unsigned k = 0; !cond(); k++) { if (k < 20) sched_yield(); else { struct timespec ts = {0, 30000}; nanosleep(&ts, nullptr); } }
}
static unsigned countTasks()
{
	unsigned n = 0; DIR *d = opendir("/proc/self/task"); if (!d) return 0;
	while (struct dirent *e = readdir(d)) if (e->d_name[0] != '.') n++;
	closedir(d);
	return n;
}
} // namespace sched

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { sched::perturb(0); int r = __real_pthread_mutex_lock(m); if (sched::level.load(RLX)) sched::note(1); return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); sched::perturb(2); return r; }
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable *, std::unique_lock<std::mutex> &);
void __real__ZNSt18condition_variable10notify_allEv(std::condition_variable *);
void __real__ZNSt18condition_variable10notify_oneEv(std::condition_variable *);
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable *c, std::unique_lock<std::mutex> &l)
{
	unsigned lv = sched::level.load(RLX);
	if (lv && !sched::tlOff) {
		sched::note(3);
		uint64_t r = sched::rnd();
		if (r % 100 < lv / 2) { // a spurious wakeup
			sched::nSpurious.fetch_add(1, RLX);
			l.unlock(); sched::delayBy(r >> 8); l.lock();
			return;
		}
	}
	__real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(c, l);
	if (lv) sched::note(4);
}
void __wrap__ZNSt18condition_variable10notify_allEv(std::condition_variable *c) { sched::perturb(5); __real__ZNSt18condition_variable10notify_allEv(c); sched::perturb(6); }
void __wrap__ZNSt18condition_variable10notify_oneEv(std::condition_variable *c) { sched::perturb(7); __real__ZNSt18condition_variable10notify_oneEv(c); sched::perturb(8); }
}

// ---- allocation ledger (plain build only: the sanitizers have their own)
#if !defined(H_ASAN) && !defined(H_TSAN) && !defined(H_MSAN)
#define LEDGER 1
extern "C" {
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
static std::atomic<long> liveAllocs{0}, liveBig{0};
static const size_t BIGSZ = 300000;
static std::atomic<void *> bigSet[4096];
static void bigAdd(void *p) { size_t h = ((uintptr_t)p >> 12) % 4096; for (size_t i = 0; i < 64; i++) { void *e = nullptr; if (bigSet[(h + i) % 4096].compare_exchange_strong(e, p, RLX)) { liveBig.fetch_add(1, RLX); return; } } }
static void bigDel(void *p) { size_t h = ((uintptr_t)p >> 12) % 4096; for (size_t i = 0; i < 64; i++) { void *e = p; if (bigSet[(h + i) % 4096].compare_exchange_strong(e, nullptr, RLX)) { liveBig.fetch_sub(1, RLX); return; } } }
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p) { liveAllocs.fetch_add(1, RLX); if (n > BIGSZ) bigAdd(p); } return p; }
void free(void *p) { if (p) { liveAllocs.fetch_sub(1, RLX); if (liveBig.load(RLX)) bigDel(p); } __libc_free(p); }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (p) { liveAllocs.fetch_add(1, RLX); if (a * b > BIGSZ) bigAdd(p); } return p; }
void *realloc(void *q, size_t n) { if (q) bigDel(q); void *p = __libc_realloc(q, n); if (!q && p) liveAllocs.fetch_add(1, RLX); if (q && n == 0 && !p) liveAllocs.fetch_sub(1, RLX); if (p && n > BIGSZ) bigAdd(p); return p; }
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); if (p) { liveAllocs.fetch_add(1, RLX); if (n > BIGSZ) bigAdd(p); } return p; }
static std::atomic<int> bigFail{0}; static std::atomic<uint64_t> bigFailed{0}; // the n-th large allocation from now on fails
void *aligned_alloc(size_t a, size_t n)
{
	if (a & (a - 1)) { errno = EINVAL; return nullptr; }
	if (n > BIGSZ && bigFail.load(RLX) > 0 && bigFail.fetch_sub(1, RLX) == 1) { bigFailed.fetch_add(1, RLX); errno = ENOMEM; return nullptr; }
	return memalign(a, n);
}
// the n-th thread that is created while armed is refused
static std::atomic<int> threadFail{0}; static std::atomic<uint64_t> threadsRefused{0};
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x)
{
	static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) = (decltype(real))dlsym(RTLD_NEXT, "pthread_create");
	if (threadFail.load(RLX) > 0 && threadFail.fetch_sub(1, RLX) == 1) { threadsRefused.fetch_add(1, RLX); return EAGAIN; }
	return real(t, a, f, x);
}
int posix_memalign(void **o, size_t a, size_t n) { void *p = memalign(a, n); if (!p) return ENOMEM; *o = p; return 0; }
}
#endif
#endif
