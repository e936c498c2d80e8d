// H01, H02: the cryptodev backend against a stand-in device. The backend's system calls (and its allocations and
// thread-specific data calls) are interposed with the linker's --wrap; /dev/crypto is a table of sessions per open
// descriptor (a real descriptor on /dev/null), which judges every event when it happens. Shared state uses relaxed
// atomics only, so that under ThreadSanitizer the device adds no synchronisation to the backend.
#include "main.h"
#include <crypto/cryptodev.h>
#include <lib842/hw.h>
#include <lib842/common.h>
#include <threads.h>
#include <sys/wait.h>
#include <sys/socket.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <atomic>

enum Fault { F_NONE, F_OPEN, F_FCNTL, F_GSESSION, F_INFO, F_MALLOC, F_TSSSET, F_CRYPT, F_FSESSION, F_CLOSE };
static const char *const faultName[] = { "none", "open", "fcntl", "get-session", "session-info", "malloc", "tss_set", "crypt", "free-session", "close" };

struct Req { crypt_op op; std::vector<__u32> clens, cdlens; };
struct T {                       // one thread of the workload
	int id = 0;
	Rng r{0};
	int fault = F_NONE, ferr = 0; bool fired = false;
	int fd = -1; bool ses = false; __u32 sesid = 0;
	unsigned opens = 0, sessions = 0, infos = 0, frees = 0, closes = 0, crypts = 0; // over the thread's life
	unsigned wrongDesc = 0;
	bool inApi = false, ended = false;
	// the request of the current call
	unsigned callReqs = 0; Req req; std::vector<int> devRets; std::vector<__u32> devLens; bool devOk = false;
	void *allocs[16] = {};       // memory the library holds for this thread
	std::vector<const char *> st; std::vector<uint64_t> hs; std::vector<char *> smp; // reported after the thread ended
	uint8_t *wdst = nullptr; size_t wlen = 0; uint8_t wbyte = 0;
};
static thread_local T *me;
static std::atomic<T *> fdOwner[4096];
static std::atomic<uint32_t> sesCounter;
static std::atomic<bool> devPresent{true};
static std::atomic<int> tssFail{0}, tssMade{0}, tssBadUse{0};
static unsigned accessSeen;
static uint16_t ALIGNMASK;       // of this case's device
static FILE *noisyErr;

static bool take(T *t, int f) { if (t && t->fault == f && !t->fired) { t->fired = true; return true; } return false; }

extern "C" {
int __real_open(const char *, int, ...);
int __real_close(int);
int __real_access(const char *, int);
int __real_fcntl(int, int, ...);
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void __real_free(void *);
int __real_tss_create(tss_t *, tss_dtor_t);
int __real_tss_set(tss_t, void *);
void *__real_tss_get(tss_t);
int __real_pthread_key_create(pthread_key_t *, void (*)(void *));
int __real_pthread_setspecific(pthread_key_t, const void *);
int __real_ioctl(int, unsigned long, ...);

static int devOpen(int flags)
{
	T *t = me;
	if (!t) { errno = ENOENT; return -1; }
	if (take(t, F_OPEN)) { errno = t->ferr; return -1; }
	if ((flags & O_ACCMODE) != O_RDWR) fail("open-mode", "device opened with flags %#x", flags);
	int fd = __real_open("/dev/null", O_RDWR | O_CLOEXEC);
	if (fd < 0 || fd >= 4096) { inconclusive("open of /dev/null gave %d", fd); _exit(98); }
	if (t->fd != -1) fail("second-open", "thread %d opened a second session while descriptor %d is open (opens so far %u)", t->id, t->fd, t->opens);
	t->fd = fd; t->ses = false; t->opens++;
	fdOwner[fd].store(t, std::memory_order_relaxed);
	return fd;
}
static bool isDev(const char *p) { return strcmp(p, "/dev/crypto") == 0; }
int __wrap_open(const char *p, int fl, ...)
{
	va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
	return isDev(p) ? devOpen(fl) : __real_open(p, fl, m);
}
int __wrap_open64(const char *p, int fl, ...)
{
	va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
	return isDev(p) ? devOpen(fl) : __real_open(p, fl, m);
}
int __wrap_openat(int dfd, const char *p, int fl, ...)
{
	va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
	return isDev(p) ? devOpen(fl) : (int)openat64(dfd, p, fl, m);
}
int __wrap_fcntl(int fd, int cmd, ...)
{
	va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
	T *t = me;
	if (t && fd >= 0 && fd < 4096 && fdOwner[fd].load(std::memory_order_relaxed)) {
		if (take(t, F_FCNTL)) { errno = t->ferr; return -1; }
	}
	return __real_fcntl(fd, cmd, a);
}
int __wrap_fcntl64(int fd, int cmd, ...)
{
	va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
	return __wrap_fcntl(fd, cmd, a);
}
int __wrap_access(const char *p, int m)
{
	if (!isDev(p)) return __real_access(p, m);
	accessSeen++;
	if (devPresent.load(std::memory_order_relaxed)) return 0;
	errno = ENOENT; return -1;
}
int __wrap_close(int fd)
{
	T *t = me;
	T *o = fd >= 0 && fd < 4096 ? fdOwner[fd].load(std::memory_order_relaxed) : nullptr;
	if (!o) {
		if (t && (t->inApi || t->ended)) fail("close-foreign", "thread %d: close(%d) of a descriptor the backend does not hold open", t->id, fd);
		return __real_close(fd);
	}
	if (o != t) { fail("close-other", "descriptor %d of thread %d closed by thread %d", fd, o->id, t ? t->id : -1); return __real_close(fd); }
	// a session the device granted is to be given back with CIOCFSESSION, not
	// left behind for the kernel to find (unless that request was made to fail)
	if (t->ses && !(t->fault == F_FSESSION && t->fired))
		fail("close-live-session", "thread %d closes its descriptor while its session %#x is not released", t->id, t->sesid);
	t->closes++; if (t->ses) { t->ses = false; t->frees++; }
	t->fd = -1;
	fdOwner[fd].store(nullptr, std::memory_order_relaxed);
	__real_close(fd);
	if (take(t, F_CLOSE)) { errno = t->ferr; return -1; }
	return 0;
}
int __wrap_ioctl(int fd, unsigned long rq, ...)
{
	va_list ap; va_start(ap, rq); void *arg = va_arg(ap, void *); va_end(ap);
	rq = (unsigned)rq;
	bool ours = rq == (unsigned)CIOCGSESSION || rq == (unsigned)CIOCFSESSION || rq == (unsigned)CIOCCRYPT;
#ifdef CIOCGSESSINFO
	ours |= rq == (unsigned)CIOCGSESSINFO;
#endif
	if (!ours) return __real_ioctl(fd, rq, arg);
	T *t = me;
	T *o = fd >= 0 && fd < 4096 ? fdOwner[fd].load(std::memory_order_relaxed) : nullptr;
	if (!o) { fail("ioctl-closed", "thread %d: request %#lx on descriptor %d, which is not an open device", t ? t->id : -1, rq, fd); errno = EBADF; return -1; }
	if (o != t) { fail("ioctl-other", "request %#lx on the descriptor of thread %d made by thread %d", rq, o->id, t ? t->id : -1); errno = EBADF; return -1; }
	if (rq == (unsigned)CIOCGSESSION) {
		session_op *s = (session_op *)arg;
		if (take(t, F_GSESSION)) { errno = t->ferr; return -1; }
		if (s->compr != CRYPTO_842 || s->cipher || s->mac || s->keylen || s->mackeylen)
			fail("session-fields", "session requested with compr=%u cipher=%u mac=%u keylen=%u mackeylen=%u", s->compr, s->cipher, s->mac, s->keylen, s->mackeylen);
		if (t->ses) fail("second-session", "thread %d got a second session on the same descriptor", t->id);
		uint32_t c = sesCounter.fetch_add(1, std::memory_order_relaxed);
		t->sesid = c * 0x9E3779B1u;  // distinct, any 32-bit value (0 first)
		t->ses = true; t->sessions++;
		s->ses = t->sesid;
		return 0;
	}
	if (rq == (unsigned)CIOCFSESSION) {
		__u32 s = *(__u32 *)arg;
		if (!t->ses || s != t->sesid) { fail("free-session", "thread %d frees session %#x, its session is %#x (%s)", t->id, s, t->sesid, t->ses ? "live" : "already released"); errno = EINVAL; return -1; }
		if (take(t, F_FSESSION)) { errno = t->ferr; return -1; }
		t->ses = false; t->frees++;
		return 0;
	}
#ifdef CIOCGSESSINFO
	if (rq == (unsigned)CIOCGSESSINFO) {
		session_info_op *s = (session_info_op *)arg;
		if (take(t, F_INFO)) { errno = t->ferr; return -1; }
		if (!t->ses || s->ses != t->sesid) { fail("info-session", "information requested for session %#x, the thread's is %#x", s->ses, t->sesid); errno = EINVAL; return -1; }
		t->infos++;
		s->alignmask = ALIGNMASK; s->flags = SIOP_FLAG_KERNEL_DRIVER_ONLY;
		strcpy(s->compr_info.cra_name, "842"); strcpy(s->compr_info.cra_driver_name, "842-stand-in");
		return 0;
	}
#endif
	crypt_op *c = (crypt_op *)arg;
	t->crypts++; t->callReqs++;
	t->req.op = *c;
	if (!t->ses || c->ses != t->sesid) fail("request-session", "request names session %#x, the thread's own is %#x", c->ses, t->sesid);
	size_t n = c->numchunks <= CRYPTODEV_COMP_MAX_CHUNKS ? c->numchunks : CRYPTODEV_COMP_MAX_CHUNKS;
	if (c->numchunks > CRYPTODEV_COMP_MAX_CHUNKS) fail("request-numchunks", "request has %u chunks", c->numchunks);
	t->req.clens.assign(c->chunklens, c->chunklens + n);
	t->req.cdlens.assign(c->chunkdlens, c->chunkdlens + n);
	t->devRets.assign(n, 0); t->devLens = t->req.cdlens;
	bool failing = take(t, F_CRYPT);
	size_t upto = failing ? t->r.below(n + 1) : n;   // a failing request may have processed some chunks
	for (size_t i = 0; i < upto; i++) {
		if (t->req.clens[i] == UINT32_MAX) continue;
		static const int codes[] = { 0, 0, 0, -ENOSPC, -EINVAL, -ENOMEM, -EIO, 1 };
		int ret = codes[t->r.below(8)];
		__u32 len = t->r.chance(50) ? (__u32)t->r.below((uint64_t)t->req.cdlens[i] + 1) : (__u32)t->r.next();
		t->devRets[i] = ret; t->devLens[i] = len;
		c->chunkrets[i] = ret;
		c->chunkdlens[i] = len;
	}
	if (t->wdst && c->dst == t->wdst) memset(t->wdst, t->wbyte, t->wlen);
	if (failing) { errno = t->ferr; return -1; }
	t->devOk = true;
	return 0;
}
void *__wrap_malloc(size_t n)
{
	T *t = me;
	if (!t || !t->inApi) return __real_malloc(n);
	if (take(t, F_MALLOC)) { errno = ENOMEM; return nullptr; }
	void *p = __real_malloc(n);
	static const uint8_t fills[] = { 0xFF, 0x00, 0x01, 0x7F, 0xA5 };
#ifndef H_MSAN
	if (p) memset(p, fills[t->r.below(5)], n);
#endif
	for (auto &a : t->allocs) if (!a) { a = p; break; }
	return p;
}
void *__wrap_calloc(size_t a, size_t b)
{
	T *t = me;
	if (!t || !t->inApi) return __real_calloc(a, b);
	if (take(t, F_MALLOC)) { errno = ENOMEM; return nullptr; }
	void *p = __real_calloc(a, b);
	for (auto &x : t->allocs) if (!x) { x = p; break; }
	return p;
}
void __wrap_free(void *p)
{
	T *t = me;
	if (t && p) for (auto &a : t->allocs) if (a == p) { a = nullptr; break; }
	__real_free(p);
}
int __wrap_tss_create(tss_t *k, tss_dtor_t d)
{
	if (tssFail.load(std::memory_order_relaxed)) return thrd_error;
	int r = __real_tss_create(k, d);
	if (r == thrd_success) tssMade.store(1, std::memory_order_relaxed);
	return r;
}
#if !defined(H_TSAN) && !defined(H_ASAN)
int __wrap_pthread_key_create(pthread_key_t *k, void (*d)(void *))
{
	if (tssFail.load(std::memory_order_relaxed)) return EAGAIN;
	int r = __real_pthread_key_create(k, d);
	if (!r) tssMade.store(1, std::memory_order_relaxed);
	return r;
}
#endif
void __wrap_call_once(once_flag *f, void (*fn)(void)) { pthread_once((pthread_once_t *)f, fn); } // ThreadSanitizer does not know call_once
int __wrap_tss_set(tss_t k, void *v)
{
	if (!tssMade.load(std::memory_order_relaxed)) tssBadUse.store(1, std::memory_order_relaxed);
	if (take(me, F_TSSSET)) return thrd_error;
	return __real_tss_set(k, v);
}
#if !defined(H_TSAN) && !defined(H_ASAN)
int __wrap_pthread_setspecific(pthread_key_t k, const void *v)
{
	if (!tssMade.load(std::memory_order_relaxed)) tssBadUse.store(1, std::memory_order_relaxed);
	if (take(me, F_TSSSET)) return ENOMEM;
	return __real_pthread_setspecific(k, v);
}
#endif
void *__wrap_tss_get(tss_t k)
{
	if (!tssMade.load(std::memory_order_relaxed)) { tssBadUse.store(1, std::memory_order_relaxed); return nullptr; }
	return __real_tss_get(k);
}
}

// ---------------------------------------------------------------- one call
static unsigned heldAllocs(const T *t) { unsigned n = 0; for (auto a : t->allocs) n += a != nullptr; return n; }
static bool H1, H2;
static int errs[] = { EIO, EBUSY, ENOMEM, EINVAL, EACCES, ENODEV, EMFILE, EAGAIN, ENOSPC, EFAULT, EPERM, ENOTTY };

struct Api { lib842_compress_func c, d; lib842_compress_chunked_func cc, dc; };
static Api direct = { hw842_compress, hw842_decompress, hw842_compress_chunked, hw842_decompress_chunked };

static size_t hugeVal(Rng &r, uint64_t centre) { // values around a 32-bit limit
	static const int64_t d[] = { -2, -1, 0, 1, 2 };
	if (r.chance(20)) return (size_t)(centre + (1ull << (33 + r.below(20))));
	if (r.chance(10)) return (size_t)((uint64_t)1 << 32);
	if (r.chance(10)) return (size_t)(SIZE_MAX - 1 - r.below(3));
	return (size_t)(centre + (uint64_t)d[r.below(5)]);
}

static void oneCall(T *t, const Api &api)
{
	Rng &r = t->r;
	bool first = t->fd == -1;
	t->callReqs = 0; t->devOk = false; t->fired = false; t->fault = F_NONE; t->wdst = nullptr;
	if (r.chance(H2 ? 45 : 15)) {
		static const int initF[] = { F_OPEN, F_FCNTL, F_GSESSION, F_INFO, F_MALLOC, F_TSSSET, F_CRYPT };
		t->fault = first ? initF[r.below(7)] : F_CRYPT;
		t->ferr = errs[r.below(sizeof errs / sizeof *errs)];
		if (r.chance(30)) { // also when already open: must have no effect
			t->fault = initF[r.below(7)];
		}
	}
	bool single = r.chance(40), comp = r.chance(50);
	unsigned mis = ALIGNMASK + 1u;
	bool real = r.chance(60); // real memory, or addresses nobody may touch
	size_t n = single ? 1 : (r.chance(85) ? 1 + r.below(8) : 1 + r.below(CRYPTODEV_COMP_MAX_CHUNKS + 3));
	if (!single && r.chance(8)) n = CRYPTODEV_COMP_MAX_CHUNKS - 1 + r.below(3);
	if (!single && r.chance(3)) n = hugeVal(r, 1ull << 32);
	size_t is, os;
	bool huge = !real && r.chance(60);
	auto stride = [&](void) -> size_t {
		if (!huge) return r.below(300);
		uint64_t q = UINT32_MAX / (n ? n : 1);
		if (r.chance(15)) return (size_t)r.range(1, 7) << r.range(20, 40);
		if (r.chance(20)) return (size_t)(r.next() >> r.range(24, 44));
		return r.chance(40) ? r.below(q + 1) : hugeVal(r, q);
	};
	is = stride(); os = stride();
	size_t nn = n > 64 ? 64 : n; // entries actually set up; more chunks than that are to be refused unread
	std::vector<size_t> il(nn), ol(nn), ol0; std::vector<int> rets(nn);
	for (size_t i = 0; i < nn; i++) {
		il[i] = r.below(is > 0 && is < 4096 ? is + 1 : 4096);
		ol[i] = r.below(os > 0 && os < 4096 ? os + 1 : 4096);
		if (r.chance(10)) il[i] = UINT32_MAX - 1 - r.below(2);
		if (r.chance(10)) ol[i] = UINT32_MAX - r.below(2);
		if (!single && r.chance(15)) il[i] = SIZE_MAX;
		if (r.chance(5)) ol[i] = 0;
		rets[i] = (int)r.next();
	}
	if (r.chance(15)) { size_t i = r.below(nn); il[i] = hugeVal(r, UINT32_MAX); }
	if (r.chance(12)) { size_t i = r.below(nn); if (il[i] != SIZE_MAX) ol[i] = hugeVal(r, UINT32_MAX); }
	if (single) { is = il[0]; os = ol[0]; }
	if (single && real) { if (is > 100000) is = il[0] = 17; if (os > 100000) os = ol[0] = 99; }
	// pointers
	size_t inB = 0, outB = 0; GuardBuf gi, go; const uint8_t *in; uint8_t *out;
	uintptr_t offI = 0, offO = 0;
	if (ALIGNMASK && r.chance(25)) offI = r.chance(50) ? 1ull << r.below(16) : r.below(mis);
	if (ALIGNMASK && r.chance(25)) offO = r.chance(50) ? 1ull << r.below(16) : r.below(mis);
	std::vector<uint8_t> before;
	if (real && ALIGNMASK <= 7 && n <= 64) {
		inB = is * n; outB = os * n;
		gi.init(inB ? inB : 1, (unsigned)(offI & 7), r.chance(50));
		go.init(outB ? outB : 1, (unsigned)(offO & 7), r.chance(50));
		for (size_t i = 0; i < inB; i++) gi.p[i] = (uint8_t)r.next();
		before.assign(gi.p, gi.p + inB);
		in = gi.p; out = go.p;
		t->wdst = out; t->wlen = outB; t->wbyte = (uint8_t)r.next();
		memset(go.p, (uint8_t)~t->wbyte, go.size);
	} else {
		real = false;
		// addresses in the non-canonical hole: any access faults
		in = (const uint8_t *)(0x800000000000ull + ((r.next() & 0xFFFFFFull) << 20) + offI);
		out = (uint8_t *)(0x900000000000ull + ((r.next() & 0xFFFFFFull) << 20) + offO);
	}
	// what must happen
	const char *refuse = nullptr;
	if (((uintptr_t)in & ALIGNMASK) || ((uintptr_t)out & ALIGNMASK)) refuse = "misaligned buffer";
	if (n > CRYPTODEV_COMP_MAX_CHUNKS) refuse = "too many chunks";
	if ((unsigned __int128)is * n > UINT32_MAX) refuse = "input stride too big";
	if ((unsigned __int128)os * n > UINT32_MAX) refuse = "output stride too big";
	for (size_t i = 0; i < nn && n <= CRYPTODEV_COMP_MAX_CHUNKS; i++) {
		if (il[i] != SIZE_MAX && il[i] >= UINT32_MAX) refuse = "input length too big";
		if (ol[i] > UINT32_MAX) refuse = "capacity too big";
	}
	std::vector<size_t> il0 = il; ol0 = ol;
	int ret;
	unsigned opens0 = t->opens;
	t->inApi = true;
	if (single) ret = (comp ? api.c : api.d)(in, il[0], out, &ol[0]);
	else ret = (comp ? api.cc : api.dc)(n, rets.data(), in, is, il.data(), out, os, ol.data());
	t->inApi = false;
	char what[300];
	snprintf(what, sizeof what, "%s%s n=%zu istride=%zu ostride=%zu ilen0=%zu olen0=%zu in=%p out=%p mask=%#x fault=%s%s errno=%d -> %d, requests=%u%s%s",
		 comp ? "compress" : "decompress", single ? "" : "_chunked", n, is, os, il0[0], ol0[0], (const void *)in, (void *)out, ALIGNMASK, faultName[t->fault], t->fired ? "(fired)" : "", t->ferr, ret, t->callReqs, refuse ? ", to refuse: " : "", refuse ? refuse : "");
	uint64_t h = mix(mix(n, is), mix(os, (uint64_t)t->fault * 2 + comp));
	t->hs.push_back(mix(h, mix(il0[0], mix(ol0[0], (uintptr_t)in & 0xFFFF))));
	t->st.push_back("calls");
	bool initFault = t->fired && t->fault != F_CRYPT;
	if (H2) {
		if (initFault) {
			t->st.push_back("session-open failures injected"); t->st.push_back(faultName[t->fault]);
			int want = t->fault == F_MALLOC || t->fault == F_TSSSET ? -ENOMEM : -t->ferr;
			bool okv = ret == want || (refuse && ret == -EINVAL);
			if (!okv) fail("init-errno", "%s: expected %d", what, want);
			if (first && t->fd != -1) fail("init-leak-fd", "%s: the descriptor is still open after the failure", what);
			if (first && t->ses) fail("init-leak-session", "%s: the session was not released after the failure", what);
			if (first && heldAllocs(t)) fail("init-leak-memory", "%s: %u allocations are still held after the failure", what, heldAllocs(t));
			if (t->callReqs) fail("init-request", "%s: a request was made although the session could not be opened", what);
			if (!first && t->opens != opens0) fail("reinit", "%s: a later call opened a session again", what);
		} else {
			if (first && t->fd == -1 && !refuse) fail("no-session", "%s: no session is open after the call", what);
			if (t->fd != -1 && !t->ses) fail("session-gone", "%s: the session was released", what);
			if (!refuse && !t->fired && t->callReqs == 0) fail("later-call", "%s: a call without injected failure made no request (opens %u)", what, t->opens);
		}
	}
	if (H1 && !initFault) {
		if (refuse) {
			t->st.push_back("refusals"); t->st.push_back(refuse);
			if (ret != -EINVAL) fail("refuse-ret", "%s: expected -EINVAL", what);
			if (t->callReqs) fail("refuse-request", "%s: a request was made", what);
		} else {
			const crypt_op &c = t->req.op;
			if (t->callReqs != 1) fail("request-count", "%s: expected exactly one request", what);
			else {
				t->st.push_back("requests checked");
				if (c.op != (comp ? COP_ENCRYPT : COP_DECRYPT)) fail("request-op", "%s: operation %u", what, c.op);
				if (c.flags != 0) fail("request-flags", "%s: flags %#x", what, c.flags);
				if (c.src != in || c.dst != out) fail("request-buffers", "%s: src %p dst %p", what, (void *)c.src, (void *)c.dst);
				if (c.len != is * n || c.dlen != os * n) fail("request-strides", "%s: len %u dlen %u", what, c.len, c.dlen);
				if (c.numchunks != n) fail("request-numchunks", "%s: numchunks %u", what, c.numchunks);
				for (size_t i = 0; i < n && i < t->req.clens.size(); i++) {
					__u32 wl = il0[i] == SIZE_MAX ? UINT32_MAX : (__u32)il0[i];
					if (il0[i] == SIZE_MAX) t->st.push_back("skipped chunks");
					if (t->req.clens[i] != wl) { fail("request-ilen", "%s: chunk %zu: length %zu passed as %u", what, i, il0[i], t->req.clens[i]); break; }
					if (t->req.cdlens[i] != ol0[i]) { fail("request-olen", "%s: chunk %zu: capacity %zu passed as %u", what, i, ol0[i], t->req.cdlens[i]); break; }
				}
				if (t->fired) {
					t->st.push_back("failed requests");
					if (ret != -t->ferr) fail("request-errno", "%s: expected %d", what, -t->ferr);
				} else if (single) {
					if (ret != t->devRets[0]) fail("result", "%s: the device's result was %d", what, t->devRets[0]);
					if (ol[0] != t->devLens[0]) fail("result-len", "%s: the device's length was %u, returned %zu", what, t->devLens[0], ol[0]);
				} else {
					if (ret != 0) fail("result", "%s: expected 0", what);
					for (size_t i = 0; i < n; i++) {
						if (il0[i] != SIZE_MAX && rets[i] != t->devRets[i]) { fail("chunk-result", "%s: chunk %zu: result %d, the device's was %d", what, i, rets[i], t->devRets[i]); break; }
						if (ol[i] != t->devLens[i]) { fail("chunk-len", "%s: chunk %zu: length %zu, the device's was %u", what, i, ol[i], t->devLens[i]); break; }
					}
				}
			}
		}
		if (il != il0) fail("ilens-changed", "%s: the array of input lengths was changed", what);
		if (real) {
			if (!gi.ok() || !go.ok()) fail("canary", "%s: memory around the buffers was changed", what);
			if (inB && memcmp(gi.p, before.data(), inB)) fail("input-changed", "%s: the input was changed", what);
			uint8_t want = t->callReqs ? t->wbyte : (uint8_t)~t->wbyte;
			for (size_t i = 0; i < outB; i++) if (go.p[i] != want) { fail("output", "%s: output byte %zu is not what the device wrote", what, i); break; }
		}
	}
	if (t->smp.empty()) t->smp.push_back(strdup(what));
	t->fault = F_NONE;
}

struct Arg { T *t; unsigned calls; Api api; bool viaTable; std::atomic<int> *go; const lib842_implementation *impl; bool checkAlign; };
static void *threadMain(void *a)
{
	Arg *x = (Arg *)a; T *t = x->t;
	me = t;
	while (x->go && x->go->load(std::memory_order_relaxed) == 0) {}
	if (x->viaTable) {
		if (t->r.chance(30)) { t->fault = F_OPEN; t->ferr = ENOENT; t->fired = false; }
		t->inApi = true;
		const lib842_implementation *im = get_hw842_implementation();
		t->inApi = false;
		t->fault = F_NONE;
		x->impl = im;
		if (im->required_alignment == 0 || im->required_alignment % (ALIGNMASK + 1u)) fail("required-alignment", "the implementation table requires alignment %zu, the device %u", im->required_alignment, ALIGNMASK + 1u);
		if (im->preferred_alignment == 0) fail("preferred-alignment", "preferred alignment is 0");
		x->api = { im->compress, im->decompress, im->compress_chunked, im->decompress_chunked };
	}
	for (unsigned i = 0; i < x->calls; i++) oneCall(t, x->api);
	// how the session is released
	t->fired = false; t->fault = t->r.chance(20) ? F_FSESSION : t->r.chance(20) ? F_CLOSE : F_NONE; t->ferr = EIO;
	t->ended = true;
	return nullptr;
}
static void runThreads(Rng &r, unsigned nthr, unsigned calls, bool viaTable)
{
	std::vector<T *> ts; std::vector<Arg> as(nthr); std::vector<pthread_t> th(nthr);
	std::atomic<int> go{0};
	for (unsigned i = 0; i < nthr; i++) {
		T *t = new T; t->id = (int)i; t->r = Rng(r.next(), i); ts.push_back(t);
		as[i] = Arg{ t, (unsigned)r.range(1, calls), direct, viaTable, &go, nullptr, false };
	}
	for (unsigned i = 0; i < nthr; i++) if (pthread_create(&th[i], nullptr, threadMain, &as[i])) { inconclusive("pthread_create"); _exit(98); }
	go.store(1, std::memory_order_relaxed);
	for (unsigned i = 0; i < nthr; i++) pthread_join(th[i], nullptr);
	for (unsigned i = 0; i < nthr; i++) {
		T *t = ts[i];
		for (auto x : t->st) stat(x);
		for (auto x : t->hs) distinct(x);
		for (auto x : t->smp) { sample("%s", x); free(x); }
		stat("threads"); stat("device opens", t->opens); stat("device requests", t->crypts); stat("sessions opened", t->sessions);
		if (H2) {
			if (t->fd != -1) { fail("exit-leak-fd", "thread %d ended and its descriptor is still open (opens %u closes %u)", t->id, t->opens, t->closes); }
			else if (t->opens != t->closes) fail("exit-opens", "thread %d: %u opens, %u closes", t->id, t->opens, t->closes);
			if (t->ses || t->sessions != t->frees) fail("exit-session", "thread %d ended with %u sessions opened and %u released", t->id, t->sessions, t->frees);
			if (heldAllocs(t)) fail("exit-memory", "thread %d ended and %u allocations are still held", t->id, heldAllocs(t));
		}
		if (t->fd != -1) { __real_close(t->fd); fdOwner[t->fd].store(nullptr, std::memory_order_relaxed); }
		delete t;
	}
	if (nthr > 1) stat("cases with several threads");
	if (viaTable) { for (unsigned i = 1; i < nthr; i++) if (as[i].impl != as[0].impl && H2) stat("different tables"); }
}

static void startZygote();
static void setup()
{
	H1 = !strcmp(G.prop, "H01"); H2 = !strcmp(G.prop, "H02");
	noisyErr = fopen("/dev/full", "w"); // error messages fail to be written and disturb errno
	if (!noisyErr) { inconclusive("cannot open /dev/full"); _exit(98); }
	setvbuf(noisyErr, nullptr, _IONBF, 0);
	stderr = noisyErr;
	startZygote();
}
static void drawDevice(Rng &r)
{
	static const uint16_t masks[] = { 0, 0, 1, 3, 7, 7, 15, 63, 127, 4095, 0x7FFF, 0xFFFF };
	ALIGNMASK = masks[r.below(sizeof masks / sizeof *masks)];
#ifdef VERIF_NO_SESSINFO
	ALIGNMASK = 0;
#endif
}
// A process in which the backend has never been used: forked from a process set aside before the first case.
static void virginCase(uint64_t idx)
{
	Rng r(G.seed, 0x7e57, idx);
	drawDevice(r);
	unsigned kind = (unsigned)r.below(4);
	if (kind == 0) { // no key for the sessions of threads
		tssFail.store(1, std::memory_order_relaxed);
		T *t = new T; t->id = 0; t->r = Rng(r.next()); me = t;
		ALIGNMASK = 0;
		uint8_t buf[64] __attribute__((aligned(64))) = {}, o2[64] __attribute__((aligned(64)));
		for (int k = 0; k < 3 && !G.nfail; k++) {
			size_t ol = 64;
			t->inApi = true; int ret = hw842_compress(buf, 64, o2, &ol); t->inApi = false;
			if (tssBadUse.load(std::memory_order_relaxed)) fail("key-unusable", "thread-specific data was accessed through a key that could not be created (call %d returned %d)", k, ret);
			else if (t->callReqs == 0 && ret >= 0) fail("key-ret", "call %d made no request and returned %d", k, ret);
			else if (ret < 0 && t->callReqs == 0 && t->fd != -1) fail("key-leak", "call %d returned %d and the descriptor is open", k, ret);
		}
	} else if (kind == 1) { // the device is descriptor 0
		__real_close(0);
		runThreads(r, 1, 6, r.chance(50));
	} else
		runThreads(r, kind == 2 ? 1 : (unsigned)r.range(2, 4), 4, true);
	_exit(G.nfail ? 1 : 0);
}
static int zy[2];
static void startZygote()
{
	if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, zy)) { inconclusive("socketpair"); _exit(98); }
	pid_t pid = fork();
	if (pid < 0) { inconclusive("fork"); _exit(98); }
	if (pid) { __real_close(zy[1]); return; }
	__real_close(zy[0]);
	uint64_t idx;
	while (read(zy[1], &idx, 8) == 8) {
		G.index = idx;
		pid_t c = fork();
		int st = 98 << 8;
		if (c == 0) virginCase(idx);
		if (c > 0) while (waitpid(c, &st, 0) < 0) if (errno != EINTR) break;
		if (write(zy[1], &st, sizeof st) != (ssize_t)sizeof st) break;
	}
	_exit(0);
}
static void virgin(uint64_t idx)
{
	int st;
	if (write(zy[0], &idx, 8) != 8 || read(zy[0], &st, sizeof st) != (ssize_t)sizeof st) { inconclusive("helper process lost"); _exit(98); }
	stat("fresh processes");
	if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(3); }
	if (WEXITSTATUS(st) == 1) G.nfail++;
	else if (WEXITSTATUS(st) != 0) _exit(WEXITSTATUS(st));
}
static void runCase(uint64_t idx, Rng &r)
{
	drawDevice(r);
	devPresent.store(r.chance(50));
	if (H1) {
		accessSeen = 0;
		int a = hw842_available();
		if (accessSeen) stat("availability questions");
		if (accessSeen && (a != 0) != devPresent.load()) fail("available", "hw842_available() returned %d with the device %s", a, devPresent.load() ? "present" : "absent");
	}
	unsigned period = H2 ? 6 : 25;
	if (idx % period == 0) virgin(idx);
	else runThreads(r, r.chance(60) ? 1 : (unsigned)r.range(2, 6), H2 ? 8 : 12, false);
	for (auto &f : fdOwner) if (f.load(std::memory_order_relaxed)) { fail("table", "descriptor still open after all threads ended"); f.store(nullptr); }
}
static void finish() {}
