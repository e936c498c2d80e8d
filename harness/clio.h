// Redirects the OpenCL program cache (a fixed path under /tmp) to a scratch file and injects faults there.
#ifndef VERIF_CLIO_H
#define VERIF_CLIO_H
#include <stdio.h>
#include <string.h>
#include <stdarg.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <errno.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/uio.h>
namespace clio {
enum Mode { NORMAL, READ_FAIL, WRITE_OPEN_FAIL, WRITE_FULL, DIRECTORY, BOTH_FAIL, SHORT_WRITE };
static int mode = NORMAL;
static int err = EACCES;
static char dir[3000] = "";
static volatile bool slowWrites = false; // delays between the writes to regular files
static volatile unsigned long opensRead, opensWrite, touched;
// The cache lives in /tmp under a name containing "842"; nothing else here does
static bool isCache(const char *p)
{
	return p && strncmp(p, "/tmp/", 5) == 0 && strstr(p + 5, "842") && strncmp(p, dir, strlen(dir)) != 0;
}
static void cachePath(const char *p, char *out, size_t cap)
{
	const char *b = p + 5;
	int n = snprintf(out, cap, "%s/cache/", dir);
	for (; *b && (size_t)n + 1 < cap; b++) out[n++] = *b == '/' ? '_' : *b;
	out[n] = 0;
}
// returns nullptr with errno set for a failure
static const char *redirect(const char *p, bool write, char *buf, size_t cap)
{
	if (!dir[0] || !isCache(p)) return p;
	__atomic_add_fetch(&touched, 1, __ATOMIC_RELAXED);
	__atomic_add_fetch(write ? &opensWrite : &opensRead, 1, __ATOMIC_RELAXED);
	switch (mode) {
	case READ_FAIL: if (!write) { errno = err; return nullptr; } break;
	case WRITE_OPEN_FAIL: if (write) { errno = err; return nullptr; } break;
	case BOTH_FAIL: errno = err; return nullptr;
	case WRITE_FULL: if (write) return "/dev/full"; break;
	case DIRECTORY: if (write) { errno = EISDIR; return nullptr; } snprintf(buf, cap, "%s", dir); return buf;
	}
	cachePath(p, buf, cap);
	return buf;
}
}
extern "C" {
typedef FILE *(*fopen_t)(const char *, const char *);
#define CLIO_FOPEN(NAME) \
FILE *NAME(const char *p, const char *m) { static fopen_t f = (fopen_t)dlsym(RTLD_NEXT, #NAME); char b[4096]; \
	const char *q = clio::redirect(p, strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+'), b, sizeof b); return q ? f(q, m) : nullptr; }
CLIO_FOPEN(fopen)
CLIO_FOPEN(fopen64)
typedef int (*open_t)(const char *, int, ...);
#define CLIO_OPEN(NAME) \
int NAME(const char *p, int fl, ...) { static open_t f = (open_t)dlsym(RTLD_NEXT, #NAME); int mo = 0; \
	if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); mo = va_arg(a, int); va_end(a); } char b[4096]; \
	const char *q = clio::redirect(p, (fl & O_ACCMODE) != O_RDONLY, b, sizeof b); return q ? f(q, fl, mo) : -1; }
CLIO_OPEN(open)
CLIO_OPEN(open64)
typedef int (*openat_t)(int, const char *, int, ...);
#define CLIO_OPENAT(NAME) \
int NAME(int d, const char *p, int fl, ...) { static openat_t f = (openat_t)dlsym(RTLD_NEXT, #NAME); int mo = 0; \
	if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); mo = va_arg(a, int); va_end(a); } char b[4096]; \
	const char *q = clio::redirect(p, (fl & O_ACCMODE) != O_RDONLY, b, sizeof b); return q ? f(d, q, fl, mo) : -1; }
CLIO_OPENAT(openat)
CLIO_OPENAT(openat64)
int rename(const char *a, const char *b)
{
	static int (*f)(const char *, const char *) = (int (*)(const char *, const char *))dlsym(RTLD_NEXT, "rename");
	char x[4096], y[4096];
	const char *p = a, *q = b;
	if (clio::dir[0] && clio::isCache(a)) { clio::cachePath(a, x, sizeof x); p = x; }
	if (clio::dir[0] && clio::isCache(b)) { q = clio::redirect(b, true, y, sizeof y); if (!q) return -1; if (q[0] == '/' && !strcmp(q, "/dev/full")) { errno = ENOSPC; return -1; } }
	return f(p, q);
}
#define CLIO_PATH1(NAME) \
int NAME(const char *a) { static int (*f)(const char *) = (int (*)(const char *))dlsym(RTLD_NEXT, #NAME); char x[4096]; \
	if (clio::dir[0] && clio::isCache(a)) { clio::cachePath(a, x, sizeof x); a = x; } return f(a); }
static void clioDelay() { static __thread unsigned x = 12345; if (!clio::slowWrites) return; x = x * 1103515245u + 12345u + (unsigned)(size_t)&x; unsigned k = x >> 16 & 7; if (k < 3) usleep(200u << k); }
ssize_t write(int fd, const void *b, size_t n)
{
	static ssize_t (*f)(int, const void *, size_t) = (ssize_t (*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write");
	clioDelay();
	return f(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *b, int n)
{
	static ssize_t (*f)(int, const struct iovec *, int) = (ssize_t (*)(int, const struct iovec *, int))dlsym(RTLD_NEXT, "writev");
	clioDelay();
	return f(fd, b, n);
}
CLIO_PATH1(unlink)
CLIO_PATH1(remove)
}
#endif
