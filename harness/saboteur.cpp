// X01: linked into the sample programs between them and the library. With
// VERIF_SAB="kind:n:where" the n-th operation (counting chunks) misbehaves;
// VERIF_SAB_MARK names a file that is created when that happens.
#include <lib842/common.h>
#include <atomic>
#include <cerrno>
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <unistd.h>
#ifdef SAB_CL
#include <lib842/cl.h>
#endif

static std::atomic<long> nComp, nDecomp;
struct Plan { char kind[16] = ""; long n = 0, where = 0; Plan() { const char *e = getenv("VERIF_SAB"); if (e) sscanf(e, "%15[^:]:%ld:%ld", kind, &n, &where); } };
static Plan &plan() { static Plan p; return p; }
static void mark(const char *what) { const char *m = getenv("VERIF_SAB_MARK"); if (!m) return; int fd = open(m, O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0) { if (write(fd, what, strlen(what)) < 0) {} close(fd); } }
static bool isKind(const char *k) { return strcmp(plan().kind, k) == 0; }

// after a decompression: returns the result to report
static int spoil(int ret, uint8_t *out, size_t *olen)
{
	long i = nDecomp++;
	if (i != plan().n || ret) return ret;
	if (isKind("flip") && *olen) { out[(size_t)plan().where % *olen] ^= (uint8_t)(1 << plan().where % 8); mark("flip"); }
	else if (isKind("short") && *olen >= 8) { *olen -= 8; mark("short"); }
	else if (isKind("zero") && *olen) { bool any = false; for (size_t k = 0; k < *olen; k++) any |= out[k] != 0; if (any) { memset(out, 0, *olen); mark("zero"); } }
	else if (isKind("derr")) { *olen = 0; mark("derr"); return -EINVAL; }
	return ret;
}
static const lib842_implementation *real;
static int comp(const uint8_t *in, size_t il, uint8_t *out, size_t *ol)
{
	if (isKind("cerr") && nComp++ == plan().n) { *ol = 0; mark("cerr"); return -EIO; }
	return real->compress(in, il, out, ol);
}
static int decomp(const uint8_t *in, size_t il, uint8_t *out, size_t *ol) { int r = real->decompress(in, il, out, ol); return spoil(r, out, ol); }
static int compC(size_t n, int *rets, const uint8_t *in, size_t is, const size_t *il, uint8_t *out, size_t os, size_t *ol)
{
	int ret = real->compress_chunked(n, rets, in, is, il, out, os, ol);
	if (isKind("cerr")) for (size_t i = 0; i < n; i++) if (il[i] != SIZE_MAX && nComp++ == plan().n) { rets[i] = -EIO; ol[i] = 0; ret = -EIO; mark("cerr"); }
	return ret;
}
static int decompC(size_t n, int *rets, const uint8_t *in, size_t is, const size_t *il, uint8_t *out, size_t os, size_t *ol)
{
	int ret = real->decompress_chunked(n, rets, in, is, il, out, os, ol);
	for (size_t i = 0; i < n; i++) if (il[i] != SIZE_MAX) { rets[i] = spoil(rets[i], out + i * os, &ol[i]); if (!ret && rets[i] && rets[i] != -ENOSPC) ret = rets[i]; }
	return ret;
}
static const lib842_implementation *patched(const lib842_implementation *r)
{
	static lib842_implementation t = [&] { real = r; lib842_implementation x = *r; x.compress = comp; x.decompress = decomp; x.compress_chunked = compC; x.decompress_chunked = decompC; return x; }();
	return &t;
}
extern "C" {
const lib842_implementation *__real_get_sw842_implementation();
const lib842_implementation *__real_get_optsw842_implementation();
const lib842_implementation *__wrap_get_sw842_implementation() { return patched(__real_get_sw842_implementation()); }
const lib842_implementation *__wrap_get_optsw842_implementation() { return patched(__real_get_optsw842_implementation()); }
#ifdef SAB_CL
int __real_cl842_decompress(const uint8_t *, size_t, uint8_t *, size_t *);
int __wrap_cl842_decompress(const uint8_t *in, size_t il, uint8_t *out, size_t *ol) { int r = __real_cl842_decompress(in, il, out, ol); return spoil(r, out, ol); }
void __real__ZNK6lib84218CLHostDecompressor10decompressEPKhmPKmPhmPmS6_PiPx(const void *, const uint8_t *, size_t, const size_t *, uint8_t *, size_t, size_t *, size_t *, int *, long long *);
void __wrap__ZNK6lib84218CLHostDecompressor10decompressEPKhmPKmPhmPmS6_PiPx(const void *t, const uint8_t *in, size_t is, const size_t *il, uint8_t *out, size_t os, size_t *ol, size_t *map, int *rets, long long *time)
{
	if (isKind("derr")) { mark("derr"); throw cl::Error(CL_OUT_OF_RESOURCES, "sabotage"); }
	__real__ZNK6lib84218CLHostDecompressor10decompressEPKhmPKmPhmPmS6_PiPx(t, in, is, il, out, os, ol, map, rets, time);
	plan().n = nDecomp; size_t n = os; spoil(0, out, &n);
}
#endif
}
