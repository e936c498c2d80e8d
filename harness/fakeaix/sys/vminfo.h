// Stand-in for the AIX header: the two functions lib842's backend uses, as documented by IBM.
#ifndef FAKE_VMINFO_H
#define FAKE_VMINFO_H
#include <stddef.h>
#include <errno.h> // src/common/trivial_chunked.h uses ENOSPC without including it
#ifdef __cplusplus
extern "C" {
#endif
int accel_compress(void *src, size_t ilen, void *dst, size_t *olen, int flags);
int accel_decompress(void *src, size_t ilen, void *dst, size_t *olen, int flags);
#ifdef __cplusplus
}
#endif
#endif
