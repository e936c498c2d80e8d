#ifndef VERIF_CLCONFIGS_H
#define VERIF_CLCONFIGS_H
#include <stddef.h>
// fmt: 0 = ALWAYS_COMPRESSED_CHUNKS, 1 = MAYBE_COMPRESSED_CHUNKS, 2 = INPLACE_COMPRESSED_CHUNKS
struct ClCfg { int fmt; size_t chunk, stride; };
static const ClCfg cfgs[] = {
	{ 0, 65536, 131072 }, { 0, 4096, 8192 }, { 0, 1024, 2048 }, { 0, 512, 640 }, { 0, 64, 104 }, { 0, 65536, (size_t)1 << 40 },
	{ 1, 65536, 65536 }, { 1, 4096, 4096 }, { 1, 1024, 1024 }, { 1, 4096, 4160 }, { 1, 64, 64 },
	{ 2, 65536, 65536 }, { 2, 4096, 4096 }, { 2, 1024, 1024 }, { 2, 64, 64 },
};
enum { NUM_CFG = sizeof cfgs / sizeof cfgs[0], NUM_ALWAYS = 6, FIRST_INPLACE = 11, NUM_INPLACE = 4 };
#define CL_FORMAT(c) ((c).fmt == 2 ? lib842::CLDecompressorInputFormat::INPLACE_COMPRESSED_CHUNKS : (c).fmt ? lib842::CLDecompressorInputFormat::MAYBE_COMPRESSED_CHUNKS : lib842::CLDecompressorInputFormat::ALWAYS_COMPRESSED_CHUNKS)
#endif
