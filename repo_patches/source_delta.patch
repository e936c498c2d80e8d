From 6f2342cd890235a6007111b8aa119739ece76bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:44 +0000
Subject: [PATCH 01/31] fix: optsw842_compress no longer reads past an empty
 input

With ilen == 0 the first 8 bytes of the input were read unconditionally to
initialise the repeat detection, although there are none.
---
 src/serial_optimized/842_compress.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/serial_optimized/842_compress.cpp b/src/serial_optimized/842_compress.cpp
index c790a4a..fafa08b 100644
--- a/src/serial_optimized/842_compress.cpp
+++ b/src/serial_optimized/842_compress.cpp
@@ -605,8 +605,9 @@ int optsw842_compress(const uint8_t *in, size_t ilen,
 
 		*olen = 0;
 
-		/* make initial 'last' different so we don't match the first time */
-		last = ~read64(p->in);
+		/* make initial 'last' different so we don't match the first time
+		 * (with empty input, there is nothing to read or to match) */
+		last = ilen > 7 ? ~read64(p->in) : 0;
 
 		while (p->ilen > 7) {
 			next = read64(p->in);
-- 
2.43.0


From 8f90739208bd8bd45c7be86e2831d28978e70d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:44 +0000
Subject: [PATCH 02/31] fix: sw842_decompress rejects a repeat without 8
 previous bytes

After a short data template fewer than 8 bytes may have been output; a repeat
template then copied bytes from before the start of the output buffer.
---
 src/serial/842_decompress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serial/842_decompress.c b/src/serial/842_decompress.c
index 580b9ba..6895583 100644
--- a/src/serial/842_decompress.c
+++ b/src/serial/842_decompress.c
@@ -328,7 +328,7 @@ int sw842_decompress(const uint8_t *in, size_t ilen,
 			if (ret)
 				return ret;
 
-			if (p.out == out) /* no previous bytes */
+			if (p.out - out < 8) /* no previous 8 bytes */
 				return -EINVAL;
 
 			/* copy rep + 1 */
-- 
2.43.0


From cd77677402da29471fd52e5cf7cb5e2e9c535546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:44 +0000
Subject: [PATCH 03/31] fix: chunked functions handle offsets over 4 GiB and
 report failures

The chunk offsets were kept in unsigned int, so that chunks at 4 GiB or more
from the start of the buffers wrapped around onto earlier ones. The return value
computed from the chunks' results was discarded, so that failed batches were
reported as successful.
---
 src/common/trivial_chunked.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/trivial_chunked.h b/src/common/trivial_chunked.h
index e69c43a..f78592d 100644
--- a/src/common/trivial_chunked.h
+++ b/src/common/trivial_chunked.h
@@ -13,7 +13,7 @@ int chunked_compress_func(size_t numchunks, int *rets, \
 			  const uint8_t *in, size_t istride, const size_t *ilens, \
 			  uint8_t *out, size_t ostride, size_t *olens) { \
 	int ret = 0; \
-	for (unsigned int i = 0, soffset = 0, doffset = 0; \
+	for (size_t i = 0, soffset = 0, doffset = 0; \
 	     i < numchunks; \
 	     i++, soffset += istride, doffset += ostride) { \
 		if (ilens[i] == SIZE_MAX) \
@@ -25,7 +25,7 @@ int chunked_compress_func(size_t numchunks, int *rets, \
 			ret = rets[i]; \
 	} \
  \
-	return 0; \
+	return ret; \
 }
 
 #define LIB842_DEFINE_TRIVIAL_CHUNKED_DECOMPRESS LIB842_DEFINE_TRIVIAL_CHUNKED_COMPRESS
-- 
2.43.0


From e3ddda48e97a7303615ca0b927677a23fa1580d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:44 +0000
Subject: [PATCH 04/31] fix: optsw842_compress sets *olen to 0 for unsupported
 lengths

As documented (and like sw842_compress), the output length is 0 on any error.
---
 src/serial_optimized/842_compress.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/serial_optimized/842_compress.cpp b/src/serial_optimized/842_compress.cpp
index fafa08b..9033667 100644
--- a/src/serial_optimized/842_compress.cpp
+++ b/src/serial_optimized/842_compress.cpp
@@ -574,6 +574,7 @@ int optsw842_compress(const uint8_t *in, size_t ilen,
 		fprintf(stderr,
 			"Can only compress multiples of 8 bytes, but len is len %zu (%% 8 = %zu)\n",
 			ilen, ilen % 8);
+		*olen = 0;
 		return -EINVAL;
 	}
 
-- 
2.43.0


From 5a55e47b2ca259bb783b7f6bcbe00797db16ae71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:02 +0000
Subject: [PATCH 05/31] fix: Block::get_chunk asserts that an uncompressible
 chunk has a source

The assertion was inverted, so reading any uncompressible chunk (for which
the source pointer is always set) aborted the process.
---
 include/lib842/stream/block.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lib842/stream/block.h b/include/lib842/stream/block.h
index 9790384..5339b45 100644
--- a/include/lib842/stream/block.h
+++ b/include/lib842/stream/block.h
@@ -50,7 +50,7 @@ struct Block {
 		if (sizes[chunk_no] == 0) // Chunk not present ('gap')
 			return nullptr;
 		if (sizes[chunk_no] == CHUNK_SIZE) { // Uncompressible chunk - read from source
-			assert(source == nullptr);
+			assert(source != nullptr);
 			return static_cast<const uint8_t *>(source) + chunk_no * CHUNK_SIZE;
 		}
 		return chunk_buffer.get() + chunk_no * chunk_padding;
-- 
2.43.0


From 802186a9d275cbd5ee6870e3a4a0191012e133b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:02 +0000
Subject: [PATCH 06/31] fix: DataDecompressionStream reports chunks that fail
 to decompress

Chunks that can not be decompressed, or do not give a full chunk, aborted the
process through an assertion instead of failing the operation. The assertion
also read the uninitialized results of chunks which are not decompressed.
---
 src/stream/DataDecompressionStream.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stream/DataDecompressionStream.cpp b/src/stream/DataDecompressionStream.cpp
index 03aaf73..450b2bc 100644
--- a/src/stream/DataDecompressionStream.cpp
+++ b/src/stream/DataDecompressionStream.cpp
@@ -248,8 +248,11 @@ bool DataDecompressionStream::handle_block(const Block &block,
 #endif
 
 	for (size_t i = 0; i < NUM_CHUNKS_PER_BLOCK; i++) {
-		assert(chunk_rets[i] == 0);
-		assert(output_chunk_sizes[i] == CHUNK_SIZE);
+		// Chunks which did not go through decompression have no result
+		if (input_chunk_sizes[i] == SIZE_MAX)
+			continue;
+		if (chunk_rets[i] != 0 || output_chunk_sizes[i] != CHUNK_SIZE)
+			return false;
 	}
 
 	return true;
-- 
2.43.0


From 4c39b9b613986b3937fc3cb5cc7923ee8ed380fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:02 +0000
Subject: [PATCH 07/31] fix: data race on the _quit flag of the streams

The destructor sets the flag with the mutex held, but the loop of the threads
reads it without.
---
 include/lib842/stream/comp.h   | 3 ++-
 include/lib842/stream/decomp.h | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/lib842/stream/comp.h b/include/lib842/stream/comp.h
index c545dc5..52ea898 100644
--- a/include/lib842/stream/comp.h
+++ b/include/lib842/stream/comp.h
@@ -112,7 +112,8 @@ private:
 	detail::barrier _finalize_barrier;
 
 	// If set to true, causes the compression threads to quit (for cleanup)
-	bool _quit;
+	// (atomic since the threads also check it without holding the mutex)
+	std::atomic<bool> _quit;
 
 	unsigned _offset_sync_epoch_multiple_log2;
 };
diff --git a/include/lib842/stream/decomp.h b/include/lib842/stream/decomp.h
index 7b8d808..3cf3eef 100644
--- a/include/lib842/stream/decomp.h
+++ b/include/lib842/stream/decomp.h
@@ -15,6 +15,7 @@
 #include <lib842/stream/block.h>
 #include <lib842/common.h>
 
+#include <atomic>
 #include <condition_variable>
 #include <mutex>
 #include <thread>
@@ -110,7 +111,8 @@ private:
 	detail::barrier _finalize_barrier;
 
 	// If set to true, causes the decompression threads to quit (for cleanup)
-	bool _quit;
+	// (atomic since the threads also check it without holding the mutex)
+	std::atomic<bool> _quit;
 };
 
 } // namespace stream
-- 
2.43.0


From 0fb63c227dc692d8d59143263c91b99d1a22cc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:51 +0000
Subject: [PATCH 08/31] fix: do not send blocks out of order when destroying a
 DataCompressionStream

A thread waiting for the other threads at the end of an epoch is released when
the stream is destroyed, and then sent its block before those of the epoch.
---
 src/stream/DataCompressionStream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stream/DataCompressionStream.cpp b/src/stream/DataCompressionStream.cpp
index 741be08..bd4cb2a 100644
--- a/src/stream/DataCompressionStream.cpp
+++ b/src/stream/DataCompressionStream.cpp
@@ -139,7 +139,9 @@ void DataCompressionStream::loop_compress_thread(size_t thread_id) {
 			}
 			last_offset = offset;
 
-			if (offset >= last_valid_offset)
+			// NB: The barrier does not wait anymore when quitting, so the blocks of
+			// the previous epochs may not have been sent yet
+			if (offset >= last_valid_offset || _quit)
 				break;
 
 #ifdef LIB842_STREAM_INDEPTH_TRACE
-- 
2.43.0


From ed33f88eb84e220ef965e3f1a0c7db089788a838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:29 +0000
Subject: [PATCH 09/31] fix: OpenCL kernel does not look ahead past the end of
 a chunk whose size is not a multiple of 8

The lookahead reads whole 64-bit words, so it may only read a word that
lies completely inside the chunk.
---
 src/ocl/decompress.cl | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ocl/decompress.cl b/src/ocl/decompress.cl
index 12794e7..8c08d45 100644
--- a/src/ocl/decompress.cl
+++ b/src/ocl/decompress.cl
@@ -128,7 +128,7 @@ static inline uint64_t read_bits(struct sw842_param_decomp *p, uint32_t n)
 		p->lookAheadBuffer[2] = p->lookAheadBuffer[3];
 		p->lookAheadBuffer[3] = p->lookAheadBuffer[4];
 		p->lookAheadBuffer[4] = p->lookAheadBuffer[5];
-		p->lookAheadBuffer[5] = ((p->in - p->istart + 6) * sizeof(uint64_t) < p->ilen) ? swap_be_to_native64(*(p->in + 6)) : 0;
+		p->lookAheadBuffer[5] = ((p->in - p->istart + 7) * sizeof(uint64_t) <= p->ilen) ? swap_be_to_native64(*(p->in + 6)) : 0;
 #else
 		p->buffer = swap_be_to_native64(*p->in);
 #endif
@@ -279,12 +279,12 @@ static inline int decompress_core(__global const uint64_t *RESTRICT_UNLESS_INPLA
 
 	p.buffer = 0;
 #ifdef USE_LOOKAHEAD_BUFFER
-	p.lookAheadBuffer[0] = ((p.in - p.istart) * sizeof(uint64_t) < p.ilen) ? swap_be_to_native64(*(p.in + 0)) : 0;
-	p.lookAheadBuffer[1] = ((p.in - p.istart + 1) * sizeof(uint64_t) < p.ilen) ? swap_be_to_native64(*(p.in + 1)) : 0;
-	p.lookAheadBuffer[2] = ((p.in - p.istart + 2) * sizeof(uint64_t) < p.ilen) ? swap_be_to_native64(*(p.in + 2)) : 0;
-	p.lookAheadBuffer[3] = ((p.in - p.istart + 3) * sizeof(uint64_t) < p.ilen) ? swap_be_to_native64(*(p.in + 3)) : 0;
-	p.lookAheadBuffer[4] = ((p.in - p.istart + 4) * sizeof(uint64_t) < p.ilen) ? swap_be_to_native64(*(p.in + 4)) : 0;
-	p.lookAheadBuffer[5] = ((p.in - p.istart + 5) * sizeof(uint64_t) < p.ilen) ? swap_be_to_native64(*(p.in + 5)) : 0;
+	p.lookAheadBuffer[0] = ((p.in - p.istart + 1) * sizeof(uint64_t) <= p.ilen) ? swap_be_to_native64(*(p.in + 0)) : 0;
+	p.lookAheadBuffer[1] = ((p.in - p.istart + 2) * sizeof(uint64_t) <= p.ilen) ? swap_be_to_native64(*(p.in + 1)) : 0;
+	p.lookAheadBuffer[2] = ((p.in - p.istart + 3) * sizeof(uint64_t) <= p.ilen) ? swap_be_to_native64(*(p.in + 2)) : 0;
+	p.lookAheadBuffer[3] = ((p.in - p.istart + 4) * sizeof(uint64_t) <= p.ilen) ? swap_be_to_native64(*(p.in + 3)) : 0;
+	p.lookAheadBuffer[4] = ((p.in - p.istart + 5) * sizeof(uint64_t) <= p.ilen) ? swap_be_to_native64(*(p.in + 4)) : 0;
+	p.lookAheadBuffer[5] = ((p.in - p.istart + 6) * sizeof(uint64_t) <= p.ilen) ? swap_be_to_native64(*(p.in + 5)) : 0;
 #endif
 	p.bits = 0;
 
-- 
2.43.0


From f48088df96db5803ece90ce35ebb738465290681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:53 +0000
Subject: [PATCH 10/31] fix: OpenCL kernel checks for output space before
 resolving indices

A reference to the last 2 bytes of a full output buffer read 2 bytes past
its end before the lack of space was noticed.
---
 src/ocl/decompress.cl | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/ocl/decompress.cl b/src/ocl/decompress.cl
index 8c08d45..06a63bc 100644
--- a/src/ocl/decompress.cl
+++ b/src/ocl/decompress.cl
@@ -199,6 +199,15 @@ static inline void do_op(struct sw842_param_decomp *p, uint8_t op)
 	}
 #endif
 
+	// Check this before resolving any index: references to the last 2 bytes
+	// of the output also read (and ignore) the 2 bytes which follow them
+#ifdef ENABLE_ERROR_HANDLING
+	if ((p->out - p->ostart) * sizeof(uint64_t) + 8 > p->olen) {
+		p->errorcode = -ENOSPC;
+		return;
+	}
+#endif
+
 	uint64_t output_word = 0;
 	uint32_t bits = 0;
 
@@ -255,12 +264,6 @@ static inline void do_op(struct sw842_param_decomp *p, uint8_t op)
 			       << (64 - (dst_size << 3) - bits);
 		bits += dst_size << 3;
 	}
-#ifdef ENABLE_ERROR_HANDLING
-	if ((p->out - p->ostart) * sizeof(uint64_t) + 8 > p->olen) {
-		p->errorcode = -ENOSPC;
-		return;
-	}
-#endif
 	*p->out++ = swap_native_to_be64(output_word);
 }
 
-- 
2.43.0


From d8ae97b889e3d50d79e64d4ace6a6ae9850ae3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:59 +0000
Subject: [PATCH 11/31] fix: OpenCL kernel validates the embedded size of
 MAYBE/INPLACE chunks

A corrupt size made the kernel read the compressed data from outside of
the chunk.
---
 src/ocl/decompress.cl | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ocl/decompress.cl b/src/ocl/decompress.cl
index 06a63bc..7b632ac 100644
--- a/src/ocl/decompress.cl
+++ b/src/ocl/decompress.cl
@@ -433,6 +433,15 @@ __kernel void decompress(__global const uint64_t *RESTRICT_UNLESS_INPLACE in,
 		return;
 	}
 
+	// The marker, the size and the compressed data must fit in the chunk
+	if (my_in[2] > CL842_CHUNK_SIZE - sizeof(LIB842_COMPRESSED_CHUNK_MARKER) - sizeof(uint64_t)) {
+		if (olen)
+			olen[chunk_num] = 0;
+		if (returnValues)
+			returnValues[chunk_num] = -EINVAL;
+		return;
+	}
+
 	// Read compressed chunk size and skip to the beginning of the chunk
 	// (the end of the chunk matches the end of the input chunk buffer)
 	my_ilen = my_in[2]; // TODOXXX: Avoid all this marker and embeeded lengths
-- 
2.43.0


From c7bcd20703da8a478770e7177241cb1bb246f47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:05 +0000
Subject: [PATCH 12/31] fix: OpenCL kernel honours the output size limit for
 uncompressed chunks

outputChunkSizes was respected for compressed chunks only.
---
 src/ocl/decompress.cl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ocl/decompress.cl b/src/ocl/decompress.cl
index 7b632ac..3aadcc5 100644
--- a/src/ocl/decompress.cl
+++ b/src/ocl/decompress.cl
@@ -413,6 +413,12 @@ __kernel void decompress(__global const uint64_t *RESTRICT_UNLESS_INPLACE in,
 	if (my_in[0] != ((__constant const uint64_t *)LIB842_COMPRESSED_CHUNK_MARKER)[0] ||
 	    my_in[1] != ((__constant const uint64_t *)LIB842_COMPRESSED_CHUNK_MARKER)[1]) {
 #ifdef USE_MAYBE_COMPRESSED_CHUNKS
+		if (olen && olen[chunk_num] < CL842_CHUNK_SIZE) {
+			olen[chunk_num] = 0;
+			if (returnValues)
+				returnValues[chunk_num] = -ENOSPC;
+			return;
+		}
 		// Copy uncompressed chunk from temporary input buffer to output buffer
 		for (size_t i = 0; i < CL842_CHUNK_SIZE / 8; i++) {
 			my_out[i] = my_in[i];
-- 
2.43.0


From 4476df405b9d760f9297a512555fcd83261d59f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:16 +0000
Subject: [PATCH 13/31] fix: CLDeviceDecompressor::decompress declares its
 parameters in the order it takes them

The declaration had returnValues and chunkShuffleMap (both cl::Buffer)
swapped with regard to the definition and the caller in the library.
---
 include/lib842/cl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/lib842/cl.h b/include/lib842/cl.h
index 9e63fe3..610ad4a 100644
--- a/include/lib842/cl.h
+++ b/include/lib842/cl.h
@@ -95,8 +95,6 @@ public:
 	*                Must be a multiple of 8.
 	* - outputChunkSizes: Specifies the maximum size to be written for each chunk.
 	*                     This is only for error-checking, and is optional (can be null).
-	* - returnValues: The error code (C errno) is written here for each chunk.
-	*                 This is only for error-checking, and is optional (can be null).
 	* - chunkShuffleMap: Determines the order in which the chunks are processed
 	*                    by the OpenCL kernel, which can influence performance
 	*                    The reason simply shuffling the order in which chunks are
@@ -108,6 +106,8 @@ public:
 	*                    chunks are processed so that all compressible (and respectively
 	*                    uncompressible) chunks are processed together can improve
 	*                    performance in those cases.
+	* - returnValues: The error code (C errno) is written here for each chunk.
+	*                 This is only for error-checking, and is optional (can be null).
 	* - events:          Event wait list before starting decompression
 	*                    (like any clEnqueueXXX OpenCL API).
 	* - event:           OpenCL event triggered after decompression finishing.
@@ -121,8 +121,8 @@ public:
 			const cl::Buffer &outputBuffer,
 			size_t outputOffset,
 			const cl::Buffer &outputChunkSizes,
-			const cl::Buffer &returnValues,
 			const cl::Buffer &chunkShuffleMap,
+			const cl::Buffer &returnValues,
 			const cl::vector<cl::Event> *events = nullptr,
 			cl::Event *event = nullptr) const;
 
-- 
2.43.0


From ca37d0f74fa80cd6516f42c404df7f6178a50765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:48 +0000
Subject: [PATCH 14/31] fix: cl842_decompress treats inputs over 99999 bytes as
 a single chunk

With a stride of 99999 bytes, longer inputs were split in several chunks,
while the size, the output size and the return value are single variables.
---
 src/ocl/cl842decompress.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index 3a2582c..8c6a50a 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -463,7 +463,8 @@ int cl842_decompress(const uint8_t *in, size_t ilen,
 {
 	try {
 		static lib842::CLHostDecompressor decompressor(
-			65536, 99999 /* Doesn't matter */,
+			// The input is always a single chunk, whatever its size
+			65536, size_t(1) << 62,
 			lib842::CLDecompressorInputFormat::ALWAYS_COMPRESSED_CHUNKS,
 			true, false);
 		int ret;
-- 
2.43.0


From da93054b15a0d8af05b700cf4caf3cd5c56c1976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:57 +0000
Subject: [PATCH 15/31] fix: cl842_decompress lets no exception escape and sets
 *olen on failure

---
 src/ocl/cl842decompress.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index 8c6a50a..1f66564 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -3,6 +3,7 @@
 
 #include <iostream>
 #include <sstream>
+#include <exception>
 #include <vector>
 #include <algorithm>
 #include <iterator>
@@ -470,9 +471,10 @@ int cl842_decompress(const uint8_t *in, size_t ilen,
 		int ret;
 		decompressor.decompress(in, ilen, &ilen, out, *olen, olen, nullptr, &ret, nullptr);
 		return ret;
-	} catch (const cl::Error &) {
+	} catch (const std::exception &) {
 		// Not a great error value, but we shouldn't let C++ exceptions
 		// propagate out from the C API
+		*olen = 0;
 		return -ENOMEM;
 	}
 }
-- 
2.43.0


From 7daa430f857c89bca3180adb3555e1d7b1cb45a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:07 +0000
Subject: [PATCH 16/31] fix: OpenCL program cache survives corrupt lengths

A corrupt length in the cache file made building the decompressor throw
std::length_error or std::bad_alloc, or allocate without bounds.
---
 src/ocl/cl842decompress.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index 1f66564..7d75c40 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -131,6 +131,18 @@ struct program_cache
 private:
 	static constexpr const char *CACHE_PATH = "/tmp/cl842_cache.bin";
 
+	// Reads the length of the data that follows, which must be in the file
+	static size_t readLength(std::ifstream &in) {
+		size_t length;
+		in.read(reinterpret_cast<char *>(&length), sizeof(length));
+		auto pos = in.tellg();
+		in.seekg(0, std::ifstream::end);
+		if (length > static_cast<size_t>(in.tellg() - pos))
+			in.setstate(std::ifstream::failbit);
+		in.seekg(pos);
+		return length;
+	}
+
 	void readMetadata(std::ifstream &in) {
 		in.read(reinterpret_cast<char *>(&chunkSize), sizeof(chunkSize));
 		in.read(reinterpret_cast<char *>(&chunkStride), sizeof(chunkStride));
@@ -141,8 +153,7 @@ private:
 		in.read(reinterpret_cast<char *>(&numDevices), sizeof(numDevices));
 
 		for (size_t i = 0; i < numDevices; i++) {
-			size_t length;
-			in.read(reinterpret_cast<char *>(&length), sizeof(length));
+			size_t length = readLength(in);
 			cl::string deviceName(length, '\0');
 			in.read(&deviceName[0], deviceName.size());
 			deviceNames.push_back(deviceName);
@@ -152,9 +163,7 @@ private:
 	static cl::Program::Binaries readBinaries(std::ifstream &in, size_t numDevices) {
 		cl::Program::Binaries binaries;
 		for (size_t i = 0; i < numDevices; i++) {
-			size_t size;
-			in.read(reinterpret_cast<char *>(&size), sizeof(size));
-			cl::vector<uint8_t> binary(size);
+			cl::vector<uint8_t> binary(readLength(in));
 			in.read(reinterpret_cast<char *>(binary.data()), binary.size());
 			binaries.push_back(binary);
 		}
-- 
2.43.0


From b7b0d17e290fa8d5dc295d25ac564436b56d19b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:18 +0000
Subject: [PATCH 17/31] fix: OpenCL decompressor works if its program cache can
 not be written

---
 src/ocl/cl842decompress.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index 7d75c40..74c9ab8 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -270,7 +270,13 @@ void CLDeviceDecompressor::buildProgram(
 		throw;
 	}
 #ifdef LIB842_CLDECOMPRESS_USE_PROGRAM_CACHE
-	cache.set(m_program.getInfo<CL_PROGRAM_BINARIES>());
+	try {
+		cache.set(m_program.getInfo<CL_PROGRAM_BINARIES>());
+	} catch (const std::ofstream::failure &) {
+		m_debug_logger()
+			<< "Could not write lib842's OpenCL program cache"
+			<< std::endl;
+	}
 #endif
 }
 
-- 
2.43.0


From 2fdd11556d83821182046fb92f4544d184d5f93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:47 +0000
Subject: [PATCH 18/31] fix: CLHostDecompressor accepts an empty output buffer

Copying back 0 bytes is an OpenCL error, so decompressing with an output
buffer size of 0 always failed with an unrelated error.
---
 src/ocl/cl842decompress.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index 74c9ab8..3e28ac9 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -448,7 +448,9 @@ void CLHostDecompressor::decompress(const uint8_t *input, size_t inputBufferSize
 					      chunkShuffleMapBuffer, returnValuesBuffer,
 					      nullptr, &decompressEvent);
 		decompressEvent.wait();
-		cl::copy(m_queue, outputBuffer, output, output + outputBufferSize);
+		// Mapping 0 bytes is an error too
+		if (outputBufferSize != 0)
+			cl::copy(m_queue, outputBuffer, output, output + outputBufferSize);
 	}
 
 	if (m_profile && time != nullptr) {
-- 
2.43.0


From 44f1a244f9160cee6ce76e55167f9add2c1230b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:27:05 +0000
Subject: [PATCH 19/31] fix: cryptodev: do not use the thread context key if it
 could not be created

The error was recorded and then overwritten with success, so that every
later call used whatever data belonged to key 0.
---
 src/cryptodev/842_interface.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/cryptodev/842_interface.c b/src/cryptodev/842_interface.c
index ce414e8..8b517df 100644
--- a/src/cryptodev/842_interface.c
+++ b/src/cryptodev/842_interface.c
@@ -219,8 +219,6 @@ static void create_thread_ctx_key()
 {
 	if (tss_create(&thread_ctx_key, destroy_thread_ctx) != thrd_success)
 		thread_ctx_key_err = -ENOMEM;
-
-	thread_ctx_key_err = 0;
 }
 
 static int get_thread_cryptodev_ctx(struct cryptodev_ctx **rctx)
-- 
2.43.0


From 68c10a8c9339460b6efaa66c53c517df994aa9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:27:05 +0000
Subject: [PATCH 20/31] fix: cryptodev: initialize the alignment mask without
 CIOCGSESSINFO

The mask was read from uninitialized memory when the kernel module can not
tell it, so that aligned buffers were refused at random.
---
 src/cryptodev/842_interface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cryptodev/842_interface.c b/src/cryptodev/842_interface.c
index 8b517df..662da92 100644
--- a/src/cryptodev/842_interface.c
+++ b/src/cryptodev/842_interface.c
@@ -81,6 +81,8 @@ static int c842_ctx_init(struct cryptodev_ctx *ctx)
 	}
 #endif
 	ctx->alignmask = siop.alignmask;
+#else
+	ctx->alignmask = 0;
 #endif
 
 	return 0;
-- 
2.43.0


From 19eef65b54eade073be3ac1d233f3f558dc8f23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:27:05 +0000
Subject: [PATCH 21/31] fix: cryptodev: initialize the implementation table
 once

The table was filled on first use without synchronization, a data race if
several threads ask for it.
---
 src/cryptodev/842_interface.c | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/cryptodev/842_interface.c b/src/cryptodev/842_interface.c
index 662da92..2d1e3a4 100644
--- a/src/cryptodev/842_interface.c
+++ b/src/cryptodev/842_interface.c
@@ -320,21 +320,25 @@ int hw842_decompress_chunked(size_t numchunks, int *rets,
 				     out, ostride, olens);
 }
 
-const struct lib842_implementation *get_hw842_implementation() {
-	static struct lib842_implementation hw842_implementation = {
-		.compress = hw842_compress,
-		.decompress = hw842_decompress,
-		.compress_chunked = hw842_compress_chunked,
-		.decompress_chunked = hw842_decompress_chunked,
-		.required_alignment = 0,
-		.preferred_alignment = 0
-	};
-	if (hw842_implementation.required_alignment == 0)
-		hw842_implementation.required_alignment = hw842_get_required_alignment();
+static struct lib842_implementation hw842_implementation = {
+	.compress = hw842_compress,
+	.decompress = hw842_decompress,
+	.compress_chunked = hw842_compress_chunked,
+	.decompress_chunked = hw842_decompress_chunked,
+	.required_alignment = 0,
+	.preferred_alignment = 0
+};
+static once_flag hw842_implementation_once = ONCE_FLAG_INIT;
+
+static void init_hw842_implementation()
+{
+	hw842_implementation.required_alignment = hw842_get_required_alignment();
 	// The cryptodev implementation can work better (do zero copy)
 	// if the buffers are page-aligned
-	if (hw842_implementation.preferred_alignment == 0)
-		hw842_implementation.preferred_alignment = sysconf(_SC_PAGESIZE);
+	hw842_implementation.preferred_alignment = sysconf(_SC_PAGESIZE);
+}
 
+const struct lib842_implementation *get_hw842_implementation() {
+	call_once(&hw842_implementation_once, init_hw842_implementation);
 	return &hw842_implementation;
 }
-- 
2.43.0


From 407b5a3eaddf308cf77652724d504da4678f8c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:27:05 +0000
Subject: [PATCH 22/31] fix: cl2c: escape carriage returns

A raw carriage return inside a string literal can be taken for the end of
the line by the compiler, so a file with CR LF line ends was embedded wrongly
or did not compile.
---
 src/tools/cl2c.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/cl2c.cpp b/src/tools/cl2c.cpp
index 12b6b54..6c8e97f 100644
--- a/src/tools/cl2c.cpp
+++ b/src/tools/cl2c.cpp
@@ -23,6 +23,9 @@ int main(int argc, char *argv[])
 		case '\n':
 			outputFile << "\\n\"\n\"";
 			break;
+		case '\r': // A raw carriage return could be taken for the end of a line
+			outputFile << "\\r";
+			break;
 		case '\\':
 			outputFile << "\\\\";
 			break;
-- 
2.43.0


From bc407d9d69d149f75fbc7f89c48fc1b2699c74d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:27:05 +0000
Subject: [PATCH 23/31] fix: cl2c: fail if the input can not be read or the
 output not written

A missing input was embedded as an empty text, and a failure to write the
output went unnoticed.
---
 src/tools/cl2c.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/tools/cl2c.cpp b/src/tools/cl2c.cpp
index 6c8e97f..606144f 100644
--- a/src/tools/cl2c.cpp
+++ b/src/tools/cl2c.cpp
@@ -11,8 +11,16 @@ int main(int argc, char *argv[])
 	}
 
 	std::ifstream inputFile(argv[1], std::ifstream::in);
+	if (!inputFile) {
+		std::cerr << "cl2c: can not open " << argv[1] << "\n";
+		return EXIT_FAILURE;
+	}
 	inputFile.exceptions(std::ifstream::badbit);
 	std::ofstream outputFile(argv[2], std::ifstream::out);
+	if (!outputFile) {
+		std::cerr << "cl2c: can not open " << argv[2] << "\n";
+		return EXIT_FAILURE;
+	}
 	outputFile.exceptions(std::ofstream::badbit);
 
 	outputFile << "const char *" << argv[3] << " =\n\"";
@@ -40,5 +48,11 @@ int main(int argc, char *argv[])
 
 	outputFile << "\"\n;\n";
 
+	outputFile.close();
+	if (!outputFile) {
+		std::cerr << "cl2c: can not write " << argv[2] << "\n";
+		return EXIT_FAILURE;
+	}
+
 	return EXIT_SUCCESS;
 }
-- 
2.43.0


From f4ee07ccd3801e2abe1941b299a4b37d56357327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:46:11 +0000
Subject: [PATCH 24/31] fix: keep the output of skipped chunks in
 CLHostDecompressor

---
 src/ocl/cl842decompress.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index 3e28ac9..ccce55b 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -442,6 +442,9 @@ void CLHostDecompressor::decompress(const uint8_t *input, size_t inputBufferSize
 					outputBufferSize != 0 ? outputBufferSize : 1);
 
 		cl::copy(m_queue, input, input + inputBufferSize, inputBuffer);
+		// Chunks may be skipped, in which case the output must be kept as it is
+		if (m_inputFormat == CLDecompressorInputFormat::MAYBE_COMPRESSED_CHUNKS)
+			cl::copy(m_queue, output, output + outputBufferSize, outputBuffer);
 		m_deviceCompressor.decompress(m_queue, numChunks,
 					      inputBuffer, 0, inputSizesBuffer,
 					      outputBuffer, 0, outputSizesBuffer,
-- 
2.43.0


From 83a81c5f33e9be2db83edb4aa8c58a06ad6c6148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:12:56 +0000
Subject: [PATCH 25/31] fix: do not spread threads to NUMA nodes without CPUs

Nodes without any CPUs (such as those for the memory of accelerators, or
those whose CPUs are all offline) produced an empty CPU set. Binding a thread
to such a set always fails, after which all the remaining threads of the
stream weren't spread among the NUMA nodes.
---
 src/stream/numa_spread.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stream/numa_spread.cpp b/src/stream/numa_spread.cpp
index bf0578a..bca0e08 100644
--- a/src/stream/numa_spread.cpp
+++ b/src/stream/numa_spread.cpp
@@ -65,7 +65,10 @@ static std::vector<cpu_set_t> get_numa_cpusets()
 
 			CPU_SET(c, &cpuset);
 		}
-		numa_cpusets.push_back(cpuset);
+		// Some nodes have no CPUs (e.g. the memory of an accelerator),
+		// so no thread can be assigned to them
+		if (CPU_COUNT(&cpuset) > 0)
+			numa_cpusets.push_back(cpuset);
 	}
 
 #ifdef LIB842_STREAM_INDEPTH_TRACE
-- 
2.43.0


From 307ba297aaae9cff5e7ebcc263ad759f99accefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:14:22 +0000
Subject: [PATCH 26/31] fix: consider all CPU numbers when spreading threads
 among NUMA nodes

CPU numbers are not necessarily consecutive, for example on a system where
SMT is turned off, so those which are at least as large as the number of
online CPUs were ignored. This left some nodes with only a part of their CPUs
or with none at all, and then the threads weren't spread among the nodes.
---
 src/stream/numa_spread.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/stream/numa_spread.cpp b/src/stream/numa_spread.cpp
index bca0e08..2d7bfd1 100644
--- a/src/stream/numa_spread.cpp
+++ b/src/stream/numa_spread.cpp
@@ -7,7 +7,6 @@
 
 #include <pthread.h>
 #include <numa.h>
-#include <sys/sysinfo.h>
 #ifdef LIB842_STREAM_INDEPTH_TRACE
 #include <string>
 #include <sstream>
@@ -44,7 +43,7 @@ static std::vector<cpu_set_t> get_numa_cpusets()
 		return std::vector<cpu_set_t>();
 	}
 
-	int numa_max_nodes = numa_max_node(), nprocs = get_nprocs();
+	int numa_max_nodes = numa_max_node();
 	std::unique_ptr<struct bitmask, decltype(&numa_free_cpumask)>
 		bm { numa_get_mems_allowed(), numa_free_cpumask };
 	std::unique_ptr<struct bitmask, decltype(&numa_free_cpumask)>
@@ -59,7 +58,9 @@ static std::vector<cpu_set_t> get_numa_cpusets()
 
 		cpu_set_t cpuset;
 		CPU_ZERO(&cpuset);
-		for (int c = 0; c < nprocs; c++) {
+		// CPU numbers aren't necessarily consecutive (e.g. if SMT is off),
+		// so they aren't bounded by the number of online CPUs
+		for (int c = 0; c < CPU_SETSIZE; c++) {
 			if (!numa_bitmask_isbitset(cpumask.get(), c))
 				continue;
 
-- 
2.43.0


From b02a68b707e9f8eca90a71d49a4b710e109b9627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:41:25 +0000
Subject: [PATCH 27/31] fix: sample programs: leave room for the compressed
 form of an empty file

---
 sample/compdecomp_driver.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/compdecomp_driver.c b/sample/compdecomp_driver.c
index d29fd86..e9a41c6 100644
--- a/sample/compdecomp_driver.c
+++ b/sample/compdecomp_driver.c
@@ -169,7 +169,8 @@ int compdecomp(const char *file_name, size_t chunk_size, size_t alignment)
 	} else {
 		printf("Running simple test\n");
 
-		size_t olen = ilen * 2;
+		// Even empty data has some compressed output
+		size_t olen = ilen != 0 ? ilen * 2 : chunk_size;
 		uint8_t *out = aligned_alloc(alignment, olen);
 		if (out == NULL) {
 			fprintf(stderr, "FAIL: out = aligned_alloc(...) failed!\n");
-- 
2.43.0


From 0a29afd823f8bd993586375a5ff0e3260535050a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:38:42 +0000
Subject: [PATCH 28/31] fix: sw842: do not refuse outputs of more than 4 GiB

The sizes are size_t since the interface left the kernel, where they were
unsigned int. sw842_compress accepts such inputs, whose result
sw842_decompress then refused.
---
 src/serial/842_compress.c   | 5 -----
 src/serial/842_decompress.c | 3 ---
 2 files changed, 8 deletions(-)

diff --git a/src/serial/842_compress.c b/src/serial/842_compress.c
index 525e87e..146c72b 100644
--- a/src/serial/842_compress.c
+++ b/src/serial/842_compress.c
@@ -669,11 +669,6 @@ skip_comp:
 		p->olen -= pad;
 	}
 
-	if (unlikely((total - p->olen) > UINT_MAX)) {
-		ret = -ENOSPC;
-		goto cleanup;
-	}
-
 	*olen = total - p->olen;
 
 	//printf("Out: %lld bits (%f bytes)\n", outbits, (outbits / 8.0f));
diff --git a/src/serial/842_decompress.c b/src/serial/842_decompress.c
index 6895583..9c74908 100644
--- a/src/serial/842_decompress.c
+++ b/src/serial/842_decompress.c
@@ -402,9 +402,6 @@ int sw842_decompress(const uint8_t *in, size_t ilen,
 		return -EINVAL;
 	}
 
-	if (unlikely((total - p.olen) > UINT_MAX))
-		return -ENOSPC;
-
 	*olen = total - p.olen;
 
 	return 0;
-- 
2.43.0


From daf76edbdef7378e9bfd301d5847d073a132939f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:47:25 +0000
Subject: [PATCH 29/31] fix: streams: do not terminate if a thread can not be
 created

The threads created before it are stopped, and the exception reaches the
caller.
---
 include/lib842/stream/comp.h           |  1 +
 include/lib842/stream/decomp.h         |  1 +
 src/stream/DataCompressionStream.cpp   | 14 ++++++++++++--
 src/stream/DataDecompressionStream.cpp | 14 ++++++++++++--
 4 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/lib842/stream/comp.h b/include/lib842/stream/comp.h
index 52ea898..966a508 100644
--- a/include/lib842/stream/comp.h
+++ b/include/lib842/stream/comp.h
@@ -75,6 +75,7 @@ private:
 #endif
 	};
 
+	void quit_threads();
 	void loop_compress_thread(size_t thread_id);
 	Block handle_block(size_t offset, stats_per_thread_t &stats) const;
 
diff --git a/include/lib842/stream/decomp.h b/include/lib842/stream/decomp.h
index 3cf3eef..f0b87de 100644
--- a/include/lib842/stream/decomp.h
+++ b/include/lib842/stream/decomp.h
@@ -72,6 +72,7 @@ private:
 #endif
 	};
 
+	void quit_threads();
 	void loop_decompress_thread(size_t thread_id);
 	bool handle_block(const Block &block,
 			  stats_per_thread_t &stats) const;
diff --git a/src/stream/DataCompressionStream.cpp b/src/stream/DataCompressionStream.cpp
index bd4cb2a..7b6d1b1 100644
--- a/src/stream/DataCompressionStream.cpp
+++ b/src/stream/DataCompressionStream.cpp
@@ -36,13 +36,23 @@ DataCompressionStream::DataCompressionStream(
 		throw std::runtime_error("CHUNK_SIZE must be a multiple of the required 842 alignment");
 	}
 	_threads.reserve(num_threads);
-	for (size_t i = 0; i < num_threads; i++)
-		_threads.emplace_back(&DataCompressionStream::loop_compress_thread, this, i);
+	try {
+		for (size_t i = 0; i < num_threads; i++)
+			_threads.emplace_back(&DataCompressionStream::loop_compress_thread, this, i);
+	} catch (...) {
+		// Not all threads could be created, so do not leave the others behind
+		quit_threads();
+		throw;
+	}
 	if (thread_policy_ == thread_policy::spread_threads_among_numa_nodes)
 		spread_threads_among_numa_nodes(_threads);
 }
 
 DataCompressionStream::~DataCompressionStream() {
+	quit_threads();
+}
+
+void DataCompressionStream::quit_threads() {
 	{
 		std::lock_guard<std::mutex> lock(_mutex);
 		_quit = true;
diff --git a/src/stream/DataDecompressionStream.cpp b/src/stream/DataDecompressionStream.cpp
index 450b2bc..dbbf2b5 100644
--- a/src/stream/DataDecompressionStream.cpp
+++ b/src/stream/DataDecompressionStream.cpp
@@ -29,13 +29,23 @@ DataDecompressionStream::DataDecompressionStream(
 		throw std::runtime_error("CHUNK_SIZE must be a multiple of the required 842 alignment");
 	}
 	_threads.reserve(num_threads);
-	for (size_t i = 0; i < num_threads; i++)
-		_threads.emplace_back(&DataDecompressionStream::loop_decompress_thread, this, i);
+	try {
+		for (size_t i = 0; i < num_threads; i++)
+			_threads.emplace_back(&DataDecompressionStream::loop_decompress_thread, this, i);
+	} catch (...) {
+		// Not all threads could be created, so do not leave the others behind
+		quit_threads();
+		throw;
+	}
 	if (thread_policy_ == thread_policy::spread_threads_among_numa_nodes)
 		spread_threads_among_numa_nodes(_threads);
 }
 
 DataDecompressionStream::~DataDecompressionStream() {
+	quit_threads();
+}
+
+void DataDecompressionStream::quit_threads() {
 	{
 		std::lock_guard<std::mutex> lock(_mutex);
 		_quit = true;
-- 
2.43.0


From deabcbf1333c7a7b2f940a603f152896a166d30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:48:27 +0000
Subject: [PATCH 30/31] fix: DataCompressionStream: fail the operation if a
 block buffer can not be allocated

The exception would end the process, since nothing handles it in the
compression threads.
---
 src/stream/DataCompressionStream.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/stream/DataCompressionStream.cpp b/src/stream/DataCompressionStream.cpp
index 7b6d1b1..ef22ad5 100644
--- a/src/stream/DataCompressionStream.cpp
+++ b/src/stream/DataCompressionStream.cpp
@@ -251,8 +251,14 @@ Block DataCompressionStream::handle_block(size_t offset, stats_per_thread_t &sta
 	block.chunk_padding = CHUNK_PADDING;
 	block.offset = offset;
 
-	uint8_t *chunk_buffer = block.allocate_buffer(
-		_impl842.preferred_alignment, CHUNK_PADDING);
+	uint8_t *chunk_buffer;
+	try {
+		chunk_buffer = block.allocate_buffer(
+			_impl842.preferred_alignment, CHUNK_PADDING);
+	} catch (const std::bad_alloc &) {
+		block.offset = SIZE_MAX; // Indicates error to the user
+		return block;
+	}
 	std::array<int, NUM_CHUNKS_PER_BLOCK> chunk_rets;
 	std::array<size_t, NUM_CHUNKS_PER_BLOCK> input_chunk_sizes, output_chunk_sizes;
 	input_chunk_sizes.fill(CHUNK_SIZE);
-- 
2.43.0


From ca93f079c622d9ea6ffb0b887cbc1d396fae0805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:13 +0000
Subject: [PATCH 31/31] fix: software codecs: return -ENOMEM if an allocation
 fails

---
 src/serial/842_compress.c             | 25 +++++++++++++++++++++++--
 src/serial_optimized/842_compress.cpp |  9 +++++++++
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/serial/842_compress.c b/src/serial/842_compress.c
index 146c72b..56a1b3a 100644
--- a/src/serial/842_compress.c
+++ b/src/serial/842_compress.c
@@ -17,6 +17,9 @@
  */
 
 #include "842-internal.h"
+/* Running out of memory while adding to a hash table must not end the process */
+#define HASH_NONFATAL_OOM 1
+#define uthash_nonfatal_oom(obj) (oomed = true)
 #include "uthash/src/uthash.h"
 #include "uthash/src/utlist.h"
 #include "kerneldeps.h"
@@ -185,15 +188,24 @@ static uint8_t comp_ops[OPS_MAX][5] = { /* params size in bits */
                                                                                \
 		HASH_FIND(hh, p->htable##b, &_n, b, h);                        \
 		if (h == NULL) {                                               \
+			bool oomed = false;                                    \
 			h = (struct hlist_node##b *)malloc(                    \
 				sizeof(struct hlist_node##b));                 \
+			if (h == NULL)                                         \
+				return -ENOMEM;                                \
 			h->data = _n;                                          \
 			h->head = NULL;                                        \
 			HASH_ADD(hh, p->htable##b, data, b, h);                \
+			if (oomed) {                                           \
+				free(h);                                       \
+				return -ENOMEM;                                \
+			}                                                      \
 		}                                                              \
                                                                                \
 		struct node##b##_el *el = (struct node##b##_el *)malloc(       \
 			sizeof(struct node##b##_el));                          \
+		if (el == NULL)                                                \
+			return -ENOMEM;                                        \
 		el->index = node_index;                                        \
 		DL_APPEND(h->head, el);                                        \
 	} while (0)
@@ -481,7 +493,7 @@ static void get_next_data(struct sw842_param *p)
  * only call this after finding/adding the current template
  * the dataN fields for the current 8 byte block must be already updated
  */
-static void update_hashtables(struct sw842_param *p)
+static int update_hashtables(struct sw842_param *p)
 {
 	uint64_t pos = p->in - p->instart;
 	uint64_t n8 = (pos >> 3) % (1 << I8_BITS);
@@ -495,6 +507,8 @@ static void update_hashtables(struct sw842_param *p)
 	replace_hash(p, 2, n2, 1);
 	replace_hash(p, 2, n2, 2);
 	replace_hash(p, 2, n2, 3);
+
+	return 0;
 }
 
 /* find the next template to use, and add it
@@ -545,6 +559,11 @@ int sw842_compress(const uint8_t *in, size_t ilen,
 	uint8_t repeat_count = 0;
 	uint32_t crc;
 
+	if (p == NULL) {
+		*olen = 0;
+		return -ENOMEM;
+	}
+
 	p->htable2 = NULL;
 	p->htable4 = NULL;
 	p->htable8 = NULL;
@@ -613,7 +632,9 @@ int sw842_compress(const uint8_t *in, size_t ilen,
 
 	repeat:
 		last = next;
-		update_hashtables(p);
+		ret = update_hashtables(p);
+		if (ret)
+			goto cleanup;
 		p->in += 8;
 		p->ilen -= 8;
 	}
diff --git a/src/serial_optimized/842_compress.cpp b/src/serial_optimized/842_compress.cpp
index 9033667..25d04c6 100644
--- a/src/serial_optimized/842_compress.cpp
+++ b/src/serial_optimized/842_compress.cpp
@@ -585,6 +585,10 @@ int optsw842_compress(const uint8_t *in, size_t ilen,
 	}
 
 	auto *p = (struct sw842_param *)malloc(sizeof(struct sw842_param));
+	if (p == nullptr) {
+		*olen = 0;
+		return -ENOMEM;
+	}
 
 	std::fill(std::begin(p->hashes), std::end(p->hashes), 0);
 
@@ -600,6 +604,11 @@ int optsw842_compress(const uint8_t *in, size_t ilen,
 	p->ilen = ilen;
 
 	p->stream = stream_open(out, *olen);
+	if (p->stream == nullptr) {
+		free(p);
+		*olen = 0;
+		return -ENOMEM;
+	}
 
 	try {
 		p->olen = *olen;
-- 
2.43.0

