"""G01: compiles src/cuda to PTX with clang (no CUDA toolkit here) and embeds it into the worker, which interprets it."""
import os, re
import vlib
from vlib import sh, REPO, VERIF, HarnessError, Target

PRE = r'''
#define __global__ __attribute__((global))
#define __device__ __attribute__((device))
#define __constant__ __attribute__((constant))
#define __host__ __attribute__((host))
#define __shared__ __attribute__((shared))
#define __forceinline__ inline __attribute__((always_inline))
#define __noinline__
#define __launch_bounds__(...)
#define __restrict__ /* clang does not take it where nvcc does */
#include <stdint.h>
#include <stddef.h>
struct vTid { __declspec(property(get=gx)) unsigned x; __declspec(property(get=gz)) unsigned y, z; __device__ static inline unsigned gx(void) { return __nvvm_read_ptx_sreg_tid_x(); } __device__ static inline unsigned gz(void) { return 0; } };
struct vCta { __declspec(property(get=gx)) unsigned x; __declspec(property(get=gz)) unsigned y, z; __device__ static inline unsigned gx(void) { return __nvvm_read_ptx_sreg_ctaid_x(); } __device__ static inline unsigned gz(void) { return 0; } };
struct vNtid { __declspec(property(get=gx)) unsigned x; __declspec(property(get=gz)) unsigned y, z; __device__ static inline unsigned gx(void) { return __nvvm_read_ptx_sreg_ntid_x(); } __device__ static inline unsigned gz(void) { return 1; } };
struct vNcta { __declspec(property(get=gx)) unsigned x; __declspec(property(get=gz)) unsigned y, z; __device__ static inline unsigned gx(void) { return __nvvm_read_ptx_sreg_nctaid_x(); } __device__ static inline unsigned gz(void) { return 1; } };
extern const __device__ __attribute__((weak)) vTid threadIdx;
extern const __device__ __attribute__((weak)) vCta blockIdx;
extern const __device__ __attribute__((weak)) vNtid blockDim;
extern const __device__ __attribute__((weak)) vNcta gridDim;
template <class T> __device__ static inline T __ldg(const T *p) { return *p; }
__device__ static inline unsigned __byte_perm(unsigned a, unsigned b, unsigned s) { unsigned r; asm("prmt.b32 %0, %1, %2, %3;" : "=r"(r) : "r"(a), "r"(b), "r"(s)); return r; }
__device__ static inline int __clz(int x) { return __builtin_clz(x); }
__device__ static inline int __clzll(long long x) { return __builtin_clzll(x); }
template <class T> __device__ static inline T min(T a, T b) { return a < b ? a : b; }
template <class T> __device__ static inline T max(T a, T b) { return a > b ? a : b; }
'''
LEVELS = ["-O1", "-O2"]

def asm_names(src):
    """nvcc takes single %name in inline assembly, clang wants %%name."""
    def one(m): return re.sub(r"(?<!%)%(?=[A-Za-z_])", "%%", m.group(0))
    def block(m):
        i = m.start(); depth = 0; j = src.index("(", i)
        return None
    out, pos = [], 0
    for m in re.finditer(r"\basm\b\s*(?:volatile|__volatile__)?\s*\(", src):
        if m.start() < pos: continue
        i = m.end(); depth = 1; instr = False
        while depth and i < len(src):
            c = src[i]
            if instr:
                if c == "\\": i += 1
                elif c == '"': instr = False
            elif c == '"': instr = True
            elif c == "(": depth += 1
            elif c == ")": depth -= 1
            i += 1
        out.append(src[pos:m.end()])
        out.append(re.sub(r'"(?:[^"\\]|\\.)*"', one, src[m.end():i]))
        pos = i
    out.append(src[pos:])
    return "".join(out)

def gen(tmp):
    d = os.path.join(tmp, "cu"); os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "pre.h"), "w") as f: f.write(PRE)
    src = open(os.path.join(REPO, "src/cuda/842_decompress.cu"), errors="replace").read()
    with open(os.path.join(d, "k.cu"), "w") as f: f.write(asm_names(src))
    c = os.path.join(tmp, "ptx.c")
    with open(c, "w") as f:
        for n, o in enumerate(LEVELS):
            p = os.path.join(d, "k%d.ptx" % n)
            sh(["clang", "-x", "cuda", "--cuda-device-only", "-nocudainc", "-nocudalib", "-fdeclspec", o, "-S", "--cuda-gpu-arch=sm_50", "-Wno-everything", "-std=gnu++17",
                "-fgnuc-version=0", "-mllvm", "-inline-threshold=1000000", "-include", os.path.join(d, "pre.h"), "-I" + os.path.join(tmp, "inc"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src/cuda"),
                os.path.join(d, "k.cu"), "-o", p])
            b = open(p, "rb").read()
            f.write("const unsigned char ptxText%d[] = {%s,0};\n" % (n, ",".join(map(str, b))))
    return [c]

def target(variant):
    return Target("gpu", ["gpu_worker.cpp"], vlib.repo_sources(["src/serial/"]), variant, config=["LIB842_HAVE_CUDA"], gen=gen)
