"""Building the OpenCL part: cl2c, the generated sources, and the kernel as native code.

The kernel is compiled for the host with clang's OpenCL front end, from exactly the source and the options which the
library hands to the OpenCL compiler (captured by harness/cldump.cpp), so that sanitizers can instrument it."""
import os, re, shlex, subprocess
import vlib
from vlib import Target, build, sh, repo_sources, HarnessError, VERIF, REPO

CLDEFS = ["CL_TARGET_OPENCL_VERSION=120", "CL_HPP_MINIMUM_OPENCL_VERSION=120", "CL_HPP_TARGET_OPENCL_VERSION=120", "CL_HPP_ENABLE_EXCEPTIONS"]

def cl2c(tmp):
    exe = os.path.join(tmp, "cl2c")
    sh(["g++", "-O1", "-std=gnu++17", "-w", os.path.join(REPO, "src/tools/cl2c.cpp"), "-o", exe])
    return exe

def gen_sources(tmp):
    """As CMakeLists.txt does it."""
    exe = cl2c(tmp)
    out = []
    for src, dst, var in (("src/common/842.h", "decompress_cl_842defs.c", "LIB842_CLDECOMPRESS_842DEFS_SOURCE"),
                          ("src/ocl/decompress.cl", "decompress_cl_kernel.c", "LIB842_CLDECOMPRESS_KERNEL_SOURCE")):
        d = os.path.join(tmp, dst)
        sh([exe, os.path.join(REPO, src), d, var])
        out.append(d)
    return out

def cl_header_order(tmp):
    """The order in which cl.h documents the two look-alike parameters of CLDeviceDecompressor::decompress."""
    t = open(os.path.join(REPO, "include/lib842/cl.h"), errors="replace").read()
    m = re.search(r"void\s+decompress\s*\(\s*const\s+cl::CommandQueue(.*?)\)\s*const", t, re.S)
    swapped = 0
    if m:
        a, b = m.group(1).find("chunkShuffleMap"), m.group(1).find("returnValues")
        if a >= 0 and b >= 0 and b < a: swapped = 1
    with open(os.path.join(tmp, "inc/clorder.h"), "w") as f: f.write("#define CL_RETURN_VALUES_FIRST %d\n" % swapped)

def lib():
    return repo_sources(["src/serial/", "src/serial_optimized/", "src/ocl/"])

def dump_target():
    return Target("cldump", ["cldump.cpp"], lib(), "plain", config=["LIB842_HAVE_OPENCL"], defs=CLDEFS, ldflags=["-lOpenCL", "-ldl"], gen=gen_sources)

NAMES = ["in", "inOffset", "ilen", "out", "outOffset", "olen", "numChunks", "chunkShuffleMap", "returnValues"]
WRAP = ["__global void *", "ulong ", "__global void *", "__global void *", "ulong ", "__global void *", "ulong ", "__global void *", "__global void *"]

def wrapper(src, k):
    s = re.sub(r"/\*.*?\*/|//[^\n]*", " ", src, flags=re.S)
    m = re.search(r"\b(?:__kernel|kernel)\s+(?:__attribute__\s*\(\(.*?\)\)\s*)?void\s+(?:__attribute__\s*\(\(.*?\)\)\s*)?(\w+)\s*\(([^)]*)\)", s, re.S)
    if not m: raise HarnessError("kernel not found in the OpenCL source")
    params = []
    for p in m.group(2).split(","):
        q = re.match(r"(.*?)(\w+)\s*$", " ".join(p.split()), re.S)
        params.append((q.group(1), q.group(2)))
    if len(params) != len(NAMES): raise HarnessError("kernel has %d parameters" % len(params))
    by_name = sorted(n for _, n in params) == sorted(NAMES)
    args = ["(%s)a%d" % (t, NAMES.index(n) if by_name else i) for i, (t, n) in enumerate(params)]
    return "\nvoid vk%d(%s) { %s(%s); }\n" % (k, ", ".join("%sa%d" % (w, i) for i, w in enumerate(WRAP)), m.group(1), ", ".join(args))

def compile_kernels(tmp, variant):
    """Returns (objects, number of kernels). A kernel that can not be compiled natively is left out."""
    exe = build(dump_target())
    d = os.path.join(tmp, "kd"); os.makedirs(d, exist_ok=True)
    env = dict(os.environ); env["POCL_CACHE_DIR"] = d
    r = subprocess.run([exe, d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=d, timeout=120)
    if r.returncode: return [], [], "capturing the program failed (%d): %s" % (r.returncode, r.stdout.decode(errors="replace")[-300:])
    san = {"plain": ["-O2"], "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=all"],
           "msan": ["-O1", "-fsanitize=memory"]}[variant]
    objs, ids, why = [], [], ""
    jobs = []
    k = 0
    while os.path.exists(os.path.join(d, "k%d.src" % k)):
        src = open(os.path.join(d, "k%d.src" % k), errors="replace").read()
        opt = shlex.split(open(os.path.join(d, "k%d.opt" % k)).read())
        try:
            c = os.path.join(d, "k%d.cl" % k)
            with open(c, "w") as f: f.write(src + wrapper(src, k))
            o = os.path.join(d, "k%d.o" % k)
            jobs.append((k, o, ["clang", "-x", "cl", "-cl-std=CL1.2", "-target", "x86_64-unknown-linux-gnu", "-Xclang", "-finclude-default-header", "-fPIC", "-w", "-g1",
                                "-fno-omit-frame-pointer"] + san + opt + ["-c", c, "-o", o]))
        except HarnessError as e: why = str(e)
        k += 1
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(vlib.NCPU) as ex:
        res = list(ex.map(lambda j: subprocess.run(j[2], stdout=subprocess.PIPE, stderr=subprocess.STDOUT), jobs))
    for (k, o, _), r in zip(jobs, res):
        if r.returncode: why = r.stdout.decode(errors="replace")[-400:]; continue
        # keep only the entry point global: every configuration defines the same kernel
        sh(["objcopy", "--keep-global-symbol=vk%d" % k, o])
        objs.append(o); ids.append(k)
    return objs, ids, why

def native_header(tmp, ids, why):
    with open(os.path.join(tmp, "inc/clnative.h"), "w") as f:
        f.write("typedef void (*vk_t)(const void *, uint64_t, const void *, void *, uint64_t, void *, uint64_t, const void *, void *);\nextern \"C\" {\n")
        for k in ids: f.write("void vk%d(const void *, uint64_t, const void *, void *, uint64_t, void *, uint64_t, const void *, void *);\n" % k)
        f.write("}\nstruct Native { int cfg; vk_t f; };\nstatic const Native natives[] = { %s { -1, 0 } };\n" % "".join("{ %d, vk%d }, " % (k, k) for k in ids))
        f.write("static const char *const nativeWhyNot = \"%s\";\n" % re.sub(r'[^A-Za-z0-9_.,:;/ -]', ' ', why)[-300:])

def worker_target(variant):
    host = variant != "msan"
    def gen(tmp):
        cl_header_order(tmp)
        objs, ids, why = compile_kernels(tmp, variant)
        native_header(tmp, ids, why)
        if why: print("note: no native kernel for some configurations: " + why)
        gen.objs = objs
        return gen_sources(tmp) if host else []
    def objs(tmp):
        d = os.path.join(tmp, "kd")
        return sorted(os.path.join(d, x) for x in os.listdir(d) if x.endswith(".o")) if os.path.isdir(d) else []
    if not host:
        return Target("clw", ["cl_worker.cpp"], [], variant, defs=["NO_HOST"], gen=gen, extra_objs=objs)
    return Target("clw", ["cl_worker.cpp"], lib(), variant, config=["LIB842_HAVE_OPENCL"], defs=CLDEFS, ldflags=["-lOpenCL", "-ldl"], gen=gen, extra_objs=objs)
