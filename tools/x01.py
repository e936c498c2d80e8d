"""X01: the sample programs, run on files, with and without a library that misbehaves (harness/saboteur.cpp)."""
import os, random, re, shutil, subprocess, tempfile, hashlib, concurrent.futures as cf
import vlib, cl
from vlib import Target, build, repo_sources, REPO, HarnessError

CORE = ["src/serial/", "src/serial_optimized/"]
MSG = b"Compression- and decompression was successful!"
# program: (source, definitions, OpenCL)
PROGRAMS = {
    "test_serial": ("compdecomp.c", [], False),
    "test_serial_optimized": ("compdecomp.c", ["USEOPTSW"], False),
    "test_serial_optimized_streams": ("compdecomp_streams.cpp", ["USEOPTSW"], False),
    "test_ocl": ("compdecomp_cl.cpp", [], True),
    "test_ocl_maybe": ("compdecomp_cl.cpp", ["USE_MAYBE_COMPRESSED_CHUNKS"], True),
    "test_ocl_inplace": ("compdecomp_cl.cpp", ["USE_INPLACE_COMPRESSED_CHUNKS"], True),
}
def target(prog, variant):
    src, defs, ocl = PROGRAMS[prog]
    wrap = ["get_sw842_implementation", "get_optsw842_implementation"]
    kw = dict(config=["LIB842_HAVE_NUMA"], defs=defs + ["LIB842_HAVE_NUMA"])
    ld = ["-lnuma"]
    if ocl:
        wrap = wrap + ["cl842_decompress", "_ZNK6lib84218CLHostDecompressor10decompressEPKhmPKmPhmPmS6_PiPx"]
        kw = dict(config=["LIB842_HAVE_OPENCL"], defs=defs + cl.CLDEFS + ["SAB_CL"], gen=cl.gen_sources)
        ld = ["-lOpenCL", "-ldl"]
    lib = repo_sources(CORE + (["src/ocl/"] if ocl else ["src/stream/"]))
    return Target("x01-" + prog, ["saboteur.cpp"], lib, variant, flags=["-fopenmp"] if variant == "plain" and "streams" not in prog else [],
                  extra_sources=[os.path.join(REPO, "sample", src), os.path.join(REPO, "sample/compdecomp_driver.c")], ldflags=ld + ["-Wl,--wrap=" + w for w in wrap], **kw)

def content(r, n, unit):
    kind = r.choice(["zero", "const", "random", "text", "mix", "ramp", "sparse", "words"])
    if kind == "zero": b = bytes(n)
    elif kind == "const": b = bytes([r.randrange(256)]) * n
    elif kind == "random": b = r.randbytes(n)
    elif kind == "text": b = (b"the quick brown fox jumps over the lazy dog, %d times " % r.randrange(1000)) * (n // 40 + 1)
    elif kind == "mix": b = b"".join(r.randbytes(unit) if r.random() < .5 else bytes([r.randrange(256)]) * unit for _ in range(n // unit + 1))
    elif kind == "ramp": b = b"".join(i.to_bytes(4, "little") for i in range(r.randrange(1 << 20), r.randrange(1 << 20) + (1 << 20) + n // 4 + 1))
    elif kind == "sparse":
        a = bytearray(n)
        for _ in range(n // 50): a[r.randrange(n)] = r.randrange(256)
        b = bytes(a)
    else: w = [r.randbytes(8) for _ in range(40)]; b = b"".join(r.choice(w) for _ in range(n // 8 + 1))
    b = b[:n]
    return kind, b + bytes(n - len(b))

def one(exes, tmp, seed, i, res):
    r = random.Random("%d/X01/%d" % (seed, i))
    prog = list(PROGRAMS)[i % len(PROGRAMS)]
    variant = "asan" if i // len(PROGRAMS) % 3 == 2 else "plain"
    ocl, stream = PROGRAMS[prog][2], "streams" in prog
    unit = 65536; limit = (1 << 20) if stream else unit
    d = tempfile.mkdtemp(dir=tmp)
    try:
        env = dict(os.environ); env.update(vlib.SAN_ENV)
        env.update(POCL_MAX_PTHREAD_COUNT="2", POCL_CACHE_DIR=os.path.join(tmp, "pocl"), OMP_NUM_THREADS=str(r.choice([1, 2, 3, 4])), HOME=d)
        for k in ("VERIF_SAB", "VERIF_SAB_MARK"): env.pop(k, None)
        if stream:
            env["COMPDECOMP_NUM_THREADS"] = r.choice(["1", "2", "3", "5", "8"])
            if r.random() < .2: env["COMPDECOMP_NUMA_SPREAD"] = "1"
        special = r.random() < .06
        args, data, what = [], None, ""
        if special:
            what = r.choice(["missing", "directory", "none"])
            if what == "missing": args = [os.path.join(d, "absent")]
            elif what == "directory": args = [d]
        else:
            top = (3 << 20) if stream else (3 << 19) if not (prog == "test_serial" and variant == "asan") else 200000
            n = r.choice([0, 1, 7, 8, 9, 64, 1000, unit - 1, unit, unit + 1, 2 * unit, limit - 1, limit, limit + 1, 2 * limit, r.randrange(limit), r.randrange(top), r.randrange(top), 17 * unit + r.randrange(unit)])
            n = min(n, top)
            kind, data = content(r, n, unit)
            what = "%d bytes, %s" % (n, kind)
            args = [os.path.join(d, "file")]
            with open(args[0], "wb") as f: f.write(data)
        padded = 32 if data is None else (len(data) + limit - 1) // limit * limit
        markf = os.path.join(d, "mark"); sab = ""
        if what not in ("missing", "directory") and r.random() < .5:
            kinds = ["flip", "derr", "zero", "short", "cerr"]
            if ocl: kinds = ["flip", "derr", "zero"] + (["short"] if padded <= limit else [])
            sab = r.choice(kinds)
            nch = max(padded // unit, 1)
            env["VERIF_SAB"] = "%s:%d:%d" % (sab, 0 if padded <= limit else r.randrange(nch), r.randrange(1 << 22)); env["VERIF_SAB_MARK"] = markf
        try: p = subprocess.run([exes[prog, variant]] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=env, cwd=d, timeout=300)
        except subprocess.TimeoutExpired:
            res.inconclusive.append("%s did not end within 300 s" % prog); return
        ctx = "%s (%s) on %s%s: exit %d, %s" % (prog, variant, what or "its own text", ", sabotage %s" % env["VERIF_SAB"] if sab else "", p.returncode, p.stderr[-1500:].decode(errors="replace"))
        def fail(key): res.fails.append(dict(key=key, detail=ctx, index=i, variant=variant))
        if os.environ.get("X01_TRACE"): print(ctx[:300])
        if b"ERROR: " in p.stderr and b"Sanitizer" in p.stderr or b"runtime error:" in p.stderr: return fail(vlib.summarize_san(p.stderr.decode(errors="replace")) or "sanitizer report")
        if p.returncode < 0: return fail("crash (signal %d)" % -p.returncode)
        said = p.stdout.count(MSG)
        if (p.returncode == 0) != (said == 1) or said > 1: return fail("exit code and message contradict each other")
        res.cases += 1; res.perv[variant] = res.perv.get(variant, 0) + 1
        res.add_stat("runs of " + prog, 1)
        fired = os.path.exists(markf)
        if what in ("missing", "directory"):
            res.add_stat("unreadable inputs", 1)
            if p.returncode == 0: fail("success although the input can not be read")
            return
        if fired:
            res.add_stat("sabotaged (%s)" % sab, 1)
            if p.returncode == 0: return fail("success reported although " + {"flip": "a decompressed bit is wrong", "zero": "decompressed data is wrong", "derr": "decompression failed", "short": "decompressed data is missing", "cerr": "compression failed"}[sab])
        elif p.returncode:
            # documented not to work for all data
            if prog == "test_ocl_inplace" and data is not None and padded > limit and kind not in ("zero", "const", "random", "mix") and b"differs" in p.stderr: res.add_stat("in place: documented limitation", 1); return
            return fail("failure on a readable file")
        else:
            res.add_stat("round trips confirmed", 1)
            m = re.search(rb"^Input: (\d+) bytes$", p.stdout, re.M)
            if m and int(m.group(1)) != padded: return fail("wrong input size reported")
            if data is not None and padded <= limit: # the program prints what it decompressed
                lines = [l for l in p.stdout.split(b"\n") if re.fullmatch(rb"([0-9a-f]{2}:)+", l)]
                if padded and (len(lines) < 2 or bytes.fromhex(lines[-1].replace(b":", b"").decode()) != data + bytes(padded - len(data))): return fail("printed data is not the file's")
        if data is not None: res.hashes.add(int.from_bytes(hashlib.sha256(("%s %s " % (prog, sab)).encode() + data).digest()[:8], "little"))
        if len(res.samples) < 6: res.samples.append(ctx.split(": exit")[0] + ": exit %d" % p.returncode)
    finally: shutil.rmtree(d, ignore_errors=True)

def run(tier, seed, res, replay=None):
    tmp = tempfile.mkdtemp(prefix="x01.", dir=vlib.BUILD if os.path.isdir(vlib.BUILD) else None)
    try:
        os.mkdir(os.path.join(tmp, "pocl"))
        exes = {}
        keys = [(p, v) for p in PROGRAMS for v in ("plain", "asan")]
        with cf.ThreadPoolExecutor(4) as ex:
            for k, e in zip(keys, ex.map(lambda k: build(target(*k)), keys)): exes[k] = e
        if replay is not None: one(exes, tmp, seed, replay, res); return
        n = 600 if tier == "quick" else 12000
        with cf.ThreadPoolExecutor(6) as ex:
            for f in [ex.submit(one, exes, tmp, seed, i, res) for i in range(n)]: f.result()
    finally: shutil.rmtree(tmp, ignore_errors=True)
