"""T01: the build-time generators. Runs cl2c and gen_crc32table as built from the current tree (product flags and
ASan+UBSan), and judges what the compiler makes of their output."""
import os, random, re, subprocess, ctypes, hashlib, shutil, zlib, tempfile, concurrent.futures as cf
import vlib
from vlib import sh, REPO, VERIF, HarnessError, VARIANTS

KINDS = ["ascii", "quotes", "backslash", "newlines", "crlf", "control", "bytes", "escapes", "code", "longline", "empty", "tail", "utf8", "trigraph", "mixed", "big", "single"]

def text(rnd, kind, idx):
    n = rnd.choice([0, 1, 2, 3, 10, 50, 200, 1000])
    if kind == "single": return bytes([1 + idx // len(KINDS) % 255])
    if kind == "empty": return b""
    if kind == "bytes": return bytes(rnd.randrange(1, 256) for _ in range(n))
    if kind == "big": return bytes(rnd.choice(b"abc \n\t\"\\/*;\xff\xfe%0") for _ in range(rnd.choice([4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 70000, 200000])))
    if kind == "longline": return b"x" * rnd.choice([255, 256, 4095, 4096, 4097, 10000, 66000]) + (b"\n" if rnd.random() < .5 else b"")
    toks = {"ascii": [bytes([c]) for c in range(32, 127)], "quotes": [b'"', b"'", b'""', b'\\"', b"a"], "backslash": [b"\\", b"\\\\", b"n", b"\\\n", b'"', b"\\x41", b"x"],
            "newlines": [b"\n", b"\n\n", b"a", b" "], "crlf": [b"\r\n", b"\r", b"\n", b"a", b"\\", b'"'], "control": [bytes([c]) for c in range(1, 32)] + [b"\x7f", b"a"],
            "escapes": [b"\\n", b"\\t", b"\\0", b"\\x4", b"\\u00e9", b"\\U0001F600", b"\\a", b"\\e", b"\\", b"7", b"f", b"%s", b"%d", b"%", b"%%n"],
            "code": [b"#define X(a) \\\n", b"\tif (a == '\\n') {\n", b'printf("%d\\n", x);\n', b"// comment\n", b"/* \\ */\n", b"#include <x>\n", b"'\"'", b"R\"(", b")\"", b";\n", b"\"\n;\n", b"const char *x =\n\""],
            "utf8": ["é".encode(), "漢".encode(), "😀".encode(), b"\xef\xbb\xbf", b"\xc3", b"\xff", b"\xfe", b"\x80", b"\xff\xff", b"a", b"\n", b"\xe2\x80\xa8", b"\xc2\x85"],
            "trigraph": [b"??/", b"??=", b"??(", b"??'", b"?", b"??", b"a", b"\n", b'"', b"<:", b"%:"],
            "tail": [b"a", b"\n"]}
    toks["mixed"] = [t for v in list(toks.values()) for t in rnd.sample(v, min(3, len(v)))]
    t = b"".join(rnd.choice(toks[kind]) for _ in range(n))
    if kind == "tail": t += rnd.choice([b"\n", b"", b"\\", b'"', b"\xff", b"\r", b" ", b"\t", b"\\\n", b"\x1a", b"\n\n\n", b"\0"[:0]])
    return t.replace(b"\0", b"\1")

def build_tools(tmp):
    out = {}
    jobs = []
    for v in ("plain", "asan"):
        V = VARIANTS[v]
        a, b = os.path.join(tmp, "cl2c-" + v), os.path.join(tmp, "gentab-" + v)
        jobs.append([V["cxx"], "-std=gnu++17", "-w"] + V["flags"] + [os.path.join(REPO, "src/tools/cl2c.cpp"), "-o", a])
        jobs.append([V["cc"], "-std=gnu11", "-w"] + V["flags"] + [os.path.join(REPO, "src/tools/gen_crc32table.c"), "-o", b])
        out[v] = (a, b)
    with cf.ThreadPoolExecutor(4) as ex: list(ex.map(sh, jobs))
    return out

def run_tool(cmd, **kw):
    env = dict(os.environ); env.update(vlib.SAN_ENV)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=env, timeout=60, **kw)

def batch(tmp, tools, seed, indices, res, cc):
    d = tempfile.mkdtemp(dir=tmp)
    cases, srcs = [], []
    for i in indices:
        rnd = random.Random("%d/T01/%d" % (seed, i))
        kind = KINDS[i % len(KINDS)]
        t = text(rnd, kind, i)
        variant = "asan" if i % 3 == 0 else "plain"
        src, dst = os.path.join(d, "t%d.txt" % i), os.path.join(d, "v%d.c" % i)
        with open(src, "wb") as f: f.write(t)
        if rnd.random() < .3: # the output file exists already and is longer
            with open(dst, "wb") as f: f.write(b"garbage;\n" * rnd.choice([1, 100, len(t)]))
        r = run_tool([tools[variant][0], src, dst, "V%d" % i])
        if r.returncode:
            key = vlib.summarize_san(r.stderr.decode(errors="replace")) if hasattr(vlib, "summarize_san") else None
            res.fails.append(dict(key=key or "tool failed on a readable text", detail="cl2c exit %d on %r: %s" % (r.returncode, t[:200], r.stderr[-800:]), index=i, variant=variant)); continue
        cases.append((i, kind, t, variant)); srcs.append(dst)
    so = os.path.join(d, "all.so")
    def compiled(ss, so): return subprocess.run([cc, "-std=gnu11", "-w", "-O0", "-shared", "-fPIC"] + ss + ["-o", so], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    r = compiled(srcs, so) if srcs else None
    libs = {}
    if r is not None and r.returncode:
        for (i, kind, t, variant), s in zip(cases, srcs): # find out which
            one = os.path.join(d, "one%d.so" % i); q = compiled([s], one)
            if q.returncode: res.fails.append(dict(key="generated source does not compile", detail="text %r: %s" % (t[:200], q.stdout[-600:].decode(errors="replace")), index=i, variant=variant))
            else: libs[i] = one
    elif r is not None: libs = {i: so for i, *_ in cases}
    handles = {p: ctypes.CDLL(p) for p in set(libs.values())}
    for i, kind, t, variant in cases:
        if i not in libs: continue
        try: got = ctypes.string_at(ctypes.c_void_p.in_dll(handles[libs[i]], "V%d" % i).value)
        except ValueError as e:
            res.fails.append(dict(key="variable missing", detail=str(e), index=i, variant=variant)); continue
        res.cases += 1; res.perv[variant] = res.perv.get(variant, 0) + 1
        res.add_stat("texts of kind " + kind, 1); res.add_stat("bytes embedded", len(t))
        if t: res.hashes.add(int.from_bytes(hashlib.sha256(t).digest()[:8], "little"))
        if got != t:
            k = next((k for k in range(min(len(got), len(t))) if got[k] != t[k]), min(len(got), len(t)))
            res.fails.append(dict(key="embedded text differs", detail="kind %s: %d bytes embedded as %d; first difference at %d: %r instead of %r" % (kind, len(t), len(got), k, got[k:k + 20], t[k:k + 20]), index=i, variant=variant))
        elif len(res.samples) < 6: res.samples.append("%s case %d (%s): %r" % (variant, i, kind, t[:60]))
    shutil.rmtree(d, ignore_errors=True)

def refusals(tmp, tools, res):
    """A text which can not be read, or an output which can not be written, must stop the build."""
    d = tempfile.mkdtemp(dir=tmp)
    ok = os.path.join(d, "ok.txt"); open(ok, "w").write("hello\n" * 10)
    big = os.path.join(d, "big.txt"); open(big, "w").write("hello world\n" * 20000)
    tests = [("missing input", [os.path.join(d, "absent.txt"), os.path.join(d, "a.c"), "V"]), ("input is a directory", [d, os.path.join(d, "b.c"), "V"]),
             ("output directory missing", [ok, os.path.join(d, "no/such/c.c"), "V"]), ("output is a directory", [ok, d, "V"]), ("disk full", [ok, "/dev/full", "V"]), ("disk full, long text", [big, "/dev/full", "V"]),
             ("missing argument", [ok, os.path.join(d, "e.c")]), ("no arguments", [])]
    for n, (what, args) in enumerate(tests):
        for v in ("plain", "asan"):
            r = run_tool([tools[v][0]] + args, cwd=d)
            res.cases += 1; res.add_stat("impossible inputs and outputs", 1)
            if r.returncode == 0: res.fails.append(dict(key="tool succeeds: " + what, detail="cl2c %s exits 0" % " ".join(args), index=10**6 + n, variant=v))
    shutil.rmtree(d, ignore_errors=True)

def bitcrc(data, crc=0):
    for b in data:
        crc ^= b << 24
        for _ in range(8): crc = (crc << 1 ^ 0x04c11db7 if crc & 0x80000000 else crc << 1) & 0xffffffff
    return crc

def tables(tmp, tools, res):
    d = tempfile.mkdtemp(dir=tmp)
    want = [[bitcrc(bytes([i]) + bytes(j)) for i in range(256)] for j in range(8)]
    heads = {"shipped header": os.path.join(REPO, "src/common/crc32table.h")}
    for v in ("plain", "asan"):
        r = run_tool([tools[v][1]])
        if r.returncode: res.fails.append(dict(key="table generator failed", detail=r.stderr[-800:].decode(errors="replace"), index=10**6 + 50, variant=v)); continue
        p = os.path.join(d, "gen-%s.h" % v); open(p, "wb").write(r.stdout); heads["generated header (%s)" % v] = p
    for n, (what, h) in enumerate(sorted(heads.items())):
        for big in (False, True):
            c = os.path.join(d, "t.c"); exe = os.path.join(d, "t")
            with open(c, "w") as f:
                if big: f.write("#undef __BYTE_ORDER__\n#define __BYTE_ORDER__ __ORDER_BIG_ENDIAN__\n")
                f.write('#include "%s"\n#include <stdio.h>\nint main(void){ _Static_assert(sizeof crc32table_be == 8192, ""); for (int j = 0; j < 8; j++) for (int i = 0; i < 256; i++) printf("%%u\\n", (unsigned)crc32table_be[j][i]); return 0; }\n' % h)
            q = subprocess.run(["gcc", "-std=gnu11", "-w", c, "-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if q.returncode: res.fails.append(dict(key="%s does not compile" % what, detail=q.stdout[-800:].decode(errors="replace"), index=10**6 + 60 + n, variant="plain")); continue
            vals = [int(x) for x in subprocess.run([exe], stdout=subprocess.PIPE).stdout.split()]
            res.cases += 1; res.add_stat("table entries compared", len(vals))
            for k, x in enumerate(vals):
                w = want[k // 256][k % 256]
                if not big: w = int.from_bytes(w.to_bytes(4, "big"), "little")
                res.hashes.add(k)
                if x != w: res.fails.append(dict(key="%s: wrong entry" % what, detail="%s-endian table[%d][%d] is %#x, the definition gives %#x" % ("big" if big else "little", k // 256, k % 256, x, w), index=10**6 + 60 + n, variant="plain")); break
    shutil.rmtree(d, ignore_errors=True)

def program(tmp, res):
    """What the library hands to the OpenCL compiler contains the two files of the repository, byte for byte."""
    import cl
    d = tempfile.mkdtemp(dir=tmp)
    exe = vlib.build(cl.dump_target())
    env = dict(os.environ); env["POCL_CACHE_DIR"] = d
    r = subprocess.run([exe, d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=d, timeout=120)
    k = 0
    while os.path.exists(os.path.join(d, "k%d.src" % k)):
        src = open(os.path.join(d, "k%d.src" % k), "rb").read()
        for f in ("src/common/842.h", "src/ocl/decompress.cl"):
            t = open(os.path.join(REPO, f), "rb").read()
            res.cases += 1; res.add_stat("programs inspected", 1)
            if t not in src: res.fails.append(dict(key="the program built is not the one in the repository: " + f, detail="configuration %d: %d bytes of program do not contain the %d bytes of %s" % (k, len(src), len(t), f), index=10**6 + 70, variant="plain"))
        k += 1
    if k == 0: res.inconclusive.append("no program seen (%d): %s" % (r.returncode, r.stdout[-300:].decode(errors="replace")))
    shutil.rmtree(d, ignore_errors=True)

def run(tier, seed, res, replay=None):
    tmp = tempfile.mkdtemp(prefix="t01.", dir=vlib.BUILD if os.path.isdir(vlib.BUILD) else None)
    try:
        tools = build_tools(tmp)
        if replay is not None and replay < 10**6: batch(tmp, tools, seed, [replay], res, "gcc"); return
        n = 2550 if tier == "quick" else 60000
        jobs = [range(a, min(a + 85, n)) for a in range(0, n, 85)]
        with cf.ThreadPoolExecutor(vlib.NCPU) as ex:
            fs = [ex.submit(batch, tmp, tools, seed, j, res, "clang" if k % 4 == 3 else "gcc") for k, j in enumerate(jobs)]
            fs += [ex.submit(refusals, tmp, tools, res), ex.submit(tables, tmp, tools, res), ex.submit(program, tmp, res)]
            for f in fs: f.result()
    finally: shutil.rmtree(tmp, ignore_errors=True)
