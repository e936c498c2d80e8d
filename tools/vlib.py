"""Shared machinery of the checks: building /repo's current tree in variants, running workers over ranges of
cases in parallel, turning what their monitors report into a verdict, evidence files."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(VERIF, "replay")
KNOWN = os.path.join(VERIF, "known-findings.txt")
NCPU = min(8, os.cpu_count() or 8)

class HarnessError(Exception):
    pass

# ------------------------------------------------------------------ building
VARIANTS = {
    # the product's own compiler and flags (CMake RelWithDebInfo of /opt/vp/build.sh)
    "plain": dict(cc="gcc", cxx="g++", flags=["-O2", "-g1", "-march=native"]),
    # what users who build for release get: other optimisations, no assertions
    "release": dict(cc="gcc", cxx="g++", flags=["-O3", "-DNDEBUG", "-g1", "-march=native"]),
    # streams with their optional tracing
    "trace": dict(cc="gcc", cxx="g++", flags=["-O2", "-g1", "-march=native", "-DLIB842_STREAM_INDEPTH_TRACE"]),
    "tsantrace": dict(cc="clang", cxx="clang++", flags=["-O1", "-g1", "-march=native", "-fno-omit-frame-pointer", "-fsanitize=thread", "-DLIB842_STREAM_INDEPTH_TRACE"]),
    "asan": dict(cc="clang", cxx="clang++", flags=["-O1", "-g1", "-march=native", "-fno-omit-frame-pointer",
                 "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
    "tsan": dict(cc="clang", cxx="clang++", flags=["-O1", "-g1", "-march=native", "-fno-omit-frame-pointer", "-fsanitize=thread"]),
    "msan": dict(cc="clang", cxx="clang++", flags=["-O1", "-g1", "-march=native", "-fno-omit-frame-pointer",
                 "-fsanitize=memory", "-fno-sanitize-recover=all"]),
}
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:halt_on_error=1:handle_abort=1:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1:print_summary=1:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:abort_on_error=0:exitcode=66:second_deadlock_stack=1:report_signal_unsafe=0:history_size=4",
    "MSAN_OPTIONS": "halt_on_error=1:abort_on_error=1",
}

def repo_sources(prefixes):
    """Source files of the library target, from CMakeLists.txt (so that a file added to the build is seen)."""
    cm = open(os.path.join(REPO, "CMakeLists.txt"), errors="replace").read()
    found = re.findall(r"\bsrc/[A-Za-z0-9_./-]+\.(?:cpp|cc|c)\b", cm)
    out = []
    for f in found:
        if any(f.startswith(p) for p in prefixes) and f not in out and os.path.exists(os.path.join(REPO, f)):
            out.append(f)
    if not out:
        raise HarnessError("no library sources found for %s" % (prefixes,))
    return out

def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            if ".git" in ds: ds.remove(".git")
            if "_build" in ds: ds.remove("_build")
            for f in sorted(fs):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, d).encode())
                try:
                    with open(p, "rb") as fh: h.update(fh.read())
                except OSError: pass
    return h

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise HarnessError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout.decode(errors="replace")[-3000:]))
    return r.stdout

def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text: return
    except OSError: pass
    with open(path, "w") as f: f.write(text)

def config_header(opts):
    t = open(os.path.join(REPO, "include/lib842/config.h.in")).read()
    def sub(m):
        n = m.group(1)
        return ("#define %s" % n) if n in opts else ("/* #undef %s */" % n)
    return re.sub(r"#cmakedefine\s+(\w+)", sub, t)

class Target:
    """One executable: harness files + library sources, in one variant."""
    def __init__(self, name, harness, lib=(), variant="plain", config=(), defs=(), flags=(), ldflags=(), extra_sources=(), incs=(), gen=None, extra_objs=None):
        self.name, self.harness, self.lib, self.variant = name, list(harness), list(lib), variant
        self.config, self.defs, self.flags, self.ldflags = list(config), list(defs), list(flags), list(ldflags)
        self.extra_sources, self.incs, self.gen = list(extra_sources), list(incs), gen
        self.extra_objs = extra_objs

_locks = {}
_ll = threading.Lock()
def _lock(k):
    with _ll:
        return _locks.setdefault(k, threading.Lock())

_src_hash = None
def source_hash():
    global _src_hash
    if _src_hash is None:
        h = tree_hash([os.path.join(REPO, "src"), os.path.join(REPO, "include"), os.path.join(REPO, "test"), os.path.join(REPO, "sample"), os.path.join(VERIF, "harness")])
        h.update(open(os.path.join(REPO, "CMakeLists.txt"), "rb").read())
        _src_hash = h.hexdigest()
    return _src_hash

def build(t):
    """Compiles target t from the current tree. Returns the path of the executable."""
    v = VARIANTS[t.variant]
    key = hashlib.sha256(json.dumps([source_hash(), t.name, t.harness, t.lib, t.variant, t.config, t.defs, t.flags, t.ldflags, t.extra_sources, v], sort_keys=True).encode()).hexdigest()[:20]
    d = os.path.join(BUILD, "%s-%s-%s" % (t.name, t.variant, key))
    exe = os.path.join(d, "worker")
    with _lock(d):
        if os.path.exists(exe): return exe
        tmp = d + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(os.path.join(tmp, "inc/lib842"))
        shim = os.path.join(tmp, "inc/uthash/src"); os.makedirs(shim)
        for f in ("uthash.h", "utlist.h"):
            os.symlink("/usr/include/" + f, os.path.join(shim, f))
        with open(os.path.join(tmp, "inc/lib842/config.h"), "w") as f: f.write(config_header(t.config))
        incs = ["-I" + os.path.join(tmp, "inc"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness"), "-I" + REPO + "/src"] + ["-I" + i for i in t.incs]
        common = v["flags"] + t.flags + ["-D" + x for x in t.defs] + ["-w", "-fPIC"] + incs
        objs, jobs = [], []
        gensrc = t.gen(tmp) if t.gen else []
        srcs = [os.path.join(REPO, s) for s in t.lib] + gensrc + [os.path.join(VERIF, "harness", s) for s in t.harness] + list(t.extra_sources)
        for i, s in enumerate(srcs):
            o = os.path.join(tmp, "o%d.o" % i); objs.append(o)
            if s.endswith(".c"): cmd = [v["cc"], "-std=gnu11"] + common + ["-c", s, "-o", o]
            else: cmd = [v["cxx"], "-std=gnu++17"] + common + ["-c", s, "-o", o]
            jobs.append(cmd)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for f in [ex.submit(sh, j) for j in jobs]: f.result()
        if t.extra_objs: objs += t.extra_objs(tmp)
        sh([v["cxx"]] + v["flags"] + t.flags + objs + ["-o", os.path.join(tmp, "worker"), "-lpthread"] + t.ldflags)
        shutil.rmtree(d, ignore_errors=True)
        try: os.rename(tmp, d)
        except OSError:
            if not os.path.exists(exe): raise
    return exe

def prune_build(keep=60):
    """Keep the build directory bounded."""
    try: ds = [os.path.join(BUILD, x) for x in os.listdir(BUILD)]
    except OSError: return
    ds = sorted((x for x in ds if os.path.isdir(x)), key=lambda x: os.path.getmtime(x), reverse=True)
    for x in ds[keep:]: shutil.rmtree(x, ignore_errors=True)

# ------------------------------------------------------------------ running
class Result:
    def __init__(self):
        self.fails = []       # dicts: key, detail, index, variant, worker...
        self.inconclusive = []
        self.stats = {}
        self.samples = []
        self.hashes = set()
        self.cases = 0
        self.perv = {}
    def add_stat(self, n, k): self.stats[n] = self.stats.get(n, 0) + k

def proc_cpu(pid):
    """user+system CPU seconds consumed by the process (all threads)."""
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except Exception: return None

def summarize_san(text):
    """A stable key from a sanitizer report."""
    m = re.search(r"SUMMARY: (\w+): ([\w-]+)(?: (\S+))?(?: in (.+))?", text)
    key = None
    if m:
        where = (m.group(4) or m.group(3) or "").strip()
        where = re.sub(r"\(.*", "", where).strip() or "?"
        where = re.sub(r":\d+(:\d+)?$", "", where)
        where = where.replace(REPO + "/", "").replace(VERIF + "/", "")
        key = "%s: %s in %s" % (m.group(1), m.group(2), where)
    m2 = re.search(r"runtime error: (.*)", text)
    if m2:
        loc = re.search(r"(\S+?):\d+:\d+: runtime error", text)
        msg = re.sub(r"0x[0-9a-f]+|\b\d+\b", "N", m2.group(1))[:120]
        key = "UndefinedBehaviorSanitizer: %s (%s)" % (msg, os.path.basename(loc.group(1)) if loc else "?")
    return key

class Runner:
    """Runs `exe` over case range [0,n) with NCPU processes, collecting results; follows crashes and hangs."""
    def __init__(self, prop, tier, seed, res):
        self.prop, self.tier, self.seed, self.res = prop, tier, seed, res
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
        self.lock = threading.Lock()
        self.n = 0
    def close(self): shutil.rmtree(self.tmp, ignore_errors=True)

    def _launch(self, exe, variant, start, end, replay=False, extra_env=None):
        with self.lock:
            self.n += 1; k = self.n
        d = os.path.join(self.tmp, "w%d" % k); os.makedirs(d)
        env = dict(os.environ)
        for var, val in SAN_ENV.items(): env[var] = val + ":log_path=" + os.path.join(d, "san")
        env["VERIF_SCRATCH"] = d
        if extra_env: env.update({a: b.replace("@D@", d) for a, b in extra_env.items()})
        cmd = [exe, "--prop", self.prop, "--seed", str(self.seed), "--tier", self.tier, "--variant", variant,
               "--start", str(start), "--end", str(end), "--out", os.path.join(d, "out"), "--cur", os.path.join(d, "cur"),
               "--replay", "1" if replay else "0"]
        so = open(os.path.join(d, "stdout"), "wb"); se = open(os.path.join(d, "stderr"), "wb")
        p = subprocess.Popen(cmd, stdout=so, stderr=se, stdin=subprocess.DEVNULL, env=env, cwd=d, start_new_session=True)
        so.close(); se.close()
        return p, d

    @staticmethod
    def _cur(d):
        try:
            b = open(os.path.join(d, "cur"), "rb").read(16)
            return struct.unpack("<QQ", b) if len(b) == 16 else (0, 0)
        except OSError: return (0, 0)

    def _kill(self, p):
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.wait()

    def _wait(self, p, d, stall, cpu_stall):
        """Waits for the process. Returns None when it ended, or 'stall' when one case made no progress for
        `stall` wall seconds or consumed cpu_stall seconds of CPU."""
        last, t0, c0 = self._cur(d), time.time(), proc_cpu(p.pid) or 0
        delay = 0.01
        while True:
            try:
                p.wait(timeout=delay); return None
            except subprocess.TimeoutExpired: pass
            delay = min(0.25, delay * 1.5)
            c = self._cur(d)
            if c != last: last, t0, c0 = c, time.time(), proc_cpu(p.pid) or 0
            elif time.time() - t0 > stall or ((proc_cpu(p.pid) or 0) - c0) > cpu_stall: return "stall"
            try:
                if os.path.getsize(os.path.join(d, "stderr")) > (64 << 20): open(os.path.join(d, "stderr"), "wb").close()
            except OSError: pass

    def _logs(self, d):
        t = ""
        for f in sorted(os.listdir(d)):
            if f.startswith("san."):
                try: t += open(os.path.join(d, f), errors="replace").read()
                except OSError: pass
        try:
            with open(os.path.join(d, "stderr"), "rb") as f:
                f.seek(0, 2); n = f.tell(); f.seek(max(0, n - 6000)); e = f.read().decode(errors="replace")
        except OSError: e = ""
        return t, e

    def _collect(self, d, variant, exe):
        done = None
        try: lines = open(os.path.join(d, "out"), errors="replace").read().splitlines()
        except OSError: lines = []
        for l in lines:
            try: j = json.loads(l)
            except ValueError: continue
            with self.lock:
                if j["t"] == "fail": self.res.fails.append(dict(key=j["key"], detail=j["detail"], index=j["index"], variant=variant))
                elif j["t"] == "inconclusive": self.res.inconclusive.append("%s case %d: %s" % (variant, j["index"], j["detail"]))
                elif j["t"] == "stat": self.res.add_stat(j["name"], j["n"])
                elif j["t"] == "sample":
                    if len(self.res.samples) < 12: self.res.samples.append("%s case %d: %s" % (variant, j["index"], j["detail"]))
                elif j["t"] == "done": done = j["cases"]
        try:
            b = open(os.path.join(d, "out.h"), "rb").read()
            with self.lock: self.res.hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        except OSError: pass
        return done

    def _shard(self, exe, variant, start, end, stall, cpu_stall, env):
        """One process's range; restarted after a crashing case (a few times)."""
        pos, crashes = start, 0
        while pos < end and crashes < (3 if not self.res.fails else 1):
            p, d = self._launch(exe, variant, pos, end, extra_env=env)
            st = self._wait(p, d, stall, cpu_stall)
            cur, phase = self._cur(d)
            if st == "stall":
                self._kill(p)
                self._collect(d, variant, exe)
                if self.res.fails: return # the verdict is known, do not spend time on confirming more
                self._confirm_hang(exe, variant, cur, stall, cpu_stall, env)
                crashes += 1; pos = cur + 1
                shutil.rmtree(d, ignore_errors=True); continue
            done = self._collect(d, variant, exe)
            rc = p.returncode
            if rc == 0 and done is not None:
                with self.lock:
                    self.res.cases += done; self.res.perv[variant] = self.res.perv.get(variant, 0) + done
                shutil.rmtree(d, ignore_errors=True); return
            san, err = self._logs(d)
            if rc == 95: # the worker's watchdog reported a deadlock
                with self.lock: self.res.cases += cur - pos + 1; self.res.perv[variant] = self.res.perv.get(variant, 0) + cur - pos + 1
                crashes += 1; pos = cur + 1
                shutil.rmtree(d, ignore_errors=True); continue
            if rc in (96, 97, 98, 99):
                with self.lock: self.res.inconclusive.append("%s worker exit %d at case %d: %s" % (variant, rc, cur, err[-500:]))
                return
            if rc == -9 and not san:
                with self.lock: self.res.inconclusive.append("%s worker killed (out of memory?) at case %d" % (variant, cur))
                return
            self._crash(variant, cur, rc, san, err)
            with self.lock:
                self.res.cases += cur - pos; self.res.perv[variant] = self.res.perv.get(variant, 0) + cur - pos
            crashes += 1; pos = cur + 1
            shutil.rmtree(d, ignore_errors=True)

    def _crash(self, variant, cur, rc, san, err):
        key = summarize_san(san) or summarize_san(err)
        a = re.search(r"^(.*?Assertion .* failed.*)$", err, re.M)
        if key is None or ("ABRT" in key or "SEGV" in key) and a:
            if a:
                m = re.search(r"(\w[\w.-]*):\d+: (.*?): Assertion [`'](.*?)' failed", a.group(1))
                key = "assertion failed: %s (%s)" % (m.group(3), m.group(1)) if m else "assertion failed: " + a.group(1)[-150:]
            else:
                t = re.search(r"terminate called after throwing an instance of '(.*?)'", err)
                if t: key = "uncaught exception %s" % t.group(1)
                elif "stack smashing" in err: key = "stack smashing detected"
                else:
                    m = re.search(r"(double free|free\(\): [^\n]*|malloc\(\): [^\n]*|corrupted [^\n]*|pure virtual[^\n]*)", err)
                    key = "%s (%s)" % (m.group(1) if m else "crash", signal.Signals(-rc).name if rc < 0 else "exit %d" % rc)
        with self.lock:
            self.res.fails.append(dict(key=key, detail=((san or err)[-3500:]), index=cur, variant=variant))

    def _confirm_hang(self, exe, variant, idx, stall, cpu_stall, env):
        """A case without progress is run again on its own, twice. Only a case that again makes no progress is reported: it either burns
        far more CPU than any case needs, or sits blocked without using CPU. Anything else is inconclusive."""
        why = []
        for _ in range(2):
            p, d = self._launch(exe, variant, idx, idx + 1, replay=True, extra_env=env)
            t0 = time.time(); idle_since, lastc = time.time(), 0.0; verdict = None
            while time.time() - t0 < min(3 * stall, 150):
                try: p.wait(timeout=0.25); break
                except subprocess.TimeoutExpired: pass
                c = proc_cpu(p.pid) or 0
                if c > lastc + 0.05: lastc, idle_since = c, time.time()
                if c > 2 * cpu_stall: verdict = "runs without end (%.0f s CPU)" % c; break
                if time.time() - idle_since > min(stall, 20): verdict = "blocks forever (deadlock)"; break
            if p.poll() is None:
                self._kill(p)
            else:
                self._collect(d, variant, exe)
                if p.returncode != 0:
                    san, err = self._logs(d)
                    if p.returncode not in (95, 96, 97, 98, 99): self._crash(variant, idx, p.returncode, san, err)
                    shutil.rmtree(d, ignore_errors=True); return
                verdict = None
            why.append(verdict)
            shutil.rmtree(d, ignore_errors=True)
            if verdict: break
        with self.lock:
            v = [w for w in why if w]
            if v: self.res.fails.append(dict(key="does not terminate: " + ("blocked" if "block" in v[0] else "runs"), detail=v[0], index=idx, variant=variant))
            else:
                # no progress once, fine on its own twice: keep as inconclusive unless the workload is schedule dependent
                self.res.inconclusive.append("%s case %d stalled once but not when repeated" % (variant, idx))

    def run(self, exe, variant, n, stall=90, cpu_stall=60, procs=None, env=None, start=0):
        procs = min(procs or NCPU, max(1, n))
        # interleave: shards are contiguous ranges
        step = (n + procs - 1) // procs
        rs = [(start + a, start + min(a + step, n)) for a in range(0, n, step)]
        return [(exe, variant, a, b, stall, cpu_stall, env) for a, b in rs]

    def go(self, tasks):
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for f in [ex.submit(self._shard, *t) for t in tasks]: f.result()

    def replay(self, exe, variant, idx, repeat=1, stall=90, cpu_stall=60, env=None):
        for _ in range(repeat):
            p, d = self._launch(exe, variant, idx, idx + 1, replay=True, extra_env=env)
            if self._wait(p, d, stall, cpu_stall) == "stall":
                self._kill(p); self.res.fails.append(dict(key="does not terminate", detail="", index=idx, variant=variant)); return
            done = self._collect(d, variant, exe)
            if p.returncode not in (0, 95, 96, 97, 98, 99):
                san, err = self._logs(d); self._crash(variant, idx, p.returncode, san, err)
            if self.res.fails: return

# ------------------------------------------------------------------ verdicts
def load_known():
    """known-findings.txt: 'finding: property=<id> key=<regex> -- <what fails>' entries are reported as
    KNOWN-FINDING; 'fixed: ...' entries are a record only."""
    out = []
    try: lines = open(KNOWN).read().splitlines()
    except OSError: return out
    for l in lines:
        m = re.match(r"finding: property=(\S+) key=/(.*)/ -- (.*)$", l)
        if m: out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return out

def conclude(prop, tier, seed, res, t0, level, rule, extra=None, assumptions=None, replay_extra=None):
    known = load_known()
    viol, seen_known = {}, {}
    for f in res.fails:
        k = next((x for x in known if x[0] == prop and x[1].fullmatch(f["key"])), None)
        if k: seen_known[k[2]] = seen_known.get(k[2], 0) + 1
        else: viol.setdefault(f["key"], f)
    os.makedirs(EVID, exist_ok=True)
    cov = {"evaluations": res.cases, "distinct_nontrivial": len(res.hashes), "rule": rule, "samples": res.samples[:12] or ["(none)"],
           "cases_per_build": res.perv, "observed": dict(sorted(res.stats.items()))}
    if extra: cov.update(extra)
    if res.inconclusive: cov["inconclusive"] = res.inconclusive[:20]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": assumptions or [], "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    p = os.path.join(EVID, prop + ".json")
    with open(p + ".tmp", "w") as f: json.dump(ev, f, indent=1)
    os.rename(p + ".tmp", p)
    for (pid, _, what) in known:
        if pid == prop: print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if viol:
        os.makedirs(REPLAY, exist_ok=True)
        for i, (key, f) in enumerate(sorted(viol.items(), key=lambda kv: kv[1]["index"])[:10]):
            rp = os.path.join(REPLAY, "%s-%s.json" % (prop, hashlib.sha256(key.encode()).hexdigest()[:10]))
            j = dict(property=prop, seed=seed, tier=tier, **f)
            if replay_extra: j.update(replay_extra)
            with open(rp, "w") as fh: json.dump(j, fh, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            print("  %s\n  [%s case %s] %s" % (key, f["variant"], f["index"], f["detail"][-1500:].replace("\n", "\n    ")))
        return 1
    if res.inconclusive:
        print("INCONCLUSIVE property=%s" % prop)
        for x in res.inconclusive[:10]: print("  " + x)
        return 3
    if res.cases == 0 or not res.hashes:
        print("INCONCLUSIVE property=%s nothing was observed" % prop); return 3
    print("HELD property=%s on %d cases (%d distinct non-trivial), %s, %.1f s" % (prop, res.cases, len(res.hashes), res.perv, time.time() - t0))
    return 0
