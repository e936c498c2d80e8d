#!/usr/bin/env python3
"""Development tool (no check uses it): confirms planted bugs. usage: plant.py [--checks] [--no-tests] ID...
For each seeded/ID: the patch applies to /repo's HEAD, builds, passes the stable tests, demo.sh is 0 without and
nonzero with it; with --checks, the property's quick check is run on the patched tree too."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = "/tmp/plantrepo"
def run(cmd, **kw): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def tests():
    out = "/tmp/plant-tests.json"
    run("bash /tmp/plant-test.sh " + out)
    got = json.load(open(out)); base = json.load(open("/opt/vp/BASELINE.json"))
    return got, base
def passed(x):
    for k in ("passed", "pass", "stable", "tests"):
        if k in x: return set(x[k] if isinstance(x[k], list) else [n for n, s in x[k].items() if s in ("passed", "pass", True)])
    raise SystemExit("unknown test format %s" % list(x))
def D(i): return next(d for d in (V + "/seeded/" + i, V + "/planted-cl/" + i) if os.path.isdir(d))
def demo(i): return run("timeout 300 bash %s/demo.sh" % D(i), cwd=R, env={k: v for k, v in os.environ.items() if not k.startswith("VERIF")})
def main():
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    run("mkdir -p %s; rsync -a --delete --exclude=_build /repo/ %s/ 2>/dev/null || { rm -rf %s; cp -a /repo %s; }" % (R, R, R, R))
    for n in ("build", "test"):
        t = open("/opt/vp/%s.sh" % n).read().replace("/repo", R).replace("/opt/vp/build.sh", "/tmp/plant-build.sh")
        open("/tmp/plant-%s.sh" % n, "w").write(t)
    run("git -C %s checkout -- ." % R)
    bad = 0
    for i in a:
        p = D(i) + "/patch.diff"; meta = json.load(open(D(i) + "/meta.json"))
        msg = []
        run("bash /tmp/plant-build.sh")
        d0 = demo(i); msg.append("demo0=%d" % d0.returncode)
        r = run("git -C %s apply %s" % (R, p))
        if r.returncode: print(i, "DOES NOT APPLY", r.stdout); bad += 1; continue
        try:
            b = run("bash /tmp/plant-build.sh")
            if b.returncode: print(i, "DOES NOT BUILD", b.stdout[-800:]); bad += 1; continue
            if "--no-tests" not in sys.argv:
                g, base = tests(); miss = passed(base) - passed(g); msg.append("missing tests %s" % sorted(miss)[:5] if miss else "tests ok")
                if miss: bad += 1
            d1 = demo(i); msg.append("demo1=%d" % d1.returncode)
            if d0.returncode or not d1.returncode: bad += 1; msg.append("DEMO BAD " + d0.stdout[-300:] + d1.stdout[-300:])
            if "--checks" in sys.argv:
                t0 = time.time(); c = run("python3 check.py " + meta["property"], cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_REPO=R, VERIF_TIER="quick"))
                msg.append("check %s rc=%d %.0fs %s" % (meta["property"], c.returncode, time.time() - t0, " | ".join(c.stdout.splitlines()[:2])[:160]))
        finally:
            run("git -C %s checkout -- ." % R)
        print(i, "; ".join(msg), flush=True)
    run("bash /tmp/plant-build.sh")
    return bad
sys.exit(1 if main() else 0)
