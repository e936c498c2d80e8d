#!/usr/bin/env python3
"""Decides one property on /repo's current tree:  check.py <property> [--replay FILE]
Tier and seed come from VERIF_TIER (quick|thorough) and VERIF_SEED."""
import json, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vlib, props

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    replay = None
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        replay = json.load(open(sys.argv[3])); seed, tier = replay["seed"], replay["tier"]
    t0 = time.time()
    c = props.CHECKS[pid]
    res = vlib.Result()
    R = vlib.Runner(pid, tier, seed, res)
    try:
        if "run" in c:
            os.makedirs(vlib.BUILD, exist_ok=True)
            c["run"](tier, seed, res, replay["index"] if replay else None)
            if replay:
                for f in res.fails: print("REPRODUCED %s: %s" % (f["key"], f["detail"][-3000:]))
                return 1 if res.fails else 0
            vlib.prune_build()
            return vlib.conclude(pid, tier, seed, res, t0, c.get("level", "exploration"), c["rule"], assumptions=c.get("assumptions"))
        import concurrent.futures as cf
        plans = c["plan"](tier)
        if replay: plans = [p for p in plans if p["variant"] == replay["variant"]]
        with cf.ThreadPoolExecutor(4) as ex:
            exes = [f.result() for f in [ex.submit(vlib.build, p["target"]) for p in plans]]
        tasks = []
        for p, exe in zip(plans, exes):
            kw = {k: p[k] for k in ("stall", "cpu_stall", "env") if k in p}
            if replay: R.replay(exe, p["variant"], replay["index"], repeat=p.get("replay_repeat", 1), **kw)
            else: tasks += R.run(exe, p["variant"], p["n"], procs=p.get("procs"), **kw)
        if replay:
            for f in res.fails: print("REPRODUCED %s: %s" % (f["key"], f["detail"][-3000:]))
            return 1 if res.fails else 0
        # long shards first
        R.go(tasks)
        if "post" in c: c["post"](tier, seed, res)
        vlib.prune_build()
        return vlib.conclude(pid, tier, seed, res, t0, c.get("level", "exploration"), c["rule"], assumptions=c.get("assumptions"))
    except vlib.HarnessError as e:
        print("ERROR property=%s harness: %s" % (pid, e)); return 4
    finally:
        R.close()
if __name__ == "__main__":
    sys.exit(main())
