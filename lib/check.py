#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property. Exit 0: held; 1: VIOLATION; 2: tool error."""
import json, os, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from registry import CHECKS


def report(prop, bad):
    d = os.path.join(vlib.BUILD, "replay")
    os.makedirs(d, exist_ok=True)
    paths = []
    for i, b in enumerate(bad[:3]):
        f = os.path.join(d, "%s-%d.json" % (prop, i))
        json.dump(b, open(f, "w"), indent=1)
        paths.append(f)
    return paths


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
    c = CHECKS[prop]
    try:
        vlib.build()
        bad, known = [], []
        for part in c["parts"]:
            b, k = part(prop, tier, seed, cov)
            bad += b
            known += k
    except vlib.ToolError as e:
        sys.stderr.write("tool error: %s\n" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=c.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(bad))
    os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(vlib.VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if bad:
        p = report(prop, bad)
        b = bad[0]
        print("%d divergences; first: %s at step %s" % (len(bad), b.get("what"), b.get("step")))
        if b.get("trace"):
            for i, e in enumerate(b["trace"][:b["step"]]):
                print("  %d %s %s" % (i + 1, e.get("ev"), json.dumps([e.get("tok"), e.get("res"), e.get("ret"), e.get("seq"), e.get("m")])))
        print("  specification: %s" % str(b.get("spec"))[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, p[0]))
        return 1
    print("ok %s: %s" % (prop, {k: v for k, v in cov.items() if k != "samples"}))
    return 0


sys.exit(main())
