#!/usr/bin/env python3
"""Decides one property:  run/check.py <id> [--replay FILE]

Exit 0: held on everything explored.  Exit 1 with a line
  VIOLATION property=<id> replay=<path>
Any other exit: the check itself failed."""
import json, os, shutil, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
import stages, plan

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    out = os.path.join(ROOT, "out", pid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    ctx = stages.Ctx(pid, tier, seed, out)
    build()
    ctx.build_s = time.time() - t0
    p = plan.PLAN[pid]
    for st in p["stages"]:
        t1 = time.time()
        st(ctx)
        ctx.timing.append((st.__name__, round(time.time() - t1, 1)))
        if ctx.violations:
            break
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": p["level"],
        "coverage": ctx.coverage(),
        "assumptions": p["assumptions"],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(ctx.violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    known = ctx.known
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for v in ctx.violations[:5]:
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        for l in v["text"][:12]:
            print("   ", l)
    print("%s %s: %s  (%.1f s: build %.1f, %s)" % (
        pid, tier, "VIOLATED" if ctx.violations else "held",
        time.time() - t0, ctx.build_s, ctx.timing))
    # keep the bulk only when it explains something
    for f in os.listdir(out):
        if f.startswith("replay"):
            continue
        fp = os.path.join(out, f)
        shutil.rmtree(fp, ignore_errors=True) if os.path.isdir(fp) else os.remove(fp)
    return 1 if ctx.violations else 0

if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        print("ERROR:", e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
