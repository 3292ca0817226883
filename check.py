#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   or   check.py --replay <file>

Exit 0: the property held on everything explored; 1: VIOLATION line printed;
2: the check itself failed."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core, suites

def main():
    t0 = time.time()
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        ctx = suites.Ctx(r["property"], "quick", int(os.environ.get("VERIF_SEED", "1")))
        try:
            case = dict(r["case"], id=0)
            suites.replay(ctx, r, case)
            for v in ctx.violations:
                print("VIOLATION property=%s replay=%s" % (ctx.pid, sys.argv[2]))
                print(json.dumps(v["verdict"])[:3000])
            return 1 if ctx.violations else 0
        finally:
            core.cleanup()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    ctx = suites.Ctx(pid, tier, seed)
    try:
        getattr(suites, pid)(ctx)
        code = ctx.finish(time.time() - t0)
    except core.ToolError as e:
        print("CHECK ERROR %s: %s" % (pid, str(e)[:3000]))
        code = 2
    except Exception:
        print("CHECK ERROR %s: %s" % (pid, traceback.format_exc()[-3000:]))
        code = 2
    finally:
        core.cleanup()
    return code

if __name__ == "__main__":
    sys.exit(main())
