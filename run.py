#!/usr/bin/env python3
"""run.py <property id>: decides one property against the current /repo tree.
Exit 0 held, 1 violated (VIOLATION line), 2 the check itself failed."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import vlib


def main():
    if sys.argv[1] == "--setup":
        vlib.build_harness()
        vlib.build_harness(race=True)
        if os.path.isdir(os.path.join(vlib.VERIF, "harness", "cmd")):
            vlib.build_cmd_harness()
        vlib.build_binary()
        return 0
    pid = sys.argv[1]
    ctx = vlib.Ctx(pid)
    try:
        mod = importlib.import_module(pid.lower())
        mod.run(ctx)
        return ctx.finish()
    except vlib.CheckError as e:
        # observations already judged as violations stand on their own
        if ctx.violations:
            print("check error after violations: " + str(e)[:2000])
            rc = ctx.finish()
            if rc == 1:
                return 1
        print("CHECK-ERROR " + str(e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.cleanup()


sys.exit(main())
