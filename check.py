#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current tree (see DESIGN.md).
   check.py --replay <file>: runs the program of a replay file again and validates its log."""
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import parts
import vf


def main():
    if sys.argv[1:2] == ["--replay"]:
        return parts.replay(sys.argv[2])
    prop = sys.argv[1]
    t0 = time.time()
    ctx = parts.Ctx(prop, vf.seed(), vf.tier())
    try:
        parts.run(ctx)
    except vf.ToolError as e:
        print("check %s: tool error: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    ctx.evidence(time.time() - t0)
    for k in ctx.known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if ctx.violations:
        for what, path in ctx.violations[:5]:
            print("  " + what)
        print("VIOLATION property=%s replay=%s" % (prop, ctx.violations[0][1]))
        return 1
    print("%s holds on everything explored (%.0f s)" % (prop, time.time() - t0))
    return 0


sys.exit(main())
