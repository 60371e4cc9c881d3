"""Case loop of the Python harness; arguments and output as those of the C++ one (main.cpp)."""
import json
import os
import signal
import sys
import time
import traceback
import zlib

import numpy as np

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from ctx import Ctx, Violation  # noqa: E402

try:
    import tinyfk  # noqa: E402, F401
    broken = None
except Exception as e:  # noqa: BLE001
    broken = "the package cannot be imported: %r (%s)" % (e, traceback.format_exc().replace("\n", " | ")[-900:])
if not broken:
    import checks  # noqa: E402


def main():
    prop = sys.argv[1]
    opt = {"seed": 1, "start": 0, "count": 1, "out": None, "scratch": None, "repo": "/repo", "tier": "quick",
           "case-limit": 60, "deadline": 0, "case-seed": None, "directed": False, "directed-only": None}
    i = 2
    while i < len(sys.argv):
        k = sys.argv[i][2:]
        if k == "directed":
            opt[k] = True
        elif k in ("out", "scratch", "repo", "tier"):
            i += 1
            opt[k] = sys.argv[i]
        else:
            i += 1
            opt[k] = int(sys.argv[i])
        i += 1
    if broken:
        print("FAIL\timport\t0\t0\t" + broken, flush=True)
        return 1
    run, directed, rule = checks.REGISTRY[prop]
    ctx = Ctx(prop, opt)
    began = time.time()
    cur = open(os.path.join(opt["scratch"], "current"), "w") if opt["scratch"] else None
    fails = 0

    def one(f, cs, is_directed):
        nonlocal fails
        if cur:
            cur.seek(0)
            cur.write("%020d %d\n" % (cs, int(is_directed)))
            cur.flush()
        ctx.note = []
        ctx.rng = np.random.default_rng([cs, 7])
        signal.setitimer(signal.ITIMER_PROF, opt["case-limit"])  # the default action ends the process
        key = msg = None
        try:
            f(ctx)
        except Violation as v:
            key, msg = v.key, v.msg
        except Exception as e:  # noqa: BLE001
            key = "unexpected-exception"
            msg = "unexpected %s: %s (%s)" % (type(e).__name__, e, traceback.format_exc().replace("\n", " | ")[-900:])
        signal.setitimer(signal.ITIMER_PROF, 0)
        if key:
            fails += 1
            print("FAIL\t%s\t%d\t%d\t%s" % (key, cs, int(is_directed), " ".join(msg.split())), flush=True)
            if opt["scratch"]:
                with open(os.path.join(opt["scratch"], "note-%d%s.txt" % (cs, "-directed" if is_directed else "")), "w") as fp:
                    fp.write(msg + "\n---- what the case did ----\n" + "\n".join(ctx.note))

    if opt["directed"] or opt["directed-only"] is not None:
        for n, f in enumerate(directed):
            if opt["directed-only"] is None or opt["directed-only"] == n:
                one(f, n, True)
    if opt["case-seed"] is not None:
        one(run, opt["case-seed"], False)
        print("\n".join(ctx.note), file=sys.stderr)
    elif opt["directed-only"] is None:
        for n in range(opt["start"], opt["start"] + opt["count"]):
            if fails >= 5:
                break
            if opt["deadline"] and time.time() - began > opt["deadline"]:
                ctx.count("stopped_at_deadline")
                break
            one(run, (opt["seed"] * 1000003 + zlib.crc32(prop.encode())) * 1000000 + n, False)
    if opt["out"]:
        with open(opt["out"], "w") as fp:
            json.dump({"evaluations": ctx.evaluations, "rule": rule, "counters": ctx.counters, "samples": ctx.samples,
                       "distinct": sorted(ctx.distinct)}, fp)
    print("DONE", ctx.evaluations, file=sys.stderr)
    sys.stdout.flush()
    return 1 if fails else 0


if __name__ == "__main__":
    sys.exit(main())
