#!/usr/bin/env python3
"""check.py <property> [--replay FILE]

Decides one property of /repo's working tree.  Exit 0: held on everything
explored.  Exit 1 with a VIOLATION line: broken.  Exit 2: no verdict.
"""
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib  # noqa: E402
import checks  # noqa: E402


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        # warm-up only: every check builds what it needs itself
        try:
            vlib.build(["canary", "core"])
        except (vlib.Violation, vlib.Inconclusive) as e:
            print(e)
        return 0
    chk = checks.CHECKS[pid]
    t0 = time.time()
    agg = vlib.Agg()
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        d = json.load(open(sys.argv[3]))
        os.environ["VERIF_SEED"] = str(d.get("seed", 1))
        os.environ["VERIF_TIER"] = d.get("tier", "quick")
        print(json.dumps(d, indent=1))
        print("Re-running the check with the same seed and tier.")
    viol = None
    code = 0
    try:
        chk.fn(agg)
        if agg.evaluations == 0 or agg.nontrivial == 0:
            raise vlib.Inconclusive("nothing was observed")
    except vlib.Violation as v:
        known = [k for k in vlib.known_findings(pid) if k[0] == v.replay.get("signature")]
        if not known:
            viol = v
            code = 1
    except vlib.Inconclusive as e:
        print(f"INCONCLUSIVE property={pid}: {e}")
        code = 2
    except Exception:
        traceback.print_exc()
        code = 3
    for sig, text in vlib.known_findings(pid):
        print(f"KNOWN-FINDING: property={pid} {text}")
    vlib.finish(pid, chk.level, agg, chk.rule, t0, chk.assumptions, viol)
    if viol:
        path = vlib.write_replay(pid, viol)
        print(viol.why[:3000])
        for o in viol.replay.get("ops", [])[:60]:
            print("   ", o)
        print(f"VIOLATION property={pid} replay={path}")
    elif code == 0:
        print(f"{pid}: held; evaluations={agg.evaluations} nontrivial={agg.nontrivial} "
              f"wall={time.time() - t0:.0f}s")
    sys.stdout.flush()
    return code


if __name__ == "__main__":
    sys.exit(main())
