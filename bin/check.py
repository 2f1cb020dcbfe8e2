#!/usr/bin/env python3
"""check.py <property> - one check. VERIF_SEED and VERIF_TIER come from the environment."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, checks


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = vlib.Check(prop, tier, seed)
    rc = 2
    try:
        getattr(checks, prop.lower())(c)
        c.evidence()
        print("OK property=%s states=%d traces=%d lines=%d wall=%.1fs" % (prop, c.states, c.traces, c.lines, __import__("time").time() - c.t0))
        rc = 0
    except vlib.Violation as v:
        c.evidence(1)
        print(v.text)
        print("VIOLATION property=%s replay=%s" % (prop, v.replay))
        rc = 1
    except vlib.Broken as b:
        print("ERROR: check of %s broken: %s" % (prop, b))
    except Exception:
        traceback.print_exc()
    finally:
        if not os.environ.get("VERIF_KEEP"):
            c.cleanup()
    sys.stdout.flush()
    os._exit(rc)


main()
