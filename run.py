#!/usr/bin/env python3
"""run.py PROPERTY: decide one property on the current tree of /repo.

exit 0: it held on everything explored; exit 1: a line VIOLATION property=.. replay=..;
any other exit: the check itself failed. VERIF_SEED and VERIF_TIER are honoured."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import Check, ToolError, OUT
import checks


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    os.makedirs(OUT, exist_ok=True)
    c = Check(prop, tier, seed)
    try:
        assumptions = checks.CHECKS[prop](c)
        code = c.finish("model_checking", assumptions)
    except ToolError as e:
        print("TOOL ERROR: %s" % e, flush=True)
        if c.violations:
            # what was found before the failure stands
            code = c.finish("model_checking", ["the check did not complete: %s" % str(e)[:300]])
        else:
            code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    c.log("exit", code)
    sys.exit(code)


if __name__ == "__main__":
    main()
