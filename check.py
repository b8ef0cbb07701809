#!/usr/bin/env python3
"""check.py <property id>   tier from VERIF_TIER, seed from VERIF_SEED"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import core
from vlib.registry import CHECKS


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"): tier = a
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = core.Ctx(pid, tier, seed)
    try:
        mod = importlib.import_module("vlib." + CHECKS[pid])
        return mod.run(ctx)
    except core.CheckError as e:
        print(f"CHECK ERROR {pid}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


if __name__ == "__main__":
    sys.exit(main())
