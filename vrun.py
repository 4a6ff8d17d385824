#!/usr/bin/env python3
"""Run the check of one property: vrun.py <property id> [quick|thorough]"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = core.Ctx(prop, tier, seed)
    mod = importlib.import_module("vlib.props")
    level, fn = mod.PROPS[prop]
    try:
        fn(ctx)
    except core.Violation as v:
        print("VIOLATION property=%s replay=%s" % (prop, v.args[0]))
        try:
            ctx.finish(level, 1)
        except Exception:
            pass
        sys.stdout.flush()
        os._exit(1)
    except core.Infra as x:
        print("ERROR: " + str(x))
        sys.stdout.flush()
        os._exit(3)
    except Exception:
        traceback.print_exc()
        sys.stdout.flush()
        os._exit(3)
    try:
        ctx.finish(level, 0)
    except Exception as x:
        print("ERROR: " + str(x))
        sys.stdout.flush()
        os._exit(3)
    c = ctx.cov
    print("OK property=%s traces=%d events=%d states=%d" % (
        prop, c["traces_validated_against_impl"], c["events_validated"], c["states"]))


main()
