#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]: decide one property against /repo's working tree."""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import vlib

def main():
    prop = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module(prop.lower())
    ctx = vlib.Ctx(prop, tier, seed)
    try:
        mod.run(ctx)
    except vlib.MachineryError as e:
        print("MACHINERY-ERROR %s: %s" % (prop, e))
        if not ctx.violations:
            import shutil; shutil.rmtree(ctx.scratch, ignore_errors=True)
            return 2
    except Exception:
        traceback.print_exc()
        import shutil; shutil.rmtree(ctx.scratch, ignore_errors=True)
        return 2
    return ctx.finish(getattr(mod, "LEVEL", "model_checking"))

sys.exit(main())
