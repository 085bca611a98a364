#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough]: decide one property on the code in /repo."""
import os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.dont_write_bytecode = True
import core

MOD = {"G": "p_graph", "M": "p_method", "C": "p_constraint", "K": "p_cluster", "F": "p_config", "P": "p_geom", "R": "p_render"}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    ctx = core.Ctx(prop, tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    try:
        mod = __import__("p_geom" if prop == "C03" else MOD[prop[0]])
        try:
            mod.run(ctx)
        except core.Raised as e:
            ctx.violation("a legal operation raised: %s" % e.args[0], e.args[1])
        code = ctx.finish()
    except core.Machinery as e:
        print("MACHINERY ERROR: %s" % e)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        ctx.close()
    sys.exit(code)


main()
