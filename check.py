#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]: decides one property of /verif/properties.jsonl on /repo's working tree."""
import json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import ndlib, common, props


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
    replay = None
    if "--replay" in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))["record"]
    ctx = common.Ctx(prop, tier, int(os.environ.get("VERIF_SEED", "1") or 1), replay)
    try:
        props.CHECKS[prop](ctx)
        rc = ctx.finish()
    except ndlib.ToolError as e:
        print("ERROR:", str(e)[:4000], file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        import shutil
        if not os.environ.get("ND_KEEP"):
            shutil.rmtree(ctx.work, ignore_errors=True)
    sys.exit(rc)


main()
