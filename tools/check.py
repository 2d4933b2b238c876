"""check.py <property> <quick|thorough>"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mbv, props, walks, funcs, large


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    ctx = mbv.Ctx(prop, tier)
    try:
        if prop in props.QUICK:
            mbv.model(ctx, "HashMap")
            jobs, preds = props.jobs(ctx), {}
            if prop in props.WALKS:
                wj, preds = walks.make(ctx, props.WALKS[prop], tier == "quick")
                jobs = jobs + wj
            _, lines, meta = mbv.campaign(ctx, jobs)
            if preds:
                walks.agreement(ctx, preds, lines, meta)
            if prop in large.OPS:
                large.run(ctx)
        else:
            funcs.FUNCS[prop](ctx)
        rc = mbv.finish(ctx)
    except Exception:
        traceback.print_exc(); ctx.done()
        rc = 2
    sys.exit(rc)


main()
