def corrupt(r, rnd):
    k = rnd.randrange(3)
    if k == 0:
        r["asked"] = [] if r["asked"] else [1]
    elif k == 1:
        r["ret"] = "other"
    else:
        r["asked"] = r["asked"] + [len(r["routes"])]
    return r


def run(ctx):
    ctx.model_check("MCRoute.tla", "MCRoute.cfg")
    rec = ctx.harness("TestRoute", "route", {"VERIF_N": ctx.pick(2500, 25000)})
    ctx.extra["routed"] = sum(bool(r["asked"]) for r in rec)
    ctx.judge("RouteJudge.tla", "Trace.cfg", rec, "routing decision", corrupt=corrupt)
