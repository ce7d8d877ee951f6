def corrupt(t, rnd):
    for e in rnd.sample(t["ev"], len(t["ev"])):
        if e["e"] == "probe":
            e["hit"][-1] = -1
            return t
        if e["e"] == "load":
            e["v"] = -1
            return t


def run(ctx):
    ctx.model_check("MCRefresh.tla", "MCRefresh.cfg")
    ld = ctx.harness("TestLoader", "ld", {"VERIF_N": ctx.pick(1200, 8000)})
    ctx.extra["source_failures"] = sum(e["e"] == "src" and not e["ok"] for t in ld for e in t["ev"])
    ctx.validate("RefreshTrace.tla", "Trace.cfg", ld, "list source", corrupt=corrupt)
    rf = ctx.harness("TestRefresh", "rf", {"VERIF_N": ctx.pick(600, 5000)})
    ctx.validate("RefreshTrace.tla", "Trace.cfg", rf, "refreshed list", corrupt=corrupt)
    sl = ctx.harness("TestRefreshSlow", "sl", {"VERIF_N": ctx.pick(400, 4000)})
    ctx.validate("RefreshTrace.tla", "Trace.cfg", sl, "slow refresh", corrupt=corrupt)
    mx = ctx.harness("TestRefreshMix", "mx", {"VERIF_N": ctx.pick(4, 40)})
    ctx.extra["responses_with_refresh_in_between"] = len(mx)

    def cmix(r, rnd):
        r["out"] = {"rc": 0, "kept": [2, 1]}
        return r
    ctx.judge("BlocklistJudge.tla", "Trace.cfg", mx, "one response, two list versions", corrupt=cmix)
    st = ctx.harness("TestRefreshStress", "st", {"VERIF_MS": ctx.pick(300, 3000)}, race=True)
    ctx.extra["stress"] = st
    for s in st:
        if s["bad"]:
            ctx.violate("an unlisted name or address was blocked during a refresh", s)
