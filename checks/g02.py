import g01


def corrupt(t, rnd):
    e0 = t["ev"][0]
    if e0["e"] == "shares":
        e0["got"][0] = e0["max"][0] + 1
        return t
    return g01.corrupt(t, rnd)


def run(ctx):
    ctx.model_check("MCBalance.tla", "MCBalance.cfg")
    tr = ctx.harness("TestBalance", "bal", {"VERIF_N": ctx.pick(1500, 15000)})
    ctx.validate("BalanceTrace.tla", "Trace.cfg", tr, "balancing group", corrupt=corrupt)
    sh = ctx.harness("TestBalanceShares", "shares", {"VERIF_N": ctx.pick(2, 10)})
    ctx.validate("BalanceTrace.tla", "Trace.cfg", sh, "long-run shares", corrupt=corrupt)
    st = ctx.harness("TestGroupStress", "gs", {"VERIF_MS": ctx.pick(1000, 10000)}, race=True)
    ctx.extra["stress"] = st
    for s in st:
        if s["bad"]:
            ctx.violate("a caller received another caller's answer", s)
