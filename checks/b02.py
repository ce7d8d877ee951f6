import b01


def run(ctx):
    ctx.model_check("MCBlocklist.tla", "MCBlocklist.cfg")
    ex = ctx.harness("TestNetExhaustive", "net", {})
    ctx.extra["exhaustive_network_lists"] = len(ex)
    ctx.judge("BlocklistJudge.tla", "Trace.cfg", ex, "network membership", corrupt=b01.corrupt)
    cl = ctx.harness("TestClientBlocklist", "cl", {"VERIF_N": ctx.pick(1500, 15000)})
    ctx.judge("BlocklistJudge.tla", "Trace.cfg", cl, "client against list", corrupt=b01.corrupt)
    rp = ctx.harness("TestResponseBlocklist", "rp", {"VERIF_N": ctx.pick(3000, 30000)})
    ctx.extra["responses_blocked"] = sum(r["ret"]["rc"] == 3 and r["rc"] == 0 for r in rp)
    ctx.judge("BlocklistJudge.tla", "Trace.cfg", rp, "response against list", corrupt=b01.corrupt)
