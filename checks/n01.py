def corrupt(t, rnd):
    for e in rnd.sample(t["ev"], len(t["ev"])):
        if e["e"] == "end" and e["o"]["k"] == "ans":
            e["o"]["tok"] = "forged"
            return t
        if e["e"] == "wire":
            e["same"] = False
            return t


def run(ctx):
    ctx.model_check("MCPipeline.tla", "MCPipeline.cfg")
    tr = ctx.harness("TestPipeline", "tr", {"VERIF_N": ctx.pick(1500, 15000)})
    ev = [e for t in tr for e in t["ev"]]
    ctx.extra["answers"] = sum(e["e"] == "end" and e["o"]["k"] == "ans" for e in ev)
    ctx.extra["errors"] = sum(e["e"] == "end" and e["o"]["k"] == "err" for e in ev)
    ctx.extra["dials"] = sum(e["e"] == "dial" for e in ev)
    ctx.validate("PipelineTrace.tla", "Trace.cfg", tr, "shared upstream connection", corrupt=corrupt)
    st = ctx.harness("TestPipelineStress", "st", {"VERIF_MS": ctx.pick(1500, 20000)}, race=True)
    ctx.extra["stress"] = st
    for s in st:
        if s["bad"] or s["late"]:
            ctx.violate("a caller got another caller's answer or was kept waiting", s)
