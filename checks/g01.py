def corrupt(t, rnd):
    ends = [e for e in t["ev"] if e["e"] == "end"]
    asks = [e for e in t["ev"] if e["e"] == "ask"]
    k = rnd.randrange(3)
    if k == 0 and ends:
        e = rnd.choice(ends)
        e["o"]["rc"] = 9
        e["o"]["k"] = "msg"
        return t
    if k == 1 and asks and t["cfg"]["n"] > 1:
        e = rnd.choice(asks)
        e["m"] = (e["m"] + 1) % t["cfg"]["n"]
        return t
    if asks:
        t["ev"].remove(rnd.choice(asks))
        return t


def run(ctx):
    ctx.model_check("MCFailOver.tla", "MCFailOver.cfg")
    tr = ctx.harness("TestFailOver", "fo", {"VERIF_N": ctx.pick(1500, 15000)})
    ctx.validate("FailOverTrace.tla", "Trace.cfg", tr, "fail-over group", corrupt=corrupt)
    st = ctx.harness("TestGroupStress", "gs", {"VERIF_MS": ctx.pick(1000, 10000), "VERIF_GROUPS": 1}, race=True)
    ctx.extra["stress"] = st
    for s in st:
        if s["bad"]:
            ctx.violate("a caller received another caller's answer", s)
