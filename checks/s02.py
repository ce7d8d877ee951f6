def corrupt(t, rnd):
    if t["cfg"]["logonly"]:
        return None
    for e in rnd.sample(t["ev"], len(t["ev"])):
        if e["e"] == "reply" and e["got"]["k"] == "msg" and e["got"]["ad"] and not e["up"]["ad"] and e["sets"]:
            e["sets"][0]["toks"] = ["forged"]
            return t


def run(ctx):
    tr = ctx.harness("TestDnssec", "tr", {"VERIF_N": ctx.pick(500, 6000), "VERIF_ATTACK": 10})
    ev = [e for t in tr for e in t["ev"] if e["e"] == "reply"]
    ctx.extra["replies"] = len(ev)
    ctx.extra["refused"] = sum(e["up"]["k"] == "msg" and e["up"]["rc"] in (0, 3) and e["got"]["rc"] == 2 for e in ev)
    ctx.extra["altered_answers"] = {k: sum(e["kind"] == k for e in ev) for k in sorted({e["kind"] for e in ev})}
    ctx.extra["altered_lookups"] = sum(e["look"] for e in ev)
    ctx.validate("DnssecTrace.tla", "Trace.cfg", tr, "validated replies", corrupt=corrupt)
