def corrupt(r, rnd):
    if "hit" in r:
        k = rnd.randrange(len(r["hit"]))
        r["hit"][k] = not r["hit"][k]
    elif r["asked"]:
        r["asked"] = []
    else:
        r["ret"]["rc"] = 9
    return r


def run(ctx):
    ctx.model_check("MCBlocklist.tla", "MCBlocklist.cfg")
    ex = ctx.harness("TestDomainExhaustive", "dom", {})
    ctx.extra["exhaustive_rule_lists"] = len(ex)
    ctx.extra["names_blocked"] = sum(sum(r["hit"]) for r in ex)
    ctx.judge("BlocklistJudge.tla", "Trace.cfg", ex, "domain rules", corrupt=corrupt)
    rec = ctx.harness("TestBlocklist", "bl", {"VERIF_N": ctx.pick(2500, 25000)})
    ctx.extra["blocked"] = sum("up" not in r["asked"] for r in rec)
    ctx.judge("BlocklistJudge.tla", "Trace.cfg", rec, "query against lists", corrupt=corrupt)
