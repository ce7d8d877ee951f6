import cachelib


def corrupt(t, rnd):
    e = rnd.choice([e for e in t["ev"]])
    if e["e"] == "ask":
        e["ret"]["rc"] = 9
    else:
        e["key"]["ln"] = "never.asked."
    return t


def run(ctx):
    ctx.model_check("MCCache.tla", "MCCache.cfg")
    cachelib.traces(ctx, "C05", 2500, 25000)
    tr = ctx.harness("TestFrequency", "freq", {"VERIF_N": ctx.pick(1000, 10000)})
    ctx.extra["frequency_refreshes"] = sum(e["e"] == "refresh" for t in tr for e in t["ev"])
    ctx.validate("FrequencyTrace.tla", "Trace.cfg", tr, "frequent-query prefetcher", corrupt=corrupt)
