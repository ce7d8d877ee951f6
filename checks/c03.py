import cachelib


def run(ctx):
    ctx.model_check("MCCache.tla", "MCCache.cfg")
    tr = ctx.harness("TestCacheExhaustive", "exh", {"VERIF_LEN": ctx.pick(6, 8)})
    ctx.extra["exhaustive_sequences"] = len(tr)
    ctx.validate("CacheTrace.tla", "Trace.cfg", tr, "short query sequence", corrupt=cachelib.corrupt)
    cachelib.traces(ctx, "C03", 1500, 15000)
    cachelib.stress(ctx)
