import cachelib


def run(ctx):
    ctx.model_check("MCCache.tla", "MCCache.cfg")
    cachelib.traces(ctx, "C01", 2500, 25000)
    cachelib.stress(ctx)
