import cachelib


def run(ctx):
    ctx.model_check("MCCache.tla", "MCCache.cfg")
    cachelib.traces(ctx, "C02", 3000, 30000)
