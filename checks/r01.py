def run(ctx):
    ctx.model_check("RateLimit.tla", "MCRateLimit.cfg")
    rc, out = ctx.tlc("RateLimit.tla", "MCRateLimitStale.cfg")
    ctx.extra["stale_clock_variant_rejected"] = "AtMostN is violated" in out
    tr = ctx.harness("TestRateLimit", "rl", {"VERIF_N": ctx.pick(600, 5000)})

    def corrupt(t, rnd):
        ends = [e for e in t["ev"] if e["e"] == "end"]
        if not ends:
            return None
        e = rnd.choice(ends)
        if e["out"] == "up":
            e["out"], e["ret"] = "none", "nil"
        else:
            e["out"], e["ret"] = "up", "up."
        return t
    ctx.validate("RateLimitTrace.tla", "Trace.cfg", tr, "rate limiter history", corrupt=corrupt)
    recs = ctx.harness("TestRateLimitBoundary", "rlb", {"VERIF_ROUNDS": ctx.pick(6, 20)})
    ctx.judge("RateLimitTrace.tla", "Trace.cfg", recs, "concurrent queries at a window boundary",
              corrupt=lambda r, rnd: {**r, "passcertain": r["n"] + 1})
