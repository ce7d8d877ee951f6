def corrupt(t, rnd):
    hits = [e for e in t["ev"] if e["e"] == "hit"]
    miss = [e for e in t["ev"] if e["e"] == "miss" and e["up"]["k"] == "msg" and not e["up"]["tc"] and e["up"]["rc"] == 0 and e["up"]["rrs"]]
    k = rnd.randrange(5)
    if k == 0:
        h = [e for e in hits if e["ret"]["rrs"]]
        if h:
            rnd.choice(rnd.choice(h)["ret"]["rrs"])["ttl"] += 1
            return t
    if k == 1 and hits:
        rnd.choice(hits)["ret"]["rc"] = 9
        return t
    if k == 2 and miss:
        e = rnd.choice(miss)
        rnd.choice(e["ret"]["rrs"])["x"] = "other"
        return t
    if k == 3 and hits:
        rnd.choice(hits)["key"]["ln"] = "never.asked."
        return t
    if hits:
        rnd.choice(hits)["ret"]["idok"] = False
        return t


def traces(ctx, focus, quick, thorough):
    tr = ctx.harness("TestCache", "cache", {"VERIF_N": ctx.pick(quick, thorough), "VERIF_FOCUS": focus})
    ctx.extra["hits"] = sum(e["e"] == "hit" for t in tr for e in t["ev"])
    ctx.extra["misses"] = sum(e["e"] == "miss" for t in tr for e in t["ev"])
    ctx.validate("CacheTrace.tla", "Trace.cfg", tr, "cache history", corrupt=corrupt)


def stress(ctx):
    st = ctx.harness("TestCacheStress", "cs", {"VERIF_MS": ctx.pick(1500, 15000)}, race=True)
    ctx.extra["stress"] = st
    for s in st:
        if s["wrong"]:
            ctx.violate("wrong reply from a cache used concurrently", s)
        if s["over"]:
            ctx.violate("more responses than the capacity held", s)
        if s["lost"]:
            ctx.violate("a fresh entry was lost", s)
