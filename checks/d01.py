def run(ctx):
    ctx.model_check("Dedup.tla", "MCDedup.cfg")
    tr = ctx.harness("TestDedup", "dd", {"VERIF_N": ctx.pick(1500, 15000)})

    def corrupt(t, rnd):
        c = [e for e in t["ev"] if e["e"] == "end"]
        s = [e for e in t["ev"] if e["e"] == "start"]
        if rnd.random() < .5 and len(s) > 1:
            t["ev"].remove(rnd.choice(s))
            return t
        if c:
            rnd.choice(c)["out"] = "m99"
            return t
    ctx.validate("DedupTrace.tla", "Trace.cfg", tr, "deduplicated calls", corrupt=corrupt)
    st = ctx.harness("TestDedupStress", "dds", {"VERIF_N": ctx.pick(300, 3000)}, race=True)
    ctx.validate("DedupTrace.tla", "Trace.cfg", st, "deduplicated calls, real threads")
