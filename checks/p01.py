from collections import Counter
from vlib import build_binary


def corrupt(t, rnd):
    qs = [e for e in t["ev"] if e["e"] == "q"]
    if not qs:
        e = t["ev"][0]
        if e["e"] != "exit":
            return None
        e["code"] = 0
        return t
    e = rnd.choice(qs)
    if e["v"] and rnd.random() < 0.5:
        e["v"][0]["u"] = 9
    else:
        e["a"]["rc"] = 9
    return t


def run(ctx):
    ctx.model_check("MCConfig.tla", "MCConfig.cfg")
    ctx.weakened("MCConfig.tla", "MCConfig.cfg", "CheckCycle", "AllRefs")
    tr = ctx.harness("TestConfig", "cfg", {"VERIF_N": ctx.pick(1600, 16000), "VERIF_BINARY": build_binary()}, timeout=ctx.pick(600, 3000))
    ctx.extra["spoiled_by"] = dict(Counter(t["what"] for t in tr))
    ctx.extra["accepted"] = sum(t["ev"][0]["e"] == "up" for t in tr)
    ctx.extra["refused"] = sum(t["ev"][0]["e"] == "exit" for t in tr)
    ctx.extra["queries"] = sum(e["e"] == "q" for t in tr for e in t["ev"])
    ctx.extra["element_types"] = dict(Counter(e["type"] for t in tr for e in t["cfg"]["els"]))
    ctx.validate("ConfigTrace.tla", "Trace.cfg", tr, "configuration", corrupt=corrupt)
