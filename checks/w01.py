from vlib import build_cmd_harness, build_pkg_harness


def corrupt(t, rnd):
    es = [e for e in t["ev"] if e["e"] in ("build", "end", "settled")]
    if not es:
        return None
    e = rnd.choice(es)
    if e["e"] == "settled":
        e["p"] = not e["p"]
    else:
        t["ev"].remove(e)
    return t


def spoil(r, rnd):
    r["now"] = not r["now"]
    return r


def run(ctx):
    ctx.model_check("MCSupervise.tla", "MCSupervise.cfg")
    ctx.weakened("MCSupervise.tla", "MCSupervise.cfg", "WaitForEnd", "Recheck")
    tr = ctx.harness("TestVerifSupervisor", "sup", {"VERIF_N": ctx.pick(3000, 30000)}, binary=build_cmd_harness())
    for k in ("ns", "build", "buildfail", "start", "stop", "settled"):
        ctx.extra[k + "_events"] = sum(e["e"] == k for t in tr for e in t["ev"])
    ctx.validate("SuperviseTrace.tla", "Trace.cfg", tr, "listener in a namespace", corrupt=corrupt)
    ws = ctx.harness("TestVerifWatch", "watch", {"VERIF_N": ctx.pick(2000, 20000)}, binary=build_pkg_harness())
    ctx.extra["subscriptions"] = len(ws)
    ctx.extra["changes_told"] = sum(len(w["told"]) for w in ws)
    ctx.judge("WatchJudge.tla", "Trace.cfg", ws, "namespace watcher", corrupt=spoil)
