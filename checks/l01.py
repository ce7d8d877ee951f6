def corrupt(t, rnd):
    for e in rnd.sample(t["ev"], len(t["ev"])):
        if e["e"] == "recv" and e["k"] == "dns":
            e["txt"] += "x"
            e["rc"] = 0
            return t
        if e["e"] == "call":
            e["laddr"] += "0"
            return t


def run(ctx):
    ctx.model_check("MCListener.tla", "MCListener.cfg")
    tr = ctx.harness("TestListeners", "ls", {"VERIF_N": ctx.pick(40, 150), "VERIF_LISTENERS": ctx.pick(5, 20)})
    ctx.extra["connections_per_listener"] = {k: sum(t["cfg"]["listener"] == k for t in tr) for k in sorted({t["cfg"]["listener"] for t in tr})}
    ctx.extra["requests_by_class"] = {c: sum(e["e"] == "send" and e["cls"] == c for t in tr for e in t["ev"]) for c in ("good", "noq", "bad", "odd", "http")}
    ctx.extra["dropped"] = sum(e["e"] == "ret" and e["out"] == "nil" for t in tr for e in t["ev"])
    ctx.validate("ListenerTrace.tla", "Trace.cfg", tr, "listener connection", corrupt=corrupt)
