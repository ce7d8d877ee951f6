from vlib import build_binary


def corrupt(t, rnd):
    got = [e for e in t["ev"] if e["e"] == "recv"]
    if not got:
        return None
    e = rnd.choice(got)
    c = rnd.randrange(4)
    if c == 0:
        e["resp"]["errno"] += 1
    elif c == 1:
        t["ev"].remove(e)
    elif c == 2:
        e["resp"]["fds"] = e["resp"]["fds"] + [{"d": 2, "t": 1, "p": 6, "nb": False, "ino": "x"}]
    elif e["resp"]["fds"]:
        e["resp"]["fds"][0]["t"] = 3
    else:
        return None
    return t


def flip(r, rnd):
    r["started" if r["k"] == "life" else rnd.choice(["alive", "served"])] ^= True
    return r


def run(ctx):
    ctx.model_check("MCFdServer.tla", "MCFdServer.cfg")
    ctx.weakened("MCFdServer.tla", "MCFdServer.cfg", "Close")
    binary = build_binary()
    tr = ctx.harness("TestXSocket", "xs", {"VERIF_N": ctx.pick(400, 4000)})
    reqs = [e["r"] for t in tr for e in t["ev"] if e["e"] == "send"]
    ctx.extra["requests_sent"] = len(reqs)
    ctx.extra["distinct_requests"] = len({(r["d"], r["t"], r["p"]) for r in reqs})
    ctx.extra["sockets_received"] = sum(len(e["resp"]["fds"]) for t in tr for e in t["ev"] if e["e"] == "recv")
    ctx.extra["refused"] = sum(e["resp"]["errno"] == 1 for t in tr for e in t["ev"] if e["e"] == "recv")
    ctx.validate("FdServerTrace.tla", "Trace.cfg", tr, "socket hand-out", corrupt=corrupt)
    life = ctx.harness("TestXSocketLife", "xl", {"VERIF_N": ctx.pick(54, 540), "VERIF_BINARY": binary})
    life += ctx.harness("TestXSocketEndure", "xe", {"VERIF_N": ctx.pick(8, 40), "VERIF_BINARY": binary})
    ctx.extra["life_cycles"] = {w: sum(r["what"] == w for r in life) for w in sorted({r["what"] for r in life})}
    ctx.judge("FdLifeJudge.tla", "Trace.cfg", life, "socket server life cycle", corrupt=flip)
