def corrupt(r, rnd):
    if r["calls"] == 1 and r["seen"] and rnd.random() < 0.5:
        r["seen"][0] ^= 1
    else:
        r["calls"] = 1 - r["calls"]
        r["got"] = "answer" if r["calls"] else "refused"
    return r


def run(ctx):
    rs = ctx.harness("TestAccess", "ac", {"VERIF_N": ctx.pick(14, 80), "VERIF_CLIENTS": ctx.pick(20, 40)})
    ctx.extra["requests_per_listener"] = {k: sum(r["listener"] == k for r in rs) for k in sorted({r["listener"] for r in rs})}
    ctx.extra["served"] = sum(r["calls"] > 0 for r in rs)
    ctx.extra["turned_away"] = sum(r["calls"] == 0 for r in rs)
    ctx.extra["attributed_to_forwarded_address"] = sum(r["calls"] > 0 and r["seen"] != r["src"] and r["seen"] != [] for r in rs)
    ctx.judge("AccessJudge.tla", "Trace.cfg", rs, "client access", corrupt=corrupt,
              describe=lambda r: f'{r["listener"]} nets={r["nets"]} proxy={r["proxy"]} mutual={r["mutual"]} cert={r["cert"]} src={r["src"]} xff={r["lines"]!r} -> calls={r["calls"]} seen={r["seen"]} got={r["got"]}')
