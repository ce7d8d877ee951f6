def corrupt(r, rnd):
    if r["out"]["k"] == "msg" and rnd.random() < 0.5:
        r["out"]["m"]["rc"] += 1
    elif r["wire"]["n"] and r["what"] not in ("refused", "untrusted"):
        r["wire"]["m"]["rd"] = not r["wire"]["m"]["rd"]
    else:
        return None
    return r


def run(ctx):
    rs = ctx.harness("TestClients", "cl", {"VERIF_N": ctx.pick(220, 2500)})
    ctx.extra["exchanges_per_transport"] = {t: sum(r["tp"] == t for r in rs) for t in sorted({r["tp"] for r in rs})}
    ctx.extra["answers"] = sum(r["out"]["k"] == "msg" for r in rs)
    ctx.extra["errors"] = sum(r["out"]["k"] == "err" for r in rs)
    ctx.judge("ClientJudge.tla", "Trace.cfg", rs, "upstream exchange", corrupt=corrupt,
              describe=lambda r: f'{r["tp"]} {r["what"]}: reply {r["rep"]["k"]} decodes={r["rep"]["dec"]} status={r["rep"]["stat"]} -> {r["out"]["k"]}, wire n={r["wire"]["n"]} len={r["wire"]["len"]} same={r["same"]}')
