def corrupt(r, rnd):
    g = r["got"]
    if g["k"] != "msg":
        return None
    c = rnd.randrange(3)
    if c == 0:
        g["tc"] = not g["tc"]
    elif c == 1 and g["an"]:
        g["an"] = g["an"][:-1]
    else:
        g["head"] += " "
    return r


def run(ctx):
    rs = ctx.harness("TestReplies", "rp", {"VERIF_N": ctx.pick(250, 2500)})
    ctx.extra["replies_per_listener"] = {k: sum(r["listener"] == k for r in rs) for k in sorted({r["listener"] for r in rs})}
    ctx.extra["truncated"] = sum(r["got"]["tc"] and not r["a"]["tc"] for r in rs)
    ctx.extra["padded"] = sum(r["got"]["pad"] > 0 for r in rs)
    ctx.judge("ReplyJudge.tla", "Trace.cfg", rs, "reply", corrupt=corrupt,
              describe=lambda r: f'{r["listener"]} edns={r["edns"]} adv={r["adv"]} lo={r["lo"]} hi={r["hi"]} len={r["len"]} a.tc={r["a"]["tc"]} a.opt={r["a"]["opt"]} a.pad={r["a"]["pad"]} records={len(r["a"]["an"])},{len(r["a"]["ns"])},{len(r["a"]["ex"])} -> {r["got"]["k"]} size={r["got"]["size"]} tc={r["got"]["tc"]} pad={r["got"]["pad"]} opt={r["got"]["opt"]} records={len(r["got"]["an"])},{len(r["got"]["ns"])},{len(r["got"]["ex"])}')
