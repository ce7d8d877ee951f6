def corrupt(r, rnd):
    c = rnd.randrange(4)
    if c == 0:
        r["untouched"] = False
    elif c == 1 and r["up"]:
        r["up"] = r["up"] * 2
    elif c == 2 and r["up"][0]["opt"] and r["up"][0]["opt"][0]["opts"]:
        o = rnd.choice(r["up"][0]["opt"][0]["opts"])
        if not o["data"]:
            return None
        o["data"][-1] ^= 1
    elif c == 3 and r["got"]["qn"]:
        r["got"]["qn"][0] = r["got"]["qn"][0][:-1] + [33, 46]
    else:
        return None
    return r


def run(ctx):
    ctx.model_check("MCModify.tla", "MCModify.cfg")
    rs = ctx.harness("TestModify", "mo", {"VERIF_N": ctx.pick(15000, 100000)})
    ctx.extra["queries_per_element"] = {k: sum(r["op"]["k"] == k for r in rs) for k in sorted({r["op"]["k"] for r in rs})}
    ctx.extra["with_client_subnet"] = sum(any(o["code"] == 8 for p in r["q"]["opt"] for o in p["opts"]) for r in rs)
    ctx.extra["names_changed"] = sum(r["up"] != [] and r["up"][0]["name"] != r["q"]["name"] for r in rs)
    ctx.judge("ModifyJudge.tla", "Trace.cfg", rs, "modified query", corrupt=corrupt,
              describe=lambda r: f'{r["op"]} q={bytes(r["q"]["name"]).decode()} {r["q"]["opt"]} forwarded {len(r["up"])}: {[(bytes(u["name"]).decode(), u["opt"]) for u in r["up"]]} untouched={r["untouched"]} sameci={r["sameci"]} got={r["got"]["k"]} {[bytes(x["name"]).decode() for x in r["got"]["an"]]} of {[bytes(x["name"]).decode() for x in r["a"]["an"]]}')
