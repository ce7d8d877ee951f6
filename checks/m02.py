def corrupt(r, rnd):
    g = r["got"]
    c = rnd.randrange(5)
    if c == 0:
        r["untouched"] = False
    elif c == 1 and g["k"] == "msg":
        g["rc"] = (g["rc"] + 1) % 16
    elif c == 2 and g["ns"]:
        g["ns"].pop()
    elif c == 3 and g["an"] and r["op"]["k"] not in ("probe", "ttl"):
        rnd.choice(g["an"])["ttl"][0] += 1
    elif c == 4 and r["up"]:
        r["up"][0]["h"] ^= 1
    else:
        return None
    return r


def text(x):
    return (bytes(x["n"]).decode(), x["t"], x["c"], x["ttl"], x["ip"], bytes(x["x"]).decode("latin1"))


def msg(m):
    return (m["k"], m["rc"], m["tc"], [text(x) for x in m["an"]], [text(x) for x in m["ns"]], [text(x) for x in m["ex"]], m["ede"])


def run(ctx):
    ctx.model_check("MCTransform.tla", "MCTransform.cfg")
    rs = ctx.harness("TestTransform", "tf", {"VERIF_N": ctx.pick(15000, 100000)})
    ps = ctx.harness("TestProbe", "pb", {"VERIF_N": ctx.pick(800, 6000)})
    ctx.extra["responses_per_element"] = {k: sum(r["op"]["k"] == k for r in rs + ps) for k in sorted({r["op"]["k"] for r in rs + ps})}
    ctx.extra["synthesized"] = sum(r["op"]["k"] == "dns64" and len(r["a"]) == 2 and r["got"] != r["a"][0] for r in rs)
    ctx.extra["reordered"] = sum(r["got"] != r["a"][0] for r in ps)
    ctx.judge("TransformJudge.tla", "Trace.cfg", rs + ps, "response", corrupt=corrupt,
              describe=lambda r: f'{r["op"]} q={bytes(r["q"]["name"]).decode()}/{r["q"]["qt"]} do={r["q"]["do"]} {r["up"]} upstream {[msg(a) for a in r["a"]]} returned {msg(r["got"])} untouched={r["untouched"]}')
