import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

from vlib import CheckError, build_harness, goenv

# what a script tries, given %D a directory of its user; X(name) reaches a global by one of many ways
ATTEMPTS = {
    "io.open read": 'X("io").open("%D/secret"):read("*a")',
    "io.open write": 'X("io").open("%D/new", "w"):write("x")',
    "io.lines": 'X("io").lines("%D/secret")()',
    "io.input": 'X("io").input("%D/secret")',
    "io.output": 'X("io").output("%D/new")',
    "io.popen": 'X("io").popen("echo > %D/new"):read("*a")',
    "io.tmpfile": 'X("io").tmpfile()',
    "os.execute": 'X("os").execute("echo > %D/new")',
    "os.remove": 'X("os").remove("%D/secret")',
    "os.rename": 'X("os").rename("%D/secret", "%D/moved")',
    "os.tmpname": 'X("os").tmpname()',
    "os.exit": 'X("os").exit(0)',
    "dofile": 'X("dofile")("%D/secret")',
    "loadfile": 'X("loadfile")("%D/secret")()',
    "load": 'local n = 0; X("load")(function() n = n + 1; if n == 1 then return "CANARY = 1" end end)()',
    "load string": 'X("load")("CANARY = 1")()',
    "loadstring": 'X("loadstring")("CANARY = 1")()',
    "require": 'X("require")("mod")',
    "require path": 'X("package").path = "%D/?.lua"; X("require")("mod")',
    "preload": 'X("package").preload.x = function() CANARY = 1 end; X("require")("x")',
    "loaders": 'X("package").loaders[2]("mod")()',
    "loadlib": 'X("package").loadlib("%D/secret", "x")',
    "module": 'X("module")("mod", function() CANARY = 1 end)',
    "registry": 'X("debug").getregistry()._LOADED.io.open("%D/secret")',
    "loaded": 'X("package").loaded.os.remove("%D/secret")',
}
ROUTES = ['_G[n]', 'getfenv(0)[n]', 'getfenv(1)[n]', 'getfenv(print)[n]', 'getfenv(pcall)[n]', 'rawget(_G, n)', '_G._G[n]',
          'coroutine.wrap(function() return getfenv(0)[n] or _G[n] end)()', 'getfenv(Message.new)[n]', 'package.loaded[n]',
          'getmetatable("").__index[n]', 'getmetatable(_G).__index[n]', 'string[n]', 'getfenv(coroutine.create(function() end))[n]',
          'getmetatable(newproxy(true))[n]', 'debug.getregistry()._LOADED[n]', 'getfenv(string.gsub)[n]', 'base[n]', '_LOADED[n]']
HEAD = '''
local results = {}
local function answer(msg)
  local m = Message.new()
  m:set_reply(msg)
  m.answer = { RR.new({rtype = TypeTXT, name = "t.", class = ClassIN, ttl = 1, txt = { CANARY and "code" or "nothing" }}) }
  return m, nil
end
'''


def script(code, place, d):
    s = HEAD + "local function attempt()\n"
    for r in ROUTES:
        s += "  pcall(function() local function X(n) return %s end\n    %s\n  end)\n" % (r, code.replace("%D", d))
    s += "  pcall(function() local function X(n) if false then elseif n == 'x' then end return ({%s})[n] end\n    %s\n  end)\n" % (
        ", ".join(f"['{n}'] = {n}" for n in ("io", "os", "dofile", "loadfile", "load", "loadstring", "require", "package", "module", "debug")),
        code.replace("%D", d))
    s += "end\n"
    if place == "top":
        return s + "attempt()\nfunction Resolve(msg, ci) return answer(msg) end\n"
    if place == "coroutine":
        return s + "function Resolve(msg, ci) local c = coroutine.create(attempt) coroutine.resume(c) coroutine.resume(c) return answer(msg) end\n"
    return s + "function Resolve(msg, ci) attempt() return answer(msg) end\n"


# calls everything that can be reached from the globals, functions' environments and metatables
WALK = HEAD + '''
local seen, fns = {}, {}
local own = {}
local pcall, getmetatable, next, type, getfenv, ipairs = pcall, getmetatable, next, type, getfenv, ipairs
local function walk(v, depth)
  local t = type(v)
  if (t ~= "table" and t ~= "function" and t ~= "userdata") or seen[v] or depth > 12 then return end
  seen[v] = true
  if t == "function" then
    if not own[v] then fns[#fns + 1] = v end
    pcall(function() walk(getfenv(v), depth + 1) end)
  end
  if t == "table" then
    for k, x in next, v do walk(k, depth + 1) walk(x, depth + 1) end
  end
  pcall(function() walk(getmetatable(v), depth + 1) end)
end
local function attempt(msg, ci)
  own[walk] = true
  own[attempt] = true
  own[Resolve] = true
  walk(_G, 0) walk(msg, 0) walk(ci, 0) walk("", 0)
  pcall(function() walk(getmetatable(""), 0) end)
  local function use(f, ...)
    local r = { pcall(f, ...) }
    for i = 2, 4 do
      if type(r[i]) == "function" and not own[r[i]] then pcall(r[i]) end
      if type(r[i]) == "table" and type(r[i].read) == "function" then pcall(r[i].read, r[i]) end
    end
  end
  for _, f in ipairs(fns) do
    use(f, "%D/secret")
    use(f, "%D/secret", "r")
    use(f, "%D/new", "w")
    use(f, "CANARY = 1")
    use(f, "CANARY = 1", "chunk")
    use(f, "mod")
    local n = 0
    use(f, function() n = n + 1 if n == 1 then return "CANARY = 1" end end)
    use(f, "echo > %D/new")
  end
end
own[answer] = true
function Resolve(msg, ci) local m, e = answer(msg) attempt(msg, ci) if CANARY then return answer(msg) end return m, e end
'''


def attempt(base, binary, k, name, place, sandbox):
    d = os.path.join(base, f"a{k}")
    data, sd = os.path.join(d, "data"), os.path.join(d, "s")
    for x in (d, data, sd):
        os.mkdir(x)
        os.chown(x, 65534, 65534)
    for f, c in (("secret", "CANARY = 1\n"), ("mod.lua", "CANARY = 1\n")):
        with open(os.path.join(data, f), "w") as h:
            h.write(c)
        os.chown(os.path.join(data, f), 65534, 65534)
    with open(os.path.join(sd, "script"), "w") as f:
        f.write(WALK.replace("%D", data) if name == "walk" else script(ATTEMPTS[name], place, data))
    os.chmod(os.path.join(sd, "script"), 0o644)
    env = {"PATH": "/usr/bin:/bin", "VERIF_CHILD": "1", "VERIF_ATTEMPT": os.path.join(sd, "script"), "GOMAXPROCS": "2", "TMPDIR": data, "HOME": data}
    if not sandbox:
        env["VERIF_NOSANDBOX"] = "1"
    log = os.path.join(d, "log")
    with open(log, "wb"):
        pass
    os.chown(log, 65534, 65534)
    # as a user with nothing but these files
    p = subprocess.run(["strace", "-f", "-q", "-s", "400", "-o", log, "-e", "trace=%file,%process", "-e", "signal=none", binary,
                        "-test.run", "^TestLuaAttempt$", "-test.timeout", "60s"], env=env, cwd=data, user=65534, group=65534, extra_groups=[],
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    effects, on, ended = [], False, False
    for line in open(log, errors="replace"):
        if '"/verif-begin"' in line:
            on = True
        elif '"/verif-end"' in line:
            ended, on = True, False
        elif on:
            m = re.match(r"\d+\s+(\w+)\(", line)
            if not m:
                continue
            c = m.group(1)
            if c in ("execve", "execveat", "fork", "vfork") or (c in ("clone", "clone3") and "CLONE_THREAD" not in line) or data in line \
                    or (c in ("open", "openat", "creat") and re.search("O_CREAT|O_WRONLY|O_RDWR", line)) or c.startswith(("unlink", "rename", "mkdir")):
                effects.append(line.strip()[:200])
    if not on and not ended:
        raise CheckError(f"attempt {name} did not run:\n{p.stdout[-1500:]}")
    rp = os.path.join(sd, "result")
    res = open(rp).read() if os.path.exists(rp) else "died"
    return {"k": "attempt", "name": name, "place": place, "sandbox": sandbox, "effects": effects[:4], "code": res == "code", "died": not ended, "result": res[:200]}


def attempts(ctx):
    base = tempfile.mkdtemp(prefix="verif-U01-u-")
    try:
        os.chmod(base, 0o755)
        binary = os.path.join(base, "harness")
        shutil.copy(build_harness(), binary)
        os.chmod(binary, 0o755)
        todo = []
        for sandbox in (True, False):
            for n in ATTEMPTS:
                for place in (("resolve", "top", "coroutine") if sandbox else ("resolve",)):
                    todo.append((n, place, sandbox))
            todo.append(("walk", "resolve", sandbox))
        with ThreadPoolExecutor(6) as ex:
            return list(ex.map(lambda x: attempt(base, binary, x[0], *x[1]), enumerate(todo)))
    finally:
        shutil.rmtree(base, ignore_errors=True)


def corrupt(t, rnd):
    rets = [e for e in t["ev"] if e["e"] == "ret"]
    qs = [e for e in t["ev"] if e["e"] == "quiet" and e["up"]]
    if rnd.randrange(2) and qs:
        rnd.choice(qs)["up"].pop()
    else:
        e = rnd.choice(rets)
        e["o"]["err"] = "" if e["o"]["err"] else "other"
    return t


def spoil(r, rnd):
    if r["k"] == "start":
        r["accepted"] = not r["accepted"]
        return r
    if not r["sandbox"]:
        return None
    r["effects"] = ["x"]
    return r


def run(ctx):
    ctx.model_check("MCScriptPool.tla", "MCScriptPool.cfg")
    ctx.weakened("MCScriptPool.tla", "MCScriptPool.cfg", "GiveBack")
    tr = ctx.harness("TestLuaPool", "lua", {"VERIF_N": ctx.pick(400, 4000), "VERIF_BATCH": ctx.pick(6000, 20000)})
    ctx.extra["runs_by_kind"] = {}
    for t in tr:
        for e in t["ev"]:
            if e["e"] in ("call", "batch"):
                ctx.extra["runs_by_kind"][e["act"]] = ctx.extra["runs_by_kind"].get(e["act"], 0) + e.get("n", 1)
    ctx.validate("ScriptPoolTrace.tla", "Trace.cfg", tr, "script runs", corrupt=corrupt)
    rs = ctx.harness("TestLuaStart", "start", {"VERIF_N": ctx.pick(500, 5000)})
    at = attempts(ctx)
    free = [a for a in at if not a["sandbox"]]
    ctx.extra["attempts_sandboxed"] = sum(a["sandbox"] for a in at)
    ctx.extra["attempts_with_effect_unsandboxed"] = sum(bool(a["effects"]) or a["code"] or a["died"] for a in free)
    if ctx.extra["attempts_with_effect_unsandboxed"] < len(free) // 2:
        raise CheckError("most attempts have no effect even without the sandbox: " + str([(a["name"], a["result"]) for a in free if not a["effects"]])[:800])
    ctx.judge("ScriptJudge.tla", "Trace.cfg", rs + at, "script start and sandbox", corrupt=spoil)
