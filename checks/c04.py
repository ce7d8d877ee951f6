import json
import os
import shutil
from concurrent.futures import ThreadPoolExecutor

import cachelib
import fstrace
from vlib import CheckError, build_harness, goenv

TARGET = "cache.json"


class Save:
    """One run of the driver in a directory of its own."""

    def __init__(self, ctx, cfg, base, k, inject=None, mode="one"):
        self.cfg, self.base, self.inject, self.mode, self.k = cfg, base, inject, mode, k
        self.dir = ctx.path(f"save{k}")
        self.log = ctx.path(f"save{k}.st")
        self.ctx = ctx
        self.opaque = False

    def run(self, binary, chunks):
        shutil.copytree(self.base, self.dir)
        a, b, size, _ = self.cfg
        e = goenv()
        e.update({"VERIF_CHILD": "1", "VERIF_FILE": os.path.join(self.dir, TARGET), "VERIF_FROM": str(a), "VERIF_TO": str(b),
                  "VERIF_SIZE": str(size), "VERIF_MODE": self.mode, "GOMAXPROCS": "4"})
        before = sorted(os.listdir(self.dir))
        self.rc = fstrace.run([binary, "-test.run", "^TestSaveDriver$", "-test.timeout", "0"], e, self.log, self.inject, cwd=self.dir)
        self.files = fstrace.Files(self.dir, [], chunks)
        self.f = self.files
        # the state before is that of the directory the run started from
        self.f.d = self.base
        self.f.__init__(self.base, before, chunks)
        self.f.d = self.dir
        self.calls = []
        self.injected = []
        for pid, name, args, res, inj in fstrace.calls(self.log):
            if self.f.tid is None or pid == self.f.tid:
                self.calls.append((pid, name, args))
            if inj and self.f.tid is not None and pid == self.f.tid:
                self.injected.append(name)
            self.f.feed(pid, name, args, res)
        if "begin" not in self.f.marks and not self.inject:
            raise CheckError(f"save driver ended with {self.rc} before saving")
        after = sorted(os.listdir(self.dir))
        self.leftovers = [n for n in after if n not in before and n != TARGET]
        killed = self.inject and "signal" in self.inject
        if not killed and self.mode == "one":
            # operations this cannot follow: the directory is not as the calls say
            self.opaque = after != sorted(self.f.names) or (TARGET in after and
                open(os.path.join(self.dir, TARGET), "rb").read() != self.f.content(self.f.ino[self.f.names[TARGET]]))
        self.opaque = self.opaque or any(e["e"] == "foreign" for e in self.f.ev)
        if any(n in ("unlink", "unlinkat") for n in self.injected):
            for e in self.f.ev:
                if e["e"] == "end":
                    e["cleanup"] = False
        return self

    def points(self):
        """system calls of the saving thread during the save, as (name, how many of these before)"""
        seen, on, r = {}, False, []
        for pid, name, args in self.calls:
            if pid != self.f.tid:
                continue
            seen[name] = seen.get(name, 0) + 1
            t = (fstrace.texts(args) or [b""])[0]
            if t == b"/verif-begin":
                on = True
                continue
            if t.startswith(b"/verif-"):
                break
            if on and name in fstrace.INJECTABLE:
                r.append((name, seen[name]))
        return r


def saves(ctx):
    binary = build_harness()
    chunks = {}
    # entries before, after, size of each, mode of the file
    cfgs = [(0, 3, 200, None), (3, 6, 200, 0o640), (12, 30, 8000, 0o644), (5, 5, 300, 0o600)]
    if ctx.thorough:
        cfgs += [(1, 2, 100, 0o444), (0, 40, 8000, None), (40, 41, 8000, 0o666), (2, 200, 3000, 0o604)]
    runs, n = [], 0
    keys = max(c[1] for c in cfgs)
    for j, c in enumerate(cfgs):
        base = ctx.path(f"base{j}")
        os.mkdir(base)
        if c[0]:
            e = {"VERIF_CHILD": "1", "VERIF_FILE": os.path.join(base, TARGET), "VERIF_FROM": 0, "VERIF_TO": c[0], "VERIF_SIZE": c[2], "VERIF_MODE": "one"}
            ctx.harness("TestSaveDriver", f"base{j}.out", e)
            if not os.path.exists(os.path.join(base, TARGET)):
                ctx.violate("a save of a new file left no file", {"config": c})
                continue
            os.chmod(os.path.join(base, TARGET), c[3])
        dry = Save(ctx, c, base, n).run(binary, chunks)
        n += 1
        if "saved" not in dry.f.marks:
            ctx.violate("saving failed without a reason", {"config": c, "marks": dry.f.marks})
        runs.append(dry)
        todo = []
        for name, k in dry.points():
            for err in ("EIO", "ENOSPC", "EACCES") if ctx.thorough else (ctx.rnd.choice(("EIO", "ENOSPC", "EACCES")),):
                todo.append(Save(ctx, c, base, n, f"{name}:error={err}:when={k}"))
                n += 1
            todo.append(Save(ctx, c, base, n, f"{name}:signal=SIGKILL:when={k}"))
            n += 1
        for m in ["many", "interval"] * ctx.pick(1, 4):
            todo.append(Save(ctx, c, base, n, mode=m))
            n += 1
        with ThreadPoolExecutor(6) as ex:
            runs += list(ex.map(lambda s: s.run(binary, chunks), todo))
    # what each content that turned up restores to
    contents = sorted({t for s in runs for t in s.f.seen})
    back = {v: k for k, v in chunks.items()}
    jobs = []
    for j, seq in enumerate(contents):
        d = ctx.path(f"r{j}")
        os.mkdir(d)
        p = os.path.join(d, TARGET)
        with open(p, "wb") as f:
            f.write(b"".join(back.get(c, b"") for c in seq))
        jobs.append({"ID": j, "Path": p})
    # and what the directories of killed runs restore to, as they are
    killed = [s for s in runs if s.inject and "signal" in s.inject]
    for j, s in enumerate(killed):
        jobs.append({"ID": 100000 + j, "Path": os.path.join(s.dir, TARGET)})
    with open(ctx.path("jobs"), "w") as f:
        json.dump(jobs, f)
    res = {r["id"]: r for r in ctx.harness("TestRestore", "restored", {"VERIF_LIST": ctx.path("jobs"), "VERIF_KEYS": keys})}
    if ctx.violations:
        return
    sets = {seq: res[j]["keys"] for j, seq in enumerate(contents)}
    starts = []
    for j, s in enumerate(killed):
        a, b = s.cfg[0], s.cfg[1]
        starts.append({"k": "start", "started": res[100000 + j]["started"], "keys": res[100000 + j]["keys"],
                       "snapshots": [list(range(1, a + 1)), list(range(1, b + 1))], "where": s.inject, "cfg": str(s.cfg)})
    traces = []
    for s in runs:
        if s.opaque:
            continue
        a, b = s.cfg[0], s.cfg[1]
        ok = [list(range(1, x + 1)) for x in range(a, b + 1)] if s.mode != "one" else [list(range(1, a + 1)), list(range(1, b + 1))]
        good = [list(q) for q in contents if q and sets[q] in ok]
        if s.mode != "one" or a == 0:  # an empty cache saved is an empty file
            good.append([])
        old = s.f.chunk(open(os.path.join(s.base, TARGET), "rb").read()) if a else 0
        traces.append({"cfg": {"target": TARGET, "had": a > 0, "old": [old] if a else [], "mode": s.cfg[3] or 0, "good": good,
                               "new": [list(q) for q in contents if q and sets[q] == ok[-1]], "others": []},
                       "ev": s.f.ev, "run": s.inject or s.mode})
    traces = [t for t in traces if t["ev"]]
    ctx.extra["saves_watched"] = len(traces)
    ctx.extra["saves_not_understood"] = sum(s.opaque for s in runs)
    ctx.extra["faults_injected"] = sum(len(s.injected) for s in runs)
    ctx.extra["kills"] = len(killed)
    ctx.extra["contents_restored"] = len(contents)

    def corrupt(t, rnd):
        ev = [e for e in t["ev"] if e["e"] in ("sync", "write", "rename", "fchmod")]
        if not ev or t["run"] != "one":
            return None
        e = rnd.choice(ev)
        if e["e"] == "rename":
            t["ev"].remove(e)
            if t["cfg"]["new"] == [t["cfg"]["old"]]:
                return None
        elif e["e"] == "fchmod":
            e["mode"] ^= 0o7
        elif e["e"] == "write":
            e["c"] = 0
        else:
            t["ev"].remove(e)
        return t
    if traces:
        ctx.validate("SaveFileTrace.tla", "Trace.cfg", traces, "save", corrupt=corrupt,
                 describe=lambda t, at: f'{t["run"]}: {json.dumps(t["ev"][at] if at < len(t["ev"]) else "end")} not allowed after {[e["e"] for e in t["ev"][:at]]}')
    own = [x for s in runs for x in s.f.created if x != TARGET]
    left = [x for s in killed for x in s.leftovers]
    ctx.extra["left_behind_by_kills"] = len(left)
    rm = []
    if left:
        rm = ctx.harness("TestCleanup", "cleanup", {"VERIF_N": ctx.pick(60, 600), "VERIF_TMPNAME": left[0]})
        ctx.extra["directory_entries_at_start"] = len(rm)
        ctx.extra["removed_at_start"] = sum(r["removed"] for r in rm)

    def spoil(r, rnd):
        if r["k"] == "entry":
            r["removed"] = not r["removed"]
        else:
            r["keys"] = r["keys"][1:] + [0]
        return r
    ctx.judge("RestoreJudge.tla", "Trace.cfg", starts + rm, "start", corrupt=spoil,
              describe=lambda r: json.dumps({k: v for k, v in r.items() if k != "snapshots"})[:500])


def run(ctx):
    ctx.model_check("MCSaveFile.tla", "MCSaveFile.cfg")
    ctx.weakened("MCSaveFile.tla", "MCSaveFile.cfg", "WithSync", "OwnNames", "WithMode")
    tr = ctx.harness("TestPersist", "persist", {"VERIF_N": ctx.pick(1500, 15000)})
    ctx.extra["restarts"] = sum(e["e"] == "restart" for t in tr for e in t["ev"])
    ctx.extra["restarts_with_damage"] = sum(e["e"] == "restart" and bool(e["lost"] or e["after"]) for t in tr for e in t["ev"])
    ctx.validate("PersistTrace.tla", "Trace.cfg", tr, "cache history with restarts", corrupt=cachelib.corrupt)
    saves(ctx)
