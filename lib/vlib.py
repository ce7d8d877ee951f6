"""Shared machinery of the checks: build the harness from /repo, run it, run TLC,
turn rejected observations into VIOLATION lines, write evidence."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = max(2, min(8, os.cpu_count() or 2))


class CheckError(Exception):
    """The check itself could not run: exit 2, never a verdict."""


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    if not os.environ.get("PATH", "").count("/usr/local/go/bin"):
        e["PATH"] = e.get("PATH", "") + ":/usr/local/go/bin"
    return e


def build_harness(race=False):
    """Compiles harness/*.go as package /repo/zzverif (exists only in the overlay)."""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "harness")
    repl = {f"{REPO}/zzverif/{f}": os.path.join(src, f)
            for f in sorted(os.listdir(src)) if f.endswith(".go")}
    return _gotest("./zzverif", repl, "harness" + ("-race" if race else ""), race)


def build_cmd_harness(race=False):
    """Compiles harness/cmd/*.go into package cmd/routedns."""
    src = os.path.join(VERIF, "harness", "cmd")
    repl = {f"{REPO}/cmd/routedns/zz_{f}": os.path.join(src, f)
            for f in sorted(os.listdir(src)) if f.endswith(".go")}
    return _gotest("./cmd/routedns", repl, "cmdharness" + ("-race" if race else ""), race)


def build_pkg_harness(race=False):
    """Compiles harness/rdns/*.go into the package itself."""
    src = os.path.join(VERIF, "harness", "rdns")
    repl = {f"{REPO}/zz_{f}": os.path.join(src, f)
            for f in sorted(os.listdir(src)) if f.endswith(".go")}
    return _gotest(".", repl, "pkgharness" + ("-race" if race else ""), race)


def _gotest(pkg, repl, name, race):
    os.makedirs(BUILD, exist_ok=True)
    ov = os.path.join(BUILD, name + ".overlay.json")
    with open(ov, "w") as f:
        json.dump({"Replace": repl}, f)
    out = os.path.join(BUILD, name)
    cmd = ["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", out]
    if race:
        cmd.append("-race")
    r = subprocess.run(cmd + [pkg], cwd=REPO, env=goenv(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=800)
    if r.returncode != 0:
        raise CheckError("harness build failed:\n" + r.stdout[-1800:])
    return out


def build_binary():
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "routedns")
    r = subprocess.run(["go", "build", "-o", out, "./cmd/routedns"], cwd=REPO, env=goenv(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if r.returncode != 0:
        raise CheckError("build failed:\n" + r.stdout[-1800:])
    return out


class Violation:
    def __init__(self, what, data):
        self.what, self.data = what, data


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = abs(hash(os.environ["VERIF_SEED"])) % (1 << 31)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.rnd = random.Random(self.seed)
        self.work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, name):
        return os.path.join(self.work, name)

    def violate(self, what, data=None):
        self.violations.append(Violation(what, data))

    # ---- harness -------------------------------------------------------
    def harness(self, test, out, env=None, timeout=300, race=False, binary=None, cwd=None, crash_ok=False):
        """Runs one test function of the harness. Returns list of records written."""
        b = binary or build_harness(race)
        e = goenv()
        outp = self.path(out)
        e.update({"VERIF_OUT": outp, "VERIF_SEED": str(self.seed), "VERIF_TIER": self.tier,
                  "VERIF_DATA": os.path.join(REPO, "testdata"), "VERIF_SCRATCH": self.work,
                  "GOTRACEBACK": "all"})
        if race:
            e["GORACE"] = "halt_on_error=0 exitcode=66 history_size=3"
        for k, v in (env or {}).items():
            e[k] = str(v)
        logp = self.path(out + ".log")
        with open(logp, "w") as lf:
            try:
                p = subprocess.Popen([b, "-test.run", "^" + test + "$", "-test.timeout", "0"], env=e,
                                     cwd=cwd or self.work, stdout=lf, stderr=subprocess.STDOUT,
                                     stdin=subprocess.DEVNULL, start_new_session=True)
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(p.pid, 3)
                    time.sleep(2)
                    os.killpg(p.pid, 9)
                except ProcessLookupError:
                    pass
                p.wait()
                rc = None
        log = open(logp, errors="replace").read()
        recs = []
        if os.path.exists(outp):
            with open(outp) as f:
                for line in f:
                    line = line.strip()
                    if line:
                        try:
                            recs.append(json.loads(line))
                        except ValueError:
                            pass
        if race and "WARNING: DATA RACE" in log:
            r = race_in_repo(log)
            if r:
                self.violate("data race in the code under test", {"test": test, "report": r})
        if rc == 0 or (rc == 66 and race):
            return recs
        if rc is not None:
            c = crash_in_repo(log)
            if c:
                self.violate("the process crashed in the code under test",
                             {"test": test, "panic": c, "log": log[-20000:]})
                return recs
            c = hang_in_repo(log)
            if c:
                self.violate("calls into the code under test never return", {"test": test, "waiting": c, "log": log[-20000:]})
                return recs
        if crash_ok:
            return recs
        raise CheckError(f"harness {test} ended with {rc}:\n{log[:1800]}")

    # ---- TLC -----------------------------------------------------------
    def tlc(self, module, cfg, env=None, timeout=300, workers=None, heap="3g", sim=None):
        e = dict(os.environ)
        for k, v in (env or {}).items():
            e[k] = str(v)
        md = tempfile.mkdtemp(prefix="tlc", dir=self.work)
        cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC" if (workers or CORES) > 1 else "-XX:+UseSerialGC",
               "-Xss16m", "-Djava.io.tmpdir=" + self.work, "-cp", TLAJARS, "tlc2.TLC", "-noGenerateSpecTE", "-deadlock", "-metadir", md,
               "-workers", str(workers or CORES), "-config", cfg]
        if sim:
            cmd += ["-simulate", sim, "-seed", str(self.seed)]
        cmd.append(module)
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC {module}/{cfg} timed out after {timeout}s")
        finally:
            shutil.rmtree(md, ignore_errors=True)
        return r.returncode, r.stdout

    def model_check(self, module, cfg, timeout=600, env=None, **kw):
        """Invariants / properties of the specification itself; must hold."""
        rc, out = self.tlc(module, cfg, timeout=timeout, env=env, **kw)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError(f"model checking {module}/{cfg} failed (rc {rc}):\n{out[-2500:]}")
        self._count(out)
        return out

    def weakened(self, module, cfg, *switches):
        """Control: the specification with one of its safeguards switched off must be refuted."""
        text = open(os.path.join(SPEC, cfg)).read()
        for sw in switches:
            if sw + " = TRUE" not in text:
                raise CheckError(f"{cfg} has no switch {sw}")
            p = self.path(f"{sw}.cfg")
            with open(p, "w") as f:
                f.write(text.replace(sw + " = TRUE", sw + " = FALSE"))
            rc, out = self.tlc(module, p)
            if "is violated" not in out:
                raise CheckError(f"{module} without {sw} is not refuted (rc {rc}):\n{out[-2500:]}")
            self.extra.setdefault("refuted_without", []).append(sw)

    def _count(self, out):
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            g, d = m[-1]
            self.transitions += int(g.replace(",", ""))
            self.states += int(d.replace(",", ""))

    def validate(self, module, cfg, traces, what, corrupt=None, timeout=600, chunk=None, describe=None, env=None,
                 heap="2g", quiet=False):
        """TLC decides for every trace {"id","cfg","ev"} whether the specification allows it.
        `corrupt(trace, rnd)` returns a trace that must be rejected (binding control) or None."""
        if not traces:
            raise CheckError(f"{what}: nothing was recorded")
        ctl = []
        if corrupt:
            for t in self.rnd.sample(traces, min(len(traces), 12)):
                c = corrupt(json.loads(json.dumps(t)), self.rnd)
                if c is not None:
                    ctl.append(c)
        n = len(traces)
        allt = traces + ctl
        nproc = min(CORES, max(1, len(allt) // 4))
        chunks = [list(range(k, len(allt), nproc)) for k in range(nproc)]

        def one(k):
            fn = self.path(f"{module}-{what}-{k}.ndjson".replace(" ", "_"))
            with open(fn, "w") as f:
                for j in chunks[k]:
                    f.write(json.dumps(allt[j]) + "\n")
            ev = {"TRACE": fn}
            ev.update(env or {})
            rc, out = self.tlc(module, cfg, env=ev, timeout=timeout, workers=1, heap=heap)
            if "VALIDATION-DONE" not in out or rc != 0:
                raise CheckError(f"trace validation {module} failed (rc {rc}):\n{out[-1800:]}")
            rej = {}
            for m in re.finditer(r'<<"REJECT", (\d+), (\d+)>>', out):
                rej[chunks[k][int(m.group(1)) - 1]] = int(m.group(2))
            return rej, out
        rej = {}
        with ThreadPoolExecutor(nproc) as ex:
            for r, out in ex.map(one, range(nproc)):
                rej.update(r)
                self._count(out)
        self.traces += n
        self.events += sum(len(t.get("ev", [])) for t in traces)
        if len(self.samples) < 3:
            self.samples.append(_trim(self.rnd.choice(traces)))
        bad = sorted(j for j in rej if j < n)
        ctlrej = sum(1 for j in rej if j >= n)
        if ctl:
            self.extra["control_traces_corrupted"] = self.extra.get("control_traces_corrupted", 0) + len(ctl)
            self.extra["control_traces_rejected"] = self.extra.get("control_traces_rejected", 0) + ctlrej
            if ctlrej == 0:
                raise CheckError(f"{what}: no corrupted control trace was rejected, the validation is vacuous")
        if quiet:
            return {j: rej[j] for j in bad}
        for j in bad[:20]:
            t = traces[j]
            at = rej[j]
            ev = t["ev"][at] if at < len(t["ev"]) else "(end)"
            w = describe(t, at) if describe else f"event {at+1} not allowed: {json.dumps(ev)[:300]}"
            self.violate(f"{what}: {w}", {"trace": t, "rejected_at": at})
        return {j: rej[j] for j in bad}

    def judge(self, module, cfg, recs, what, corrupt=None, timeout=600, describe=None, env=None, quiet=False):
        """Stateless records: each record is one case the specification's operator must accept."""
        tr = [{"ev": [r]} for r in recs]
        c = None
        if corrupt:
            def c(t, rnd):
                x = corrupt(t["ev"][0], rnd)
                return None if x is None else {"ev": [x]}
        d = None
        if describe:
            def d(t, at):
                return describe(t["ev"][0])
        return self.validate(module, cfg, tr, what, corrupt=c, timeout=timeout, describe=d, env=env, quiet=quiet)

    # ---- finish ----------------------------------------------------------
    def finish(self, level="model_checking"):
        known = load_known(self.pid)
        fresh = []
        for v in self.violations:
            k = match_known(known, v)
            if k:
                if k["what"] not in self.known:
                    self.known.append(k["what"])
            else:
                fresh.append(v)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "observed_events": self.events,
                           "samples": self.samples[:3] or ["none"], **self.extra},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(fresh)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for w in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {w}")
        if fresh:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, f"{self.pid}-{self.seed}-{self.tier}.json")
            with open(rp, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier,
                           "rerun": f"VERIF_SEED={self.seed} VERIF_TIER={self.tier} python3 run.py {self.pid}",
                           "violations": [{"what": v.what, "data": v.data} for v in fresh[:20]]}, f, indent=1)
            for v in fresh[:5]:
                print("  " + v.what[:600])
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        print(f"{self.pid} held: {self.states} states, {self.traces} traces, {self.events} events, "
              f"{time.time()-self.t0:.0f}s")
        return 0

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


def _trim(x, lim=3000):
    s = json.dumps(x)
    return x if len(s) <= lim else s[:lim] + "..."


def crash_in_repo(log):
    """The panic text if the first panicking stack reaches routedns code before harness code."""
    m = re.search(r"^(panic: .*|fatal error: .*)$", log, re.M)
    if not m:
        return None
    if m.group(1).startswith("panic: deadlock") or "synctest" in m.group(1):
        return None
    tail = log[m.start():]
    # the panicking goroutine is the first one printed
    g = re.search(r"^goroutine \d+.*?:\n(.*?)(?:\n\n|\Z)", tail, re.M | re.S)
    if not g:
        return None
    for line in g.group(1).splitlines():
        if "github.com/folbricht/routedns/zzverif" in line or "zz_" in line:
            return None
        if line.startswith("github.com/folbricht/routedns") or line.startswith("main."):
            return m.group(1) + " at " + line
    return None


def hang_in_repo(log):
    """Where calls are stuck if nothing in a bubble can ever move, no timer is left and no call out of the code
    under test is outstanding."""
    at = log.find("panic: deadlock: ")
    if at < 0:
        return None
    stuck = []
    for g in re.findall(r"^goroutine \d+ \[[^\n]*synctest bubble[^\n]*\]:\n(.*?)(?:\n\n|\Z)", log[at:], re.M | re.S):
        fr = [x for x in g.splitlines() if x.startswith("github.com/folbricht/routedns")]
        own = ["/zzverif." in x for x in fr]
        if not fr or all(own):
            continue
        if own[0]:
            return None     # the harness itself keeps the call waiting
        if any(own):
            stuck.append(fr[0])
    return sorted(set(stuck)) or None


def race_in_repo(log):
    for rep in log.split("==================")[1:]:
        if "WARNING: DATA RACE" not in rep:
            continue
        # the top frames of both accesses
        tops = re.findall(r"^(?:Read|Write|Previous read|Previous write|  Read|  Write).*?by .*?:\n\s+(\S+)", rep, re.M)
        tops += re.findall(r"^(?:Previous )?(?:read|write|Atomic).*?:\n\s+(\S+)", rep, re.M | re.I)
        if len(tops) >= 2 and all("folbricht/routedns" in t and "zzverif" not in t for t in tops[:2]):
            return rep[:6000]
    return None


def load_known(pid):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("known", []) if k["property"] == pid]


def match_known(known, v):
    """A known finding is identified by the exact tag its check gave the violation."""
    tag = (v.data or {}).get("known_tag") if isinstance(v.data, dict) else None
    for k in known:
        if tag is not None and tag == k["tag"]:
            return k
    return None
