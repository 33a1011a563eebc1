"""Shared machinery of the checks: building drivers, running TLC, evidence,
known findings, violations.  Standard library only."""
import json, os, re, shutil, subprocess, sys, time, hashlib, random, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Infra(Exception):
    """The check itself could not do its work (exit 2)."""


def go_env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    go = "/opt/veriftools/go1.27.3/bin"
    if os.path.isdir(go):
        e["PATH"] = go + ":" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", GOWORK="off",
             GOTELEMETRY="off")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    return e


class TLCResult:
    def __init__(self):
        self.ok = False
        self.rejected = False      # an invariant, property or evaluation on a behaviour failed
        self.error = ""
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.out = ""
        self.wall = 0.0
        self.stateno = {}

    def last_state(self):
        """variables of the last printed state, as text"""
        st = {}
        blocks = re.split(r"\nState \d+: |initial state:\n", self.out)
        if len(blocks) < 2:
            return st
        for m in re.finditer(r"(?ms)^(?:/\\ )?(\w+) = (.*?)(?=^/\\ \w+ = |^\w+ = |^$|\Z)", blocks[-1] + "\n"):
            st[m.group(1)] = m.group(2).strip()
        return st


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.dir = os.path.join(VERIF, "build", "run-%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.violations = []
        self.known_hit = []
        self.known = load_known(prop)
        self.rng = random.Random(self.seed)
        self.lock = threading.Lock()
        self.metan = 0

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def elapsed(self):
        return time.time() - self.t0

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, self.elapsed()), *a, flush=True)

    # --- go -------------------------------------------------------------
    def modfile(self):
        """The harness module, with /repo (or VERIF_REPO) as the library."""
        mf = self.path("go.mod")
        if not os.path.exists(mf):
            s = open(os.path.join(HARNESS, "go.mod")).read()
            s = s.replace("=> /repo", "=> " + REPO)
            open(mf, "w").write(s)
            open(self.path("go.sum"), "w").write("")
        return mf

    def go_build(self, pkg, out, race=False, overlay=None, test=False, tags=None):
        dst = self.path(out)
        cmd = ["go"] + (["test", "-c"] if test else ["build"]) + ["-modfile", self.modfile()]
        if race:
            cmd.append("-race")
        if overlay:
            cmd += ["-overlay", overlay]
        if tags:
            cmd += ["-tags", tags]
        cmd += ["-o", dst, pkg]
        t = time.time()
        p = subprocess.run(cmd, cwd=HARNESS, env=go_env(), capture_output=True, text=True, timeout=600)
        if p.returncode != 0:
            raise Infra("building %s failed:\n%s" % (pkg, (p.stdout + p.stderr)[-4000:]))
        self.log("built %s%s in %.1fs" % (pkg, " -race" if race else "", time.time() - t))
        return dst

    # --- TLC --------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=8, extra=(), timeout=800, jvm=(), count=True, heap="6g"):
        with self.lock:
            self.metan += 1
            meta = self.path("tlc%d" % self.metan)
        e = {k: os.environ[k] for k in ("PATH", "HOME", "LANG") if k in os.environ}
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + self.dir] + list(jvm) + \
              ["-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
               "-config", os.path.join(SPEC, (cfg or module) + ".cfg")] + list(extra) + [module + ".tla"]
        r = TLCResult()
        t = time.time()
        outp = meta + ".out"
        with open(outp, "w") as fo:
            try:
                p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = -1
        r.out = open(outp, errors="replace").read()
        r.wall = time.time() - t
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", r.out)
        if m:
            r.generated, r.distinct = (int(x.replace(",", "")) for x in m[-1])
        m = re.findall(r"The depth of the complete state graph search is (\d+)", r.out)
        if m:
            r.depth = int(m[-1])
        m = re.findall(r"The number of states generated: (\d+)", r.out)
        if m:
            r.generated = int(m[-1])
        r.ok = rc == 0 and "No error has been found" in r.out or (rc == 0 and "-simulate" in extra)
        if not r.ok:
            bad = [x for x in ("StackOverflowError", "OutOfMemoryError", "Parsing or semantic analysis failed",
                               "is not enabled", "java.io") if x in r.out]
            i = r.out.find("Error:")
            r.error = r.out[i:i + 3000] if i >= 0 else "rc=%d %s" % (rc, r.out[-2000:])
            viol = re.search(r"Error: (Invariant|Action property|Temporal propert(?:ies|y)|Deadlock|Property) ?.*", r.out)
            evalerr = "The error occurred when TLC was evaluating the nested" in r.out or "Evaluating invariant" in r.out
            r.rejected = bool((viol or evalerr) and not bad and rc > 0)
            if rc == -1:
                r.error = "TLC timed out after %ss" % timeout
        if count:
            with self.lock:
                self.states += r.distinct or r.generated
                self.transitions += r.generated
        return r

    def design(self, module, cfg=None, what="", **kw):
        """Model-check a specification on its own.  A failure here is a
        mistake in the specification, never a verdict on the code."""
        r = self.tlc(module, cfg, **kw)
        if not r.ok:
            raise Infra("design check %s/%s failed: %s" % (module, cfg, r.error))
        self.cov.setdefault("design_checks", []).append(
            {"module": module, "config": cfg or module, "what": what, "distinct_states": r.distinct,
             "states_generated": r.generated, "depth": r.depth, "wall_s": round(r.wall, 1)})
        self.log("design %s/%s: %d distinct states in %.1fs" % (module, cfg or module, r.distinct, r.wall))
        return r

    def design_bug(self, module, cfg, **kw):
        """A specification with a planted mistake must be rejected."""
        r = self.tlc(module, cfg, count=False, **kw)
        if r.ok or not r.rejected:
            raise Infra("the specification does not notice %s: %s" % (cfg, r.error or r.out[-500:]))
        self.cov.setdefault("mistaken_designs_rejected", []).append(cfg)

    def par(self, *jobs):
        """Runs jobs in threads; the first error is raised."""
        errs, res = [], [None] * len(jobs)

        def go(i, j):
            try:
                res[i] = j()
            except BaseException as e:
                errs.append(e)
        ts = [threading.Thread(target=go, args=(i, j)) for i, j in enumerate(jobs)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise errs[0]
        return res

    def instrument(self):
        """An instrumented copy of the root package; the overlay file, or None
        if the copy cannot be made (the check then does without)."""
        d = self.path("instr")
        os.makedirs(d, exist_ok=True)
        exe = self.go_build("./instr", "instr.exe")
        p = subprocess.run([exe, REPO, d], capture_output=True, text=True)
        if p.returncode != 0:
            self.log("cannot instrument: " + p.stderr[-500:])
            return None
        self.cov["scheduling_points"] = int(p.stdout.split()[-1])
        return os.path.join(d, "overlay.json")

    def tables(self):
        t = self.path("tables.json")
        if not os.path.exists(t):
            r = self.tlc("MavDerive", env={"TABLES": t, "DEFS": os.path.join(SPEC, "mavlink_defs.json")}, workers=1)
            if not r.ok or not os.path.exists(t):
                raise Infra("MavDerive failed: " + r.error)
        return t

    # --- drivers that run scenarios in bubbles -----------------------------
    def drive(self, exe, out, args=(), wall=10, only=None, timeout=700, env=None, maxfail=6, test="TestDrive", quiet=False):
        """Runs a driver over its scenarios; restarts it behind a scenario that
        hung, leaked or crashed.  Returns the list of (kind, scenario, stderr)."""
        fails = []
        frm = 0
        t0 = time.time()
        e = go_env()
        e.update(env or {})
        while True:
            cmd = [exe, "-test.run", "^" + test + "$", "-test.timeout", "0", "-prop", self.prop, "-out", out, "-wall", "%ds" % wall,
                   "-defs", os.path.join(SPEC, "mavlink_defs.json")] + list(args)
            cmd += ["-only", str(only)] if only is not None else ["-from", str(frm)]
            try:
                p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, errors="replace")
            except subprocess.TimeoutExpired:
                # what it has recorded so far is judged all the same
                self.log("driver %s did not end in %ss" % (exe, timeout))
                self.cov["driver_cut_short"] = True
                self.trim(out)
                return fails
            if "COMPLETE" in p.stderr:
                if not quiet:
                    self.log("driver ran in %.1fs" % (time.time() - t0))
                return fails
            if p.returncode == 3 and "harness:" in p.stderr:
                raise Infra("driver: " + p.stderr[-2000:])
            last = frm - 1
            if os.path.exists(out):
                with open(out) as f:
                    for l in f:
                        m = re.match(r'\{"i":(\d+)', l)
                        if m:
                            last = int(m.group(1))
            kind = {42: "hang", 43: "leak"}.get(p.returncode, "crash")
            at = last if kind in ("hang", "leak") else last + 1
            if only is not None:
                at = only
            fails.append((kind, at, p.stderr[-6000:]))
            self.log("driver: %s in scenario %d" % (kind, at))
            if only is not None or len(fails) >= maxfail or time.time() - t0 > timeout:
                return fails
            frm = at + 1

    def trim(self, out):
        """Removes an incomplete last line."""
        if os.path.exists(out):
            b = open(out, "rb").read()
            if not b.endswith(b"\n"):
                open(out, "wb").write(b[:b.rfind(b"\n") + 1])

    # --- results ------------------------------------------------------------
    def violation(self, what, replay, key=""):
        """replay: JSON-able description of what fails."""
        for k in self.known:
            if key and k["key"] == key:
                self.known_hit.append("%s (%s)" % (k["text"], key))
                return False
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        body = dict(property=self.prop, what=what, key=key, seed=self.seed, tier=self.tier, **replay)
        txt = json.dumps(body, indent=1, default=str)
        h = hashlib.sha1(txt.encode()).hexdigest()[:10]
        p = os.path.join(VERIF, "replays", "%s-%s.json" % (self.prop, h))
        open(p, "w").write(txt)
        self.violations.append((what, p))
        return True

    def finish(self):
        self.cov.update(states=self.states, transitions=self.transitions,
                        traces_validated_against_impl=self.traces, samples=self.samples[:5])
        ev = dict(property=self.prop, tier=self.tier if self.tier in ("quick", "thorough") else "quick",
                  seed=self.seed, level="model_checking", coverage=self.cov, assumptions=self.assumptions,
                  wall_s=round(self.elapsed(), 1), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1, default=str)
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for what, p in self.violations:
            print("  " + what)
            print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)
        self.log("done: %d states, %d traces, %d violations" % (self.states, self.traces, len(self.violations)))
        return 1 if self.violations else 0


def load_known(prop):
    """known-findings file: 'known: property=<id> key=<key> <text>' lines are
    findings that were not repaired; 'fixed:' lines suppress nothing."""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                res.append(dict(key=m.group(2), text=m.group(3)))
    return res


def abbreviate(x, n=24):
    if isinstance(x, list):
        if len(x) > n:
            return [abbreviate(y, n) for y in x[:n]] + ["... %d in all" % len(x)]
        return [abbreviate(y, n) for y in x]
    if isinstance(x, dict):
        return {k: abbreviate(v, n) for k, v in x.items()}
    return x


def read_ndjson(p):
    with open(p) as f:
        return [json.loads(l) for l in f if l.strip()]


def write_ndjson(p, runs):
    with open(p, "w") as f:
        for x in runs:
            f.write(json.dumps(x, separators=(",", ":")))
            f.write("\n")
