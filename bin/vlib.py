"""Shared machinery of the checks: building the driver, running TLC, validating traces, evidence."""
import json, os, re, subprocess, sys, time, threading, shutil, signal
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(V, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Broken(Exception):
    """The check itself failed: no verdict."""


class Violation(Exception):
    def __init__(self, replay, text):
        super().__init__(text)
        self.replay, self.text = replay, text


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.dir = os.path.join(V, ".build", prop.lower() + "-" + str(os.getpid()))
        os.makedirs(self.dir, exist_ok=True)
        self.states = self.trans = self.traces = self.lines = 0
        self.samples, self.assumptions, self.extra = [], [], {}
        self.models = []
        self.pool = ThreadPoolExecutor(8)
        self.lock = threading.Lock()
        self.driver = os.path.join(self.dir, "vdrv")

    # ---------------------------------------------------------------- build
    def env(self):
        e = dict(os.environ)
        e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "")
        e.update(HOME=e.get("HOME", "/root"), GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOENV="off",
                 GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", CGO_ENABLED="1", GOSUMDB="off")
        e.setdefault("GOCACHE", "/root/.cache/go-build")
        return e

    def build(self, yields=False):
        """Builds the driver from a private copy of the harness module against /repo's working tree; with yields, /repo's
        code gives way at random between its statements (VERIF_YIELD: how often it sleeps, per mille)."""
        h = os.path.join(self.dir, "harness")
        shutil.rmtree(h, ignore_errors=True)
        shutil.copytree(os.path.join(V, "harness"), h)
        req = []
        on = False
        gov = "go 1.23"
        for line in open("/repo/go.mod"):
            if line.startswith("go "):
                gov = line.strip()
            if line.startswith("require ("):
                on = True
            if on:
                req.append(line.rstrip("\n"))
            if on and line.startswith(")"):
                on = False
        with open(os.path.join(h, "go.mod"), "w") as f:
            f.write("module verifharness\n\n%s\n\nrequire github.com/younglifestyle/secs4go v0.0.0\n\n%s\n\n"
                    "replace github.com/younglifestyle/secs4go => /repo\n" % (gov, "\n".join(req)))
        shutil.copy("/repo/go.sum", os.path.join(h, "go.sum"))
        cmd = ["go", "build", "-o", self.driver]
        if yields:
            o = os.path.join(self.dir, "yields")
            os.mkdir(o)
            r = subprocess.run(["go", "run", "./cmd/vyield", "/repo", "github.com/younglifestyle/secs4go", o, ".", "utils", "common", "hsms", "gem", "codec"],
                               cwd=h, env=self.env(), capture_output=True, text=True, timeout=600)
            if r.returncode != 0:
                raise Broken("the overlay is not made:\n" + r.stderr[-4000:])
            cmd += ["-overlay", os.path.join(o, "overlay.json")]
        cmd += ["./cmd/vdrv"]
        r = subprocess.run(cmd, cwd=h, env=self.env(), capture_output=True, text=True, timeout=600)
        if r.returncode != 0:
            raise Broken("driver does not build:\n" + r.stderr[-4000:])

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, args=(), workers=1, timeout=600, env=None, xmx="3g", dfs=False, xss="256m"):
        with self.lock:
            self.n = getattr(self, "n", 0) + 1
            md = os.path.join(self.dir, "md%d" % self.n)
        cmd = ["java", "-Xss" + xss, "-Xmx" + xmx, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4",
               "-Djava.io.tmpdir=" + self.dir]
        if dfs:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", md, "-config", cfg, *args, module]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired as x:
            raise Broken("TLC timed out on %s %s" % (module, cfg))
        shutil.rmtree(md, ignore_errors=True)
        out = r.stdout + r.stderr
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "") if False else out)
        m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out)
        gen, dis = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        if not m:
            m = re.findall(r"Progress: ([\d,]+) states checked", out)
            m2 = re.findall(r"The number of states generated: ([\d,]+)", out)
            if m2:
                gen = dis = int(m2[-1].replace(",", ""))
            elif m:
                gen = dis = int(m[-1].replace(",", ""))
        return dict(rc=r.returncode, out=out, gen=gen, distinct=dis)

    def model(self, module, cfg, args=(), workers=4, timeout=800, env=None, xmx="6g"):
        """Checks the design: an error here is an error of the specification, not of the code."""
        t = time.time()
        r = self.tlc(module, cfg, args, workers, timeout, env, xmx)
        if r["rc"] != 0 or "Error:" in r["out"]:
            raise Broken("TLC on the model %s %s:\n%s" % (module, cfg, r["out"][-3000:]))
        with self.lock:
            self.states += r["distinct"]
            self.trans += r["gen"]
            self.models.append("%s/%s: %d distinct states, %d generated, %.0f s" % (module, cfg, r["distinct"], r["gen"], time.time() - t))
        return r

    def generate(self, module, cfg, num=None, depth=None, workers=1, timeout=600, env=None, xmx="4g", seed=None):
        """Runs TLC (simulation if num is given) and collects the scenarios it prints as "SCN <json>"."""
        args = []
        if num:
            args = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed if seed is None else seed)]
        r = self.tlc(module, cfg, args, workers, timeout, env, xmx)
        if r["rc"] != 0 or "Error:" in r["out"]:
            raise Broken("TLC generating from %s %s:\n%s" % (module, cfg, r["out"][-3000:]))
        scn, seen = [], set()
        for line in r["out"].splitlines():
            if line.startswith('"SCN '):
                s = json.loads(line)[4:]
                if s not in seen:
                    seen.add(s)
                    scn.append(s)
        if not scn:
            raise Broken("no scenario from %s %s:\n%s" % (module, cfg, r["out"][-2000:]))
        with self.lock:
            self.states += r["distinct"]
            self.trans += r["gen"]
            self.models.append("%s/%s: %d scenarios generated, %d states" % (module, cfg, len(scn), r["gen"]))
        return scn

    def tour(self, module, cfg, prefix=(), length=150, timeout=600, env=None):
        """Checks a model exhaustively and makes scenarios that take all its transitions."""
        e = dict(env or {})
        e["TOUR"] = "1"
        t = time.time()
        r = self.tlc(module, cfg, [], 1, timeout, e, "4g")
        if r["rc"] != 0 or "Error:" in r["out"]:
            raise Broken("TLC on the model %s %s:\n%s" % (module, cfg, r["out"][-3000:]))
        scn, total = tours(r["out"], prefix, length)
        with self.lock:
            self.states += r["distinct"]
            self.trans += r["gen"]
            self.models.append("%s/%s: %d distinct states, %d generated, %d scenarios taking all %d transitions, %.0f s"
                               % (module, cfg, r["distinct"], r["gen"], len(scn), total, time.time() - t))
        return scn

    # -------------------------------------------------------------- driving
    def drive(self, sub, scn=None, parts=8, n=None, extra=(), timeout=700, env=None):
        """Runs the driver in parts; returns the trace files. A crash of the code under test ends its trace
        with a line {"op":"crash"}, which no specification allows."""
        inp = None
        if scn is not None:
            inp = os.path.join(self.dir, sub + ".scn")
            with open(inp, "w") as f:
                f.write("\n".join(scn) + "\n")

        def one(p):
            out = os.path.join(self.dir, "%s.%d.ndjson" % (sub, p))
            cmd = [self.driver, sub, "-seed", str(self.seed), "-tier", "quick" if self.quick else "thorough", "-out", out,
                   "-part", str(p), "-parts", str(parts)]
            if inp:
                cmd += ["-in", inp]
            if n:
                cmd += ["-n", str(n)]
            cmd += list(extra)
            e = dict(os.environ)
            e["GOTRACEBACK"] = "all"
            e["GOMEMLIMIT"] = "3GiB"
            e.update(env or {})
            errf = out + ".err"
            with open(errf, "w") as ef, open(os.devnull, "w") as of:
                pr = subprocess.Popen(cmd, stdout=of, stderr=ef, env=e, cwd=self.dir, start_new_session=True)
                try:
                    rc = pr.wait(timeout)
                except subprocess.TimeoutExpired:
                    os.killpg(pr.pid, signal.SIGQUIT)
                    try:
                        pr.wait(10)
                    except subprocess.TimeoutExpired:
                        os.killpg(pr.pid, signal.SIGKILL)
                        pr.wait()
                    raise Broken("driver %s part %d timed out; see %s\n%s" % (sub, p, errf, open(errf, errors="replace").read()[:3000]))
            if rc != 0:
                err = open(errf, errors="replace").read()
                if "panic: harness:" not in err and (rc == 77 or ("panic:" in err or "fatal error:" in err or "SIGSEGV" in err) and crashed_in_code(err)):
                    keep = self.keep(errf, "crash")
                    with open(out, "a") as f:
                        f.write("\n" + json.dumps({"op": "crash", "stderr": keep, "text": err[:600]}) + "\n")
                    clean_blank(out)
                else:
                    raise Broken("driver %s part %d failed (exit %d):\n%s" % (sub, p, rc, err[:4000]))
            return out

        return list(self.pool.map(one, range(parts)))

    def keep(self, path, name):
        d = os.path.join(V, ".build", "replay")
        os.makedirs(d, exist_ok=True)
        dst = os.path.join(d, "%s-%s-seed%d-%d.%s" % (self.prop, name, self.seed, os.getpid(), path.rsplit(".", 1)[-1]))
        shutil.copy(path, dst)
        return dst

    # ----------------------------------------------------------- validation
    def validate(self, files, module, cfg="Trace.cfg", unit=None, dfs=False, timeout=700, xmx="3g", xss="256m"):
        """Validates trace files with TLC. unit: the op that starts a new trace in a file (None: every line is one)."""
        def one(f):
            n = units = 0
            with open(f) as fd:
                for line in fd:
                    n += 1
                    if unit is None or ('"op":"%s"' % unit) in line:
                        units += 1
                        if len(self.samples) < 4 and units % 7 == 1 and len(line) < 1500:
                            self.samples.append(json.loads(line))
            if n == 0:
                raise Broken("empty trace " + f)
            r = self.tlc(module, cfg, [], 1, timeout, {"TRACE": f}, xmx, dfs, xss)
            m = re.search(r'TRACE-(ACCEPTED|REJECTED) (\d+)', r["out"])
            evalerr = re.search(r"(Attempted to|evaluating the expression|Error: Evaluating|The first argument of|was not in the domain|"
                                r"The behavior up to this point is)", r["out"]) and "OutOfMemory" not in r["out"] and "StackOverflow" not in r["out"]
            with self.lock:
                self.states += r["distinct"]
                self.trans += r["gen"]
                self.lines += n
            if m and m.group(1) == "ACCEPTED":
                if int(m.group(2)) != n:
                    raise Broken("trace length mismatch")
                with self.lock:
                    self.traces += units
                return None
            if m:
                at = int(m.group(2))
            elif evalerr:
                at = len(re.findall(r"^State \d+:", r["out"], re.M)) or 1
                lm = re.findall(r"\bl = (\d+)", r["out"])
                at = int(lm[-1]) if lm else at
            else:
                raise Broken("TLC on trace %s:\n%s" % (f, r["out"][-3000:]))
            return self.explain(f, at, unit, r["out"])

        res = [x for x in self.pool.map(one, files) if x]
        if res:
            known = [k for k in load_known() if k["property"] == self.prop]
            for v in res:
                hit = [k for k in known if k["signature"] in v.text]
                if not hit:
                    raise v
                print("KNOWN-FINDING: property=%s %s" % (self.prop, hit[0]["signature"]))

    def explain(self, f, at, unit, out):
        lines = open(f).read().split("\n")
        bad = lines[at - 1] if 0 < at <= len(lines) else "(end of trace)"
        start = at - 1
        if unit:
            while start > 0 and ('"op":"%s"' % unit) not in lines[start]:
                start -= 1
        exp = [x for x in out.splitlines() if x.startswith('<<"EXPECTED"') or x.startswith('"EXPECTED')][-12:]
        err = ""
        if "TRACE-REJECTED" not in out:
            i = out.find("Error:")
            err = out[i:i + 1500]
        d = os.path.join(V, ".build", "replay")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, "%s-seed%d-%d-%s.txt" % (self.prop, self.seed, os.getpid(), os.path.basename(f)))
        with open(rp, "w") as o:
            o.write("trace line %d is not allowed by the specification:\n%s\n\n" % (at, bad[:20000]))
            o.write("expectations printed by TLC (last ones belong to this line):\n%s\n%s\n\n" % ("\n".join(x[:3000] for x in exp), err))
            o.write("the trace up to there:\n" + "\n".join(x[:5000] for x in lines[start:at]) + "\n")
        return Violation(rp, "trace line %d not allowed: %s\n%s%s" % (at, bad[:1500], "\n".join(x[:1500] for x in exp[-4:]), err[:600]))

    # ------------------------------------------------------------- evidence
    def evidence(self, violations=0):
        cov = dict(states=self.states, transitions=self.trans, traces_validated_against_impl=self.traces,
                   trace_lines=self.lines, samples=self.samples[:4] or ["none"], models=self.models)
        cov.update(self.extra)
        ev = dict(property=self.prop, tier="quick" if self.quick else "thorough", seed=self.seed, level="model_checking",
                  coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=violations)
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def cleanup(self):
        self.pool.shutdown(wait=False)
        shutil.rmtree(self.dir, ignore_errors=True)


def crashed_in_code(err):
    """The goroutine that crashed was in the code under test, not in the driver's own code."""
    i = max(err.find("panic:"), err.find("fatal error:"), 0)
    if "goroutine " not in err[i:] or err.find("fatal error:") >= 0:
        return "younglifestyle/secs4go" in err
    for line in err[err.index("goroutine ", i):].splitlines()[1:]:
        if line.startswith(("\t", "runtime.", "panic(", "sync.", "internal/")) or not line:
            if not line:
                break
            continue
        if line.startswith(("main.", "verifharness")):
            return False
        if "younglifestyle/secs4go" in line:
            return True
    return "younglifestyle/secs4go" in err


def clean_blank(path):
    with open(path) as f:
        ls = [x for x in f.read().split("\n") if x.strip()]
    good = []
    for x in ls:
        try:
            json.loads(x)
            good.append(x)
        except ValueError:
            pass  # the line being written when the process died
    with open(path, "w") as f:
        f.write("\n".join(good) + "\n")


def load_known():
    out = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) (.*)", line.strip())
            if m:
                out.append(dict(property=m.group(1), signature=m.group(2)))
    return out


def tours(out, prefix, length):
    """Scenarios that together take every transition TLC printed ("START", "EDGE"), each starting with prefix operations."""
    start, adj = None, {}

    def key(x):
        return json.dumps(x, sort_keys=True)

    for line in out.splitlines():
        if line.startswith('"START '):
            d = json.loads(json.loads(line)[6:])
            start, new = key(d["s"]), d["new"]
        elif line.startswith('"EDGE '):
            d = json.loads(json.loads(line)[5:])
            adj.setdefault(key(d["f"]), {})[json.dumps(d["e"], sort_keys=True)] = key(d["t"])
    ids = {}
    for f in adj:
        ids.setdefault(f, len(ids))
    for f in list(adj):
        for t in adj[f].values():
            ids.setdefault(t, len(ids))
    g = {i: [] for i in ids.values()}
    for f in adj:
        g[ids[f]] = [(e, ids[t]) for e, t in sorted(adj[f].items())]
    todo = {i: list(range(len(g[i]))) for i in g}
    left = sum(len(x) for x in todo.values())
    total = left
    scns = []
    while left:
        cur, ops = ids[start], []
        while len(ops) < length:
            if todo[cur]:
                # prefer transitions that lead on
                k = todo[cur].pop()
                left -= 1
                e, t = g[cur][k]
                ops.append(e)
                cur = t
                continue
            prev, queue, goal = {cur: None}, [cur], None
            for x in queue:
                if todo[x]:
                    goal = x
                    break
                for e, t in g[x]:
                    if t not in prev:
                        prev[t] = (x, e)
                        queue.append(t)
            if goal is None:
                break
            path = []
            while prev[goal] is not None:
                goal, e = prev[goal]
                path.append(e)
            ops += reversed(path)
            for e in reversed(path):
                cur = dict((a, b) for a, b in g[cur])[e]
        if not ops:
            raise Broken("transitions that cannot be reached")
        scns.append("[" + ",".join([json.dumps(new)] + [json.dumps(x) for x in prefix] + ops) + "]")
    return scns, total
