"""Shared machinery of the checks: building the drivers from /repo's working tree,
running TLC (model checking, case generation, trace validation) and reporting."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
CORES = max(1, min(8, os.cpu_count() or 1))
BAD = -2147483647          # a number the driver could not express exactly
JAR = "/opt/veriftools/tla/tla2tools.jar"


class CheckError(Exception):
    """The check itself could not give an answer (exit code 2)."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def goenv():
    e = dict(os.environ)
    e.update({
        "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOWORK": "off", "GONOSUMDB": "*",
        "GONOSUMCHECK": "1", "GOFLAGS": "-mod=mod", "GOFLAGS_": "", "GOSUMDB": "off",
        "HOME": "/root", "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod",
        "GOCACHE": os.environ.get("GOCACHE", "/root/.cache/go-build"),
        "CGO_ENABLED": "0",
    })
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    return e


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.assumptions = [], {}, []
        self._bins = {}
        self.replay_dir = os.path.join(VERIF, "replay")

    # ------------------------------------------------------------ building
    def _module_dir(self):
        """A private copy of the harness module, so that /verif stays as committed
        and checks can run side by side."""
        d = os.path.join(self.tmp, "harness")
        if not os.path.isdir(d):
            shutil.copytree(HARNESS, d)
            gm = os.path.join(d, "go.mod")
            s = open(gm).read()
            s = s.replace("=> /repo", "=> " + REPO).replace("=> ./stub/table", "=> " + os.path.join(d, "stub/table"))
            open(gm, "w").write(s)
        return d

    def build(self, pkg, tags="", race=False):
        """Compile ./<pkg> of the harness module (or an import path) against /repo."""
        key = (pkg, tags, race)
        if key in self._bins:
            return self._bins[key]
        d = self._module_dir()
        out = os.path.join(self.tmp, "bin_" + re.sub(r"\W", "_", pkg + tags + ("_race" if race else "")))
        cmd = ["go", "build", "-o", out]
        env = goenv()
        if tags:
            cmd += ["-tags", tags]
        if race:
            cmd += ["-race"]
            env["CGO_ENABLED"] = "1"
        cmd += [pkg if "/" in pkg and "." in pkg.split("/")[0] and not pkg.startswith("./") else "./" + pkg]
        p = subprocess.run(cmd, cwd=d, env=env, capture_output=True, text=True)
        if p.returncode:
            raise CheckError("cannot build %s against %s:\n%s" % (pkg, REPO, p.stderr[-3000:]))
        self._bins[key] = out
        return out

    # ------------------------------------------------------------ driving
    def drive(self, binary, cases, timeout=20, env=None, label="drv"):
        """Run the cases (dicts; key "s" = session) through a driver binary.  The driver
        reads one JSON object per line and answers each with one line: the case plus its
        outcome.  If the process dies or hangs on a case, that case gets outcome "died" or
        "hang", the rest of its session is skipped and the driver is restarted."""
        if not cases:
            return []
        e = dict(os.environ)
        e.pop("GOFLAGS", None)
        e["DRV_OP_TIMEOUT"] = str(timeout)
        e["DRV_TMP"] = self.tmp
        e.update(env or {})
        out, i, n, restarts = [], 0, len(cases), 0
        while i < n:
            inp = os.path.join(self.tmp, "%s.in" % label)
            with open(inp, "w") as f:
                for c in cases[i:]:
                    f.write(json.dumps(c, separators=(",", ":")) + "\n")
            errp = os.path.join(self.tmp, "%s.err" % label)
            with open(inp) as fi, open(errp, "w") as fe:
                try:
                    p = subprocess.run([binary], stdin=fi, stdout=subprocess.PIPE, stderr=fe, env=e,
                                       cwd=self.tmp, timeout=900, text=True)
                except subprocess.TimeoutExpired:
                    raise CheckError("driver %s took over 900 s" % binary)
            lines = [l for l in p.stdout.split("\n") if l.startswith("{")]
            got = []
            for l in lines:
                try:
                    got.append(json.loads(l))
                except ValueError:
                    break
            out += got
            i += len(got)
            if got and got[-1].get("outcome") == "hang":
                s = got[-1].get("s")
                while i < n and cases[i].get("s") == s:
                    i += 1
                restarts += 1
            elif i < n:
                c = dict(cases[i])
                c["outcome"] = "died"
                c["stderr"] = open(errp).read()[-400:]
                out.append(c)
                s = c.get("s")
                i += 1
                while i < n and cases[i].get("s") == s:
                    i += 1
                restarts += 1
            if restarts > 400:
                raise CheckError("driver %s died too often; last stderr: %s" % (binary, open(errp).read()[-500:]))
        return out

    def drive_parallel(self, binary, cases, timeout=20, env=None, label="drv", n=CORES):
        parts = split_sessions(cases, n)
        with cf.ThreadPoolExecutor(max_workers=n) as ex:
            fs = [ex.submit(self.drive, binary, p, timeout, env, "%s%d" % (label, k)) for k, p in enumerate(parts)]
            return [x for f in fs for x in f.result()]

    # ------------------------------------------------------------ TLC
    def _tlc(self, module, cfg, extra=(), env=None, workers="auto", timeout=850, xmx="3g"):
        meta = tempfile.mkdtemp(dir=self.tmp, prefix="tlc_")
        sd = os.path.join(self.tmp, "spec")
        if not os.path.isdir(sd):
            shutil.copytree(SPEC, sd)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + xmx, "-Xss512m", "-Djava.io.tmpdir=" + self.tmp,
               "-cp", JAR + ":" + os.path.join(os.path.dirname(JAR), "*"), "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-config", cfg, "-noGenerateSpecTE", "-deadlock",
               *extra, module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=sd, env=e, capture_output=True, text=True, timeout=timeout)
            if "StackOverflowError" in p.stdout + p.stderr:     # depends on the JIT: try again
                p = subprocess.run(cmd[:1] + ["-Xint"] + cmd[1:], cwd=sd, env=e, capture_output=True, text=True,
                                   timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC on %s/%s exceeded %d s" % (module, cfg, timeout))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, p.stdout + p.stderr

    @staticmethod
    def _counts(out):
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if not m:
            return 0, 0
        g, d = m[-1]
        return int(g.replace(",", "")), int(d.replace(",", ""))

    def model_check(self, module, cfg=None, expect_min=2, env=None, timeout=400, workers="auto", xmx="6g"):
        """Exhaustive check of the specification itself with the constants of the cfg."""
        cfg = cfg or module + ".cfg"
        rc, out = self._tlc(module, cfg, env=env, timeout=timeout, workers=workers, xmx=xmx)
        g, d = self._counts(out)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("the specification %s (%s) fails its own model checking:\n%s" % (module, cfg, out[-3000:]))
        if d < expect_min:
            raise CheckError("%s/%s explored only %d states" % (module, cfg, d))
        self.states += d
        self.transitions += g
        self.notes.setdefault("model_runs", []).append({"module": module, "cfg": cfg, "states": d, "transitions": g})
        return out

    def generate(self, module, cfg=None, env=None, timeout=600, extra=()):
        """Let TLC write the test cases / behaviours of a Gen module (ndjson at $GEN)."""
        cfg = cfg or module + ".cfg"
        path = os.path.join(self.tmp, "gen_%s_%s.ndjson" % (module, os.path.basename(cfg)))
        e = {"GEN": path}
        e.update(env or {})
        rc, out = self._tlc(module, cfg, env=e, timeout=timeout, workers=1, extra=extra)
        if rc != 0 or not os.path.exists(path):
            raise CheckError("generation with %s failed:\n%s" % (module, out[-3000:]))
        g, d = self._counts(out)
        rows = [json.loads(l) for l in open(path) if l.strip()]
        self.notes.setdefault("generated", []).append({"module": module, "cfg": cfg, "cases": len(rows), "states": d})
        return rows

    def validate(self, module, events, cfg=None, shards=None, env=None, timeout=800, what="", xmx="3g"):
        """Trace validation: every event must be a step the specification allows, with every
        invariant of the cfg holding in every state.  Rejection = violation."""
        if not events:
            raise CheckError("no events to validate for %s" % module)
        cfg = cfg or module + ".cfg"
        parts = split_sessions(events, shards or CORES)
        base = "%s_%d" % (module, len(self.notes.get("trace_runs", [])))

        def one(k, part):
            tf = os.path.join(self.tmp, "trace_%s_%d.ndjson" % (base, k))
            with open(tf, "w") as f:
                for ev in part:
                    f.write(json.dumps(ev, separators=(",", ":")) + "\n")
            e = {"TRACE": tf}
            e.update(env or {})
            return self._tlc(module, cfg, env=e, workers=1, timeout=timeout, xmx=xmx) + (tf,)

        with cf.ThreadPoolExecutor(max_workers=CORES) as ex:
            res = list(ex.map(lambda a: one(*a), enumerate(parts)))
        for k, (rc, out, tf) in enumerate(res):
            part = parts[k]
            g, d = self._counts(out)
            m = re.search(r"depth of the complete state graph search is (\d+)", out)
            depth = int(m.group(1)) if m else None
            if rc == 0 and "No error has been found" in out:
                if depth != len(part) + 1:
                    raise CheckError("%s accepted %s with depth %s for %d events" % (module, tf, depth, len(part)))
                self.traces += len({ev.get("s", 0) for ev in part})
                self.events += len(part)
                self.transitions += max(g - 1, 0)
                self.states += d
                continue
            bad = None
            if "Postcondition" in out and "is violated" in out or "TraceAccepted" in out:
                bad = depth - 1 if depth else None      # 0-based index of the first refused event
                reason = "the specification refuses this event"
            m = re.search(r"Invariant (\w+) is violated", out)
            if m:
                steps = re.findall(r"^State (\d+):", out, re.M)
                bad = (int(steps[-1]) - 2) if steps else None
                reason = "invariant %s is violated after this event" % m.group(1)
            if bad is None and re.search(r"Attempted to|Overflow when|not in the domain|out of (the )?domain|outside the domain", out):
                # The recorded values lie outside of what the specification gives a meaning to.
                steps = re.findall(r"^State (\d+):", out, re.M)
                bad = int(steps[-1]) - 1 if steps else None
                reason = "the specification gives this event no meaning"
                if bad is not None and 0 <= bad < len(part):
                    ev = part[bad]
                    sess = [x for x in part[:bad + 1] if x.get("s", 0) == ev.get("s", 0)]
                    i = out.find("Error:")
                    self.violation("%s%s: %s" % (what and what + ": ", module, reason),
                                   {"module": module, "event": ev, "session": sess[-200:], "error": out[max(i, 0):][:1500]})
                    continue
            if bad is None or bad < 0 or bad >= len(part) or "evaluating" in out and "rror" in out and not m and "TraceAccepted" not in out:
                i = out.find("Error:")
                raise CheckError("TLC could not evaluate the trace %s of %s:\n%s" % (tf, module, out[max(i, 0):][:2500] + out[-200:]))
            ev = part[bad]
            sess = [x for x in part[:bad + 1] if x.get("s", 0) == ev.get("s", 0)]
            self.violation("%s%s: %s" % (what and what + ": ", module, reason), {"module": module, "event": ev, "session": sess[-200:]})
        self.notes.setdefault("trace_runs", []).append({"module": module, "cfg": cfg, "events": len(events), "shards": len(parts)})

    # ------------------------------------------------------------ reporting
    def violation(self, what, data):
        os.makedirs(self.replay_dir, exist_ok=True)
        p = os.path.join(self.replay_dir, "%s_%s_%d.json" % (self.prop, self.tier, self.seed))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, "what": what, **data}, f)
        raise Violation(what, p)

    def sample(self, *rows, limit=6):
        for r in rows:
            if len(self.samples) < limit:
                s = json.dumps(r)
                self.samples.append(json.loads(s) if len(s) < 1500 else s[:1500] + "...")

    def evidence(self, violations=0):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"],
               "trace_events": self.events}
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": violations}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f)
        os.replace(p + ".tmp", p)

    def close(self):
        if os.environ.get("VERIF_KEEP"):
            print("kept", self.tmp, file=sys.stderr)
            return
        shutil.rmtree(self.tmp, ignore_errors=True)


def split_sessions(rows, n):
    """Split into at most n lists of whole sessions, balanced by size."""
    sess, order = {}, []
    for r in rows:
        s = r.get("s", 0)
        if s not in sess:
            sess[s] = []
            order.append(s)
        sess[s].append(r)
    n = max(1, min(n, len(order)))
    parts, sizes = [[] for _ in range(n)], [0] * n
    for s in sorted(order, key=lambda s: -sum(weight(r) for r in sess[s])):
        k = sizes.index(min(sizes))
        parts[k] += sess[s]
        sizes[k] += sum(weight(r) for r in sess[s])
    return [p for p in parts if p]


def weight(r):
    return r.get("wgt", 1) + sum(len(v) for v in r.values() if isinstance(v, (list, str))) // 8
