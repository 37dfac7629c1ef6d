"""Machinery shared by the checks: building the harness from /repo, running TLC, replaying behaviours."""
import atexit, concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(2, os.cpu_count() or 2)


class Broken(Exception):
    """The check could not be run (not a verdict)."""


def shm():
    d = "/dev/shm"
    try:
        st = os.statvfs(d)
        if os.access(d, os.W_OK) and st.f_bavail * st.f_frsize > 2 << 30:
            return d
    except OSError:
        pass
    return None


def goenv():
    e = dict(os.environ)
    e.update(HOME=e.get("HOME", "/root"), GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off",
             GOMODCACHE="/root/go/pkg/mod", GOSUMDB="off")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e["PATH"] = "/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    return e


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-", dir="/tmp")
        self.scratch = tempfile.mkdtemp(prefix="verif-", dir=shm() or self.work)
        atexit.register(self.cleanup)
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.violations = []      # (message, artifact)
        self.known = []
        self.cov = {"states": 0, "transitions": 0, "traces": 0, "steps": 0, "checks": 0, "snapshots": 0,
                    "ops": {}, "points": {}, "samples": [], "notes": []}
        self.lock = threading.Lock()
        self.bins = {}
        self.binlock = threading.Lock()

    def cleanup(self):
        for d in (self.work, self.scratch):
            if d.startswith(("/tmp/verif-", "/dev/shm/verif-")):
                shutil.rmtree(d, ignore_errors=True)

    @property
    def quick(self):
        return self.tier == "quick"

    def elapsed(self):
        return time.time() - self.t0

    # ---- go ----
    def build(self, pkg, race=False, overlay=None, cwd=None, tags="verif"):
        """Compiles a test binary from the working tree of the repository."""
        key = (pkg, race, json.dumps(overlay, sort_keys=True) if overlay else "", cwd)
        with self.binlock:
            if key in self.bins:
                return self.bins[key]
            out = os.path.join(self.work, re.sub(r"\W", "_", pkg) + ("_race" if race else "") + str(len(self.bins)) + ".test")
            cmd = ["go", "test", "-tags", tags, "-vet=off", "-c", "-o", out]
            if race:
                cmd.append("-race")
            if overlay:
                f = os.path.join(self.work, "overlay%d.json" % len(self.bins))
                json.dump({"Replace": overlay}, open(f, "w"))
                cmd += ["-overlay", f]
            mod = None
            if cwd is None:
                # module files outside /verif, so that it stays as committed
                mod = os.path.join(self.work, "mod%d" % len(self.bins))
                os.makedirs(mod)
                for n in ("go.mod", "go.sum"):
                    src = open(os.path.join(VERIF, "harness", n)).read()
                    open(os.path.join(mod, n), "w").write(src.replace("=> /repo", "=> " + REPO))
                cmd += ["-modfile", os.path.join(mod, "go.mod")]
            else:
                mod = os.path.join(self.work, "mod%d" % len(self.bins))
                os.makedirs(mod)
                for n in ("go.mod", "go.sum"):
                    shutil.copy(os.path.join(REPO, n), mod)
                cmd += ["-modfile", os.path.join(mod, "go.mod")]
            cmd.append(pkg)
            p = subprocess.run(cmd, cwd=cwd or os.path.join(VERIF, "harness"), env=goenv(), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise Broken("build of %s failed:\n%s" % (pkg, p.stdout[-3000:]))
            self.bins[key] = out
            return out

    # ---- TLC ----
    def tlc(self, module, cfgtext=None, cfg=None, args=(), timeout=600, workers=2, mem="3g", c1=False, files=None):
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        for n in os.listdir(SPEC):
            if n.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, n), d)
        for n, text in (files or {}).items():
            open(os.path.join(d, n), "w").write(text)
        if cfgtext is not None:
            cfg = "Run.cfg"
            open(os.path.join(d, cfg), "w").write(cfgtext)
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + mem]
        if c1:
            cmd.append("-XX:TieredStopAtLevel=1")
        cmd += ["-Djava.io.tmpdir=" + d, "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "states"),
                "-noGenerateSpecTE", "-config", cfg] + list(args) + [module + ".tla"]
        out = os.path.join(d, "out.txt")
        with open(out, "w") as f:
            p = subprocess.Popen(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = -1
        text = open(out, errors="replace").read()
        shutil.rmtree(d, ignore_errors=True)
        return rc, text

    def mc(self, module, cfg=None, cfgtext=None, timeout=600, workers=2, name=None):
        """Model checks a specification: an error in it means that the check is broken, not the code."""
        rc, text = self.tlc(module, cfg=cfg or module + ".cfg", cfgtext=cfgtext, timeout=timeout, workers=workers)
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", text)
        if rc == -1:
            if not m:
                raise Broken("TLC on %s: no progress in %ds" % (module, timeout))
        elif rc != 0 or "No error has been found" not in text:
            raise Broken("TLC on %s: %s" % (module, text[-2500:]))
        gen, dist = (int(x.replace(",", "")) for x in m[-1])
        with self.lock:
            self.cov["states"] += dist
            self.cov["transitions"] += gen
            self.cov["notes"].append("%s (%s): %d distinct states, %d generated%s" %
                                     (name or module, cfg or "cfg", dist, gen, ", not exhausted in the time given" if rc == -1 else ", exhausted"))
        return gen, dist

    def simulate(self, module, cfgtext, num, seed, depth=2000, timeout=600, c1=True):
        """Runs the generator and returns the behaviours it prints as lines of JSON."""
        rc, text = self.tlc(module, cfgtext=cfgtext, workers=1, mem="2g", c1=c1, timeout=timeout,
                            args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)])
        lines = []
        for l in text.splitlines():
            if l.startswith('"'):
                lines.append(json.loads(l))
        if "Error:" in text or not lines:
            raise Broken("generator %s: rc %s %s" % (module, rc, text[text.find("Error:"):][:2500]))
        m = re.findall(r"The number of states generated: ([\d,]+)", text)
        with self.lock:
            self.cov["transitions"] += int(m[-1].replace(",", "")) if m else 0
            self.cov["states"] += int(m[-1].replace(",", "")) if m else 0
        return lines

    # ---- replay ----
    def _run(self, binary, test, lines, env, timeout, only=None):
        fd, inp = tempfile.mkstemp(dir=self.work, suffix=".jsonl")
        os.close(fd)
        out = inp + ".out"
        with open(inp, "w") as f:
            f.write("\n".join(lines) + "\n")
        sc = tempfile.mkdtemp(dir=self.scratch)
        e = goenv()
        e.update(VERIF_IN=inp, VERIF_OUT=out, VERIF_SCRATCH=sc, TMPDIR=sc)
        e.update(env)
        if only is not None:
            e["VERIF_ONLY"] = str(only)
        log = inp + ".log"
        timed = False
        with open(log, "w") as f:
            p = subprocess.Popen([binary, "-test.run", "^" + test + "$", "-test.timeout", "0"], env=e, cwd=sc, stdout=f, stderr=subprocess.STDOUT,
                                 start_new_session=True)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                timed = True
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = -9
        results, begun, last = {}, None, None
        if os.path.exists(out):
            for l in open(out, errors="replace"):
                try:
                    o = json.loads(l)
                except ValueError:
                    continue
                if "begin" in o:
                    begun = o["begin"]
                elif "index" in o:
                    results[o["index"]] = o
                    if begun == o["index"]:
                        begun = None
        text = open(log, errors="replace").read()
        shutil.rmtree(sc, ignore_errors=True)
        for f in (inp, out, log):
            if os.path.exists(f):
                os.unlink(f)
        if rc == 3 or "HARNESS" in text[:2000]:
            raise Broken("harness: " + text[:2000])
        if rc != 0 and begun is None and len(results) < (len(lines) if only is None else 1):
            raise Broken("%s ended with %s before it started: %s" % (test, rc, text[-2000:]))
        died = None
        if begun is not None:
            died = (begun, "does not return (killed after %ds)" % timeout if timed else "the process died: " + crash_text(text))
        return results, died

    def replay(self, binary, test, lines, env=None, timeout=300, kind="trace", retries=3):
        """Replays behaviours into the real code. A failure counts if it happens again when the behaviour is replayed alone, or with the
        behaviours before it."""
        env = env or {}
        todo = list(range(len(lines)))
        start = 0
        while start < len(lines):
            chunk = lines[start:]
            results, died = self._run(binary, test, chunk, env, timeout)
            bad = [(i, r["msg"], r.get("step", 0)) for i, r in sorted(results.items()) if not r["ok"]]
            with self.lock:
                for r in results.values():
                    self.add(r)
            if died:
                bad.append((died[0], died[1], -1))
            for i, msg, step in bad[:3]:
                if self.confirm(binary, test, chunk, i, env, timeout, retries):
                    self.violation(msg, {"kind": kind, "test": test, "env": env, "trace": json.loads(chunk[i]), "step": step})
            if not died:
                break
            start += died[0] + 1
            if len(self.violations) > 5:
                break

    def confirm(self, binary, test, chunk, i, env, timeout, retries):
        for _ in range(retries):
            results, died = self._run(binary, test, chunk, env, min(timeout, 120), only=i)
            if died or any(not r["ok"] for r in results.values()):
                return True
        results, died = self._run(binary, test, chunk[:i + 1], env, timeout)
        if died or any(not r["ok"] for r in results.values()):
            return True
        with self.lock:
            self.cov["notes"].append("a mismatch did not happen again and is not reported")
        print("note: a mismatch did not happen again and is not reported", flush=True)
        return False

    def add(self, r):
        c = self.cov
        c["traces"] += 1
        for k in ("steps", "checks", "snapshots"):
            c[k] += r.get(k, 0)
        for k in ("ops", "points"):
            for n, v in (r.get(k) or {}).items():
                c[k][n] = c[k].get(n, 0) + v

    def violation(self, msg, artifact):
        with self.lock:
            d = os.path.join(VERIF, "out")
            os.makedirs(d, exist_ok=True)
            artifact = dict(artifact, property=self.prop, message=msg)
            text = json.dumps(artifact)
            f = os.path.join(d, "%s-%s.json" % (self.prop, hashlib.sha1(text.encode()).hexdigest()[:10]))
            open(f, "w").write(text)
            self.violations.append((msg, f))
            print("VIOLATION property=%s replay=%s" % (self.prop, f), flush=True)
            print("  " + msg[:800].replace("\n", "\n  "), flush=True)

    def parallel(self, jobs):
        """Runs functions in parallel and raises the first error when all are done."""
        fs = [self.pool.submit(j) for j in jobs]
        err = None
        for f in fs:
            try:
                f.result()
            except BaseException as e:  # noqa
                err = err or e
        if err:
            raise err


def crash_text(text):
    m = re.search(r"(panic: .*|fatal error: .*|WARNING: DATA RACE)", text)
    i = m.start() if m else max(0, len(text) - 600)
    return text[i:i + 900]
