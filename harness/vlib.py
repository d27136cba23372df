"""Orchestration: run TLC on the specification, run workers on the real code, report.  Standard library only."""
import json, os, re, shutil, subprocess, sys, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.environ.get("VERIF_DIR") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPECS = os.path.join(VERIF, "specs")


class MachineryError(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.states = self.transitions = self.traces = 0
        self.samples, self.extra, self.assumptions = [], {}, []
        self.failures = []      # dicts: key, clause, detail, case
        self.lock = threading.Lock()
        self.level = "model_checking"
        self.nrun = 0
        self.actions = {}
        self.pool = ThreadPoolExecutor(8)

    def log(self, *a):
        print(f"[{self.prop} {time.time()-self.t0:6.1f}s]", *a, flush=True)

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, mode="check", num=None, depth=None, seed=None, workers=1, files=None,
            timeout=800, heap="2g", expect_ok=True, count=True, coverage=False):
        """Run TLC on specs/<module>.tla with the given cfg text. Returns dict(emitted, states, distinct, out, ok)."""
        with self.lock:
            self.nrun += 1
            d = os.path.join(self.scratch, f"tlc{self.nrun}")
        os.makedirs(d)
        for f in os.listdir(SPECS):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPECS, f), d)
        for name, content in (files or {}).items():
            with open(os.path.join(d, name), "w") as fh:
                fh.write(content if isinstance(content, str) else json.dumps(content))
        with open(os.path.join(d, "run.cfg"), "w") as fh:
            fh.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={d}", "-cp", JAR, "tlc2.TLC",
               "-config", "run.cfg", "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
               "-seed", str(seed if seed is not None else self.seed), "-fp", "1"]
        if mode == "simulate":
            cmd += ["-simulate", f"num={num}", "-depth", str(depth)]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd += [module + ".tla"]
        env = {k: v for k, v in os.environ.items() if k not in ("JAVA_TOOL_OPTIONS",)}
        env["TMPDIR"] = d
        try:
            r = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timed out on {module}")
        emitted, rest = [], []
        for line in r.stdout.splitlines():
            if line.startswith('"@@'):
                emitted.append(json.loads(json.loads(line)[2:]))
            else:
                rest.append(line)
        out = "\n".join(rest)
        gen = dist = 0
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            gen, dist = int(m.group(1)), int(m.group(2))
        m = re.search(r"The number of states generated: (\d+)", out)
        if m:
            gen = dist = int(m.group(1))
        ok = ("No error has been found" in out or "The number of states generated" in out) and "Error:" not in out
        res = dict(emitted=emitted, generated=gen, distinct=dist, out=out, ok=ok, dir=d)
        if expect_ok and not ok:
            sys.stderr.write(out[-6000:] + "\n")
            raise MachineryError(f"TLC failed on {module} (specification error)")
        if count:
            with self.lock:
                self.states += dist
                self.transitions += gen
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        return res

    def simulate(self, module, cfg, total, depth, procs=4, files=None, seed0=0, **kw):
        """`total` random behaviours split over `procs` TLC processes with different seeds; returns all emitted records."""
        per = max(1, total // procs)
        futs = [self.pool.submit(self.tlc, module, cfg, "simulate", per, depth, self.seed * 1000 + seed0 + i, 1, files, **kw)
                for i in range(procs)]
        out = []
        for f in futs:
            out += f.result()["emitted"]
        return out

    # ---------------------------------------------------------------- workers
    def start_worker(self, script, payload, backend="numpy", timeout=800, threads=2, env=None, jit=False):
        """Compiling the numba kernels dominates short runs, so they run interpreted unless jit=True."""
        return self.pool.submit(self.worker, script, payload, backend, timeout, threads, dict(env or {}, NUMBA_DISABLE_JIT="0" if jit or backend == "jax" else "1"))

    def worker(self, script, payload, backend="numpy", timeout=800, threads=2, extra_env=None):
        """Runs harness/workers/<script>.py on the real code. Returns its list of records."""
        with self.lock:
            self.nrun += 1
            d = os.path.join(self.scratch, f"w{self.nrun}")
        os.makedirs(d)
        with open(os.path.join(d, "in.json"), "w") as fh:
            json.dump(payload, fh)
        env = dict(HOME=d, PATH=os.environ.get("PATH", "/usr/bin:/bin"), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
                   JAX_PLATFORMS="cpu", PYTHONHASHSEED="0", PYTHONPATH=REPO + ":" + os.path.join(VERIF, "harness"),
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS=str(threads), NUMBA_CPU_NAME="generic",
                   NUMBA_CPU_FEATURES="", NUMBA_BOUNDSCHECK="1", NUMBA_CACHE_DIR=os.path.join(self.scratch, "numba"), XDG_CACHE_HOME=d + "/xdg", MPLCONFIGDIR=d + "/mpl",
                   XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
                   TMPDIR=d, VERIF_SEED=str(self.seed), VERIF_TIER=self.tier, LANG="C.UTF-8", VERIF_BACKEND=backend,
                   PYTHONWARNINGS="ignore")
        env.update(extra_env or {})
        cmd = [PY, os.path.join(VERIF, "harness", "workers", script + ".py"), os.path.join(d, "in.json"),
               os.path.join(d, "out.jsonl"), backend]
        with open(os.path.join(d, "log"), "w") as lg:
            t0 = time.time()
            try:
                r = subprocess.run(cmd, cwd=d, env=env, stdout=lg, stderr=subprocess.STDOUT, timeout=timeout)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
        if os.environ.get("VERIF_TIMES"):
            self.log(f"worker {script} {backend} jit={env.get('NUMBA_DISABLE_JIT') == '0'}: {time.time() - t0:.1f}s")
        recs, done = [], False
        if os.path.exists(os.path.join(d, "out.jsonl")):
            for line in open(os.path.join(d, "out.jsonl")):
                try:
                    rec = json.loads(line)
                except ValueError:
                    continue
                if rec.get("done"):
                    done = True
                else:
                    recs.append(rec)
        if rc != 0 or not done:
            sys.stderr.write(open(os.path.join(d, "log")).read()[-5000:] + "\n")
            raise MachineryError(f"worker {script} ({backend}) ended with {rc}")
        return recs

    # ---------------------------------------------------------------- verdicts
    def fail(self, key, clause, detail, case=None):
        self.failures.append(dict(key=key, clause=clause, detail=str(detail)[:2000], case=case))

    def collect(self, recs, count_traces=True):
        """Worker records: {"id","ok",("key","clause","detail","case")}"""
        for r in recs:
            if count_traces and not r.get("notrace"):
                self.traces += 1
            if not r.get("ok", True):
                self.fail(r.get("key", str(r.get("id"))), r.get("clause", "?"), r.get("detail", ""), r.get("case"))

    def sample(self, *s):
        for x in s:
            if len(self.samples) < 4:
                self.samples.append(x)

    def finish(self):
        kf = []
        p = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(p):
            kf = [k for k in json.load(open(p)) if k["property"] == self.prop and k["status"] == "known"]
        known, new = {}, []
        for f in self.failures:
            hit = next((k for k in kf if any(re.fullmatch(pat, f["key"]) for pat in k["keys"])), None)
            if hit:
                known.setdefault(hit["id"], (hit, f))
            else:
                new.append(f)
        for i, (h, f) in sorted(known.items()):
            print(f"KNOWN-FINDING: property={self.prop} {h['what']}")
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or ["(none)"])
        cov.update(self.extra)
        rec = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                   assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        with open(os.path.join(ev, f"{self.prop}.json"), "w") as fh:
            json.dump(rec, fh, indent=1)
        if new:
            rd = os.path.join(ev, "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, f"{self.prop}.json")
            with open(path, "w") as fh:
                json.dump(new[:int(os.environ.get("VERIF_MAXREP","50"))], fh, indent=1)
            by = {}
            for f in new:
                by.setdefault(f["clause"], []).append(f)
            for c, fs in by.items():
                print(f"  clause {c}: {len(fs)} failing case(s); first: key={fs[0]['key']} {fs[0]['detail'][:400]}")
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        self.log(f"ok: {self.traces} traces, {self.states} states, {self.transitions} transitions, known={len(known)}")
        return 0

    def cleanup(self):
        self.pool.shutdown(wait=False, cancel_futures=True)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.scratch, ignore_errors=True)
        else:
            print("scratch kept:", self.scratch)
