"""Shared machinery of the checks: out-of-tree builds of /repo's current tree, runs, verdicts, evidence."""
import argparse, atexit, concurrent.futures, hashlib, json, os, random, re, shlex, shutil, signal, struct, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
NCPU = os.cpu_count() or 4
GENERATED = ["*.o", "*.a", "Makedepend", "Makefile", "/defs.h", "/config.h", "/problem.c"]
ENV = {k: v for k, v in os.environ.items() if k not in ("MAKEFLAGS", "CFLAGS", "MAKELEVEL", "CONFIG_SITE", "CC")}
ENV.update(LC_ALL="C", OMPI_CC="gcc", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
           OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_btl="self,vader", OMPI_MCA_rmaps_base_oversubscribe="1",
           OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_plm="isolated",
           OMPI_MCA_orte_tmpdir_base="/tmp", PRTE_MCA_rmaps_default_mapping_policy=":oversubscribe",
           ASAN_OPTIONS="abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=78")


class HarnessError(Exception):
    pass


class Build:
    def __init__(self, dir, exe, args, log, ok, mpi):
        self.dir, self.exe, self.args, self.log, self.ok, self.mpi = dir, exe, args, log, ok, mpi


class Enough(Exception):
    pass


class Run:
    def __init__(self, dir, rc, out, timeout, cmd, inp):
        self.dir, self.rc, self.out, self.timeout, self.cmd, self.inp = dir, rc, out, timeout, cmd, inp

    def path(self, *a):
        return os.path.join(self.dir, *a)


def inp_text(blocks):
    """blocks: dict block -> dict par -> value (insertion ordered)."""
    s = []
    for b, ps in blocks.items():
        s.append(f"<{b}>")
        for k, v in ps.items():
            if isinstance(v, float):
                v = repr(v)
            s.append(f"{k} = {v}")
        s.append("")
    return "\n".join(s) + "\n"


class Check:
    def __init__(self, pid, level="exploration", rule="", assumptions=()):
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
        ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
        ap.add_argument("--only", default="", help="regex on case names (debugging)")
        ap.add_argument("--keep", action="store_true")
        ap.add_argument("-v", action="store_true")
        self.opt = ap.parse_args()
        self.pid, self.tier, self.seed, self.level, self.rule = pid, self.opt.tier, self.opt.seed, level, rule
        self.thorough = self.tier == "thorough"
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.tl = threading.local()
        self.rng = random.Random(f"{pid}/{self.seed}")
        self.scratch = tempfile.mkdtemp(prefix=f"vp_{pid}_", dir="/tmp")
        os.chmod(self.scratch, 0o755)
        atexit.register(self._cleanup)
        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            signal.signal(s, lambda *_: sys.exit(3))
        self.lock = threading.Lock()
        self.builds = {}
        self.hlocks = {}
        self.evals = 0
        self.nontrivial = set()
        self.samples = []
        self.counters = {}
        self.viol = {}
        self.known = {}
        self.buildfail = []
        self.inconclusive = []
        self.findings = []
        kf = VERIF + "/known_findings.json"
        if os.path.exists(kf):
            self.findings = [f for f in json.load(open(kf)) if f["property"] == pid and f.get("status") == "known"]
        self.base = self._snapshot()
        self.runno = 0

    # ---- scratch ----
    def _cleanup(self):
        if self.opt.keep:
            print("scratch kept:", self.scratch)
        else:
            shutil.rmtree(self.scratch, ignore_errors=True)

    def tmp(self, name="d"):
        return tempfile.mkdtemp(prefix=name + "_", dir=self.scratch)

    # ---- build ----
    def _snapshot(self):
        b = self.scratch + "/base"
        os.makedirs(b)
        subprocess.run(["rsync", "-rlp"] + [f"--exclude={g}" for g in GENERATED] + [REPO + "/src/", b + "/src/"], check=True)
        for f in ("configure.ac", "Makefile.in", "Makeoptions.in", "install-sh"):
            shutil.copy(f"{REPO}/{f}", b)
        p = subprocess.run(["autoconf"], cwd=b, capture_output=True, text=True, env=ENV)
        if not os.path.exists(b + "/configure"):
            raise HarnessError("autoconf failed: " + p.stderr)
        shutil.rmtree(b + "/autom4te.cache", ignore_errors=True)
        # one configure run with -C: the probes of the compiler are shared by all builds
        subprocess.run(["./configure", "-C", "--with-problem=blast"], cwd=b, capture_output=True, env=ENV, stdin=subprocess.DEVNULL)
        for f in os.listdir(VERIF + "/prob"):
            if f.endswith((".c", ".h")):
                shutil.copy(f"{VERIF}/prob/{f}", b + "/src/prob/")
        return b

    def build(self, args, prob="vpgen", opt=None, cflags="", ldflags="", cc=None, extra_src=(), tag="", defs=""):
        opt = opt or os.environ.get("VP_OPT", "-O0")
        """Configure + make one configuration; cached per (args, flags). Never raises on compile failure."""
        key = (args, prob, opt, cflags, ldflags, cc, tuple(extra_src), tag, defs)
        with self.lock:
            ev = self.builds.get(key)
            if ev is None:
                ev = self.builds[key] = [threading.Event(), None]
                mine = True
            else:
                mine = False
        if not mine:
            ev[0].wait()
            return ev[1]
        try:
            ev[1] = self._build(args, prob, opt, cflags, ldflags, cc, extra_src, defs)
        except Exception as e:
            ev[1] = Build(None, None, args, traceback.format_exc(), False, False)
        finally:
            ev[0].set()
        if not ev[1].ok:
            with self.lock:
                self.buildfail.append(args + " " + prob)
            if self.opt.v:
                print("BUILD FAIL", args, prob, ev[1].log[-2000:])
        return ev[1]

    def _build(self, args, prob, opt, cflags, ldflags, cc, extra_src, defs=""):
        d = self.tmp("b")
        shutil.rmtree(d)
        subprocess.run(["cp", "-r", self.base, d], check=True)
        mpi = "--enable-mpi" in args
        cc = cc or ("mpicc" if mpi else "gcc")
        env = dict(ENV)
        cfg = ["-C"] + shlex.split(args) + [f"--with-problem={prob}"]
        p = subprocess.run(["./configure"] + cfg, cwd=d, capture_output=True, text=True, env=env, stdin=subprocess.DEVNULL)
        if p.returncode:
            return Build(d, None, args, p.stdout + p.stderr, False, mpi)
        for r, _, fs in os.walk(d + "/src"):
            if "Makefile" in fs:
                open(r + "/Makedepend", "w").close()
        p = subprocess.run(["make", "all", "MACHINE=macosx", f"CC={cc} -fcommon -w {defs} {cflags}", f"LDR={cc} -fcommon {cflags} {ldflags}", f"OPT={opt}"]
                           + (["FFTWLIB=-lfftw3"] if "--enable-fft" in args else []),
                           cwd=d, capture_output=True, text=True, env=env, stdin=subprocess.DEVNULL)
        exe = d + "/bin/athena"
        return Build(d, exe, args, p.stdout + p.stderr, p.returncode == 0 and os.path.exists(exe), mpi)

    def harness(self, b, srcs, cflags="", cc=None, ldflags=""):
        """Link a driver in /verif/harness with the objects of a build; the program's own main() is renamed athena_main. Returns the executable or None."""
        exe = f"{b.dir}/h_" + os.path.basename(srcs[0]).split(".")[0]
        with self.lock:
            lk = self.hlocks.setdefault(exe, threading.Lock())
        with lk:
            if os.path.exists(exe):
                return exe
            subprocess.run(["objcopy", "--redefine-sym", "main=athena_main", b.dir + "/src/main.o", b.dir + "/src/main_h.o"], check=True)
            objs = [os.path.join(r, f) for r, _, fs in os.walk(b.dir + "/src") for f in fs if f.endswith(".o") and f != "main.o"]
            cc = cc or ("mpicc" if b.mpi else "gcc")
            p = subprocess.run([*shlex.split(cc), "-fcommon", "-w", "-g", *shlex.split(cflags), "-I" + b.dir + "/src", "-o", exe] + [f"{VERIF}/harness/{s}" for s in srcs] + objs + shlex.split(ldflags) + ["-lm"],
                               capture_output=True, text=True, env=ENV)
            if p.returncode:
                with self.lock:
                    self.buildfail.append("harness " + srcs[0] + " " + b.args)
                if self.opt.v:
                    print(p.stderr[-3000:])
                return None
            return exe

    # ---- run ----
    def enough(self):
        """in a quick run the verdict is clear and time is short: start nothing more (only inside parallel tasks)"""
        if self.thorough or not getattr(self.tl, "task", False):
            return
        t = time.time() - self.t0
        if self.viol and (t > 400 or len(self.viol) >= 25 and t > 120):
            raise Enough

    def run(self, b, inp, args=(), np=1, timeout=120, env=None, dir=None, pre=(), retry=True):
        self.enough()
        if not self.thorough:
            timeout = min(timeout, 240)
            retry = retry and time.time() - self.t0 < 420
        d = dir or self.tmp("r")
        text = inp if isinstance(inp, str) else inp_text(inp)
        a = list(args)
        if text is not None and "-r" not in a:
            with open(d + "/athinput", "w") as f:
                f.write(text)
            a = ["-i", "athinput"] + a
        cmd = list(pre)
        if b.mpi:
            cmd += ["mpirun", "-np", str(np)]
        cmd += [b.exe] + a
        e = dict(ENV)
        if b.mpi:
            # OpenMPI keeps its session files here: private to the run
            t = tempfile.mkdtemp(prefix="m", dir="/tmp")
            e["TMPDIR"] = t
            e["OMPI_MCA_orte_tmpdir_base"] = t
        else:
            t = None
        if env:
            e.update(env)
        log = d + "/run.log"
        to = False
        try:
            with open(log, "ab") as f:
                pr = subprocess.Popen(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
                try:
                    rc = pr.wait(timeout)
                except subprocess.TimeoutExpired:
                    to = True
                    try:
                        os.killpg(pr.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    rc = pr.wait()
        finally:
            if t:
                shutil.rmtree(t, ignore_errors=True)
        out = open(log, "rb").read().decode("latin1")
        if to and retry:
            if not dir:
                shutil.rmtree(d, ignore_errors=True)
                return self.run(b, inp, args, np, timeout, env, None, pre, retry=False)
        with self.lock:
            self.counters["executions"] = self.counters.get("executions", 0) + 1
        return Run(d, rc, out, to, cmd, text)

    def ok_run(self, r, case):
        """A valid run must end normally; anything else is reported. Returns True if usable."""
        if r.timeout:
            self.violation(case + "/hang", f"run did not finish (twice): {shlex.join(r.cmd)}", r)
            return False
        if r.rc != 0:
            self.violation(case + "/exit", f"run ended with {r.rc}: {r.out[-600:]}", r)
            return False
        return True

    # ---- verdict ----
    def count(self, name, n=1):
        with self.lock:
            self.counters[name] = self.counters.get(name, 0) + n

    def maxc(self, name, v):
        with self.lock:
            self.counters[name] = max(self.counters.get(name, v), v)

    def case(self, key, nontrivial=True, sample=None):
        with self.lock:
            self.evals += 1
            if nontrivial:
                self.nontrivial.add(str(key))
            if sample is not None and len(self.samples) < 12:
                self.samples.append(sample)
            elif sample is None and len(self.samples) < 6:
                self.samples.append(str(key))

    def violation(self, key, msg, run=None, extra=None):
        with self.lock:
            for f in self.findings:
                if re.search(f["match"], key):
                    self.known.setdefault(f["match"], (f, key, msg))
                    return
            if key in self.viol:
                return
            self.viol[key] = (msg, run, extra)
            print(f"  violation [{key}]: {msg[:500]}", flush=True)

    def incon(self, what):
        with self.lock:
            self.inconclusive.append(what)
        print("  inconclusive:", what, flush=True)

    def parallel(self, tasks, workers=NCPU):
        """tasks: list of (name, callable). Errors in a task are harness errors."""
        if self.opt.only:
            tasks = [t for t in tasks if re.search(self.opt.only, t[0])]
        errs = []

        def go(t):
            s = time.time()
            self.tl.task = True
            for attempt in (0, 1):
                try:
                    t[1]()
                    break
                except Enough:
                    with self.lock:
                        self.counters["tasks_cut_short_after_violations"] = self.counters.get("tasks_cut_short_after_violations", 0) + 1
                    break
                except (ValueError, IndexError, KeyError, FileNotFoundError, EOFError, struct.error, AssertionError) as e:
                    # what the run left behind cannot be read: once may be the machine, twice is the program
                    if attempt:
                        self.violation(t[0] + "/unreadable", "the results of the run are missing or malformed: " + traceback.format_exc()[-1500:])
                except Exception:
                    errs.append((t[0], traceback.format_exc()))
                    break
            if self.opt.v:
                print(f"  task {t[0]}: {time.time()-s:.1f}s", flush=True)
        with concurrent.futures.ThreadPoolExecutor(workers) as ex:
            list(ex.map(go, tasks))
        for n, e in errs:
            print(f"  task {n} failed:\n{e}", flush=True)
        self.taskerrs = getattr(self, "taskerrs", []) + errs

    def finish(self, min_cases=1):
        wall = time.time() - self.t0
        ev = VERIF + "/evidence"
        os.makedirs(ev, exist_ok=True)
        rep = f"{ev}/replay/{self.pid}"
        shutil.rmtree(rep, ignore_errors=True)
        replay = None
        if self.viol:
            os.makedirs(rep, exist_ok=True)
            for n, (k, (msg, run, extra)) in enumerate(list(self.viol.items())[:20]):
                p = f"{rep}/{n:02d}.txt"
                with open(p, "w") as f:
                    f.write(f"property {self.pid} seed {self.seed} tier {self.tier}\ncase: {k}\n{msg}\n")
                    f.write(f"re-run: VERIF_SEED={self.seed} python3-vt checks/{self.pid}.py --tier {self.tier} --only '{re.escape(k.split('/')[0])}'\n")
                    if run is not None:
                        f.write("command: " + shlex.join(run.cmd) + "\n--- input ---\n" + str(run.inp) + "\n--- output tail ---\n" + run.out[-3000:])
                    if extra:
                        f.write("\n--- extra ---\n" + str(extra))
                replay = replay or p
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.nontrivial), "rule": self.rule,
               "samples": self.samples or ["none"]}
        cov.update({k: v for k, v in sorted(self.counters.items())})
        cov["builds"] = sum(1 for b in self.builds.values() if b[1] and b[1].ok)
        if self.buildfail:
            cov["configurations_that_did_not_build"] = sorted(set(self.buildfail))
        if self.inconclusive:
            cov["inconclusive"] = self.inconclusive[:50]
        if self.known:
            cov["known_findings_seen"] = [f"{k[1]}" for k in self.known.values()]
        json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
                   "assumptions": self.assumptions, "wall_s": round(wall, 1), "violations": len(self.viol)},
                  open(f"{ev}/{self.pid}.json", "w"), indent=1, default=str)
        for m, (f, key, msg) in self.known.items():
            print(f"KNOWN-FINDING: property={self.pid} {f['what']}")
        print(f"{self.pid} {self.tier} seed={self.seed}: {self.evals} evaluations, {len(self.nontrivial)} distinct non-trivial, "
              f"{cov['builds']} builds, {self.counters.get('executions', 0)} runs, {len(self.viol)} violations, {wall:.0f} s", flush=True)
        if self.viol:
            print(f"VIOLATION property={self.pid} replay={replay}", flush=True)
            sys.exit(1)
        if getattr(self, "taskerrs", None):
            print("harness errors in", [e[0] for e in self.taskerrs])
            sys.exit(2)
        if not self.opt.only and len(self.nontrivial) < min_cases:
            print(f"only {len(self.nontrivial)} cases observed, {min_cases} needed: inconclusive (build failures: {self.buildfail[:5]})")
            sys.exit(2)
        sys.exit(0)
