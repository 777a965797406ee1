"""C07: results do not depend on the decomposition or on message timing. Serial run = reference; MPI runs under a PMPI shim that delays,
reorders completions and makes every send synchronous."""
import copy, os, re, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np, ath, scen
from vlib import Check, VERIF, ENV, HarnessError

c = Check("C07", rule="one case = (scenario, decomposition, message schedule); non-trivial if >= 2 processes exchanged messages and state, step trace, history and particles were compared with the single-process run",
          assumptions=["every Grid is at least nghost cells wide in each decomposed direction (thinner ones must be refused)", "agreement to a multiple of round-off: 1e-11 of the largest value of each variable group"])
NL = 6
HST = {"out_fmt": "hst", "dt": 1e-14, "dat_fmt": "%.15e"}
SHIM = c.scratch + "/shim.so"
p = subprocess.run(["mpicc", "-O1", "-shared", "-fPIC", "-o", SHIM, VERIF + "/mpi/shim.c"], capture_output=True, text=True, env=ENV)
if p.returncode:
    raise HarnessError("shim: " + p.stderr)
ORD = set()
O = (1, 1, 1)


def hst(d):
    fs = ath.find(d, "*.hst") + ath.find(d, "lev*/*.hst") + ath.find(d, "lev*/dom*/*.hst")
    out = {}
    for f in fs:
        rows = [[float(x) for x in l.split()] for l in open(f) if not l.startswith("#")]
        k = re.sub(r"-id\d+", "", os.path.basename(f))
        if k in out:
            return {"duplicate": k}
        out[k] = np.array(rows)
    return out


def np_of(dec):
    return sum(int(np.prod(q)) for q in dec) if isinstance(dec[0], tuple) else int(np.prod(dec))


def mrun(b, inp, n, seed, mode, timeout=60):
    d = c.tmp("r")
    r = c.run(b, inp, np=n, timeout=timeout, retry=False, dir=d,
              env={"LD_PRELOAD": SHIM, "VP_MPI_SEED": str(seed), "VP_MPI_MODE": str(mode), "VP_MPI_LOG": d, "VP_MPI_US": "300"})
    if r.timeout:
        # a deadlock is reported only if it happens again with four times the time
        if timeout < 200:
            return mrun(b, inp, n, seed, mode, 4 * timeout)
        return r
    for i in range(n):
        f = f"{d}/mpilog.{i}"
        if os.path.exists(f):
            t = open(f).read().split()
            c.count("messages_sent", int(t[0]))
            c.count("completions_reordered", int(t[3]))
            with c.lock:
                ORD.add(t[4])
    return r


def compare(case, cfg, ref, r, tol):
    a, b = ath.load_all(ref.dir), ath.load_all(r.dir)
    if set(a) != set(b):
        c.violation(case + "/domains", f"domains {sorted(b)} instead of {sorted(a)}", r)
        return
    worst = 0.0
    for k in a:
        x, y = a[k], b[k]
        if not y.cover_ok or x.N != y.N or x.disp != y.disp:
            c.violation(case + "/cover", f"Grids of domain {k} do not cover it exactly once ({y.N} at {y.disp}, expected {x.N} at {x.disp})", r)
            continue
        if len(y.times) != 1:
            c.violation(case + "/times", f"processes disagree on time, timestep or step: {y.times}", r)
        t = sorted(y.times)[0]
        if t[2] != x.nstep or abs(t[0] - x.time) > tol * max(x.time, 1e-30) or abs(t[1] - x.dt) > 10 * tol * x.dt:
            c.violation(case + "/time", f"time, dt, step {t} instead of {(x.time, x.dt, x.nstep)}", r)
        m = ath.maxdiff(cfg, ath.State(None, x.U, x.B), ath.State(None, y.U, y.B))
        if x.U.shape[-1] > cfg.nv:
            s = max(np.max(np.abs(x.U[..., cfg.nv])), 1e-10)
            m["Phi"] = float(np.max(np.abs(x.U[..., cfg.nv] - y.U[..., cfg.nv])) / s)
        if y.B is not None:
            m["shared-faces"] = y.bmis
        w = {q: v for q, v in m.items() if not v <= tol}
        worst = max([worst] + list(m.values()))
        if w:
            c.violation(case + "/state", f"domain {k}: differs from the single-process run: {w}", r)
    # step trace
    ta, tb = ath.read_mon(ref.dir, cfg.nv), ath.read_mon(r.dir, cfg.nv)
    ta, tb = [q for q in ta if q["ev"] == "step"], [q for q in tb if q["ev"] == "step"]
    if len(ta) != len(tb):
        c.violation(case + "/steps", f"{len(tb)} steps instead of {len(ta)}", r)
    for q, s in zip(ta, tb):
        if len(s["ts"]) != 1 or abs(q["dt"] - s["dt"]) > 10 * tol * q["dt"] or s["step"] != q["step"]:
            c.violation(case + "/trace", f"step {q['step']}: dt {sorted(s['ts'])} instead of {q['dt']!r}", r)
            break
        if s["cov"] != q["cov"]:
            c.violation(case + "/covered", f"{s['cov']} cells covered by finer Grids instead of {q['cov']}", r)
            break
    # history sums
    ha, hb = hst(ref.dir), hst(r.dir)
    if sorted(ha) != sorted(hb):
        c.violation(case + "/history-files", f"{sorted(hb)} instead of {sorted(ha)}", r)
    else:
        for k in ha:
            x, y = ha[k], hb[k]
            if x.shape != y.shape:
                c.violation(case + "/history", f"{k}: {y.shape} numbers instead of {x.shape}", r)
                continue
            # columns: time, dt, then integrals; momentum columns may cancel, so compare with the largest of their kind
            sc = np.maximum(np.max(np.abs(x), axis=0), 0.0)
            big = np.max(sc[2:]) if x.shape[1] > 2 else 1.0
            sc = np.maximum(sc, 0.01 * big)
            e = np.max(np.abs(x - y) / sc)
            c.maxc("history_max_difference", float(e))
            if not e <= 100 * tol:
                c.violation(case + "/history", f"{k}: history differs by {e:.3g}", r)
    if cfg.part:
        pa, pb = ath.read_ledger(ref.dir), ath.read_ledger(r.dir)
        A = {int(g["id"]): g for _, _, q in pa for g in q}
        L = [int(g["id"]) for _, _, q in pb for g in q]
        B = {int(g["id"]): g for _, _, q in pb for g in q}
        if len(L) != len(set(L)) or set(A) != set(B):
            c.violation(case + "/particles", f"particles lost {sorted(set(A)-set(B))[:5]} extra {sorted(set(B)-set(A))[:5]} total {len(L)} of {len(A)}", r)
        else:
            e = max(float(np.max(np.abs(A[i]["x"] - B[i]["x"])) + np.max(np.abs(A[i]["v"] - B[i]["v"]))) for i in A)
            c.maxc("particle_max_difference", e)
            if not e <= 100 * tol or any(A[i]["type"] != B[i]["type"] for i in A):
                c.violation(case + "/particle-state", f"particle positions or velocities differ by {e:.3g}", r)
            c.count("particles_compared", len(A))
    c.maxc("state_max_difference", worst)


def same(case, r1, r2):
    """two schedules of the same decomposition: identical bits"""
    n = 0
    for pat in ("dump.final.*.bin", "part.final.*.bin", "*.hst", "mon.*.txt"):
        f1 = {os.path.relpath(p, r1.dir): p for p in ath.find(r1.dir, pat)}
        f2 = {os.path.relpath(p, r2.dir): p for p in ath.find(r2.dir, pat)}
        if set(f1) != set(f2):
            c.violation(case + "/schedule-files", f"files differ between schedules: {sorted(set(f1) ^ set(f2))[:4]}", r2)
            return
        for k in f1:
            n += 1
            if open(f1[k], "rb").read() != open(f2[k], "rb").read():
                c.violation(case + "/schedule", f"{k} depends on message timing", r2)
                return
    c.count("files_compared_between_schedules", n)


def t(s, dec, n, auto=None, seeds=1, procs=None):
    def f():
        sb, mb = c.build(s.args), c.build(s.args + " --enable-mpi")
        if not sb.ok or not mb.ok:
            return
        seed = c.seed * 1000 + n
        cfg, inp = s.make(c, seed, nlim=getattr(s, "nl", NL), outputs=[HST], dec=dec)
        cfg.part = bool(s.part)
        np_ = auto or procs or np_of(dec)
        if auto:
            for k in list(inp["domain1"]):
                if k.startswith("NGrid"):
                    del inp["domain1"][k]
            inp["domain1"]["AutoWithNProc"] = auto
        name = f"{s.name}/{'auto%d' % auto if auto else 'x'.join(map(str, dec)) if not isinstance(dec[0], tuple) else '+'.join('x'.join(map(str, q)) for q in dec)}"
        if procs:
            name += f"/on{procs}"
        ref = c.run(sb, inp, timeout=120)
        if not c.ok_run(ref, name + "/serial"):
            return
        tol = 1e-11 if s.tol is None else s.tol
        prev = None
        for q in range(seeds + 1):
            r = mrun(mb, inp, np_, seed * 10 + q, 3 if q % 2 == 0 else 7)
            case = f"{name}/{seed}"
            if not c.ok_run(r, case + f"/schedule{q}"):
                return
            if prev is None:
                compare(case, cfg, ref, r, tol)
            else:
                same(case, prev, r)
            c.case(f"{name}/{seed}/schedule{q}", np_ > 1)
            prev = r
    return f


def thin():
    """Grids narrower than the ghost zones cannot be exchanged: they must be refused, or give the single-process result"""
    s = scen.BY["h3hc"]
    for dec in ((1, 1, 4), (4, 1, 1), (1, 5, 1)):
        sb, mb = c.build(s.args), c.build(s.args + " --enable-mpi")
        if not sb.ok or not mb.ok:
            return
        cfg, inp = s.make(c, c.seed, nlim=3, outputs=[HST], dec=dec)
        r = mrun(mb, inp, np_of(dec), 1, 0)
        c.case(f"thin/{dec}", True)
        if r.timeout:
            c.violation(f"thin/{dec}/hang", "run with Grids narrower than the ghost zones hangs", r)
        elif r.rc == 0:
            ref = c.run(sb, inp)
            compare(f"thin/{dec}", cfg, ref, r, 1e-11)


def oddsplit(nm, dec):
    """Grids of a refined Domain whose edges split a cell of the parent level: refused, or the single-process result"""
    def f():
        s = scen.BY[nm]
        sb, mb = c.build(s.args), c.build(s.args + " --enable-mpi")
        if not sb.ok or not mb.ok:
            return
        cfg, inp = s.make(c, c.seed, nlim=3, outputs=[HST], dec=dec)
        r = mrun(mb, inp, np_of(dec), 1, 0)
        case = f"oddsplit/{nm}/{dec}"
        c.case(case, True)
        if r.timeout:
            c.violation(case + "/hang", "run with Grid edges inside cells of the parent level hangs", r)
        elif r.rc == 0:
            compare(case, cfg, c.run(sb, inp), r, 1e-11)
        elif "[init_mesh]" not in r.out:
            c.violation(case + "/crash", f"run with Grid edges inside cells of the parent level died with {r.rc}: {r.out[-200:]}", r)
    return f


def slide(s, dec, N, n, frac):
    """shearing boundaries and orbital advection after the images have slid over several Grids"""
    def f():
        sb, mb = c.build(s.args), c.build(s.args + " --enable-mpi")
        if not sb.ok or not mb.ok:
            return
        q = big(s, N)
        q.prob = dict(s.prob, omega=2.0, qshear=1.5)
        seed = c.seed * 1000 + n
        cfg, inp = q.make(c, seed, nlim=400, outputs=[HST], dec=dec)
        L = [q.root.xmax0[a] - q.root.xmin0[a] for a in range(3)]
        inp["time"]["tlim"] = float(frac * L[1] / (3.0 * L[0]))
        cfg.part = bool(s.part)
        name = f"slide/{s.name}/{'x'.join(map(str, dec))}/{frac:.2f}"
        ref = c.run(sb, inp, timeout=120)
        r = mrun(mb, inp, np_of(dec), seed, 0)
        if c.ok_run(ref, name + "/serial") and c.ok_run(r, name):
            compare(name, cfg, ref, r, 1e-9)
            c.case(name, True)
    return f


def big(s, N):
    q = copy.copy(s)
    q.N = N
    return q


tasks = [("thin", thin)]
rng = np.random.default_rng(c.seed)
NOBIG = ("sg-", "smr", "shear", "partsh", "cyl3f")
for n, s in enumerate(scen.ALL):
    if not s.mpi:
        continue
    decs = s.decs if c.thorough else s.decs[(c.seed + n) % len(s.decs):][:1]
    for k, dec in enumerate(decs):
        tasks.append((f"{s.name}-{k}", t(s, dec, n + 100 * k, seeds=4 if c.thorough else 1)))
    if s.name.startswith(NOBIG):
        continue
    # uneven random decompositions of awkward sizes
    for k in range(6 if c.thorough else 1 if n % 2 == c.seed % 2 else 0):
        lo = 6
        N = tuple(int(rng.integers(2 * lo, 2 * lo + 12)) if a < s.dim else 1 for a in range(3))
        if s.dim == 3:
            N = tuple(min(v, 17) for v in N)
        for _ in range(50):
            d = tuple(int(rng.integers(1, 4)) if N[a] > 1 else 1 for a in range(3))
            if 1 < np.prod(d) <= 8 and all(N[a] // d[a] >= 5 for a in range(3) if d[a] > 1):
                break
        else:
            continue
        tasks.append((f"{s.name}-uneven{k}", t(big(s, N), d, n + 1000 * (k + 1), seeds=2 if c.thorough else 1)))
    if s.dim > 1 and (c.thorough or n % 5 == c.seed % 5):
        N = {2: (24, 20, 1), 3: (16, 12, 10)}[s.dim]
        tasks.append((f"{s.name}-auto", t(big(s, N), (1, 1, 1), n + 20000, auto=4)))
# a process that holds Grids of several levels, in every order of Domains
W = [("smr1", [(2, 1, 1), (2, 1, 1), (2, 1, 1)], 3), ("smr1", [(1, 1, 1), (2, 1, 1), (1, 1, 1)], 2), ("smr2m", [(2, 1, 1), (1, 2, 1), (1, 2, 1)], 3), ("smr2m", [(1, 2, 1), (1, 2, 1), (2, 1, 1)], 2),
     ("smr2", [(2, 1, 1), O, O, O], 5), ("smr2", [(2, 1, 1), O, (1, 2, 1), O], 3), ("smr3m", [(2, 1, 1), (1, 2, 1)], 2), ("smr3m", [(1, 2, 1), (2, 1, 2)], 6), ("smr3m", [(1, 1, 2), (1, 1, 1)], 3)]
for n, (nm, dec, pr) in enumerate(W):
    tasks.append((f"multi-{nm}-{n}", t(scen.BY[nm], dec, n + 600, seeds=2 if c.thorough else 1, procs=pr)))
# a cloud of particles that crosses Grid edges and corners in the same step: longer than the message buffers and particle lists start out
for n, (nm, dec) in enumerate((("part2", (2, 2, 1)), ("part3fb", (2, 2, 1)), ("part3fb", (1, 2, 2)), ("partsh", (2, 2, 1)), ("part2", (1, 2, 1)))):
    for k, np1 in enumerate((1500, 5000) if c.thorough else (1200 + 300 * ((c.seed + n) % 4),)):
        q = copy.copy(scen.BY[nm])
        q.nl, q.name, q.part = 8, f"burst-{nm}-{np1}", dict(q.part, n=np1, npg=1, burst=2.0 if n % 2 else -2.0)
        tasks.append((q.name, t(q, dec, n + 700 + 10 * k)))
for nm, dec in (("smr2m", [(2, 1, 1), (2, 1, 1), (1, 2, 1)]), ("smr2", [O, (3, 1, 1), O, O]), ("smr3m", [O, (1, 3, 1)])):
    tasks.append((f"oddsplit-{nm}", oddsplit(nm, dec)))
SL = [x for x in scen.ALL if x.name in ("shear3", "shear3f", "shear3h", "shear3vl", "partsh")]
SL += [scen.Scen("shear2xy", "--with-order=2 --with-flux=hlld --enable-shearing-box --with-nscalars=1", 2), scen.Scen("shear2xyf", "--with-gas=hydro --with-order=3 --enable-shearing-box --enable-fargo --with-nscalars=1", 2)]
for n, s in enumerate(SL):
    for k in range(6 if c.thorough else 2):
        fr = float(rng.uniform(0.5, 0.95)) + (k % 3 == 2)
        ny = 4 if k % 2 == 0 else 3
        d = (2, ny, 1) if (n + k) % 2 else (1, ny, 1)
        tasks.append((f"slide-{s.name}-{k}", slide(s, d, (16 if s.dim == 2 else 12, ny * int(rng.integers(5, 8)), 1 if s.dim == 2 else 6), n + 300 + 50 * k, fr)))
c.parallel(tasks, workers=6)
c.counters["distinct_completion_orders"] = len(ORD)
c.finish(min_cases=40)
