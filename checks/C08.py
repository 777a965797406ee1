"""C08: every timestep against independently computed signal and diffusion limits; end time; growth limit."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np, ath
from vlib import Check
from configs import SOLVERS

c = Check("C08", rule="one case = one run; non-trivial if at least 3 of its timesteps were judged against a state and the Courant limit was the active one at least once",
          assumptions=["signal speeds are recomputed from raw dumps with formulas written for this check; with a field the limit may use cell or larger face values",
                       "explicit diffusion must satisfy dt <= C dx^2/(2 dim D)"])
SH = {1: [(30, 1, 1), (17, 1, 1)], 2: [(12, 16, 1), (18, 10, 1)], 3: [(8, 10, 12), (12, 8, 9)]}


def judge(case, cfg, r, init, cour, tlim, gamma, prob, smr=False, part=None, nlim=0):
    """walk through the recorded steps"""
    tags = sorted({os.path.basename(p).split(".")[1] for p in ath.find(r.dir, "dump.s*.bin")})
    if len(tags) < 2:
        c.violation(case + "/nosteps", f"only {len(tags)} steps recorded", r)
        return
    prev = init            # list of Recs: the state from which the next timestep must follow
    pprev = part
    olddt, told = None, 0.0
    act = {"cour": 0, "grow": 0, "tlim": 0, "diff": 0}
    eps = 1e-5 if cfg.single else 1e-10
    dim = sum(q > 1 for q in init[0].N)
    n = 0
    last = None
    parts = {}
    if part is not None:
        for st, rk, q in ath.read_ledger(r.dir, "all"):
            parts.setdefault(st + 1, []).append(q["v"])
    for tg in tags:
        A = ath.load_all(r.dir, tg)
        g0 = A[(0, 0)]
        dt, t = g0.dt, g0.time
        step = g0.nstep + 1
        for g in A.values():
            if len(g.times) != 1 or g.dt != dt or g.time != t:
                c.violation(case + "/ranks", f"timestep or time differ between processes or levels: {g.times}", r)
        if not np.isfinite(dt) or dt <= 0:
            c.violation(case + "/positive", f"step {step}: dt={dt}", r)
            return
        if olddt is not None and abs(t - (told + olddt)) > 1e-14 * max(abs(t), 1e-300) * (1e7 if cfg.single else 1):
            c.violation(case + "/time", f"step {step}: time {t!r} is not {told!r}+{olddt!r}", r)
        if not all(np.isfinite(g.U).all() for g in prev):
            break
        # limits from prev
        sp = [ath.max_speeds(cfg, g, gamma) for g in prev]
        pv = np.zeros(3)
        if pprev is not None and len(pprev):
            pv = np.max(np.abs(np.concatenate(pprev)), axis=0)
        hi = lo = 1e300
        for g, s in zip(prev, sp):
            for a in range(3):
                if g.N[a] > 1:
                    p = pv[a] / g.dx[a]
                    hi = min(hi, cour / max(min(s[a]), p, 1e-300))
                    lo = min(lo, cour / max(max(s[a]), p, 1e-300))
        # upper limit: the slower of the two admissible speed estimates per grid
        hi2 = min(cour / max(max(s[a][0] for a in range(3)), 1e-300) for s in sp)
        hi3 = min(cour / max(max(s[a][1] for a in range(3)), 1e-300) for s in sp)
        hi = max(hi2, hi3)
        for g in prev:
            for a in range(3):
                if g.N[a] > 1 and pv[a] > 0:
                    hi = min(hi, cour * g.dx[a] / pv[a])
        D = max(prob.get("kappa_iso", 0) + prob.get("kappa_aniso", 0), prob.get("nu_iso", 0), prob.get("eta_O", 0) + (
            max(float(np.max(prob["Q_A"] * sum(g.U[..., cfg.idx(f"B{q}c")] ** 2 for q in (1, 2, 3)) / g.U[..., 0])) for g in prev) if "Q_A" in prob else 0))
        if D > 0:
            dxm = min(g.dx[a] for g in prev for a in range(3) if g.N[a] > 1)
            dhi, dlo = cour * dxm ** 2 / (2 * dim * D), cour * dxm ** 2 / (2 * dim * D) / 4
            if "sts" in cfg.args:
                dhi, dlo = 110 * dhi, 50 * dlo
            elif dt > dlo * 0.99 and dt < dhi * 1.01 and hi > dt * 1.01:
                act["diff"] += 1
        else:
            dhi = dlo = 1e300
        if dt > hi * (1 + eps):
            c.violation(case + "/courant", f"step {step}: dt={dt:.8g} exceeds Courant limit {hi:.8g}", r)
        if dt > dhi * (1 + 1e-9):
            c.violation(case + "/diffusive", f"step {step}: dt={dt:.8g} exceeds the diffusive limit {dhi:.8g}", r)
        if olddt is not None and dt > 2 * olddt * (1 + 1e-12):
            c.violation(case + "/growth", f"step {step}: dt grew from {olddt:.8g} to {dt:.8g}", r)
        rest = tlim - t
        if dt > rest * (1 + 1e-12) + (1e-6 * tlim if cfg.single else 0):
            c.violation(case + "/overshoot", f"step {step}: dt={dt:.17g} but only {rest:.17g} left", r)
        low = min(lo, dlo, rest, 2 * olddt if olddt is not None else 1e300)
        if dt < low * (1 - (0.02 if cfg.cyl and cfg.mhd else eps)) and not (smr and step == 1):
            c.violation(case + "/tooshort", f"step {step}: dt={dt:.8g} although {low:.8g} was allowed", r)
        act["tlim"] += abs(dt - rest) < 1e-12 * rest
        act["grow"] += olddt is not None and abs(dt - 2 * olddt) < 1e-12 * dt
        act["cour"] += lo * (1 - 1e-9) <= dt <= hi * (1 + 1e-9)
        n += 1
        prev = list(A.values())
        pprev = parts.get(step) if part is not None else None
        olddt, told, last = dt, t, g0
    f = ath.load_all(r.dir)[(0, 0)]
    done = tlim < 1e8
    if done and abs(f.time - tlim) > 4e-16 * tlim * (1e9 if cfg.single else 1) and f.nstep < nlim:
        c.violation(case + "/end", f"run ended at {f.time!r}, requested {tlim!r}", r)
    for k, v in act.items():
        c.count(f"steps_where_{k}_was_active", int(v))
    c.count("steps_judged", n)
    c.case(case, n >= 3 and act["cour"] + act["diff"] >= 1, {"case": case, "steps": n, "active_limits": {k: int(v) for k, v in act.items()}, "reached": f.time})


def rec_of(st):
    g = ath.Rec()
    g.N, g.U, g.B, g.dx, g.min, g.level = st.mesh.N, st.U, st.B, st.mesh.dx, st.mesh.org, st.mesh.level
    return g


def one(name, cfg, b, dim, kind, seed, prob=None, hier=None, ng=None, steps=None, tl=True, part=False):
    prob = prob or {}
    rng = np.random.default_rng([seed, dim, 21])
    gamma = 4 / 3 if cfg.sr else rng.choice([5 / 3, 1.4])
    L, org = rng.uniform(0.6, 1.6, 3), rng.uniform(-1, 1, 3)
    if cfg.cyl:
        org[0], org[1] = rng.uniform(0.3, 2.0), 0.0
    subs = []
    if hier:
        m, subs = ath.hierarchy(dim, hier, org, org + L)
    else:
        m = ath.Mesh(SH[dim][seed % 2], org, org + L)
    fl = ath.Flow(cfg, seed, "smooth" if kind == "fast" else kind, [q > 1 for q in m.N], gamma=gamma, amp=0.35, mach=[0.3, 1.5, 3.0][seed % 3], beta=[0.3, 1, 10][seed % 3])
    states = [fl.state(q) for q in [m] + subs]
    if kind == "fast":    # one light, fast cell: its signal speed collapses within a step
        U = states[0].U
        q = tuple(int(rng.integers(0, k)) for k in U.shape[:3])
        d = 1e-5
        v = rng.choice([-1, 1]) * 300.0
        e0 = 0.5 * sum(U[q][cfg.idx(f"B{a}c")] ** 2 for a in (1, 2, 3)) if cfg.mhd else 0.0
        a = int(rng.integers(0, dim))
        U[q][0] = d
        U[q][1:4] = 0
        U[q][1 + a] = d * v
        if not cfg.iso:
            U[q][4] = 1.0 / (gamma - 1) + 0.5 * d * v * v + e0
        for k in range(cfg.ns):
            U[q][cfg.idx(f"s{k}")] = 0.5 * d
    cour = float(rng.uniform(0.2, 0.45))
    init = [rec_of(s) for s in states]
    sp = [ath.max_speeds(cfg, g, gamma) for g in init]
    dt0 = cour / max(max(s[a]) for s in sp for a in range(3))
    ns = steps or {1: 14, 2: 10, 3: 6}[dim]
    tlim = float(dt0 * ns * rng.uniform(0.4, 0.9)) if tl else 1e9
    case = f"{name}/{dim}d/{kind}{'/' + hier if hier else ''}{'/' + str(ng) if ng else ''}/{seed}"
    d = c.tmp("i")
    ath.write_init(d + "/init.bin", cfg, states)
    pr = dict(prob, mon=0, dumpevery=1)
    inp = ath.base_inp(cfg, m, d + "/init.bin", bc=(4, 4, 4) if not cfg.cyl else (2, 4, 4), nlim=ns * 3 if tl else ns, tlim=tlim, cour=cour, gamma=float(gamma), subs=subs, problem=pr,
                       dom_extra={f"NGrid_x{a+1}": ng[a] for a in range(3)} if ng else None)
    pv = None
    if part:
        ps = []
        for i in range(12):
            x = [rng.uniform(org[a], org[a] + L[a]) if m.act(a) else 0.5 * (m.xmin0[a] + m.xmax0[a]) for a in range(3)]
            v = rng.normal(size=3) * (8 if i == 3 else 1)
            if i == 3:
                v[int(rng.integers(0, dim))] = -abs(v).max() - 6.0
            ps.append((i, i % 2, x, v))
        ath.write_particles(d + "/p.bin", ps)
        inp["particle"] = {"partypes": 2, "parnumgrid": 100, "integrator": 2, "interp": 1, "tsmode": 3}
        inp["problem"].update({"part_file": d + "/p.bin", "ledger": 1, "tstop0": 5.0, "tstop1": 7.0})
        pv = [np.array([p[3] for p in ps])]
    r = c.run(b, inp, np=int(np.prod(ng)) if ng else 1)
    if c.ok_run(r, case):
        judge(case, cfg, r, init, cour, tlim, gamma, prob, smr=bool(hier), part=pv, nlim=ns * 3)


SOL = [x for i, x in enumerate(SOLVERS)]
PICK = ["h-ctu-1-roe", "h-ctu-2-roe-s2", "h-ctu-2p-hlle", "hi-ctu-3-roe-s1", "h-vl-2p-hllc-s1", "hi-vl-3p-hlle-fofc", "m-ctu-2-roe-s2", "m-ctu-2p-hlle-s1", "mi-ctu-3p-hlle", "m-vl-2p-roe", "mi-vl-2p-hlld-s1",
        "srh-2p-hllc", "srm-2p-hlle"]


def t_sol(name, args, n):
    def f():
        cfg = ath.Cfg(args)
        b = c.build(args)
        if not b.ok:
            return
        for rep in range(12 if c.thorough else 3):
            s = c.seed * 1000 + n * 30 + rep
            for dim in (1, 2, 3):
                one(name, cfg, b, dim, ["smooth", "shock"][rep % 2], s)
                if "hlle" in name and not cfg.mhd and not cfg.sr and rep == 0:
                    one(name, cfg, b, dim, "fast", s, tl=False, steps=12)
    return f


def t_x(name, args, n, prob, hiers=(), ngs=(), part=False):
    def f():
        cfg = ath.Cfg(args)
        b = c.build(args)
        if not b.ok:
            return
        for rep in range(6 if c.thorough else 2):
            s = c.seed * 1000 + n * 30 + rep
            if hiers:
                for dim, h in hiers:
                    one(name, cfg, b, dim, ["smooth", "shock"][rep % 2], s, prob, hier=h, steps=6)
            elif ngs:
                for dim, ng in ngs:
                    one(name, cfg, b, dim, ["smooth", "shock"][rep % 2], s, prob, ng=ng, steps=8)
            else:
                for dim in (1, 2, 3):
                    one(name, cfg, b, dim, "smooth", s, prob, part=part, tl=rep % 2 == 0, steps=8)
    return f


X = [("cond", "--with-gas=hydro --with-order=2 --enable-conduction", {"kappa_iso": 0.6}, {}),
     ("cond-m", "--with-order=2 --with-flux=hlld --enable-conduction", {"kappa_iso": 0.2, "kappa_aniso": 0.5}, {}),
     ("visc", "--with-gas=hydro --with-eos=isothermal --with-order=2p --enable-viscosity", {"nu_iso": 0.5}, {}),
     ("ohm", "--with-order=2 --with-flux=hlld --enable-resistivity", {"eta_O": 0.4}, {}),
     ("ad", "--with-eos=isothermal --with-order=2 --with-flux=hlld --enable-resistivity", {"eta_O": 0.05, "Q_A": 1.0}, {}),
     ("small", "--with-order=2 --with-flux=hlld --enable-resistivity --enable-conduction", {"eta_O": 1e-5, "kappa_iso": 1e-5}, {}),
     ("sts", "--with-order=2 --with-flux=hlld --enable-resistivity --enable-sts", {"eta_O": 0.3}, {}),
     ("cyl-h", "--with-gas=hydro --with-coord=cylindrical --with-order=2", {}, {}),
     ("cyl-m", "--with-coord=cylindrical --with-order=2 --with-flux=hlld", {}, {}),
     ("single", "--enable-single --with-order=2", {}, {}),
     ("part", "--with-gas=hydro --with-eos=isothermal --with-particles=passive --with-order=2", {}, {"part": True}),
     ("smr-h", "--with-gas=hydro --with-order=2 --enable-smr", {}, {"hiers": [(1, "two-levels"), (2, "two-levels"), (2, "two-regions"), (3, "one")]}),
     ("smr-m", "--with-order=2 --with-flux=hlld --enable-smr", {}, {"hiers": [(2, "deep-pair"), (3, "two-regions")]}),
     ("mpi-h", "--with-gas=hydro --with-order=2 --enable-mpi", {}, {"ngs": [(1, (3, 1, 1)), (2, (2, 2, 1)), (3, (2, 1, 2))]}),
     ("mpi-res", "--with-order=2 --with-flux=hlld --enable-mpi --enable-resistivity", {"eta_O": 0.02, "Q_A": 0.2}, {"ngs": [(2, (1, 2, 1)), (3, (1, 2, 2))]})]
D = dict(SOLVERS)
c.parallel([(n, t_sol(n, D[n], i)) for i, n in enumerate(PICK if not c.thorough else list(D))] + [(n, t_x(n, a, i + 40, p, **k)) for i, (n, a, p, k) in enumerate(X)])
c.finish(min_cases=80)
