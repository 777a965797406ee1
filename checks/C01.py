"""C01: conservation in closed boxes, monitored at every step."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np, ath
from vlib import Check
from configs import SOLVERS

c = Check("C01", rule="one case = (solver configuration, dimension, flow kind, seed, box type); non-trivial if the state changed by more than 1e-6 and >= 2 steps were monitored",
          assumptions=["totals are accumulated in long double by the monitor", "periodic box, reflecting box or periodic static potential"])
SH = {1: [(40, 1, 1), (53, 1, 1)], 2: [(18, 22, 1), (25, 14, 1)], 3: [(12, 10, 14), (10, 13, 9)]}
kinds = ["smooth", "shock"]
EPS = 2.3e-16


def one(cfg, b, name, dim, kind, seed, box, shape, steps):
    case = f"{name}/{dim}d/{kind}/{box}/{seed}"
    rng = np.random.default_rng([seed, dim, 7])
    L = rng.uniform(0.6, 1.6, 3)
    org = rng.uniform(-1, 1, 3)
    m = ath.Mesh(shape, org, org + L)
    act = [n > 1 for n in shape]
    gamma = 5 / 3 if not cfg.sr else 4 / 3
    fl = ath.Flow(cfg, seed, kind, act, gamma=gamma, amp=0.35, mach=1.2 if kind == "shock" else 0.7, mean_b=True)
    if kind == "seam":   # fixed workload in which corrected cells touch the periodic seam
        fl = ath.Flow(cfg, seed, "shock", act, gamma=gamma, amp=0.9, mach=12.0, beta=0.3, kmax=4)
        fl.jp *= 8
    if kind == "core":   # violent rarefaction confined to the middle: forces first-order corrections
        fl = ath.Flow(cfg, seed, "uniform", act, gamma=gamma, amp=0.0, mach=0.3, beta=4.0)
        cen = np.full(3, 0.5)
        A, p0, w = rng.uniform(8, 25), 10 ** rng.uniform(-3, -1.5), rng.uniform(0.07, 0.1) * (1.5 if dim > 1 else 1)
        jd = rng.uniform(1, 4)

        def prim(f, f0=fl.prim, **kw):
            W = f0(f)
            X = [((f[a] - cen[a] + 0.5) % 1.0 - 0.5 if act[a] else 0 * f[a]) for a in range(3)]
            g = np.exp(-sum(x * x for x in X) / w ** 2)
            W["v"] = [W["v"][a] + A * X[a] / w * g for a in range(3)]
            W["d"] = W["d"] * (1 + jd * g)
            W["P"] = W["P"] * (1 - g) + p0 * g
            if cfg.iso:
                W["P"] = W["d"]
            return W
        fl.prim = prim
    pot, prob, bc = None, {}, (4, 4, 4)
    if box == "grav":
        A = rng.uniform(-0.5, 0.5, 3) * act
        K, P = [1, 2, 1], rng.uniform(0, 6, 3)
        prob = {"grav": 1}
        for a in range(3):
            prob.update({f"grav_a{a+1}": float(A[a]), f"grav_k{a+1}": K[a], f"grav_p{a+1}": float(P[a])})
        pot = lambda *x: sum(A[a] * np.cos(2 * np.pi * K[a] * (x[a] - org[a]) / L[a] + P[a]) for a in range(3))
    if box == "wall":
        bc = (1, 1, 1)
    if box == "mixed":
        bc = [(1, 1), 4, (1, 1)] if seed % 2 else [4, (1, 1), 4]
    win = None
    if box in ("wall", "mixed"):   # no magnetic flux through the walls
        refl = [act[a] and bc[a] != 4 for a in range(3)]
        fl.b0 = np.where(refl, 0.0, fl.b0)
        win = lambda *f: np.prod([np.sin(np.pi * f[a]) if refl[a] else np.ones(np.shape(f[a])) for a in range(3)], axis=0)
    st = fl.state(m, window=win)
    d = c.tmp("i")
    ath.write_init(d + "/init.bin", cfg, [st])
    cour = 0.35 if dim == 3 else 0.4
    r = c.run(b, ath.base_inp(cfg, m, d + "/init.bin", bc=bc, nlim=steps, cour=cour, gamma=gamma, problem=prob))
    if not c.ok_run(r, case):
        return
    mon = [q for q in ath.read_mon(r.dir, cfg.nv) if q["ev"] == "step"]
    s0, a0 = ath.sums(cfg, [st], pot)
    names = cfg.names
    # scale per quantity: momenta share a scale (signed quantities), energy its own
    scale = a0.copy()
    eps = EPS if not cfg.single else 1.2e-7
    worst = {}
    if cfg.sr and "[Step15b]" in r.out:   # documented last resort: states are floored, conservation is given up
        c.count("sr_runs_with_documented_floor")
        return
    if kind == "core" and any(q["nan"] for q in mon):   # beyond what the solver can evolve: only the steps before count
        mon = mon[:[bool(q["nan"]) for q in mon].index(True)]
        c.count("extreme_runs_cut_short")
        if not mon:
            return
    if any(q["nan"] for q in mon):
        c.violation(case + "/nan", "non-finite values in the state", r)
        return
    ms = sum(scale[1:4]) + scale[0] * (1 if not cfg.sr else 1)
    for q in mon:
        sc = np.maximum(scale, q["a"])
        sc[1:4] = max(ms, sum(q["a"][1:4]))
        if cfg.mhd:
            i = cfg.idx("B1c")
            sc[i:i + 3] = max(sc[i:i + 3].sum(), sc[0])
        tot = q["s"]
        for n, nm in enumerate(names):
            if box == "grav" and nm in ("M1", "M2", "M3"):
                continue
            if nm == "E" and box == "grav":
                e = abs((tot[n] + tot[-1]) - (s0[n] + s0[-1])) / (sc[n] + abs(q["a"][-1]))
            elif box in ("wall", "mixed"):
                if nm.startswith(("M", "B")):
                    continue
                e = abs(tot[n] - s0[n]) / sc[n]
            else:
                e = abs(tot[n] - s0[n]) / sc[n]
            worst[nm] = max(worst.get(nm, 0), float(e / eps / q["step"]))
    if not mon:
        c.violation(case + "/nosteps", "no step was taken", r)
        return
    g = ath.load_all(r.dir)[(0, 0)]
    change = float(np.max(np.abs(g.U - st.U)))
    c.case(case, change > 1e-6 and len(mon) >= 2, {"case": case, "shape": shape, "steps": len(mon), "worst_drift_in_eps_per_step": worst})
    c.count("steps_monitored", len(mon))
    if "fofc" in name and ("cells had d<0" in r.out):
        c.count(f"runs_with_first_order_correction_{kind}")
    c.count("cell_updates", len(mon) * int(np.prod(shape)))
    for nm, e in worst.items():
        if box == "grav" and nm == "E" and cfg.mhd and dim == 1:
            pass
        c.maxc("worst_drift_eps_per_step", e)
        if not e < 30.0:
            tag = "sr-fofc-applied/" if cfg.sr and "[Step15a]" in r.out else "fofc-at-grid-edge/" if kind == "seam" and "cells had d<0" in r.out else ""
            c.violation(f"{case}/{tag}{nm}", f"total {nm} drifted by {e:.3g} epsilon per step (relative to its absolute content)", r)


def task(name, args, n):
    def f():
        cfg = ath.Cfg(args)
        b = c.build(args)
        if not b.ok:
            return
        reps = 3 if c.thorough else 1
        for rep in range(reps):
            s = c.seed * 1000 + n * 10 + rep
            for dim in (1, 2, 3):
                shape = SH[dim][(n + rep) % 2]
                ks = kinds + (["core", "core2", "core4"] if "fofc" in name and not cfg.sr else [])
                for kind in ks:
                    one(cfg, b, name, dim, kind[:4] if kind[:4] == "core" else kind, s + 100 * (ord(kind[-1]) % 10), "per", shape, (6 if kind[:4] == "core" else {1: 24, 2: 12, 3: 6}[dim]) * (3 if c.thorough else 1))
                if not cfg.sr:
                    one(cfg, b, name, dim, "smooth", s + 1, "grav", shape, {1: 12, 2: 6, 3: 4}[dim])
                if not cfg.mhd or dim == 1:   # with a field, round-off decides the upwind side of the EMF at a wall
                    one(cfg, b, name, dim, "smooth", s + 2, "mixed" if dim > 1 and (n + rep + dim) % 2 else "wall", shape, {1: 16, 2: 8, 3: 5}[dim])
        if name == "mi-vl-3p-roe-fofc":
            one(cfg, b, name, 2, "seam", 2290, "per", SH[2][1], 12)
    return f


single = [("h-single", "--with-gas=hydro --enable-single --with-order=2"), ("m-single", "--enable-single --with-order=3")]
c.parallel([(n, task(n, a, i)) for i, (n, a) in enumerate(SOLVERS + single)])
c.finish(min_cases=60)
