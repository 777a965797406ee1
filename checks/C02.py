"""C02: div B and cell/face consistency, monitored at every step."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np, ath
from vlib import Check
from configs import SOLVERS

c = Check("C02", rule="one case = (configuration, dimension, flow, boundary set, seed); non-trivial if the field changed by more than 1e-6 over >= 2 monitored steps",
          assumptions=["initial face field is the discrete curl of a random vector potential plus a uniform field", "divergence judged relative to the local sum of |B|/dx"])
SH = {1: [(40, 1, 1)], 2: [(18, 22, 1), (25, 14, 1)], 3: [(12, 10, 14), (10, 13, 9)]}
RES = "--enable-resistivity"
MHD = [(n, a) for n, a in SOLVERS if "--with-gas=hydro" not in a]
EXTRA = [
    ("res-ohm-ctu", "--with-order=2 --with-flux=hlld " + RES, {"eta_O": 0.01}),
    ("res-ohm-vl", "--with-integrator=vl --with-order=2p --with-flux=hlld " + RES, {"eta_O": 0.02}),
    ("res-ad", "--with-order=3 --with-flux=roe " + RES, {"Q_A": 0.01}),
    ("res-hall", "--with-eos=isothermal --with-order=2 --with-flux=hlld " + RES, {"eta_O": 0.004, "Q_H": 0.005}),
    ("res-sts", "--with-order=2 --with-flux=hlld --enable-sts " + RES, {"eta_O": 0.02}),
    ("cond", "--with-order=2 --with-flux=hlld --enable-conduction", {"kappa_aniso": 0.02}),
    ("cyl-ctu", "--with-coord=cylindrical --with-order=2 --with-flux=hlld", {}),
    ("cyl-vl", "--with-coord=cylindrical --with-integrator=vl --with-order=2p --with-flux=roe", {}),
    ("single", "--enable-single --with-order=3", {}),
]
BCS = {"per": (4, 4, 4), "out": (2, 2, 2), "mix": ((2, 2), (4, 4), (2, 2)), "mix2": ((4, 4), (2, 2), (4, 4)), "cond": (5, 5, 5), "cyl": ((2, 2), (4, 4), (4, 4)), "refl": (1, 1, 1)}


def div_of(g, m):
    d, sc = 0.0, 0.0
    for a in range(3):
        if m.act(a):
            ax = 2 - a
            B = np.moveaxis(g.B[a], ax, -1)
            d = d + np.moveaxis(B[..., 1:] - B[..., :-1], -1, ax) / m.dx[a]
            sc = sc + np.moveaxis(np.abs(B[..., 1:]) + np.abs(B[..., :-1]), -1, ax) / m.dx[a]
    return np.abs(d), sc


def one(cfg, b, name, dim, kind, seed, bcn, steps, prob, case_extra=""):
    case = f"{name}/{dim}d/{kind}/{bcn}/{seed}"
    shape = SH[dim][seed % len(SH[dim])]
    rng = np.random.default_rng([seed, dim, 17])
    L, org = rng.uniform(0.6, 1.6, 3), rng.uniform(-1, 1, 3)
    if cfg.cyl:
        org[0] = rng.uniform(0.3, 2.0)
        org[1], L[1] = 0.0, rng.uniform(0.5, 1.5)
    m = ath.Mesh(shape, org, org + L)
    act = [n > 1 for n in shape]
    gamma = 4 / 3 if cfg.sr else 5 / 3
    fl = ath.Flow(cfg, seed, kind, act, gamma=gamma, amp=0.35, mach=1.2 if kind == "shock" else 0.7)
    if cfg.sr and kind == "shock" and "fofc" in name:
        fl = ath.Flow(cfg, seed, kind, act, gamma=gamma, amp=0.5, mach=1.5, beta=0.5)
    win = None
    if bcn == "refl":
        fl.b0 = np.where(act, 0.0, fl.b0)
        win = lambda *f: np.prod([np.sin(np.pi * f[a]) if act[a] else np.ones(np.shape(f[a])) for a in range(3)], axis=0)
    st = fl.state(m, window=win)
    d = c.tmp("i")
    ath.write_init(d + "/init.bin", cfg, [st])
    r = c.run(b, ath.base_inp(cfg, m, d + "/init.bin", bc=BCS[bcn], nlim=steps, cour=0.35, gamma=gamma, problem=prob))
    if not c.ok_run(r, case):
        return
    mon = [q for q in ath.read_mon(r.dir, cfg.nv) if q["ev"] == "step"]
    eps = 2.3e-16 if not cfg.single else 1.2e-7
    corrected = cfg.sr and "[Step15a]" in r.out
    if any(q["nan"] for q in mon):
        c.violation(case + "/nan", "non-finite values in the state", r)
        return
    wd = max((q["div"] / max(q["bsc"], 1e-30) / eps / (q["step"] + 2) for q in mon), default=0)
    wc = max((q["cc"] / max(q["bmax"], 1e-30) / eps for q in mon), default=0)
    g = ath.load_all(r.dir)[(0, 0)]
    ch = max(float(np.max(np.abs(g.B[a] - st.B[a]))) for a in range(3))
    c.case(case, ch > 1e-6 and len(mon) >= 2, {"case": case, "steps": len(mon), "max_div_eps_per_step": wd, "max_cell_face_eps": wc})
    c.count("steps_monitored", len(mon))
    c.count("cells_checked", len(mon) * int(np.prod(shape)))
    if corrected:
        c.count("runs_with_first_order_correction")
    c.maxc("worst_div_eps_per_step", wd)
    c.maxc("worst_cellface_eps", wc)
    tag = "sr-fofc-applied/" if corrected else ""
    if bcn in ("refl", "cond"):   # cells touching a wall are judged separately (known finding), all others strictly
        if not wd < 20:
            c.violation(f"{case}/wall-layer/div", f"div B next to a {bcn} wall reached {wd:.3g} epsilon per step of |B|/dx", r)
        div, sc = div_of(g, m)
        inner = tuple(slice(1, -1) if act[a] else slice(None) for a in (2, 1, 0))
        wd = float(div[inner].max() / max(sc.max(), 1e-30) / eps / (len(mon) + 2))
        c.maxc("worst_interior_div_eps_walls", wd)
    if not wd < 20:
        c.violation(f"{case}/{tag}div", f"div B reached {wd:.3g} epsilon per step of |B|/dx", r)
    if not wc < 8:
        c.violation(f"{case}/{tag}cellface", f"cell-centred field differs from the face average by {wc:.3g} epsilon", r)


def task(name, args, prob, n):
    def f():
        cfg = ath.Cfg(args)
        b = c.build(args)
        if not b.ok:
            return
        for rep in range(4 if c.thorough else 1):
            s = c.seed * 1000 + n * 10 + rep
            for dim in (1, 2, 3):
                st = {1: 20, 2: 16, 3: 8}[dim] * (3 if c.thorough else 1)
                if cfg.cyl:
                    for kind in ("smooth", "shock"):
                        one(cfg, b, name, dim, kind, s, "cyl", st, prob)
                    continue
                bcs = ["per", "per", "out", "mix", "mix2", "cond"] if dim > 1 else ["per", "out"]
                for q, bcn in enumerate(bcs):
                    if bcn == "cond" and (n + rep) % 3:
                        continue
                    one(cfg, b, name, dim, "smooth" if q % 2 else "shock", s + q, bcn, st, prob)
                if dim > 1 and (n + rep) % 2 == 0:
                    one(cfg, b, name, dim, "smooth", s, "refl", st, prob)
    return f


c.parallel([(n, task(n, a, p, i)) for i, (n, a, p) in enumerate([(n, a, {}) for n, a in MHD] + EXTRA)])
c.finish(min_cases=60)
