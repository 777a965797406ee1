"""C21: cylindrical coordinates. Offline checkers on dumps: smooth nonlinear flows against a pseudo-spectral reference in cylindrical coordinates on two
grids (with static potentials, rotating frame, orbital advection); exact budgets (mass, energy, vertical momentum, angular momentum, scalars, div B) of long
rough runs in closed annuli."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np, ath
from spectral import CylSpectral
from vlib import Check

c = Check("C21", rule="one case = (build, dimension, seed): final state on two grids against the spectral reference, or budgets of one long run in a closed annulus",
          assumptions=["compared only where no signal from the radial boundaries can have arrived", "the axis itself is outside the domain"])
G = 5 / 3
V = "-v" in sys.argv
H, I, CY = "--with-gas=hydro", "--with-eos=isothermal", "--with-coord=cylindrical"


def to_athena(cfg, S, U, m, orb):
    A = np.stack([S.sample_r(x, m) for x in U], axis=-1)
    B = None
    i = 4 if cfg.iso else 5
    if cfg.mhd:
        wh = lambda a: "".join("f" if q == a and (S.N[a] > 1 or a == 0) else "c" for q in range(3))
        B = [S.sample_r(U[i + a], m, wh(a), rw=0 if a == 1 else 1) for a in range(3)]
        A[..., i:i + 3] = np.stack(ath.cell_b(m, B, True), axis=-1)
    if orb:
        vk = orb[0] * m.grid()[0] ** (orb[1] + 1)
        if not cfg.iso:
            A[..., 4] += -vk * A[..., 2] + 0.5 * A[..., 0] * vk ** 2
        A[..., 2] -= A[..., 0] * vk
    return A, B


def smooth(name, args, dims):
    def run():
        b = c.build(args, opt="-O1")
        if not b.ok:
            c.incon(name + " does not build")
            return
        cfg = ath.Cfg(args)
        fargo, rot = "fargo" in args, "rotating" in args
        for dim in dims:
            for t in range(1 if not c.thorough else 4):
                rng = np.random.default_rng([c.seed, t, sum(map(ord, name)), dim])
                ra = float(rng.uniform(1.0, 1.4))
                rb = ra + 1.4
                r0, Lr = ra - 0.9, 3.2
                Lp, Lz = float(rng.uniform(0.7, 1.0)), float(rng.uniform(1.2, 1.8))
                act = [a < dim for a in range(3)]
                n = {1: (160, 1, 1), 2: (108, 40, 1), 3: (84, 32, 32)}[dim]
                grav = fargo or bool(rng.integers(2))
                pr, grad = {}, None
                ka, kk, kp = rng.uniform(0.05, 0.15, 3), rng.integers(1, 3, 3), rng.uniform(0, 6, 3)
                om = float(rng.uniform(0.4, 0.9)) if rot else 0.0
                orb = (float(rng.uniform(0.4, 0.7)), float(rng.uniform(-1.5, -0.5))) if fargo else None
                S = CylSpectral(cfg, n, (Lr, Lp, Lz), r0, ra, rb, om=om, gamma=G, cs=1.0)
                if grav:
                    pr = {"grav": 1}
                    f = S.points()
                    x = [S.r + 0 * f[0], f[1] * Lp, f[2] * Lz]
                    Lx, x0 = (rb - ra, Lp, Lz), (ra, 0, 0)
                    grad = []
                    for a in range(3):
                        if not act[a]:
                            ka[a] = 0
                        w = 2 * np.pi * kk[a] / Lx[a]
                        grad.append(-ka[a] * w * np.sin(w * (x[a] - x0[a]) + kp[a]) * (S.w if a == 0 else 1))
                        pr.update({f"grav_a{a+1}": float(ka[a]), f"grav_k{a+1}": int(kk[a]), f"grav_p{a+1}": float(kp[a])})
                    S.grad = grad
                if rot:
                    pr["omega"] = om
                if fargo:
                    pr.update({"orb_om": orb[0], "orb_n": orb[1]})
                T = 0.12
                for damp in (1, 0.6, 0.3):
                    fl = ath.Flow(cfg, int(rng.integers(1 << 30)), "smooth", act, amp=0.2 * damp, mach=0.4 * damp, kmax=2, beta=1.5 / damp, mean_v=bool(rng.integers(2)))
                    f = S.points()
                    W = fl.prim(f)
                    if fargo:
                        W["v"][1] = W["v"][1] + orb[0] * (S.w * S.r ** (orb[1] + 1) + (1 - S.w))
                    if cfg.mhd:
                        bb = S.curl([fl.bscale * 0.15 * fl.ma[a](*f) for a in range(3)])
                        b0 = [fl.b0[1] * S.i_r, fl.b0[1], fl.b0[2]]
                        W["b"] = [bb[a] + b0[a] for a in range(3)]
                    U0 = np.moveaxis(ath.prim_to_cons(cfg, W, G, 1.0), -1, 0)
                    U1 = S.evolve(U0, T)
                    tail = S.tail(U1)
                    if tail < 1e-3:
                        break
                    c.count("unresolved_reference")
                else:
                    continue
                vm = 0
                for U in (U0, U1):
                    d, v, P, bb = S.prim(U)
                    vm = max(vm, (np.abs(v[0]) + np.sqrt((1.0 if cfg.iso else G * P / d) + sum(x * x for x in bb) / d)).max())
                errs = []
                tag = f"smooth/{name}/{dim}d/{t}"
                for base in {1: (48, 96), 2: (36, 72), 3: (28, 56)}[dim]:
                    N = [int(base * k) if a < dim else 1 for a, k in enumerate((1, 0.5, 0.5))]
                    m = ath.Mesh(N, [ra, 0, 0], [rb, Lp, Lz])
                    A0, B0 = to_athena(cfg, S, U0, m, orb)
                    d = c.tmp("i")
                    ath.write_init(d + "/init.bin", cfg, [ath.State(m, A0, B0)])
                    r = c.run(b, ath.base_inp(cfg, m, d + "/init.bin", bc=(2, 4, 4), nlim=100000, tlim=T, cour=0.4, problem=pr), timeout=800)
                    if not c.ok_run(r, tag):
                        return
                    g = ath.load_all(r.dir)[(0, 0)]
                    X, _ = to_athena(cfg, S, U1, m, orb)
                    dr = vm * T * 1.05 + 4 * 1.4 / {1: 48, 2: 36, 3: 28}[dim]
                    rc = m.cc(0)
                    ins = (rc > ra + dr) & (rc < rb - dr)
                    e = np.abs(g.U[..., :cfg.nv] - X)[:, :, ins].mean((0, 1, 2))
                    sc = np.abs(X - A0)[:, :, ins].mean((0, 1, 2))
                    for mm in [slice(1, 4)] + ([slice(4 if cfg.iso else 5, (4 if cfg.iso else 5) + 3)] if cfg.mhd else []):
                        sc[mm] = np.maximum(sc[mm], 0.3 * sc[mm].max())
                    errs.append(e / sc)
                E = np.array(errs)
                rat = E[1] / np.maximum(E[0], 1e-12)
                if V:
                    print(tag, "fine", np.round(E[1], 4), "ratio", np.round(rat, 3), "tail %.0e" % tail, "grav" * grav, int(ins.sum()), flush=True)
                c.maxc("max_fine_error", float(E[1].max()))
                c.maxc("max_ratio", float(rat.max()))
                for v in range(cfg.nv):
                    if not ((E[1][v] < 0.09 or E[1][v] < 0.25 and rat[v] < 0.33) and (rat[v] < 0.55 or E[1][v] < 0.006)):
                        c.violation(f"smooth/{name}/{dim}d", f"{tag}: error of {cfg.names[v]} relative to its change is {E[:, v]} on refined grids", r)
                        break
                c.case(tag, sample={"fine": [float(x) for x in E[1]], "ratio": [float(x) for x in rat]})
    return run


def budget(name, args, dims):
    """compact disturbances of a uniform gas at rest, stopped before anything reaches the radial boundaries: what is conserved is conserved to round-off"""
    def run():
        b = c.build(args)
        if not b.ok:
            c.incon(name + " does not build")
            return
        cfg = ath.Cfg(args)
        for dim in dims:
            for t in range(2 if not c.thorough else 12):
                rng = np.random.default_rng([c.seed, t, sum(map(ord, name)), dim, 7])
                N = [int(rng.integers(48, 60)), int(rng.integers(6, 13)) if dim > 1 else 1, int(rng.integers(6, 11)) if dim > 2 else 1]
                ra = float(10 ** rng.uniform(-0.7, 0.5))
                m = ath.Mesh(N, [ra, 0, 0], [ra + float(rng.uniform(0.8, 3)), float(rng.uniform(0.5, 2)), 1.0])
                fl = ath.Flow(cfg, int(rng.integers(1 << 30)), ["smooth", "shock"][int(rng.integers(2))], [n > 1 for n in N], amp=0.4, mach=1.0, kmax=3)
                X = m.grid()
                f = [(X[a] - m.xmin0[a]) / (m.xmax0[a] - m.xmin0[a]) for a in range(3)]
                lo, hi = N[0] // 2 - 7, N[0] // 2 + 7
                ins = (np.arange(N[0]) >= lo) & (np.arange(N[0]) < hi)
                W = fl.prim(f)
                w = ins[None, None, :] * 1.0
                W["d"], W["P"] = 1 + w * (W["d"] - 1), 1 + w * (W["P"] - 1)
                W["v"] = [w * v for v in W["v"]]
                W["r"] = [0.5 + w * (x - 0.5) for x in W["r"]]
                Bf = None
                if cfg.mhd:
                    r1, r2 = m.fc(0)[lo + 1], m.fc(0)[hi - 1]
                    A = [(lambda g: lambda *x: g(*x) * ((x[0] > r1) & (x[0] < r2)))(fl.afun(a, m)) for a in range(3)]
                    Bf = ath.curl_faces(m, A, (0., 0., 0.), True)
                    W["b"] = ath.cell_b(m, Bf, True)
                if cfg.iso:
                    W["P"] = W["d"]
                d = c.tmp("i")
                s = ath.State(m, ath.prim_to_cons(cfg, W, G, 1.0), Bf)
                ath.write_init(d + "/init.bin", cfg, [s])
                tag = f"budget/{name}/{dim}d/{t}"
                nst = 2 if cfg.mhd or "order=3" in args else 3
                r = c.run(b, ath.base_inp(cfg, m, d + "/init.bin", bc=(2, 4, 4), nlim=nst, tlim=1e9, cour=0.4))
                if not c.ok_run(r, tag):
                    return
                g = ath.load_all(r.dir)[(0, 0)]
                rr = X[0]
                quiet = np.abs(g.U[:, :, :2, :cfg.nv] - s.U[:, :, :2]).max() < 1e-9 and np.abs(g.U[:, :, -2:, :cfg.nv] - s.U[:, :, -2:]).max() < 1e-9
                if not quiet:
                    c.violation(f"budget/{name}/{dim}d/equilibrium", f"{tag}: uniform gas at rest next to the boundary has changed by {np.abs(g.U[:, :, :2, :cfg.nv] - s.U[:, :, :2]).max():.2e}", r)
                names = ["mass", "Mz", "L"] + ([] if cfg.iso else ["E"]) + [f"s{k}" for k in range(cfg.ns)]
                col = {"mass": 0, "Mz": 3, "L": 2, "E": 4}
                for k in names:
                    v = col.get(k, cfg.nv - cfg.ns + int(k[1:]) if k[0] == "s" else None)
                    wt = rr ** 2 if k == "L" else rr
                    a0, a1, mag = (s.U[..., v] * wt).mean(), (g.U[..., v] * wt).mean(), (np.abs(s.U[..., v]) * wt).mean() + 0.05 * wt.mean()
                    e = abs(a1 - a0) / mag
                    c.maxc("max_" + k.rstrip("01"), float(e))
                    if V and e > 1e-13:
                        print(tag, k, e)
                    if not e < 1e-11:
                        c.violation(f"budget/{name}/{dim}d/{k}", f"{tag}: {k} changes by {e:.3e} of its magnitude in {nst} steps (grid {N})", r)
                c.case(tag)
    return run


B = [("h2", H + " --with-order=2 --with-flux=hllc --with-nscalars=1 " + CY, (1, 2, 3)),
     ("h3", H + " --with-order=3 --with-flux=roe " + CY, (1, 2, 3)),
     ("i2", H + " " + I + " --with-order=2 --with-flux=hlle " + CY, (1, 2, 3)),
     ("m2", "--with-order=2 --with-flux=hlld --with-nscalars=1 " + CY, (1, 2, 3)),
     ("m3", "--with-order=3 --with-flux=roe " + CY, (1, 2, 3)),
     ("mi3", I + " --with-order=3 --with-flux=hlld " + CY, (1, 2, 3)),
     ("hvl", H + " --with-integrator=vl --with-order=2p --with-flux=hllc --with-nscalars=1 " + CY, (1, 2, 3)),
     ("mvl", "--with-integrator=vl --with-order=3p --with-flux=hlld " + CY, (1, 2, 3)),
     ("hf", H + " --with-order=2 --with-flux=hllc --with-nscalars=1 --enable-fargo " + CY, (2, 3)),
     ("mf", "--with-order=2 --with-flux=hlld --enable-fargo " + CY, (2, 3)),
     ("hvf", H + " --with-integrator=vl --with-order=2p --with-flux=hllc --enable-fargo " + CY, (2, 3)),
     ("rot", H + " --with-order=2 --with-flux=hllc --enable-rotating_frame " + CY, (2, 3)),
     ("rotm", "--with-order=3 --with-flux=hlld --enable-rotating_frame " + CY, (2, 3)),
     ("rotf", H + " --with-order=2 --with-flux=hllc --enable-rotating_frame --enable-fargo " + CY, (2, 3)),
     ("mvf", I + " --with-integrator=vl --with-order=2p --with-flux=hlld --enable-fargo " + CY, (2, 3))]
T = []
for n, a, dm in B:
    T += [("smooth-" + n, smooth(n, a, dm))]
    if "fargo" not in a and "rotating" not in a:
        T += [("budget-" + n, budget(n, a, dm))]
c.parallel(T)
c.finish(min_cases=20)
