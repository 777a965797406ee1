"""C18: shearing box. Offline checkers on dumps: smooth nonlinear flows against a pseudo-spectral reference in shearing coordinates, on two grids; exact
budgets (mass, scalars, mean field, div B, mean momentum on an epicycle) over long rough runs, with and without orbital advection."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np, ath
from spectral import ShearSpectral
from vlib import Check

c = Check("C18", rule="one case = (build, box, seed): final state on two grids against the spectral reference, or budgets of one long run",
          assumptions=["radial boundaries are the shearing-periodic ones", "x1 = 0 in the middle of the box"])
G = 5 / 3
V = "-v" in sys.argv
H, I = "--with-gas=hydro", "--with-eos=isothermal"


def to_athena(cfg, S, U, m, t, fargo):
    """perturbation variables -> the code's variables"""
    A = np.stack([S.sample_t(x, m.N, t) for x in U], axis=-1)
    B = None
    i = 4 if cfg.iso else 5
    if cfg.mhd:
        B = [S.sample_t(U[i + a], m.N, t, "".join("f" if q == a and S.N[a] > 1 else "c" for q in range(3))) for a in range(3)]
        A[..., i:i + 3] = np.stack(ath.cell_b(m, B), axis=-1)
    if not fargo:
        vk = -S.q * S.Om * m.grid()[0]
        if not cfg.iso:
            A[..., 4] += vk * A[..., 1 + S.ay] + 0.5 * A[..., 0] * vk ** 2
        A[..., 1 + S.ay] += A[..., 0] * vk
    return A, B


def smooth(name, args, boxes):
    def run():
        b = c.build(args, opt='-O1')
        if not b.ok:
            c.incon(name + " does not build")
            return
        cfg = ath.Cfg(args)
        fargo = "fargo" in args
        for box in boxes:
            for t in range(1 if not c.thorough else 4):
                rng = np.random.default_rng([c.seed, t, sum(map(ord, name + box))])
                dim = 3 if box == "3d" else 2
                ay = 2 if box == "xz" else 1
                q, Om = rng.uniform(1, 1.7), rng.uniform(0.7, 1.4)
                L = rng.uniform(0.8, 1.3, 3)
                wrap = ay == 1 and bool(rng.integers(2))
                if wrap:
                    L[1] = 0.35 * L[0]
                act = [a < dim for a in range(3)]
                n = {2: 60, 3: 36}[dim]
                S = ShearSpectral(cfg, [n if a < dim else 1 for a in range(3)], L, q, Om, -0.5 * L[0], ay, gamma=G, cs=1.0)
                T = 1.15 * L[1] / (q * Om * L[0]) if wrap else 0.2   # images slide by more than a whole box
                for damp in ((0.5, 0.25, 0.12) if wrap else (1, 0.6, 0.3)):
                    fl = ath.Flow(cfg, int(rng.integers(1 << 30)), "smooth", act, amp=0.2 * damp, mach=0.5 * damp, kmax=1, beta=0.7 / damp, mean_v=bool(rng.integers(2)))
                    f = S.points()
                    W = fl.prim(f)
                    if cfg.mhd:
                        s = fl.bscale * 0.15 * min(L[a] for a in range(dim))
                        A = [s * fl.ma[a](*f) for a in range(3)]
                        D = lambda p, a: S.deriv(A[p], a)
                        bb = [D(2, 1) - D(1, 2), D(0, 2) - D(2, 0), D(1, 0) - D(0, 1)]
                        W["b"] = [bb[a] + fl.b0[a] for a in range(3)]
                    U0 = np.moveaxis(ath.prim_to_cons(cfg, W, G, 1.0), -1, 0)
                    U1 = S.evolve(U0, T)
                    tail = S.tail(U1)
                    if tail < 1e-3:
                        break
                    c.count("unresolved_reference")
                else:
                    continue
                errs = []
                tag = f"smooth/{name}/{box}/{t}"
                for base in ((24, 48) if dim == 2 else (16, 32)):
                    N = [int(base * k) if a < dim else 1 for a, k in enumerate((1, 1.25, 0.75))]
                    m = ath.Mesh(N, -0.5 * L, 0.5 * L)
                    A0, B0 = to_athena(cfg, S, U0, m, 0.0, fargo)
                    d = c.tmp("i")
                    ath.write_init(d + "/init.bin", cfg, [ath.State(m, A0, B0)])
                    pr = {"omega": float(Om), "qshear": float(q), "xz": int(box == "xz")}
                    r = c.run(b, ath.base_inp(cfg, m, d + "/init.bin", nlim=100000, tlim=float(T), cour=0.4, problem=pr), timeout=800)
                    if not c.ok_run(r, tag):
                        return
                    g = ath.load_all(r.dir)[(0, 0)]
                    X, _ = to_athena(cfg, S, U1, m, T, fargo)
                    e = np.abs(g.U[..., :cfg.nv] - X).mean((0, 1, 2))
                    sc = np.abs(X - A0).mean((0, 1, 2))
                    for mm in [slice(1, 4)] + ([slice(4 if cfg.iso else 5, (4 if cfg.iso else 5) + 3)] if cfg.mhd else []):
                        sc[mm] = np.maximum(sc[mm], 0.3 * sc[mm].max())
                    errs.append(e / sc)
                E = np.array(errs)
                rat = E[1] / np.maximum(E[0], 1e-12)
                if V:
                    print(tag, "fine", np.round(E[1], 4), "ratio", np.round(rat, 3), "tail %.0e" % tail, "wrap" if wrap else "", flush=True)
                c.maxc("max_fine_error", float(E[1].max()))
                c.maxc("max_ratio", float(rat.max()))
                for v in range(cfg.nv):
                    if not ((E[1][v] < 0.09 or E[1][v] < 0.25 and rat[v] < 0.33) and (rat[v] < 0.55 or E[1][v] < 0.006)):
                        c.violation(f"smooth/{name}/{box}", f"{tag}: error of {cfg.names[v]} relative to its change is {E[:, v]} on refined grids (images slide by {q * Om * L[0] * T / L[1]:.2f} boxes)", r)
                        break
                c.case(tag, sample={"fine": [float(x) for x in E[1]], "ratio": [float(x) for x in rat]})
    return run


def budget(name, args, boxes):
    def run():
        b = c.build(args)
        if not b.ok:
            c.incon(name + " does not build")
            return
        cfg = ath.Cfg(args)
        fargo = "fargo" in args
        for box in boxes:
            for t in range(1 if not c.thorough else 4):
                rng = np.random.default_rng([c.seed, t, sum(map(ord, name + box)), 5])
                dim = 3 if box == "3d" else 2
                ay = 2 if box == "xz" else 1
                q, Om = float(rng.uniform(1, 1.7)), float(rng.uniform(0.7, 1.4))
                N = [int(rng.integers(8, 15)), int(rng.integers(8, 15)), int(rng.integers(6, 11)) if dim == 3 else 1]
                L = rng.uniform(0.8, 1.3, 3)
                m = ath.Mesh(N, -0.5 * L, 0.5 * L)
                fl = ath.Flow(cfg, int(rng.integers(1 << 30)), ["smooth", "shock"][int(rng.integers(2))], [n > 1 for n in N], amp=0.3, mach=0.5, kmax=1)
                s = fl.state(m)
                x = m.grid()[0]
                if not fargo:
                    vk = -q * Om * x
                    if not cfg.iso:
                        s.U[..., 4] += vk * s.U[..., 1 + ay] + 0.5 * s.U[..., 0] * vk ** 2
                    s.U[..., 1 + ay] += s.U[..., 0] * vk
                d = c.tmp("i")
                ath.write_init(d + "/init.bin", cfg, [s])
                res = []
                tag = f"budget/{name}/{box}/{t}"
                tl = 1.0 if not c.thorough else 4.0
                r = c.run(b, ath.base_inp(cfg, m, d + "/init.bin", nlim=100000, tlim=tl, cour=0.3, problem={"omega": Om, "qshear": q, "xz": int(box == "xz")}), timeout=800)
                if not c.ok_run(r, tag):
                    return
                g = ath.load_all(r.dir)[(0, 0)]
                tt = g.time
                mean = lambda U: U[..., :cfg.nv].mean((0, 1, 2))
                a0, a1 = mean(s.U), mean(g.U)
                mag = np.abs(s.U).mean((0, 1, 2))

                def mom(U):
                    My = U[..., 1 + ay] + (0 if fargo else U[..., 0] * q * Om * x)
                    return np.array([U[..., 1].mean(), My.mean(), U[..., 3 - (ay == 2)].mean()])
                p0, p1 = mom(s.U), mom(g.U)
                kap = Om * np.sqrt(2 * (2 - q))
                ex = [p0[0] * np.cos(kap * tt) + 2 * Om / kap * p0[1] * np.sin(kap * tt), p0[1] * np.cos(kap * tt) - (2 - q) * Om / kap * p0[0] * np.sin(kap * tt), p0[2]]
                out = {"mass": abs(a1[0] - a0[0]) / mag[0], "epicycle": np.hypot(p1[0] - ex[0], p1[1] - ex[1]) / max(np.hypot(p0[0], p0[1]), 0.02), "Mz": abs(p1[2] - ex[2]) / mag[1:4].max()}
                for k in range(cfg.ns):
                    j = cfg.nv - cfg.ns + k
                    out[f"s{k}"] = abs(a1[j] - a0[j]) / mag[j]
                if cfg.mhd:
                    i = 4 if cfg.iso else 5
                    bm = np.abs(s.U[..., i:i + 3]).mean()
                    cut = [np.s_[:, :, :-1], np.s_[:, :-1] if N[1] > 1 else np.s_[:], np.s_[:-1] if N[2] > 1 else np.s_[:]]
                    mb = lambda B: np.array([B[a][cut[a]].mean() for a in range(3)])
                    b0, b1 = mb(s.B), mb(g.B)
                    az = 3 - ay
                    out["Bx"] = abs(b1[0] - b0[0]) / bm
                    out["Bz"] = abs(b1[az] - b0[az]) / bm
                    out["By"] = abs(b1[ay] - (b0[ay] - q * Om * b0[0] * tt)) / bm
                    dv = 0
                    for a in range(3):
                        if N[a] > 1:
                            dv = dv + np.diff(g.B[a], axis=2 - a) / m.dx[a]
                    out["div"] = np.abs(dv).max() * m.dx.min() / bm
                if V:
                    print(tag, {k: "%.1e" % v for k, v in out.items()}, flush=True)
                for k, v in out.items():
                    c.maxc("max_" + k.rstrip("01"), float(v))
                    lim = {"epicycle": 0.01 if dim == 3 else 0.03, "By": 0.02}.get(k, 1e-10 if k == "div" or dim == 3 else 0.01)   # the remap of the fluxes at the radial boundaries is 3D only
                    lim = 0.01 if k[0] == "s" else lim
                    if not v < lim:
                        c.violation(f"budget/{name}/{box}/{k}", f"{tag}: {k} off by {v:.3e} at t={tt:.3f} (grid {N}, q={q:.3f}, Omega={Om:.3f})", r)
                c.case(tag)
    return run


SH = " --enable-shearing-box"
B = [("i2", H + " " + I + " --with-order=2 --with-nscalars=1" + SH, ("xy", "xz", "3d")),
     ("h3", H + " --with-order=3 --with-flux=hllc" + SH, ("xy", "xz", "3d")),
     ("m", "--with-order=2 --with-flux=hlld --with-nscalars=1" + SH, ("xy", "xz", "3d")),
     ("mi3", I + " --with-order=3 --with-flux=roe" + SH, ("xz", "3d")),
     ("i2f", H + " " + I + " --with-order=2 --with-nscalars=1" + SH + " --enable-fargo", ("xy", "3d")),
     ("h3f", H + " --with-order=3 --with-flux=hllc" + SH + " --enable-fargo", ("xy", "3d")),
     ("mf", "--with-order=2 --with-flux=hlld --with-nscalars=1" + SH + " --enable-fargo", ("xy", "3d")),
     ("mi3f", I + " --with-order=3 --with-flux=hlld" + SH + " --enable-fargo", ("3d",)),
     ("mivl", I + " --with-integrator=vl --with-order=2p --with-flux=hlld" + SH, ("xz", "3d")),
     ("hvl", H + " --with-integrator=vl --with-order=2p --with-flux=hllc --with-nscalars=1" + SH, ("xz", "xy", "3d"))]
T = []
for n, a, bx in B:
    T += [("smooth-" + n, smooth(n, a, bx)), ("budget-" + n, budget(n, a, bx))]
c.parallel(T)
c.finish(min_cases=20)
