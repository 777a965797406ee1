"""C17: self-gravity. Offline checker on dumps (density and potential): discrete Poisson residual on rough densities, potential against
analytic ones on refined grids; force and work of one very short step against the analytic ones; momentum and energy budgets of full runs."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np, ath
from vlib import Check

c = Check("C17", rule="one case = (build, dimension, grid shape, decomposition, seed): potential against the discrete Poisson equation or an analytic potential, force and work against -rho grad Phi, momentum and energy budgets",
          assumptions=["mean density given to the code equals the mean of the data (periodic solvers)", "cubic cells for the multigrid and disk solvers"])
G = 5 / 3
V = "-v" in sys.argv
H, I = "--with-gas=hydro", "--with-eos=isothermal"
FFT = " --with-gravity=fft --enable-fft"


def lap(P, m, ghost=False):
    o = np.zeros_like(P)
    for a in range(3):
        if m.N[a] > 1:
            o += (np.roll(P, 1, 2 - a) - 2 * P + np.roll(P, -1, 2 - a)) / m.dx[a] ** 2
    return o


def grad(f, m, a):
    ax = 2 - a
    n = f.shape[ax]
    if n == 1:
        return np.zeros_like(f)
    k = 2j * np.pi * np.fft.fftfreq(n, 1.0 / n) / (m.xmax0[a] - m.xmin0[a])
    if n % 2 == 0:
        k[n // 2] = 0
    sh = [1, 1, 1]
    sh[ax] = n
    return np.real(np.fft.ifft(np.fft.fft(f, axis=ax) * k.reshape(sh), axis=ax))


def spectral_phi(d, m, fpg):
    ks = [2 * np.pi * np.fft.fftfreq(m.N[a], 1.0 / m.N[a]) / (m.xmax0[a] - m.xmin0[a]) for a in range(3)]
    k2 = ks[2][:, None, None] ** 2 * (m.N[2] > 1) + ks[1][None, :, None] ** 2 * (m.N[1] > 1) + ks[0][None, None, :] ** 2
    f = np.fft.fftn(d - d.mean())
    k2[0, 0, 0] = 1
    f = -f / k2 * fpg
    f[0, 0, 0] = 0
    return np.real(np.fft.ifftn(f))


def roughstate(cfg, m, rng):
    sh = (m.N[2], m.N[1], m.N[0])
    W = {"d": rng.uniform(0.3, 2, sh), "P": rng.uniform(0.5, 2, sh), "v": [rng.uniform(-.5, .5, sh) for _ in range(3)], "r": [rng.uniform(0, 1, sh) for _ in range(cfg.ns)]}
    if cfg.iso:
        W["P"] = W["d"].copy()
    B = None
    if cfg.mhd:
        fl = ath.Flow(cfg, int(rng.integers(1 << 30)), "smooth", [n > 1 for n in m.N], kmax=2)
        B = fl.state(m).B
        W["b"] = ath.cell_b(m, B)
    return ath.State(m, ath.prim_to_cons(cfg, W, G, 1.0), B)


def phi_of(g, cfg):
    return g.U[..., cfg.nv]


def go(b, cfg, s, tag, fpg, nlim=2, tlim=1e9, bc=(4, 4, 4), cour=0.3, dec=None, np_=1, prob=None):
    d = c.tmp("i")
    ath.write_init(d + "/init.bin", cfg, [s])
    pr = {"four_pi_G": fpg, "mean_rho": float(s.U[..., 0].mean())}
    pr.update(prob or {})
    ex = {f"NGrid_x{a+1}": dec[a] for a in range(3)} if dec else None
    r = c.run(b, ath.base_inp(cfg, s.mesh, d + "/init.bin", bc=bc, nlim=nlim, tlim=tlim, cour=cour, problem=pr, dom_extra=ex), np=np_, timeout=600)
    if not c.ok_run(r, tag):
        return None, r
    return ath.load_all(r.dir)[(0, 0)], r


def poisson(name, args, dims, decs=(None,)):
    """residual of the discrete equation on cell-to-cell random densities, and no net force"""
    def run():
        b = c.build(args)
        if not b.ok:
            c.incon(name + " does not build")
            return
        cfg = ath.Cfg(args)
        for dim in dims:
            for t in range(2 if not c.thorough else 8):
                rng = np.random.default_rng([c.seed, dim, len(args), t])
                N = [int(rng.choice([8, 10, 12, 16, 15])) if a < dim else 1 for a in range(3)]
                for dec in decs:
                    if dec:
                        N = [int(np.ceil(N[a] / dec[a] / 4) * 4 * dec[a]) if a < dim else 1 for a in range(3)]
                        if dim == 2 and dec[2] > 1:
                            continue
                    L, org = rng.uniform(0.7, 1.4, 3), rng.uniform(-1, 1, 3)
                    m = ath.Mesh(N, org, org + L)
                    s = roughstate(cfg, m, rng)
                    fpg = 10 ** rng.uniform(-0.5, 1)
                    for nlim in (0, 3):
                        tag = f"poisson/{name}/{dim}d/{t}/{dec}/{nlim}"
                        npr = int(np.prod(dec)) if dec else 1
                        g, r = go(b, cfg, s, tag, fpg, nlim=nlim, dec=dec, np_=npr)
                        if g is None:
                            continue
                        P, d = phi_of(g, cfg), g.U[..., 0]
                        src = fpg * (d - s.U[..., 0].mean())
                        res = np.abs(lap(P, m) - src).max() / np.abs(src).max()
                        c.maxc("max_poisson_residual", res)
                        if not res < 1e-10:
                            c.violation(tag.rsplit("/", 3)[0], f"{tag}: Poisson residual {res:.3e} of the source on {N}", r)
                        for k in range(1, 4):
                            dm = abs(g.U[..., k].sum() - s.U[..., k].sum()) / np.abs(s.U[..., k]).sum()
                            c.maxc("max_net_force", dm)
                            if not dm < 1e-11:
                                c.violation(tag.rsplit("/", 3)[0] + "/force", f"{tag}: self-gravity changed total momentum {k} by {dm:.3e} of the sum of magnitudes in {nlim} steps on {N}", r)
                        c.case(tag, nontrivial=nlim > 0 or np.abs(P).max() > 0)
    return run


def force(name, args, dims):
    def run():
        b = c.build(args)
        if not b.ok:
            c.incon(name + " does not build")
            return
        cfg = ath.Cfg(args)
        for dim in dims:
            for t in range(1 if not c.thorough else 4):
                rng = np.random.default_rng([c.seed, dim, len(args), t, 5])
                L, org = rng.uniform(0.8, 1.3, 3), rng.uniform(-1, 1, 3)
                fl = ath.Flow(cfg, int(rng.integers(1 << 30)), "smooth", [a < dim for a in range(3)], amp=0.3, mach=0.7, kmax=1)
                fpg = 10 ** rng.uniform(0.2, 1)
                errs = []
                tag = f"force/{name}/{dim}d/{t}"
                for base in ((24, 48) if dim < 3 else (16, 32)):
                    N = [int(base * f) if a < dim else 1 for a, f in enumerate((1, 1.25, 0.75))]
                    m = ath.Mesh(N, org, org + L)
                    s = fl.state(m)
                    dt = 1e-7
                    g1, r = go(b, cfg, s, tag, fpg, nlim=1, tlim=dt)
                    g0, r0 = go(b, cfg, s, tag, 1e-12, nlim=1, tlim=dt)
                    if g1 is None or g0 is None:
                        return
                    D = (g1.U - g0.U)[..., :cfg.nv] / dt
                    P = spectral_phi(s.U[..., 0], m, fpg)
                    gp = [grad(P, m, a) for a in range(3)]
                    ex = np.zeros_like(D)
                    for a in range(3):
                        ex[..., 1 + a] = -s.U[..., 0] * gp[a]
                    if not cfg.iso:
                        ex[..., 4] = -sum(s.U[..., 1 + a] * gp[a] for a in range(3))
                    groups = [("d", [0]), ("M", [1, 2, 3])] + ([("E", [4])] if not cfg.iso else []) + ([("rest", list(range(5 - cfg.iso, cfg.nv)))] if cfg.nv > 5 - cfg.iso else [])
                    errs.append({n: (np.abs(D - ex)[..., q].mean(), np.abs(ex)[..., q].mean()) for n, q in groups})
                big = errs[1]["M"][1]
                for n in errs[0]:
                    (e1, s1), (e2, s2) = errs[0][n], errs[1][n]
                    if s2 == 0:
                        if e2 > 1e-4 * big:
                            c.violation(tag + "/" + n, f"{tag}: gravity changes {n} at rate {e2:.3e} (force {big:.3e})", r)
                        continue
                    if V:
                        print(tag, n, e1 / s1, e2 / s2, e2 / e1)
                    c.maxc("max_force_error_fine", e2 / s2)
                    if not (e2 / s2 < 0.06 and e2 / s2 < 0.33 * e1 / s1 + 1e-5):
                        c.violation(tag + "/" + n, f"{tag}: rate of change of {n} differs from the gravitational one by {e1/s1:.3e} on the coarse and {e2/s2:.3e} on the fine grid", r)
                c.case(tag, nontrivial=big > 1e-3)
    return run


def budget(name, args, dims):
    """kinetic+internal+magnetic energy gained = gravitational energy lost, to round-off"""
    def run():
        b = c.build(args)
        if not b.ok:
            return
        cfg = ath.Cfg(args)
        for dim in dims:
            rng = np.random.default_rng([c.seed, dim, len(args), 7])
            fl = ath.Flow(cfg, int(rng.integers(1 << 30)), "smooth", [a < dim for a in range(3)], amp=0.5, mach=0.3, kmax=1)
            out = []
            tag = f"budget/{name}/{dim}d"
            for base in ((16, 32, 64) if dim == 2 else (32, 64, 128) if dim == 1 else (12, 24)):
                N = [base if a < dim else 1 for a in range(3)]
                m = ath.Mesh(N, (0, 0, 0), (1, 1, 1))
                s = fl.state(m)
                g0, r = go(b, cfg, s, tag, 20.0, nlim=0)
                g1, r = go(b, cfg, s, tag, 20.0, nlim=100000, tlim=0.2, cour=0.4)
                if g1 is None or g0 is None:
                    return
                E = [g.U[..., 4].mean() for g in (g0, g1)]
                W = [0.5 * (g.U[..., 0] * phi_of(g, cfg)).mean() for g in (g0, g1)]
                out.append((E[1] - E[0] + W[1] - W[0], W[1] - W[0], abs(E[0])))
            e = [abs(x[0]) / x[2] for x in out]
            if V:
                print(tag, out, e)
            c.maxc("max_energy_budget_error", max(e))
            c.case(tag, nontrivial=abs(out[-1][1]) > 1e-4, sample={"errors": [float(x) for x in e]})
            if not max(e) < 1e-11:
                c.violation(tag, f"{tag}: gas energy plus gravitational energy drifts by {e} of the gas energy on refined grids (exchanged: {[x[1] for x in out]})", r)
    return run


def permute(name, args, dims):
    def run():
        b = c.build(args)
        if not b.ok:
            return
        cfg = ath.Cfg(args)
        for dim in dims:
            rng = np.random.default_rng([c.seed, dim, len(args), 11])
            N = [12, 10, 8 if dim > 2 else 1]
            m = ath.Mesh(N, (0, 0, 0), rng.uniform(0.8, 1.2, 3))
            fl = ath.Flow(cfg, int(rng.integers(1 << 30)), "smooth", [a < dim for a in range(3)], amp=0.4, mach=0.5, kmax=2)
            s = fl.state(m)
            for perm in ((1, 0, 2),) if dim == 2 else ((1, 2, 0), (0, 2, 1), (1, 0, 2)):
                q = ath.permute(cfg, s, perm)
                tag = f"permute/{name}/{dim}d/{perm}"
                g1, r1 = go(b, cfg, s, tag, 15.0, nlim=6)
                g2, r2 = go(b, cfg, q, tag, 15.0, nlim=6)
                if g1 is None or g2 is None:
                    return
                back = ath.permute(cfg, ath.rec_state(g1, s.mesh, cfg.nv), perm)
                d = np.abs(back.U - g2.U[..., :cfg.nv]).max() / np.abs(back.U).max()
                c.maxc("max_permutation_difference", d)
                if V:
                    print(tag, d)
                if not d < 1e-11:
                    c.violation(tag, f"{tag}: relabelling the axes changes the self-gravitating evolution by {d:.3e}", r2)
                c.case(tag)
    return run


def isolated(name, args, bc, kind):
    """open-boundary solvers: compact sphere / disk slab against analytic potentials, on two grids"""
    def run():
        b = c.build(args)
        if not b.ok:
            c.incon(name + " does not build")
            return
        cfg = ath.Cfg(args)
        rng = np.random.default_rng([c.seed, len(args), 13])
        fpg = 3.0
        errs = []
        tag = f"isolated/{name}"
        cen = rng.uniform(-0.06, 0.06, 3) * (name != 'mg')  # the multigrid boundary is a monopole at the origin
        for n in ((16, 32) if not c.thorough else (16, 32, 64)):
            m = ath.Mesh((n, n, n), (-.5, -.5, -.5), (.5, .5, .5))
            X = m.grid()
            if kind == "sphere":
                R = 0.3
                r2 = sum((X[a] - cen[a]) ** 2 for a in range(3)) / R ** 2
                rr = np.sqrt(r2)
                d = np.where(r2 < 1, (1 - r2) ** 2, 0.0) + 1e-8
                # M(x) = 4 pi R^3 (x^3/3 - 2x^5/5 + x^7/7); phi = -G M/r outside
                Mx = lambda x: x ** 3 / 3 - 2 * x ** 5 / 5 + x ** 7 / 7
                pot = lambda x: -(1 / 6 + 0 * x) + x ** 2 / 6 - x ** 4 / 10 + x ** 6 / 42  # integral of Mx/x^2 minus the value at infinity
                phi = fpg * R ** 2 * np.where(r2 < 1, pot(rr), -Mx(1.0) / np.maximum(rr, 1e-9))
            else:
                z = X[2]
                h = 0.3
                kx, ky = 2 * np.pi * 1, 2 * np.pi * 1
                f = lambda zz: np.where(np.abs(zz - cen[2]) < h, (1 - ((zz - cen[2]) / h) ** 2) ** 2, 0.0)
                d = f(z) * (1 + 0.5 * np.cos(kx * X[0]) + 0.4 * np.cos(kx * X[0] + ky * X[1] + 0.3)) + 1e-8
                zz = np.linspace(-.5, .5, 4001)
                w = f(zz) * (zz[1] - zz[0])
                zc = m.cc(2)
                I0 = 0.5 * fpg * (np.abs(zc[:, None] - zz) * w).sum(1)
                k1, k2 = kx, np.hypot(kx, ky)
                I1 = -fpg / (2 * k1) * (np.exp(-k1 * np.abs(zc[:, None] - zz)) * w).sum(1)
                I2 = -fpg / (2 * k2) * (np.exp(-k2 * np.abs(zc[:, None] - zz)) * w).sum(1)
                phi = I0[:, None, None] + 0.5 * np.cos(kx * X[0]) * I1[:, None, None] + 0.4 * np.cos(kx * X[0] + ky * X[1] + 0.3) * I2[:, None, None]
            W = {"d": d, "P": np.ones_like(d), "v": [np.zeros_like(d)] * 3, "r": []}
            s = ath.State(m, ath.prim_to_cons(cfg, W, G, 1.0))
            g, r = go(b, cfg, s, tag, fpg, nlim=0 if name != 'mg' else 40, bc=bc, cour=1e-9)
            if g is None:
                return
            P = phi_of(g, cfg)
            diff = P - phi
            diff -= diff.mean()
            e = np.abs(diff).mean() / np.abs(phi - phi.mean()).mean()
            inn = (slice(1, -1),) * 3
            res = (lap(P, m) - fpg * d)[inn]
            errs.append((e, np.abs(res - res.mean()).max() / (fpg * d.max()), res.mean() / (fpg * d.mean())))
        if V:
            print(tag, errs)
        e1, e2 = errs[0][0], errs[-1][0]
        for q, (e, rs, mr) in enumerate(errs):
            c.maxc("max_isolated_error", e)
            tolr = {"obc": 1e-10, "disk": 1e-10, "mg": 1e-5}[name]
            if not (rs < tolr and (abs(mr) < 1e-5 if name != "obc" else abs(mr + 0.125) < 0.01)):
                c.violation(tag + "/residual", f"{tag}: interior Poisson residual {rs:.3e} (uniform part {mr:.4f}) on grid {q}", r)
        if not ((e2 < 0.06) if name == "obc" else (e2 < 0.02 and e2 < 0.4 * e1)):
            c.violation(tag + "/potential", f"{tag}: potential differs from the analytic isolated one by {e1:.3e} and {e2:.3e} on refined grids", r)
        c.case(tag, sample={"errors": [[float(x) for x in y] for y in errs]})
        if name == "mg":
            return
        # the same density split over MPI Grids
        bm = c.build(args + " --enable-mpi")
        if not bm.ok:
            c.incon(name + " with MPI does not build")
            return
        for dec in ((2, 2, 2), (1, 4, 2), (4, 1, 1), (1, 1, 4)):
            t2 = f"{tag}/mpi{dec}"
            gm, rm = go(bm, cfg, s, t2, fpg, nlim=0, bc=bc, dec=dec, np_=int(np.prod(dec)))
            if gm is None:
                continue
            dd = np.abs(phi_of(gm, cfg) - P).max() / np.abs(P).max()
            c.maxc("max_isolated_mpi_difference", dd)
            c.case(t2)
            if not dd < 1e-11:
                c.violation(t2, f"{t2}: potential differs from the single-Grid one by {dd:.3e}", rm)
    return run


T = []
NS = " --with-nscalars=1"
BF = [("h", H + " --with-order=2" + FFT), ("m", "--with-order=2 --with-flux=hlld" + NS + FFT), ("hvl", H + " --with-integrator=vl --with-order=2p" + FFT),
      ("i", I + " " + H + " --with-order=3" + FFT), ("mvl", "--with-integrator=vl --with-order=2p --with-flux=hlld" + FFT)]
for n, a in BF:
    ds = (1, 2, 3)
    T += [("poisson-" + n, poisson(n, a, ds)), ("force-" + n, force(n, a, ds)), ("permute-" + n, permute(n, a, [d for d in ds if d > 1]))]
    if n != "i":
        T.append(("budget-" + n, budget(n, a, ds)))
T.append(("poisson-mpi", poisson("hmpi", H + " --with-order=2 --enable-mpi" + FFT, (2, 3), decs=[(2, 2, 1), (1, 2, 2), (2, 2, 2), (4, 1, 1)])))
T.append(("poisson-mpi1", poisson("hmpi", H + " --with-order=2 --enable-mpi" + FFT, (1,), decs=[(2, 1, 1), (3, 1, 1)])))
for n, a, bc, k in (("obc", H + " --with-order=2 --with-gravity=fft_obc --enable-fft", (2, 2, 2), "sphere"),
                    ("disk", H + " --with-order=2 --with-gravity=fft_disk --enable-fft", (4, 4, 2), "disk"),
                    ("mg", H + " --with-order=2 --with-gravity=multigrid", (1, 1, 1), "sphere")):
    T.append(("isolated-" + n, isolated(n, a, bc, k)))
c.parallel(T)
c.finish(min_cases=40)
