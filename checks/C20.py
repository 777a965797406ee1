"""C20: explicit diffusion. The change one very short step makes, minus the change the same step makes with vanishing coefficients, is the
discrete diffusion operator; it is compared with the analytic operator (spectral derivatives of the same smooth state) on two grids, and
checked for conservation and for the direction of the heat flow on rough data. Long runs of single modes are compared with the linear theory."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np, ath
from vlib import Check

c = Check("C20", rule="one case = (build, dimension, coefficients, seed): discrete operator against the analytic one on two grids, on rough data for conservation, or a mode's decay against linear theory",
          assumptions=["smooth periodic states for accuracy and decay rates", "single-level Meshes in Cartesian coordinates"])
G = 5 / 3
TINY = 1e-150
H, I = "--with-gas=hydro", "--with-eos=isothermal"


def grad(f, mesh, a):
    ax = 2 - a
    n = f.shape[ax]
    if n == 1:
        return np.zeros_like(f)
    L = mesh.xmax0[a] - mesh.xmin0[a]
    k = 2j * np.pi * np.fft.fftfreq(n, 1.0 / n) / L
    if n % 2 == 0:
        k[n // 2] = 0
    sh = [1, 1, 1]
    sh[ax] = n
    return np.real(np.fft.ifft(np.fft.fft(f, axis=ax) * k.reshape(sh), axis=ax))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def operator(cfg, s, q):
    """analytic time derivative of the conserved variables due to diffusion with coefficients q"""
    m, U = s.mesh, s.U
    W = ath.cons_to_prim(cfg, U, G)
    d, v = U[..., 0], [U[..., 1 + a] / U[..., 0] for a in range(3)]
    out = np.zeros_like(U)
    F = np.zeros((3, 3) + d.shape)   # viscous stress
    Q = np.zeros((3,) + d.shape)     # energy flux (into the cell = + div)
    b = None
    if cfg.mhd:
        ib = cfg.idx("B1c")
        B = [U[..., ib + a] for a in range(3)]
        Bm = np.sqrt(sum(x * x for x in B))
        b = [x / Bm for x in B]
    if q.get("nu_iso") or q.get("nu_aniso"):
        gv = [[grad(v[i], m, j) for j in range(3)] for i in range(3)]
        div = sum(gv[i][i] for i in range(3))
        for i in range(3):
            for j in range(3):
                F[i, j] += q.get("nu_iso", 0) * d * (gv[i][j] + gv[j][i] - (i == j) * 2 / 3 * div)
        if q.get("nu_aniso") and sum(n > 1 for n in m.N) > 1:
            bb = sum(b[i] * b[j] * gv[i][j] for i in range(3) for j in range(3))
            for i in range(3):
                for j in range(3):
                    F[i, j] += q["nu_aniso"] * d * (bb - div / 3) * (3 * b[i] * b[j] - (i == j))
        for i in range(3):
            out[..., 1 + i] += sum(grad(F[i, j], m, j) for j in range(3))
        Q += np.array([sum(v[i] * F[i, j] for i in range(3)) for j in range(3)])
    if not cfg.iso:
        T = ath.cons_to_prim(cfg, U, G)["P"] / d
        gT = [grad(T, m, j) for j in range(3)]
        for j in range(3):
            Q[j] += q.get("kappa_iso", 0) * d * gT[j]
            if q.get("kappa_aniso") and sum(n > 1 for n in m.N) > 1:
                Q[j] += q["kappa_aniso"] * d * b[j] * sum(b[i] * gT[i] for i in range(3))
    if cfg.mhd and (q.get("eta_O") or q.get("Q_H") or q.get("Q_A")):
        gB = [[grad(B[i], m, j) for j in range(3)] for i in range(3)]
        J = [gB[2][1] - gB[1][2], gB[0][2] - gB[2][0], gB[1][0] - gB[0][1]]
        jb = cross(J, b)
        jbb = cross(jb, b)
        E = [q.get("eta_O", 0) * J[i] + q.get("Q_H", 0) * Bm * jb[i] - q.get("Q_A", 0) * Bm ** 2 / d * jbb[i] for i in range(3)]
        gE = [[grad(E[i], m, j) for j in range(3)] for i in range(3)]
        cE = [gE[2][1] - gE[1][2], gE[0][2] - gE[2][0], gE[1][0] - gE[0][1]]
        for i in range(3):
            out[..., ib + i] -= cE[i]
        S = cross(E, B)
        for j in range(3):
            Q[j] -= S[j]
    if not cfg.iso:
        out[..., 4] += sum(grad(Q[j], m, j) for j in range(3))
    return out


ALLQ = ["nu_iso", "nu_aniso", "kappa_iso", "kappa_aniso", "eta_O", "Q_H", "Q_A"]


def allowed(args):
    r = []
    mhd = "hydro" not in args
    if "viscosity" in args:
        r += ["nu_iso"] + (["nu_aniso"] if mhd else [])
    if "conduction" in args:
        r += ["kappa_iso"] + (["kappa_aniso"] if mhd else [])
    if "resistivity" in args:
        r += ["eta_O", "Q_H", "Q_A"]
    return r


def prob(args, q):
    p = {k: q.get(k, 0.0) for k in allowed(args)}
    for grp in (("nu_iso",), ("kappa_iso",), ("eta_O",)):
        for k in grp:
            if k in p and p[k] == 0.0:
                p[k] = TINY
    return p


def step(b, cfg, s, args, q, bc, tag, dt):
    d = c.tmp("i")
    ath.write_init(d + "/init.bin", cfg, [s])
    out = []
    for w in (q, {}):
        inp = ath.base_inp(cfg, s.mesh, d + "/init.bin", bc=bc, nlim=1, tlim=dt, cour=0.4, problem=prob(args, w))
        r = c.run(b, inp)
        if not c.ok_run(r, tag):
            return None
        g = ath.load_all(r.dir)[(0, 0)]
        if abs(g.time - dt) > 1e-9 * dt:
            c.violation(tag + "/dt", f"a run to t={dt} with one step allowed ended at {g.time}", r)
            return None
        out.append(g)
    c.maxc("runs_diffusive", 1)
    return [(x - y) / dt for x, y in zip((out[0].U,) + tuple(out[0].B or ()), (out[1].U,) + tuple(out[1].B or ()))], r


BUILDS = [("hv", H + " --with-order=2 --enable-viscosity --enable-conduction"),
          ("hiv", H + " " + I + " --with-order=2 --with-integrator=vl --with-order=2p --enable-viscosity"),
          ("m", "--with-order=2 --with-flux=hlld --enable-viscosity --enable-conduction --enable-resistivity"),
          ("mi", I + " --with-order=2 --with-flux=hlld --enable-viscosity --enable-resistivity"),
          ("msts", "--with-order=2 --with-flux=hlld --enable-viscosity --enable-conduction --enable-resistivity --enable-sts")]
LIM = {"nu_aniso", "kappa_aniso"}


def sets(args, rng):
    al = allowed(args)
    S = [{k: 10 ** rng.uniform(-2.3, -1)} for k in al]
    S += [{k: 10 ** rng.uniform(-2.3, -1) for k in al}]
    for _ in range(1 if not c.thorough else 4):
        S.append({k: 10 ** rng.uniform(-2.3, -1) for k in al if rng.random() < 0.5} or {al[0]: 0.02})
    return S


def accuracy(name, args, dim):
    def go():
        b = c.build(args)
        if not b.ok:
            c.incon(name + " does not build")
            return
        cfg = ath.Cfg(args)
        rng = np.random.default_rng([c.seed, dim, len(args)])
        for n, q in enumerate(sets(args, rng)):
            tag = f"op/{name}/{dim}d/" + "+".join(q)
            seed = int(rng.integers(1 << 30))
            L = rng.uniform(0.8, 1.3, 3)
            org = rng.uniform(-1, 1, 3)
            act = [a < dim for a in range(3)]
            fl = ath.Flow(cfg, seed, "smooth", act, amp=0.3, mach=0.7, kmax=1)
            errs = []
            lim = bool(LIM & set(q)) and dim > 1
            for base in ((24, 48) if dim < 3 or lim else (16, 32)):
                N = [int(base * f) if a < dim else 1 for a, f in enumerate((1, 1.25, 0.75))]
                m = ath.Mesh(N, org, org + L)
                s = fl.state(m)
                r = step(b, cfg, s, args, q, (4, 4, 4), tag, 1e-7)
                if r is None:
                    return
                num, ex = r[0][0], operator(cfg, s, q)
                sc = np.abs(ex).mean(axis=(0, 1, 2))
                grp = [[0]] + [[1, 2, 3]] + ([[4]] if not cfg.iso else []) + ([[cfg.idx("B1c") + a for a in range(3)]] if cfg.mhd else [])
                norm = (lambda x: np.median(x)) if lim else (lambda x: x.mean())   # the slope limiters clip at extrema only
                errs.append([(norm(np.abs(num - ex)[..., g].mean(axis=-1)), sc[g].mean()) for g in grp])
            names = ["d", "M"] + (["E"] if not cfg.iso else []) + (["B"] if cfg.mhd else [])
            big = 0.0
            for k, nm in enumerate(names):
                (e1, s1), (e2, s2) = errs[0][k], errs[1][k]
                sc = s2
                if sc < 1e-12 * max(x[1] for x in errs[1]) or sc == 0:
                    if e2 > 1e-4 * max(x[1] for x in errs[1]) + 1e-6:
                        c.violation(tag + "/" + nm, f"{tag}: {nm} must not be changed by this diffusion but changes at rate {e2:.3e}", r[1])
                    continue
                if c_verbose:
                    print(tag, nm, "rel err", e1 / s1, e2 / s2, "ratio", e2 / e1)
                c.maxc("max_rel_err_fine", e2 / s2)
                bad = e2 / s2 > (0.2 if lim else 0.08) or e2 / s2 > (0.72 if lim else 0.33) * e1 / s1 + 1e-5
                if bad:
                    c.violation(tag + "/" + nm, f"{tag}: rate of change of {nm} differs from the diffusion operator by {e1/s1:.3e} on the coarse and {e2/s2:.3e} on the fine grid", r[1])
                big = max(big, sc)
            c.case(f"{tag}/{seed}", nontrivial=big > 1e-4, sample={"q": q, "errors": [[float(x[0] / (x[1] or 1)) for x in e] for e in errs]})
    return go


def rough(name, args, dim):
    """conservation and direction of heat flow on cell-to-cell random data, periodic and walls"""
    def go():
        b = c.build(args)
        if not b.ok:
            return
        cfg = ath.Cfg(args)
        rng = np.random.default_rng([c.seed, dim, len(args), 3])
        for n, q in enumerate(sets(args, rng)):
            for bc in ((4, 4, 4), (1, 1, 1)):
                if bc[0] == 1 and (cfg.iso or set(q) - {"kappa_iso", "nu_iso"} or cfg.mhd):
                    continue
                tag = f"rough/{name}/{dim}d/bc{bc[0]}/" + "+".join(q)
                N = [12, 10 if dim > 1 else 1, 8 if dim > 2 else 1]
                L, org = rng.uniform(0.8, 1.3, 3), rng.uniform(-1, 1, 3)
                m = ath.Mesh(N, org, org + L)
                sh = (N[2], N[1], N[0])
                W = {"d": rng.uniform(0.5, 2, sh), "P": rng.uniform(0.5, 2, sh), "v": [rng.uniform(-1, 1, sh) for _ in range(3)], "r": []}
                if cfg.iso:
                    W["P"] = W["d"].copy()
                B = None
                if cfg.mhd:
                    fl = ath.Flow(cfg, int(rng.integers(1 << 30)), "smooth", [a < dim for a in range(3)], kmax=3)
                    B = fl.state(m).B
                    W["b"] = ath.cell_b(m, B)
                s = ath.State(m, ath.prim_to_cons(cfg, W, G, 1.0), B)
                r = step(b, cfg, s, args, q, bc, tag, 1e-7)
                if r is None:
                    return
                D = r[0][0]
                scale = np.abs(D).max(axis=(0, 1, 2))
                tot = D.sum(axis=(0, 1, 2))
                cons = list(range(cfg.nv)) if bc[0] == 4 else ([0, 4] if not cfg.iso else [0])
                for k in cons:
                    rel = abs(tot[k]) / (1e-7 * np.abs(D[..., k]).sum() + 4e-9 * np.abs(s.U[..., k]).sum() + 4e-9)   # round-off of one step over dt
                    c.maxc("max_conservation_defect_over_tol", rel)
                    if rel > 1:
                        c.violation(tag + "/cons", f"{tag}: diffusion changes the total of variable {cfg.names[k]} at rate {tot[k]:.3e} (largest cell rate {scale[k]:.3e})", r[1])
                if bc[0] == 4:   # full-size steps: totals after several of them
                    di = c.tmp("i")
                    ath.write_init(di + "/init.bin", cfg, [s])
                    r2 = c.run(b, ath.base_inp(cfg, m, di + "/init.bin", nlim=4, cour=0.3, problem=prob(args, q)))
                    if c.ok_run(r2, tag + "/full"):
                        U2 = ath.load_all(r2.dir)[(0, 0)].U
                        for k in range(cfg.nv):
                            dif = abs(U2[..., k].sum() - s.U[..., k].sum())
                            if not dif <= 2e-13 * np.abs(s.U[..., k]).sum() + 1e-11:
                                c.violation(tag + "/total", f"{tag}: the total of {cfg.names[k]} changed by {dif:.3e} in 4 steps (sum of magnitudes {np.abs(s.U[..., k]).sum():.3e})", r2)
                if not cfg.iso and set(q) <= {"kappa_iso", "kappa_aniso"}:
                    T = W["P"] / W["d"]
                    for nm, w, sg in (("hottest", T.argmax(), -1), ("coldest", T.argmin(), 1)):
                        dE = D[..., 4].reshape(-1)[w] * sg
                        if dE < -1e-6 * scale[4]:
                            c.violation(tag + "/extremum", f"{tag}: conduction drives the {nm} cell further out ({dE*sg:.3e}, largest cell rate {scale[4]:.3e})", r[1])
                if cfg.mhd and cfg.mhd:
                    dB = r[0][1:]
                    dv = np.zeros(sh)
                    for a in range(3):
                        if N[a] > 1:
                            dv = dv + np.diff(dB[a], axis=2 - a) / m.dx[a]
                    bs = max(np.abs(x).max() for x in dB)
                    if np.abs(dv).max() * min(m.dx[a] for a in range(3) if N[a] > 1) > 1e-6 * bs + 1e-7:
                        c.violation(tag + "/divb", f"{tag}: diffusion changes div B at rate {np.abs(dv).max():.3e} (field rate {bs:.3e})", r[1])
                c.case(tag, nontrivial=scale.max() > 1e-3)
    return go


def decay():
    """single modes against linear theory, with and without super-timestepping"""
    jobs = []
    V, K, R = "--enable-viscosity", "--enable-conduction", "--enable-resistivity"
    for sts in ("", " --enable-sts"):
        jobs += [("shear" + sts[-4:], H + " --with-order=2 --with-flux=hllc " + V + sts, "nu_iso"),
                 ("field" + sts[-4:], "--with-order=2 --with-flux=hlld " + R + sts, "eta_O"),
                 ("heat" + sts[-4:], H + " --with-order=2 --with-flux=hllc " + K + sts, "kappa_iso")]
    return jobs


def mode(name, args, coef):
    def go():
        b = c.build(args)
        if not b.ok:
            c.incon(name + " does not build")
            return
        cfg = ath.Cfg(args)
        rng = np.random.default_rng([c.seed, len(name), len(args), 9])
        for t in range(3 if not c.thorough else 12):
            dim, ax = [(1, 0), (2, 1), (3, 2), (2, 0), (3, 0), (3, 1)][t % 6]
            n = 48
            N = [1, 1, 1]
            for a in range(dim):
                N[a] = n if a == ax else 4
            dif = 10 ** rng.uniform(-2.3, -1.7) if "sts" not in args else 10 ** rng.uniform(-1.2, 0.0)
            L = np.array([N[a] / n if N[a] > 1 else 1.0 for a in range(3)])
            m = ath.Mesh(N, (0, 0, 0), L)
            X = m.grid()[ax]
            k = 2 * np.pi
            eps = 1e-4
            pert = eps * np.sin(k * X + 0.3)
            sh = X.shape
            W = {"d": np.ones(sh), "P": np.full(sh, 1 / G), "v": [np.zeros(sh) for _ in range(3)], "r": []}
            tr = [a for a in range(3) if a != ax]
            comp = tr[t % 2]
            B = None
            if coef == "nu_iso":
                W["v"][comp] = pert
                T = min(0.6 / (dif * k * k), 0.4)
                fac = np.exp(-dif * k * k * T)
            elif coef == "eta_O":
                f = [np.zeros((N[2], N[1], N[0] + 1)), np.zeros((N[2], N[1] + (N[1] > 1), N[0])), np.zeros((N[2] + (N[2] > 1), N[1], N[0]))]
                shp = f[comp].shape
                xs = m.cc(ax).reshape([-1 if 2 - ax == q else 1 for q in range(3)])
                f[comp] = np.broadcast_to(eps * np.sin(k * xs + 0.3), shp).copy()
                B = f
                W["b"] = ath.cell_b(m, B)
                T = min(0.6 / (dif * k * k), 0.4)
                fac = np.exp(-dif * k * k * T)
            else:
                W["d"] = 1 - pert   # isobaric: T perturbation pert
                W["P"] = np.full(sh, 1 / G)
                T = min(0.6 / (dif * (G - 1) / G * k * k), 0.4)
                # linear theory in (rho, i v, P) at wavenumber k; dP/dt = -gamma p ik v + (g-1) kappa rho0 (ik)^2 T', T = P/rho
                import scipy.linalg as sl
                p0 = 1 / G
                M = np.array([[0, -k, 0], [0, 0, k], [(G - 1) * dif * k * k * p0, -G * p0 * k, -(G - 1) * dif * k * k]], float)
                # rho'=-k w, w'= k P (w = i v), P' = -gp k w -(g-1)kap k^2 (P - p0 rho)
                y = sl.expm(M * T) @ np.array([-1.0, 0.0, 0.0])
                fac = y
            d = c.tmp("i")
            ath.write_init(d + "/init.bin", cfg, [ath.State(m, ath.prim_to_cons(cfg, W, G, 1.0), B)])
            inp = ath.base_inp(cfg, m, d + "/init.bin", nlim=200000, tlim=T, cour=0.4, problem={coef: dif})
            r = c.run(b, inp, timeout=600)
            tag = f"mode/{name}/{dim}d/x{ax+1}"
            if not c.ok_run(r, tag):
                return
            g = ath.load_all(r.dir)[(0, 0)]
            U1 = g.U
            nst = g.nstep
            nsts = [int(l.split("=")[1]) for l in r.out.splitlines() if "Next N_STS" in l]
            for q in set(nsts):
                c.count(f"super_steps_N{q}", nsts.count(q))
            sn = np.exp(1j * (k * X + 0.3))

            def amp(f):
                return (f * np.conj(sn)).mean() * 2j
            lamdt = dif * k * k * T / max(nst, 1) if nsts else 0.0
            tol = 0.012 + 0.7 * lamdt
            if coef == "nu_iso":
                got = amp(U1[..., 1 + comp]).real / eps
                ref = fac
            elif coef == "eta_O":
                got = amp(U1[..., cfg.idx("B1c") + comp]).real / eps
                ref = fac
            else:
                got, ref = amp(U1[..., 0]).real / eps, fac[0]
                tol += 0.01
            if c_verbose:
                print(tag, "D", dif, "T", T, "steps", nst, "got", got, "ref", ref, "tol", tol)
            c.maxc("max_decay_error_over_tol", abs(got - ref) / tol)
            if abs(got - ref) > tol:
                c.violation(tag, f"{tag}: amplitude {got:.5f} of the initial one after t={T:.4g} with coefficient {dif:.4g}, linear theory {ref:.5f} (tolerance {tol:.3g}, super-steps {sorted(set(nsts))})", r)
            c.case(f"{tag}/{t}", nontrivial=abs(1 - abs(ref)) > 0.02, sample={"got": float(got), "theory": float(ref)})
    return go


c_verbose = "-v" in sys.argv
T = []
for nm, a in BUILDS:
    for dim in (1, 2, 3):
        T.append((f"op-{nm}{dim}", accuracy(nm, a, dim)))
        T.append((f"rough-{nm}{dim}", rough(nm, a, dim)))
for nm, a, q in decay():
    T.append(("mode-" + nm, mode(nm, a, q)))
c.parallel(T)
c.finish(min_cases=100)
