"""C03: convergence to exact solutions. Offline checker: dumps of runs on refined grids against a pseudo-spectral reference solution of the same smooth
nonlinear flow (all directions, all variables), against exact similarity solutions of Riemann problems, and against an exact travelling Alfven wave."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np, ath, configs, gas1d
from spectral import Spectral
from vlib import Check

c = Check("C03", rule="one case = (build, dimension or problem, seed): errors of the final state on two or more grids against an independent exact or spectral reference",
          assumptions=["smooth flows are evolved for a time over which the spectral reference stays resolved (checked)"])
G = 5 / 3
V = "-v" in sys.argv
FC = {}


def reference(cfg, dim, t, key, grav):
    """one spectral reference per physics, dimension and seed"""
    rng = np.random.default_rng([c.seed, dim, t, key])
    L = np.where(np.arange(3) < dim, rng.uniform(0.8, 1.3, 3), 1.0)
    act = [a < dim for a in range(3)]
    fl = ath.Flow(cfg, int(rng.integers(1 << 30)), "smooth", act, amp=0.2, mach=0.5, kmax=1, beta=0.7)
    n = {1: 96, 2: 60, 3: 32}[dim]
    N = [n if a < dim else 1 for a in range(3)]
    S = Spectral(cfg, N, L, G, 1.0)
    f = S.points()
    if grav:
        ga, gp = [[float(y) for y in x] for x in (rng.uniform(0.05, 0.25, 3) * np.array(act), rng.uniform(0, 6.28, 3))]
        S.accel = [ga[a] * 2 * np.pi / L[a] * np.sin(2 * np.pi * f[a] + gp[a]) for a in range(3)]
        S.prob = {"grav": 1, **{f"grav_a{a+1}": ga[a] for a in range(3)}, **{f"grav_k{a+1}": 1 for a in range(3)}, **{f"grav_p{a+1}": gp[a] for a in range(3)}}
    else:
        S.prob = {}
    W = fl.prim(f)
    if cfg.mhd:
        s = fl.bscale * 0.15 * min(L[q] for q in range(dim))
        A = [s * fl.ma[a](*f) for a in range(3)]
        D = lambda q, a: S.deriv(A[q], a)
        b = [D(2, 1) - D(1, 2), D(0, 2) - D(2, 0), D(1, 0) - D(0, 1)]
        W["b"] = [b[a] + fl.b0[a] for a in range(3)]
    U0 = np.moveaxis(ath.prim_to_cons(cfg, W, G, 1.0), -1, 0)
    T = 0.12 if not cfg.sr else 0.2
    U1 = S.evolve(U0, T)
    return S, U0, U1, T, rng


def smooth(name, args, dims):
    def run():
        b = c.build(args)
        if not b.ok:
            c.incon(name + " does not build")
            return
        cfg = ath.Cfg(args)
        order = args.split("--with-order=")[1].split()[0]
        for dim in dims:
            for t in range(1 if not c.thorough else 4):
                grav = not cfg.sr and (len(name) + dim + t) % 2 == 0
                S, U0, U1, T, rng = reference(cfg, dim, t, sum(map(ord, name)), grav)
                tail = S.tail(U1)
                c.maxc("max_reference_tail", tail)
                if not tail < 1e-3:
                    c.count("unresolved_reference")
                    continue
                errs = []
                tag = f"smooth/{name}/{dim}d/{t}{'/grav' if grav else ''}"
                for base in {1: (32, 64), 2: (24, 48), 3: (16, 32)}[dim] + ((64,) if c.thorough and dim == 3 else ()):
                    N = [int(base * q) if a < dim else 1 for a, q in enumerate(((1, 1.25, 0.75), (1.25, 0.75, 1), (0.75, 1, 1.25))[dim % 3])]
                    m = ath.Mesh(N, (0, 0, 0), S.L)
                    A, B = S.athena_state(ath, U0, m)
                    if cfg.mhd:
                        i = 4 if cfg.iso else 5
                        A[..., i:i + 3] = np.stack(ath.cell_b(m, B), axis=-1)
                    d = c.tmp("i")
                    ath.write_init(d + "/init.bin", cfg, [ath.State(m, A, B)])
                    r = c.run(b, ath.base_inp(cfg, m, d + "/init.bin", nlim=100000, tlim=T, cour=0.4, problem=S.prob), timeout=800)
                    if not c.ok_run(r, tag):
                        return
                    g = ath.load_all(r.dir)[(0, 0)]
                    X, _ = S.athena_state(ath, U1, m)
                    e = np.abs(g.U[..., :cfg.nv] - X).mean((0, 1, 2))
                    sc = np.abs(X - A).mean((0, 1, 2))
                    mm = slice(1, 4)
                    sc[mm] = np.maximum(sc[mm], 0.3 * sc[mm].max())
                    if cfg.mhd:
                        mm = slice(4 if cfg.iso else 5, (4 if cfg.iso else 5) + 3)
                        sc[mm] = np.maximum(sc[mm], 0.3 * sc[mm].max())
                    errs.append(e / sc)
                E = np.array(errs)
                rat = E[-1] / np.maximum(E[-2], 1e-12)
                if V:
                    print(tag, "fine", np.round(E[-1], 4), "ratio", np.round(rat, 3), "tail %.1e" % tail, flush=True)
                key = f"order{order}"
                c.maxc("max_fine_error_" + key, float(E[-1].max()))
                c.maxc("max_ratio_" + key, float(rat.max()))
                for v in range(cfg.nv):
                    lim, rl = (0.4, 0.7) if order == "1" else (0.12, 0.62) if "h-corr" in args else (0.07, 0.36)
                    if not (E[-1][v] < lim and (rat[v] < rl or E[-1][v] < 0.004)):
                        c.violation(f"smooth/{name}/{dim}d", f"{tag}: error of {cfg.names[v]} relative to its change is {E[:, v]} on refined grids (order {order})", r)
                        break
                c.case(tag, sample={"fine": [float(x) for x in E[-1]], "ratio": [float(x) for x in rat]})
    return run



# ---------------- Riemann problems and single shocks in one dimension ----------------
def to_W(gas, W):
    """gas1d row -> ath.prim dict columns"""
    d = {"d": W[:, 0], "v": [W[:, 1], W[:, 2], W[:, 3]]}
    d["P"] = W[:, 0] if gas.iso else W[:, 4]
    return d


def boost(W, xi):
    q = 1 / (1 - W[:, 1] * xi)
    lg = np.sqrt(1 - xi * xi)
    o = W.copy()
    o[:, 1] = (W[:, 1] - xi) * q
    o[:, 2], o[:, 3] = W[:, 2] * lg * q, W[:, 3] * lg * q
    return o


def similarity(gas, L, R, xi):
    n = len(xi)
    Ls, Rs = np.repeat(L[None], n, 0), np.repeat(R[None], n, 0)
    if gas.sr:
        xi = np.clip(xi, -0.99, 0.99)
        o, p, v, near, left = gas1d.exact_srh(boost(Ls, xi), boost(Rs, xi), G)
        return boost(o, -xi), left
    Ls[:, 1] -= xi
    Rs[:, 1] -= xi
    if gas.iso:
        D, Vx, _, left = gas1d.exact_iso(Ls, Rs, 1.0)
        o = np.where(left[:, None], Ls, Rs)
    else:
        D, Vx, Q, _, left = gas1d.exact_adb(Ls, Rs, G)
        o = np.where(left[:, None], Ls, Rs)
        o[:, 4] = Q
    o[:, 0], o[:, 1] = D, Vx + xi
    return o, left


def one_shock(gas, A, Bx, comp):
    """fast shock moving to the right into A with density ratio comp: (state behind, speed), from the jump conditions alone"""
    from scipy.optimize import fsolve
    g = 1.0 if gas.iso else G
    U = lambda w: gas.U(w[None], Bx, g)[0]
    F = lambda w: gas.F(w[None], Bx, g)[0]
    eps = 1e-3
    s = gas.speeds(A[None], Bx, g)[1][0]
    n = gas.nw
    # small-amplitude direction from the conserved Jacobian restricted to primitives
    J = np.zeros((n, n))
    K = np.zeros((n, n))
    for q in range(n):
        h = 1e-6
        wp, wm = A.copy(), A.copy()
        wp[q] += h
        wm[q] -= h
        J[:, q] = (F(wp) - F(wm)) / (2 * h)
        K[:, q] = (U(wp) - U(wm)) / (2 * h)
    lam, vec = np.linalg.eig(np.linalg.solve(K, J))
    i = int(np.argmax(lam.real))
    r = vec[:, i].real
    r = r / r[0] * A[0]
    x = np.append(A + eps * r, lam[i].real)
    for e in np.append(np.geomspace(eps, comp - 1, 25), comp - 1):
        def eq(z):
            w, sp = z[:n], z[n]
            return np.append(F(w) - F(A) - sp * (U(w) - U(A)), w[0] - A[0] * (1 + e))
        z, info, ok, msg = fsolve(eq, x, full_output=True, xtol=1e-13)
        if ok != 1 and np.abs(info["fvec"]).max() > 1e-9:
            return None
        x = z
    return x[:n], x[n]


def shocks(name, args):
    def run():
        b = c.build(args)
        if not b.ok:
            return
        cfg = ath.Cfg(args)
        gas = gas1d.Gas(cfg.mhd, cfg.iso, cfg.sr)
        order = args.split("--with-order=")[1].split()[0]
        nt = 3 if not c.thorough else 12
        for t in range(nt):
            rng = np.random.default_rng([c.seed, sum(map(ord, name)), t, 77])
            flip = bool(rng.integers(2))
            vs = 0.35 if cfg.sr else 1.0

            def rnd():
                w = [10 ** rng.uniform(-0.5, 0.5), rng.uniform(-.8, .8) * vs, rng.uniform(-1, 1) * vs, rng.uniform(-1, 1) * vs]
                w += [] if cfg.iso else [10 ** rng.uniform(-0.5, 0.6)]
                return np.array(w + ([rng.uniform(-1, 1), rng.uniform(-1, 1)] if cfg.mhd else []))
            Bx = rng.uniform(0.3, 1) if cfg.mhd else 0.0
            conc = rng.uniform(0, 1, (2, cfg.ns))
            if cfg.mhd:
                R = rnd()
                q = one_shock(gas, R, Bx, rng.uniform(1.3, 2.2))
                if q is None or not np.isfinite(q[0]).all() or (not cfg.iso and q[0][4] <= R[4]):
                    c.count("shock_not_found")
                    continue
                L, sp = q
                lim = max(np.abs(x).max() for x in gas.speeds(np.array([L, R]), Bx, 1.0 if cfg.iso else G))
            else:
                L, R = rnd(), rnd()
                sp = None
                lim = max(np.abs(x).max() for x in gas.speeds(np.array([L, R]), 0.0, 1.0 if cfg.iso else G)) * 1.3
            x0 = 0.5
            T = 0.4 / lim if sp is None else min(0.35 / abs(sp), 0.5 / lim)
            if cfg.sr:
                T = min(T, 0.45)
            if sp is not None:
                x0 = 0.5 - 0.5 * sp * T
            errs = []
            tag = f"shock/{name}/{t}"
            for n in (100, 400):
                m = ath.Mesh((n, 1, 1))
                dx = 1.0 / n

                def prof(time):
                    sub = 8
                    x = (np.arange(n * sub) + 0.5) / (n * sub)
                    if time == 0:
                        left = x < x0
                        w = np.where(left[:, None], L, R)
                    elif sp is not None:
                        w = np.where((x < x0 + sp * time)[:, None], L, R)
                        left = x < x0 + L[1] * time
                    else:
                        w, left = similarity(gas, L, R, (x - x0) / time)
                    d = to_W(gas, w)
                    if cfg.mhd:
                        d["b"] = [Bx + 0 * w[:, 0], w[:, gas.iB], w[:, gas.iB + 1]]
                    d["r"] = [np.where(left, conc[0][q], conc[1][q]) for q in range(cfg.ns)]
                    U = ath.prim_to_cons(cfg, d, G, 1.0)
                    return U.reshape(n, sub, -1).mean(1).reshape(1, 1, n, -1)
                U0, U1 = prof(0.0), prof(T)
                B = None
                if cfg.mhd:
                    i = 4 if cfg.iso else 5
                    B = [np.full((1, 1, n + 1), Bx), U0[..., i + 1].copy(), U0[..., i + 2].copy()]
                s = ath.State(m, U0, B)
                if flip:
                    s = ath.mirror(cfg, s, 0)
                d = c.tmp("i")
                ath.write_init(d + "/init.bin", cfg, [s])
                r = c.run(b, ath.base_inp(cfg, m, d + "/init.bin", bc=(2, 4, 4), nlim=100000, tlim=float(T), cour=0.4), timeout=300)
                if not c.ok_run(r, tag):
                    return
                g = ath.rec_state(ath.load_all(r.dir)[(0, 0)], m, cfg.nv)
                if flip:
                    g = ath.mirror(cfg, g, 0)
                e = np.abs(g.U - U1).mean((0, 1, 2))
                sc = np.abs(U1 - U0).mean((0, 1, 2))
                ref = sc.max()
                errs.append(e / np.maximum(np.maximum(sc, 0.2 * ref), 0.15 * np.ptp(U1, axis=(0, 1, 2))))
            E = np.array(errs)
            rat = E[1] / np.maximum(E[0], 1e-9)
            if V:
                print(tag, "fine", np.round(E[1], 3), "ratio", np.round(rat, 2), flush=True)
            key = f"order{order}"
            c.maxc("max_shock_error_" + key, float(E[1].max()))
            c.maxc("max_shock_ratio_" + key, float(rat.max()))
            for v in range(cfg.nv):
                if not (E[1][v] < (0.3 if order == "1" else 0.15) and (rat[v] < 0.8 or E[1][v] < 0.02)):
                    c.violation(f"shock/{name}", f"{tag}: error of {cfg.names[v]} relative to its change is {E[:, v]} on 100 and 400 cells; left {np.round(L, 3)}, right {np.round(R, 3)}, Bx {Bx:.3f}", r)
                    break
            c.case(tag, sample={"fine": [float(x) for x in E[1]], "ratio": [float(x) for x in rat]})
    return run


T = []
for n, a in configs.SOLVERS:
    T += [("smooth-" + n, smooth(n, a, (1, 2, 3))), ("shock-" + n, shocks(n, a))]
c.parallel(T)
c.finish(min_cases=40)
