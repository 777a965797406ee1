"""C23: cooling and heating. Offline checkers: smooth flows with a linear cooling law against the spectral reference; thousands of isolated cells under the
operator-split interstellar cooling against an ODE solution step by step; the Koyama-Inutsuka rate against its formula and limits."""
import os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np, ath
from spectral import Spectral
from vlib import Check, ENV

c = Check("C23", rule="one case = (build, dimension, seed) compared with the reference on two grids, or one run of many thermally isolated cells followed step by step, or one call of the rate function",
          assumptions=["explicit cooling functions are applied by the CTU integrators only", "operator-split cooling on one level and without scalars (other builds do not compile or are not synchronised)"])
G = 5 / 3
V = "-v" in sys.argv
H = "--with-gas=hydro"


def smooth(name, args, dims):
    def run():
        b = c.build(args, opt="-O1")
        if not b.ok:
            c.incon(name + " does not build")
            return
        cfg = ath.Cfg(args)
        for dim in dims:
            for t in range(1 if not c.thorough else 5):
                rng = np.random.default_rng([c.seed, t, sum(map(ord, name)), dim])
                L = rng.uniform(0.8, 1.3, 3)
                n = {1: 96, 2: 48, 3: 32}[dim]
                S = Spectral(cfg, [n if a < dim else 1 for a in range(3)], L, G, 1.0)
                rate, T0, T = float(rng.uniform(1, 6)), float(rng.uniform(0.3, 1.8)), 0.25
                S.cool = lambda d, P: rate * (P - d * T0) / (G - 1)
                for damp in (1, 0.6, 0.3):
                    fl = ath.Flow(cfg, int(rng.integers(1 << 30)), "smooth", [a < dim for a in range(3)], amp=0.2 * damp, mach=0.5 * damp, kmax=1)
                    f = S.points()
                    W = fl.prim(f)
                    if cfg.mhd:
                        A = [fl.bscale * 0.15 * L[:dim].min() * fl.ma[a](*f) for a in range(3)]
                        D = lambda p, a: S.deriv(A[p], a)
                        bb = [D(2, 1) - D(1, 2), D(0, 2) - D(2, 0), D(1, 0) - D(0, 1)]
                        W["b"] = [bb[a] + fl.b0[a] for a in range(3)]
                    U0 = np.moveaxis(ath.prim_to_cons(cfg, W, G, 1.0), -1, 0)
                    U1 = S.evolve(U0, T)
                    if S.tail(U1) < 1e-3:
                        break
                else:
                    c.count("unresolved_reference")
                    continue
                errs, tag = [], f"smooth/{name}/{dim}d/{t}"
                for base in {1: (32, 64), 2: (24, 48), 3: (16, 32)}[dim]:
                    N = [int(base * k) if a < dim else 1 for a, k in enumerate((1, 1.25, 0.75))]
                    m = ath.Mesh(N, [0, 0, 0], L)
                    A0, B0 = S.athena_state(ath, U0, m)
                    if cfg.mhd:
                        A0[..., 5:8] = np.stack(ath.cell_b(m, B0), axis=-1)
                    d = c.tmp("i")
                    ath.write_init(d + "/init.bin", cfg, [ath.State(m, A0, B0)])
                    r = c.run(b, ath.base_inp(cfg, m, d + "/init.bin", nlim=100000, tlim=T, cour=0.4, problem={"cool": 1, "cool_rate": rate, "cool_T": T0}), timeout=600)
                    if not c.ok_run(r, tag):
                        return
                    X, _ = S.athena_state(ath, U1, m)
                    e = np.abs(ath.load_all(r.dir)[(0, 0)].U[..., :cfg.nv] - X).mean((0, 1, 2))
                    sc = np.abs(X - A0).mean((0, 1, 2))
                    for mm in [slice(1, 4)] + ([slice(5, 8)] if cfg.mhd else []):
                        sc[mm] = np.maximum(sc[mm], 0.3 * sc[mm].max())
                    errs.append(e / sc)
                E = np.array(errs)
                rat = E[1] / np.maximum(E[0], 1e-12)
                if V:
                    print(tag, "fine", np.round(E[1], 4), "ratio", np.round(rat, 3), flush=True)
                c.maxc("max_fine_error", float(E[1].max()))
                c.maxc("max_ratio", float(rat.max()))
                for v in range(cfg.nv):
                    if not (E[1][v] < 0.09 and (rat[v] < 0.6 or E[1][v] < 0.012)):
                        c.violation(f"smooth/{name}/{dim}d", f"{tag}: error of {cfg.names[v]} relative to its change is {E[:, v]} on refined grids (rate {rate:.2f}, T0 {T0:.2f})", r)
                        break
                # a vanishing rate is no cooling at all
                o = [c.run(b, ath.base_inp(cfg, m, d + "/init.bin", nlim=3, cour=0.4, problem=p)) for p in ({"cool": 1, "cool_rate": 0.0, "cool_T": T0}, {})]
                if all(c.ok_run(x, tag) for x in o):
                    df = np.abs(ath.load_all(o[0].dir)[(0, 0)].U - ath.load_all(o[1].dir)[(0, 0)].U).max()
                    if df > 1e-13:
                        c.violation(f"zero/{name}/{dim}d", f"{tag}: a zero cooling rate changes the state by {df:.2e}", o[0])
                c.case(tag)
    return run


# ---- the operator-split solver ----
KB, MH, PC, KMS = 1.380658e-16, 1.6733e-24, 3.085678e18, 1e5
UT = KMS ** 2 * 1.4 * MH / 1.1 / KB
UC = PC / KMS * (G - 1) / KB / 1.1
BR = np.array([4.2, 4.35, 4.9, 5.4, 5.9, 6.25, 6.5, 7.5])
BETA = np.array([0, -1.0, 1.63636, 0.0, -1.92, 0.0, -1.92, -0.34, 0.40])
CC = np.array([0, -17.55, -29.0182, -21.0, -10.632, -21.96, -9.96, -20.23, -25.78])


def lam(T):
    T = np.asarray(T, float)
    lt = np.log10(T)
    k = np.searchsorted(BR, lt, side="right")
    cold = 2e-26 * (1e7 * np.exp(-1.184e5 / (T + 1000)) + 0.014 * np.sqrt(T) * np.exp(-92 / T))
    return np.where(k == 0, cold, 10 ** (CC[k] + BETA[k] * lt))


def ode(T, n, heat, dt, sub=400):
    """exponential-in-log midpoint steps, vectorised over cells"""
    h = dt / sub
    f = lambda T: -UC * (n * lam(np.maximum(T, 1.0)) - heat)
    for _ in range(sub):
        k1 = f(T)
        k2 = f(T + 0.5 * h * k1)
        k3 = f(T + 0.5 * h * k2)
        k4 = f(T + h * k3)
        T = T + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    return T


def split(name, args, dim):
    def run():
        b = c.build(args)
        if not b.ok:
            c.incon(name + " does not build")
            return
        cfg = ath.Cfg(args)
        for t in range(4 if not c.thorough else 16):
            rng = np.random.default_rng([c.seed, t, sum(map(ord, name)), dim])
            N = {1: [400, 1, 1], 2: [24, 20, 1], 3: [12, 10, 8]}[dim]
            sh = (N[2], N[1], N[0])
            heat = float(2e-26 * 10 ** rng.uniform(-1, 1)) if t % 2 == 0 else 0.0
            lo = rng.uniform(1.05, 7)
            n = 10 ** rng.uniform(-0.5, 0.5, sh) if t % 4 == 1 else 10 ** rng.uniform(-2, 3, sh)
            T = 10 ** rng.uniform(lo, lo + 0.8, sh) if t % 4 == 1 else 10 ** rng.uniform(1.05, rng.choice([3.5, 5.0, 7.8]), sh)
            dx, vel = 1e13, 1.0
            if heat:     # gas at rest in pressure balance, a fifth of it in thermal equilibrium: nothing flows although the step is not as tiny
                nT, vel = 10 ** rng.uniform(2.5, 4), 0.0
                T = 10 ** rng.uniform(1.05, 4.6, sh)
                g = np.logspace(1.05, 4.6, 200000)
                eq = g[np.abs(np.log(nT / g * lam(g) / heat)) < 2e-4]
                if len(eq):
                    T = np.where(rng.random(sh) < 0.2, rng.choice(eq, sh), T)
                n = nT / T
                dx = 3e4 * (T / (UC * np.maximum(heat, n * lam(T)))).min() * np.sqrt(G * T / UT).max()
            m = ath.Mesh(N, [0, 0, 0], [float(dx) * (N[a] if N[a] > 1 else 1) for a in range(3)])
            W = {"d": n, "P": n * T / UT, "v": [vel * rng.uniform(-1, 1, sh) * 10 ** rng.uniform(-1, 1, sh) for _ in range(3)], "r": []}
            B = None
            if cfg.mhd:
                B = ath.curl_faces(m, [lambda *x: 0 * x[0]] * 3, rng.uniform(-3, 3, 3))
                W["b"] = ath.cell_b(m, B)
            s = ath.State(m, ath.prim_to_cons(cfg, W, G, 1.0), B)
            d = c.tmp("i")
            ath.write_init(d + "/init.bin", cfg, [s])
            tag = f"split/{name}/{dim}d/{t}"
            ns = 12 if not c.thorough else 60
            r = c.run(b, ath.base_inp(cfg, m, d + "/init.bin", nlim=ns, tlim=1e9, cour=0.3, problem={"heat0": heat / 2.0, "heat_ratio": 2.0, "dumpevery": 1}), timeout=300)
            if not c.ok_run(r, tag):
                return
            U = [s.U]
            tm = [0.0]
            for k in range(1, ns + 1):
                x = ath.load_all(r.dir, f"s{k:06d}")[(0, 0)]
                U.append(x.U[..., :cfg.nv])
                tm.append(x.time)

            def temp(X):
                e = X[..., 4] - 0.5 * (X[..., 1:4] ** 2).sum(-1) / X[..., 0]
                if cfg.mhd:
                    e = e - 0.5 * (X[..., 5:8] ** 2).sum(-1)
                return np.maximum(UT * (G - 1) * e / X[..., 0], 10.0)
            o = [q for q in range(cfg.nv) if q != 4]
            df = np.abs(U[-1] - U[0])[..., o].max() / np.abs(U[0][..., o]).max()
            if df > (1e-3 if heat else 1e-7):
                c.violation(f"split/{name}/{dim}d/other", f"{tag}: cooling of isolated cells changes mass, momentum or field by {df:.2e}", r)
            ts = read_dts(r, cfg)
            for k in range(ns):
                T0, T1 = temp(U[k]), temp(U[k + 1])
                Te = np.maximum(ode(T0, U[k][..., 0], heat, ts[k]), 10.0)
                dT = np.abs(Te - T0)
                # noise of the temperature recovered from the total energy
                tiny = 1e-12 * UT * (G - 1) * np.abs(U[k][..., 4]) / U[k][..., 0] + (1e-4 if heat else 1e-7) * T0
                lo, hi = np.log10(np.minimum(np.minimum(T0, T1), Te)), np.log10(np.maximum(np.maximum(T0, T1), Te))
                cross = np.zeros(sh, bool)
                for q in BR:
                    cross |= (lo <= q + 0.02) & (hi >= q - 0.02)
                bad = ~cross & (np.abs(T1 - Te) > 0.3 * dT + 1e-5 * T0 * (dT > 1e-4 * T0) + tiny)
                c.count("cells_followed", int((~cross).sum()))
                c.count("cells_with_visible_change", int((~cross & (dT > 10 * tiny)).sum()))
                c.maxc("max_relative_change", float((np.abs(T1 - T0) / T0).max()))
                if V and k == ns - 1:
                    print(tag, "dt", ts[k], "max dev", float((np.abs(T1 - Te) / (dT + tiny))[~cross].max()), "change", float((np.abs(T1 - T0) / T0).max()))
                if bad.any():
                    ix = tuple(np.argwhere(bad)[0])
                    c.violation(f"split/{name}/{dim}d/rate", f"{tag}: step {k}: T {T0[ix]:.6g} -> {T1[ix]:.6g} K at n={U[k][ix][0]:.4g}, the rate gives {Te[ix]:.6g} K (dt {ts[k]:.3g}; {int(bad.sum())} cells)", r)
                    break
                if not np.isfinite(T1).all() or ((T1 < 10 * (1 - 1e-6)) & (T1 < T0)).any():
                    c.violation(f"split/{name}/{dim}d/floor", f"{tag}: step {k}: temperature {np.nanmin(T1)} K below the floor", r)
                    break
                # the timestep is limited so that no cell changes by more than a tenth
                if (np.abs(T1 - T0) > 0.1001 * T0).any():
                    c.violation(f"split/{name}/{dim}d/step", f"{tag}: step {k}: temperature changes by {(np.abs(T1 - T0) / T0).max():.3f} of itself in one step", r)
                    break
            c.case(tag, sample={"steps": ns, "cells": int(np.prod(sh))})
    return run


def read_dts(r, cfg):
    ev = [x for x in ath.read_mon(r.dir, cfg.nv) if x["ev"] == "step"]
    t = [0.0] + [x["t"] for x in ev]
    return np.diff(t)


def rate():
    b = c.build(H + " --with-order=2")
    h = c.harness(b, ["cool_h.c"])
    rng = np.random.default_rng([c.seed, 99])
    M = 4000 if not c.thorough else 100000
    mb = 1.37 * 1.6733e-24
    n, T, dt = 10 ** rng.uniform(-2, 4.5, M), 10 ** rng.uniform(1.02, 6, M), 10 ** rng.uniform(6, 16, M)
    d, P = n * mb, n * KB * T
    p = subprocess.run([h], input="\n".join(f"{float(a)!r} {float(x)!r} {float(y)!r}" for a, x, y in zip(d, P, dt)), capture_output=True, text=True, env=ENV)
    R = np.array([float(x) for x in p.stdout.split()])
    if len(R) != M:
        c.violation("rate/crash", f"the rate function stopped after {len(R)} of {M} calls: {p.stderr[-200:]}")
        return
    full = 2e-26 * (n * (1e7 * np.exp(-1.184e5 / (T + 1000)) + 0.014 * np.sqrt(T) * np.exp(-92 / T)) - 1)
    dT = full * dt * (G - 1) / KB
    # far from the floor and from the cold branch the rate is the published one
    free = (T - dT > 200) & (full * dt * (G - 1) / KB < 0.9 * (T - 10))
    e = np.abs(R / n - full)[free] / np.abs(full[free]).clip(2e-27)
    T1 = T - R / n * dt * (G - 1) / KB
    c.count("rates_compared", int(free.sum()))
    if e.max() > 1e-9:
        k = np.flatnonzero(free)[e.argmax()]
        c.violation("rate/value", f"rate at n={n[k]:.4g} cm^-3, T={T[k]:.4g} K is {R[k] / n[k]:.4g} erg/s per particle, the formula gives {full[k]:.4g}")
    bad = ~np.isfinite(R) | (T1 < -1e-9 * T)
    if bad.any():
        k = int(np.argmax(bad))
        c.violation("rate/positive", f"n={n[k]:.4g}, T={T[k]:.4g} K, dt={dt[k]:.4g} s: the rate {R[k]:.4g} takes the temperature to {T1[k]:.4g} K")
    for k in range(M):
        c.case(f"rate/{k}", nontrivial=bool(free[k]) or R[k] != 0)
    c.maxc("max_rate_error", float(e.max()))


T = [("rate", rate)]
for n, a, dm in [("h2", H + " --with-order=2 --with-flux=hllc --with-nscalars=1", (1, 2, 3)), ("h3", H + " --with-order=3 --with-flux=roe", (1, 2, 3)),
                 ("m2", "--with-order=2 --with-flux=hlld", (1, 2, 3)), ("m3", "--with-order=3 --with-flux=roe", (1, 2, 3))]:
    T.append(("smooth-" + n, smooth(n, a, dm)))
for n, a in [("h", H + " --with-order=2 --enable-cooling"), ("m", "--with-order=2 --with-flux=hlld --enable-cooling"), ("hvl", H + " --with-integrator=vl --with-order=2p --enable-cooling")]:
    for dim in (1, 2, 3):
        T.append((f"split-{n}-{dim}", split(n, a, dim)))
c.parallel(T)
c.finish(min_cases=20)
