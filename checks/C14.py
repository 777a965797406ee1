"""C14: particles are neither lost nor duplicated, obey their equation of motion, and feedback conserves momentum.
Every step's particles and gas are dumped at the moment outputs are taken (after the boundary conditions) and walked through pairwise."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np, ath
from vlib import Check

c = Check("C14", rule="one case = (configuration, dimension, boundary set, particle population, decomposition); non-trivial if at least one particle crossed a boundary or Grid face, or its velocity changed by drag, and every step was judged",
          assumptions=["particles move less than a cell per step (enforced by the timestep)", "velocity oracle: exact relaxation in the gas interpolated at the mid-point (average of the states before and after the step), with truncation-error tolerance",
                       "particles leaving an open boundary may be kept until they are nghost-1 cells outside"])
H, I = "--with-gas=hydro", "--with-eos=isothermal"
NG = 4


def steps_of(d):
    tags = sorted({re.search(r"dump\.(out\d+)\.", p)[1] for p in ath.find(d, "dump.out*.bin")})
    out = []
    for t in tags:
        A = ath.load_all(d, t)
        L = ath.read_ledger(d, t)
        out.append((t, A[(0, 0)], L))
    return out


def weights(interp, x, x0, dx, n):
    """1D stencil: indices and weights of the cells that contribute at position x"""
    a = (x - x0) / dx
    if interp == 1:
        i = int(np.floor(a - 0.5))
        f = a - 0.5 - i
        return [i, i + 1], [1 - f, f]
    i = int(np.floor(a))
    d = a - i
    if interp == 2:
        return [i - 1, i, i + 1], [0.5 * (1 - d) ** 2, 0.75 - (d - 0.5) ** 2, 0.5 * d ** 2]
    return [i - 1, i, i + 1], [0.5 * (0.5 - d) * (1.5 - d), 1 - (d - 0.5) ** 2, 0.5 * (d - 0.5) * (d + 0.5)]


def gas_at(cfg, g0, g1, m, interp, x, gamma):
    """interpolated density, velocity, sound speed of the time-centred gas"""
    ws = [weights(interp, x[a], m.xmin0[a], m.dx[a], m.N[a]) if m.act(a) else ([0], [1.0]) for a in range(3)]
    r = np.zeros(5)
    tch = 0.0
    vals = []
    for kk, wk in zip(*ws[2]):
        for jj, wj in zip(*ws[1]):
            for ii, wi in zip(*ws[0]):
                q = (kk % m.N[2], jj % m.N[1], ii % m.N[0])
                U = 0.5 * (g0.U[q] + g1.U[q])
                v = U[1:4] / U[0]
                if cfg.iso:
                    cs = 1.0
                else:
                    e = U[4] - 0.5 * U[0] * (v @ v)
                    if cfg.mhd:
                        b = U[cfg.idx("B1c"):cfg.idx("B1c") + 3]
                        e -= 0.5 * (b @ b)
                    cs = np.sqrt(gamma * (gamma - 1) * e / U[0])
                r += wi * wj * wk * np.array([U[0], *v, cs])
                vals.append(v)
                tch = max(tch, float(np.max(np.abs(g1.U[q][1:4] / g1.U[q][0] - g0.U[q][1:4] / g0.U[q][0]))))
    vals = np.array(vals)
    return r[0], r[1:4], r[4], float(np.max(vals.max(0) - vals.min(0))) + tch


def stop_time(case, t, rho, cs, vd):
    if case["tsmode"] == 3:
        return case["tstop"][t]
    if case["tsmode"] == 2:
        return case["grrhoa"][t] / (rho * cs)
    alam = case["alam"] * case["prad"][t] * rho
    if alam < 2.25:
        return case["grrhoa"][t] / (rho * cs)
    Re = 4 * alam * vd / cs
    CD = 24 / Re if Re < 1 else 24 * Re ** -0.6 if Re < 800 else 0.44
    return case["grrhoa"][t] / (rho * vd * CD)


def population(rng, m, n, v, edge):
    ps = []
    lo, hi = m.xmin0, m.xmax0
    for i in range(n):
        x = [rng.uniform(lo[a], hi[a]) if m.act(a) else 0.5 * (lo[a] + hi[a]) for a in range(3)]
        ps.append([x, rng.normal(size=3) * v])
    for s in range(2 ** 3):                 # towards every corner, close to it
        sg = [1 if s >> a & 1 else -1 for a in range(3)]
        for f in (0.05, 0.3):
            x = [(hi[a] - f * m.dx[a] if sg[a] > 0 else lo[a] + f * m.dx[a]) if m.act(a) else 0.5 * (lo[a] + hi[a]) for a in range(3)]
            ps.append([x, np.array([sg[a] * v * rng.uniform(0.8, 2.2) for a in range(3)])])
    if edge:                                # on the very edge, hardly moving
        for a in range(3):
            if not m.act(a):
                continue
            up = hi[a] - 12 * np.spacing(max(abs(lo[a]), abs(hi[a])))     # Grids know their upper edge only to round-off
            for x, w in ((lo[a], -1e-18), (lo[a], -3e-15), (lo[a], 0.0), (up, 1e-18), (up, 1e-13), (up, 2e-12), (lo[a] + 4 * m.dx[a], -1e-17), (0.5 * (lo[a] + hi[a]), 1e-17)):
                xx = [rng.uniform(lo[b], hi[b]) if m.act(b) else 0.5 * (lo[b] + hi[b]) for b in range(3)]
                vv = rng.normal(size=3) * v
                xx[a], vv[a] = float(x), w
                ps.append([xx, vv])
    return ps


def mk(cfg, case, m, st, ps, steps, bc, dec, extra=None, omega=None):
    d = c.tmp("i")
    ath.write_init(d + "/init.bin", cfg, [st])
    ath.write_particles(d + "/p.bin", [(i, i % 2, x, v) for i, (x, v) in enumerate(ps)])
    pr = {"mon": 0, "usrdump": 1, "part_file": d + "/p.bin"}
    for t in range(2):
        pr[f"tstop{t}"], pr[f"grrhoa{t}"], pr[f"prad{t}"] = case["tstop"][t], case["grrhoa"][t], case["prad"][t]
        if cfg.feedback:
            pr[f"pmass{t}"] = case["pmass"][t]
    pr["alamcoeff"] = case["alam"]
    pr.update(extra or {})
    inp = ath.base_inp(cfg, m, d + "/init.bin", bc=bc, nlim=steps, cour=case.get("cour", 0.35), gamma=case["gamma"], problem=pr, outputs=[{"name": "usrout", "dt": 1e-9}],
                       dom_extra={f"NGrid_x{a+1}": dec[a] for a in range(3)} if dec else None)
    inp["particle"] = {"partypes": 2, "parnumgrid": case.get("num", 40), "integrator": case["integ"], "interp": case["interp"], "tsmode": case["tsmode"]}
    if case.get("shuf"):
        inp["particle"]["tshuf"] = case["shuf"]
    return inp


def ident(q, decs):
    return (int(q["id"]), int(q["init"]))


def collect(key, tag, L, r, root, dec, N):
    """{identity: record}; each particle once, on the process that owns its position"""
    got = {}
    for st, rk, arr in L:
        for q in arr:
            k = ident(q, dec)
            if k in got:
                c.violation(key + "/duplicate", f"{tag}: particle {k} is present twice", r)
            if q["pos"] not in (0, 1):
                c.violation(key + "/status", f"{tag}: particle {k} has status {q['pos']} between steps", r)
            got[k] = (q, rk)
    return got


def walk(key, cfg, case, m, bc, dec, r, full=True):
    S = steps_of(r.dir)
    if len(S) < 3:
        c.violation(key + "/nosteps", "fewer than three steps recorded", r)
        return None
    L = m.xmax0 - m.xmin0
    prev = None
    cross = lost = judged = 0
    dvmax = 0.0
    worst = 0.0
    f = np.array([case.get("force", (0, 0, 0))[a] for a in range(3)], float)
    grids = None
    if dec:
        grids = {}
        for rk in range(int(np.prod(dec))):
            pass
    for n, (tag, g, led) in enumerate(S):
        cur = collect(key, tag, led, r, m, dec, m.N)
        for k, (q, rk) in cur.items():
            for a in range(3):
                if not m.act(a):
                    continue
                lo, hi = m.xmin0[a], m.xmax0[a]
                if bc[a][0] == 2:
                    lo -= NG * m.dx[a]
                if bc[a][1] == 2:
                    hi += NG * m.dx[a]
                if not (lo - 1e-13 <= q["x"][a] <= hi + 1e-13):
                    c.violation(key + "/outside", f"{tag}: particle {k} at {q['x']} is outside the mesh", r)
            if not np.isfinite(q["x"]).all() or not np.isfinite(q["v"]).all():
                c.violation(key + "/nan", f"{tag}: particle {k} has non-finite data", r)
        if dec:     # ownership
            for k, (q, rk) in cur.items():
                own = []
                for a in range(3):
                    n0, e = divmod(m.N[a], dec[a])
                    w = [n0 + (1 if i < e else 0) for i in range(dec[a])]
                    b = np.cumsum([0] + w)
                    p = (q["x"][a] - m.xmin0[a]) / m.dx[a] if m.act(a) else 0.0
                    own.append({i for i in range(dec[a]) if (b[i] - 1e-9 <= p <= b[i + 1] + 1e-9) or (i == 0 and p < 0) or (i == dec[a] - 1 and p > m.N[a])})
                ranks = {(kz * dec[1] + jy) * dec[0] + ix for ix in own[0] for jy in own[1] for kz in own[2]}
                if rk not in ranks and sorted(w) == sorted(w, reverse=True):
                    c.violation(key + "/owner", f"{tag}: particle {k} at {q['x']} is held by process {rk}, not {sorted(ranks)}", r)
        if prev is not None:
            pg, pcur = prev
            dt = g.time - pg.time
            for k, (q, rk) in pcur.items():
                t = int(q["type"])
                x0, v0 = q["x"].copy(), q["v"].copy()
                if k not in cur:
                    # may only vanish through an open boundary: even a slow particle must end up outside
                    X = x0 + dt * v0
                    out = [a for a in range(3) if m.act(a) and ((bc[a][0] == 2 and X[a] < m.xmin0[a] + 0.3 * m.dx[a]) or (bc[a][1] == 2 and X[a] > m.xmax0[a] - 0.3 * m.dx[a]))]
                    lost += 1
                    if not out:
                        c.violation(key + "/lost", f"{tag}: particle {k} of type {t} at {x0} with velocity {v0} disappeared", r)
                    continue
                z = cur[k][0]
                if int(z["type"]) != t:
                    c.violation(key + "/type", f"{tag}: particle {k} changed type from {t} to {int(z['type'])}", r)
                x1, v1 = z["x"], z["v"]
                judged += 1
                v1u = v1.copy()
                X = np.zeros(3)
                for a in range(3):
                    if not m.act(a):
                        X[a] = x0[a]
                        if x1[a] != x0[a]:
                            c.violation(key + "/collapsed", f"{tag}: particle {k} moved in the collapsed direction {a+1}", r)
                        continue
                    lo, hi = m.xmin0[a], m.xmax0[a]
                    X[a] = x0[a] + 0.5 * dt * (v0[a] + v1[a])
                    tol = 4e-12 * max(1.0, abs(x0[a]), L[a])
                    ok = abs(X[a] - x1[a]) < tol and lo - tol <= x1[a] < hi + tol
                    if bc[a][0] == 2 or bc[a][1] == 2:
                        ok = ok or abs(X[a] - x1[a]) < tol
                    if not ok and bc[a][0] == 4:
                        w = (X[a] - x1[a]) / L[a]
                        ok = abs(w - round(w)) < 4e-12 * max(1, abs(x0[a]) / L[a]) and abs(round(w)) == 1
                        cross += ok
                    if not ok and bc[a][0] in (1, 5) or not ok and bc[a][1] in (1, 5):
                        X[a] = x0[a] + 0.5 * dt * (v0[a] - v1[a])
                        for side, wall in ((0, lo), (1, hi)):
                            if bc[a][side] in (1, 5) and (X[a] - wall) * (1 if side else -1) >= -tol and abs(2 * wall - X[a] - x1[a]) < tol:
                                ok = True
                        if ok:
                            v1u[a] = -v1[a]
                            cross += 1
                    if not ok:
                        c.violation(key + "/position", f"{tag}: particle {k} went from {x0} (v={v0}) to {x1} (v={v1}) in dt={dt}: component {a+1} does not follow from its velocity", r)
                        break
                # velocity
                mid = 0.5 * (x0 + X)
                near = any(m.act(a) and bc[a][0] != 4 and not (m.xmin0[a] + 2.5 * m.dx[a] < mid[a] < m.xmax0[a] - 2.5 * m.dx[a]) for a in range(3))
                if near or not full:
                    continue
                rho, u, cs, spread = gas_at(cfg, pg, g, m, case["interp"], mid, case["gamma"])
                vd = float(np.linalg.norm(v0 - u))
                ts = stop_time(case, t, rho, cs, vd)
                h = dt / ts
                ex = np.exp(-h)
                vr = u + (v0 - u) * ex + f * ts * (1 - ex)
                err = np.max(np.abs(v1u - vr))
                tol = 1e-13 * max(1, np.max(np.abs(v0))) + 0.6 * h ** 3 * (vd + np.linalg.norm(f) * ts) + min(h, 1) * (case.get("vtol", 0.05) * spread + 1e-12)
                if case["tsmode"] == 1:
                    tol += (1.5 * h ** 2 + 0.015 * h) * vd        # stopping time itself depends on the velocity; the drag law jumps by 1% at Re=800
                if h < 0.5:
                    worst = max(worst, err / tol)
                    dvmax = max(dvmax, float(np.max(np.abs(v1u - v0))))
                    if not err <= tol:
                        c.violation(key + "/drag", f"{tag}: particle {k} type {t} x={x0} v={v0} gas {u} t_stop={ts:.4g} dt={dt:.4g}: velocity {v1u} instead of {vr} (tolerance {tol:.3g})", r)
            new = set(cur) - set(pcur)
            if new:
                c.violation(key + "/created", f"{tag}: particles {sorted(new)[:5]} appeared", r)
        else:
            if len(cur) != case["n"]:
                c.violation(key + "/initial", f"{len(cur)} particles at the start, {case['n']} were placed", r)
        prev = (g, cur)
    c.count("particle_steps_judged", judged)
    c.count("boundary_crossings_judged", cross)
    c.count("particles_left_through_open_boundaries", lost)
    c.maxc("worst_velocity_error_over_tolerance", worst)
    return S, cross, dvmax, judged, lost


def total_p(cfg, case, g, L):
    P = g.U[..., 1:4].sum((0, 1, 2))
    sc = np.abs(g.U[..., 1:4]).sum()
    for st, rk, arr in L:
        for q in arr:
            mm = case["pmass"][int(q["type"])]
            P = P + mm * q["v"]
            sc += mm * np.abs(q["v"]).sum()
    return P, sc


SH = {1: (24, 1, 1), 2: (16, 12, 1), 3: (10, 8, 12)}
BCS = {"wall1": ((4, 4), (1, 5), (1, 1)), "wall2": ((1, 1), (4, 4), (5, 1)), "wall3": ((1, 1), (5, 5), (4, 4)), "per": ((4, 4),) * 3, "refl": ((1, 1),) * 3, "out": ((2, 2),) * 3, "mix1": ((1, 1), (4, 4), (2, 2)), "mix2": ((4, 4), (2, 1), (1, 1)), "mix3": ((2, 2), (5, 5), (4, 4)), "mix4": ((1, 2), (2, 2), (1, 2))}


def ledger_case(name, args, b, dim, bcn, seed, dec, gasm, **kw):
    cfg = ath.Cfg(args)
    rng = np.random.default_rng([c.seed, seed, dim, len(bcn)])
    L, org = rng.uniform(0.7, 1.3, 3), rng.uniform(-1, 1, 3)
    if seed % 3 == 0:
        org[:], L[:] = 0.0, 1.0
    m = ath.Mesh(SH[dim], org, org + L)
    gamma = float(rng.choice([1.4, 5 / 3]))
    fl = ath.Flow(cfg, int(rng.integers(1 << 30)), "uniform" if gasm == "uniform" else "smooth", [q > 1 for q in m.N], gamma=gamma, amp=0.2, mach=0.5, kmax=1)
    st = fl.state(m)
    case = dict(integ=int(rng.integers(1, 4)), interp=int(rng.integers(1, 4)), tsmode=3, tstop=[0.4, 2.0], grrhoa=[0.3, 1.5], prad=[1.0, 50.0], alam=0.0, pmass=[0.02, 0.01], gamma=gamma, vtol=0.3)
    case.update(kw)
    if gasm == "uniform":
        case["vtol"] = 1e-9
    bc = BCS[bcn]
    if gasm == "ballistic":
        case["tstop"] = [1e30, 1e30]
    ps = population(rng, m, case.get("np", 25 if dim < 3 else 40), case.get("pv", 1.0), gasm == "ballistic")
    case["n"] = len(ps)
    steps = {1: 14, 2: 10, 3: 7}[dim] + (12 if bcn == "out" else 0)
    key = f"{name}/{dim}d/{bcn}/{gasm}/i{case['integ']}p{case['interp']}t{case['tsmode']}{'/' + 'x'.join(map(str, dec)) if dec else ''}/{seed}"
    ex = {f"pforce{a+1}": float(case["force"][a]) for a in range(3)} if "force" in case else {}
    if gasm == "ballistic":
        case["shuf"] = 1e-3 if seed % 2 else 0
    inp = mk(cfg, case, m, st, ps, steps, bc, dec, ex)
    r = c.run(b, inp, np=int(np.prod(dec)) if dec else 1)
    if not c.ok_run(r, key):
        return
    res = walk(key, cfg, case, m, bc, dec, r)
    if res is None:
        return
    S, cross, dvm, judged, lost = res
    c.case(key, judged > 50 and (cross > 0 or bcn == "out" or dvm > 1e-6), {"case": key, "particles": len(ps), "steps": len(S), "crossings": int(cross), "left": lost, "largest_velocity_change": dvm})
    if bcn == "out" and dim == 1 and gasm == "ballistic" and lost == 0:
        c.violation(key + "/stay", "no particle ever left through an open boundary", r)
    ax = [a for a in range(3) if not m.act(a) or bc[a][0] == 4]
    if cfg.feedback and ax and not cfg.mhd and all(bc[a][0] != 2 and bc[a][1] != 2 for a in range(3) if m.act(a)) or cfg.feedback and bcn == "per":
        # walls only change the momentum across them
        P0, sc = total_p(cfg, case, S[0][1], S[0][2])
        for tag, g, led in S[1:]:
            P, _ = total_p(cfg, case, g, led)
            e = np.max(np.abs(P - P0 - f_add(case, g.time))[ax]) / sc
            c.maxc("worst_momentum_drift", float(e))
            if not e < 2e-13 * max(len(S), 10):
                c.violation(key + "/momentum", f"{tag}: gas plus particle momentum changed by {P - P0} (relative {e:.3g})", r)
                break


def f_add(case, t):
    """momentum given to the particles by the external force"""
    if "force" not in case:
        return np.zeros(3)
    tot = sum(case["pmass"][i % 2] for i in range(case["n"]))
    return tot * np.array(case["force"]) * t


def deposit_case(name, args, b, dim, seed, dec):
    """one particle in gas at rest: the momentum it loses appears in the gas, centred on the particle"""
    cfg = ath.Cfg(args)
    rng = np.random.default_rng([c.seed, seed, dim, 99])
    m = ath.Mesh(SH[dim], (0, 0, 0), np.array(SH[dim]) / 10.0)
    fl = ath.Flow(cfg, 3, "uniform", [q > 1 for q in m.N], amp=0.0, mach=0.0)
    st = fl.state(m)
    if cfg.mhd:
        return
    case = dict(integ=int(rng.integers(1, 4)), interp=seed % 3 + 1, tsmode=3, tstop=[0.5, 0.5], grrhoa=[0, 0], prad=[0, 0], alam=0.0, pmass=[1e-5, 1e-5], gamma=5 / 3, n=1)
    x = [rng.uniform(m.xmin0[a], m.xmax0[a]) if m.act(a) else 0.05 for a in range(3)]
    for a in range(3):          # often at a Grid face or mesh edge
        if m.act(a) and rng.uniform() < 0.7:
            x[a] = float(rng.choice([m.xmin0[a] + 0.02 * m.dx[a], m.xmax0[a] - 0.02 * m.dx[a]] + ([m.xmin0[a] + m.dx[a] * (m.N[a] // dec[a]) - 0.01 * m.dx[a]] if dec and dec[a] > 1 else [])))
    v = rng.choice([-1, 1], 3) * rng.uniform(0.2, 0.5, 3)
    inp = mk(cfg, case, m, st, [(x, v)], 2, BCS["per"], dec)
    key = f"{name}/deposit/{dim}d/p{case['interp']}{'/' + 'x'.join(map(str, dec)) if dec else ''}/{seed}"
    r = c.run(b, inp, np=int(np.prod(dec)) if dec else 1)
    if not c.ok_run(r, key):
        return
    S = steps_of(r.dir)
    g0, g1 = S[0][1], S[1][1]
    q0 = [q for _, _, A in S[0][2] for q in A][0]
    q1 = [q for _, _, A in S[1][2] for q in A]
    if len(q1) != 1:
        c.violation(key + "/count", f"{len(q1)} particles instead of one", r)
        return
    q1 = q1[0]
    dt = g1.time - g0.time
    mid = q0["x"] + 0.25 * dt * (q0["v"] + q1["v"])
    dM = g1.U[..., 1:4] - g0.U[..., 1:4]
    for a in range(3):
        tot = dM[..., a].sum()
        if not abs(tot + 1e-5 * (q1["v"][a] - q0["v"][a])) < 1e-9 * abs(tot):
            c.violation(key + "/momentum", f"gas received {tot:.8g} of momentum {a+1}, the particle lost {-1e-5 * (q1['v'][a] - q0['v'][a]):.8g}", r)
        for ax in range(3):
            if not m.act(ax):
                continue
            X = m.xmin0[ax] + (np.arange(m.N[ax]) + 0.5) * m.dx[ax]
            Lx = m.N[ax] * m.dx[ax]
            D = (X - mid[ax] + 0.5 * Lx) % Lx - 0.5 * Lx
            sh = [1, 1, 1]
            sh[2 - ax] = m.N[ax]
            cen = float((dM[..., a] * D.reshape(sh)).sum() / tot) / m.dx[ax]
            c.maxc("worst_deposit_centroid_error_cells", abs(cen))
            if not abs(cen) < 2e-3:
                c.violation(key + "/centroid", f"momentum {a+1} reached the gas {cen:.3g} cells away from the particle along x{ax+1}", r)
    c.case(key, True, {"case": key, "momentum_given": float(np.abs(dM).sum())})


def shear_case(name, args, b, dim, seed, dec):
    cfg = ath.Cfg(args)
    rng = np.random.default_rng([c.seed, seed, dim, 5])
    om, qs = float(rng.uniform(0.7, 1.3)), float(rng.choice([1.5, 1.2]))
    N = (12, 12, 8) if dim == 3 else (16, 12, 1)
    L = rng.uniform(0.8, 1.3, 3)
    m = ath.Mesh(N, -0.5 * L, 0.5 * L)
    fl = ath.Flow(cfg, 4, "uniform", [q > 1 for q in N], amp=0.0, mach=0.0)
    st = fl.state(m)
    xz = dim == 2
    if not cfg.fargo:
        ax = 3 if xz else 2
        X = m.xmin0[0] + (np.arange(N[0]) + 0.5) * m.dx[0]
        st.U[..., ax] = -qs * om * X[None, None, :] * st.U[..., 0]
    case = dict(integ=int(rng.integers(1, 4)), interp=int(rng.integers(1, 4)), tsmode=3, tstop=[1e30, 1e30], grrhoa=[0, 0], prad=[0, 0], alam=0.0, pmass=[1e-9, 1e-9], gamma=5 / 3)
    ps = population(rng, m, 30, 0.8, False)
    case["n"] = len(ps)
    y = 2 if xz else 1
    key = f"{name}/shear/{dim}d/i{case['integ']}{'/' + 'x'.join(map(str, dec)) if dec else ''}/{seed}"
    inp = mk(cfg, case, m, st, ps, 24 if dim == 2 else 16, BCS["per"], dec, {"omega": om, "qshear": qs, "xz": int(xz)})
    r = c.run(b, inp, np=int(np.prod(dec)) if dec else 1)
    if not c.ok_run(r, key):
        return
    S = steps_of(r.dir)
    prev = None
    cross = n = 0
    worst = 0.0
    vsh = qs * om * L[0]

    def rhs(s):
        x, v = s[:3], s[3:]
        a = np.zeros(3)
        if cfg.fargo:
            a[0], a[y] = 2 * om * v[y], (qs - 2) * om * v[0]
            dx = v.copy()
            dx[y] = v[y] - qs * om * x[0]
        else:
            a[0], a[y] = 2 * qs * om ** 2 * x[0] + 2 * om * v[y], -2 * om * v[0]
            dx = v
        return np.concatenate([dx, a])
    for tag, g, led in S:
        cur = collect(key, tag, led, r, m, dec, N)
        if prev is not None:
            dt = g.time - prev[0]
            if set(cur) != set(prev[1]):
                c.violation(key + "/lost", f"{tag}: particles lost {sorted(set(prev[1]) - set(cur))[:5]}, new {sorted(set(cur) - set(prev[1]))[:5]}", r)
            for k, (q, rk) in prev[1].items():
                if k not in cur:
                    continue
                s = np.concatenate([q["x"], q["v"]])
                hh = dt / 8
                for _ in range(8):
                    k1 = rhs(s); k2 = rhs(s + hh / 2 * k1); k3 = rhs(s + hh / 2 * k2); k4 = rhs(s + hh * k3)
                    s = s + hh / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
                z = cur[k][0]
                D = s[:3] - z["x"]
                dv = s[3:] - z["v"]
                tol = 2.0 * (om * dt) ** 3 * (np.abs(q["v"]).max() + om * L[0]) + 1e-12
                w = round(D[0] / L[0])
                D[0] -= w * L[0]
                if w:
                    cross += 1
                    # image through the radial boundary
                    if not xz:
                        D[1] += w * vsh * g.time
                    if not cfg.fargo:
                        dv[y] += w * vsh
                for a in (1, 2):
                    if m.act(a):
                        D[a] -= L[a] * round(D[a] / L[a])
                    else:
                        D[a] = 0.0
                e = max(np.abs(D).max() , np.abs(dv).max()) / tol
                worst = max(worst, float(e))
                n += 1
                if not e < 1:
                    c.violation(key + "/orbit", f"{tag}: particle {k} from x={q['x']} v={q['v']} to x={z['x']} v={z['v']}: orbit expected x={s[:3]} v={s[3:]} (error/tolerance {e:.3g}, crossing {w})", r)
                for a in range(3):
                    if m.act(a) and not (m.xmin0[a] - 1e-12 <= z["x"][a] <= m.xmax0[a] + 1e-12):
                        c.violation(key + "/outside", f"{tag}: particle {k} at {z['x']}", r)
        prev = (g.time, cur)
    c.count("orbit_steps_judged", n)
    c.count("radial_crossings_judged", cross)
    c.maxc("worst_orbit_error_over_tolerance", worst)
    c.case(key, cross > 0 and n > 100, {"case": key, "crossings": cross, "orbit_steps": n})


CF = [("pi", H + " " + I + " --with-order=2 --with-particles=passive"), ("pa", H + " --with-order=2 --with-particles=passive"), ("pm", I + " --with-order=2 --with-flux=hlld --with-particles=passive"),
      ("fi", H + " " + I + " --with-order=2 --with-particles=feedback"), ("fm", I + " --with-order=3 --with-flux=hlld --with-particles=feedback")]
MP = {1: [(2, 1, 1), (3, 1, 1)], 2: [(2, 1, 1), (2, 2, 1), (1, 3, 1), (4, 1, 1)], 3: [(2, 1, 1), (1, 2, 1), (1, 1, 3), (2, 2, 1), (2, 1, 2), (1, 2, 2), (2, 2, 2)]}


def mirror_case(name, args, b, dim, a, seed, dec):
    """gas and particles between reflecting walls = half of a periodic box twice as long holding them and their mirror images"""
    cfg = ath.Cfg(args)
    rng = np.random.default_rng([c.seed, seed, dim, a, 4])
    N = list(SH[dim])
    L = rng.uniform(0.7, 1.3, 3)
    m = ath.Mesh(N, [0.0] * 3, L)
    case = dict(integ=int(rng.integers(1, 4)), interp=int(rng.integers(1, 4)), tsmode=3, tstop=[0.3, 1.0], grrhoa=[0.3, 1.5], prad=[1.0, 50.0], alam=0.0, pmass=[0.03, 0.02], gamma=5 / 3)
    st = ath.Flow(cfg, int(rng.integers(1 << 30)), "smooth", [q > 1 for q in N], amp=0.2, mach=0.5, kmax=1).state(m)
    mi = ath.mirror(cfg, st, a)
    N2, L2 = list(N), np.array(L)
    N2[a], L2[a] = 2 * N[a], 2 * L[a]
    m2 = ath.Mesh(N2, [0.0] * 3, L2)
    big = ath.State(m2, np.concatenate([st.U, mi.U], axis=2 - a), None)
    ps = population(rng, m, 26, 1.0, False)     # an even number: the images are of the same types
    im = []
    for x, v in ps:
        y, w = list(x), np.array(v)
        y[a], w[a] = 2 * L[a] - y[a], -w[a]
        im.append([y, w])
    key = f"mirror/{name}/{dim}d/x{a+1}/i{case['integ']}p{case['interp']}{'/' + 'x'.join(map(str, dec)) if dec else ''}/{seed}"
    steps = {1: 14, 2: 10, 3: 6}[dim]
    bc = tuple((1, 5) if q == a else (4, 4) for q in range(3))
    n = int(np.prod(dec)) if dec else 1
    r1 = c.run(b, mk(cfg, case, m, st, ps, steps, bc, dec, {"ledger": 1}), np=n)
    r2 = c.run(b, mk(cfg, case, m2, big, ps + im, steps, BCS["per"], dec, {"ledger": 1}), np=n)
    if not (c.ok_run(r1, key) and c.ok_run(r2, key)):
        return
    g1, g2 = ath.load_all(r1.dir)[(0, 0)], ath.load_all(r2.dir)[(0, 0)]
    e = np.abs(g1.U[..., :4] - np.take(g2.U[..., :4], range(N[a]), axis=2 - a)).max()
    P = [np.concatenate([q[2] for q in ath.read_ledger(r.dir)]) for r in (r1, r2)]
    if "-v" in sys.argv: print(key, "times", g1.time, g2.time, e, np.unravel_index(np.abs(g1.U[..., :4] - np.take(g2.U[..., :4], range(N[a]), axis=2 - a)).argmax(), g1.U[..., :4].shape))
    c.maxc("worst_mirror_difference", float(e))
    c.case(key, True)
    if not e < 1e-10:
        c.violation(key + "/gas", f"gas and feedback between walls differ from the mirrored box by {e:.3e}", r1)
    half = P[1][P[1]["x"][:, a] < L[a]]
    if len(half) != len(P[0]):
        c.violation(key + "/count", f"{len(P[0])} particles between the walls, {len(half)} in the same half of the mirrored box", r1)
        return
    A = np.array(sorted(np.concatenate([P[0]["x"], P[0]["v"]], axis=1).tolist()))
    B = np.array(sorted(np.concatenate([half["x"], half["v"]], axis=1).tolist()))
    if not np.abs(A - B).max() < 1e-9:
        c.violation(key + "/particles", f"particles between walls differ from those of the mirrored box by {np.abs(A - B).max():.3e}", r1)


def task(name, args, idx):
    def f():
        b = c.build(args)
        if not b.ok:
            return
        reps = 4 if c.thorough else 1
        s = 0
        for rep in range(reps):
            for dim in (1, 2, 3):
                names = ["per", "refl", "out", "mix1", "mix2", "mix3", "mix4"] + (["wall1", "wall2", "wall3"] if "feedback" in args else [])
                if "hydro" in args and "iso" in args:
                    for a in range(dim):
                        mirror_case(name, args, b, dim, a, s + rep * 1000, None)
                for j, bn in enumerate(names):
                    s += 1
                    if not c.thorough and dim == 3 and (j + idx) % 2:
                        continue
                    ledger_case(name, args, b, dim, bn, s * 10 + idx + rep * 1000, None, ("ballistic", "flow")[(s + idx) % 2])
                for tm in (1, 2, 3):
                    s += 1
                    kw = {"tsmode": tm, "alam": 4.0 if tm == 1 else 0.0}
                    if tm == 3:
                        kw["force"] = (0.3, -0.2, 0.5)
                    if "feedback" not in args:
                        ledger_case(name, args, b, dim, "per", s * 10 + idx + rep * 1000, None, "uniform", **kw)
                    ledger_case(name, args, b, dim, "per", s * 10 + 5 + rep * 1000, None, "flow", **dict(kw, integ=tm))
                if "feedback" in args:
                    for q in range(4):
                        deposit_case(name, args, b, dim, q + 10 * rep, None)
    return f


def mtask(name, args, idx):
    def f():
        a2 = args + " --enable-mpi"
        b = c.build(a2)
        if not b.ok:
            return
        s = 0
        for rep in range(3 if c.thorough else 1):
            for dim in (1, 2, 3):
                for j, dec in enumerate(MP[dim]):
                    s += 1
                    if "hydro" in args and "iso" in args:
                        mirror_case(name + "-mpi", a2, b, dim, (s + idx) % dim, s + rep * 1000, dec)
                    bn = ["per", "mix1", "mix2", "refl", "mix3", "out", "mix4"][(s + idx) % 7]
                    for k, bb in enumerate({"per", bn} if c.thorough or (s + idx) % 2 else {bn}):
                        ledger_case(name + "-mpi", a2, b, dim, bb, 500 + s * 10 + idx + rep * 1000, dec, ("ballistic", "flow")[(s + k) % 2], num=[40, 3][s % 2])
                    if "feedback" in args:
                        deposit_case(name + "-mpi", a2, b, dim, s + 10 * rep, dec)
    return f


def stask(name, args, idx):
    def f():
        for mpi in (0, 1):
            a2 = args + (" --enable-mpi" if mpi else "")
            b = c.build(a2)
            if not b.ok:
                continue
            for rep in range(3 if c.thorough else 1):
                if not mpi:
                    for k in range(3):
                        shear_case(name, a2, b, 3, k + 10 * rep, None)
                        shear_case(name, a2, b, 2, 5 + k + 10 * rep, None)
                else:
                    for k, dec in enumerate([(2, 1, 1), (1, 2, 1), (1, 3, 1), (2, 2, 1), (1, 3, 2)]):
                        shear_case(name + "-mpi", a2, b, 3, k + 10 * rep, dec)
                    for k, dec in enumerate([(2, 1, 1), (2, 2, 1)]):
                        shear_case(name + "-mpi", a2, b, 2, k + 10 * rep, dec)
    return f


T = [(n, task(n, a, i)) for i, (n, a) in enumerate(CF)]
T += [(n + "-mpi", mtask(n, a, i)) for i, (n, a) in enumerate(CF) if n in ("pi", "fi", "pa")]
SB = [("sb", H + " " + I + " --with-order=2 --with-particles=passive --enable-shearing-box"), ("sbf", H + " " + I + " --with-order=2 --with-particles=passive --enable-shearing-box --enable-fargo"), ("sbff", H + " " + I + " --with-order=2 --with-particles=feedback --enable-shearing-box --enable-fargo")]
T += [(n, stask(n, a, i)) for i, (n, a) in enumerate(SB)]
c.parallel(T)
c.finish(min_cases=100)
