"""C19: ghost zones recorded at the start of every step (every Grid, every process) against an independent model of the boundary conditions."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np, ath
from scen import Scen, BY, H, I, O
from vlib import Check

c = Check("C19", rule="one case = (scenario, decomposition, boundary flags, step); non-trivial if all ghost zones of all Grids (faces, edges, corners; cells and face fields) were compared with the model",
          assumptions=["at outflow boundaries ghost values of the normal face field may repeat either of the two outermost active faces"])
USER = {(0, 0): (1, 7.0, 11.0), (1, 1): (2, 13.0, 17.0), (0, 1): (4, 19.0, 23.0), (1, 0): (8, 29.0, 31.0), (2, 0): (16, 37.0, 41.0), (2, 1): (32, 43.0, 47.0)}
NAME = {1: "reflecting", 2: "outflow", 4: "periodic", 5: "conducting"}


def idx(a, arr, s):
    q = [slice(None)] * arr.ndim
    q[2 - a] = s
    return tuple(q)


def expected(cfg, U, B, N, g, flags, user, time, rate, phi_ok):
    """U, B: arrays with ghost layers, active part filled, rest NaN. -> filled arrays; last item: alternatives for outflow normal faces"""
    U = U.copy()
    B = [b.copy() for b in B] if B else None
    alt = [b.copy() for b in B] if B else None
    ib = cfg.idx("B1c") if cfg.mhd else None
    for a in range(3):
        if N[a] == 1:
            continue
        n, gg = N[a], g
        for side in (0, 1):
            fl = flags[a][side]
            dst = [(-k if side == 0 else n - 1 + k) for k in range(1, gg + 1)]
            src = []
            for k in range(1, gg + 1):
                if fl == 4:
                    src.append(n - k if side == 0 else k - 1)
                elif fl in (1, 5):
                    src.append(k - 1 if side == 0 else n - k)
                else:
                    src.append(0 if side == 0 else n - 1)
            for d, s in zip(dst, src):
                v = U[idx(a, U, s + gg)].copy()
                if fl in (1, 5):
                    v[..., 1 + a] *= -1
                    if cfg.mhd:
                        for q in range(3):
                            if (q == a) == (fl == 1):
                                v[..., ib + q] *= -1
                if (a, side) in user:
                    _, d0, e0 = USER[a, side]
                    v[..., :cfg.nv] = 0
                    v[..., 0] = d0 + rate * time
                    if not cfg.iso:
                        v[..., 4] = e0
                U[idx(a, U, d + gg)] = v
            if not B:
                continue
            for q in range(3):
                for arrs in (B, alt):
                    b = arrs[q]
                    if q != a:
                        for d, s in zip(dst, src):
                            b[idx(a, b, d + gg)] = b[idx(a, b, s + gg)] * (-1 if fl == 5 else 1)
                    else:
                        if fl == 1:
                            b[idx(a, b, (0 if side == 0 else n) + gg)] = 0.0
                        for k in range(1, gg):
                            d = -k if side == 0 else n + k
                            if fl == 4:
                                s = d + n if side == 0 else d - n
                            elif fl in (1, 5):
                                s = k if side == 0 else n - k
                            elif side == 0:
                                s = 0
                            else:
                                s = n if arrs is B else n - 1
                            if d + gg >= b.shape[2 - a]:
                                continue
                            b[idx(a, b, d + gg)] = b[idx(a, b, s + gg)] * (-1 if fl == 1 else 1)
    return U, B, alt


def inten(cfg, U):
    """total energy replaced by internal energy: that is what is interpolated from coarse to fine"""
    if cfg.iso or cfg.mhd or cfg.sr:
        return U
    U = U.copy()
    U[..., 4] -= 0.5 * np.sum(U[..., 1:4] ** 2, -1) / U[..., 0]
    return U


def check_level(case, cfg, recs, flags, user, rate, phi_ok, r, parent=None, rootN=None):
    """recs: Grids (with ghosts) of one Domain"""
    g = recs[0].ghost
    lev = recs[0].level
    act = [n > 1 for n in (recs[0].N)]
    gz = [g if act[a] else 0 for a in range(3)]
    lo = [min(q.disp[a] for q in recs) for a in range(3)]
    hi = [max(q.disp[a] + q.N[a] - 2 * gz[a] for q in recs) for a in range(3)]
    N = [hi[a] - lo[a] for a in range(3)]
    shp = [N[2 - a] + 2 * gz[2 - a] for a in range(3)]
    nv = recs[0].U.shape[-1]
    U = np.full(shp + [nv], np.nan)
    B = [np.full([shp[q] + (1 if q == 2 - a and act[a] else 0) for q in range(3)], np.nan) for a in range(3)] if cfg.mhd else None
    for q in recs:
        n = [q.N[a] - 2 * gz[a] for a in range(3)]
        o = [q.disp[a] - lo[a] + gz[a] for a in range(3)]
        s = tuple(slice(gz[2 - a], gz[2 - a] + n[2 - a]) for a in range(3))
        t = tuple(slice(o[2 - a], o[2 - a] + n[2 - a]) for a in range(3))
        U[t] = q.U[s]
        if B:
            for a in range(3):
                e = [1 if (x == a and act[a]) else 0 for x in range(3)]
                s = tuple(slice(gz[2 - x], gz[2 - x] + n[2 - x] + e[2 - x]) for x in range(3))
                t = tuple(slice(o[2 - x], o[2 - x] + n[2 - x] + e[2 - x]) for x in range(3))
                B[a][t] = q.B[a][s]
    X, BX, BA = expected(cfg, U, B, N, g, flags, user, recs[0].time, rate, phi_ok)
    sc = np.nanmax(np.abs(X.reshape(-1, nv)), axis=0) + 1e-300
    ncmp = 0
    for q in recs:
        o = [q.disp[a] - lo[a] for a in range(3)]
        w = tuple(slice(o[2 - a], o[2 - a] + q.N[2 - a]) for a in range(3))
        want, got = X[w], q.U
        mask = np.ones(want.shape[:3], bool)
        if lev:    # a refined Domain: only ghost zones at the boundary of the whole mesh, and not edges
            out = []
            inside = np.zeros(want.shape[:3], int)
            for a in range(3):
                if not act[a]:
                    continue
                x = np.arange(q.N[a]) - gz[a] + q.disp[a]          # position on the level
                outD = (x < lo[a]) | (x >= hi[a])
                outM = (x < 0) | (x >= rootN[a] * 2 ** lev)
                shape = [1, 1, 1]
                shape[2 - a] = -1
                inside = inside + (outD.astype(int) + 100 * (outD & ~outM)).reshape(shape)
            mask = inside <= 1
        nvv = nv if phi_ok else cfg.nv
        e = np.abs(got - want) / sc
        e = e[..., :nvv]
        bad = ~(e <= 1e-13) & mask[..., None]
        ncmp += int(np.sum(mask)) * nvv
        if bad.any():
            k, j, i, v = np.argwhere(bad)[0]
            return f"cell ({i - gz[0]},{j - gz[1]},{k - gz[2]}) of the Grid at {q.disp} (level {lev}) variable {v}: {got[k,j,i,v]!r}, the boundary condition asks for {want[k,j,i,v]!r} ({int(bad.sum())} values)", ncmp
        if B and not lev:
            bs = max(np.nanmax(np.abs(b)) for b in BX) + 1e-300
            for a in range(3):
                wf, wa, gf = BX[a][w], BA[a][w], q.B[a]
                m = np.ones(gf.shape, bool)
                if act[a]:
                    m[idx(a, m, 0)] = False
                    if len(flags[a]) and o[a] + q.N[a] - 2 * gz[a] == N[a]:
                        pass
                e = np.minimum(np.abs(gf - wf), np.abs(gf - wa)) / bs
                ncmp += int(m.sum())
                bad = ~(e <= 1e-12) & m
                if bad.any():
                    k, j, i = np.argwhere(bad)[0]
                    return f"B{a+1} on face ({i - gz[0]},{j - gz[1]},{k - gz[2]}) of the Grid at {q.disp}: {gf[k,j,i]!r}, the boundary condition asks for {wf[k,j,i]!r} ({int(bad.sum())} faces)", ncmp
    # fine/coarse: the ghost zones of a refined Domain average to the coarse cells they lie in
    if lev and parent is not None:
        pU, plo = parent
        for q in recs:
            x = [np.arange(q.N[a]) - gz[a] + q.disp[a] for a in range(3)]
            for a in range(3):
                if not act[a]:
                    continue
                for side in (0, 1):
                    if (side == 0 and q.disp[a] != lo[a]) or (side == 1 and q.disp[a] + q.N[a] - 2 * gz[a] != hi[a]):
                        continue
                    if (side == 0 and lo[a] == 0) or (side == 1 and hi[a] == rootN[a] * 2 ** lev):
                        continue
                    sl = [slice(gz[2 - d], q.N[2 - d] - gz[2 - d]) for d in range(3)]
                    sl[2 - a] = slice(0, gz[a]) if side == 0 else slice(q.N[a] - gz[a], q.N[a])
                    F = inten(cfg, q.U[tuple(sl)])
                    for d in range(3):
                        if act[d]:
                            F = 0.5 * (np.take(F, np.arange(0, F.shape[2 - d], 2), 2 - d) + np.take(F, np.arange(1, F.shape[2 - d], 2), 2 - d))
                    ps = []
                    for d in range(3):
                        xs = x[2 - d][sl[d]]
                        ps.append(slice(xs[0] // 2 - plo[2 - d], xs[-1] // 2 + 1 - plo[2 - d]) if act[2 - d] else slice(None))
                    P = inten(cfg, pU[tuple(ps)])
                    names = [n for n in range(cfg.nv) if not (cfg.mhd and (cfg.idx("B1c") <= n < cfg.idx("B1c") + 3 or n == 4 and not cfg.iso))]
                    e = (np.abs(F - P) / sc)[..., names]
                    ncmp += e.size
                    c.count("fine_coarse_values", e.size)
                    if np.any(~(e <= 1e-12)):
                        return f"ghost zones of level {lev} beyond {'lower' if side == 0 else 'upper'} x{a+1} do not average to the coarse cells (worst {np.nanmax(e):.3g})", ncmp
    return None, ncmp, (U[tuple(slice(gz[2 - a], gz[2 - a] + N[2 - a]) for a in range(3))], lo)


def one(s, dec, seed, k, allper=False):
    rng = np.random.default_rng([seed, 1919, k])
    mpi = dec is not None
    b = c.build(s.args + (" --enable-mpi" if mpi else ""))
    if not b.ok:
        return
    cfg = s.cfg()
    grav = "--with-gravity" in s.args
    flags = []
    for a in range(3):
        if s.bc_fixed:
            fl = s.bc_fixed[a]
        elif rng.random() < 0.25:
            fl = (4, 4)
        else:
            fl = tuple(int(x) for x in rng.choice([1, 2, 5] if not cfg.cyl else [1, 2] if not a or not cfg.mhd else [2], 2))   # cylindrical MHD at a wall: the upwind side of the electric field there is decided by round-off, which differs between Grids
        flags.append(fl)
    user, ubit = set(), 0
    if not cfg.mhd and not cfg.sr and not grav and rng.random() < 0.5:
        for (a, sd), v in USER.items():
            if a < s.dim and rng.random() < 0.35 and (flags[a] != (4, 4) or dec is None or isinstance(dec[0], int) and dec[a] == 1):
                user.add((a, sd))
                ubit |= v[0]
    # a periodic direction that is divided between processes is connected by messages: a user function would not be called there
    s2 = Scen(s.name, s.args, s.dim, N=s.N, hier=s.hier, prob=s.prob, bc=tuple(flags), kind="smooth", amp=0.2, cour=0.3)
    rate = float(rng.uniform(0.5, 3)) if user else 0.0
    cfg, inp = s2.make(c, seed * 10 + k, nlim=4, outputs=[{"name": "usrout", "out_fmt": "x", "dt": 1e-9}], dec=dec, prob={"usrdump": 2, "userbc": ubit, "userbc_rate": rate})
    np_ = 1
    if mpi:
        np_ = sum(int(np.prod(q)) for q in dec) if isinstance(dec[0], tuple) else int(np.prod(dec))
    r = c.run(b, inp, np=np_)
    desc = "".join(f"/x{a+1}:{flags[a][0]}{flags[a][1]}" for a in range(s.dim)) + (f"/user{ubit}" if ubit else "")
    case = f"{s.name}/{'np%d' % np_ if mpi else 'serial'}{desc}"
    if not c.ok_run(r, case):
        return
    for n in range(5):
        recs = []
        for p in ath.find(r.dir, f"dump.out{n:05d}.*.bin"):
            recs += ath.read_dump(p)
        if not recs:
            c.violation(case + "/missing", f"no state recorded for output {n}", r)
            return
        doms = {}
        for q in recs:
            doms.setdefault((q.level, q.dom), []).append(q)
        par = {}
        tot = 0
        rootN = s2.root.N
        phi_ok = grav and all(f in ((4, 4), (1, 1)) for f in flags[:s.dim])
        for (lev, dom) in sorted(doms):
            pr = None
            if lev:
                q = doms[lev, dom][0]
                for (l2, d2), v in par.items():
                    if l2 == lev - 1:
                        gd = q.ghost
                        act = [x > 1 for x in q.N]
                        lo = [min(z.disp[a] for z in doms[lev, dom]) // 2 if act[a] else 0 for a in range(3)]
                        if all(not act[a] or v[1][a] <= lo[a] < v[1][a] + v[0].shape[2 - a] for a in range(3)):
                            pr = v
            res = check_level(case, cfg, doms[lev, dom], flags, user, rate, phi_ok, r, pr, rootN)
            tot += res[1]
            if res[0]:
                c.violation(case + f"/step{n}", res[0], r)
                return
            par[lev, dom] = res[2]
        c.count("values_compared", tot)
        c.count("ghost_grids", len(recs))
        c.case(f"{case}/step{n}", tot > 0)


def S(name, args, dim, N=None, decs=(None,), hier=None, bc=None, prob=None):
    s = Scen(name, args, dim, N=N, hier=hier, prob=prob)
    s.bc_fixed = bc
    s.dd = decs
    return s


P4 = ((4, 4), (4, 4), (4, 4))
LIST = [
    S("h1", H + " --with-order=2 --with-nscalars=2", 1, N=(13, 1, 1), decs=(None, (3, 1, 1))),
    S("h2", H + " --with-order=2 --with-flux=hllc --with-nscalars=1", 2, N=(11, 13, 1), decs=(None, (2, 1, 1), (2, 3, 1))),
    S("h3", H + " --with-order=2 --with-flux=hllc --with-nscalars=1", 3, N=(9, 8, 10), decs=(None, (2, 2, 1), (1, 2, 2), (2, 1, 2))),
    S("hi3", H + " " + I + " --with-order=1", 3, N=(5, 9, 8), decs=(None, (1, 2, 2))),
    S("m1", "--with-order=2 --with-flux=hlld", 1, N=(17, 1, 1), decs=(None, (2, 1, 1))),
    S("m2", "--with-order=2 --with-flux=hlld --with-nscalars=1", 2, N=(12, 9, 1), decs=(None, (1, 2, 1), (3, 2, 1))),
    S("m3", "--with-order=2 --with-flux=hlld --with-nscalars=2", 3, N=(8, 9, 10), decs=(None, (2, 2, 2), (2, 1, 1), (1, 1, 2))),
    S("mi3vl", I + " --with-integrator=vl --with-order=2p --with-flux=hlld", 3, N=(10, 8, 9), decs=(None, (2, 2, 1))),
    S("srh2", H + " --with-integrator=vl --with-order=2p --with-flux=hllc --enable-special-relativity", 2, decs=(None, (2, 2, 1))),
    S("srm3", "--with-integrator=vl --with-order=2p --with-flux=hlle --enable-special-relativity", 3, N=(8, 8, 8), decs=(None, (1, 2, 2))),
    S("h3o3p", H + " --with-order=3p --with-nscalars=1", 3, N=(8, 9, 8), decs=(None, (2, 2, 1))),
    S("m2o3p", "--with-order=3p --with-flux=hlld", 2, N=(11, 9, 1), decs=(None, (1, 2, 1))),
    S("cyl2", "--with-coord=cylindrical --with-order=2 --with-flux=hlld --with-nscalars=1", 2, N=(10, 12, 1), decs=(None, (2, 2, 1))),
    S("cyl3", H + " --with-coord=cylindrical --with-order=2", 3, N=(9, 8, 8), decs=(None, (1, 2, 2))),
    S("res2", "--with-order=2 --with-flux=hlld --enable-resistivity", 2, N=(10, 11, 1), decs=(None, (2, 2, 1)), prob={"eta_O": 2e-3}),
    S("sg3", H + " --with-order=2 --with-gravity=fft --enable-fft", 3, N=(8, 8, 8), decs=(None, (2, 2, 1), (1, 2, 2)), bc=P4, prob={"four_pi_G": 2.0}),
    S("sg2", H + " --with-order=2 --with-gravity=fft --enable-fft", 2, N=(8, 12, 1), decs=(None,), bc=P4, prob={"four_pi_G": 2.0}),
    S("smr2", H + " --with-order=2 --enable-smr --with-nscalars=1", 2, decs=(None, [(2, 1, 1), O, O]), hier="two-regions"),
    S("smr2l", "--with-order=2 --with-flux=hlld --enable-smr", 2, decs=(None, [(2, 1, 1), (1, 2, 1), O]), hier="two-levels"),
    S("smr2s", H + " --with-order=2 --enable-smr", 2, decs=(None,), hier="spanning-x1"),
    S("smr3s", "--with-order=2 --with-flux=hlld --enable-smr", 3, decs=(None,), hier="spanning-x3"),
    S("smr3", H + " --with-integrator=vl --with-order=2p --enable-smr", 3, decs=(None, [(1, 2, 1), (2, 1, 1)]), hier="one"),
    S("smr1", H + " --with-order=3 --enable-smr", 1, decs=(None, [(2, 1, 1), O, O]), hier="two-levels"),
]


def task(s, dec, n):
    def f():
        for k in range(12 if c.thorough else 4):
            one(s, dec, c.seed * 100 + n, k)
    return f


c.parallel([(s.name + ("-mpi" if d else ""), task(s, d, n)) for n, s in enumerate(LIST) for d in s.dd])
c.finish(min_cases=300)
