"""C04: evolution commutes with permutations, mirrors, shifts; plane-parallel states do not depend on direction or dimension."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np, ath
from vlib import Check
from configs import SOLVERS

c = Check("C04", rule="one case = (configuration, base state, transformation); non-trivial if the base state changed by more than 1e-4 during the run",
          assumptions=["B is mirrored as a polar vector", "tolerance 1e-9 of the largest value of each group covers round-off amplification over the few steps taken"])
TOL = 1e-9
PERMS = [p for p in itertools.permutations(range(3)) if p != (0, 1, 2)]


def evolve(cfg, b, st, steps, gamma, case, cour=0.35, prob=None, bc=(4, 4, 4)):
    d = c.tmp("i")
    ath.write_init(d + "/init.bin", cfg, [st])
    r = c.run(b, ath.base_inp(cfg, st.mesh, d + "/init.bin", bc=bc, nlim=steps, cour=cour, gamma=gamma, problem=dict(prob or {}, mon=0)))
    if not c.ok_run(r, case):
        return None, r
    g = ath.load_all(r.dir)[(0, 0)]
    return ath.rec_state(g, st.mesh, cfg.nv), r


def judge(cfg, case, want, got, r, changed):
    if got is None:
        return
    w = ath.maxdiff(cfg, want, got)
    m = max(w.values())
    c.maxc("worst_difference", m)
    c.case(case, changed > 1e-4, {"case": case, "max_rel_difference": m})
    if not m < (1e-5 if cfg.sr and cfg.mhd and "/plane/" in case else TOL):
        c.violation(case, f"transformed run differs: {({k: float('%.3g' % v) for k, v in w.items()})}", r)


def grav(act, A, K, P):
    p = {"grav": 1}
    for a in range(3):
        p.update({f"grav_a{a+1}": float(A[a] * act[a]), f"grav_k{a+1}": int(K[a]), f"grav_p{a+1}": float(P[a])})
    return p


def do(name, args, n, cfg, b, rep):
    s = c.seed * 1000 + n * 10 + rep
    rng = np.random.default_rng([s, 5])
    gamma = 4 / 3 if cfg.sr else 5 / 3
    for dim, shape, steps in ((3, (8, 10, 12), 3), (2, (14, 18, 1), 6)):
        act = [q > 1 for q in shape]
        L, org = rng.uniform(0.7, 1.4, 3), rng.uniform(-1, 1, 3)
        m = ath.Mesh(shape, org, org + L)
        kind = "shock" if (n + rep + dim) % 2 else "smooth"
        fl = ath.Flow(cfg, s, kind, act, gamma=gamma, amp=0.3, mach=0.8, kmax=1 if dim == 3 else 2)
        st = fl.state(m)
        A, K, P = rng.uniform(-0.4, 0.4, 3), [1, 2, 1], rng.uniform(0, 6, 3)
        G = not cfg.sr and (n + rep) % 3 == 0
        prob = grav(act, A, K, P) if G else {}
        base = f"{name}/{dim}d/{kind}{'-grav' if G else ''}/{s}"
        ref, r0 = evolve(cfg, b, st, steps, gamma, base, prob=prob)
        if ref is None:
            continue
        if not np.isfinite(ref.U).all():
            c.violation(base + "/nan", "non-finite state", r0)
            continue
        ch = float(np.max(np.abs(ref.U - st.U)))
        perms = [(1, 0, 2)] if dim == 2 else (PERMS if c.thorough else [PERMS[(n + rep) % 5], PERMS[(n + rep + 2) % 5], PERMS[(n + rep + 3) % 5]])
        for p in perms:
            t = ath.permute(cfg, st, p)
            pp = grav([act[q] for q in p], A[list(p)], [K[q] for q in p], P[list(p)]) if G else {}
            out, r = evolve(cfg, b, t, steps, gamma, f"{base}/perm{p}", prob=pp)
            judge(cfg, f"{base}/perm{p}", ath.permute(cfg, ref, p), out, r, ch)
        for a in range(dim):
            if dim == 3 and not c.thorough and a == (n + rep) % 3:
                continue
            t = ath.mirror(cfg, st, a)
            P2 = P.copy()
            P2[a] = -P[a]
            out, r = evolve(cfg, b, t, steps, gamma, f"{base}/mirror{a}", prob=grav(act, A, K, P2) if G else {})
            judge(cfg, f"{base}/mirror{a}", ath.mirror(cfg, ref, a), out, r, ch)
        sh = [int(rng.integers(1, q)) if q > 1 else 0 for q in shape]
        P2 = np.array([P[a] - 2 * np.pi * K[a] * sh[a] / shape[a] for a in range(3)])
        out, r = evolve(cfg, b, ath.shift(cfg, st, sh), steps, gamma, f"{base}/shift", prob=grav(act, A, K, P2) if G else {})
        judge(cfg, f"{base}/shift{sh}", ath.shift(cfg, ref, sh), out, r, ch)
    # plane-parallel (the H-correction exists only in multidimensions, so it is excluded)
    if "h-correction" in args:
        return
    N = 32
    m = ath.Mesh((N, 1, 1), (0, 0, 0), (1, 1, 1))
    kind = "shock" if (n + rep) % 2 else "smooth"
    fl = ath.Flow(cfg, s + 7, kind, (1, 0, 0), gamma=gamma, amp=0.3, mach=0.8)
    st = fl.state(m)
    base = f"{name}/plane/{kind}/{s}"
    ref, r0 = evolve(cfg, b, st, 8, gamma, base)
    if ref is None:
        return
    ch = float(np.max(np.abs(ref.U - st.U)))
    W = 6

    def ext(s1, axes):
        """plane-parallel extension of a 1D state; then axis order so that the 1D direction is axes[0]"""
        dims = [N, W, W if len(axes) == 3 else 1]
        U = np.broadcast_to(s1.U, (dims[2], dims[1], N, s1.U.shape[-1])).copy()
        B = None
        if s1.B is not None:
            sh = [(dims[2], dims[1], N + 1), (dims[2], dims[1] + 1, N), (dims[2] + (dims[2] > 1), dims[1], N)]
            B = [np.broadcast_to(s1.B[a], sh[a]).copy() for a in range(3)]
        m2 = ath.Mesh(dims, (0, 0, 0), (1, 4.0 * W / N, 4.0 * W / N if dims[2] > 1 else 1.0))
        return ath.State(m2, U, B)
    for ax in ((0, 1), (0, 1, 2)):
        e, eref = ext(st, ax), ext(ref, ax)
        perms = [(0, 1, 2), (1, 0, 2)] if len(ax) == 2 else [(0, 1, 2), (2, 0, 1), (1, 2, 0)]
        for p in perms:
            t = ath.permute(cfg, e, p)
            case = f"{base}/{len(ax)}d-along-x{list(p).index(0)+1}"
            out, r = evolve(cfg, b, t, 8, gamma, case)
            judge(cfg, case, ath.permute(cfg, eref, p), out, r, ch)


def task(name, args, n):
    def f():
        cfg = ath.Cfg(args)
        b = c.build(args)
        if b.ok:
            for rep in range(3 if c.thorough else 1):
                do(name, args, n, cfg, b, rep)
    return f


c.parallel([(n, task(n, a, i)) for i, (n, a) in enumerate(SOLVERS)])
c.finish(min_cases=100)
