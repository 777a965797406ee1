"""C05: uniform states, uniform tracer concentrations and contacts are preserved."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np, ath
from vlib import Check
from configs import SOLVERS

c = Check("C05", rule="one case = (configuration, mesh, boundary set, state kind, seed); every case takes >= 3 steps of a moving gas and is non-trivial",
          assumptions=["deviation tolerance 1e-11 of the largest value of the group (1e-8 for special relativity: Newton tolerance; 2e-4 in single precision)"])
SH = {1: (24, 1, 1), 2: (14, 12, 1), 3: (10, 8, 12)}
STEPS = {1: 20, 2: 12, 3: 6}
EXTRA = [
    ("cond-h", "--with-gas=hydro --with-order=2 --enable-conduction", {"kappa_iso": 0.05}),
    ("visc-h", "--with-gas=hydro --with-order=2p --enable-viscosity", {"nu_iso": 0.05}),
    ("cond-m", "--with-order=2 --enable-conduction", {"kappa_iso": 0.02, "kappa_aniso": 0.05}),
    ("res-m", "--with-order=2 --enable-resistivity --with-flux=hlld", {"eta_O": 0.03, "Q_A": 0.01}),
    ("sts-m", "--with-order=3 --enable-resistivity --enable-conduction --enable-sts --with-flux=hlld", {"eta_O": 0.03, "kappa_iso": 0.02}),
    ("hall-m", "--with-eos=isothermal --with-order=2 --enable-resistivity --with-flux=hlld", {"eta_O": 0.01, "Q_H": 0.01}),
    ("single-m", "--enable-single --with-order=3 --with-nscalars=1", {}),
    ("selfg", "--with-gas=hydro --with-gravity=fft --enable-fft", {"four_pi_G": 2.0}),
]
SMR = [("smr-h-ctu", "--with-gas=hydro --with-order=2 --enable-smr --with-nscalars=1"),
       ("smr-hi-vl", "--with-gas=hydro --with-eos=isothermal --with-integrator=vl --with-order=3p --with-flux=hllc --enable-smr"),
       ("smr-m-ctu", "--with-order=3 --enable-smr --with-flux=hlld"),
       ("smr-m-vl", "--with-order=2p --with-integrator=vl --enable-smr --with-flux=roe --with-nscalars=1")]
MPI = [("mpi-h", "--with-gas=hydro --with-order=3 --enable-mpi --with-nscalars=1"),
       ("mpi-m", "--with-order=2 --with-flux=hlld --enable-mpi")]
CYL = [("cyl-h-ctu", "--with-gas=hydro --with-coord=cylindrical --with-order=2"),
       ("cyl-m-ctu", "--with-coord=cylindrical --with-order=2 --with-flux=hlld"),
       ("cyl-h-vl", "--with-gas=hydro --with-coord=cylindrical --with-integrator=vl --with-order=2p"),
       ("cyl-m-vl", "--with-coord=cylindrical --with-integrator=vl --with-order=2p --with-flux=hlld")]


def tol(cfg):
    return 2e-4 if cfg.single else 1e-8 if cfg.sr else 1e-11


def judge(case, cfg, base, g, r, what, m, restrict=None):
    w = ath.maxdiff(cfg, base, ath.rec_state(g, m, cfg.nv))
    if restrict:
        w = {k: v for k, v in w.items() if k in restrict}
    e = max(w.values())
    c.maxc("worst_deviation" + ("_sr" if cfg.sr else "_single" if cfg.single else ""), e)
    c.case(case, g.nstep >= 3, {"case": case, "steps": g.nstep, "max_rel_deviation": e})
    if not e < tol(cfg):
        c.violation(case, f"{what}: deviation {({k: float('%.3g' % v) for k, v in w.items()})} after {g.nstep} steps", r)


def run(cfg, b, case, states, bc, steps, gamma, prob=None, subs=(), np_=1, dom_extra=None):
    d = c.tmp("i")
    ath.write_init(d + "/init.bin", cfg, states)
    inp = ath.base_inp(cfg, states[0].mesh, d + "/init.bin", bc=bc, nlim=steps, cour=0.35, gamma=gamma, problem=dict(prob or {}, mon=0), subs=subs, dom_extra=dom_extra)
    r = c.run(b, inp, np=np_)
    return r if c.ok_run(r, case) else None


def uflow(cfg, seed, act, gamma, kind="uniform", **k):
    return ath.Flow(cfg, seed, kind, act, gamma=gamma, mach=1.3 if seed % 2 else 0.5, beta=1.0, **k)


def compat(cfg, st, fl, bc, gamma):
    """Project a uniform state onto one compatible with the walls."""
    W = fl.prim([np.zeros(st.U.shape[:3])] * 3)
    W["r"] = [q * np.ones(st.U.shape[:3]) for q in [0.7, 1.9][:cfg.ns]]
    b0 = np.array(fl.b0)
    for a in range(3):
        f = bc[a] if isinstance(bc[a], tuple) else (bc[a], bc[a])
        if st.mesh.act(a) and (1 in f or 5 in f):
            W["v"][a] = W["v"][a] * 0
            if 1 in f:
                b0[a] = 0.0
            if 5 in f:
                for q in range(3):
                    if q != a:
                        b0[q] = 0.0
    B = None
    if cfg.mhd:
        B = ath.curl_faces(st.mesh, [lambda *x: 0 * x[0]] * 3, b0, cfg.cyl)
        W["b"] = ath.cell_b(st.mesh, B, cfg.cyl)
    return ath.State(st.mesh, ath.prim_to_cons(cfg, W, gamma), B)


def uniform(name, cfg, b, seed, prob, dims=(1, 2, 3)):
    gamma = 4 / 3 if cfg.sr else 5 / 3
    rng = np.random.default_rng([seed, 3])
    for dim in dims:
        sets = {"per": (4, 4, 4), "out": (2, 2, 2)}
        sets["wall"] = tuple([1, 2, 4][int(q)] for q in rng.permutation(3))
        if cfg.mhd:
            sets["conduct"] = tuple([5, 4, 4][int(q)] for q in rng.permutation(3))
        if cfg.selfg:
            sets = {"per": (4, 4, 4)}
        L, org = rng.uniform(0.6, 1.6, 3), rng.uniform(-1, 1, 3)
        m = ath.Mesh(SH[dim], org, org + L)
        act = [q > 1 for q in SH[dim]]
        for bn, bc in sets.items():
            fl = uflow(cfg, seed + dim, act, gamma)
            st = fl.state(m, conc=[0.7, 1.9][:cfg.ns])
            if bn in ("wall", "conduct"):
                st = compat(cfg, st, fl, bc, gamma)
            pr = dict(prob)
            if cfg.selfg:
                pr["mean_rho"] = float(st.U[..., 0].mean())
            case = f"{name}/{dim}d/uniform/{bn}/{seed}"
            r = run(cfg, b, case, [st], bc, STEPS[dim] * (3 if c.thorough else 1), gamma, pr)
            if r:
                judge(case, cfg, st, ath.load_all(r.dir)[(0, 0)], r, "uniform state changed", m)


def tracer(name, cfg, b, seed, dims=(1, 2, 3)):
    for dim in dims:
        rng = np.random.default_rng([seed, dim, 4])
        m = ath.Mesh(SH[dim], (0, 0, 0), rng.uniform(0.7, 1.4, 3))
        for kind in ("smooth", "shock"):
            fl = ath.Flow(cfg, seed + dim, kind, [q > 1 for q in SH[dim]], amp=0.3, mach=0.8)
            conc = rng.uniform(0.1, 2.0, cfg.ns)
            st = fl.state(m, conc=conc)
            bn, bc = [("per", (4, 4, 4)), ("out", (2, 2, 2))][seed % 2]
            case = f"{name}/{dim}d/tracer-{kind}/{bn}/{seed}"
            r = run(cfg, b, case, [st], bc, STEPS[dim], 5 / 3)
            if not r:
                continue
            g = ath.load_all(r.dir)[(0, 0)]
            for n in range(cfg.ns):
                e = float(np.max(np.abs(g.U[..., cfg.idx(f"s{n}")] / g.U[..., 0] / conc[n] - 1)))
                c.maxc("worst_tracer_deviation", e if not cfg.single else 0)
                c.case(f"{case}/s{n}", g.nstep >= 3 and float(np.max(np.abs(g.U - st.U))) > 1e-4, {"case": case, "tracer": n, "deviation": e})
                if not e < tol(cfg):
                    c.violation(f"{case}/s{n}", f"uniform tracer concentration changed by {e:.3g}", r)


def contact(name, cfg, b, seed, dims=(1, 2, 3)):
    """random density in uniform pressure, velocity and field"""
    gamma = 4 / 3 if cfg.sr else 5 / 3
    for dim in dims:
        rng = np.random.default_rng([seed, dim, 6])
        m = ath.Mesh(SH[dim], (0, 0, 0), rng.uniform(0.7, 1.4, 3))
        fl = uflow(cfg, seed + dim, [q > 1 for q in SH[dim]], gamma)
        X = m.grid()
        W = fl.prim([X[a] for a in range(3)])
        W["d"] = np.where(rng.random(W["d"].shape) < 0.5, 1.0, rng.uniform(0.5, 4.0, W["d"].shape))
        B = None
        if cfg.mhd:
            B = ath.curl_faces(m, [lambda *x: 0 * x[0]] * 3, fl.b0)
            W["b"] = ath.cell_b(m, B)
        st = ath.State(m, ath.prim_to_cons(cfg, W, gamma), B)
        case = f"{name}/{dim}d/contact/{seed}"
        r = run(cfg, b, case, [st], (4, 4, 4), STEPS[dim], gamma)
        if not r:
            continue
        g = ath.load_all(r.dir)[(0, 0)]
        if cfg.sr:
            d = g.U[..., 0]   # uniform velocity and pressure are an exact linear relation between D and the other variables
            ref = st.U[..., :]
            D0 = ref[..., 0]
            e = 0.0
            for q in (1, 2, 3, 4):
                A = np.polyfit(D0.ravel(), ref[..., q].ravel(), 1)
                e = max(e, float(np.max(np.abs(np.polyval(A, d) - g.U[..., q]))))
        else:
            V = ath.cons_to_prim(cfg, g.U, gamma)
            e = max(float(np.max(np.abs(V["P"] / W["P"] - 1))), max(float(np.max(np.abs(V["v"][a] - W["v"][a]))) for a in range(3)))
        c.maxc("worst_contact_deviation" + ("_sr" if cfg.sr else ""), e)
        c.case(case, g.nstep >= 3 and float(np.max(np.abs(g.U - st.U))) > 1e-3, {"case": case, "deviation": e})
        if not e < (1e-5 if cfg.sr else 1e-10):
            c.violation(case, f"pressure or velocity across a contact changed by {e:.3g}", r)


def t_solver(name, args, prob, n):
    def f():
        cfg = ath.Cfg(args)
        b = c.build(args)
        if not b.ok:
            return
        for rep in range(4 if c.thorough else 1):
            s = c.seed * 1000 + n * 10 + rep
            uniform(name, cfg, b, s, prob, (2, 3) if cfg.selfg and 0 else (1, 2, 3))
            if cfg.ns:
                tracer(name, cfg, b, s)
            if not cfg.iso and not prob and not cfg.single:
                contact(name, cfg, b, s)
    return f


def t_smr(name, args, n):
    def f():
        cfg = ath.Cfg(args)
        b = c.build(args)
        if not b.ok:
            return
        for rep in range(3 if c.thorough else 1):
            s = c.seed * 1000 + n * 10 + rep
            for dim in (1, 2, 3):
                for hn in ath.HIER[dim]:
                    rng = np.random.default_rng([s, dim, 9])
                    org = rng.uniform(-1, 1, 3)
                    root, subs = ath.hierarchy(dim, hn, org, org + rng.uniform(0.7, 1.4, 3))
                    fl = uflow(cfg, s + dim, [q > 1 for q in root.N], 5 / 3)
                    for bn, bc in (("per", (4, 4, 4)), ("out", (2, 2, 2))):
                        case = f"{name}/{dim}d/{hn}/uniform/{bn}/{s}"
                        states = [fl.state(m, conc=[0.7, 1.9][:cfg.ns]) for m in [root] + subs]
                        r = run(cfg, b, case, states, bc, {1: 12, 2: 8, 3: 4}[dim], 5 / 3, subs=subs)
                        if r:
                            A = ath.load_all(r.dir)
                            for st in states:
                                k = (st.mesh.level, st.mesh.dom)
                                judge(f"{case}/L{k[0]}D{k[1]}", cfg, st, A[k], r, "uniform state changed on a refined mesh", st.mesh)
    return f


def t_mpi(name, args, n):
    def f():
        cfg = ath.Cfg(args)
        b = c.build(args)
        if not b.ok:
            return
        s = c.seed * 1000 + n
        for dim, ng in ((1, (3, 1, 1)), (2, (2, 2, 1)), (3, (2, 1, 2)), (3, (1, 2, 2))):
            m = ath.Mesh(SH[dim], (0, 0, 0), (1, 1.3, 0.8))
            fl = uflow(cfg, s + dim, [q > 1 for q in SH[dim]], 5 / 3)
            st = fl.state(m, conc=[0.7, 1.9][:cfg.ns])
            for bn, bc in (("per", (4, 4, 4)), ("out", (2, 2, 2))):
                case = f"{name}/{dim}d/{ng}/uniform/{bn}/{s}"
                r = run(cfg, b, case, [st], bc, STEPS[dim], 5 / 3, np_=int(np.prod(ng)), dom_extra={f"NGrid_x{a+1}": ng[a] for a in range(3)})
                if r:
                    judge(case, cfg, st, ath.load_all(r.dir)[(0, 0)], r, "uniform state changed", m)
    return f


def t_cyl(name, args, n):
    def f():
        cfg = ath.Cfg(args)
        b = c.build(args)
        if not b.ok:
            return
        for rep in range(3 if c.thorough else 1):
            s = c.seed * 1000 + n * 10 + rep
            for dim in (1, 2, 3):
                rng = np.random.default_rng([s, dim, 11])
                R0 = rng.uniform(0.5, 3)
                m = ath.Mesh(SH[dim], (R0, 0, 0), (R0 + rng.uniform(0.5, 2), rng.uniform(0.5, 2), 1))
                one = np.ones(m.grid()[0].shape)
                W = {"d": 1.3 * one, "P": rng.uniform(0.3, 2) * one, "v": [0 * one, 0 * one, rng.uniform(-1, 1) * one]}
                B = None
                if cfg.mhd:
                    B = ath.curl_faces(m, [lambda *x: 0 * x[0]] * 3, (0, 0, rng.uniform(-1, 1)), True)
                    W["b"] = ath.cell_b(m, B, True)
                st = ath.State(m, ath.prim_to_cons(cfg, W, 5 / 3), B)
                for bn, bc in (("out", (2, 4, 4)), ("wall", (1, 4, 4))):
                    case = f"{name}/{dim}d/uniform/{bn}/{s}"
                    r = run(cfg, b, case, [st], bc, STEPS[dim], 5 / 3)
                    if r:
                        judge(case, cfg, st, ath.load_all(r.dir)[(0, 0)], r, "uniform state changed", m)
    return f


T = [(n, t_smr(n, a, i + 60)) for i, (n, a) in enumerate(SMR)] + [(n, t_solver(n, a, p, i)) for i, (n, a, p) in enumerate([(n, a, {}) for n, a in SOLVERS] + EXTRA)]
T += [(n, t_cyl(n, a, i + 70)) for i, (n, a) in enumerate(CYL)] + [(n, t_mpi(n, a, i + 80)) for i, (n, a) in enumerate(MPI)]
c.parallel(T)
c.finish(min_cases=150)
