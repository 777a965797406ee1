"""C13: refined meshes: conservation over the finest cells, restriction, div B on all levels, matching interface fields, accuracy across level boundaries."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np, ath
from vlib import Check

c = Check("C13", rule="one case = (configuration, refinement layout, flow, decomposition, seed); non-trivial if the state changed and >= 2 steps were monitored on >= 2 levels",
          assumptions=["conservation is judged on uncovered cells, relative to the absolute content, per step", "initial face fields of all levels come from one vector potential, integrated consistently"])
CONF = [
    ("h-ctu-3-s1", "--with-gas=hydro --with-order=3 --with-flux=hllc --with-nscalars=1"),
    ("h-ctu-2-roe", "--with-gas=hydro --with-order=2"),
    ("h-vl-2p-s2", "--with-gas=hydro --with-integrator=vl --with-order=2p --with-flux=hllc --with-nscalars=2"),
    ("hi-ctu-2", "--with-gas=hydro --with-eos=isothermal --with-order=2"),
    ("hi-vl-3p", "--with-gas=hydro --with-eos=isothermal --with-integrator=vl --with-order=3p --with-flux=hlle"),
    ("m-ctu-2-s1", "--with-order=2 --with-flux=hlld --with-nscalars=1"),
    ("m-ctu-3-roe", "--with-order=3 --with-flux=roe"),
    ("m-vl-2p", "--with-integrator=vl --with-order=2p --with-flux=hlld"),
    ("mi-ctu-3", "--with-eos=isothermal --with-order=3 --with-flux=hlld"),
    ("mi-vl-2p-s1", "--with-eos=isothermal --with-integrator=vl --with-order=2p --with-flux=roe --with-nscalars=1"),
]
MPI = [("mpi-h", "--with-gas=hydro --with-order=2 --with-nscalars=1 --enable-mpi"), ("mpi-m", "--with-order=2 --with-flux=hlld --enable-mpi"),
       ("mpi-mi-vl", "--with-eos=isothermal --with-integrator=vl --with-order=2p --with-flux=hlld --enable-mpi")]
EPS = 2.3e-16


def restrict(x, mesh):
    """average of 2^dim fine cells; x[k,j,i,...]"""
    for ax, a in ((2, 0), (1, 1), (0, 2)):
        if mesh.act(a):
            s = [slice(None)] * x.ndim
            e = list(s)
            s[ax], e[ax] = slice(0, None, 2), slice(1, None, 2)
            x = 0.5 * (x[tuple(s)] + x[tuple(e)])
    return x


def restrict_face(b, a, mesh):
    """average fine faces of direction a onto coarse faces (all coarse faces of the region)"""
    for ax in range(3):
        q = 2 - ax
        if not mesh.act(q):
            continue
        s = [slice(None)] * 3
        e = list(s)
        if q == a:
            s[ax] = slice(0, None, 2)
            b = b[tuple(s)]
        else:
            s[ax], e[ax] = slice(0, None, 2), slice(1, None, 2)
            b = 0.5 * (b[tuple(s)] + b[tuple(e)])
    return b


def win(parent, child):
    """index window (array axes k,j,i) of the child region on the parent mesh, in parent cells"""
    w = []
    for a in (2, 1, 0):
        if parent.act(a):
            lo = child.disp[a] // 2 - parent.disp[a]
            w.append((lo, lo + child.N[a] // 2))
        else:
            w.append((0, 1))
    return w


def parent_of(meshes, child):
    for m in meshes:
        if m.level == child.level - 1:
            w = win(m, child)
            if all(w[q][0] >= 0 and w[q][1] <= (m.N[2], m.N[1], m.N[0])[q] for q in range(3)):
                return m


def totals(cfg, meshes, states):
    tot = ab = 0
    for m, st in zip(meshes, states):
        mask = np.ones(st.U.shape[:3], bool)
        for ch in meshes:
            if ch.level == m.level + 1 and parent_of(meshes, ch) is m:
                w = win(m, ch)
                mask[w[0][0]:w[0][1], w[1][0]:w[1][1], w[2][0]:w[2][1]] = False
        vol = np.prod([m.dx[a] for a in range(3) if m.act(a)])
        U = st.U[mask].astype(np.longdouble) * np.longdouble(vol)
        tot, ab = tot + U.sum(0), ab + np.abs(U).sum(0)
    return tot, ab


def one(name, cfg, b, dim, hn, kind, seed, np_=1, dec=None, prob=None):
    case = f"{name}/{dim}d/{hn}/{kind}/{seed}{'/np%d' % np_ if dec else ''}"
    rng = np.random.default_rng([seed, dim, 31])
    org = rng.uniform(-1, 1, 3)
    L = rng.uniform(0.7, 1.4, 3)
    root, subs = ath.hierarchy(dim, hn, org, org + L)
    meshes = [root] + subs
    fl = ath.Flow(cfg, seed, kind, [q > 1 for q in root.N], amp=0.3, mach=0.9, kmax=2)
    mx = max(m.level for m in meshes)
    states = [fl.state(m, sub=2 ** (mx - m.level)) for m in meshes]
    # coarse data under fine data are the restriction already (so the initial totals are well defined either way)
    d = c.tmp("i")
    ath.write_init(d + "/init.bin", cfg, states)
    steps = {1: 16, 2: 8, 3: 4}[dim] * (2 if c.thorough else 1)
    inp = ath.base_inp(cfg, root, d + "/init.bin", nlim=steps, cour=0.35, subs=subs, problem=dict(prob or {}))
    if dec:
        for n, ng in enumerate(dec):
            inp[f"domain{n+1}"].update({f"NGrid_x{a+1}": ng[a] for a in range(3)})
    r = c.run(b, inp, np=np_)
    if not c.ok_run(r, case):
        return
    mon = [q for q in ath.read_mon(r.dir, cfg.nv) if q["ev"] == "step"]
    A = ath.load_all(r.dir)
    if any(q["nan"] for q in mon) or len(mon) < 2:
        c.violation(case + "/nan", "non-finite state or no steps", r)
        return
    vol = np.prod([L[a] for a in range(3) if root.act(a)])
    s0, a0 = totals(cfg, meshes, states)
    worst = {}
    for q in mon:
        if abs(q["vol"] / vol - 1) > 1e-12:
            c.violation(case + "/cover", f"uncovered cells have volume {q['vol']} of {vol}: levels overlap or leave gaps", r)
            return
        sc = np.maximum(a0, q["a"][:-1])
        sc[1:4] = max(sc[1:4].sum(), sc[0])
        for n, nm in enumerate(cfg.names):
            if not nm.startswith("B"):
                worst[nm] = max(worst.get(nm, 0), float(abs(q["s"][n] - s0[n]) / sc[n] / EPS / q["step"]))
    wd = max(q["div"] / max(q["bsc"], 1e-30) / EPS / (q["step"] + 2) for q in mon) if cfg.mhd else 0.0
    wc = max(q["cc"] / max(q["bmax"], 1e-30) / EPS for q in mon) if cfg.mhd else 0.0
    rw = fw = 0.0
    nint = 0
    for m in subs:
        p = parent_of(meshes, m)
        P, F = A[(p.level, p.dom)], A[(m.level, m.dom)]
        w = win(p, m)
        sl = tuple(slice(*q) for q in w)
        R = restrict(F.U, m)
        sc = np.max(np.abs(P.U), axis=(0, 1, 2))
        sc[1:4] = max(sc[1:4].max(), 1e-3)
        cols = [n for n, nm in enumerate(cfg.names) if not (nm.startswith("B") and root.act(int(nm[1]) - 1))]  # active B: judged on faces
        rw = max(rw, float(np.max(np.abs(R - P.U[sl])[..., cols] / np.maximum(sc[cols], 1e-3))))
        nint += R[..., 0].size
        if cfg.mhd:
            for a in range(3):
                if not p.act(a):
                    continue
                s2 = list(sl)
                s2[2 - a] = slice(w[2 - a][0], w[2 - a][1] + 1)
                pf, ff = P.B[a][tuple(s2)], restrict_face(F.B[a], a, m)
                fw = max(fw, float(np.max(np.abs(pf - ff)) / max(np.max(np.abs(pf)), 1e-3)))
    ch = max(float(np.max(np.abs(A[(m.level, m.dom)].U - s.U))) for m, s in zip(meshes, states))
    c.case(case, ch > 1e-4, {"case": case, "levels": mx + 1, "steps": len(mon), "drift_eps_per_step": worst, "restriction_error": rw, "interface_field_error": fw, "div_eps": wd})
    c.count("steps_monitored", len(mon))
    c.count("covered_cells_compared", nint)
    c.maxc("worst_drift_eps_per_step", max(worst.values()))
    c.maxc("worst_restriction_error", rw)
    c.maxc("worst_interface_field_error", fw)
    c.maxc("worst_div_eps_per_step", wd)
    for nm, e in worst.items():
        if not e < 60:
            c.violation(f"{case}/{nm}", f"total {nm} on the composite mesh drifted by {e:.3g} epsilon per step", r)
    if not rw < 1e-12:
        c.violation(case + "/restriction", f"covered coarse cells differ from the average of the fine cells by {rw:.3g}", r)
    if not fw < 1e-12:
        c.violation(case + "/faces", f"coarse face fields differ from the average of the fine ones by {fw:.3g}", r)
    if not wd < 40:
        c.violation(case + "/div", f"div B reached {wd:.3g} epsilon per step on some level", r)
    if not wc < 8:
        c.violation(case + "/cellface", f"cell field differs from the face average by {wc:.3g} epsilon", r)


def wave(name, cfg, b, dim, hn, seed):
    """advected entropy wave (adiabatic) across level boundaries, compared with the exact solution and a uniform coarse run"""
    rng = np.random.default_rng([seed, dim, 33])
    err = {}
    v = [0.9, 0.6, -0.5]
    amp = 0.2

    def exact(m, t):
        n = 4
        tot = 0.0
        X = m.grid()
        ph = 0.0
        for a in range(3):
            if m.act(a):
                ph = ph + (X[a] - v[a] * t)
        return 1 + amp * np.sin(2 * np.pi * ph)
    for lay in (hn, None):
        if lay:
            root, subs = ath.hierarchy(dim, lay, (0, 0, 0), (1, 1, 1))
        else:
            root, subs = ath.Mesh(ath.HIER[dim][hn][0], (0, 0, 0), (1, 1, 1)), []
        meshes = [root] + subs
        sts = []
        for m in meshes:
            W = {"d": exact(m, 0.0), "P": np.ones(m.grid()[0].shape), "v": [q + 0 * m.grid()[0] for q in v], "r": [np.ones(m.grid()[0].shape)] * cfg.ns}
            B = None
            if cfg.mhd:
                B = ath.curl_faces(m, [lambda *x: 0 * x[0]] * 3, (0.3, -0.4, 0.2))
                W["b"] = ath.cell_b(m, B)
            sts.append(ath.State(m, ath.prim_to_cons(cfg, W, 5 / 3), B))
        d = c.tmp("i")
        ath.write_init(d + "/init.bin", cfg, sts)
        case = f"{name}/{dim}d/{hn}/wave"
        r = c.run(b, ath.base_inp(cfg, root, d + "/init.bin", nlim=-1, tlim=0.25, cour=0.35, subs=subs, problem={"mon": 0}))
        if not c.ok_run(r, case):
            return
        A = ath.load_all(r.dir)
        e = n = 0
        for m in meshes:
            g = A[(m.level, m.dom)]
            e = max(e, float(np.mean(np.abs(g.U[..., 0] - exact(m, g.time)))))
            V = ath.cons_to_prim(cfg, g.U, 5 / 3)
            n = max(n, float(np.max(np.abs(V["P"] - 1))))
        err[lay] = (e, n, r)
    e1, n1, r1 = err[hn]
    e0, n0, _ = err[None]
    c.case(f"{name}/{dim}d/{hn}/wave", True, {"case": f"{name}/{dim}d/{hn}/wave", "error_refined": e1, "error_uniform": e0, "pressure_error": n1})
    c.maxc("worst_wave_error_ratio", e1 / e0)
    if not e1 < 1.3 * e0 or not e0 < 0.2 * amp:
        c.violation(f"{name}/{dim}d/{hn}/wave", f"advected wave: error {e1:.3g} with refinement, {e0:.3g} without", r1)
    if not n1 < 1e-3:
        c.violation(f"{name}/{dim}d/{hn}/wave-p", f"advected wave: pressure perturbed by {n1:.3g} at level boundaries", r1)


def linear(name, cfg, b, dim, hn, seed, np_=1, dec=None):
    """fields that vary linearly in space: every ghost zone of every refined Grid, edges and corners included, holds the exact value"""
    rng = np.random.default_rng([seed, dim, 35])
    root, subs = ath.hierarchy(dim, hn, (0.0, 0.0, 0.0), (1.0, 1.2, 0.9))
    meshes = [root] + subs
    act = np.array([root.act(a) for a in range(3)])
    co = {nm: rng.uniform(-0.3, 0.3, 3) * act for nm in cfg.names}
    off = {nm: 1.5 if nm == "d" else float(rng.uniform(-0.6, 0.6)) for nm in cfg.names}
    gb = rng.uniform(-0.3, 0.3, (3, 3)) * act[None, :]     # dB_i/dx_j, trace 0
    if act.sum() == 1:
        gb[0, 0] = 0.0
    else:
        gb[1, 1] = -gb[0, 0] - gb[2, 2]
    b0 = rng.uniform(-0.5, 0.5, 3)
    for part in ("all", "pressure"):
        k = 1.0 if part == "all" else 0.0
        if cfg.iso and not k:
            continue

        def U(X):
            v = np.zeros(X[0].shape + (cfg.nv,))
            for n, nm in enumerate(cfg.names):
                if nm[0] == "B":
                    v[..., n] = b0[int(nm[1]) - 1] + k * sum(gb[int(nm[1]) - 1][a] * X[a] for a in range(3))
                elif nm != "E":
                    v[..., n] = off[nm] + k * sum(co[nm][a] * X[a] for a in range(3))
            if not cfg.iso:
                e = 2.0 + sum(co["E"][a] * X[a] for a in range(3)) + 0.5 * (v[..., 1:4] ** 2).sum(-1) / v[..., 0]
                if cfg.mhd:
                    e = e + 0.5 * sum(v[..., cfg.idx(f"B{a}c")] ** 2 for a in (1, 2, 3))
                v[..., 4] = e
            return v

        def F(i, X):
            return b0[i] + k * sum(gb[i][a] * X[a] for a in range(3))
        sts = [ath.State(m, U(m.grid()), [F(i, m.grid("c" * i + ("f" if act[i] or i == 0 else "c") + "c" * (2 - i))) for i in range(3)] if cfg.mhd else None) for m in meshes]
        d = c.tmp("i")
        ath.write_init(d + "/init.bin", cfg, sts)
        case = f"{name}/{dim}d/{hn}/linear-{part}{'/np%d' % np_ if dec else ''}"
        inp = ath.base_inp(cfg, root, d + "/init.bin", bc=((2, 2), (2, 2), (2, 2)), nlim=0, subs=subs, problem={"ghostdump": 1, "mon": 0})
        if dec:
            for n, ng in enumerate(dec):
                inp[f"domain{n+1}"].update({f"NGrid_x{a+1}": ng[a] for a in range(3)})
        r = c.run(b, inp, np=np_)
        if not c.ok_run(r, case):
            return
        n = 0
        worst = {}
        for p in ath.find(r.dir, "dump.ghost.*.bin"):
            for q in ath.read_dump(p):
                if not q.level:
                    continue
                xs = [q.min[a] + (np.arange(q.N[a]) + 0.5 - (q.ghost if act[a] else 0)) * q.dx[a] for a in range(3)]

                def G(x):
                    Z, Y, X = np.meshgrid(x[2], x[1], x[0], indexing="ij")
                    return X, Y, Z
                cols = [m for m, nm in enumerate(cfg.names) if nm != "E"] if k else [4]
                e = np.abs(q.U - U(G(xs)))[..., cols]
                n += e.size
                for m, col in enumerate(cols):
                    worst[cfg.names[col]] = max(worst.get(cfg.names[col], 0.0), float(np.nanmax(np.where(np.isfinite(e[..., m]), e[..., m], 1e9))))
                if cfg.mhd and k:
                    for i in range(3):
                        if not act[i]:
                            continue
                        x = list(xs)
                        x[i] = x[i] - 0.5 * q.dx[i]
                        s = [slice(None)] * 3
                        s[2 - i] = slice(1, None)
                        e = np.abs(q.B[i] - F(i, G(x)))[tuple(s)]
                        n += e.size
                        worst[f"face B{i+1}"] = max(worst.get(f"face B{i+1}", 0.0), float(np.nanmax(np.where(np.isfinite(e), e, 1e9))))
        c.case(case, n > 0)
        c.count("linear_ghost_values_compared", n)
        c.maxc("worst_linear_ghost_error", max(worst.values()))
        bad = {q: v for q, v in worst.items() if not v < 1e-12}
        if bad or not n:
            c.violation(case, f"ghost zones of refined Grids do not continue a linear profile exactly: {bad}", r)


def t_conf(name, args, n):
    def f():
        cfg = ath.Cfg(args)
        b = c.build(args + " --enable-smr")
        if not b.ok:
            return
        for rep in range(4 if c.thorough else 1):
            s = c.seed * 1000 + n * 10 + rep
            for dim in (1, 2, 3):
                for q, hn in enumerate(SERIAL[dim]):
                    one(name, cfg, b, dim, hn, ["smooth", "shock"][(q + n + rep) % 2], s + q)
                    if rep == 0 and not hn.startswith("spanning"):
                        linear(name, cfg, b, dim, hn, s + q)
                    if dim == 2:
                        one(name, cfg, b, dim, hn, ["smooth", "shock"][(q + n + rep + 1) % 2], s + q)
            if not cfg.iso and rep == 0:
                for dim, hn in ((1, "one"), (2, "one"), (2, "two-levels")):
                    wave(name, cfg, b, dim, hn, s)
    return f


def t_mpi(name, args, n):
    def f():
        cfg = ath.Cfg(args)
        b = c.build(args + " --enable-smr")
        if not b.ok:
            return
        s = c.seed * 1000 + n * 10
        O = (1, 1, 1)
        plans = [(2, "aligned", 4, [(3, 1, 1), O]), (2, "aligned", 4, [(1, 3, 1), O]), (2, "aligned", 6, [(2, 2, 1), (2, 1, 1)]), (3, "aligned", 4, [(3, 1, 1), O]), (3, "aligned", 4, [(1, 3, 1), O]),
                 (3, "aligned", 4, [(1, 1, 3), O]), (3, "aligned", 5, [(1, 1, 1), (2, 2, 1)]),
                 (1, "one", 2, [(1, 1, 1), (1, 1, 1)]), (2, "two-levels", 4, [(2, 1, 1), (1, 1, 1), (1, 1, 1)]), (2, "one", 3, [(1, 1, 1), (1, 2, 1)]), (2, "one", 4, [(2, 1, 1), (1, 2, 1)]),
                 (3, "one", 4, [(1, 2, 1), (1, 1, 2)]), (2, "two-regions", 4, [(2, 1, 1), (1, 1, 1), (1, 1, 1)])]
        for q, (dim, hn, np_, dec) in enumerate(plans):
            one(name, cfg, b, dim, hn, ["smooth", "shock"][(q + n) % 2], s + q, np_, dec)
        for q, (dim, hn, np_, dec) in enumerate(plans):
            linear(name, cfg, b, dim, hn, s + q, np_, dec)
        # parent Grids that touch the refined region only at a corner
        one(("corner-" if cfg.mhd else "") + name, cfg, b, 2, "aligned", "smooth", 3, 10, [(3, 3, 1), O])
        # parent Grid edges on the child's edge, and the child split along that edge
        one(("alignsplit-" if cfg.mhd else "") + name, cfg, b, 2, "aligned", "shock", 3, 5, [(1, 3, 1), (2, 1, 1)])
    return f


def t_diff(name, args, prob):
    def f():
        b = c.build(args + " --enable-smr")
        if b.ok:
            for dim in (1, 2):
                one("smr-diffusion-" + name, ath.Cfg(args), b, dim, "one", "smooth", 3, prob=prob)
    return f


EXTRA = {2: {"aligned": ((12, 12, 1), [(1, (4, 4), (8, 8))])}, 3: {"aligned": ((12, 12, 12), [(1, (4, 4, 4), (8, 8, 8))])}}
SERIAL = {d: list(h) for d, h in ath.HIER.items()}
for d in EXTRA:
    ath.HIER[d].update(EXTRA[d])
c.parallel([("diff-cond", t_diff("cond", "--with-gas=hydro --with-order=2 --with-flux=hllc --enable-conduction", {"kappa_iso": 1e-3})),
            ("diff-res", t_diff("res", "--with-order=2 --with-flux=hlld --enable-resistivity", {"eta_O": 1e-3}))] + [(n, t_mpi(n, a, i + 40)) for i, (n, a) in enumerate(MPI)] + [(n, t_conf(n, a, i)) for i, (n, a) in enumerate(CONF)])
c.finish(min_cases=80)
