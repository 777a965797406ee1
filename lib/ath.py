"""State generation (numpy), vpgen file format, traces. Independent of the code under test."""
import glob, os, struct
import numpy as np

MAGIC = 0x56504731


class Cfg:
    """What a configuration line means for the layout of a state."""
    def __init__(self, args):
        self.args = args
        self.mhd = "--with-gas=hydro" not in args
        self.iso = "--with-eos=isothermal" in args
        import re
        m = re.search(r"--with-nscalars=(\d+)", args)
        self.ns = int(m[1]) if m else 0
        self.sr = "--enable-special-relativity" in args
        self.cyl = "--with-coord=cylindrical" in args
        self.single = "--enable-single" in args
        self.shear = "--enable-shearing-box" in args
        self.fargo = "--enable-fargo" in args
        self.selfg = "--with-gravity=" in args
        self.part = "--with-particles=" in args
        self.feedback = "--with-particles=feedback" in args
        self.smr = "--enable-smr" in args
        self.mpi = "--enable-mpi" in args
        self.vl = "--with-integrator=vl" in args

    @property
    def names(self):
        n = ["d", "M1", "M2", "M3"]
        if not self.iso:
            n.append("E")
        if self.mhd:
            n += ["B1c", "B2c", "B3c"]
        return n + [f"s{i}" for i in range(self.ns)]

    @property
    def nv(self):
        return len(self.names)

    def idx(self, name):
        return self.names.index(name)


class Mesh:
    """Root or refined domain: N, cell size and position; array order [k][j][i]."""
    def __init__(self, N, xmin=(0., 0., 0.), xmax=(1., 1., 1.), level=0, disp=(0, 0, 0), dom=0, rootN=None):
        self.N = tuple(N)
        self.xmin0, self.xmax0 = np.array(xmin, float), np.array(xmax, float)
        self.level, self.disp, self.dom = level, tuple(disp), dom
        rootN = rootN or N
        self.rootN = tuple(rootN)
        f = 2 ** level
        self.dx = np.array([(self.xmax0[a] - self.xmin0[a]) / rootN[a] / (f if rootN[a] > 1 else 1) for a in range(3)])
        self.org = np.array([self.xmin0[a] + self.disp[a] * self.dx[a] for a in range(3)])
        self.dim = sum(n > 1 for n in self.N)

    def cc(self, a):
        return self.org[a] + (np.arange(self.N[a]) + 0.5) * self.dx[a]

    def fc(self, a):
        return self.org[a] + np.arange(self.N[a] + 1) * self.dx[a]

    def act(self, a):
        return self.N[a] > 1

    def grid(self, where="ccc"):
        xs = [self.cc(a) if where[a] == "c" else self.fc(a) for a in range(3)]
        X3, X2, X1 = np.meshgrid(xs[2], xs[1], xs[0], indexing="ij")
        return X1, X2, X3


class State:
    """Conserved state on one domain. U[k,j,i,v], B = (B1i,B2i,B3i) or None"""
    def __init__(self, mesh, U, B=None):
        self.mesh, self.U, self.B = mesh, U, B


class Modes:
    """Random periodic scalar field of fractional coordinates; same field for every mesh."""
    def __init__(self, rng, n=4, kmax=2, active=(1, 1, 1)):
        k = rng.integers(-kmax, kmax + 1, size=(n, 3))
        for q in range(n):
            if not (k[q] * np.array(active)).any():
                k[q, int(np.argmax(active))] = 1
        self.k = k * np.array(active)
        self.a = rng.normal(size=n)
        self.a /= np.abs(self.a).sum()
        self.p = rng.uniform(0, 2 * np.pi, size=n)

    def __call__(self, f1, f2, f3):
        s = 0.
        for k, a, p in zip(self.k, self.a, self.p):
            s = s + a * np.cos(2 * np.pi * (k[0] * f1 + k[1] * f2 + k[2] * f3) + p)
        return s


def prim_to_cons(cfg, W, gamma, cs=1.0):
    """W dict: d,v(3),P,b(3 cell-centred),r(list) arrays -> U[...,nv]"""
    d = np.asarray(W["d"], float)
    v = [np.broadcast_to(x, d.shape) for x in W["v"]]
    b = [np.broadcast_to(x, d.shape) for x in W.get("b", (0., 0., 0.))] if cfg.mhd else [0., 0., 0.]
    out = []
    if not cfg.sr:
        M = [d * x for x in v]
        out = [d] + M
        if not cfg.iso:
            out.append(W["P"] / (gamma - 1) + 0.5 * d * sum(x * x for x in v) + 0.5 * sum(x * x for x in b))
        D = d
    else:
        v2 = sum(x * x for x in v)
        lor = 1 / np.sqrt(1 - v2)
        D = d * lor
        wg = (d + gamma / (gamma - 1) * W["P"]) * lor ** 2
        b2 = sum(x * x for x in b)
        vb = sum(x * y for x, y in zip(v, b))
        M = [(wg + b2) * x - vb * y for x, y in zip(v, b)]
        out = [D] + M + [wg - W["P"] + 0.5 * b2 + 0.5 * (v2 * b2 - vb ** 2)]
    if cfg.mhd:
        out += b
    for r in W.get("r", [])[:cfg.ns]:
        out.append(D * r)
    assert len(out) == cfg.nv, (len(out), cfg.names)
    return np.stack([np.broadcast_to(x, d.shape) for x in out], axis=-1).astype(float)


def cons_to_prim(cfg, U, gamma):
    d = U[..., 0]
    v = [U[..., 1 + a] / d for a in range(3)]
    W = {"d": d, "v": v}
    b = [U[..., cfg.idx(f"B{a}c")] for a in (1, 2, 3)] if cfg.mhd else [0 * d] * 3
    if not cfg.iso:
        W["P"] = (gamma - 1) * (U[..., 4] - 0.5 * d * sum(x * x for x in v) - 0.5 * sum(x * x for x in b))
    W["b"] = b
    W["r"] = [U[..., cfg.idx(f"s{n}")] / d for n in range(cfg.ns)]
    return W


def curl_faces(mesh, A, b0=(0., 0., 0.), cyl=False, sub=1):
    """Face fields from vector potential functions A[a](x1,x2,x3), averaged over `sub` midpoints along each edge so
    that refined levels are consistent; exactly discretely divergence-free up to round-off."""
    dx = mesh.dx

    def edge(a):
        # edge along direction a: centred in a, faces in the others
        xs = [mesh.cc(q) if q == a else (mesh.fc(q) if mesh.act(q) else mesh.fc(q)[:1] + 0 * mesh.fc(q)[:1]) for q in range(3)]
        tot = 0.
        n = sub if mesh.act(a) else 1
        for s in range(n):
            ys = list(xs)
            ys[a] = xs[a] + dx[a] * ((s + 0.5) / n - 0.5)
            # inactive directions are sampled at the cell centre
            for q in range(3):
                if q != a and not mesh.act(q):
                    ys[q] = mesh.cc(q)
            X3, X2, X1 = np.meshgrid(ys[2], ys[1], ys[0], indexing="ij")
            tot = tot + A[a](X1, X2, X3)
        return tot / n

    E1, E2, E3 = edge(0), edge(1), edge(2)
    N = mesh.N

    def d(E, a):  # difference along direction a (axis 2-a), 0 if inactive
        ax = 2 - a
        if not mesh.act(a):
            return 0.
        return np.diff(E, axis=ax)

    rf = mesh.fc(0)[None, None, :] if cyl else 1.0
    rc = mesh.cc(0)[None, None, :] if cyl else 1.0
    sh1 = (N[2], N[1], N[0] + 1)
    sh2 = (N[2], N[1] + (N[1] > 1), N[0])
    sh3 = (N[2] + (N[2] > 1), N[1], N[0])
    B1 = np.zeros(sh1) + d(E3, 1) / dx[1] / rf - d(E2, 2) / dx[2]
    B2 = np.zeros(sh2) + d(E1, 2) / dx[2] - d(E3, 0) / dx[0]
    if cyl:
        B3 = np.zeros(sh3) + np.diff(E2 * rf, axis=2) / dx[0] / rc - d(E1, 1) / dx[1] / rc
    else:
        B3 = np.zeros(sh3) + d(E2, 0) / dx[0] - d(E1, 1) / dx[1]
    return B1 + (b0[0] / rf if cyl else b0[0]), B2 + b0[1], B3 + b0[2]


def cell_b(mesh, B, cyl=False):
    B1, B2, B3 = B
    if cyl:
        rf, rc = mesh.fc(0), mesh.cc(0)
        b1 = 0.5 * (rf[:-1] * B1[..., :-1] + rf[1:] * B1[..., 1:]) / rc
    else:
        b1 = 0.5 * (B1[..., :-1] + B1[..., 1:])
    b2 = 0.5 * (B2[:, :-1, :] + B2[:, 1:, :]) if mesh.act(1) else B2
    b3 = 0.5 * (B3[:-1] + B3[1:]) if mesh.act(2) else B3
    return b1, b2, b3


class Flow:
    """Seeded random flow: kind in uniform|smooth|shock|shear; evaluate on any mesh. Fractions of the root box."""
    def __init__(self, cfg, seed, kind="smooth", active=(1, 1, 1), gamma=5 / 3, cs=1.0, amp=0.3, mach=0.6, beta=1.0, kmax=2, mean_b=True, mean_v=True, flip=1):
        rng = np.random.default_rng(seed)
        self.cfg, self.kind, self.gamma, self.cs = cfg, kind, gamma, cs
        self.rng = rng
        m = lambda: Modes(rng, 4, kmax, active)
        self.md, self.mp, self.mv, self.ma, self.mr = m(), m(), [m() for _ in range(3)], [m() for _ in range(3)], [m() for _ in range(max(cfg.ns, 1))]
        self.amp, self.mach = amp, mach
        self.v0 = rng.uniform(-1, 1, 3) * (0.7 if mean_v else 0.0)
        self.bscale = np.sqrt(2.0 / beta) * 0.4
        self.b0 = rng.uniform(-1, 1, 3) * self.bscale * (1.0 if mean_b else 0.0)
        self.cen = rng.uniform(0.35, 0.65, 3)
        self.jd, self.jp = 10 ** rng.uniform(-0.7, 0.7), 10 ** rng.uniform(0.5, 1.2)
        self.rad = 0.2371
        self.vmax = 0.55
        if cfg.cyl:
            self.b0[0] = 0.0

    def prim(self, f, d0=1.0, p0=1.0):
        cfg, k = self.cfg, self.kind
        shp = np.broadcast(*f).shape
        one = np.ones(shp)
        if k == "uniform":
            W = {"d": d0 * one * (1 + self.amp), "v": [self.v0[a] * self.mach * one for a in range(3)], "P": p0 * one}
        else:
            W = {"d": d0 * (one + self.amp * self.md(*f)), "P": p0 * (one + self.amp * self.mp(*f)),
                 "v": [(self.v0[a] + self.mv[a](*f)) * self.mach for a in range(3)]}
        if k == "shock":
            act = [self.md.k[:, a].any() or self.mp.k[:, a].any() or any(q.k[:, a].any() for q in self.mv) for a in range(3)]
            r2 = sum((((f[a] - self.cen[a] + 0.5) % 1.0 - 0.5) ** 2 if act[a] else 0.0) for a in range(3)) + 0 * one
            ins = r2 < self.rad ** 2
            W["d"] = np.where(ins, W["d"] * self.jd, W["d"])
            W["P"] = np.where(ins, W["P"] * self.jp, W["P"])
        if cfg.sr:
            v2 = np.sqrt(sum(x * x for x in W["v"])) + 1e-30
            lim = np.tanh(v2) / v2 * self.vmax / 0.55 * 0.8
            W["v"] = [x * lim for x in W["v"]]
        if cfg.iso:
            W["P"] = self.cs ** 2 * W["d"]
        W["r"] = [0.5 + 0.4 * self.mr[n % len(self.mr)](*f) for n in range(cfg.ns)]
        return W

    def afun(self, a, mesh):
        x0, L = mesh.xmin0, mesh.xmax0 - mesh.xmin0
        s = self.bscale * 0.15 * min(L[q] for q in range(3) if mesh.rootN[q] > 1)
        return lambda X1, X2, X3: s * self.ma[a]((X1 - x0[0]) / L[0], (X2 - x0[1]) / L[1], (X3 - x0[2]) / L[2])

    def state(self, mesh, sub=1, window=None, conc=None, **kw):
        """window(f1,f2,f3): multiplies A so that the field vanishes at walls, if given."""
        x0, L = mesh.xmin0, mesh.xmax0 - mesh.xmin0
        X = mesh.grid()
        W = self.prim([(X[a] - x0[a]) / L[a] for a in range(3)], **kw)
        if conc is not None:
            W["r"] = [conc[n] * np.ones_like(W["d"]) for n in range(self.cfg.ns)]
        B = None
        if self.cfg.mhd:
            if self.kind == "uniform":
                A = [lambda *x: 0 * x[0]] * 3
            else:
                A = [self.afun(a, mesh) for a in range(3)]
                if window is not None:
                    A = [(lambda g: lambda *x: g(*x) * window(*[(x[q] - x0[q]) / L[q] for q in range(3)]))(g) for g in A]
            B = curl_faces(mesh, A, self.b0, self.cfg.cyl, sub)
            W["b"] = cell_b(mesh, B, self.cfg.cyl)
        return State(mesh, prim_to_cons(self.cfg, W, self.gamma, self.cs), B)


# ---------------- files ----------------
def write_init(path, cfg, states):
    with open(path, "wb") as f:
        for s in states:
            m = s.mesh
            h = np.zeros(16, np.int64)
            h[:13] = [MAGIC, m.level, m.dom, *m.N, *m.disp, cfg.nv, int(cfg.mhd), 0, 0]
            f.write(h.tobytes())
            f.write(np.array([0, 0, *m.org, *m.dx], float).tobytes())
            f.write(np.ascontiguousarray(s.U, float).tobytes())
            if cfg.mhd:
                for b in s.B:
                    f.write(np.ascontiguousarray(b, float).tobytes())


class Rec:
    pass


def read_dump(path):
    out = []
    data = open(path, "rb").read()
    o = 0
    while o < len(data):
        h = np.frombuffer(data, np.int64, 16, o); o += 128
        x = np.frombuffer(data, float, 8, o); o += 64
        assert h[0] == MAGIC
        r = Rec()
        r.level, r.dom = int(h[1]), int(h[2])
        n1, n2, n3 = (int(v) for v in h[3:6])
        r.N, r.disp, nv, r.ghost, r.nstep = (n1, n2, n3), tuple(int(v) for v in h[6:9]), int(h[9]), int(h[11]), int(h[12])
        r.time, r.dt, r.min, r.dx = float(x[0]), float(x[1]), x[2:5], x[5:8]
        cnt = n1 * n2 * n3 * nv
        r.U = np.frombuffer(data, float, cnt, o).reshape(n3, n2, n1, nv); o += 8 * cnt
        r.B = None
        if h[10]:
            shp = [(n3, n2, n1)] * 3 if r.ghost else [(n3, n2, n1 + 1), (n3, n2 + (n2 > 1), n1), (n3 + (n3 > 1), n2, n1)]
            r.B = []
            for s in shp:
                c = s[0] * s[1] * s[2]
                r.B.append(np.frombuffer(data, float, c, o).reshape(s)); o += 8 * c
        out.append(r)
    return out


def find(dir, pat):
    return sorted(glob.glob(os.path.join(dir, pat)) + glob.glob(os.path.join(dir, "id*", pat)))


def load_all(dir, tag="final"):
    """Assemble the dumps of all ranks: {(level,dom): Rec with global arrays}"""
    parts = {}
    fs = find(dir, f"dump.{tag}.*.bin")
    for p in fs:
        for r in read_dump(p):
            parts.setdefault((r.level, r.dom), []).append(r)
    res = {}
    for k, rs in parts.items():
        lo = [min(r.disp[a] for r in rs) for a in range(3)]
        hi = [max(r.disp[a] + r.N[a] for r in rs) for a in range(3)]
        N = [hi[a] - lo[a] for a in range(3)]
        g = Rec()
        g.level, g.dom, g.N, g.disp, g.time, g.dt, g.nstep, g.dx = k[0], k[1], tuple(N), tuple(lo), rs[0].time, rs[0].dt, rs[0].nstep, rs[0].dx
        g.min = np.min([r.min for r in rs], axis=0)
        g.U = np.full((N[2], N[1], N[0], rs[0].U.shape[-1]), np.nan)
        g.B = None
        g.times = {(r.time, r.dt, r.nstep) for r in rs}
        cover = np.zeros((N[2], N[1], N[0]), int)
        if rs[0].B is not None:
            g.B = [np.full((N[2], N[1], N[0] + 1), np.nan), np.full((N[2], N[1] + (N[1] > 1), N[0]), np.nan), np.full((N[2] + (N[2] > 1), N[1], N[0]), np.nan)]
            g.bmis = 0.0
        for r in rs:
            o = [r.disp[a] - lo[a] for a in range(3)]
            sl = (slice(o[2], o[2] + r.N[2]), slice(o[1], o[1] + r.N[1]), slice(o[0], o[0] + r.N[0]))
            g.U[sl] = r.U
            cover[sl] += 1
            if g.B is not None:
                for a in range(3):
                    s = tuple(slice(o[2 - ax], o[2 - ax] + r.B[a].shape[ax]) for ax in range(3))
                    old = g.B[a][s]
                    both = np.isfinite(old)
                    if both.any():
                        g.bmis = max(g.bmis, float(np.max(np.abs(old[both] - r.B[a][both]))))
                    g.B[a][s] = r.B[a]
        g.cover_ok = bool((cover == 1).all())
        res[k] = g
    return res


def read_mon(dir, nv):
    """Trace -> list of dict per (event, step), summed over grids of all ranks."""
    rows = {}
    order = []
    for p in find(dir, "mon.*.txt"):
        for line in open(p):
            t = line.split()
            n = nv + 1
            key = (t[0], int(t[1]))
            v = [float(x) for x in t[2:]]
            if key not in rows:
                order.append(key)
                rows[key] = dict(ev=t[0], step=int(t[1]), t=v[0], dt=v[1], vol=0.0, s=np.zeros(n, np.longdouble), a=np.zeros(n, np.longdouble),
                                 mind=1e300, minP=1e300, div=0.0, bsc=0.0, cc=0.0, bmax=0.0, nan=0, dtl=1e300, grids=0, cov=0, ts=set())
            r = rows[key]
            r["ts"].add((v[0], v[1]))
            ld = [np.longdouble(x) for x in t[7 + 1:7 + 1 + 2 * n]]
            r["vol"] += float(t[7])
            r["s"] = r["s"] + np.array(ld[:n])
            r["a"] = r["a"] + np.array(ld[n:])
            q = t[8 + 2 * n:]
            q = [x for x in q]
            r["mind"] = min(r["mind"], float(q[0])); r["minP"] = min(r["minP"], float(q[1]))
            r["div"] = max(r["div"], float(q[2])); r["bsc"] = max(r["bsc"], float(q[3]))
            r["cc"] = max(r["cc"], float(q[4])); r["bmax"] = max(r["bmax"], float(q[5]))
            r["nan"] += int(q[6]); r["dtl"] = min(r["dtl"], float(q[7])); r["grids"] += 1
            r["cov"] += int(t[6])
    return [rows[k] for k in order]


def sums(cfg, states, pot=None):
    """Initial totals in the layout of the trace (uniform mesh: first state only)."""
    s = states[0]
    m = s.mesh
    vol = np.prod([m.dx[a] for a in range(3) if m.act(a)])
    U = s.U.astype(np.longdouble).copy()
    w = np.full(U.shape[:3], np.longdouble(vol))
    if cfg.cyl:
        r = m.cc(0)[None, None, :]
        w = w * r
        U[..., 2] *= r
    P = np.zeros(U.shape[:3], np.longdouble)
    if pot is not None:
        P = U[..., 0] * pot(*m.grid())
    full = np.concatenate([U, P[..., None]], -1) * w[..., None]
    return full.sum((0, 1, 2)), np.abs(full).sum((0, 1, 2))


def domain_block(mesh, bc, level=0, extra=None):
    b = {"level": mesh.level}
    for a, n in enumerate(("x1", "x2", "x3")):
        b[f"N{n}"] = mesh.N[a]
        b[f"{n}min"], b[f"{n}max"] = float(mesh.xmin0[a]), float(mesh.xmax0[a])
        if mesh.level == 0:
            b[f"bc_i{n}"], b[f"bc_o{n}"] = bc[a] if isinstance(bc[a], tuple) else (bc[a], bc[a])
    if mesh.level > 0:
        b["iDisp"], b["jDisp"], b["kDisp"] = mesh.disp
    if extra:
        b.update(extra)
    return b


def base_inp(cfg, mesh, init, bc=(4, 4, 4), nlim=10, tlim=1e9, cour=0.4, gamma=5 / 3, cs=1.0, problem=None, outputs=(), subs=(), dom_extra=None, time=None, maxout=None):
    inp = {"job": {"problem_id": "vp", "maxout": maxout if maxout is not None else max(len(outputs), 1), "num_domains": 1 + len(subs)}}
    for n, o in enumerate(outputs):
        inp[f"output{n+1}"] = o
    inp["time"] = {"cour_no": cour, "nlim": nlim, "tlim": tlim}
    if time:
        inp["time"].update(time)
    inp["domain1"] = domain_block(mesh, bc, extra=dom_extra)
    for n, s in enumerate(subs):
        inp[f"domain{n+2}"] = domain_block(s, bc)
    p = {"gamma": float(gamma), "iso_csound": float(cs), "init_file": init}
    if problem:
        p.update(problem)
    inp["problem"] = p
    return inp


# ---------------- geometric transformations ----------------
def _vec_idx(cfg):
    v = [[1, 2, 3]]
    if cfg.mhd:
        i = cfg.idx("B1c")
        v.append([i, i + 1, i + 2])
    return v


def permute(cfg, s, perm):
    """New axis a is old axis perm[a] (both coordinates and vector components)."""
    ax = [2 - perm[2 - q] for q in range(3)]   # array axis q holds direction 2-q
    m = s.mesh
    U = np.transpose(s.U, ax + [3]).copy()
    V = U.copy()
    for v in _vec_idx(cfg):
        for a in range(3):
            V[..., v[a]] = U[..., v[perm[a]]]
    m2 = Mesh([m.N[perm[a]] for a in range(3)], m.xmin0[list(perm)], m.xmax0[list(perm)], m.level, [m.disp[perm[a]] for a in range(3)], m.dom, [m.rootN[perm[a]] for a in range(3)])
    B = None
    if s.B is not None:
        full = _fullfaces(m, s.B)
        B = _trimfaces(m2, [np.transpose(full[perm[a]], ax) for a in range(3)])
    return State(m2, V, B)


def _fullfaces(m, B):
    """inactive directions carry one face value per cell: duplicate it so that every face array has N+1 faces along its own axis"""
    out = []
    for a in range(3):
        b = B[a]
        if b.shape[2 - a] == m.N[a]:
            b = np.concatenate([b, b], axis=2 - a)
        out.append(b)
    return out


def _trimfaces(m, B):
    out = []
    for a in range(3):
        b = B[a]
        if a > 0 and m.N[a] == 1:
            b = np.take(b, [0], axis=2 - a)
        out.append(b.copy())
    return out


def mirror(cfg, s, a):
    """Reflect along axis a; the field is mirrored as a polar vector (the equations are invariant under B -> -B)."""
    ax = 2 - a
    U = np.flip(s.U, ax).copy()
    for v in _vec_idx(cfg):
        U[..., v[a]] *= -1
    B = None
    if s.B is not None:
        B = [np.flip(b, ax).copy() for b in s.B]
        B[a] *= -1
    return State(s.mesh, U, B)


def shift(cfg, s, n):
    """Shift by n[a] cells in a periodic box."""
    U = np.roll(s.U, (n[2], n[1], n[0]), (0, 1, 2))
    B = None
    if s.B is not None:
        B = []
        for a in range(3):
            b = s.B[a]
            ext = b.shape[2 - a] > s.mesh.N[a]
            if ext:
                b = np.take(b, range(s.mesh.N[a]), axis=2 - a)
            b = np.roll(b, (n[2], n[1], n[0]), (0, 1, 2))
            if ext:
                b = np.concatenate([b, np.take(b, [0], axis=2 - a)], axis=2 - a)
            B.append(b)
    return State(s.mesh, U, B)


def rec_state(g, mesh, nv):
    return State(mesh, np.array(g.U[..., :nv]), None if g.B is None else [np.array(b) for b in g.B])


def maxdiff(cfg, s1, s2):
    """Largest difference relative to the largest value of the group (density, momenta, energy, field, scalars)."""
    w = {}
    groups = {"d": [0], "M": [1, 2, 3]}
    if not cfg.iso:
        groups["E"] = [4]
    if cfg.mhd:
        i = cfg.idx("B1c")
        groups["B"] = [i, i + 1, i + 2]
    for n in range(cfg.ns):
        groups[f"s{n}"] = [cfg.idx(f"s{n}")]
    for k, ix in groups.items():
        sc = max(np.max(np.abs(s1.U[..., ix])), 1e-3)
        d = np.abs(s1.U[..., ix] - s2.U[..., ix])
        w[k] = float(np.max(np.where(np.isfinite(d), d, np.inf)) / sc)
    if s1.B is not None:
        sc = max(max(np.max(np.abs(b)) for b in s1.B), 1e-3)
        w["Bi"] = float(max(np.max(np.abs(a - b)) for a, b in zip(s1.B, s2.B)) / sc)
    return w


# ---------------- refinement layouts ----------------
# boxes are given in root cells: (level, lo, hi)
HIER = {
    1: {"one": ((24, 1, 1), [(1, (6,), (16,))]),
        "two-levels": ((32, 1, 1), [(1, (6,), (24,)), (2, (10,), (18,))]),
        "two-regions": ((32, 1, 1), [(1, (4,), (12,)), (1, (18,), (27,))])},
    2: {"one": ((20, 18, 1), [(1, (5, 4), (14, 12))]),
        "two-levels": ((24, 20, 1), [(1, (5, 4), (18, 16)), (2, (8, 7), (14, 13))]),
        "two-regions": ((28, 22, 1), [(1, (4, 4), (11, 12)), (1, (16, 8), (24, 18))]),
        "deep-pair": ((28, 22, 1), [(1, (4, 4), (24, 18)), (2, (7, 7), (12, 12)), (2, (16, 9), (21, 15))]),
        "spanning-x1": ((16, 20, 1), [(1, (0, 6), (16, 14))]),
        "spanning-x2": ((20, 16, 1), [(1, (6, 0), (13, 16))])},
    3: {"one": ((14, 12, 12), [(1, (4, 3, 4), (10, 9, 8))]),
        "two-levels": ((16, 16, 16), [(1, (3, 3, 3), (13, 13, 13)), (2, (6, 5, 5), (10, 10, 9))]),
        "two-regions": ((20, 12, 12), [(1, (3, 3, 4), (8, 9, 9)), (1, (12, 4, 3), (17, 9, 8))]),
        "spanning-x3": ((14, 12, 10), [(1, (4, 4, 0), (10, 9, 10))])},
}


def hierarchy(dim, name, xmin=(0., 0., 0.), xmax=(1., 1., 1.)):
    """Root mesh and refined meshes in input order (dom numbers per level)."""
    N, boxes = HIER[dim][name]
    root = Mesh(N, xmin, xmax)
    subs, cnt = [], {}
    for lev, lo, hi in boxes:
        f = 2 ** lev
        lo, hi = tuple(lo) + (0,) * (3 - len(lo)), tuple(hi) + (0,) * (3 - len(hi))
        n = [(hi[a] - lo[a]) * f if N[a] > 1 else 1 for a in range(3)]
        disp = [lo[a] * f if N[a] > 1 else 0 for a in range(3)]
        d = cnt.get(lev, 0)
        cnt[lev] = d + 1
        subs.append(Mesh(n, xmin, xmax, lev, disp, d, N))
    return root, subs


# ---------------- signal speeds (independent of new_dt.c) ----------------
def max_speeds(cfg, g, gamma, cs=1.0):
    """Per active axis: (largest |v|+c over cells from cell-centred fields, the same with the largest |B| of the two faces), each divided by the length."""
    U, d = g.U, g.U[..., 0]
    v = [U[..., 1 + a] / d for a in range(3)]
    n1 = g.N[0]
    R = g.min[0] + (np.arange(n1) + 0.5) * g.dx[0]
    out = []
    Bc = [U[..., cfg.idx(f"B{a}c")] for a in (1, 2, 3)] if cfg.mhd else [0 * d] * 3
    Bf = Bc
    if cfg.mhd:
        Bf = []
        for a in range(3):
            b = g.B[a]
            if b.shape[2 - a] > g.N[a]:
                b = np.moveaxis(b, 2 - a, -1)
                l, r = np.moveaxis(b[..., :-1], -1, 2 - a), np.moveaxis(b[..., 1:], -1, 2 - a)
                Bf.append(np.abs(Bc[a]) + np.maximum(np.abs(l - Bc[a]), np.abs(r - Bc[a])))
            else:
                Bf.append(np.abs(Bc[a]) + np.abs(b - Bc[a]))
    for a in range(3):
        if g.N[a] <= 1:
            out.append((0., 0.))
            continue
        ln = g.dx[a] * (R if cfg.cyl and a == 1 else 1.0)
        if cfg.sr:
            out.append((float(np.max(1.0 / (ln + 0 * d))),) * 2)
            continue
        r = []
        for B in (Bc, Bf):
            b2 = sum(x * x for x in B)
            if cfg.iso:
                a2 = cs * cs + 0 * d
            else:
                a2 = gamma * np.maximum((gamma - 1) * (U[..., 4] - 0.5 * d * sum(x * x for x in v) - 0.5 * b2), 0) / d
            s = a2 + b2 / d
            cf2 = 0.5 * (s + np.sqrt(np.maximum(s * s - 4 * a2 * B[a] ** 2 / d, 0)))
            r.append(float(np.max((np.abs(v[a]) + np.sqrt(cf2)) / ln)))
        out.append(tuple(r))
    return out


def write_particles(path, parts):
    """parts: list of (id, type, x[3], v[3])"""
    with open(path, "wb") as f:
        f.write(struct.pack("q", len(parts)))
        for i, t, x, v in parts:
            f.write(struct.pack("qq6d", i, t, *x, *v))


def read_ledger(dir, tag="final"):
    """[(step, rank, {arrays})] in file order, all ranks"""
    out = []
    dt = np.dtype([("id", "i8"), ("type", "i8"), ("pos", "i8"), ("init", "i8"), ("x", "f8", 3), ("v", "f8", 3)])
    for p in find(dir, f"part.{tag}.*.bin"):
        data = open(p, "rb").read()
        o = 0
        while o < len(data):
            h = struct.unpack_from("4q", data, o)
            o += 32
            assert h[0] == MAGIC
            out.append((h[1], h[3], np.frombuffer(data, dt, h[2], o)))
            o += h[2] * dt.itemsize
    return out
