"""C10: every output file, read back by independent readers, against the raw state recorded at the same moment."""
import json, os, re, struct, sys, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np, ath
from vlib import Check, VERIF
from scen import Scen, BY, H, I, O

c = Check("C10", rule="one case = (scenario, dimension, hierarchy, decomposition, output block, dump number); non-trivial if at least one file with non-constant data was compared value by value",
          assumptions=["the raw state is written by a user output function in the same data_output() call"])
PAL = json.load(open(VERIF + "/lib/palette.json"))
GAM = 5 / 3


# ---------------- readers ----------------
def rd_vtk(p):
    """legacy VTK, binary structured points -> dict"""
    b = open(p, "rb").read()
    o = 0

    def line():
        nonlocal o
        e = b.index(b"\n", o)
        s = b[o:e].decode("latin1")
        o = e + 1
        return s
    r = {"vars": {}}
    assert line() == "# vtk DataFile Version 2.0"
    r["title"] = line()
    assert line() == "BINARY"
    assert line().strip() == "DATASET STRUCTURED_POINTS"
    k, *v = line().split(); assert k == "DIMENSIONS"; r["dims"] = [int(x) for x in v]
    k, *v = line().split(); assert k == "ORIGIN"; r["org"] = [float(x) for x in v]
    k, *v = line().split(); assert k == "SPACING"; r["dx"] = [float(x) for x in v]
    k, v = line().split(); assert k == "CELL_DATA"; n = r["n"] = int(v)
    while o < len(b):
        s = line()
        if not s.strip():
            continue
        t, nm, ty = s.split()
        assert ty == "float"
        if t == "SCALARS":
            assert line() == "LOOKUP_TABLE default"
            r["vars"][nm] = np.frombuffer(b, ">f4", n, o).astype(np.float32); o += 4 * n
        else:
            assert t == "VECTORS"
            r["vars"][nm] = np.frombuffer(b, ">f4", 3 * n, o).astype(np.float32).reshape(n, 3); o += 12 * n
    return r


def rd_bin(p, single=False):
    b = open(p, "rb").read()
    ty, sz, ch = (np.float32, 4, "4f") if single else (float, 8, "4d")
    cs, n1, n2, n3, nvar, nsc, sg, pt = struct.unpack_from("8i", b, 0)
    o = 32
    r = {"coordsys": cs, "N": (n1, n2, n3), "nvar": nvar, "nsc": nsc, "sg": sg, "part": pt}
    r["gm1"], r["cs"], r["time"], r["dt"] = struct.unpack_from(ch, b, o); o += 4 * sz
    r["x"] = []
    for n in (n1, n2, n3):
        r["x"].append(np.frombuffer(b, ty, n, o).astype(float)); o += sz * n
    c_ = n1 * n2 * n3
    r["v"] = []
    for _ in range(nvar + sg + 4 * pt):
        r["v"].append(np.frombuffer(b, ty, c_, o).reshape(n3, n2, n1).astype(float)); o += sz * c_
    assert o == len(b), f"{len(b) - o} bytes left over"
    return r


def rd_pnm(p):
    b = open(p, "rb").read()
    o, tok = 0, []
    com = []
    while len(tok) < 4:
        while b[o:o + 1].isspace():
            o += 1
        if b[o:o + 1] == b"#":
            e = b.index(b"\n", o); com.append(b[o:e].decode("latin1")); o = e + 1
            continue
        e = o
        while not b[e:e + 1].isspace():
            e += 1
        tok.append(b[o:e].decode()); o = e
    o += 1
    w, h, mx = (int(x) for x in tok[1:4])
    ch = 1 if tok[0] == "P5" else 3
    assert mx == 255 and len(b) - o == w * h * ch, f"image of {w}x{h} has {len(b)-o} bytes"
    return tok[0], np.frombuffer(b, np.uint8, w * h * ch, o).reshape(h, w, ch).astype(int), com


def table(p):
    return np.array([[float(x) for x in l.split()] for l in open(p) if l.strip() and not l.startswith("#")])


# ---------------- the state, independently evaluated ----------------
def prim(cfg, U):
    """primitive variables of a conserved array -> dict"""
    d = U[..., 0]
    M = [U[..., 1 + a] for a in range(3)]
    B = [U[..., cfg.idx("B1c") + a] for a in range(3)] if cfg.mhd else [0 * d] * 3
    W = {}
    if not cfg.sr:
        W["d"] = d
        for a in range(3):
            W[f"V{a+1}"] = M[a] / d
        W["P"] = d * 1.0 if cfg.iso else (GAM - 1) * (U[..., 4] - 0.5 * sum(m * m for m in M) / d - 0.5 * sum(x * x for x in B))
    else:
        q = sr_prim(cfg, U)
        W["d"], W["V1"], W["V2"], W["V3"], W["P"] = q
    for a in range(3):
        W[f"B{a+1}c"] = B[a]
    for n in range(cfg.ns):
        W[f"s{n}"] = U[..., cfg.idx(f"s{n}")] / d
    return W


def sr_prim(cfg, U):
    """relativistic inversion by bisection on the total enthalpy, vectorised (independent of the code's own)"""
    D = U[..., 0]
    S = [U[..., 1 + a] for a in range(3)]
    E = U[..., 4]
    B = [U[..., cfg.idx("B1c") + a] for a in range(3)] if cfg.mhd else [0 * D] * 3
    S2, B2, SB = sum(s * s for s in S), sum(b * b for b in B), sum(s * b for s, b in zip(S, B))
    g1 = GAM / (GAM - 1)

    def f(Z):
        v2 = (S2 * Z * Z + SB * SB * (B2 + 2 * Z)) / (Z * Z * (Z + B2) ** 2)
        v2 = np.minimum(v2, 1 - 1e-15)
        g2 = 1 / (1 - v2)
        P = (Z / g2 - D / np.sqrt(g2)) / g1
        return Z + B2 - P - 0.5 * B2 / g2 - 0.5 * SB * SB / (Z * Z) - E, v2, P
    lo, hi = D * (1 + 1e-12), 20 * (np.abs(E) + D + B2 + np.sqrt(S2))
    lo = np.maximum(lo, 1e-12 * hi)
    for _ in range(200):   # f grows with Z on the physical branch
        mid = 0.5 * (lo + hi)
        v = f(mid)[0]
        lo, hi = np.where(v < 0, mid, lo), np.where(v < 0, hi, mid)
    Z = 0.5 * (lo + hi)
    _, v2, P = f(Z)
    V = [(S[a] + SB / Z * B[a]) / (Z + B2) for a in range(3)]
    return D * np.sqrt(1 - v2), V[0], V[1], V[2], P


def expr(cfg, r, name):
    U = r.U
    nm = cfg.names
    if name in nm and not name.startswith("s"):
        return U[..., nm.index(name)]
    if name == "ME":
        return 0.5 * sum(U[..., cfg.idx(f"B{a}c")] ** 2 for a in (1, 2, 3))
    if name == "probe":
        return U[..., 0] + 3 * U[..., 1] - 2 * U[..., 2]
    if not hasattr(r, "W"):
        r.W = prim(cfg, U)
    W = r.W
    if name in ("V1", "V2", "V3", "P"):
        return W[name]
    h = 1 + GAM / (GAM - 1) * W["P"] / W["d"] if cfg.sr else 1.0
    if name == "cs2":
        return GAM * W["P"] / W["d"] / h
    if name == "S":
        return W["P"] / W["d"] ** GAM
    if name == "G":
        return 1 / np.sqrt(1 - W["V1"] ** 2 - W["V2"] ** 2 - W["V3"] ** 2)
    raise KeyError(name)


def reduced(r, V, sl, dim):
    """slice/average V over the coordinate ranges sl {axis: (l,u)}; None if the Grid is outside. Returns (array, axes kept)"""
    keep = [a for a in range(dim) if a not in sl]
    for a in sorted(sl):
        l, u = sl[a]
        x0, dx, n = r.min[a], r.dx[a], r.N[a]
        if u < x0 or l >= x0 + n * dx:
            return None
        i0 = max(0, int(np.floor((l - x0) / dx)))
        i1 = min(n - 1, int(np.floor((u - x0) / dx)))
        V = np.take(V, range(i0, i1 + 1), axis=2 - a).mean(axis=2 - a, keepdims=True)
    return V.reshape([r.N[a] for a in reversed(keep)]), keep


def deposit(cfg, parts, r, glob, order, sel=None, mass=None):
    """particle number/mass and momentum on the global grid with CIC or TSC weights (periodic)"""
    N = glob.N
    out = np.zeros(N[::-1] + (4,))
    for q in parts:
        if sel is not None and q["type"] != sel:
            continue
        idx = []
        for a in range(3):
            if N[a] == 1:
                idx.append([(0, 1.0)])
                continue
            s = (q["x"][a] - glob.min[a]) / glob.dx[a] - 0.5   # in units of cells, 0 at the first centre
            if order == 1:
                i = int(np.floor(s)); f = s - i
                idx.append([(i % N[a], 1 - f), ((i + 1) % N[a], f)])
            else:
                i = int(np.floor(s + 0.5)); f = s - i
                idx.append([((i - 1) % N[a], 0.5 * (0.5 - f) ** 2), (i % N[a], 0.75 - f * f), ((i + 1) % N[a], 0.5 * (0.5 + f) ** 2)])
        m = mass[q["type"]] if mass else 1.0
        for i, wi in idx[0]:
            for j, wj in idx[1]:
                for k, wk in idx[2]:
                    out[k, j, i] += m * wi * wj * wk * np.array([1.0, *q["v"]])
    return out


TL = threading.local()   # .eps: precision of the program's own arithmetic where it is single


def eps():
    return getattr(TL, "eps", 0.0)


def close(a, b, rel, ab=0.0):
    rel, ab = rel + eps(), ab + eps()
    return np.all(np.abs(np.asarray(a, float) - np.asarray(b, float)) <= rel * np.maximum(np.abs(a), np.abs(b)) + ab)


class Bad(Exception):
    pass


def need(cond, what):
    if not cond:
        raise Bad(what)


def fname(k, mpi, lev, dom, num, id, ext):
    d = (f"id{k}/" if mpi else "") + (f"lev{lev}/" if lev else "")
    return d + "vp" + (f"-id{k}" if k else "") + (f"-lev{lev}" if lev else "") + (f"-dom{dom}" if dom else "") + (f".{num:04d}" if num is not None else "") + (f".{id}" if id else "") + "." + ext


def cmp_var(what, got, want, single=False):
    """float32 file value against the double state"""
    w = np.asarray(want, float).reshape(np.shape(got))
    e = np.abs(np.asarray(got, float) - w)
    tol = 6.1e-8 * np.abs(w) + (3e-6 if single else 3e-15 + eps()) * (1 + np.max(np.abs(w))) + 1e-44
    need(np.all(e <= tol), f"{what}: file and state differ by up to {np.max(e):.3g} (value {w.flat[int(np.argmax(e))]:.6g})")


def chk_coords(r, org, dx, kept, what, dims=None):
    for a in range(3):
        need(abs(org[a] - r.min[a]) <= 1.2e-6 * (abs(r.min[a]) + r.dx[a]), f"{what}: origin x{a+1} {org[a]} but the Grid starts at {r.min[a]}")
        sp = r.dx[a] if a in kept else None
        if sp is not None:
            need(abs(dx[a] - sp) <= 1.2e-6 * sp, f"{what}: spacing x{a+1} {dx[a]} but cells are {sp}")
    if dims is not None:
        want = [r.N[a] + 1 if a in kept else 1 for a in range(3)]
        need(list(dims) == want, f"{what}: dimensions {dims}, expected {want}")


def one(name, s, mpi, dec, seed, mode, shape=None):
    case0 = f"{name}/{mode}/{'x'.join(map(str, dec)) if dec else 'serial'}"
    rng = np.random.default_rng([seed, 1010, len(name)])
    b = c.build(s.args + (" --enable-mpi" if mpi else ""))
    if not b.ok:
        return
    cfg = s.cfg()
    TL.eps = 1e-6 if cfg.single else 0.0
    dim = s.dim
    # ---- choose the output blocks ----
    smr = bool(s.hier)
    outs = []
    base = {"dt": 1e-9}
    if mode == "cons":
        outs += [{"out_fmt": "vtk"}, {"out_fmt": "bin"}, {"out_fmt": "tab"}, {"out_fmt": "hst"}]
        if rng.random() < 0.6:
            outs[2]["dat_fmt"] = "%23.15e"
            outs[3]["dat_fmt"] = "%23.15e"
        if cfg.part:
            outs += [{"out_fmt": "lis", "id": "ds"}, {"out_fmt": "phst"}, {"out_fmt": "lis", "id": "sel", "par_prop": "type0"}]
    elif mode == "prim":
        outs += [{"out": "prim", "out_fmt": f} for f in ("vtk", "bin", "tab")]
        if cfg.part and rng.random() < 2:
            outs[0]["pargrid"] = 1
    names = ["d", "M1", "M2", "M3", "V1", "V2", "V3", "P", "probe"] + ([] if cfg.iso else ["E", "cs2", "S"]) + (["B1c", "B2c", "B3c", "ME"] if cfg.mhd else []) + (["G"] if cfg.sr else [])
    if cfg.part:
        names += ["dpar", "M1par", "M2par", "M3par", "V1par", "V2par", "V3par"] * 2
    L = [None] * 3
    if mode == "var":
        order = list(rng.permutation(names))
        for n in range(26 if c.thorough else 18):
            v = str(order[n % len(order)])
            o = {"out": v, "id": f"q{n}"}
            if v == "probe":
                o["usr_expr_flag"] = 1
            if v.endswith("par") and rng.random() < 0.5:
                o["par_prop"] = "type0"
            red = int(rng.integers(0, dim))
            fm = ["tab"]
            if dim - red >= 2:
                fm += ["vtk"]
            if dim - red == 2:
                fm += ["pgm", "ppm", "vtk"]
            if red == 0 and not v.endswith("par"):
                fm += ["pdf"]
            o["out_fmt"] = str(rng.choice(fm))
            o["_sl"] = [int(a) for a in rng.permutation(dim)[:red]]
            if o["out_fmt"] in ("pgm", "ppm") and rng.random() < 0.5:
                o["dmin"], o["dmax"] = -0.6, 1.4
            if o["out_fmt"] == "ppm":
                o["palette"] = str(rng.choice(list(PAL)))
            if o["out_fmt"] in ("tab", "pdf") and rng.random() < 0.4:
                o["dat_fmt"] = "%22.14e"
            if smr and rng.random() < 0.4:
                o["level"] = int(rng.integers(0, 2))
                if rng.random() < 0.5:
                    o["domain"] = int(rng.integers(0, 2))
            outs.append(o)
            if cfg.part and n % 5 == 2:
                outs.append({"out_fmt": str(rng.choice(["phst", "lis"])), "id": f"p{n}"})
    cfg, inp = s.make(c, seed, nlim=2, outputs=[], dec=dec)
    m = s.root
    blocks = []
    for o in outs:
        o = dict(base, **o)
        sl = {}
        for a in o.pop("_sl", []):
            lo, hi = m.xmin0[a], m.xmax0[a]
            t = int(rng.integers(0, 5))
            l, u = sorted(lo + (hi - lo) * rng.uniform(0.02, 0.98, 2))
            txt = [f"{l!r}", f"{l!r}:{u!r}", ":", f"{l!r}:", f":{u!r}"][t].replace("np.float64(", "").replace(")", "")
            sl[a] = [(l, l), (l, u), (lo, hi), (l, hi), (lo, u)][t]
            if rng.random() < 0.3 and not s.hier and not cfg.single:
                # exactly on the lower face of a Grid (or of the box): the cell above it, and the Grid that starts there
                ng = dec[a] if mpi and dec and not isinstance(dec[0], tuple) else 1
                f = float(lo)
                if m.N[a] % ng == 0:
                    for _ in range(int(rng.integers(0, ng))):
                        f += (m.N[a] // ng) * float((hi - lo) / m.N[a])
                t = int(rng.integers(0, 3)) if f < u else 0
                txt, sl[a] = [(f"{f!r}", (f, f)), (f"{f!r}:{float(u)!r}", (f, u)), (f":{f!r}", (lo, f))][t]
            o[f"x{a+1}"] = txt
        o["__sl"] = sl
        blocks.append(o)
    allb = [{"name": "usrout", "dt": 1e-9}] + blocks
    inp["job"]["maxout"] = len(allb)
    new = {"job": inp.pop("job")}
    for n, o in enumerate(allb):
        new[f"output{n+1}"] = {k: v for k, v in o.items() if not k.startswith("__")}
    new.update(inp)
    new["problem"].update({"usrdump": 1, "enroll": 1})
    np_ = 1
    if mpi:
        np_ = int(np.prod(dec)) if not isinstance(dec[0], tuple) else max_ranks(dec)
    r = c.run(b, new, np=np_)
    if not c.ok_run(r, case0):
        return
    # ---- raw state per dump number and rank ----
    raw = {}
    for k in range(np_):
        for num in range(3):
            p = r.path((f"id{k}/" if mpi else "") + f"dump.out{num:05d}.{k}.bin")
            if os.path.exists(p):
                raw[num, k] = ath.read_dump(p)
    nums = sorted({n for n, _ in raw})
    need_nums = nums == [0, 1, 2]
    if not need_nums:
        c.violation(case0 + "/missing", f"the outputs of steps 0, 1, 2 were requested, user output was called for {nums}", r)
        return
    glob = {n: ath.load_all(r.dir, f"out{n:05d}") for n in nums}
    expected = set()
    # particles
    parts = {}
    if cfg.part:
        for n in nums:
            parts[n] = [q for _, _, arr in ath.read_ledger(r.dir, f"out{n:05d}") for q in arr]
            parts_k = {k: arr for _, k, arr in ath.read_ledger(r.dir, f"out{n:05d}")}
            parts[n, "k"] = parts_k
    interp = new.get("particle", {}).get("interp", 2)
    mass = [new["problem"].get("pmass0"), new["problem"].get("pmass1")] if cfg.feedback else None
    for bi, o in enumerate(blocks):
        for num in nums:
            case = f"{case0}/{o.get('out', 'cons')}.{o.get('out_fmt')}{bi}/{num}"
            try:
                nf = check_block(cfg, s, r, raw, glob, parts, o, num, nums, mpi, np_, dim, expected, interp, mass, len(allb))
                c.case(case, nf > 0, {"case": case, "block": {k: v for k, v in o.items()}, "files_compared": nf} if rng.random() < 0.02 else None)
                c.count("files_compared", nf)
                c.count(f"files_{o.get('out_fmt')}", nf)
            except Bad as e:
                c.violation(case, str(e), r, extra=json.dumps({k: str(v) for k, v in o.items()}))
            except (ValueError, IndexError, KeyError, AssertionError, struct.error, FileNotFoundError) as e:
                c.violation(case + "/unreadable", f"file cannot be read back: {type(e).__name__} {e}", r, extra=json.dumps({k: str(v) for k, v in o.items()}))
    # ---- no other output files ----
    have = set()
    for d, _, fs in os.walk(r.dir):
        for f in fs:
            if f.endswith((".vtk", ".tab", ".bin", ".pgm", ".ppm", ".prb", ".hst", ".lis", ".phst")) and not f.startswith(("dump.", "part.", "init.")):
                have.add(os.path.relpath(os.path.join(d, f), r.dir))
    extra = have - expected
    if extra:
        c.violation(case0 + "/unexpected-files", f"files that no output block asked for: {sorted(extra)[:5]}", r)
    c.count("files_expected", len(expected))


# decompositions run with fewer processes than Grids: a process holds Grids of several Domains
MULTI1, MULTI2, MULTI3 = ((1, 1, 1), (2, 1, 1), (1, 1, 1)), ((2, 1, 1), (1, 1, 1), (1, 2, 1), (1, 1, 1)), ((2, 1, 1), (1, 2, 1), (1, 1, 2))


def max_ranks(dec):
    """ranks used when Domains are laid over processes one after the other"""
    n = int(sum(np.prod(d) for d in dec))
    return {MULTI2: 3, MULTI3: 3, MULTI1: 2}.get(tuple(dec), n)


def check_block(cfg, s, r, raw, glob, parts, o, num, nums, mpi, np_, dim, expected, interp, mass, nout):
    out, fmt = o.get("out", "cons"), o.get("out_fmt")
    id = o.get("id")
    nf = 0
    pcell = None

    def pgrid(rec, want):
        """binned particles of one Grid"""
        nonlocal pcell
        if pcell is None:
            pcell = deposit(cfg, parts[num], None, glob[num][(0, 0)], interp, sel=0 if o.get("par_prop") == "type0" else None, mass=mass)
        g = glob[num][(0, 0)]
        a = [rec.disp[q] - g.disp[q] for q in range(3)]
        v = pcell[a[2]:a[2] + rec.N[2], a[1]:a[1] + rec.N[1], a[0]:a[0] + rec.N[0]]
        if want == "all":
            return v
        i = {"d": 0, "1": 1, "2": 2, "3": 3}[want[0] if want[0] == "d" else want[1]]
        x = v[..., i]
        if want[0] == "V":
            with np.errstate(divide="ignore", invalid="ignore"):
                x = np.where(v[..., 0] > 0, x / v[..., 0], 0.0)
        return x

    prec = 5.2e-9
    if o.get("dat_fmt") == "%23.15e":
        prec = 1e-15
    elif o.get("dat_fmt") == "%22.14e":
        prec = 1e-14
    if fmt == "hst":
        return check_hst(cfg, s, r, raw, glob, o, num, mpi, expected)
    if fmt == "phst":
        return check_phst(cfg, s, r, glob, parts, num, nums, o, mpi, expected, mass, interp)
    if fmt == "pdf":
        return check_pdf(cfg, s, r, raw, glob, o, num, mpi, expected, nout)
    for k in range(np_):
        for rec in raw[num, k]:
            if o.get("level", -1) not in (-1, rec.level) or o.get("domain", -1) not in (-1, rec.dom):
                continue
            if fmt == "lis":
                f = fname(k, mpi, 0, 0, num, id, "lis")
                expected.add(f)
                need(os.path.exists(r.path(f)), f"{f} was not written")
                check_lis(cfg, r.path(f), rec, s, parts[num, "k"].get(k, []), o)
                nf += 1
                continue
            if out in ("cons", "prim"):
                f = fname(k, mpi, rec.level, rec.dom, num, None, fmt)
                expected.add(f)
                need(os.path.exists(r.path(f)), f"{f} was not written")
                W = None
                if out == "prim":
                    if not hasattr(rec, "W"):
                        rec.W = prim(cfg, rec.U)
                    W = rec.W
                cols = ["d", "M1", "M2", "M3"] + ([] if cfg.iso else ["E"])
                pc = ["d", "V1", "V2", "V3"] + ([] if cfg.iso else ["P"])
                val = {}
                for a, q in zip(cols, pc):
                    val[a] = rec.U[..., cfg.idx(a)] if W is None else W[q]
                for a in (["B1c", "B2c", "B3c"] if cfg.mhd else []):
                    val[a] = rec.U[..., cfg.idx(a)]
                for n in range(cfg.ns):
                    val[f"s{n}"] = rec.U[..., cfg.idx(f"s{n}")] if W is None else W[f"s{n}"]
                phi = rec.U[..., -1] if cfg.selfg else None
                part = cfg.part and (out == "cons" or o.get("pargrid") or fmt == "tab")
                if fmt == "vtk":
                    q = rd_vtk(r.path(f))
                    chk_coords(rec, q["org"], q["dx"], [a for a in range(3)], f, [rec.N[a] + 1 if rec.N[a] > 1 else 1 for a in range(3)] and None)
                    need(q["dims"] == [rec.N[0] + 1] + [rec.N[a] + 1 if rec.N[a] > 1 else 1 for a in (1, 2)], f"{f}: dimensions {q['dims']} for a Grid of {rec.N}")
                    tm = re.search(r"time= (\S+), level= (\d+), domain= (\d+)", q["title"])
                    need(tm and abs(float(tm[1]) - rec.time) <= 1e-6 * abs(rec.time) and int(tm[2]) == rec.level and int(tm[3]) == rec.dom, f"{f}: title '{q['title']}' but time {rec.time} level {rec.level} domain {rec.dom}")
                    need(q["title"].startswith("CONSERVED" if W is None else "PRIMITIVE"), f"{f}: title {q['title']}")
                    vec = lambda *n: np.stack([val[x] for x in n], -1)
                    want = {"density": val["d"], "momentum" if W is None else "velocity": vec("M1", "M2", "M3")}
                    if not cfg.iso:
                        want["total_energy" if W is None else "pressure"] = val["E"]
                    if cfg.mhd:
                        want["cell_centered_B"] = vec("B1c", "B2c", "B3c")
                    if cfg.selfg:
                        want["gravitational_potential"] = phi
                    if part:
                        v = pgrid(rec, "all")
                        want["particle_density"], want["particle_momentum"] = v[..., 0], v[..., 1:]
                    for n in range(cfg.ns):
                        want[f"scalar[{n}]" if W is None else f"specific_scalar[{n}]"] = val[f"s{n}"]
                    need(set(q["vars"]) == set(want), f"{f}: variables {sorted(q['vars'])}, expected {sorted(want)}")
                    for n, w in want.items():
                        cmp_var(f"{f} {n}", q["vars"][n], w, single=cfg.sr and W is not None)
                elif fmt == "bin":
                    q = rd_bin(r.path(f), cfg.single)
                    need(q["N"] == rec.N and q["coordsys"] == (-2 if cfg.cyl else -1) and q["nvar"] == cfg.nv and q["nsc"] == cfg.ns and q["sg"] == int(cfg.selfg), f"{f}: header {q['N']} {q['coordsys']} {q['nvar']} {q['nsc']} {q['sg']}")
                    need(q["time"] == rec.time and q["dt"] == rec.dt, f"{f}: time {q['time']} dt {q['dt']}, state has {rec.time} {rec.dt}")
                    need(close([q["gm1"], q["cs"]], [0 if cfg.iso else GAM - 1, 1 if cfg.iso else 0], 0, 1e-14), f"{f}: gamma-1 {q['gm1']} csound {q['cs']}")
                    for a in range(3):
                        need(close(q["x"][a], rec.min[a] + (np.arange(rec.N[a]) + 0.5) * rec.dx[a], 1e-13, 1e-13), f"{f}: cell positions along x{a+1}")
                    order = cols + (["B1c", "B2c", "B3c"] if cfg.mhd else []) + [f"s{n}" for n in range(cfg.ns)]
                    for n, v in enumerate(order):
                        if W is None:
                            need(np.array_equal(q["v"][n], val[v]), f"{f}: {v} is not the state (max difference {np.max(np.abs(q['v'][n]-val[v])):.3g})")
                        else:
                            need(close(q["v"][n], val[v], 3e-6 if cfg.sr else 1e-12, 3e-6 if cfg.sr else 1e-13), f"{f}: primitive of {v} differs by {np.max(np.abs(q['v'][n]-val[v])):.3g}")
                    n = len(order)
                    if cfg.selfg:
                        need(np.array_equal(q["v"][n], phi), f"{f}: potential")
                        n += 1
                    if cfg.part and q["part"]:
                        v = pgrid(rec, "all")
                        for i in range(4):
                            need(close(q["v"][n + i], v[..., i], 1e-11, 1e-12), f"{f}: binned particle component {i} off by {np.max(np.abs(q['v'][n+i]-v[...,i])):.3g}")
                else:
                    lines = open(r.path(f)).read().split("\n")
                    hd = [l for l in lines if l.startswith("#")]
                    tm = re.search(r"Time ?= (\S+), level= (\d+), domain= (\d+)", "\n".join(hd))
                    need(tm and abs(float(tm[1]) - rec.time) <= 6e-6 * abs(rec.time) and (int(tm[2]), int(tm[3])) == (rec.level, rec.dom), f"{f}: header {hd}")
                    lab = re.findall(r"\[(\d+)\]=(\S+)", hd[-1])
                    need([int(x) for x, _ in lab] == list(range(1, len(lab) + 1)), f"{f}: column numbers {lab}")
                    lab = [x for _, x in lab]
                    T = table(r.path(f))
                    need(T.ndim == 2 and T.shape == (int(np.prod(rec.N)), len(lab)), f"{f}: table of {T.shape}, {len(lab)} columns announced, {rec.N} cells")
                    ix = [np.broadcast_to(np.arange(rec.N[a]).reshape([-1 if q == 2 - a else 1 for q in range(3)]), rec.N[::-1]).ravel() for a in range(3)]
                    for a, q in enumerate("ijk"):
                        if rec.N[a] == 1:
                            continue
                        col = T[:, lab.index(f"{q}-zone")]
                        need(np.array_equal(col - col[0], ix[a]), f"{f}: {q}-zone column")
                        need(close(T[:, lab.index(f"x{a+1}")], rec.min[a] + (ix[a] + 0.5) * rec.dx[a], prec, 1e-13), f"{f}: x{a+1} column")
                    ren = {"M1": "V1", "M2": "V2", "M3": "V3", "E": "P"}
                    for v, w in val.items():
                        need(close(T[:, lab.index(ren.get(v, v) if W is not None else v)], w.ravel(), max(prec, 3e-6 if cfg.sr and W is not None else 0), 1e-14 if not (cfg.sr and W is not None) else 3e-6), f"{f}: column {v}")
                    if cfg.selfg:
                        need(close(T[:, lab.index("Phi")], phi.ravel(), prec), f"{f}: potential")
                    if part:
                        v = pgrid(rec, "all")
                        need(close(T[:, lab.index("dpar")], v[..., 0].ravel(), prec, 1e-12), f"{f}: dpar")
                        for i in (1, 2, 3):
                            if W is None:
                                need(close(T[:, lab.index(f"M{i}par")], v[..., i].ravel(), prec, 1e-12), f"{f}: M{i}par")
                            else:
                                w = pgrid(rec, f"V{i}")
                                ok = v[..., 0].ravel() > 1e-9
                                need(close(T[ok, lab.index(f"V{i}par")], w.ravel()[ok], prec, 1e-10), f"{f}: V{i}par")
                nf += 1
                continue
            # ---- single variables ----
            if out.endswith("par"):
                V = pgrid(rec, out)
                dd = pgrid(rec, "d")
            else:
                V = expr(cfg, rec, out)
            red = reduced(rec, V, o["__sl"], dim)
            f = fname(k, mpi, rec.level, rec.dom, num, id, fmt)
            if red is None:
                need(not os.path.exists(r.path(f)), f"{f} was written although the slice does not touch the Grid")
                continue
            V, kept = red
            expected.add(f)
            need(os.path.exists(r.path(f)), f"{f} was not written")
            ab = 3e-6 if cfg.sr and out in ("V1", "V2", "V3", "P", "cs2", "S", "G") else 1e-9 if out.endswith("par") and out[0] == "V" else 1e-13
            tol = (ab + eps()) * (1 + np.max(np.abs(V)))
            if fmt == "tab":
                T = table(r.path(f))
                if V.size == 1 and T.ndim == 1:
                    T = T.reshape(1, -1)
                need(T.shape == (V.size, len(kept) + 1), f"{f}: table of {T.shape} for {V.shape}")
                ii = np.indices(V.shape)
                for n in range(len(kept)):
                    need(np.array_equal(T[:, n], ii[len(kept) - 1 - n].ravel()), f"{f}: index column {n}")
                need(close(T[:, -1], V.ravel(), prec, tol), f"{f}: values differ by up to {np.max(np.abs(T[:, -1]-V.ravel())):.3g}")
            elif fmt == "vtk":
                q = rd_vtk(r.path(f))
                chk_coords(rec, q["org"], q["dx"], kept, f)
                need([d - 1 for d in q["dims"] if d > 1] == [rec.N[a] for a in kept], f"{f}: dimensions {q['dims']} for {rec.N} reduced to axes {kept}")
                need(all(q["dims"][a] > 1 for a in kept), f"{f}: dimensions {q['dims']} put the data on other axes than {kept}")
                need(list(q["vars"]) == [id], f"{f}: variables {list(q['vars'])}")
                g = q["vars"][id].astype(float)
                need(np.all(np.abs(g - V.ravel()) <= 6.1e-8 * np.abs(V.ravel()) + tol), f"{f}: values differ by up to {np.max(np.abs(g-V.ravel())):.3g}")
                tm = re.search(r"time= (\S+), level= (\d+), domain= (\d+)", q["title"])
                need(tm and abs(float(tm[1]) - rec.time) <= 1e-6 * abs(rec.time) and (int(tm[2]), int(tm[3])) == (rec.level, rec.dom), f"{f}: title '{q['title']}'")
            else:
                kind, img, com = rd_pnm(r.path(f))
                need(img.shape[:2] == V.shape, f"{f}: image {img.shape} of data {V.shape}")
                lo, hi = V.min(), V.max()
                if kind == "P6":
                    mm = re.search(r"dmin= (\S+), dmax= (\S+),", " ".join(com))
                    need(mm and abs(float(mm[1]) - lo) <= 6e-8 * abs(lo) + tol and abs(float(mm[2]) - hi) <= 6e-8 * abs(hi) + tol, f"{f}: comment {com}, data range {lo} {hi}")
                if hi - lo < (1e-9 + 1e3 * eps()) * (1 + np.max(np.abs(V))):   # a constant: the auto-scaled image shows round-off
                    continue
                lo, hi = o.get("dmin", lo), o.get("dmax", hi)
                X = V[::-1]
                if kind == "P5":
                    y = np.clip(np.trunc(256 / ((hi - lo) * (1 + 1.1920929e-7)) * (X - lo)), 0, 255) if hi > lo else 0 * X
                    e = np.abs(img[..., 0] - y)
                    need(e.max() <= 1 and np.mean(e > 0) < 0.03, f"{f}: grey values differ from the data by up to {e.max()}")
                else:
                    P = np.array(PAL[o.get("palette", "rainbow")]).reshape(256, 3)
                    x = np.clip((X - lo) * 255 / (hi - lo), 0, 255) if hi > lo else 0 * X
                    i = np.minimum(x.astype(int), 254)
                    col = (P[i] + (x - i)[..., None] * (P[i + 1] - P[i])) * 255
                    e = np.abs(img - np.trunc(col))
                    slope = np.max(np.abs(np.diff(P, axis=0))) * 255
                    need(np.mean(e > 1) < 0.03, f"{f}: {np.mean(e>1)*100:.1f} % of the colours are not those of the data")
            nf += 1
    return nf


def check_hst(cfg, s, r, raw, glob, o, num, mpi, expected):
    nf = 0
    for (lev, dom), g in glob[num].items():
        f = fname(0, mpi, lev, dom, None, None, "hst")
        if mpi and lev:   # named after the first process of the Domain, kept in the directory of the first process of the run
            alt = [f.replace("/vp", f"/vp-id{k}") for k in range(1, 16)]
            alt = [x for x in [f] + alt if os.path.exists(r.path(x))]
            need(len(alt) == 1, f"history of level {lev} domain {dom} is in {alt}")
            f = alt[0]
        expected.add(f)
        need(os.path.exists(r.path(f)), f"{f} was not written")
        T = table(r.path(f))
        hd = [l for l in open(r.path(f)) if l.startswith("#")]
        need(len(T) == 3, f"{f}: {len(T)} lines after three outputs")
        row = T[num]
        vol = 1.0
        for a in range(3):
            if g.N[a] > 1 or a == 0:
                vol *= g.N[a] * g.dx[a]
        w = np.ones(g.N[::-1])
        if cfg.cyl:
            x = g.min[0] + (np.arange(g.N[0]) + 0.5) * g.dx[0]
            w = w * x[None, None, :]
            vol *= np.mean(x)
        w = w / w.sum()
        mm = re.search(r"level=(\d+) domain=(\d+) volume=(\S+)", hd[0])
        need(mm and (int(mm[1]), int(mm[2])) == (lev, dom) and abs(float(mm[3]) - vol) < 1e-5 * vol, f"{f}: header {hd[0].strip()}, volume {vol}")
        U = g.U
        d = U[..., 0]
        q = [("mass", d)]
        if not cfg.iso:
            q += [("E", U[..., 4])]
        q += [(f"M{a}", U[..., a]) for a in (1, 2, 3)]
        B = [U[..., cfg.idx(f"B{a}c")] for a in (1, 2, 3)] if cfg.mhd else [0 * d] * 3
        if not cfg.sr:
            q += [(f"KE{a}", 0.5 * U[..., a] ** 2 / d) for a in (1, 2, 3)]
            if cfg.mhd:
                q += [(f"ME{a}", 0.5 * B[a - 1] ** 2) for a in (1, 2, 3)]
            if cfg.selfg:
                q += [("PE", d * U[..., -1])]
            q += [(f"s{n}", U[..., cfg.idx(f"s{n}")]) for n in range(cfg.ns)]
            if cfg.cyl:
                q += [("L", x[None, None, :] * U[..., 2])]
        else:
            W = prim(cfg, U)
            v = [W["V1"], W["V2"], W["V3"]]
            g2 = 1 / (1 - sum(y * y for y in v))
            q += [("g2", g2)] + [(f"u{a+1}", g2 * v[a] ** 2) for a in range(3)] + [("P", W["P"])]
            if cfg.mhd:
                vB, B2 = sum(a * b_ for a, b_ in zip(v, B)), sum(b_ * b_ for b_ in B)
                bb = [np.sqrt(g2) * (B[a] / g2 + vB * v[a]) for a in range(3)]
                q += [("b0", g2 * vB * vB)] + [(f"b{a+1}", bb[a] ** 2) for a in range(3)] + [("b2", B2 / g2 + vB * vB), ("T00", B2 * (1 - 0.5 / g2) - 0.5 * vB * vB)]
        q += [("user", d * d + 0.25 * U[..., 1])]
        need(len(row) == 2 + len(q), f"{f}: {len(row)} columns, expected {2 + len(q)}")
        lab = re.findall(r"\[(\d+)\]=", hd[1])
        need([int(x_) for x_ in lab] == list(range(1, len(row) + 1)), f"{f}: header announces columns {lab}, the table has {len(row)}")
        prec = 1e-14 if "dat_fmt" in o else 5.2e-7
        need(close(row[:2], [g.time, g.dt], prec), f"{f}: time {row[0]} dt {row[1]}, state {g.time} {g.dt}")
        for (nm, V), got in zip(q, row[2:]):
            want = float(np.sum(V * w))
            sc = float(np.sum(np.abs(V) * w))
            if abs(got - want) > prec * abs(want) + (3e-6 if cfg.sr else 1e-12 + eps()) * sc:
                raise Bad(f"{f}: {nm} is {got!r}, the sum over the cells gives {want!r}")
        nf += 1
    return nf


def check_pdf(cfg, s, r, raw, glob, o, num, mpi, expected, nout):
    nf = 0
    for (lev, dom), g in glob[num].items():
        if o.get("level", -1) not in (-1, lev) or o.get("domain", -1) not in (-1, dom):
            continue
        f = fname(0, mpi, lev, dom, num, o["id"], "prb")
        if mpi and lev:
            alt = [f.replace("/vp", f"/vp-id{k}") for k in range(1, 16)]
            alt = [x for x in [f] + alt if os.path.exists(r.path(x))]
            need(len(alt) == 1, f"distribution of level {lev} domain {dom} is in {alt}")
            f = alt[0]
        fs = f.replace(f".{num:04d}.{o['id']}.prb", f".prb_stat.{o['id']}.tab")
        expected.update((f, fs))
        need(os.path.exists(r.path(f)), f"{f} was not written")
        V = expr(cfg, g, o["out"]).ravel()
        n = V.size
        hd = dict(re.findall(r"# (\S[^=]*?) = (.*)", open(r.path(f)).read()))
        mean = V.mean()
        s_ = V - mean
        var = (np.sum(s_ ** 2) - np.sum(s_) ** 2 / n) / (n - 1)
        sd = np.sqrt(var)
        want = {"Time": g.time, "dmin": V.min(), "dmax": V.max(), "mean": mean, "variance": var, "std. dev.": sd, "avg. dev.": np.mean(np.abs(s_)), "skewness": np.mean(s_ ** 3) / sd ** 3, "kurtosis": np.mean(s_ ** 4) / var ** 2 - 3}
        rel = 1e-5 if cfg.sr and o["out"] not in cfg.names else 1e-9 + 30 * eps()
        for k, w in want.items():
            need(k in hd and abs(float(hd[k]) - w) <= rel * (abs(w) + (np.max(np.abs(V)) if k not in ("skewness", "kurtosis") else 1)), f"{f}: {k} = {hd.get(k)}, expected {w!r}")
        nb = int(np.sqrt(n))
        need(int(hd["Nbin"]) == nb, f"{f}: {hd['Nbin']} bins for {n} cells")
        T = table(r.path(f))
        need(T.shape == (nb, 2), f"{f}: table {T.shape}")
        cnt = np.bincount(np.minimum(((V - V.min()) * (nb / (V.max() - V.min()))).astype(int), nb - 1), minlength=nb)
        dw = (V.max() - V.min()) / nb
        need(close(T[:, 0], V.min() + (np.arange(nb) + 0.5) * dw, 1e-8, rel * (1 + np.max(np.abs(V)))), f"{f}: bin positions")
        need(abs(np.sum(T[:, 1]) * dw - 1) < 1e-6, f"{f}: the distribution integrates to {np.sum(T[:,1])*dw}")
        e = np.abs(T[:, 1] * dw * n - cnt)
        need(np.sum(e) <= 2.1 + (0.03 * n if cfg.sr or cfg.single else 0), f"{f}: bin counts differ from the data by {np.sum(e):.1f} cells")
        st = table(r.path(fs))
        need(len(st) == 3, f"{fs}: {len(st)} lines after three outputs")
        w = [want[k] for k in ("Time", "dmin", "dmax", "mean", "variance", "std. dev.", "avg. dev.", "skewness", "kurtosis")]
        need(close(st[num], w, rel, rel * (1 + np.max(np.abs(V)))), f"{fs}: line {st[num]}, expected {w}")
        nf += 2
    return nf


def check_phst(cfg, s, r, glob, parts, num, nums, o, mpi, expected, mass, interp):
    f = ("" if mpi else "") + "vp.phst"
    expected.add(f)
    need(os.path.exists(r.path(f)), f"{f} was not written")
    rows = [[float(x) for x in l.split()] for l in open(r.path(f)) if l.strip() and not l.startswith("#")]
    g = glob[num][(0, 0)]
    n = int(np.prod(g.N))
    P = parts[num]
    t = np.array([q["type"] for q in P]); x = np.array([q["x"] for q in P]); v = np.array([q["v"] for q in P])
    m = np.array([mass[q] for q in t]) if mass else np.ones(len(P))
    mine = [w for w in range(len(rows)) if len(rows[w]) == 11 and abs(rows[w][0] - g.time) <= 1e-5 * abs(g.time) + 1e-12]
    need(mine, f"{f}: no entry for time {g.time}")
    for w in mine:
        row = rows[w]
        dep = deposit(cfg, P, None, g, interp, mass=mass)
        need(close(row[1], dep[..., 0].max(), 1e-5), f"{f}: d_max {row[1]}, expected {dep[...,0].max()}")
        want = [m.sum() / n] + [np.sum(m * v[:, a]) / n for a in range(3)] + [0.5 * np.sum(m * v[:, a] ** 2) / n for a in range(3)]
        sc = max(abs(q) for q in want)
        need(close(row[4:11], want, 1e-5, 1e-5 * sc), f"{f}: totals {row[4:11]}, expected {want}")
        for ty in (0, 1):
            q = t == ty
            y = rows[w + 1 + ty]
            for a in range(3):
                need(abs(y[a] - x[q, a].mean()) < 1e-5 * (1 + abs(x[q, a].mean())) and abs(y[3 + a] - v[q, a].mean()) < 1e-5 * (1 + abs(v[q, a].mean())), f"{f}: type {ty} mean position/velocity {y[a]} {y[3+a]}, expected {x[q,a].mean()} {v[q,a].mean()}")
                need(abs(y[6 + a] - x[q, a].std(ddof=1)) < 2e-5 * (1 + x[q, a].std(ddof=1)) and abs(y[9 + a] - v[q, a].std(ddof=1)) < 2e-5 * (1 + v[q, a].std(ddof=1)), f"{f}: type {ty} scatter {y[6+a]} {y[9+a]}, expected {x[q,a].std(ddof=1)} {v[q,a].std(ddof=1)}")
    return 1


def check_lis(cfg, p, rec, s, P, o):
    b = open(p, "rb").read()
    fd = struct.unpack_from("12f", b, 0)
    need(close([fd[0], fd[2], fd[4]], rec.min, 1e-6, 1e-6), f"{p}: Grid origin {fd[:6]}")
    need(close([fd[6], fd[8], fd[10], fd[7], fd[9], fd[11]], list(s.root.xmin0) + list(s.root.xmax0), 1e-6, 1e-6), f"{p}: domain bounds {fd[6:]}")
    nt, = struct.unpack_from("i", b, 48)
    need(nt == 2, f"{p}: {nt} particle types")
    o_ = 52 + 4 * nt
    t, dt = struct.unpack_from("2f", b, o_); o_ += 8
    need(abs(t - rec.time) <= 1e-6 * abs(rec.time) and abs(dt - rec.dt) <= 1e-6 * rec.dt, f"{p}: time {t} {dt}")
    n, = struct.unpack_from("q", b, o_); o_ += 8
    need(len(b) - o_ == n * 44, f"{p}: {n} particles announced, {len(b)-o_} bytes")
    got = {}
    for i in range(n):
        q = struct.unpack_from("=7fiqi", b, o_ + 44 * i)
        got[q[8], q[9]] = q
    want = [q for q in P if o.get("par_prop") != "type0" or q["type"] == 0]
    need(len(got) == n == len(want), f"{p}: {n} particles ({len(got)} distinct), the process holds {len(want)}")
    for q in want:
        k = next((k for k in got if k[0] == q["id"] and (not cfg.mpi or True) and k[1] in (q["init"], 0)), None)
        need(k is not None, f"{p}: particle {q['id']} is missing")
        y = got[k]
        need(close(y[:6], list(q["x"]) + list(q["v"]), 1e-6, 1e-6) and y[7] == q["type"], f"{p}: particle {q['id']} {y[:6]} type {y[7]}, state {q['x']} {q['v']} {q['type']}")


EX = [
    Scen("gsp2", H + " --with-order=2 --enable-single", 2, N=(11, 9, 1), mpi=False),
    Scen("g1", H + " --with-order=2 --with-nscalars=2", 1, N=(27, 1, 1), decs=[(3, 1, 1)]),
    Scen("g2", "--with-order=2 --with-flux=hlld --with-nscalars=1", 2, N=(9, 9, 1), decs=[(1, 2, 1)]),
    Scen("g3", "--with-order=2 --with-flux=hlld --with-nscalars=3", 3, N=(10, 9, 8), decs=[(2, 2, 2), (1, 2, 1)]),
    Scen("g3i", H + " " + I + " --with-order=1", 3, N=(7, 8, 11), decs=[(1, 2, 2)]),
    Scen("gsmr2", "--with-order=2 --with-flux=hlld --enable-smr", 2, hier="deep-pair", decs=[list(MULTI2), [(2, 1, 1), O, O, O]]),
    Scen("gsmr3", H + " --with-order=2 --enable-smr --with-nscalars=1", 3, hier="two-levels", decs=[list(MULTI3), [(2, 1, 1), (1, 2, 1), O]]),
]
LIST = EX + [BY[n] for n in ("cyl2", "cyl3", "srh2", "srm3", "sg-fft3", "part2", "part3fb", "smr1", "shear3f")]


def task(s, n):
    def f():
        for rep in range(4 if c.thorough else 1):
            sd = c.seed * 100 + n + 1000 * rep
            for mode in ("cons", "prim", "var"):
                one(s.name, s, False, None, sd, mode)
            if s.mpi and s.decs:
                for dec in (s.decs if c.thorough or s.name.startswith("gsmr") else s.decs[:1]):
                    for mode in ("cons", "prim", "var"):
                        one(s.name, s, True, dec, sd + 50, mode)
            if rep == 0 and not c.thorough:
                one(s.name, s, False, None, sd + 7, "var")
    return f


c.parallel([(s.name, task(s, n)) for n, s in enumerate(LIST)])
c.finish(min_cases=200)
