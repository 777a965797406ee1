"""C22: joining per-process VTK files. Offline checker over the files real MPI runs and real join_vtk (built with ASan and UBSan) write: an independent
reader places the pieces itself; the joined file must hold the same cells and values, as must the dump of the single-process run. Synthetic pieces with
hostile bytes and uneven splits, and malformed or incomplete sets, go through the same program."""
import os, re, sys, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np, ath, scen, vlib
from vlib import Check, REPO

c = Check("C22", rule="one case = (scenario or synthetic set, decomposition, output, number): joined file against pieces placed independently and against the single-process file; or one malformed set and its exit status",
          assumptions=["origins resolved to 6 significant digits in the files distinguish neighbouring Grids"])
JOIN = None


def rd(p):
    b = open(p, "rb").read()
    o = 0

    def line():
        nonlocal o
        e = b.index(b"\n", o)
        s = b[o:e].decode("latin1")
        o = e + 1
        return s
    r = {"vars": [], "names": []}
    assert line().startswith("# vtk DataFile Version")
    r["title"] = line()
    assert line() == "BINARY"
    assert line().strip() == "DATASET STRUCTURED_POINTS"
    for key, k, f in (("dims", "DIMENSIONS", int), ("org", "ORIGIN", float), ("dx", "SPACING", float)):
        w = line().split()
        assert w[0] == k
        r[key] = [f(x) for x in w[1:]]
    w = line().split()
    assert w[0] == "CELL_DATA"
    n = r["n"] = int(w[1])
    r["N"] = [max(d - 1, 1) for d in r["dims"]]
    assert int(np.prod(r["N"])) == n, "CELL_DATA is not the product of the dimensions"
    while o < len(b):
        if b[o:o + 1] == b"\n":
            o += 1
            continue
        t, nm, ty = line().split()
        assert ty == "float"
        q = 1
        if t == "SCALARS":
            assert line() == "LOOKUP_TABLE default"
        else:
            assert t == "VECTORS"
            q = 3
        assert o + 4 * n * q <= len(b), "data cut short"
        r["names"].append((t, nm))
        r["vars"].append(np.frombuffer(b, "u4", q * n, o).reshape(r["N"][2], r["N"][1], r["N"][0], q))
        o += 4 * n * q
    return r


def place(ps):
    """own assembly of the pieces: (cells per axis, arrays of raw words, count of pieces covering each cell)"""
    lo = [min(p["org"][a] for p in ps) for a in range(3)]
    at, N = [], [0, 0, 0]
    for p in ps:
        d = [int(round((p["org"][a] - lo[a]) / p["dx"][a])) if p["dx"][a] > 0 else 0 for a in range(3)]
        at.append(d)
        N = [max(N[a], d[a] + p["N"][a]) for a in range(3)]
    cov = np.zeros(N[::-1], int)
    out = [np.zeros(N[::-1] + [v.shape[-1]], np.uint32) for v in ps[0]["vars"]]
    for p, d in zip(ps, at):
        s = tuple(slice(d[a], d[a] + p["N"][a]) for a in (2, 1, 0))
        cov[s] += 1
        for o, v in zip(out, p["vars"]):
            o[s] = v
    return N, out, cov, lo


def join(out, files, env=None):
    try:
        q = subprocess.run([JOIN, "-o", out] + files, capture_output=True, timeout=120, env=dict(os.environ, ASAN_OPTIONS="exitcode=77:detect_leaks=0", UBSAN_OPTIONS="halt_on_error=1:exitcode=78"))
    except subprocess.TimeoutExpired:
        return 124, b"timed out"
    c.count("join_runs")
    return q.returncode, q.stderr


def judge(key, tag, files, rng, d, run=None):
    ps = [rd(f) for f in files]
    N, vals, cov, lo = place(ps)
    if not (cov == 1).all():
        c.violation(key + "/cover", f"{tag}: the per-process files cover cells {int(cov.min())} to {int(cov.max())} times", run)
        return None
    if len({tuple(p["names"]) for p in ps}) != 1:
        c.violation(key + "/vars", f"{tag}: per-process files list different variables", run)
        return None
    if len(files) < 2:
        return N, vals, ps[0], lo
    outs = []
    for k in range(2):
        f = [files[i] for i in rng.permutation(len(files))]
        o = f"{d}/joined{k}.vtk"
        rc, err = join(o, f)
        if rc != 0:
            c.violation(key + "/status", f"{tag}: join_vtk exits with {rc}: {err[-300:].decode('latin1')}", run)
            return None
        outs.append(open(o, "rb").read())
    if outs[0] != outs[1]:
        c.violation(key + "/order", f"{tag}: the joined file depends on the order of the arguments", run)
    try:
        j = rd(f"{d}/joined0.vtk")
    except (AssertionError, ValueError, IndexError) as e:
        c.violation(key + "/format", f"{tag}: joined file is malformed: {e}", run)
        return None
    if j["N"] != N or any(abs(j["org"][a] - lo[a]) > 1e-6 * abs(lo[a]) for a in range(3)) or j["dx"] != ps[0]["dx"] or j["title"] != ps[0]["title"]:
        c.violation(key + "/grid", f"{tag}: joined file has cells {j['N']} origin {j['org']} spacing {j['dx']}, the pieces {N} {lo} {ps[0]['dx']}", run)
        return None
    if j["names"] != ps[0]["names"]:
        c.violation(key + "/names", f"{tag}: joined file holds {j['names']}, the pieces {ps[0]['names']}", run)
        return None
    for nm, x, y in zip(j["names"], j["vars"], vals):
        bad = int((x != y).sum())
        if bad:
            c.violation(key + "/values", f"{tag}: {bad} of {x.size} joined values of {nm[1]} differ from the pieces", run)
            return None
    c.case(tag, nontrivial=len(files) > 1)
    return N, vals, ps[0], lo


# ---------------- real runs ----------------
def groups(dir):
    g = {}
    for p, _, fs in os.walk(dir):
        for f in fs:
            if f.endswith(".vtk"):
                g.setdefault(re.sub(r"-id\d+", "", f), []).append(os.path.join(p, f))
    return g


def real(name, decs):
    s = scen.BY[name]

    def run():
        bs, bm = c.build(s.args), c.build(s.args + " --enable-mpi")
        if not (bs.ok and bm.ok):
            c.incon(name + " does not build")
            return
        for n, dec in enumerate(decs):
            rng = np.random.default_rng([c.seed, n, sum(map(ord, name))])
            seed = int(rng.integers(1 << 30))
            outs = [{"out_fmt": "vtk", "dt": 1e-9}, {"out": "prim", "out_fmt": "vtk", "dt": 1e-9, "id": "pr"}]
            if s.dim > 1:
                outs.append({"out": "d", "out_fmt": "vtk", "dt": 1e-9, "id": "dd"})
            cfg, inp = s.make(c, seed, nlim=2, outputs=outs)
            if s.dim == 3:
                a = int(rng.integers(3))
                x = s.root.xmin0[a] + rng.uniform(0.1, 0.9) * (s.root.xmax0[a] - s.root.xmin0[a])
                outs.append({"out": "V1", "out_fmt": "vtk", "dt": 1e-9, "id": "sl", f"x{a+1}": repr(float(x))})
            cfg, inp = s.make(c, seed, nlim=2, outputs=outs)
            r1 = c.run(bs, inp)
            cfg, inp = s.make(c, seed, nlim=2, outputs=outs, dec=dec)
            npr = int(np.prod(dec)) if not isinstance(dec[0], tuple) else sum(int(np.prod(x)) for x in dec)
            r2 = c.run(bm, inp, np=npr, timeout=300)
            tag0 = f"real/{name}/{dec}"
            if not (c.ok_run(r1, tag0) and c.ok_run(r2, tag0)):
                continue
            g1, g2 = groups(r1.dir), groups(r2.dir)
            if set(g1) != set(g2):
                c.violation(f"real/{name}/set", f"{tag0}: single-process files {sorted(set(g1) - set(g2))[:4]} have no parallel counterpart, {sorted(set(g2) - set(g1))[:4]} no serial one", r2)
            d = c.tmp("j")
            for f in sorted(set(g1) & set(g2)):
                tag = f"{tag0}/{f}"
                try:
                    q = judge(f"real/{name}", tag, sorted(g2[f]), rng, d, r2)
                    one = rd(g1[f][0])
                except (AssertionError, ValueError, IndexError) as e:
                    c.violation(f"real/{name}/format", f"{tag}: malformed file: {e}", r2)
                    continue
                if q is None:
                    continue
                N, vals, p0, lo = q
                if one["N"] != N or one["names"] != p0["names"] or one["title"] != p0["title"] or any(abs(one["org"][a] - lo[a]) > 1e-6 * abs(lo[a]) + 1e-12 or one["dx"][a] != p0["dx"][a] for a in range(3) if not (N[a] == 1 and s.root.N[a] > 1)):
                    c.violation(f"real/{name}/serial", f"{tag}: single-process file has cells {one['N']} origin {one['org']} spacing {one['dx']} title {one['title']} variables {one['names']}, the parallel pieces {N} {lo} {p0['dx']} {p0['title']} {p0['names']}", r2)
                    continue
                for nm, x, y in zip(one["names"], one["vars"], vals):
                    fx, fy = x.copy().view(">f4").astype(float), y.copy().view(">f4").astype(float)
                    dv = np.abs(fx - fy).max() / max(np.abs(fx).max(), 1e-10)
                    c.maxc("max_serial_difference", dv)
                    if not dv < (3e-6 if s.exact else 1e-4):
                        c.violation(f"real/{name}/serialvalues", f"{tag}: {nm[1]} differs from the single-process file by {dv:.3e} of its size", r2)
    return run


# ---------------- synthetic and malformed sets ----------------
def cuts(rng, n, k):
    return [0] + sorted(int(x) for x in rng.choice(np.arange(1, n), k - 1, replace=False)) + [n]


def synth(rng, d, nf=None):
    dim = int(rng.integers(1, 4))
    N = [int(rng.integers(6, 14)) if a < dim else 1 for a in range(3)]
    K = [int(rng.integers(1, 4)) if a < dim else 1 for a in range(3)]
    if np.prod(K) == 1:
        K[0] = 2
    dx = [10 ** rng.uniform(-2, 0) for _ in range(3)]
    org = [0.0 if rng.random() < 0.3 else rng.uniform(-1, 1) * (dx[a] * N[a]) for a in range(3)]
    nv = int(rng.integers(1, 5))
    names = [("SCALARS", f"var[{q}]") if rng.random() < 0.6 else ("VECTORS", f"vec_{q}") for q in range(nv)]
    ws = np.frombuffer(b" \n\t\r\v\f  ", np.uint8)
    data = []
    for t, _ in names:
        q = 1 if t == "SCALARS" else 3
        a = rng.integers(0, 256, (N[2], N[1], N[0], q, 4)).astype(np.uint8)
        m = rng.random(a.shape) < rng.choice([0.0, 0.3, 1.0])
        a[m] = rng.choice(ws, int(m.sum()))
        data.append(a)
    C = [cuts(rng, N[a], K[a]) for a in range(3)]
    files = []
    for kk in range(K[2]):
        for jj in range(K[1]):
            for ii in range(K[0]):
                ix = (ii, jj, kk)
                lo, hi = [C[a][ix[a]] for a in range(3)], [C[a][ix[a] + 1] for a in range(3)]
                nn = [hi[a] - lo[a] for a in range(3)]
                h = "# vtk DataFile Version 2.0\nCONSERVED vars at time= 1.0, level= 0, domain= 0\nBINARY\nDATASET STRUCTURED_POINTS\n"
                h += "DIMENSIONS %d %d %d\n" % tuple(nn[a] + 1 if a < dim else 1 for a in range(3))
                h += "ORIGIN %e %e %e \n" % tuple(org[a] + lo[a] * dx[a] for a in range(3)) + "SPACING %e %e %e \n" % tuple(dx) + "CELL_DATA %d \n" % int(np.prod(nn))
                b = h.encode()
                for q, ((t, nm), a) in enumerate(zip(names, data)):
                    b += (("\n" if q else "") + f"{t} {nm} float\n" + ("LOOKUP_TABLE default\n" if t == "SCALARS" else "")).encode()
                    b += a[lo[2]:hi[2], lo[1]:hi[1], lo[0]:hi[0]].tobytes()
                f = f"{d}/p{len(files)}.vtk"
                open(f, "wb").write(b)
                files.append(f)
    return files, K, C, h


def synthetic(part):
    def run():
        for n in range(part, 60 if not c.thorough else 600, 8):
            rng = np.random.default_rng([c.seed, n, 3])
            d = c.tmp("s")
            files, K, C, h = synth(rng, d)
            tag = f"synthetic/{n}/{K}"
            try:
                judge("synthetic", tag, files, rng, d)
            except (AssertionError, ValueError, IndexError) as e:
                c.incon(f"synthetic set unreadable {e}")
    return run


def malformed(part):
    def run():
        for n in range(part, 24 if not c.thorough else 240, 8):
            rng = np.random.default_rng([c.seed, n, 4])
            d = c.tmp("m")
            files, K, C, h = synth(rng, d)

            def expect_bad(kind, fs):
                rc, err = join(f"{d}/o.vtk", fs)
                tag = f"malformed/{n}/{kind}"
                if rc in (77, 78, 124, -11, -8):
                    c.violation(f"malformed/{kind.split(':')[0]}/crash", f"{tag}: join_vtk crashed ({rc}): {err[-300:].decode('latin1')}", None, extra=str(fs))
                elif rc == 0:
                    c.violation(f"malformed/{kind.split(':')[0]}", f"{tag}: join_vtk exits with 0 for a set of {len(fs)} files it cannot join correctly (Grids {K})", None, extra=str(fs))
                c.case(tag)
            fs = list(files)
            v = int(rng.integers(len(files)))
            raw = open(files[v], "rb").read()
            hl = len(open(files[v], "rb").read().split(b"CELL_DATA")[0]) + 12
            pos = sorted(set([0, 1] + [int(x) for x in rng.integers(0, hl, 12)] + [int(x) for x in rng.integers(hl, len(raw), 10)] + [len(raw) - 1]))
            for k in re.finditer(rb"\n(SCALARS|VECTORS) [a-z_\[\]0-9]* float", raw):
                pos.append(k.start())
            bad = f"{d}/bad.vtk"
            fs[v] = bad
            for q in pos:
                if re.fullmatch(rb"[ \n\t\r\v\f]*", raw[q:]) is None or q < len(raw) - 4:
                    open(bad, "wb").write(raw[:q])
                    expect_bad(f"cut:{q}of{len(raw)}", fs)
            # a piece twice
            expect_bad("twice", files + [files[v]])
            # a piece missing such that a gap remains: interior position along some axis, or a corner of a multi-row set
            if sum(k > 1 for k in K) > 1 or max(K) > 2:
                ix = [int(rng.integers(1, k - 1)) if k > 2 else 0 for k in K]
                if not (sum(k > 1 for k in K) == 1 and max(K) <= 2):
                    w = ix[0] + K[0] * (ix[1] + K[1] * ix[2])
                    expect_bad("missing", files[:w] + files[w + 1:])
                    if len(files) == 4 and sum(k == 2 for k in K) == 2:
                        expect_bad("diagonal", [files[0], files[3]])
            # a piece of another size or spacing
            for pat, rep in ((rb"SPACING (\S+)", lambda m: b"SPACING %e" % (float(m.group(1)) * 1.5)), (rb"(SCALARS|VECTORS) (\S+) float", lambda m: m.group(1) + b" other float")):
                open(bad, "wb").write(re.sub(pat, rep, raw, count=1))
                expect_bad("other:" + pat.decode()[:7], fs)
            expect_bad("absent", files[:1] + [f"{d}/nosuch.vtk"] + files[1:])
            # random damage: must not crash
            for _ in range(10):
                bb = bytearray(raw)
                for _ in range(int(rng.integers(1, 4))):
                    bb[int(rng.integers(0, hl))] = int(rng.integers(0, 256))
                open(bad, "wb").write(bytes(bb))
                rc, err = join(f"{d}/o.vtk", fs)
                c.case(f"malformed/{n}/flip/{_}", nontrivial=rc != 0)
                if rc in (77, 78, 124, -11, -8):
                    c.violation("malformed/flip/crash", f"malformed/{n}: join_vtk crashed ({rc}) on a damaged header: {err[-300:].decode('latin1')}", None)
    return run


jd = c.tmp("join")
JOIN = jd + "/join_vtk"
q = subprocess.run(["gcc", "-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-w", "-o", JOIN, REPO + "/vis/vtk/join_vtk.c", "-lm"], capture_output=True)
if q.returncode:
    c.incon("join_vtk does not build: " + q.stderr[-300:].decode())
    c.finish(min_cases=1)
T = [(f"synthetic-{k}", synthetic(k)) for k in range(8)] + [(f"malformed-{k}", malformed(k)) for k in range(8)]
for name in ("h1", "m2ctu", "m3ctu", "m3vl", "smr2", "smr3m", "sg-fft3m", "part2", "cyl2", "shear3"):
    if name in scen.BY:
        T.append(("real-" + name, real(name, scen.BY[name].decs)))
c.parallel(T)
c.finish(min_cases=150)
