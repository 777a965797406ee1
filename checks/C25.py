"""C25: the Fourier transforms offered to solvers and problem generators: every block of every process recorded after each transform and
compared with the discrete transform of the global array."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np, ath
from vlib import Check

c = Check("C25", rule="one case = (mesh size, decomposition, data set, transform); non-trivial if the blocks of all processes were assembled and every value was compared with the discrete Fourier transform of the global array",
          assumptions=["every Grid is at least nghost cells wide in each decomposed direction", "agreement to 1e-12 of the largest coefficient"])
SAN = "-fsanitize=address,undefined -fno-omit-frame-pointer -fno-sanitize-recover=all -g1"
ENVS = {"ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0", "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=78"}
ARGS = "--with-gas=hydro --with-order=2 --enable-fft"
M = np.uint64


def rnd(s):
    with np.errstate(over="ignore"):
        s = s + M(0x9E3779B97F4A7C15)
        s = (s ^ (s >> M(30))) * M(0xBF58476D1CE4E5B9)
        s = (s ^ (s >> M(27))) * M(0x94D049BB133111EB)
        s = s ^ (s >> M(31))
        return (s >> M(11)).astype(float) / 9007199254740992.0 - 0.5


def data(N, seed, n):
    g = np.arange(N[0] * N[1] * N[2], dtype=np.uint64)
    with np.errstate(over="ignore"):
        o = M(seed) * M(1000003) + M(n) * M(100000007)
        z = rnd(o + M(2) * g) + 1j * rnd(o + M(2) * g + M(1))
    return z.reshape(N[2], N[1], N[0])


def read(r, np_, lev, N):
    """-> {(what, n): global array}; every cell exactly once"""
    out, cov = {}, {}
    for k in range(np_):
        fs = ath.find(r.dir, f"fft{lev}.{k}.bin")
        if not fs:   # this process has no Grid on the level
            continue
        b = open(fs[0], "rb").read()
        o = 0
        while o < len(b):
            h = np.frombuffer(b, np.int64, 12, o)
            o += 96
            assert h[0] == 0x5646465400000001
            n1, n2, n3 = (int(v) for v in h[3:6])
            d = [int(v) for v in h[6:9]]
            cnt = int(h[9])
            z = np.frombuffer(b, complex, cnt, o).reshape(n1, n2, n3).transpose(2, 1, 0)
            o += 16 * cnt
            key = (int(h[1]), int(h[2]))
            if key not in out:
                out[key] = np.full((N[2], N[1], N[0]), np.nan + 0j)
                cov[key] = np.zeros((N[2], N[1], N[0]), int)
            s = (slice(d[2], d[2] + n3), slice(d[1], d[1] + n2), slice(d[0], d[0] + n1))
            out[key][s] = z
            cov[key][s] += 1
    return out, bool(cov) and all((v == 1).all() for v in cov.values())


def one(N, dec, seed, san, fine=None):
    mpi = dec is not None
    np_ = int(np.prod(dec)) if mpi else 1
    b = c.build(ARGS + (" --enable-mpi" if mpi else "") + (" --enable-smr" if fine else ""), prob="vpfft", cflags=SAN if san else "")
    if not b.ok:
        c.incon("build failed: " + b.log[-300:])
        return
    case = f"{'x'.join(map(str, N))}/{'x'.join(map(str, dec)) if mpi else 'serial'}{'/san' if san else ''}"
    reps = 4
    dom = {"level": 0}
    for a in range(3):
        dom.update({f"Nx{a+1}": N[a], f"x{a+1}min": 0.0, f"x{a+1}max": 1.0, f"bc_ix{a+1}": 4, f"bc_ox{a+1}": 4, f"NGrid_x{a+1}": dec[a] if mpi else 1})
    inp = {"job": {"problem_id": "vp", "maxout": 0, "num_domains": 1}, "time": {"cour_no": 0.3, "nlim": 0, "tlim": 1.0}, "domain1": dom,
           "problem": {"gamma": 1.6666667, "seed": seed, "reps": reps, "four_pi_G": 1.0, "mean_rho": 1.0}}
    if fine:   # fine = (size, displacement, decomposition)
        inp["job"]["num_domains"] = 2
        d2 = {"level": 1}
        for a in range(3):
            d2.update({f"Nx{a+1}": fine[0][a], f"NGrid_x{a+1}": fine[2][a] if mpi else 1})
        d2.update(dict(zip(("iDisp", "jDisp", "kDisp"), fine[1])))
        inp["domain2"] = d2
        case += f"+{'x'.join(map(str, fine[0]))}@{','.join(map(str, fine[1]))}/{'x'.join(map(str, fine[2]))}"
    r = c.run(b, inp, np=np_, timeout=60, env=ENVS if san else None)
    if not c.ok_run(r, case):
        return
    judge(r, np_, 0, N, case, seed, reps)
    if fine:
        judge(r, np_, 1, fine[0], case + "/level1", seed, reps)


def judge(r, np_, lev, N, case, seed, reps):
    out, ok = read(r, np_, lev, N)
    if not ok:
        c.violation(case + "/cover", "the blocks of the processes do not cover the array exactly once", r)
        return
    tot = N[0] * N[1] * N[2]
    for n in range(reps):
        x = data(N, seed, n)
        if not np.array_equal(out[0, n], x):
            c.violation(case + "/input", f"data set {n} is not the intended one", r)
            return
        ref = {1: np.fft.fftn(x), 2: np.fft.ifftn(x) * tot, 3: x * tot}
        for w, nm in ((1, "forward"), (2, "backward"), (3, "roundtrip")):
            if (w, n) not in out:
                continue
            e = float(np.max(np.abs(out[w, n] - ref[w])) / np.max(np.abs(ref[w])))
            c.maxc("worst_relative_error", e)
            c.count("values_compared", tot)
            c.case(f"{case}/{nm}{n}", True)
            if not e < 1e-12:
                c.violation(f"{case}/{nm}", f"{nm} transform of data set {n} differs from the discrete Fourier transform by {e:.3g}", r)
    k = [np.fft.fftfreq(N[a], 1.0 / N[a]) for a in range(3)]
    K3, K2, K1 = np.meshgrid(k[2], k[1], k[0], indexing="ij")
    g = out[4, 0]
    e = np.max(np.abs(g.imag - K3) * (N[2] > 1)) + np.max(np.abs(g.real - (K1 + 1000.0 * K2)))
    c.case(case + "/wavenumbers", True)
    if not e < 1e-9:
        c.violation(case + "/wavenumbers", "wavenumbers assigned to the cells are not those of the transform", r)


T = []
rng = np.random.default_rng([c.seed, 25])
FIX3 = [((8, 8, 8), (2, 2, 2)), ((16, 8, 12), (4, 1, 1)), ((8, 16, 12), (1, 4, 1)), ((8, 12, 16), (1, 1, 4)), ((12, 12, 8), (2, 3, 1)), ((12, 8, 12), (3, 1, 2)), ((8, 15, 10), (1, 3, 2)), ((9, 10, 14), (2, 2, 2)), ((8, 8, 24), (1, 2, 4)), ((13, 13, 13), (3, 1, 1)), ((13, 13, 12), (1, 3, 2)), ((12, 9, 9), (1, 2, 2))]
FIX2 = [((16, 16, 1), (2, 2, 1)), ((24, 12, 1), (4, 1, 1)), ((12, 24, 1), (1, 4, 1)), ((18, 14, 1), (3, 2, 1)), ((13, 17, 1), (2, 3, 1)), ((20, 12, 1), (4, 2, 1)), ((13, 13, 1), (3, 1, 1)), ((17, 17, 1), (1, 3, 1))]


def rand(dim):
    while True:
        N = tuple(int(rng.integers(8, 22 if dim == 2 else 15)) if a < dim else 1 for a in range(3))
        if rng.random() < 0.4:
            N = tuple(N[0] if a < dim else 1 for a in range(3))
        d = tuple(int(rng.integers(1, 4)) if a < dim else 1 for a in range(3))
        if 1 < np.prod(d) <= 8 and all(N[a] // d[a] >= 4 for a in range(3) if d[a] > 1):
            return N, d


L = FIX3 + FIX2 + [rand(2 + (q % 2)) for q in range(40 if c.thorough else 8)]
for q, (N, d) in enumerate(L):
    T.append((f"mpi{q}", lambda N=N, d=d, q=q: one(N, d, c.seed * 100 + q, q % 3 == 0)))
for q, N in enumerate([(8, 8, 8), (12, 10, 9), (7, 16, 11), (16, 12, 1), (15, 9, 1), (32, 4, 1)]):
    T.append((f"serial{q}", lambda N=N, q=q: one(N, None, c.seed * 100 + 60 + q, q % 2 == 0)))
FINE = [((16, 16, 16), (2, 2, 1), ((16, 12, 8), (8, 6, 12), (2, 1, 2))), ((16, 16, 1), (2, 2, 1), ((16, 12, 1), (4, 12, 0), (2, 2, 1))),
        ((16, 16, 16), (1, 1, 1), ((12, 16, 20), (8, 10, 6), (1, 1, 1))), ((24, 16, 1), (3, 2, 1), ((24, 24, 1), (12, 4, 0), (2, 3, 1)))]
for q, (N, d, f) in enumerate(FINE):
    T.append((f"smr{q}", lambda N=N, d=d, f=f, q=q: one(N, None if np.prod(d) == 1 else d, c.seed * 100 + 80 + q, q % 2 == 1, f)))
c.parallel(T)
c.finish(min_cases=100)
