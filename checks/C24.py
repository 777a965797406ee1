"""C24: shared utilities. A sanitized driver calls each function with generated arguments and compares the answers with independent ones."""
import os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np, ath
from vlib import Check, ENV

c = Check("C24", rule="one case = (build, seed, utility); every call with generated arguments under ASan+UBSan is compared with an independently computed answer",
          assumptions=["smooth integrands and simple roots for the quadrature, averaging and root-finding routines"])
SAN = "-g -fsanitize=address,undefined -fno-sanitize-recover=undefined"
CF = [("part", "--with-gas=mhd --with-eos=isothermal --with-flux=hlld --with-particles=feedback --with-integrator=ctu"),
      ("cyl", "--with-gas=mhd --with-flux=hlld --with-coord=cylindrical --with-integrator=vl --with-order=2p"),
      ("hyd", "--with-gas=hydro --with-flux=roe")]
N = 20000 if c.thorough else 2000


def one(name, args):
    def go():
        b = c.build(args, opt="-O1", cflags=SAN)
        exe = c.harness(b, ["util_h.c"], cflags=SAN) if b.ok else None
        if not exe:
            c.incon(name + " does not build")
            return
        for s in range(4 if not c.thorough else 8):
            env = dict(ENV, ASAN_OPTIONS="exitcode=77:detect_leaks=0", UBSAN_OPTIONS="exitcode=78:print_stacktrace=1")
            d = c.tmp("u")
            p = subprocess.run([exe, str(c.seed * 1000 + s), str(N)], capture_output=True, text=True, errors="replace", env=env, timeout=800, cwd=d)
            for l in p.stdout.splitlines():
                if l.startswith("CASE "):
                    _, f, n = l.split()
                    c.count("calls_" + f, int(n))
                    c.case(f"{name}/{f}/{s}", nontrivial=int(n) > 0)
                elif l.startswith("BAD "):
                    c.violation(f"{name}/{l.split()[1]}", l[:600])
            if "DONE" not in p.stdout:
                c.violation(f"{name}/abort", f"the driver ended (rc {p.returncode}) after {p.stdout[-200:]}: {p.stderr[-1500:]}")
    return go


# the error report: the L1 norms written to <problem>-errors.dat against norms of the same fields
L1 = [("had2", "--with-gas=hydro --with-nscalars=2", 1, 0, 2, 0), ("hiso", "--with-gas=hydro --with-eos=isothermal", 0, 0, 0, 0), ("mad", "--with-gas=mhd", 1, 1, 0, 0),
      ("miso1", "--with-gas=mhd --with-eos=isothermal --with-nscalars=1", 0, 1, 1, 0), ("cyl", "--with-gas=mhd --with-flux=hlld --with-coord=cylindrical --with-integrator=vl --with-order=2p", 1, 1, 0, 1)]
MESH = [((16, 1, 1), (4, 1, 1)), ((12, 8, 1), (2, 2, 1)), ((8, 9, 10), (2, 1, 2)), ((13, 8, 1), (3, 2, 1)), ((8, 12, 8), (1, 3, 1))]


def rnd(s):
    M = np.uint64
    with np.errstate(over="ignore"):
        s = s + M(0x9E3779B97F4A7C15)
        s = (s ^ (s >> M(30))) * M(0xBF58476D1CE4E5B9)
        s = (s ^ (s >> M(27))) * M(0x94D049BB133111EB)
        s = s ^ (s >> M(31))
    return (s >> M(11)).astype(float) / 9007199254740992.0 - 0.5


def l1(name, args, ad, mag, ns, cyl, N, dec, seed):
    def go():
        mpi = dec is not None
        b = c.build(args + (" --enable-mpi" if mpi else ""), prob="vpl1", opt="-O1", cflags=SAN)
        if not b.ok:
            c.incon("error report: " + name + " does not build")
            return
        lo, hi = (1.0, 0.0, -0.5), (2.0, 0.75, 0.7)
        dom = {"level": 0}
        for a in range(3):
            dom.update({f"Nx{a+1}": N[a], f"x{a+1}min": lo[a], f"x{a+1}max": hi[a], f"bc_ix{a+1}": 2, f"bc_ox{a+1}": 2, f"NGrid_x{a+1}": dec[a] if mpi else 1})
        inp = {"job": {"problem_id": "vp", "maxout": 0, "num_domains": 1}, "time": {"cour_no": 0.3, "nlim": 0, "tlim": 1.0}, "domain1": dom,
               "problem": {"gamma": 1.6666667, "iso_csound": 1.0, "seed": seed}}
        case = f"errors/{name}/{'x'.join(map(str, N))}/{'x'.join(map(str, dec)) if mpi else 'serial'}"
        r = c.run(b, inp, np=int(np.prod(dec)) if mpi else 1, timeout=60, env={"ASAN_OPTIONS": "exitcode=77:detect_leaks=0", "UBSAN_OPTIONS": "exitcode=78"})
        if not c.ok_run(r, case):
            return
        fs = ath.find(r.dir, "vp-errors.0.dat")
        if len(fs) != 1:
            c.violation(case + "/files", f"{len(fs)} reports were written, expected one", r)
            return
        rows = [[float(v) for v in l.split()] for l in open(fs[0]) if l.strip() and l[0] != "#"]
        g = np.arange(N[0] * N[1] * N[2], dtype=np.uint64)
        with np.errstate(over="ignore"):
            o = np.uint64(seed) * np.uint64(1000003) + np.uint64(64) * g
        i1 = (g % np.uint64(N[0])).astype(float)
        dx = [(hi[a] - lo[a]) / N[a] for a in range(3)]
        vol = np.full(len(g), dx[0] * dx[1] * dx[2])
        if cyl:
            vol = vol * (lo[0] + (i1 + 0.5) * dx[0])
        var = [0, 1, 2, 3] + ([4] if ad else []) + ([5, 6, 7] if mag else []) + [8 + q for q in range(ns)]
        e = np.array([np.sum(vol * np.abs(rnd(o + np.uint64(v)) - rnd(o + np.uint64(32 + v)))) for v in var])
        nr = 4 + ad + 3 * mag
        tot = np.prod([hi[a] - lo[a] for a in range(3)]) * (0.5 * (lo[0] + hi[0]) if cyl else 1.0)
        for t, f in ((0, 1.0), (1, tot)):
            ref = np.array(list(N) + [np.sqrt(np.sum(e[:nr] ** 2)) / f] + list(e / f))
            c.case(f"{case}/type{t}", True)
            c.count("reported_norms", len(ref))
            if len(rows) != 2 or len(rows[t]) != len(ref) or not np.all(np.abs(np.array(rows[t]) - ref) <= 2e-6 * np.abs(ref)):
                c.violation(f"{case}/type{t}", f"reported {rows[t] if len(rows) > t else rows}, the fields give {ref.tolist()}", r)
    return go


T = [(n, one(n, a)) for n, a in CF]
for q, L in enumerate(L1):
    for w, (N, d) in enumerate(MESH):
        if c.thorough or w in (q % 5, (q + 2) % 5):
            T.append((f"errors{q}.{w}", l1(*L, N, d, c.seed * 100 + 10 * q + w)))
    N = MESH[(q + 1) % 5][0]
    T.append((f"errors{q}.s", l1(*L, N, None, c.seed * 100 + 10 * q + 7)))
c.parallel(T)
c.finish(min_cases=100)
