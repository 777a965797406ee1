"""C06: restart = uninterrupted run. Crash points enumerated over the restart dumps of each run; torn restart files must be refused."""
import os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np, ath, scen
from vlib import Check

c = Check("C06", level="fault_enumeration", rule="one case = (scenario, decomposition, restart point or torn length); non-trivial if the restarted run took >= 1 further step and its final state, step trace, particles and output files were compared",
          assumptions=["restart uses the same executable and number of processes", "comparison is bitwise"])
NL = 9


def outputs(s, dt):
    """Output intervals are longer than a timestep (a shorter one makes the next-output time lag behind); the restart dump is taken at every step."""
    o = [{"out_fmt": "rst", "dt": 1e-14}, {"out_fmt": "vtk", "dt": 2.3 * dt}, {"out_fmt": "hst", "dt": 1.7 * dt}, {"out_fmt": "tab", "dt": 3.1 * dt}, {"out_fmt": "bin", "out": "prim", "dt": 1.9 * dt},
         {"name": "usrout", "out_fmt": "x", "dt": 2.9 * dt}]
    if s.dim > 1:
        o.append({"out_fmt": "vtk", "out": "d", "id": "den", "dt": 2.6 * dt})
    else:
        o.append({"out_fmt": "tab", "out": "d", "id": "den", "dt": 2.6 * dt})
    if s.part:
        o.append({"out_fmt": "lis", "dt": 2.2 * dt, "id": "pl"})
    return o


def files(d):
    r = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            r[os.path.relpath(os.path.join(root, f), d)] = os.path.join(root, f)
    return r


def rst_of(d, n):
    return [p for k, p in files(d).items() if re.search(r"\.%04d\.rst$" % n, k)]


def hst_lines(p):
    return [l for l in open(p) if not l.startswith("#")]


def trace(d, frm):
    out = {}
    for k, p in files(d).items():
        if re.search(r"(^|/)mon\.\d+\.txt$", k):
            out[k] = [l for l in open(p) if l.startswith("step") and int(l.split()[1]) > frm]
    return out


def binpart(p):
    b = open(p, "rb").read()
    return b[b.index(b"<par_end>"):]


def rst_steps(d):
    """(directory, step number stored in the file) -> binary part"""
    r = {}
    for k, p in files(d).items():
        if k.endswith(".rst"):
            b = binpart(p)
            o = b.index(b"N_STEP\n") + 7
            r.setdefault((os.path.dirname(k), os.path.basename(k).split(".")[0], int.from_bytes(b[o:o + 4], "little")), b)
    return r


def close(a, b, tol):
    """raw dumps equal to round-off"""
    x, y = open(a, "rb").read(), open(b, "rb").read()
    if len(x) != len(y):
        return False
    for p, q in zip(ath.read_dump(a), ath.read_dump(b)):
        c.maxc(f'roundoff_{tol}', float(np.max(np.abs(p.U - q.U)) / np.max(np.abs(q.U))))
        if p.nstep != q.nstep or np.max(np.abs(p.U - q.U)) > tol * np.max(np.abs(q.U)) or any(np.max(np.abs(u - v)) > tol * np.max(np.abs(q.U)) for u, v in zip(p.B or [], q.B or [])):
            return False
    return True


def compare(case, u, r, frm, numbered=True, tol=None):
    """r: restarted run (directory), u: reference; frm: step at which it restarted"""
    bad = []
    fu, fr = files(u.dir), files(r.dir)
    n = 0
    for k, p in fr.items():
        b = os.path.basename(k)
        if re.match(r"(dump|part)\.final", b):
            n += 1
            if k not in fu or (not close(p, fu[k], tol) if tol and b.startswith("dump") else open(p, "rb").read() != open(fu[k], "rb").read()):
                bad.append((("particles" if b.startswith("part") else "state"), k))
        elif re.search(r"\.(vtk|tab|bin|lis)$", b) and not b.startswith(("dump.", "part.")) and numbered:
            n += 1
            if k not in fu:
                bad.append(("output-name", k))
            elif (b.endswith((".vtk", ".bin")) and os.path.getsize(p) != os.path.getsize(fu[k]) if tol else open(p, "rb").read() != open(fu[k], "rb").read()):
                bad.append(("output", k))
        elif b.endswith(".hst") and numbered:
            a, e = hst_lines(p), hst_lines(fu[k]) if k in fu else []
            n += 1
            if not a or (len(e) < len(a) if tol else e[-len(a):] != a):
                bad.append(("history", k))
    if numbered and not tol:
        ra, rb = rst_steps(r.dir), rst_steps(u.dir)
        for k in ra:
            if k[2] > frm and k in rb:
                n += 1
                if ra[k] != rb[k]:
                    bad.append(("restart-file", str(k)))
    ta, tb = trace(r.dir, frm), trace(u.dir, frm)
    if tol:
        # times agree to round-off
        same = ta.keys() == tb.keys() and all(len(ta[k]) == len(tb[k]) and all(x.split()[:2] == y.split()[:2] and abs(float(x.split()[2]) - float(y.split()[2])) < tol for x, y in zip(ta[k], tb[k])) for k in ta)
    else:
        same = ta == tb
    if not same:
        bad.append(("trace", "steps, times or timesteps differ"))
    if not n or not any(ta.values()):
        bad.append(("nothing", "no files to compare"))
    # every file of the reference whose number comes after the restart point must have been written again
    if numbered:
        last = {}
        for k in fr:
            m = re.match(r"(.*\.)(\d{4})(\..*)$", k)
            if m and not m[3].endswith("rst"):
                last.setdefault(m[1] + "*" + m[3], set()).add(int(m[2]))
        for k in fu:
            m = re.match(r"(.*\.)(\d{4})(\..*)$", k)
            if m and not m[3].endswith("rst"):
                s = last.get(m[1] + "*" + m[3])
                if s is None:
                    bad.append(("output-missing", k))
                elif int(m[2]) >= min(s) and int(m[2]) not in s:
                    bad.append(("output-missing", k))
    for p in files(r.dir).items():
        if re.match(r"(.*/)?user\.\d+\.txt$", p[0]):
            t = open(p[1]).read().split()
            if t[0] != "0" or int(t[2]) != frm or int(t[1]) != 1000 + frm:
                bad.append(("user-data", " ".join(t)))
    kinds = {}
    for kd, k in bad:
        kinds.setdefault(kd, []).append(k)
    for kd, ks in kinds.items():
        c.violation(f"{case}/{kd}", f"restart differs from the uninterrupted run ({kd}): {ks[:4]}", r)
    c.count("files_compared", n)
    return not bad


def restart(b, src, num, np_, args=(), env=None):
    d = c.tmp("r")
    fs = rst_of(src, num)
    for p in fs:
        shutil.copy(p, d)
    main = [os.path.basename(p) for p in fs if "-id" not in os.path.basename(p)]
    if not main:
        return None
    return c.run(b, "", ["-r", main[0]] + list(args), np=np_, dir=d, timeout=60, env=env)


def t_scen(s, dec, n, procs=None):
    NL = s.nl

    def f():
        args = s.args + (" --enable-mpi" if dec is not None else "")
        b = c.build(args)
        if not b.ok:
            return
        np_ = 1
        if dec is not None:
            np_ = sum(int(np.prod(q)) for q in dec) if isinstance(dec[0], tuple) else int(np.prod(dec))
        np_ = procs or np_
        seed = c.seed * 100 + n
        tag = f"{s.name}{'/np%d' % np_ if dec is not None else ''}/{seed}"
        cfg, inp = s.make(c, seed, nlim=2, dec=dec)
        u = c.run(b, inp, np=np_, timeout=120)
        if not c.ok_run(u, tag + "/probe"):
            return
        dt0 = max(x["dt"] for x in ath.read_mon(u.dir, cfg.nv)) * 1.05
        cfg, inp = s.make(c, seed, nlim=NL, outputs=outputs(s, dt0), dec=dec, prob={"usrdump": 0})
        # cylindrical MHD: the cell-centred field is rebuilt to round-off; multigrid: iterative, its starting guess is not part of the state
        tol = s.tol or (1e-11 if cfg.cyl and cfg.mhd else None)
        u = c.run(b, inp, np=np_, timeout=120)
        if not c.ok_run(u, tag + "/reference"):
            return
        steps = sorted({int(re.search(r"\.(\d{4})\.rst$", k)[1]) for k in files(u.dir) if k.endswith(".rst")})
        dts = [x["dt"] for x in ath.read_mon(u.dir, cfg.nv)]
        if max(dts) > 1.6 * dt0:
            c.incon(f"{tag}: timestep grew by {max(dts)/dt0}")
            return
        if len(steps) < NL:
            c.violation(tag + "/dumps", f"{len(steps)} restart dumps in {NL} steps", u)
            return
        pts = list(range(NL)) if c.thorough else [2] if s in BIG else [1 + (seed + n) % 3, 4 + (seed + n) % 4]
        if s.name in ("h2vl", "m2ctu", "part2", "smr2m", "shear3f", "res") and not dec:
            pts = sorted(set(pts) | {0})
        for q in pts:
            r = restart(b, u.dir, q, np_)
            case = f"{tag}/from{q}"
            if r is None:
                c.violation(case + "/missing", "restart file missing", u)
                continue
            if not c.ok_run(r, case):
                continue
            compare(case, u, r, q, tol=tol)
            c.case(case, True)
        # stopped by the step limit, then continued with command-line overrides
        if n % 3 == 0 or c.thorough:
            i2 = {k: dict(v) for k, v in inp.items()}
            i2["time"]["nlim"] = 3
            a = c.run(b, i2, np=np_, timeout=120)
            if c.ok_run(a, tag + "/stopped"):
                last = max(int(re.search(r"\.(\d{4})\.rst$", k)[1]) for k in files(a.dir) if k.endswith(".rst"))
                r = restart(b, a.dir, last, np_, [f"time/nlim={NL}"])
                if c.ok_run(r, tag + "/continued"):
                    compare(tag + "/continued", u, r, 3, numbered=False, tol=tol)
                    c.case(tag + "/continued", True)
        # torn files: every prefix must be refused with an error, not accepted, not crash, not hang
        if dec is None and (n % 4 == 1 or c.thorough):
            full = rst_of(u.dir, 3)[0]
            data = open(full, "rb").read()
            pe = data.index(b"<par_end>")
            ud = data.index(b"\nUSER_DATA\n")
            cuts = [pe, pe + 14, pe + 40, pe + 60 + (ud - pe) // 7, ud - 40, pe // 2, ud - 8 * (1 + seed % 50)]
            for cut in cuts if c.thorough else cuts[seed % 2::2] + cuts[:1]:
                d = c.tmp("t")
                open(d + "/torn.0003.rst", "wb").write(data[:cut])
                r = c.run(b, "", ["-r", "torn.0003.rst"], dir=d, timeout=20, retry=False)
                k = f"{tag}/torn-{'header' if cut < pe else 'data'}"
                c.case(f"{k}{cut}", True)
                if r.timeout:
                    c.violation(k + "-hang", f"restart from a file cut at byte {cut} of {len(data)} never ends", r)
                elif r.rc == 0:
                    c.violation(k + "-accepted", f"restart from a file cut at byte {cut} of {len(data)} was accepted", r)
                elif r.rc < 0:
                    c.violation(k + "-crash", f"restart from a file cut at byte {cut} of {len(data)} died by signal {-r.rc}", r)
    return f


# blocks longer than the 256-KB buffers of the writer, by a little and by a lot, in Grids and in particle lists
BIG = [scen.Scen("big-m2", "--with-order=2 --with-flux=hlld --with-nscalars=1", 2, N=(8 * (40 + c.seed % 7), 8 * 13, 1), decs=[]),
       scen.Scen("big-m3", scen.I + " --with-order=2 --with-flux=hlle", 3, N=(36, 32, 32 + c.seed % 3), decs=[]),
       scen.Scen("big-part", scen.H + " " + scen.I + " --with-order=2 --with-particles=feedback", 2, part={"n": 66000 + 977 * (c.seed % 11), "v": 1.0, "interp": 1, "npg": 150000}, decs=[]),
       scen.Scen("huge-part", scen.H + " " + scen.I + " --with-order=2 --with-particles=passive", 2, part={"n": 132000 + 1013 * (c.seed % 11), "v": 1.0, "interp": 1, "npg": 250000}, decs=[])]
for s in scen.ALL + BIG:
    s.nl = 4 if s in BIG else NL
tasks = []
MP = {"h3hc", "m3ctu", "m2ctu", "part2", "partsh", "shear3f", "smr2m", "sg-fft3", "res", "cyl3f"}
for n, s in enumerate(scen.ALL + BIG):
    tasks.append((s.name, t_scen(s, None, n)))
    if s.mpi and (s.name in MP or c.thorough):
        for k, dec in enumerate(s.decs if c.thorough else s.decs[(c.seed + n) % len(s.decs):][:1]):
            tasks.append((s.name + "-mpi", t_scen(s, dec, n + 100 * (k + 1))))
# processes that hold Grids of several Domains
O = (1, 1, 1)
for k, (nm, dec, pr) in enumerate([("smr2m", [(1, 2, 1), (1, 2, 1), (2, 1, 1)], 2), ("smr2", [(2, 1, 1), O, (1, 2, 1), O], 3), ("smr1", [(2, 1, 1), (2, 1, 1), (2, 1, 1)], 3)]):
    tasks.append((f"multi-{nm}", t_scen(scen.BY[nm], dec, 900 + k, pr)))
c.parallel(tasks)
c.finish(min_cases=80)
