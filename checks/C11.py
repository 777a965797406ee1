"""C11: the trace of output calls and files of a run against the schedule computed from its step times; signals, limits, wall-clock limit; outputs do not disturb the run."""
import os, re, shutil, struct, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np, ath, scen
from scen import BY
from vlib import Check, ENV, VERIF, HarnessError

c = Check("C11", rule="one case = (scenario, decomposition, set of output blocks and limits) or (signal / wall-clock limit at one moment); non-trivial if at least one step was taken and the call trace and every file of every block was compared with the schedule",
          assumptions=["an interval shorter than a timestep means an output every step (the next-output time advances by one interval per step)", "wall-clock comparisons allow 0.3 s"])
SHIM = c.scratch + "/shim.so"
p = subprocess.run(["mpicc", "-O1", "-shared", "-fPIC", "-o", SHIM, VERIF + "/mpi/shim.c"], capture_output=True, text=True, env=ENV)
if p.returncode:
    raise HarnessError("shim: " + p.stderr)


def files(d):
    r = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            r[os.path.relpath(os.path.join(root, f), d)] = os.path.join(root, f)
    return r


def schedule(times, t0, dt):
    """steps at which a block is written. times[k] = time after k steps; -> (steps, ambiguous)"""
    n = len(times) - 1
    out, nxt, amb = [], t0, False
    eps = 1e-9 * max(dt, 1e-300)
    for k in range(n + 1):
        due = False
        if abs(times[k] - nxt) < min(eps, 1e-3) and not (k == 0 and times[0] == nxt):
            amb = True
        if times[k] >= nxt:
            nxt += dt
            due = True
            if k == 0 and times[k] >= nxt:     # the first step of the loop looks at the same time again
                amb = True
        if k == 0 or k == n or due:
            out.append(k)
    if n == 0:
        out = [0, 0]
    return out, amb


def rst_info(p):
    b = open(p, "rb").read()
    b = b[b.index(b"<par_end>"):]
    o = b.index(b"N_STEP\n") + 7
    n = struct.unpack_from("i", b, o)[0]
    o = b.index(b"TIME\n") + 5
    return n, struct.unpack_from("d", b, o)[0]


def observe(r, blk, n, np_, mpi, cfg, levels):
    """-> list of (what, [(num, time)...]) per series of files of this block"""
    fs = files(r.dir)
    out = []
    fmt, id = blk.get("out_fmt"), blk.get("id")
    if blk.get("name"):
        for k in range(np_):
            p = [q for f, q in fs.items() if re.search(r"(^|/)usrout\.%d\.txt$" % k, f)]
            rows = [l.split() for q in p for l in open(q)]
            out.append((f"calls on process {k}", [(int(x[1]), float(x[2]), int(x[3])) for x in rows if int(x[0]) == n]))
        return out
    if fmt == "hst":
        for f, q in fs.items():
            if f.endswith(".hst"):
                out.append((f, [(i, float(l.split()[0]), None) for i, l in enumerate(x for x in open(q) if not x.startswith("#"))]))
        return out
    ser = {}
    for f, q in fs.items():
        b = os.path.basename(f)
        if b.startswith(("dump.", "part.", "init.")):
            continue
        m = re.match(r"(vp(?:-id\d+)?(?:-lev\d+)?(?:-dom\d+)?)\.(\d{4,})(?:\.(\w+))?\.(\w+)$", b)
        if not m or m[4] != {"pdf": "prb"}.get(fmt, fmt):
            continue
        if (m[3] or None) != (id if blk.get("out", "cons") not in ("cons", "prim") or fmt == "lis" else None):
            continue
        t, st = None, None
        if fmt == "rst":
            st, t = rst_info(q)
        elif fmt == "bin":
            t = struct.unpack_from("4d", open(q, "rb").read(64), 32)[2]
        elif fmt == "vtk":
            mm = re.search(rb"time= (\S+),", open(q, "rb").read(300))
            t = float(mm[1]) if mm else None
        elif fmt == "tab" and blk.get("out", "cons") in ("cons", "prim"):
            mm = re.search(r"Time ?= (\S+),", open(q).read(400))
            t = float(mm[1]) if mm else None
        elif fmt == "lis":
            h = open(q, "rb").read(200)
            nt, = struct.unpack_from("i", h, 48)
            t = struct.unpack_from("2f", h, 52 + 4 * nt)[0]
        ser.setdefault(os.path.dirname(f) + "/" + m[1], []).append((int(m[2]), t, st))
    for k, v in ser.items():
        out.append((k + "." + (id or "") + "." + fmt, sorted(v)))
    return out


def blocks_for(s, cfg, rng, dt, kinds):
    o = []
    for k in kinds:
        iv = float(dt * np.exp(rng.uniform(np.log(1.15), np.log(7.0))))
        u = rng.random()
        if u < 0.12:
            iv = 1e-9 * dt
        elif u < 0.2:
            iv = 1e6
        b = dict(k, dt=iv)
        if rng.random() < 0.2:
            b["num"] = int(rng.integers(1, 30))
        if rng.random() < 0.2 and iv > dt:
            b["time"] = float(dt * rng.uniform(0.2, 5))
        o.append(b)
    return o


def kinds_for(s, cfg, rng):
    k = [{"name": "usrout", "out_fmt": "x"}, {"out_fmt": "rst"}, {"out_fmt": "hst"}]
    pool = [{"out_fmt": "bin"}, {"out_fmt": "tab"}, {"out_fmt": "vtk"}, {"out_fmt": "tab", "out": "d", "id": "dd"}, {"name": "usrout", "out_fmt": "y"}, {"out_fmt": "pdf", "out": "V1", "id": "pv"}]
    if s.dim == 2:
        pool += [{"out_fmt": "ppm", "out": "d", "id": "im"}, {"out_fmt": "pgm", "out": "M1", "id": "g"}]
    if s.dim > 1:
        pool += [{"out_fmt": "vtk", "out": "P", "id": "pp"}]
    if cfg.part:
        pool += [{"out_fmt": "lis", "id": "pl"}, {"out_fmt": "vtk", "out": "dpar", "id": "dp"}] if s.dim > 1 else [{"out_fmt": "lis", "id": "pl"}]
    idx = rng.permutation(len(pool))[:5]
    k += [pool[i] for i in idx]
    order = rng.permutation(len(k))
    return [k[i] for i in order]


def np_of(dec):
    if dec is None:
        return 1
    return sum(int(np.prod(q)) for q in dec) if isinstance(dec[0], tuple) else int(np.prod(dec))


def step_times(r, cfg):
    t = {0: 0.0}
    nsteps = None
    for x in ath.read_mon(r.dir, cfg.nv):
        if x["ev"] in ("step", "end"):
            t[x["step"]] = x["t"]
            if x["ev"] == "end":
                nsteps = x["step"]
            if len({a for a, _ in x["ts"]}) != 1:
                return None, None
    return [t[i] for i in range(nsteps + 1)], nsteps


def check_schedule(case, r, blks, times, np_, mpi, cfg, num_levels=1):
    good = True
    for n, b in enumerate(blks, 1):
        if b is None:
            continue
        want, amb = schedule(times, b.get("time", 0.0), b["dt"])
        if amb:
            c.count("ambiguous_blocks")
            continue
        n0 = b.get("num", 0)
        obs = observe(r, b, n, np_, mpi, cfg, num_levels)
        if not obs:
            c.violation(f"{case}/{b.get('out_fmt')}/missing", f"block {n} {b} was never written", r)
            good = False
            continue
        for what, seq in obs:
            c.count("output_series")
            c.count("outputs_checked", len(seq))
            nums = [q[0] for q in seq]
            if b.get("out_fmt") == "hst":
                nums = [q + n0 for q in nums]
            if nums != list(range(n0, n0 + len(want))):
                c.violation(f"{case}/{b.get('out_fmt')}/numbers", f"{what}: outputs numbered {nums}, the schedule asks for {len(want)} outputs from number {n0} (steps {want}); block {b}", r)
                good = False
                continue
            for (num, t, st), k in zip(seq, want):
                if st is not None and st != k or t is not None and abs(t - times[k]) > 1e-5 * times[-1]:
                    c.violation(f"{case}/{b.get('out_fmt')}/times", f"{what}: output {num} was taken at step {st} time {t}, the schedule asks for step {k} time {times[k]}; block {b}", r)
                    good = False
                    break
    return good


def lines(r):
    return {f: open(q).read() for f, q in files(r.dir).items() if re.search(r"(^|/)mon\.\d+\.txt$", f)}


def state_files(r):
    return {f: open(q, "rb").read() for f, q in files(r.dir).items() if re.match(r"(dump|part)\.(final|ghost)", os.path.basename(f))}


def t_sched(s, dec, n):
    def f():
        b = c.build(s.args + (" --enable-mpi" if dec is not None else ""))
        if not b.ok:
            return
        np_ = np_of(dec)
        tag = f"{s.name}{'/np%d' % np_ if dec is not None else ''}"
        for rep in range(5 if c.thorough else 2):
            seed = c.seed * 1000 + n + 100 * rep
            rng = np.random.default_rng([seed, 1111])
            nl = int(rng.integers(6, 13))
            cfg, inp = s.make(c, seed, nlim=nl, dec=dec, prob={"ghostdump": 1})
            quiet = c.run(b, inp, np=np_)
            case = f"{tag}/{rep}"
            if not c.ok_run(quiet, case + "/quiet"):
                return
            times, ns = step_times(quiet, cfg)
            if times is None or ns != nl:
                c.violation(case + "/limit", f"nlim={nl}, the run took {ns} steps", quiet)
                return
            dt = float(np.max(np.diff(times)))
            blks = blocks_for(s, cfg, rng, dt, kinds_for(s, cfg, rng))
            if rng.random() < 0.3:
                blks.insert(int(rng.integers(0, len(blks))), None)     # a missing number among the blocks is skipped
            outs = {f"output{i+1}": q for i, q in enumerate(blks) if q is not None}
            def with_out(extra=None):
                _, i2 = s.make(c, seed, nlim=nl, dec=dec, prob={"ghostdump": 1})
                i2["job"]["maxout"] = len(blks)
                i2.update(outs)
                for k, v in (extra or {}).items():
                    i2[k].update(v)
                return i2
            r = c.run(b, with_out(), np=np_)
            if not c.ok_run(r, case):
                return
            t2, n2 = step_times(r, cfg)
            ok = check_schedule(case, r, blks, t2, np_, dec is not None, cfg)
            c.case(case, nl > 0, {"case": case, "blocks": [{k: str(v) for k, v in (q or {}).items()} for q in blks], "steps": nl})
            # outputs leave the run alone
            if lines(r) != lines(quiet):
                c.violation(case + "/disturbed-trace", "the step trace (times, timesteps, sums) changes when outputs are requested", r)
            a, q = state_files(r), state_files(quiet)
            if a.keys() != q.keys() or any(a[k] != q[k] for k in a):
                c.violation(case + "/disturbed-state", f"the final state changes when outputs are requested: {[k for k in q if a.get(k) != q[k]][:4]}", r)
            c.count("undisturbed_comparisons")
            # end by time limit
            tl = float(times[-3] + 0.37 * (times[-2] - times[-3]))
            r = c.run(b, with_out({"time": {"tlim": tl, "nlim": 1000}}), np=np_)
            if c.ok_run(r, case + "/tlim"):
                t3, n3 = step_times(r, cfg)
                if abs(t3[-1] - tl) > 1e-12 * tl or any(t >= tl * (1 - 1e-12) for t in t3[:-1]):
                    c.violation(case + "/tlim-end", f"tlim={tl!r}: the last step ends at {t3[-1]!r}", r)
                check_schedule(case + "/tlim", r, blks, t3, np_, dec is not None, cfg)
                c.case(case + "/tlim")
            if rep == 0:
                r = c.run(b, with_out({"time": {"nlim": 0}}), np=np_)
                if c.ok_run(r, case + "/nlim0"):
                    ev = ath.read_mon(r.dir, cfg.nv)
                    if any(x["ev"] == "step" for x in ev):
                        c.violation(case + "/nlim0", "nlim=0 but a step was taken", r)
                    check_schedule(case + "/nlim0", r, blks, [0.0], np_, dec is not None, cfg)
                    c.case(case + "/nlim0")
            # a signal
            for m in range(3 if c.thorough else 1):
                k = int(rng.integers(1, nl - 2))
                rk = int(rng.integers(0, np_))
                us = int(rng.integers(1, 40000)) if rng.random() < 0.6 else 0
                slp = int(rng.integers(1500, 15000)) if us else 0
                coll = int(rng.integers(2, 16)) if np_ > 1 and rng.random() < 0.45 else 0   # the signal arrives while this process waits in a collective call
                env = None
                if coll:
                    env, us, slp, k = {"LD_PRELOAD": SHIM, "VP_MPI_RAISE": str(coll), "VP_MPI_RAISE_RANK": str(rk)}, 0, 0, -1
                r = c.run(b, with_out({"time": {"nlim": 60}, "problem": {"raise_step": k, "raise_rank": rk, "raise_us": us, "usleep": slp, "raise_times": 1 + int(rng.random() < 0.3)}}), np=np_, env=env)
                cs = f"{case}/term{m}-{'coll' if coll else 'async' if us else 'sync'}"
                if not c.ok_run(r, cs):
                    continue
                t4, n4 = step_times(r, cfg)
                if t4 is None:
                    c.violation(cs + "/torn", "processes stopped at different steps", r)
                    continue
                if coll and n4 > coll + 1:
                    c.violation(cs + "/ignored", f"SIGTERM at process {rk} inside its MPI_Allreduce number {coll}, the run stopped after step {n4}", r)
                if not us and not coll and n4 != k:
                    c.violation(cs + "/late", f"SIGTERM during step {k}, the run stopped after step {n4}", r)
                if us and not k <= n4 < 60:
                    c.violation(cs + "/ignored", f"SIGTERM {us} us after step {k}, the run stopped after step {n4}", r)
                check_schedule(cs, r, blks, t4, np_, dec is not None, cfg)
                c.case(cs)
                c.count("signals_" + ("coll" if coll else "async" if us else "sync"))
                # the restart file of the stop continues the run exactly
                if n4 >= 60 or s.tol or (cfg.cyl and cfg.mhd):
                    continue
                rf = [q for f_, q in files(r.dir).items() if f_.endswith(".rst")]
                last = max(int(re.search(r"\.(\d{4,})\.rst$", q)[1]) for q in rf)
                d = c.tmp("rs")
                fs = [q for q in rf if q.endswith(f".{last:04d}.rst")]
                for q in fs:
                    shutil.copy(q, d)
                main = [os.path.basename(q) for q in fs if "-id" not in os.path.basename(q)][0]
                e = max(nl, n4 + 2)
                ref = quiet
                if e != nl:
                    _, iq = s.make(c, seed, nlim=e, dec=dec, prob={"ghostdump": 1})
                    ref = c.run(b, iq, np=np_)
                r2 = c.run(b, "", ["-r", main, f"time/nlim={e}", "problem/raise_step=-1", "problem/usleep=0"], np=np_, dir=d)
                if not c.ok_run(r2, cs + "/restart"):
                    continue
                a, q = {k_: v for k_, v in state_files(r2).items()}, state_files(ref)
                if not a or a.keys() != q.keys() or any(a[x] != q[x] for x in a):
                    c.violation(cs + "/restart", f"continuing from the restart file written at the stop (step {n4}) gives another state at step {e}", r2)
                c.count("continued_after_signal")
    return f


def t_wall(s, dec, n):
    def f():
        b = c.build(s.args + " --enable-mpi")
        if not b.ok:
            return
        np_ = np_of(dec)
        for rep in range(3 if c.thorough else 1):
            seed = c.seed * 1000 + n + 100 * rep
            rng = np.random.default_rng([seed, 77])
            lim = int(rng.integers(1, 4))
            blks = [{"out_fmt": "rst", "dt": 1e5}, {"out_fmt": "bin", "dt": 1e5}, {"name": "usrout", "out_fmt": "x", "dt": 1e5}]
            cfg, inp = s.make(c, seed, nlim=100000, dec=dec, outputs=blks, prob={"walllog": 1, "usleep": 40000, "mon": 1})
            t0 = time.time()
            r = c.run(b, inp, ["-t", f"00:00:{lim:02d}"], np=np_, timeout=90)
            el = time.time() - t0
            cs = f"{s.name}/np{np_}/wall{lim}"
            if not c.ok_run(r, cs):
                return
            times, ns = step_times(r, cfg)
            w = {}
            for k in range(np_):
                for l in open(r.path(f"id{k}/wall.{k}.txt")):
                    w.setdefault(int(l.split()[0]), []).append(float(l.split()[1]))
            if times is None or any(len(v) != np_ for v in w.values()) or max(w) != ns:
                c.violation(cs + "/torn", "processes stopped at different steps", r)
                return
            first = min(w[1])
            over = [k for k in sorted(w) if min(w[k]) > first + lim + 0.3]
            if el < lim:
                c.violation(cs + "/early", f"limit {lim} s, the run ended after {el:.2f} s", r)
            if len(over) > 1:
                c.violation(cs + "/late", f"limit {lim} s, {len(over)} steps were taken after it", r)
            check_schedule(cs, r, blks, times, np_, True, cfg)
            if not any(q.endswith(".0001.rst") for q in files(r.dir)):
                c.violation(cs + "/norestart", "no restart file at the end", r)
            c.case(cs)
            c.maxc("wall_steps", ns)
            # a limit that is not reached changes nothing
            _, inp = s.make(c, seed, nlim=3, dec=dec, outputs=blks)
            r = c.run(b, inp, ["-t", "01:00:00"], np=np_)
            if c.ok_run(r, cs + "/unreached"):
                times, ns = step_times(r, cfg)
                if ns != 3:
                    c.violation(cs + "/unreached", f"limit of one hour, nlim=3, but {ns} steps", r)
                c.case(cs + "/unreached")
    return f


LIST = ["h1", "h2vl", "h3hc", "hi3", "m2ctu", "m3vl", "srm2", "cond", "res", "sts", "sg-fft3", "part2", "part3fb", "partsh", "shear3f", "cyl2", "cyl3f", "smr1", "smr2", "smr2m", "smr3m", "cool", "mi2", "sg-mg3"]
MP = ["m2ctu", "h1", "smr2m", "part2", "part3fb", "shear3f"]
tasks = []
for n, nm in enumerate(LIST):
    s = BY[nm]
    tasks.append((nm, t_sched(s, None, n)))
    if s.mpi and s.decs and (nm in MP or c.thorough):
        tasks.append((nm + "-mpi", t_sched(s, s.decs[c.seed % len(s.decs)], n + 50)))
for n, nm in enumerate(["h1", "m2ctu", "smr2m"]):
    tasks.append((nm + "-wall", t_wall(BY[nm], BY[nm].decs[0], n)))
c.parallel(tasks)
c.finish(min_cases=60)
