"""C12: memory safety and absence of undefined behaviour: the configuration matrix under AddressSanitizer + UndefinedBehaviorSanitizer
(gcc), a part of it under MemorySanitizer (clang), and refused invalid inputs."""
import copy, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np, ath, scen
from vlib import Check, REPO

c = Check("C12", rule="one case = one sanitized execution (scenario, mesh shape, output set, fresh/restart/MPI) that ran to its normal end, or one invalid input that was refused; non-trivial if it took >= 1 step or reached the refusal",
          assumptions=["gcc AddressSanitizer and UndefinedBehaviorSanitizer (with float-cast-overflow), clang MemorySanitizer for the runs so labelled", "only executed paths are judged"])
SAN = "-fsanitize=address,undefined,float-cast-overflow -fno-omit-frame-pointer -fno-sanitize-recover=all -g1"
MSAN = "-fsanitize=memory -fno-sanitize-memory-param-retval -fno-omit-frame-pointer -g1"
ENVS = {"ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1",
        "MSAN_OPTIONS": "exitcode=76:halt_on_error=1"}
TINY = {1: (4, 1, 1), 2: (4, 5, 1), 3: (4, 5, 4)}
REPORT = re.compile(r"(ERROR: AddressSanitizer: .*|runtime error: .*|WARNING: MemorySanitizer: .*|stack smashing detected.*|free\(\): .*|malloc.*corrupted.*|double free.*|Segmentation fault.*|.*Floating point exception.*)")


def outputs(s, dt, mid):
    o = [{"out_fmt": "rst", "dt": 1e-14}, {"out_fmt": "hst", "dt": 1e-14}, {"out_fmt": "vtk", "dt": 2 * dt}, {"out_fmt": "bin", "dt": 2 * dt}, {"out_fmt": "tab", "dt": 2 * dt, "dat_fmt": "%15.7e"},
         {"out_fmt": "vtk", "out": "prim", "id": "pv", "dt": 2 * dt}, {"out_fmt": "bin", "out": "prim", "id": "pb", "dt": 2 * dt}, {"out_fmt": "tab", "out": "prim", "id": "pt", "dt": 2 * dt},
         {"out_fmt": "tab", "out": "d", "id": "td", "dt": 2 * dt}, {"out_fmt": "pdf", "out": "d", "id": "pdf", "dt": 2 * dt, "dmin": 0.1, "dmax": 9.0},
         {"name": "usrout", "out_fmt": "x", "dt": 2 * dt}, {"out_fmt": "tab", "out": "probe", "usr_expr_flag": 1, "id": "ue", "dt": 2 * dt}]
    if s.dim > 1:
        cfg = s.cfg()
        o += [{"out_fmt": "vtk", "out": "V1", "id": "v1", "dt": 2 * dt}, {"out_fmt": "pgm", "out": "M2", "id": "g", "dt": 2 * dt, **({"x3": mid[2]} if s.dim == 3 else {})},
              {"out_fmt": "ppm", "out": "d", "id": "p", "dt": 2 * dt, "palette": "rainbow", "dmin": 0.0, "dmax": 2.0, **({"x1": mid[0]} if s.dim == 3 else {})},
              {"out_fmt": "ppm", "out": "B2c" if cfg.mhd else "M3", "id": "p2", "dt": 2 * dt, "palette": "jh_colors", **({"x2": ":"} if s.dim == 3 else {})},
              {"out_fmt": "tab", "out": "M1", "id": "sl", "x1": ":", "dt": 2 * dt}, {"out_fmt": "tab", "out": "M1", "id": "sm", "x2": mid[1], "dt": 2 * dt},
              {"out_fmt": "vtk", "out": "M1", "id": "sv", "x2": ":", "dt": 2 * dt} if s.dim == 3 else {"out_fmt": "tab", "out": "M1", "id": "sn", "x2": ":", "dt": 2 * dt}]
    if s.part:
        o += [{"out_fmt": "lis", "dt": 2 * dt, "id": "pl"}, {"out_fmt": "phst", "dt": 2 * dt}, {"out_fmt": "lis", "dt": 2 * dt, "id": "ps", "par_prop": "type0"},
              {"out_fmt": "vtk", "dt": 2 * dt, "id": "pg", "pargrid": 1}, {"out_fmt": "tab", "out": "dpar", "dt": 2 * dt, "id": "dp"}, {"out_fmt": "bin", "dt": 2 * dt, "id": "pbg", "pargrid": 1}]
    for i, q in enumerate(o):
        if q.get("out_fmt") not in ("rst", "hst", "phst") and "id" not in q:
            q["id"] = f"o{i}"
    return o


def judge(case, r, steps=None, refuse=False):
    m = REPORT.search(r.out)
    # the same report from another call site is another violation
    if m:
        where = re.findall(r"#\d+ 0x\w+ in (\w+) ([^\s:]*:\d+)?", r.out)
        own = [w for w in where if w[1] and ("/src/" in w[1])]
        loc = own[0][0] if own else (re.search(r"(\w+\.c):\d+:\d+: runtime error", r.out) or [0, "?"])[1]
        c.violation(f"{case}/sanitizer/{loc}", m.group(0) + "\n" + r.out[max(0, m.start() - 300):m.start() + 2500], r)
        return False
    if r.timeout:
        c.violation(case + "/hang", "run did not finish", r)
        return False
    if refuse:
        if r.rc < 0 or r.rc in (76, 77, 78) or r.rc > 128:
            c.violation(case + "/crash", f"invalid input crashed the run: {r.rc}", r)
            return False
        if r.rc == 0 or not r.out.strip():
            c.violation(case + "/accepted", f"invalid input was not refused with a diagnostic (exit {r.rc})", r)
            return False
        return True
    if r.rc != 0:
        c.violation(case + "/exit", f"valid run ended with {r.rc}: {r.out[-600:]}", r)
        return False
    return True


def one(s, np_=1, dec=None, shape=None, tag="", msan=False, restart=True, nlim=4):
    args = s.args + (" --enable-mpi" if np_ > 1 else "")
    if msan:
        b = c.build(args, cc="clang", cflags=MSAN)
    else:
        b = c.build(args, cflags=SAN)
    if not b.ok:
        if not msan:
            c.incon(f"build failed: {args}")
        return
    s = copy.copy(s)
    if shape:
        s.N = shape
    case = f"{s.name}{'-msan' if msan else ''}{tag}"
    cfg, inp = s.make(c, c.seed, nlim=nlim, outputs=(), dec=dec, tlim=1e9)
    m = s.root
    dt = 0.25 * s.cour * min(m.dx[a] for a in range(3) if m.act(a))
    mid = [float(m.xmin0[a] + 0.51 * (m.xmax0[a] - m.xmin0[a])) for a in range(3)]
    outs = outputs(s, dt, mid)
    cfg, inp = s.make(c, c.seed, nlim=nlim, outputs=outs, dec=dec, maxout=len(outs) + 3)
    inp["problem"].update({"enroll": 1, "ghostdump": 1})
    r = c.run(b, inp, np=np_, timeout=200, env=ENVS)
    if not judge(case, r):
        return
    n = sum(len(fs) for _, _, fs in os.walk(r.dir))
    c.count("output_files", n)
    c.case(case, sample=f"{case}: {n} files")
    if restart:
        rst = sorted(p for p in ath.find(r.dir, "*.rst") if re.search(r"vp\.0002\.rst$", p))
        if rst:
            d = c.tmp("rr")
            for p in ath.find(r.dir, "*.0002.rst"):
                shutil.copy(p, d)
            q = c.run(b, "", ["-r", os.path.basename(rst[0])], np=np_, timeout=200, env=ENVS, dir=d)
            if judge(case + "-restart", q):
                c.case(case + "-restart")


def refuse():
    """every entry changes a valid input into one the program has to refuse"""
    s = scen.BY["m2ctu"]
    b = c.build(s.args, cflags=SAN)
    h = c.build(scen.BY["smr2"].args, cflags=SAN)
    if not (b.ok and h.ok):
        return
    outs = [{"out_fmt": "vtk", "dt": 0.1}]

    def base(sc, seed=c.seed):
        return copy.deepcopy(sc.make(c, seed, nlim=2, outputs=outs)[1])
    bad = {
        "no-domain": lambda i: i.pop("domain1"), "no-time": lambda i: i.pop("time"), "no-gamma": lambda i: i["problem"].pop("gamma"), "no-problem-id": lambda i: i["job"].pop("problem_id"),
        "nx-negative": lambda i: i["domain1"].update(Nx1=-8), "nx-zero": lambda i: i["domain1"].update(Nx2=0), "x-reversed": lambda i: i["domain1"].update(x1min=2.0, x1max=1.0),
        "x2-reversed": lambda i: i["domain1"].update(x2min=2.0, x2max=1.0), "bc-unknown": lambda i: i["domain1"].update(bc_ix1=9), "bc-negative": lambda i: i["domain1"].update(bc_ox2=-3),
        "fmt-unknown": lambda i: i["output1"].update(out_fmt="nosuch"),
        "user-out-unknown": lambda i: i["output1"].update(name="nosuch"),
        "gap-in-dims": lambda i: i["domain1"].update(Nx2=1, Nx3=8, x3min=0.0, x3max=1.0), "no-cour": lambda i: i["time"].pop("cour_no"), "no-num-domains": lambda i: i["job"].pop("num_domains"),
        "level-missing": lambda i: i["domain1"].pop("level"), "out-no-dt": lambda i: i["output1"].pop("dt"), "nx1-one": lambda i: i["domain1"].update(Nx1=1),
    }
    smr = {
        "child-outside": lambda i: i["domain2"].update(iDisp=1000), "child-odd": lambda i: i["domain2"].update(iDisp=5), "child-nx-odd": lambda i: i["domain2"].update(Nx1=7),
        "child-level-skip": lambda i: i["domain2"].update(level=3), "child-negative-disp": lambda i: i["domain2"].update(jDisp=-4), "two-roots": lambda i: i["domain2"].update(level=0),
        "child-larger": lambda i: i["domain2"].update(Nx2=400), "child-dim": lambda i: i["domain2"].update(Nx3=4), "children-overlap": lambda i: i.update(domain3=dict(i["domain2"])) ,
    }
    for nm, f in bad.items():
        i = base(s)
        f(i)
        r = c.run(b, i, timeout=60, env=ENVS)
        if judge("invalid-" + nm, r, refuse=True):
            c.case("invalid-" + nm)
    for nm, f in smr.items():
        i = base(scen.BY["smr2"])
        f(i)
        r = c.run(h, i, timeout=60, env=ENVS)
        if judge("invalid-smr-" + nm, r, refuse=True):
            c.case("invalid-smr-" + nm)
    i = base(s)
    for nm, args in {"no-such-par": ["time/nosuch=3"], "no-such-block": ["nosuch/nlim=3"], "restart-missing": ["-r", "nosuch.rst"]}.items():
        r = c.run(b, i, args, timeout=60, env=ENVS)
        if judge("invalid-cli-" + nm, r, refuse=True):
            c.case("invalid-cli-" + nm)


def main():
    T = []
    for s in scen.ALL:
        T.append((s.name, lambda s=s: one(s)))
        if not s.hier and "multigrid" not in s.args and not s.part and "--enable-fft" not in s.args:
            sh = TINY[s.dim] if "shear" not in s.args or s.dim == 2 else (4, 6, 4)
            T.append((s.name + "-tiny", lambda s=s, sh=sh: one(s, shape=sh, tag="-tiny", nlim=3)))
    ms = ["h1", "m3ctu", "m3vl", "srm2", "res", "smr2m", "part3fb", "shear3f"] if not c.thorough else [s.name for s in scen.ALL if "fft" not in s.args]
    for n in ms:
        T.append((n + "-msan", lambda n=n: one(scen.BY[n], msan=True, nlim=3)))
    mp = [("m3ctu", 0), ("smr2m", 0), ("shear3", 2), ("part3fb", 0)] if not c.thorough else [(s.name, k) for s in scen.ALL if s.mpi for k in range(len(s.decs))]
    for n, k in mp:
        dec = scen.BY[n].decs[k]
        npr = int(np.prod(dec)) if not isinstance(dec[0], tuple) else sum(int(np.prod(q)) for q in dec)
        T.append((f"{n}-mpi{k}", lambda n=n, k=k, dec=dec, npr=npr: one(scen.BY[n], np_=npr, dec=dec, tag=f"-mpi{k}")))
    # processes with Grids of several Domains; clouds of particles larger than the message buffers and lists start out; blocks longer than the restart buffers
    for k, (n, dec, npr) in enumerate([("smr2m", [(1, 2, 1), (1, 2, 1), (2, 1, 1)], 2), ("smr3m", [(1, 2, 1), (1, 2, 1)], 2)]):
        T.append((f"{n}-mpi-multi{k}", lambda n=n, k=k, dec=dec, npr=npr: one(scen.BY[n], np_=npr, dec=dec, tag=f"-multi{k}")))
    for k, (n, dec) in enumerate([("part2", (2, 2, 1)), ("partsh", (2, 2, 1)), ("part3fb", (1, 2, 1))]):
        q = copy.copy(scen.BY[n])
        q.part = dict(q.part, n=1500, npg=1, burst=2.0)
        T.append((f"{n}-mpi-burst{k}", lambda q=q, k=k, dec=dec: one(q, np_=int(np.prod(dec)), dec=dec, tag=f"-burst{k}", nlim=6)))
    T.append(("m2-large", lambda: one(scen.BY["m2ctu"], shape=(340, 100, 1), tag="-large", nlim=3)))
    T.append(("invalid", refuse))
    # the long ones first
    T.sort(key=lambda t: 0 if "-mpi" in t[0] or "-msan" in t[0] or t[0] == "invalid" else 1)
    c.parallel(T)


main()
c.finish(min_cases=40)
