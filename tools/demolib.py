"""Helper copied beside each demo.py: builds /repo's sources in a scratch folder with the vpgen problem, runs them, compares."""
import atexit, os, shlex, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
TMP = tempfile.mkdtemp(prefix="demo_", dir="/tmp")
atexit.register(lambda: shutil.rmtree(TMP, ignore_errors=True))
ENV = {k: v for k, v in os.environ.items() if k not in ("MAKEFLAGS", "CFLAGS", "MAKELEVEL", "CC")}
ENV.update(LC_ALL="C", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_btl="self,vader",
           OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_plm="isolated", OMPI_MCA_mpi_yield_when_idle="1")
_n = [0]


def tmp(p="d"):
    return tempfile.mkdtemp(prefix=p, dir=TMP)


def build(args, prob="vpgen", cflags="-O1"):
    d = tmp("b")
    subprocess.run(["rsync", "-rlp", "--exclude=*.o", "--exclude=Makefile", "--exclude=Makedepend", "--exclude=/src/defs.h", "--exclude=/src/config.h", "--exclude=/src/problem.c", "--exclude=.git", REPO + "/src", REPO + "/configure.ac", REPO + "/Makefile.in", REPO + "/Makeoptions.in", REPO + "/install-sh", d + "/"], check=True)
    if prob == "vpgen":
        shutil.copy(HERE + "/vpgen.c", d + "/src/prob/")
    subprocess.run(["autoconf"], cwd=d, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    p = subprocess.run(["./configure"] + shlex.split(args) + ["--with-problem=" + prob], cwd=d, env=ENV, capture_output=True, text=True)
    if p.returncode:
        print(p.stdout[-800:], p.stderr[-800:]); sys.exit(2)
    for r, _, fs in os.walk(d + "/src"):
        if "Makefile" in fs:
            open(r + "/Makedepend", "w").close()
    cc = "mpicc" if "--enable-mpi" in args else "gcc"
    p = subprocess.run(["make", "all", "MACHINE=macosx", f"CC={cc} -fcommon -w", f"LDR={cc} -fcommon", "OPT=" + cflags] + (["FFTWLIB=-lfftw3"] if "--enable-fft" in args else []), cwd=d, env=ENV, capture_output=True, text=True)
    if p.returncode:
        print(p.stdout[-1500:], p.stderr[-1500:]); sys.exit(2)
    return d + "/bin/athena"


def inp_text(blocks):
    return "".join(f"<{b}>\n" + "".join(f"{k} = {repr(v) if isinstance(v, float) else v}\n" for k, v in ps.items()) + "\n" for b, ps in blocks.items())


def run(exe, inp=None, args=(), np=1, dir=None, timeout=100):
    d = dir or tmp("r")
    a = list(args)
    if inp is not None:
        open(d + "/athinput", "w").write(inp if isinstance(inp, str) else inp_text(inp))
        a = ["-i", "athinput"] + a
    cmd = (["mpirun", "-np", str(np)] if np > 1 else []) + [exe] + a
    e = dict(ENV, TMPDIR=tmp("m"))
    p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, errors="replace", timeout=timeout, stdin=subprocess.DEVNULL)
    if p.returncode:
        print("run failed", p.returncode, p.stdout[-500:], p.stderr[-500:])
    return p.returncode, d
