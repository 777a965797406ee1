"""C26: the tools that join binary dumps and join and sort particle lists, built with ASan and UBSan: generated pieces of known contents
against an independent reading of the files; truncated and foreign pieces against the exit status."""
import os, re, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np, ath, vlib
from vlib import Check

c = Check("C26", rule="one case = (tool, generated set of pieces); every byte of the result is compared with the result built independently from the pieces, or (damaged set) the exit status is observed",
          assumptions=["file names shorter than 90 characters", "fields of binary dumps are doubles"])
ENVS = dict(os.environ, ASAN_OPTIONS="exitcode=77:detect_leaks=0", UBSAN_OPTIONS="halt_on_error=1:exitcode=78")
T = {}
td = c.tmp("tools")
for nm, src in (("join_lis", "vis/particle/join_lis.c"), ("sort_lis", "vis/particle/sort_lis.c"), ("join_bin", "vis/matlab/join_bin/join_bin.c")):
    q = subprocess.run(["gcc", "-w", "-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-o", f"{td}/{nm}", f"{vlib.REPO}/{src}", "-lm"], capture_output=True, text=True)
    if q.returncode:
        c.incon(f"{nm} does not compile: {q.stderr[-300:]}")
        c.finish(min_cases=1)
    T[nm] = f"{td}/{nm}"
REC = np.dtype([("x", "<f4", 7), ("prop", "<i4"), ("id", "<i8"), ("cpu", "<i4")])


def call(tool, args, cwd):
    try:
        q = subprocess.run([T[tool]] + args, cwd=cwd, capture_output=True, env=ENVS, timeout=120)
    except subprocess.TimeoutExpired:
        return 124, "timed out"
    c.count(tool + "_runs")
    return q.returncode, q.stderr.decode("latin1")[-400:]


# ---------------- particle lists ----------------
def lis_write(f, box, types, t, recs):
    open(f, "wb").write(np.array(box, "<f4").tobytes() + np.int32(len(types)).tobytes() + np.array(types, "<f4").tobytes() + np.array(t, "<f4").tobytes() + np.int64(len(recs)).tobytes() + recs.tobytes())


def lis_read(f):
    b = open(f, "rb").read()
    n = int(np.frombuffer(b, "<i4", 1, 48)[0])
    o = 52 + 4 * n
    m = int(np.frombuffer(b, "<i8", 1, o + 8)[0])
    assert len(b) == o + 16 + REC.itemsize * m, "size"
    return b[:48], b[48:o + 8], np.frombuffer(b, REC, m, o + 16)


def name(p, base, i, post, d):
    return f"{d}/id{p}/{base}{'' if p == 0 else f'-id{p}'}.{i:04d}.{post}.lis"


def lis_set(rng, d, np_, base, post, nums):
    """writes the pieces; returns nothing: the judge reads them back"""
    sizes = [int(rng.choice([0, 1, 2, int(rng.integers(3, 400))])) for _ in range(np_)]
    if rng.random() < 0.15:
        sizes = [0] * np_
    nt = int(rng.integers(1, 5))
    for p in range(np_):
        os.makedirs(f"{d}/id{p}", exist_ok=True)
    for i in nums:
        ids = rng.permutation(sum(sizes))
        mode = rng.integers(4)
        o = 0
        types = rng.random(nt)
        glob = rng.random(6)
        t = rng.random(2)
        for p in range(np_):
            r = np.zeros(sizes[p], REC)
            r["x"] = rng.normal(size=(sizes[p], 7))
            r["prop"] = rng.integers(0, nt, sizes[p])
            k = ids[o:o + sizes[p]]
            if mode == 0:
                r["id"], r["cpu"] = k, 0
            elif mode == 1:
                r["id"], r["cpu"] = k // np_, k % np_
            elif mode == 2:   # already in order, or reversed
                k = np.arange(o, o + sizes[p])
                r["id"], r["cpu"] = k, 0
            else:
                r["id"], r["cpu"] = (1 << 40) - k, p
            o += sizes[p]
            lis_write(name(p, base, i, post, d), np.concatenate([rng.random(6), glob]), types, t, r)


def lis_judge(key, d, np_, base, post, nums, rng, run=None):
    a = ["-p", str(np_), "-i", base, "-s", post, "-f", f"{nums[0]}:{nums[-1]}" + (f":{nums[1] - nums[0]}" if len(nums) > 1 else "")]
    ob = "joined" if rng.random() < 0.5 else base
    a += (["-o", ob] if ob != base else []) + ["-d", "out"]
    rc, err = call("join_lis", a, d)
    if rc:
        c.violation(key + "/join/status", f"join_lis {' '.join(a)} exits with {rc}: {err}", run)
        return
    want = {}
    for i in nums:
        ps = [lis_read(name(p, base, i, post, d)) for p in range(np_)]
        f = f"{d}/out/{ob}.{i:04d}.{post}.lis"
        try:
            h, m, r = lis_read(f)
        except (AssertionError, ValueError, IndexError, OSError) as e:
            c.violation(key + "/join/format", f"joined list {i} is malformed: {e}", run)
            return
        R = np.concatenate([p[2] for p in ps])
        c.count("records_joined", len(R))
        c.case(f"{key}/join{i}", True)
        if h != ps[0][0][24:] * 2 or m != ps[0][1] or r.tobytes() != R.tobytes():
            c.violation(key + "/join", f"joined list {i}: header {np.frombuffer(h, '<f4')}, {len(r)} records; the pieces hold {len(R)} records (limits {np.frombuffer(ps[0][0][24:], '<f4')})", run)
            return
        want[i] = (open(f, "rb").read()[:52 + len(m) - 4 + 8], R)
    rc, err = call("sort_lis", ["-d", "out", "-i", ob, "-s", post, "-f", a[7]], d)
    if rc:
        c.violation(key + "/sort/status", f"sort_lis exits with {rc}: {err}", run)
        return
    for i in nums:
        hd, R = want[i]
        f = f"{d}/out/{ob}.{i:04d}.{post}.lis"
        try:
            lis_read(f)
        except (AssertionError, ValueError, IndexError, OSError) as e:
            c.violation(key + "/sort/format", f"sorted list {i} is malformed: {e}", run)
            return
        S = R[np.lexsort((R["id"], R["cpu"]))]
        c.case(f"{key}/sort{i}", len(R) > 1)
        if open(f, "rb").read() != hd + S.tobytes():
            c.violation(key + "/sort", f"sorted list {i} is not the joined list in order of (processor, id)", run)
            return


def lis(q):
    def go():
        rng = np.random.default_rng([c.seed, 26, q])
        for s in range(40 if c.thorough else 8):
            d = c.tmp(f"l{q}.{s}")
            np_ = int(rng.integers(1, 12))
            nums = [[0], [3], [0, 1, 2], [2, 5, 8], [9998, 9999]][int(rng.integers(5))]
            base, post = [("Par", "ds"), ("a-id1", "x.y"), ("P_0", "all")][int(rng.integers(3))]
            lis_set(rng, d, np_, base, post, nums)
            lis_judge(f"lis/{q}.{s}", d, np_, base, post, nums, rng)
            # a damaged piece: cut anywhere, or missing
            p, i = int(rng.integers(np_)), nums[int(rng.integers(len(nums)))]
            f = name(p, base, i, post, d)
            n = os.path.getsize(f)
            if s % 4 == 3:
                os.remove(f)
                w = "missing"
            else:
                w = int(rng.integers(0, n))
                open(f, "r+b").truncate(w)
            rc, err = call("join_lis", ["-p", str(np_), "-i", base, "-s", post, "-f", f"{nums[0]}:{nums[-1]}" + (f":{nums[1] - nums[0]}" if len(nums) > 1 else ""), "-d", "out2"], d)
            c.case(f"lis/damaged/{q}.{s}", True)
            if rc != 1:
                c.violation("lis/damaged", f"join_lis exits with {rc} although a piece is damaged ({w} of {n} bytes): {err}")
            rc, err = call("sort_lis", ["-d", "id%d" % p, "-i", base + ("" if p == 0 else f"-id{p}"), "-s", post, "-f", str(i)], d)
            if rc != 1:
                c.violation("lis/damaged/sort", f"sort_lis exits with {rc} although its list is damaged ({w} of {n} bytes): {err}")
    return go


# ---------------- binary dumps ----------------
def bin_write(f, h, co, data):
    open(f, "wb").write(np.array(h[0], "<i4").tobytes() + np.array(h[1], "<f8").tobytes() + b"".join(np.ascontiguousarray(x, "<f8").tobytes() for x in co) + np.ascontiguousarray(data, "<f8").tobytes())


def cuts(rng, n, k):
    return [0] + sorted(int(x) for x in rng.choice(np.arange(1, n), k - 1, replace=False)) + [n]


def bins(q):
    def go():
        rng = np.random.default_rng([c.seed, 27, q])
        for s in range(40 if c.thorough else 10):
            d = c.tmp(f"b{q}.{s}")
            dim = int(rng.integers(1, 4))
            N = [int(rng.integers(5, 14)) if a < dim else 1 for a in range(3)]
            K = [int(rng.integers(1, 4)) if a < dim else 1 for a in range(3)]
            if np.prod(K) < 2:
                K[0] = 2
            ns = int(rng.integers(0, 3))
            nv, sg, pa = int(rng.integers(4, 10)) + ns, int(rng.integers(2)), int(rng.integers(2))
            nf = nv + sg + 4 * pa
            fl = [float(x) for x in rng.random(4)]
            cs = int(rng.choice([-1, -2, -3]))
            co = [np.sort(rng.normal(size=n)) for n in N]
            D = rng.normal(size=(nf, N[2], N[1], N[0]))
            C = [cuts(rng, N[a], K[a]) for a in range(3)]
            files, cells = [], []
            for kk in range(K[2]):
                for jj in range(K[1]):
                    for ii in range(K[0]):
                        ix = (ii, jj, kk)
                        sl = [slice(C[a][ix[a]], C[a][ix[a] + 1]) for a in range(3)]
                        n = [x.stop - x.start for x in sl]
                        f = f"{d}/p{len(files)}.bin"
                        bin_write(f, ([cs] + n + [nv, ns, sg, pa], fl), [co[a][sl[a]] for a in range(3)], D[:, sl[2], sl[1], sl[0]])
                        files.append(f)
                        cells.append(n)
            bin_write(f"{d}/want.bin", ([cs] + N + [nv, ns, sg, pa], fl), co, D)
            w = open(f"{d}/want.bin", "rb").read()
            key = f"bin/{'x'.join(map(str, K))}"
            for o in range(2):
                fs = [files[i] for i in rng.permutation(len(files))]
                rc, err = call("join_bin", ["-o", f"{d}/o.bin"] + fs if o == 0 else fs + ["-o", f"{d}/o.bin"], d)
                c.case(f"bin/{q}.{s}.{o}", True)
                c.count("values_joined", D.size)
                if rc:
                    c.violation(key + "/status", f"join_bin exits with {rc}: {err}")
                    return
                g = open(f"{d}/o.bin", "rb").read()
                if g != w:
                    c.violation(key, f"joined dump ({len(g)} bytes) differs from the dump the pieces were cut from ({len(w)} bytes); {nv} variables, potential {sg}, particles {pa}, order {[os.path.basename(f) for f in fs]}")
                    return
            # a damaged or foreign piece
            x = int(rng.integers(len(files)))
            b = open(files[x], "rb").read()
            kind = ["cut", "time", "nvar", "coord"][s % 4]
            if kind == "cut":
                b = b[:int(rng.integers(0, len(b)))]
            elif kind == "time":
                y = 32 + 8 * int(rng.integers(4))
                b = b[:y] + np.float64(7.5).tobytes() + b[y + 8:]
            elif kind == "nvar":
                y = 16 + 4 * int(rng.integers(4))
                b = b[:y] + (np.frombuffer(b, "<i4", 1, y) + 1).astype("<i4").tobytes() + b[y + 4:]
            else:
                b = np.int32(-1 if cs != -1 else -2).tobytes() + b[4:]
            open(files[x], "wb").write(b)
            rc, err = call("join_bin", ["-o", f"{d}/o.bin"] + files, d)
            c.case(f"bin/damaged/{kind}/{q}.{s}", True)
            if rc != 1:
                c.violation(f"bin/damaged/{kind}", f"join_bin exits with {rc} for pieces that do not belong together or are cut short: {err}")
    return go


c.parallel([(f"lis{q}", lis(q)) for q in range(4)] + [(f"bin{q}", bins(q)) for q in range(4)])
c.finish(min_cases=100)
