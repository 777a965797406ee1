"""C09: the parameter database. Sanitized driver of src/par.c under generated files and call sequences, judged by a reference parser written
from the documented format; end-to-end runs of the program (-n, overrides, MPI distribution)."""
import os, random, re, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ath, scen
from vlib import Check, ENV

c = Check("C09", rule="one case = (parameter file, call sequence) executed under ASan+UBSan and compared answer by answer with the reference model, or one program run",
          assumptions=["text without NUL bytes (NUL-containing files are judged for memory safety only)", "values set through the API contain no '#', newline or outer white space"])
WS = " \t\n\v\f\r"
SAN = "-g -fsanitize=address,undefined -fno-sanitize-recover=undefined"


class Bad(Exception):
    pass


class Model:
    """block -> ordered {name: [value, comment]}"""
    def __init__(self):
        self.b = {}

    def put(self, blk, name, val, com=None):
        d = self.b.setdefault(blk, {})
        if name in d:
            d[name][0] = val
            if com is not None:
                d[name][1] = com
        else:
            d[name] = [val, com]

    def parse(self, text):
        cur = None
        for line in text.split("\n"):
            s = line.strip(WS)
            if not s or s[0] == "#":
                continue
            if line.lstrip(WS).startswith("<par_end>"):
                return
            if s[0] == "<":
                e = s.find(">")
                if e < 0:
                    raise Bad("unterminated block")
                cur = s[1:e].strip(WS)
                self.b.setdefault(cur, {})
                continue
            if cur is None:
                raise Bad("no block")
            h = s.find("#")
            body, com = (s, None) if h < 0 else (s[:h], s[h + 1:].strip(WS) or None)
            q = body.find("=")
            if q < 0:
                raise Bad("no =")
            self.put(cur, body[:q].strip(WS), body[q + 1:].strip(WS), com)

    def cmdline(self, args):
        for a in args:
            i = a.find("/")
            if i < 0:
                continue
            j = a.find("=", i)
            if j < 0:
                continue
            blk, name, val = a[:i], a[i + 1:j], a[j + 1:]
            if blk not in self.b or name not in self.b[blk]:
                raise Bad("unknown override")
            self.b[blk][name][0] = val

    def values(self):
        return {(k, n): v[0] for k, d in self.b.items() for n, v in d.items()}


def atoi(s):
    m = re.match(r"[ \t\n\v\f\r]*([+-]?\d+)", s)
    return int(m[1]) if m else 0


def atof(s):
    m = re.match(r"[ \t\n\v\f\r]*([+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)", s)
    return float(m[1]) if m else 0.0


def hx(s):
    return "x" + s.encode("latin1").hex()


rng = random.Random(f"C09/{c.seed}")
NAMES = ["a", "Nx1", "x1min", "problem_id", "tlim", "long_parameter_name_with_underscores", "A-b.c", "n n", "1", "par_end"]
BLKS = ["job", "time", "domain1", "output1", "problem", "blk with space", "par", "X"]


def value():
    k = rng.randrange(12)
    return [str(rng.randrange(-10**6, 10**6)), repr(rng.uniform(-10, 10)), "%.3e" % rng.uniform(-1e20, 1e20), "path/to/file.dat", "a=b", "two words", "", "x" * rng.randrange(1, 80),
            "-0.0", "1e-300", "y" * rng.choice([100, 240, 250, 254, 255, 256, 300, 511, 512, 900]), "<not a block>"][k]


def ws(n=3):
    return "".join(rng.choice(" \t") for _ in range(rng.randrange(n)))


def comment():
    r = rng.random()
    if r < 0.5:
        return ""
    if r < 0.6:
        return ws() + "#"
    t = rng.choice(["a comment", "x = 9", "# twice", "<block>", "c" * rng.choice([10, 100, 200, 260, 600]), "comment with = sign and # hash"])
    return ws() + "#" + ws() + t


def gen_file(wild):
    out = []
    if rng.random() < 0.5:
        out.append("# header = 5 " + "z" * rng.choice([0, 5, 250, 300]))
    for _ in range(rng.randrange(1, 7)):
        out.append(ws() + "<" + ws() + rng.choice(BLKS) + ws() + ">" + rng.choice(["", " # block comment", "  trailing text"]))
        for _ in range(rng.randrange(0, 8)):
            r = rng.random()
            if r < 0.1:
                out.append(ws())
            elif r < 0.2:
                out.append(ws() + "#" + rng.choice(["", " Nx1 = 77", " <domain1>", "q" * 300]))
            else:
                out.append(ws() + rng.choice(NAMES) + ws() + "=" + ws() + value() + ws() + comment())
    if wild:
        for _ in range(rng.randrange(1, 3)):
            out.insert(rng.randrange(len(out) + 1), rng.choice(["= 5", "=", "   = 3 # c", "\t=", "<", "<>", "< >", "<unterminated", "noequals", "# only", "<par_end>", "x == 3", "==", "#=#", "name = # c", "\v=\f", ">", "<a><b>",
                                                              "w" * 255 + "= 3", "w" * 254 + "=3", "w" * 300, " " * 300 + "a = 1", "a = 1" + " " * 300 + "# c", "a" * 256 + " = " + "b" * 256 + "#" + "c" * 256]))
    text = "\n".join(out)
    return text + ("" if rng.random() < 0.2 else "\n")


def mutate(t):
    b = list(t)
    for _ in range(rng.randrange(1, 6)):
        if not b:
            break
        i = rng.randrange(len(b))
        k = rng.randrange(4)
        if k == 0:
            b[i] = chr(rng.randrange(1, 256))
        elif k == 1:
            del b[i:i + rng.randrange(1, 20)]
        elif k == 2:
            b[i:i] = rng.choice(["=", "#", "<", ">", "\n", " ", "\t", "\n\n", "= =", "\r\n", "<par_end>"])
        else:
            b[i:i] = b[max(0, i - rng.randrange(1, 300)):i]
    return "".join(b)


def gen_case(d, n):
    """returns script text, list of expected answers (None = not judged), expects_error"""
    kind = n % 4
    text = gen_file(kind >= 1)
    if kind >= 2:
        text = mutate(text)
    nul = kind == 3 and rng.random() < 0.2
    if nul:
        i = rng.randrange(len(text) + 1)
        text = text[:i] + "\0" * rng.randrange(1, 4) + text[i:]
    path = f"{d}/f{n}"
    with open(path, "wb") as f:
        f.write(text.encode("latin1"))
    S, A = [f"open {hx(path)}"], ["ok"]
    m = Model()
    real = set()     # stored as the text of a real number in a format of the program's choice: its leading integer is not judged
    try:
        m.parse(text)
    except Bad:
        return path, S, ["error"], nul, text
    allk = list(m.values())
    # overrides
    if rng.random() < 0.6 and allk:
        args = []
        for _ in range(rng.randrange(1, 4)):
            k, nme = rng.choice(allk)
            if any(ch in k + nme for ch in "/=") or "\0" in k + nme:
                continue
            args.append(f"{k}/{nme}={rng.choice(['12', '-3.5e2', 'a/b=c', '', 'v' * 300, 'word'])}")
        args += rng.sample(["-i", "file", "dir/file", "plain=3", "/", "=", "a/b"], 2)
        if rng.random() < 0.15:
            args.append(rng.choice(["nosuch/par=1", "job/nosuch=1", "/=1", "/a=1", "job/=2"]))
        rng.shuffle(args)
        S.append("cmd " + " ".join(hx(a) for a in args))
        try:
            m.cmdline(args)
            A.append("ok")
        except Bad:
            return path, S, A + ["error"], nul, text
    for _ in range(rng.randrange(4, 14)):
        allk = list(m.values())
        known = rng.random() < 0.75 and allk
        blk, nme = rng.choice(allk) if known else (rng.choice(BLKS), rng.choice(NAMES) + "_new%d" % rng.randrange(3))
        v = m.values().get((blk, nme))
        op = rng.choice(["exist", "gets", "geti", "getd", "defs", "defi", "defd", "sets", "seti", "setd", "dump", "reopen"])
        if op == "exist":
            S.append(f"exist {hx(blk)} {hx(nme)}"); A.append("1" if v is not None else "0")
        elif op in ("gets", "geti", "getd"):
            if v is None:
                if rng.random() < 0.85:
                    continue
                S.append(f"{op} {hx(blk)} {hx(nme)}"); A.append("error")
                return path, S, A, nul, text
            S.append(f"{op} {hx(blk)} {hx(nme)}")
            A.append(hx(v) if op == "gets" else None if op == "geti" and (blk, nme) in real else num(op, v))
        elif op in ("defs", "defi", "defd"):
            dv = {"defs": "deflt str", "defi": str(rng.randrange(-99999, 99999)), "defd": repr(rng.uniform(-1, 1) * 10 ** rng.randrange(-20, 20))}[op]
            S.append(f"{op} {hx(blk)} {hx(nme)} {hx(dv)}")
            if v is None:
                A.append(hx(dv) if op == "defs" else ("i", int(dv)) if op == "defi" else ("d", float(dv)))
                m.put(blk, nme, dv if op != "defd" else "%.17g" % float(dv), "Default Value")
                (real.add if op == "defd" else real.discard)((blk, nme))
            else:
                A.append(hx(v) if op == "defs" else None if op == "defi" and (blk, nme) in real else num("get" + op[-1], v))
        elif op in ("sets", "seti", "setd"):
            nv = {"sets": rng.choice(["abc", "x y", "1=2", "s" * 200]), "seti": str(rng.randrange(-10**9, 10**9)), "setd": repr(rng.uniform(-1, 1))}[op]
            com = rng.choice([None, "set by test", "c" * 150])
            S.append(f"{op} {hx(blk)} {hx(nme)} {hx(nv)}" + (f" {hx(com)}" if com else "")); A.append("ok")
            m.put(blk, nme, nv if op != "setd" else "%.17g" % float(nv), com)
            (real.add if op == "setd" else real.discard)((blk, nme))
        elif op == "dump":
            mode = rng.choice([0, 1, 2])
            p = f"{path}.d{len(S)}"
            S.append(f"dump {hx(str(mode))} {hx(p)}"); A.append(("dump", mode, p, m.values(), "par_end" in m.b))
        else:
            # what is written can be read back: the database is replaced by its own dump (values survive unless they hold a comment sign)
            if any("#" in (x or "") or x.strip(WS) != x or "\n" in x for x in m.values().values()) or any(("#" in n2 or n2[:1] == "<") for _, n2 in m.values()) or any("\n" in k or ">" in k or k.strip(WS) != k for k in m.b) or "par_end" in m.b \
               or any(q[1] is not None and "\n" in q[1] for dd in m.b.values() for q in dd.values()):
                continue
            mode = rng.choice([0, 2])
            p = f"{path}.r{len(S)}"
            S += [f"dump {hx(str(mode))} {hx(p)}", "close", f"open {hx(p)}"]; A += ["ok", "ok", "ok"]
    p = f"{path}.end"
    S.append(f"dump {hx('2')} {hx(p)}"); A.append(("dump", 2, p, m.values(), "par_end" in m.b))
    S.append("close"); A.append("ok")
    return path, S, A, nul, text


def num(op, v):
    if op == "geti":
        i = atoi(v)
        return ("i", i) if abs(i) < 2**31 else None
    if re.match(r"[ \t\n\v\f\r]*[+-]?(inf|nan|0x)", v, re.I):
        return None
    return ("d", atof(v))


def dump_model(mode, path):
    t = open(path, "rb").read().decode("latin1")
    m = Model()
    if mode == 1:
        vals = {}
        blk = None
        for l in t.split("\n"):
            if l.startswith("#") or not l:
                continue
            if l.endswith("::") and not l.startswith(" "):
                blk = l[:-2]
            elif blk is not None and l.startswith(f" {blk}/"):
                k, _, v = l[len(blk) + 2:].partition(" = ")
                vals[(blk, k)] = v
        return vals
    m.parse(t)
    return m.values()


def same_num(a, b):
    try:
        return a == b or float(a) == float(b)
    except ValueError:
        return False


def harness(part, count):
    def f():
        b = c.build("--with-gas=hydro --with-order=2", cflags=SAN, tag="san")
        if not b.ok:
            return
        exe = c.harness(b, ["par_h.c"], cflags=SAN)
        if exe is None:
            return
        global rng
        d = c.tmp("p")
        with GEN:
            rng = random.Random(f"C09/{c.seed}/{part}")
            cases = [gen_case(d, n) for n in range(count)]
        sc = d + "/script"
        with open(sc, "w") as g:
            for _, S, _, _, _ in cases:
                g.write("RUN\n" + "\n".join(S) + "\n")
        p = subprocess.run([exe, sc, d + "/out"], capture_output=True, env=ENV, timeout=600)
        log = (p.stdout + p.stderr).decode("latin1")
        runs = re.split(r"(?m)^RUN \d+\n", open(d + "/out", "rb").read().decode("latin1"))[1:]
        if len(runs) != len(cases):
            c.violation("driver/lost", f"{len(runs)} of {len(cases)} sequences ran: {log[-1500:]}")
            return
        for (path, S, A, nul, text), r in zip(cases, runs):
            ans = r.strip("\n").split("\n")
            end = int(ans[-1].split()[1])
            ans = ans[:-1]
            key = f"file{part}.{os.path.basename(path)}"
            c.case(key, True, sample=None)
            ex = "file:\n" + text + "\nscript:\n" + "\n".join(S) + "\nlog:\n" + log[-6000:]
            if end in (77, 78) or end < 0:
                c.violation(f"memory/{'signal%d' % -end if end < 0 else 'sanitizer'}", f"the parser {'died by signal %d' % -end if end < 0 else 'made an invalid access'} at operation {len(ans)} ({S[min(len(ans), len(S)-1)][:60]}): {sanitizer(log)}", extra=ex)
                continue
            if nul:
                continue
            c.count("answers_compared", len(A))
            for i, want in enumerate(A):
                op = S[i].split()[0]
                if want == "error":
                    if end != 1 or len(ans) != i:
                        c.violation(f"accepted/{op}", f"{op} #{i} should have been refused (answers {ans[i:i+2]}, exit {end})", extra=ex)
                    break
                if i >= len(ans):
                    c.violation(f"refused/{op}", f"{op} #{i} ended the program (exit {end})", extra=ex)
                    break
                got = ans[i]
                if want is None:
                    continue
                if isinstance(want, tuple) and want[0] == "dump":
                    try:
                        v = dump_model(want[1], want[2])
                    except Bad as e:
                        c.violation(f"dump/{want[1]}", f"written parameter set does not parse: {e}", extra=ex)
                        break
                    w = want[3]
                    plain = {k: x for k, x in w.items() if "#" not in x and x.strip(WS) == x and "\n" not in x and "#" not in k[1] and k[1][:1] != "<" and "=" not in k[1] and not any(ch in k[0] for ch in "\n>#") and k[0] != "par_end" and k[0].strip(WS) == k[0]}
                    odd = want[4]     # a block called par_end ends the file when read back
                    bad = [(k, x, v.get(k)) for k, x in plain.items() if v.get(k, "") is None or not same_num(v.get(k, "\0"), x)]
                    if bad and not odd:
                        c.violation(f"dump/{want[1]}", f"written parameter set differs: {bad[:3]}", extra=ex)
                        break
                    continue
                ok = got == want if isinstance(want, str) else (int(got) == want[1] if want[0] == "i" else float(got) == want[1])
                if not ok:
                    # a value that went through %.17g text is equal as a number
                    if isinstance(want, str) and want.startswith("x") and got.startswith("x") and same_num(bytes.fromhex(got[1:]).decode("latin1"), bytes.fromhex(want[1:]).decode("latin1")):
                        continue
                    c.violation(f"value/{op}", f"{op} #{i} answered {got[:80]} instead of {str(want)[:80]}", extra=ex)
                    break
    return f


def sanitizer(log):
    m = re.findall(r"ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*", log)
    return "; ".join(m[:2]) or log[-200:]


import threading
GEN = threading.Lock()


def t_exe():
    """the program itself: -n shows the parameters in force, overrides and refusals"""
    s = scen.BY["h1"]
    b = c.build(s.args, cflags=SAN, tag="san")
    if not b.ok:
        return
    cfg, inp = s.make(c, c.seed, nlim=2)
    r0 = c.run(b, inp, ["-n"])
    from vlib import inp_text
    text = inp_text(inp)
    m = Model()
    m.parse(text)

    def shown(r):
        q = Model()
        q.parse(r.out)
        return q.values()
    v = shown(r0)
    c.case("program/-n", True)
    bad = [(k, x, v.get(k)) for k, x in m.values().items() if v.get(k) != x]
    if r0.rc != 0 or bad:
        c.violation("program/-n", f"exit {r0.rc}, parameters shown differ from the file: {bad[:3]}", r0)
    # override on the command line, before and after -i; position must not matter
    for args in (["time/nlim=4", "-n"], ["-n", "time/nlim=4"], ["time/nlim=9", "time/nlim=4", "-n"], ["problem/init_file=" + "p" * 400, "-n", "time/nlim=4"]):
        r = c.run(b, inp, args)
        c.case("program/" + " ".join(args)[:60], True)
        if r.rc != 0 or shown(r).get(("time", "nlim")) != "4" or ("ppp" in args[0] and shown(r).get(("problem", "init_file")) != "p" * 400):
            c.violation("program/override", f"override {args} not honoured (exit {r.rc})", r)
    for k, args in enumerate((["nosuch/nlim=4"], ["time/nosuch=4"], ["time/=4"], ["-i"], ["-d"], ["-r"])):
        r = c.run(b, inp, args)
        c.case("program/refused" + str(k), True)
        if r.rc in (0, 77, 78) or r.rc < 0:
            c.violation(f"program/refuse{k}", f"{args}: exit {r.rc} instead of an error message", r)
    # the value in force is the one used: steps taken, mesh, last of duplicates, repeated blocks
    for k, (extra, args, steps) in enumerate([("", ["time/nlim=3"], 3), ("<time>\nnlim = 5 # again\n", [], 5), ("<time>\nnlim=4\nnlim=1\n<job>\n<time>\n  nlim\t=  2# x\n", [], 2), ("#<time>\n#nlim = 7\n", [], 2)]):
        r = c.run(b, text + extra, args)
        c.case(f"program/steps{k}", True)
        if c.ok_run(r, f"program/steps{k}"):
            n = len([x for x in ath.read_mon(r.dir, cfg.nv) if x["ev"] == "step"])
            if n != steps:
                c.violation("program/value-in-force", f"{n} steps taken, nlim in force is {steps}", r)
    # order of blocks, white space and comments do not matter
    ref = c.run(b, inp)
    blocks = text.strip().split("\n\n")
    random.Random(c.seed).shuffle(blocks)
    t2 = "\n".join("\t" + l.replace(" = ", "=  ") + "   # comment = 5" if "=" in l else "# <nothing>\n\n " + l + " # c" for bl in blocks for l in bl.split("\n"))
    r = c.run(b, t2)
    c.case("program/layout", True)
    if c.ok_run(ref, "program/ref") and c.ok_run(r, "program/layout"):
        f1, f2 = open(ath.find(ref.dir, "dump.final*")[0], "rb").read(), open(ath.find(r.dir, "dump.final*")[0], "rb").read()
        if f1 != f2:
            c.violation("program/layout", "reordering blocks and adding comments changed the result", r)


def t_mpi():
    b = c.build("--with-gas=hydro --with-order=2 --enable-mpi", cflags=SAN, tag="san")
    if not b.ok:
        return
    exe = c.harness(b, ["par_h.c"], cflags=SAN)
    if exe is None:
        return
    import vlib
    hb = vlib.Build(b.dir, exe, b.args, "", True, True)
    global rng
    for k in range(20 if c.thorough else 6):
        with GEN:
            rng = random.Random(f"C09/mpi/{c.seed}/{k}")
            while True:
                text = gen_file(False)
                m = Model()
                try:
                    m.parse(text)
                except Bad:
                    continue
                if m.values() and all(x.strip(WS) == x for x in m.values().values()):
                    break
            kk = [q for q in m.values() if "/" not in q[0] and "=" not in q[1]]
            args = [f"{a}/{n}=" + rng.choice(["7", "o" * rng.choice([30, 250, 251, 400])]) for a, n in kk[:2]]
        m.cmdline(args)
        d = c.tmp("m")
        open(d + "/in", "wb").write(text.encode("latin1"))
        r = c.run(hb, "", ["-r"], np=2, dir=d) if False else mpirun(hb, d, ["in"] + args)
        c.case(f"mpi{k}", True)
        ex = "file:\n" + text + "\nargs: " + " ".join(args)
        if r.rc != 0:
            c.violation("mpi/exit", f"distribution of parameters ended with {r.rc}: {sanitizer(r.out)}", r, extra=ex)
            continue
        for rank in (0, 1, 2):
            v = dump_model(2, f"{d}/par.{rank}")
            w = {q: x for q, x in m.values().items() if "#" not in x and q[1][:1] != "<"}
            bad = [(q, x, v.get(q)) for q, x in w.items() if v.get(q) != x]
            if bad:
                c.violation("mpi/values", f"process {rank} holds other values: {bad[:3]}", r, extra=ex)
                break


def mpirun(b, d, args):
    import subprocess as sp, vlib
    r = sp.run(["mpirun", "-np", "3", b.exe] + args, cwd=d, env=dict(ENV, TMPDIR=d), capture_output=True, timeout=120, stdin=sp.DEVNULL)
    return vlib.Run(d, r.returncode, (r.stdout + r.stderr).decode("latin1"), False, ["mpirun", "-np", "3", b.exe] + args, "")


N = 8000 if c.thorough else 1500
tasks = [("exe", t_exe), ("mpi", t_mpi)] + [(f"files{p}", harness(p, N)) for p in range(6)]
c.parallel(tasks)
c.finish(min_cases=500)
