"""C16: variable conversions, wave speeds and eigensystems, driven directly on generated states and judged by their defining equations."""
import os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np
from gas1d import Gas
from vlib import Check, ENV

c = Check("C16", rule="one case = (configuration, family of states, relation) judged over all its generated records",
          assumptions=["relativistic MHD: density above 1e-3 and pressure above 1e-4 code units (the code floors them at 1e-4 and 1e-5)"])
T = "--with-integrator=vl --with-order=2p"
CF = []
for gas in ("hydro", "mhd"):
    for eos in ("adiabatic", "isothermal"):
        CF.append((f"{gas[0]}{eos[0]}", f"--with-gas={gas} --with-eos={eos} {T} --with-flux=roe --with-nscalars=2", gas == "mhd", eos[0] == "i", False, 2))
CF.append(("srh", f"--with-gas=hydro --with-eos=adiabatic {T} --with-flux=hllc --enable-special-relativity", False, False, True, 0))
CF.append(("srm", f"--with-gas=mhd --with-eos=adiabatic {T} --with-flux=hlle --enable-special-relativity", True, False, True, 0))
CF.append(("cyl", f"--with-gas=mhd --with-eos=adiabatic {T} --with-flux=roe --with-nscalars=1 --with-coord=cylindrical", True, False, False, 1))
N = 300000 if c.thorough else 20000
EPS = 2.3e-16


class Conf:
    def __init__(self, name, args, mhd, iso, sr, ns):
        self.name, self.ns, self.g = name, ns, Gas(mhd, iso, sr)
        self.rng = np.random.default_rng([c.seed, sum(map(ord, name))])
        b = c.build(args, opt="-O1")
        self.exe = c.harness(b, ["rs_h.c"], cflags="-O1") if b.ok else None

    def call(self, mode, rec):
        d = c.tmp("cv")
        with open(d + "/in", "wb") as f:
            np.int64(len(rec)).tofile(f)
            np.ascontiguousarray(rec, float).tofile(f)
        p = subprocess.run([self.exe, mode, d + "/in", d + "/out"], capture_output=True, text=True, errors="replace", env=ENV, timeout=600)
        out = np.fromfile(d + "/out")
        os.remove(d + "/in"), os.remove(d + "/out")
        if p.returncode or len(out) % len(rec):
            c.violation(f"{self.name}/{mode}/abort", f"the program ended (rc {p.returncode}): {(p.stdout + p.stderr)[-400:]}")
            return None
        c.count(mode + "_evaluations", len(rec))
        return out.reshape(len(rec), -1)

    def judge(self, what, err, rec, got=None, want=None):
        """err: [n, m], in units of what is allowed"""
        e = np.where(np.isfinite(err), abs(err), np.inf).reshape(len(err), -1)
        c.case(f"{self.name}/{what}")
        c.count("records_judged", len(e))
        m = e.max(1)
        k = int(m.argmax())
        c.maxc("worst_" + what.split(":")[0] + "_over_tolerance", float(min(m[k], 1e30)))
        if m[k] > 1:
            c.violation(f"{self.name}/{what}", f"{int((m > 1).sum())} of {len(m)} records, worst {m[k]:.3g} times the tolerance (component {int(e[k].argmax())}); record {rec[k].tolist()}"
                        + (f" got {got[k].ravel().tolist()[:20]} expected {want[k].ravel().tolist()[:20]}" if got is not None else ""))

    def states(self, n, fam):
        g, R = self.g, self.rng
        W = np.zeros((n, g.nw))
        spread = {"mild": 0.5, "wide": 3.0, "extreme": 5.0}[fam]
        if g.sr:
            gam = R.choice([1.2, 4 / 3, 1.4, 5 / 3], n)
            spread = {"mild": 0.5, "wide": 1.0, "extreme": 1.5}[fam]
        else:
            gam = 10 ** R.uniform(-1, 1, n) if g.iso else R.choice([1.01, 1.2, 4 / 3, 1.4, 5 / 3, 1.9, 2.0], n)
        W[:, 0] = 10 ** R.uniform(-spread, spread, n)
        if not g.iso:
            W[:, 4] = 10 ** R.uniform(-spread, spread, n)
        Bx = np.zeros(n)
        if g.mhd:
            s = 0.5 if g.sr else spread / 2
            Bx = R.normal(size=n) * 10 ** R.uniform(-s, s, n)
            bt = R.normal(size=(n, 2)) * 10 ** R.uniform(-s, s, n)[:, None]
            z = R.random(n)
            Bx[z < 0.07] = 0
            bt[(z > 0.05) & (z < 0.12)] = 0
            bt[(z > 0.12) & (z < 0.15), 0] = 0
            bt[(z > 0.15) & (z < 0.18), 1] = 0
            W[:, g.iB:] = bt
        if g.sr:
            lor = {"mild": 0.2, "wide": 0.7, "extreme": 1.3}[fam]
            u = R.normal(size=(n, 3)) * 10 ** R.uniform(-3, lor, n)[:, None] * (R.random((n, 3)) < 0.9)
            W[:, 1:4] = u / np.sqrt(1 + (u * u).sum(1))[:, None]
        else:
            W[:, 1:4] = R.normal(size=(n, 3)) * (g.cfast(W, Bx, gam) * 10 ** R.uniform(-2, {"mild": 0.3, "wide": 1.0, "extreme": 2.0}[fam], n))[:, None] * (R.random((n, 3)) < 0.9)
        return gam, Bx, W

    def conversions(self, fam):
        g, ns, nw = self.g, self.ns, self.g.nw
        gam, Bx, W = self.states(N, fam)
        r = self.rng.uniform(0, 1, (N, ns))
        rec = np.hstack([gam[:, None], Bx[:, None], W, r])
        o = self.call("conv", rec)
        if o is None:
            return
        n1 = nw + ns
        n3 = nw + ns + (1 if g.mhd else 0)
        P = np.cumsum([0, n1, n1, n3 + (self.name == "cyl"), n3])
        U1, W1, U3, W3 = (o[:, P[i]:P[i + 1]] for i in range(4))
        rest = o[:, P[4]:]
        U = np.hstack([g.U(W, Bx, gam), W[:, :1] * r]) if not g.sr else g.U(W, Bx, gam)
        sc = np.abs(U) + 1e-300
        sc[:, 1:4] = np.sqrt((U[:, 1:4] ** 2).sum(1))[:, None] + 1e-300
        if g.sr:
            # cancellation in (W + B^2) v - (v.B) B
            v2 = (W[:, 1:4] ** 2).sum(1)
            amp = 1 / (1 - v2)
            sc = sc * amp[:, None]
            if g.mhd:
                b2 = Bx ** 2 + (W[:, 5:7] ** 2).sum(1)
                sc[:, 1:5] += b2[:, None]
        self.judge(f"to_conserved:{fam}", (U1 - U) / (1e-13 * sc), rec, U1, U)
        # three-dimensional path: d, M, (E), (B1c, B2c, B3c), (s)
        i3 = list(range(nw - (2 if g.mhd else 0))) + ([nw - 1, nw] if g.mhd else []) + list(range(n3 - ns, n3))
        if not g.mhd:
            i3 = list(range(n1))
        self.judge(f"paths_agree_conserved:{fam}", (U3[:, i3] - U1) / (1e-13 * sc), rec, U3[:, i3], U1)
        if g.mhd:
            ib = nw - 2
            self.judge(f"paths_agree_field:{fam}", np.stack([U3[:, ib] - Bx, W3[:, ib] - Bx], 1) * 1e300, rec)
        # back to primitive: an inversion may lose what the conditioning of dW/dU takes
        _, dU, _ = g.jac(W, Bx, gam)
        inv = np.linalg.inv(dU)
        Usc = np.abs(U[:, :nw]) + 0
        if g.mhd:
            Usc[:, g.iB:] += abs(W[:, g.iB:])
        Usc[:, 1:4] = np.sqrt((U[:, 1:4] ** 2).sum(1))[:, None]
        if not g.iso:
            Usc[:, 1:5] += 0 if not g.mhd else (Bx ** 2 + (W[:, 5:7] ** 2).sum(1))[:, None]
        cond = np.einsum("nij,nj->ni", np.abs(inv), Usc)
        K = 50.0
        tol = K * EPS * (cond + np.abs(W))
        tol[:, 1:4] = tol[:, 1:4].max(1)[:, None]
        tol = np.maximum(tol, 1e-290)
        if g.sr:
            ill = 1.0
            if not g.mhd:
                # iterated to round-off
                tol = tol + 1e-13 * cond
            else:
                tol = tol + 1e-9 * (cond + np.abs(W))
        ok = np.ones(N, bool)
        if g.sr:
            ok = (tol[:, 0] < 1e-2 * W[:, 0]) & (tol[:, 4] < 1e-2 * W[:, 4])
            if g.mhd:
                ok &= (W[:, 0] > 1e-3) & (W[:, 4] > 1e-4)
        hot = (1 - (W[:, 1:4] ** 2).sum(1) < 0.01) if g.sr and g.mhd else np.zeros(N, bool)      # Lorentz factor above 10: may report failure (density <= 0) instead
        full = lambda t: np.hstack([t, np.full((N, ns), 1e-13)]) if ns else t
        want = np.hstack([W, r])
        m = ok & ~(hot & (W1[:, 0] <= 0))
        c.count("reported_failures", int((ok & ~m).sum()))
        self.judge(f"round_trip:{fam}", ((W1 - want) / full(tol))[m], rec[m], W1[m], want[m])
        m = ok & ~(hot & (W3[:, 0] <= 0))
        c.count("reported_failures", int((ok & ~m).sum()))
        self.judge(f"round_trip_3d:{fam}", ((W3[:, i3] - want) / full(tol))[m], rec[m], W3[m][:, i3], want[m])
        c.count("round_trips_judged", int(ok.sum()) * 2)
        if g.sr and g.mhd:
            c1, c3 = rest[:, :n1], rest[:, n1:][:, i3]
            m = ok & ~(hot & (c1[:, 0] <= 0))
            c.count("reported_failures", int((ok & ~m).sum()))
            self.judge(f"checked_round_trip:{fam}", ((c1 - want) / full(tol))[m], rec[m], c1[m], want[m])
            m = ok & ~(hot & (c3[:, 0] <= 0))
            c.count("reported_failures", int((ok & ~m).sum()))
            self.judge(f"checked_round_trip_3d:{fam}", ((c3 - want) / full(tol))[m], rec[m], c3[m], want[m])
        if not g.sr:
            cf = g.cfast(W, Bx, gam)
            # the speed from conserved variables inherits the error of the pressure
            dp = tol[:, 4] / np.maximum(W[:, 4], 1e-300) if not g.iso else 0 * gam
            want = np.stack([cf, cf], 1)
            tolc = np.stack([1e-13 + dp, 1e-13 + 0 * cf], 1)
            # sqrt of a difference of squares at the triple point
            if g.mhd:
                tolc = tolc + 3e-8 * 0
            good = (dp < 0.1) if not g.iso else np.ones(N, bool)
            self.judge(f"fast_speed:{fam}", ((rest[:, :2] / want - 1) / tolc)[good], rec[good], rest[good], want[good])

    def eigen(self, fam):
        g, nw = self.g, self.g.nw
        gam, Bx, W = self.states(N, fam)
        n = N
        A, dU, dF = g.jac(W, Bx, gam)
        U = g.U(W, Bx, gam)
        deg = np.zeros(n, bool)
        d = W[:, 0]
        # ---- conserved variables
        h = (U[:, 4] + g.ptot(W, Bx, gam)) / d if not g.iso else 0 * d
        B = np.stack([Bx, W[:, g.iB], W[:, g.iB + 1]], 1) if g.mhd else np.zeros((n, 3))
        zero, one = np.zeros(n), np.ones(n)
        rec = np.column_stack([gam, d, W[:, 1:4], h, B, zero, one])
        o = self.call("roe", rec)
        if o is None:
            return
        ev, R, L, e2 = o[:, :nw], o[:, nw:nw + nw * nw].reshape(n, nw, nw), o[:, nw + nw * nw:nw + 2 * nw * nw].reshape(n, nw, nw), o[:, nw + 2 * nw * nw:]
        self.algebra("roe", fam, rec, ev, R, L, A, U, gam, Bx, W)
        s = np.abs(ev).max(1)[:, None]
        self.judge(f"roe_eigenvalues_alone:{fam}", (e2 - ev) / (1e-14 * s), rec, e2, ev)
        # ---- primitive variables
        Ap = g.prim_matrix(W, Bx, gam)
        rec = np.column_stack([gam, d, W[:, 1], W[:, 4] if not g.iso else zero, B])
        o = self.call("prim", rec)
        if o is None:
            return
        ev, R, L = o[:, :nw], o[:, nw:nw + nw * nw].reshape(n, nw, nw), o[:, nw + nw * nw:nw + 2 * nw * nw].reshape(n, nw, nw)
        self.algebra("prim", fam, rec, ev, R, L, Ap, W, gam, Bx, W)

    def algebra(self, which, fam, rec, ev, R, L, A, X, gam, Bx, W):
        g, nw = self.g, self.g.nw
        n = len(ev)
        c0 = g.cfast(W, Bx, gam)
        vm = np.sqrt((W[:, 1:4] ** 2).sum(1))
        # natural units of each variable: jumps carried by a wave of unit Mach number
        d = W[:, 0]
        if which == "prim":
            u = np.column_stack([d] + [c0] * 3 + ([d * c0 ** 2] if not g.iso else []) + ([np.sqrt(d) * c0] * 2 if g.mhd else []))
        else:
            m = c0 + vm
            u = np.column_stack([d] + [d * m] * 3 + ([d * m ** 2 + (d * c0 ** 2 / (gam - 1))] if not g.iso else []) + ([np.sqrt(d) * c0] * 2 if g.mhd else []))
        # eigenvalues: sorted, and those of the matrix
        s = (abs(W[:, 1]) + c0)[:, None]
        self.judge(f"{which}_sorted:{fam}", np.maximum(ev[:, :-1] - ev[:, 1:], 0) / (1e-13 * s), rec)
        cf = c0
        hi = W[:, 1] + cf
        lo = W[:, 1] - cf
        mach = 1 + vm / c0
        tolv = 1e-12 * mach ** 2 if which == "roe" and not g.iso else 1e-13
        self.judge(f"{which}_extreme_speeds:{fam}", np.stack([ev[:, 0] - lo, ev[:, -1] - hi], 1) / (np.reshape(tolv, (-1, 1)) * s * 10), rec, ev, np.stack([lo, hi], 1))
        if g.mhd:
            ca = abs(Bx) / np.sqrt(d)
            ia = (1, nw - 2)
            self.judge(f"{which}_alfven_speeds:{fam}", np.stack([ev[:, ia[0]] - (W[:, 1] - ca), ev[:, ia[1]] - (W[:, 1] + ca)], 1) / (np.reshape(tolv, (-1, 1)) * s * 10), rec)
        # scaled matrices
        Rs = R / u[:, :, None]
        Ls = L * u[:, None, :]
        As = A * u[:, None, :] / u[:, :, None]
        # normalise each eigenvector pair
        nr = np.abs(Rs).max(1)
        nr = np.where(nr > 0, nr, 1)
        Rs, Ls = Rs / nr[:, None, :], Ls * nr[:, :, None]
        cond = np.abs(Rs).max((1, 2)) * np.abs(Ls).max((1, 2))
        base = 1e-12 * cond
        if g.mhd:
            base = base + 3e-7          # the weights of the fast and slow waves lose half the digits near the double points
        if which == "roe" and not g.iso:
            base = base * mach ** 2 / np.minimum(gam - 1, 1)
        base = np.reshape(base, (-1, 1, 1))
        bounded = base[:, 0, 0] < 1e-2
        I = np.eye(nw)
        e = (np.matmul(Ls, Rs) - I) / base
        self.judge(f"{which}_inverse:{fam}", e[bounded], rec[bounded])
        e = (np.matmul(As, Rs) - Rs * ev[:, None, :]) / (base * s[:, :, None])
        self.judge(f"{which}_right_vectors:{fam}", e[bounded], rec[bounded])
        e = (np.matmul(Ls, As) - Ls * ev[:, :, None]) / (base * s[:, :, None] * np.maximum(np.abs(Ls).max((1, 2)), 1)[:, None, None])
        self.judge(f"{which}_left_vectors:{fam}", e[bounded], rec[bounded])
        c.count("eigensystems_judged", int(bounded.sum()))

    def roe_property(self):
        """Roe averages: A(average) (UR - UL) = FR - FL."""
        g, nw = self.g, self.g.nw
        gam, Bx, L = self.states(N, "mild")
        _, _, R = self.states(N, "mild")
        if g.mhd:
            # the published averages satisfy the momentum and energy rows for weak jumps only
            R = L + 0.01 * (R - L)
        UL, UR, FL, FR = g.U(L, Bx, gam), g.U(R, Bx, gam), g.F(L, Bx, gam), g.F(R, Bx, gam)
        sl, sr = np.sqrt(L[:, 0]), np.sqrt(R[:, 0])
        av = lambda a, b: (sl * a + sr * b) / (sl + sr)
        rv = lambda a, b: (sr * a + sl * b) / (sl + sr)
        d = sl * sr
        v = np.stack([av(L[:, k], R[:, k]) for k in (1, 2, 3)], 1)
        h = av((UL[:, 4] + g.ptot(L, Bx, gam)) / L[:, 0], (UR[:, 4] + g.ptot(R, Bx, gam)) / R[:, 0]) if not g.iso else 0 * d
        B = np.zeros((N, 3))
        x, y = np.zeros(N), np.ones(N)
        if g.mhd:
            B = np.stack([Bx] + [rv(L[:, k], R[:, k]) for k in (g.iB, g.iB + 1)], 1)
            x = 0.5 * ((L[:, g.iB:] - R[:, g.iB:]) ** 2).sum(1) / (sl + sr) ** 2
            y = 0.5 * (L[:, 0] + R[:, 0]) / d
        rec = np.column_stack([gam, d, v, h, B, x, y])
        o = self.call("roe", rec)
        if o is None:
            return
        ev, Rm, Lm = o[:, :nw], o[:, nw:nw + nw * nw].reshape(N, nw, nw), o[:, nw + nw * nw:nw + 2 * nw * nw].reshape(N, nw, nw)
        got = np.einsum("nij,nj->ni", Rm, ev * np.einsum("nij,nj->ni", Lm, UR - UL))
        sc = np.maximum(abs(FL), abs(FR)) + abs(ev).max(1)[:, None] * np.maximum(abs(UL), abs(UR))
        sc[:, 1:4] = sc[:, 1:4].max(1)[:, None]
        tol = 1e-11 * sc
        if g.mhd:
            jump = abs(FR - FL) + abs(ev).max(1)[:, None] * abs(UR - UL)
            jump[:, 1:4] = jump[:, 1:4].max(1)[:, None]
            sc[:, g.iB:] = sc[:, g.iB:].max(1)[:, None]
            sc += 1e-3 * sc.max(1)[:, None]
            tol = 3e-7 * sc
            tol[:, 1] += 2e-2 * jump[:, 1]
            if not g.iso:
                tol[:, 4] += 2e-2 * jump[:, 4]
        self.judge("roe_jump", (got - (FR - FL)) / tol, rec, got, FR - FL)


def one(cf):
    def go():
        s = Conf(*cf)
        if s.exe is None:
            c.incon(f"{cf[0]} does not build")
            return
        for fam in ("mild", "wide", "extreme"):
            s.conversions(fam)
            if not s.g.sr:
                s.eigen(fam)
        if not s.g.sr:
            s.roe_property()
    return go


c.parallel([(cf[0], one(cf)) for cf in CF])
c.finish(min_cases=60)
