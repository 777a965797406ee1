"""C15: Riemann solvers. Every solver is driven directly with generated left/right states (millions of records in the thorough tier); each returned
flux is judged against the physical flux, the exact solution, the linearised solution or its own mirror image."""
import os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np
from gas1d import Gas, exact_adb, exact_iso, exact_srh
from vlib import Check, ENV

c = Check("C15", rule="one case = (solver configuration, family of states, relation) judged over all its generated records",
          assumptions=["states without vacuum formation (exact solver)", "supersonic means every wave of the problem moves one way with a margin"])
T = "--with-integrator=vl --with-order=2p"
CF = []
for gas, eos, fl in [("hydro", "adiabatic", "roe hllc hlle exact force"), ("hydro", "isothermal", "roe hllc hlle exact force two-shock"),
                     ("mhd", "adiabatic", "roe hlld hlle force"), ("mhd", "isothermal", "roe hlld hlle force")]:
    for f in fl.split():
        CF.append((f"{gas[0]}{'i' if eos[0] == 'i' else ''}-{f}", f"--with-gas={gas} --with-eos={eos} {T} --with-flux={f} --with-nscalars=2", gas == "mhd", eos[0] == "i", False, f, 2, False))
for f in ("hllc", "exact"):
    CF.append((f"srh-{f}", f"--with-gas=hydro --with-eos=adiabatic {T} --with-flux={f} --enable-special-relativity", False, False, True, f, 0, False))
for f in ("hllc", "hlld", "hlle"):
    CF.append((f"srm-{f}", f"--with-gas=mhd --with-eos=adiabatic {T} --with-flux={f} --enable-special-relativity", True, False, True, f, 0, False))
for gas, f in [("hydro", "roe"), ("hydro", "hllc"), ("hydro", "hlle"), ("mhd", "roe"), ("mhd", "hlld"), ("mhd", "hlle")]:
    CF.append((f"cyl-{gas[0]}-{f}", f"--with-gas={gas} --with-eos=adiabatic {T} --with-flux={f} --with-nscalars=1 --with-coord=cylindrical", gas == "mhd", False, False, f, 1, True))
N = 200000 if c.thorough else 12000


class Solver:
    def __init__(self, name, args, mhd, iso, sr, flux, ns, cyl):
        self.name, self.flux, self.ns, self.cyl = name, flux, ns, cyl
        self.g = Gas(mhd, iso, sr)
        self.rng = np.random.default_rng([c.seed, sum(map(ord, name))])
        b = c.build(args, opt="-O1")
        self.exe = c.harness(b, ["rs_h.c"], cflags="-O1") if b.ok else None
        self.died = 0

    def call(self, gam, Bx, L, R, r):
        """r: [n,2,ns] scalar concentrations"""
        g, n = self.g, len(gam)
        UL, UR = g.U(L, Bx, gam), g.U(R, Bx, gam)
        ext = lambda W, r: np.hstack([W, r]) if self.ns else W
        rec = np.hstack([gam[:, None], Bx[:, None], ext(L, r[:, 0]), ext(R, r[:, 1]), ext(UL, UL[:, :1] * r[:, 0]), ext(UR, UR[:, :1] * r[:, 1])])
        d = c.tmp("rs")
        with open(d + "/in", "wb") as f:
            np.int64(n).tofile(f)
            np.ascontiguousarray(rec).tofile(f)
        p = subprocess.run([self.exe, "flux", d + "/in", d + "/out"], capture_output=True, text=True, errors="replace", env=ENV, timeout=600)
        nc = g.nw + self.ns + self.cyl
        out = np.fromfile(d + "/out")
        m = len(out) // nc
        out = out[:m * nc].reshape(m, nc)
        os.remove(d + "/in"), os.remove(d + "/out")
        c.count("flux_evaluations", m)
        if p.returncode or m < n:
            self.died += 1
            k = min(m, n - 1)
            c.violation(f"{self.name}/abort", f"the solver ended the program (rc {p.returncode}) at record {m}: gas {gam[k]!r} Bx {Bx[k]!r} L {L[k].tolist()} R {R[k].tolist()}: {(p.stdout + p.stderr)[-400:]}")
            return None
        return out

    # ---- state generators ----
    def base(self, n, spread, mach):
        """One state per record, and the gas constant; signal speeds of order one."""
        g, R = self.g, self.rng
        if g.sr:
            gam = R.choice([1.2, 4 / 3, 1.4, 5 / 3], n)
        else:
            gam = R.uniform(0.3, 3, n) if g.iso else R.choice([1.05, 1.2, 4 / 3, 1.4, 5 / 3, 1.9], n)
        Bx = np.zeros(n)
        sc = np.exp(R.uniform(-2, 2, n))
        if g.mhd:
            Bx = sc * R.normal(size=n) * 10 ** R.uniform(-1.5, 1.0, n)
            Bx[R.random(n) < 0.08] = 0.0
        return gam, Bx, sc

    def state(self, n, gam, Bx, sc, spread, mach, kind=None):
        g, R = self.g, self.rng
        W = np.zeros((n, g.nw))
        W[:, 0] = sc * sc * 10 ** R.uniform(-spread, spread, n)
        if not g.iso:
            W[:, 4] = sc * sc * 10 ** R.uniform(-spread, spread, n)
            if g.sr:
                W[:, 4] *= 10 ** R.uniform(-2, 0, n)
        if g.mhd:
            bt = sc[:, None] * R.normal(size=(n, 2)) * 10 ** R.uniform(-1.5, 1.0, n)[:, None]
            z = R.random(n)
            bt[z < 0.08] = 0.0
            bt[(z > 0.08) & (z < 0.12), 0] = 0.0
            W[:, g.iB:g.iB + 2] = bt
        if g.sr:
            u = R.normal(size=(n, 3)) * 10 ** R.uniform(-2, mach, n)[:, None]       # four-velocity
            W[:, 1:4] = u / np.sqrt(1 + (u * u).sum(1))[:, None]
        else:
            W[:, 1:4] = R.normal(size=(n, 3)) * (mach * g.cfast(W, Bx, gam))[:, None] * (R.random((n, 3)) < 0.9)
        return W

    def scalars(self, n):
        return self.rng.uniform(0, 1, (n, 2, self.ns))

    # ---- judgement ----
    def scale(self, gam, Bx, L, R):
        g = self.g
        s, S = [], []
        for W in (L, R):
            lo, hi = g.speeds(W, Bx, gam)
            s.append(np.maximum(abs(lo), abs(hi)))
            S.append(np.abs(g.F(W, Bx, gam)))
        s = np.maximum(*s) if g.sr is False else np.ones(len(gam))
        sc = np.maximum(*S)
        U = np.maximum(np.abs(g.U(L, Bx, gam)), np.abs(g.U(R, Bx, gam)))
        sc = sc + s[:, None] * U
        sc[:, 1:4] = sc[:, 1:4].max(1)[:, None]
        if g.mhd:
            sb = np.sqrt(np.maximum(g.ptot(L, Bx, gam), g.ptot(R, Bx, gam)))
            sc[:, g.iB:] = (sc[:, g.iB:].max(1) + s * np.maximum(sb, abs(Bx)))[:, None]
        sc[:, 0] += 1e-300
        # what is left of the momentum and energy scales when a state is at rest: pressure, density times speed
        sc[:, 0] = sc[:, 0] + U[:, 0] * s
        if not g.iso:
            sc[:, 4] = sc[:, 4] + s * sc[:, 1]
        return sc

    def judge(self, what, err, tol, gam, Bx, L, R, F, want, mask=None, few=0.0):
        """err relative, [n, comps]; few: fraction of the records where the solver may have switched to its fallback on one side only"""
        ok = np.isfinite(err)
        e = np.where(ok, err, np.inf)
        if mask is not None:
            e = e[mask]
        else:
            mask = np.ones(len(gam), bool)
        if not len(e):
            return
        c.case(f"{self.name}/{what}")
        c.count("records_judged", len(e))
        tolv = np.broadcast_to(np.asarray(tol)[mask] if np.ndim(tol) else tol, (len(e),))
        rel = (e.max(1) / tolv)
        k = int(rel.argmax())
        c.maxc(f"worst_{what.split(':')[0]}_over_tolerance", float(min(rel[k], 1e30)))
        if (rel > 1).sum() > few * len(rel):
            i = np.nonzero(mask)[0][k]
            c.violation(f"{self.name}/{what}", f"{int((rel > 1).sum())} of {len(e)} records, worst {e[k].max():.3e} (allowed {tolv[k]:.1e}); gas {float(gam[i])!r} Bx {float(Bx[i])!r} L {L[i].tolist()} R {R[i].tolist()} "
                        f"returned {F[i].tolist()} expected {np.asarray(want)[i].tolist()}")

    def relations(self):
        g, fl, name = self.g, self.flux, self.name
        nw = g.nw
        full = lambda X, r, side=None: X

        def phys(W, Bx, gam, r):
            F = g.F(W, Bx, gam)
            if self.ns:
                F = np.hstack([F, F[:, :1] * r])
            if self.cyl:
                F = np.hstack([F, g.ptot(W, Bx, gam)[:, None]])
            return F

        def sc_all(gam, Bx, L, R):
            s = self.scale(gam, Bx, L, R)
            if self.ns:
                s = np.hstack([s, np.repeat(s[:, :1], self.ns, 1)])
            if self.cyl:
                s = np.hstack([s, np.maximum(s[:, 1], np.maximum(g.ptot(L, Bx, gam), g.ptot(R, Bx, gam)))[:, None]])
            return s
        base_tol = 1e-9 if fl == "exact" else 1e-11
        few = 2e-3 if g.sr and g.mhd else 0.0

        def ampl(gam, Bx, W):
            lo, hi = g.speeds(W, Bx, gam)
            return np.maximum(1, (np.maximum(abs(lo), abs(hi)) / np.maximum(hi - lo, 1e-30)))
        fams = [("mild", 0.3, 0.5), ("generic", 1.0, 0.7 if not g.sr else 0.3), ("strong", 2.0 if not g.sr else 1.5, 2.0 if not g.sr else 0.7)]
        if g.sr and fl == "exact":
            fams = fams[:1]
        for fam, spread, mach in fams:
            n = N
            gam, Bx, sc = self.base(n, spread, mach)
            L = self.state(n, gam, Bx, sc, spread, mach)
            R = self.state(n, gam, Bx, sc, spread, mach)
            if g.mhd and not g.sr:
                # states at the double and triple points of the wave speeds
                k = np.nonzero(self.rng.random(n) < 0.06)[0]
                for W in (L, R):
                    W[k, g.iB:g.iB + 2] = 0.0
                    if g.iso:
                        Bx[k] = gam[k] * np.sqrt(W[k, 0])
                    else:
                        W[k, 4] = Bx[k] ** 2 / gam[k] + (Bx[k] == 0) * W[k, 4]
                    W[k, 4 if not g.iso else 0] *= 1 + self.rng.integers(-3, 4, len(k)) * 2.2e-16
            r = self.scalars(n)
            S = sc_all(gam, Bx, L, R)
            # consistency
            F = self.call(gam, Bx, L, L, np.repeat(r[:, :1], 2, 1))
            if F is not None:
                want = phys(L, Bx, gam, r[:, 0])
                SL = sc_all(gam, Bx, L, L)
                self.judge(f"consistent:{fam}", abs(F - want) / SL, 2e-2 if g.sr and fl == "hlld" else base_tol * ampl(gam, Bx, L), gam, Bx, L, L, F, want)
            # non-vacuum pairs for the generic relations
            if not g.sr:
                if g.iso:
                    ok = abs(L[:, 1] - R[:, 1]) < 12 * gam if fl == "exact" else np.ones(n, bool)
                elif g.mhd:
                    ok = np.ones(n, bool)
                else:
                    _, _, _, ps, _ = exact_adb(L, R, gam)
                    with np.errstate(invalid="ignore"):
                        ok = ps > 1e-4 * np.minimum(L[:, 4], R[:, 4]) if fl == "exact" else np.ones(n, bool)
                    ok &= (ps > 2e-5) if fl == "exact" else True
            else:
                ok = np.ones(n, bool)
            gam, Bx, L, R, r, S = gam[ok], Bx[ok], L[ok], R[ok], r[ok], S[ok]
            n = len(gam)
            F = self.call(gam, Bx, L, R, r)
            if F is None:
                continue
            fin = np.isfinite(F) if not (self.cyl and g.iso) else np.isfinite(F[:, :-1])
            self.judge(f"finite:{fam}", np.where(fin, 0.0, np.inf), 1.0, gam, Bx, L, R, F, F)
            if self.ns:
                # carried by the mass flux from the upwind side (from either side where the two states run apart or together)
                eL, eR = (abs(F[:, nw:nw + self.ns] - r[:, k] * F[:, :1]) / S[:, :1] for k in (0, 1))
                e = np.where(L[:, 1:2] * R[:, 1:2] > 0, np.where(F[:, :1] >= 0, eL, eR), np.minimum(eL, eR))
                self.judge(f"scalar:{fam}", e, 1e-13, gam, Bx, L, R, F, F)
            # mirror image, exchange and rotation of the transverse axes, reversal of the field
            tol = (1e-8 if fl == "exact" else 1e-9) * np.maximum(ampl(gam, Bx, L), ampl(gam, Bx, R))
            if g.mhd and fl == "roe":
                tol = tol + 3e-7          # the weights of the fast and slow waves lose half the digits near the double points
            if g.sr and fl == "exact":
                _, ps, _, near, _ = exact_srh(L, R, gam)
                pm = np.minimum(L[:, 4], R[:, 4])
                # no near-vacuum; the solver treats pressure differences below 1e-5 as none, and brackets p* by a thousand mean pressures
                good = (ps > 0.05 * np.maximum(L[:, 4], R[:, 4])) & (ps < 300 * (L[:, 4] + R[:, 4])) & (near > 1e-3) & (pm > 1e-2)
                gam, Bx, L, R, r, S, F = gam[good], Bx[good], L[good], R[good], r[good], S[good], F[good]
                tol = 2e-3

            def mir(X):
                Y = X.copy()
                Y[:, 1] *= -1
                return Y
            F2 = self.call(gam, -Bx, mir(R), mir(L), r[:, ::-1])
            if F2 is not None:
                G = -F2
                G[:, 1] *= -1
                if self.cyl:
                    G[:, -1] *= -1
                e = abs(F - G) / S
                if self.cyl:
                    e[(L[:, 1] == 0) & (R[:, 1] == 0), -1] = 0          # the middle wave stands on the face: either side's pressure
                e[:, nw:nw + self.ns] = np.where(abs(F[:, :1]) / S[:, :1] < 1e-9, 0, e[:, nw:nw + self.ns])
                self.judge(f"mirror:{fam}", e, tol, gam, Bx, L, R, F, G, few=few)
            sw = list(range(nw))
            sw[2], sw[3] = 3, 2
            if g.mhd:
                sw[g.iB], sw[g.iB + 1] = g.iB + 1, g.iB
            F2 = self.call(gam, Bx, L[:, sw], R[:, sw], r)
            if F2 is not None:
                G = F2.copy()
                G[:, :nw] = F2[:, sw]
                self.judge(f"exchange:{fam}", abs(F - G) / S, tol, gam, Bx, L, R, F, G, few=few)
            fl_y = lambda W: W * np.where(np.isin(np.arange(nw), [2] + ([g.iB] if g.mhd else [])), -1.0, 1.0)
            F2 = self.call(gam, Bx, fl_y(L), fl_y(R), r)
            if F2 is not None:
                G = F2.copy()
                G[:, :nw] = fl_y(F2[:, :nw])
                self.judge(f"flip:{fam}", abs(F - G) / S, tol, gam, Bx, L, R, F, G, few=few)
            if g.mhd:
                fb = lambda W: W * np.where(np.arange(nw) >= g.iB, -1.0, 1.0)
                F2 = self.call(gam, -Bx, fb(L), fb(R), r)
                if F2 is not None:
                    G = F2.copy()
                    G[:, :nw] = fb(F2[:, :nw])
                    self.judge(f"reversal:{fam}", abs(F - G) / S, tol, gam, Bx, L, R, F, G, few=few)
            # exact solution
            if fl == "exact" and not g.sr:
                if g.iso:
                    D, V, _, left = exact_iso(L, R, gam)
                    P = gam ** 2 * D
                else:
                    D, V, P, _, left = exact_adb(L, R, gam)
                W = np.where(left[:, None], L, R).copy()
                W[:, 0], W[:, 1] = D, V
                if not g.iso:
                    W[:, 4] = P
                want = phys(W, Bx, gam, np.where(left[:, None], r[:, 0], r[:, 1]))
                e = abs(F - want) / S
                e[abs(F[:, 0]) / S[:, 0] < 1e-6] = 0 if False else e[abs(F[:, 0]) / S[:, 0] < 1e-6]
                near0 = abs(V) < 1e-7 * (abs(L[:, 1]) + abs(R[:, 1]) + 1)
                self.judge(f"exactsolution:{fam}", e, 2e-6, gam, Bx, L, R, F, want, ~near0)
            if fl == "exact" and g.sr:
                W, ps, vs, near, left = exact_srh(L, R, gam)
                want = phys(W, Bx, gam, r[:, 0])
                self.judge(f"exactsolution:{fam}", abs(F - want) / S, 2e-3, gam, Bx, L, R, F, want)
        self.supersonic(phys, sc_all, base_tol, ampl)
        self.contact(phys, sc_all, base_tol)
        if not (g.sr and fl == "exact"):        # pressure differences below 1e-5 count as none there
            self.weak(phys, sc_all)

    def supersonic(self, phys, sc_all, tol, ampl):
        g = self.g
        n = N
        gam, Bx, sc = self.base(n, 0.2, 0)
        L = self.state(n, gam, Bx, sc, 0.25, 0.2 if not g.sr else -1)
        R = self.state(n, gam, Bx, sc, 0.25, 0.2 if not g.sr else -1)
        if g.mhd:
            for W in (L, R):
                W[:, g.iB:g.iB + 2] *= 1.0
        sgn = np.where(self.rng.random(n) < 0.5, 1.0, -1.0)
        if g.sr:
            for W in (L, R):
                W[:, 4] *= 0.03
                if g.mhd:
                    W[:, g.iB:g.iB + 2] = sc[:, None] * self.rng.normal(size=(n, 2)) * 0.2
            if g.mhd:
                Bx[:] = sc * self.rng.normal(size=n) * 0.2
            v = sgn * self.rng.uniform(0.85, 0.99, n)
            L[:, 1], R[:, 1] = v, v * self.rng.uniform(0.99, 1.0, n)
            for W in (L, R):
                W[:, 2:4] *= 0.3 * np.sqrt(1 - W[:, 1:2] ** 2)
            loL, hiL = g.speeds(L, Bx, gam)
            loR, hiR = g.speeds(R, Bx, gam)
            ok = np.where(sgn > 0, np.minimum(loL, loR) > 0.15, np.maximum(hiL, hiR) < -0.15)
        else:
            cm = np.maximum(g.cfast(L, Bx, gam), g.cfast(R, Bx, gam))
            M = self.rng.uniform(5, 30, n)
            # transverse field jumps raise the averaged fast speed: keep a margin over it too
            if g.mhd:
                cm = cm + np.sqrt(((L[:, g.iB:] - R[:, g.iB:]) ** 2).sum(1) / np.minimum(L[:, 0], R[:, 0]))
            L[:, 1] = sgn * M * cm + self.rng.normal(size=n) * 0.3 * np.minimum(g.cfast(L, Bx, gam), g.cfast(R, Bx, gam))
            R[:, 1] = sgn * M * cm + self.rng.normal(size=n) * 0.3 * np.minimum(g.cfast(L, Bx, gam), g.cfast(R, Bx, gam))
            ok = np.ones(n, bool)
        r = self.scalars(n)
        F = self.call(gam, Bx, L, R, r)
        if F is None:
            return
        want = np.where(sgn[:, None] > 0, phys(L, Bx, gam, r[:, 0]), phys(R, Bx, gam, r[:, 1]))
        self.judge("upwind", abs(F - want) / sc_all(gam, Bx, L, R), (2e-3 if g.sr and self.flux == "exact" else tol) * np.maximum(ampl(gam, Bx, L), ampl(gam, Bx, R)), gam, Bx, L, R, F, want, ok)

    def contact(self, phys, sc_all, tol):
        g, fl = self.g, self.flux
        if g.iso or fl in ("hlle", "force") or (g.sr and fl == "hlld"):
            return                      # the relativistic HLLD solver falls back on HLL for degenerate wave patterns
        n = N
        for moving in (False, True):
            gam, Bx, sc = self.base(n, 1, 0)
            L = self.state(n, gam, Bx, sc, 0.7, 0.3 if not g.sr else -0.5)
            if not moving:
                L[:, 1] = 0.0
                if g.sr and g.mhd:
                    L[:, 1:4] = 0.0          # contact at rest with no transverse motion: the field direction is the same in both frames
            R = L.copy()
            R[:, 0] *= 10 ** self.rng.uniform(-1.5, 1.5, n)
            if not g.mhd:
                R[:, 2:4] = self.state(n, gam, Bx, sc, 0.7, 0.3 if not g.sr else -0.5)[:, 2:4]
                if g.sr:
                    R[:, 2:4] = L[:, 2:4]
            sup = np.zeros(n, bool)
            if moving:
                if g.sr:
                    continue
                c0 = np.minimum(g.cfast(L, Bx, gam), g.cfast(R, Bx, gam))
                L[:, 1] = R[:, 1] = self.rng.uniform(-0.8, 0.8, n) * c0
            if g.mhd and not moving and fl == "hlld":
                # tangential discontinuities: no normal field, total pressure balanced
                k = np.nonzero(Bx == 0)[0]
                R[k, 2:4] = R[k, 3:1:-1] * 0.7
                pt = g.ptot(L, Bx, gam)
                nb = R[:, g.iB:] * self.rng.uniform(0.2, 0.9, (n, 1))
                newP = pt - 0.5 * (nb ** 2).sum(1)
                R[k, g.iB:] = nb[k]
                R[k, 4] = newP[k]
            r = self.scalars(n)
            F = self.call(gam, Bx, L, R, r)
            if F is None:
                continue
            want = np.where(L[:, 1:2] >= 0, phys(L, Bx, gam, r[:, 0]), phys(R, Bx, gam, r[:, 1]))
            self.judge("contact:" + ("moving" if moving else "stationary"), abs(F - want) / sc_all(gam, Bx, L, R), 1e-6 if fl == "exact" or (g.mhd and fl == "roe") else 100 * tol, gam, Bx, L, R, F, want, ~sup)

    def weak(self, phys, sc_all):
        """F(U+a, U+b) - F(U) to first order in a and b."""
        g, fl, nw = self.g, self.flux, self.g.nw
        n = N // 2
        gam, Bx, sc = self.base(n, 0.5, 0)
        W = self.state(n, gam, Bx, sc, 0.5, 0.6 if not g.sr else -0.5)
        if g.mhd:
            Bx = np.where(abs(Bx) < 0.2 * sc, sc * 0.5, Bx)
            Bx = np.clip(Bx, -2 * sc, 2 * sc)
            W[:, g.iB:] = sc[:, None] * self.rng.uniform(0.3, 1.5, (n, 2)) * self.rng.choice([-1, 1], (n, 2))
        A, dUdW, dFdW = g.jac(W, Bx, gam)
        lam, V = np.linalg.eig(A)
        ok = (abs(lam.imag).max(1) < 1e-9)
        lam, V = lam.real, V.real
        o = np.argsort(lam, axis=1)
        lam = np.take_along_axis(lam, o, 1)
        V = np.take_along_axis(V, o[:, None, :], 2)
        cond = np.array([np.linalg.cond(v) if np.isfinite(v).all() else np.inf for v in V])
        ok &= cond < 1e6
        span = lam[:, -1] - lam[:, 0]
        ok &= (abs(lam).min(1) > 0.02 * span)              # away from the kinks of the flux
        nd = np.diff(lam, axis=1).min(1)
        if g.mhd:
            ok &= nd > 0.01 * span
        eps = 1e-5
        # unit jumps in scaled primitive variables
        w0 = np.abs(W).copy()
        cs = g.cfast(W, Bx, gam) if not g.sr else 0.3 * np.sqrt(1 - (W[:, 1:4] ** 2).sum(1))
        w0[:, 1:4] = cs[:, None]
        if g.mhd:
            w0[:, g.iB:] = (abs(Bx) + np.sqrt((W[:, g.iB:] ** 2).sum(1)))[:, None]
        if g.sr:
            w0[:, 1:4] *= (1 - (W[:, 1:4] ** 2).sum(1))[:, None]
        a = self.rng.normal(size=(n, nw)) * w0
        b = self.rng.normal(size=(n, nw)) * w0
        L, R = W + eps * a, W + eps * b
        modes = None
        if g.mhd and fl in ("hlld", "hllc") or (g.sr and fl == "hlld"):
            # these solvers represent the extreme waves (and Alfven and contact in HLLD) without smearing, the slow waves not: jumps along single waves
            pick = [0, nw - 1] if g.sr or fl == "hllc" else ([0, 1, 3, 5, 6] if nw == 7 else [0, 1, 4, 5])
            if g.iso:
                pick = [0, nw - 1, 1, 4]
            modes = self.rng.choice(pick, n)
            vec = np.take_along_axis(V, modes[:, None, None], 2)[:, :, 0]
            dw = np.linalg.solve(dUdW, vec[:, :, None])[:, :, 0]
            dw /= np.maximum(abs(dw / w0).max(1), 1e-300)[:, None]
            a, b = 0 * W, dw
            L, R = W.copy(), W + eps * b
        r = np.zeros((n, 2, self.ns))
        F = self.call(gam, Bx, L, R, r)
        if F is None:
            return
        F0 = g.F(W, Bx, gam)
        dUl, dUr = np.einsum("nij,nj->ni", dUdW, a), np.einsum("nij,nj->ni", dUdW, b)
        dFl, dFr = np.einsum("nij,nj->ni", dFdW, a), np.einsum("nij,nj->ni", dFdW, b)
        Vi = np.linalg.inv(np.where(ok[:, None, None], V, np.eye(nw)))
        Ap = np.matmul(V * np.maximum(lam, 0)[:, None, :], Vi)
        Am = np.matmul(V * np.minimum(lam, 0)[:, None, :], Vi)
        up = np.einsum("nij,nj->ni", Ap, dUl) + np.einsum("nij,nj->ni", Am, dUr)
        if fl in ("hlle", "force"):
            sl, sr_ = np.minimum(lam[:, 0], 0)[:, None], np.maximum(lam[:, -1], 0)[:, None]
            hll = (sr_ * dFl - sl * dFr + sl * sr_ * (dUr - dUl)) / (sr_ - sl)
            if fl == "force":
                um = (sr_ * dUr - sl * dUl + dFl - dFr) / (sr_ - sl)
                sub = (lam[:, :1] < 0) & (lam[:, -1:] > 0)
                up = np.where(sub, 0.5 * hll + 0.5 * np.einsum("nij,nj->ni", A, um), hll)
            else:
                up = hll
        # scale of the response: largest wave speed times the jump
        resp = (F[:, :nw] - F0) / eps
        s = abs(lam).max(1)[:, None]
        size = np.maximum(abs(dFl), abs(dFr)) + s * np.maximum(abs(dUl), abs(dUr))
        size[:, 1:4] = size[:, 1:4].max(1)[:, None]
        if g.mhd:
            size[:, g.iB:] = size[:, g.iB:].max(1)[:, None]
        size[:, 0] = np.maximum(size[:, 0], 1e-3 * size[:, 1] / s[:, 0])
        size = np.maximum(size, 1e-6 * self.scale(gam, Bx, W, W))
        if modes is not None:
            # along a weak single wave some components vanish: compare with the size of a generic jump of the same strength
            size = np.maximum(size, 1e-2 * self.scale(gam, Bx, W, W))
        tol = 2e-2
        self.judge("weakjump", abs(resp - up) / size, tol, gam, Bx, L, R, F[:, :nw], F0 + eps * up, ok)


def one(cf):
    def go():
        s = Solver(*cf)
        if s.exe is None:
            c.incon(f"{cf[0]} does not build")
            return
        s.relations()
    return go


c.parallel([(cf[0], one(cf)) for cf in CF])
c.finish(min_cases=150)
