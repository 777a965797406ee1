"""Named scenarios (physics option x dimension x workload) shared by the restart, decomposition, schedule and sanitizer checks."""
import numpy as np, ath

H = "--with-gas=hydro"
I = "--with-eos=isothermal"


class Scen:
    def __init__(self, name, args, dim, N=None, hier=None, prob=None, part=None, bc=None, kind="smooth", decs=(), mpi=True, amp=0.3, cour=0.35, ldflags="", exact=True, tol=None):
        self.name, self.args, self.dim, self.hier, self.prob, self.part, self.bc = name, args, dim, hier, dict(prob or {}), part, bc
        self.N = N or {1: (24, 1, 1), 2: (16, 12, 1), 3: (12, 10, 8)}[dim]
        self.kind, self.decs, self.mpi, self.amp, self.cour, self.ldflags, self.exact, self.tol = kind, decs, mpi, amp, cour, ldflags, exact, tol

    def cfg(self):
        return ath.Cfg(self.args)

    def make(self, c, seed, nlim=8, outputs=(), dec=None, prob=None, tlim=1e9, amp=None, maxout=None):
        cfg = self.cfg()
        rng = np.random.default_rng([seed, self.dim, 77])
        org, L = rng.uniform(-1, 1, 3), rng.uniform(0.8, 1.3, 3)
        if cfg.cyl:
            org[0] = 1.0
        if "multigrid" in self.args or "disk" in self.args or "obc" in self.args:
            L[:] = [L[0] * self.N[a] / self.N[0] for a in range(3)]
        if cfg.shear or "multigrid" in self.args:
            org = -0.5 * L
        if self.hier:
            root, subs = ath.hierarchy(self.dim, self.hier, org, org + L)
        else:
            root, subs = ath.Mesh(self.N, org, org + L), []
        meshes = [root] + subs
        fl = ath.Flow(cfg, seed, self.kind, [q > 1 for q in root.N], amp=self.amp if amp is None else amp, mach=0.7, mean_v=not cfg.shear)
        mx = max(m.level for m in meshes)
        win = None
        if self.bc and not cfg.cyl and cfg.mhd and 1 in self.bc:
            win = None
        states = [fl.state(m, sub=2 ** (mx - m.level)) for m in meshes]
        d = c.tmp("i")
        ath.write_init(d + "/init.bin", cfg, states)
        pr = dict(self.prob)
        pr.update(prob or {})
        if "--with-gravity" in self.args:
            pr.setdefault("mean_rho", float(np.mean(states[0].U[..., 0])))
        dx = {f"NGrid_x{a+1}": dec[a] for a in range(3)} if dec is not None and not isinstance(dec[0], tuple) else None
        inp = ath.base_inp(cfg, root, d + "/init.bin", bc=self.bc or ((2, 4, 4) if cfg.cyl else (4, 4, 4)), nlim=nlim, tlim=tlim, cour=self.cour, subs=subs, problem=pr, outputs=outputs, dom_extra=dx, maxout=maxout)
        if dec is not None and isinstance(dec[0], tuple):
            for n, ng in enumerate(dec):
                inp[f"domain{n+1}"].update({f"NGrid_x{a+1}": ng[a] for a in range(3)})
        if self.part:
            ps = []
            n = self.part.get("n", 40)
            for i in range(n):
                x = [rng.uniform(org[a], org[a] + L[a]) if root.act(a) else org[a] + 0.5 * L[a] for a in range(3)]
                v = rng.normal(size=3) * self.part.get("v", 1.0)
                if self.part.get("burst"):   # a cloud that crosses the middle of the box, all at once
                    v = self.part["burst"] * (np.array([1.0, 0.8, -0.9]) + 0.1 * rng.normal(size=3))
                    x = [org[a] + L[a] * (0.5 - (np.sign(v[a]) * float(rng.uniform(0.1, 0.5)) / root.N[a] if root.act(a) else 0.0)) for a in range(3)]
                ps.append((i, i % 2, x, v))
            ath.write_particles(d + "/p.bin", ps)
            inp["particle"] = {"partypes": 2, "parnumgrid": self.part.get("npg", 200), "integrator": self.part.get("integrator", 2), "interp": self.part.get("interp", 2), "tsmode": 3}
            inp["problem"].update({"part_file": d + "/p.bin", "tstop0": 0.5, "tstop1": 2.0, "pmass0": 0.3 / n, "pmass1": 0.2 / n})
            if "--enable-shearing-box" in self.args or "FARGO" in self.args:
                inp["problem"].setdefault("omega", 1.0)
        self.root, self.states = root, states
        return cfg, inp


O = (1, 1, 1)
ALL = [
    Scen("h1", H + " --with-order=3 --with-flux=hllc --with-nscalars=2", 1, kind="shock", decs=[(2, 1, 1), (4, 1, 1)]),
    Scen("h2vl", H + " --with-integrator=vl --with-order=2p --with-flux=hllc --with-nscalars=1", 2, kind="shock", decs=[(2, 2, 1), (1, 3, 1)]),
    Scen("h3hc", H + " --with-order=3 --with-flux=roe --enable-h-correction", 3, kind="shock", decs=[(2, 1, 2), (1, 2, 2), (3, 2, 1)]),
    Scen("hi3", H + " " + I + " --with-order=2 --with-nscalars=1", 3, bc=((1, 2), (4, 4), (2, 1)), decs=[(2, 2, 2), (1, 1, 2)]),
    Scen("h2exact", H + " --with-order=2p --with-flux=exact", 2, bc=((2, 2), (1, 1), 4), decs=[(4, 1, 1), (2, 3, 1)]),
    Scen("m1", "--with-order=2 --with-flux=roe --with-nscalars=1", 1, kind="shock", decs=[(3, 1, 1)]),
    Scen("m2ctu", "--with-order=3 --with-flux=hlld --with-nscalars=1", 2, kind="shock", decs=[(2, 2, 1), (4, 1, 1), (1, 3, 1)]),
    Scen("m3ctu", "--with-order=2 --with-flux=roe", 3, kind="shock", decs=[(2, 2, 2), (3, 1, 1), (1, 2, 2)]),
    Scen("m3vl", "--with-integrator=vl --with-order=2p --with-flux=hlld --with-nscalars=2", 3, decs=[(2, 1, 2), (1, 2, 1)]),
    Scen("m3hc", "--with-order=3 --with-flux=roe --enable-h-correction", 3, decs=[(2, 2, 1)]),
    Scen("mi2", I + " --with-order=3p --with-flux=hlle", 2, bc=((2, 2), (4, 4), 4), decs=[(2, 2, 1)]),
    Scen("mi3vl", I + " --with-integrator=vl --with-order=3p --with-flux=hlld", 3, bc=((4, 4), (2, 2), (5, 5)), decs=[(1, 2, 2), (2, 2, 1)]),
    Scen("srh2", H + " --with-integrator=vl --with-order=2p --with-flux=hllc --enable-special-relativity", 2, decs=[(2, 2, 1)]),
    Scen("srm2", "--with-integrator=vl --with-order=2p --with-flux=hlld --enable-special-relativity", 2, decs=[(2, 1, 1)]),
    Scen("srm3", "--with-integrator=vl --with-order=2p --with-flux=hlle --enable-special-relativity", 3, decs=[(1, 2, 2)]),
    Scen("grav-static", H + " --with-order=2", 2, prob={"grav": 1, "grav_a1": 0.2, "grav_a2": -0.1}, decs=[(2, 2, 1)]),
    Scen("cool", H + " --with-order=2", 2, prob={"cool": 1, "cool_rate": 0.5, "cool_T": 1.3}, decs=[(1, 2, 1)]),
    Scen("cond", "--with-order=2 --with-flux=hlld --enable-conduction", 2, prob={"kappa_iso": 2e-3, "kappa_aniso": 4e-3}, decs=[(2, 2, 1)]),
    Scen("visc", H + " --with-order=2 --enable-viscosity", 3, prob={"nu_iso": 2e-3}, decs=[(2, 1, 2)]),
    Scen("res", "--with-order=2 --with-flux=hlld --enable-resistivity", 3, prob={"eta_O": 2e-3, "Q_A": 1e-3}, decs=[(2, 2, 1), (1, 1, 2)]),
    Scen("hall", I + " --with-order=2 --with-flux=hlld --enable-resistivity", 2, prob={"eta_O": 1e-3, "Q_H": 1e-3}, decs=[(2, 2, 1)]),
    Scen("sts", "--with-order=2 --with-flux=hlld --enable-resistivity --enable-conduction --enable-sts", 2, prob={"eta_O": 0.05, "kappa_iso": 0.05}, decs=[(2, 1, 1)]),
    Scen("sg-fft2", H + " --with-order=2 --with-gravity=fft --enable-fft", 2, N=(16, 16, 1), prob={"four_pi_G": 2.0}, mpi=False),
    Scen("sg-fft3", H + " --with-order=2 --with-gravity=fft --enable-fft", 3, N=(8, 8, 8), prob={"four_pi_G": 2.0}, decs=[(2, 2, 1), (2, 1, 1)]),
    Scen("sg-fft3m", "--with-order=2 --with-flux=hlld --with-gravity=fft --enable-fft --with-nscalars=1", 3, N=(8, 8, 8), prob={"four_pi_G": 2.0}, decs=[(1, 2, 2)]),
    Scen("sg-disk3", H + " --with-order=2 --with-gravity=fft_disk --enable-fft", 3, N=(8, 8, 8), bc=(4, 4, (2, 2)), prob={"four_pi_G": 2.0}, decs=[(2, 2, 1)]),
    Scen("sg-obc3", H + " --with-order=2 --with-gravity=fft_obc --enable-fft", 3, N=(8, 8, 8), bc=((2, 2), (2, 2), (2, 2)), prob={"four_pi_G": 2.0}, decs=[(1, 2, 2)]),
    Scen("sg-mg3", H + " --with-order=2 --with-gravity=multigrid", 3, N=(16, 16, 16), bc=((1, 1), (1, 1), (1, 1)), prob={"four_pi_G": 2.0}, mpi=False, tol=0.02),
    Scen("part2", H + " " + I + " --with-order=2 --with-particles=passive", 2, part={"n": 60, "v": 1.5, "interp": 2}, decs=[(2, 2, 1), (1, 3, 1)]),
    Scen("part3fb", H + " " + I + " --with-order=2 --with-particles=feedback", 3, part={"n": 60, "v": 1.2, "interp": 1, "integrator": 3}, decs=[(2, 2, 1), (1, 2, 2)]),
    Scen("partsh", "--with-eos=isothermal --with-gas=hydro --with-order=2 --with-particles=feedback --enable-shearing-box --enable-fargo", 3, N=(12, 12, 8), part={"n": 50, "v": 0.3, "interp": 2, "integrator": 2}, decs=[(2, 1, 1), (1, 2, 1), (2, 2, 1)]),
    Scen("shear2xz", I + " --with-order=2 --with-flux=hlld --enable-shearing-box", 2, prob={"xz": 1}, decs=[(2, 2, 1)]),
    Scen("shear3", I + " --with-order=2 --with-flux=hlld --enable-shearing-box --with-nscalars=1", 3, N=(12, 12, 8), decs=[(2, 2, 1), (2, 1, 2), (1, 3, 1)]),
    Scen("shear3f", I + " --with-order=3 --with-flux=hlld --enable-shearing-box --enable-fargo --with-nscalars=1", 3, N=(12, 12, 8), decs=[(2, 2, 1), (1, 3, 1)]),
    Scen("shear3h", H + " --with-order=2 --enable-shearing-box --enable-fargo", 3, N=(12, 12, 8), decs=[(2, 2, 2)]),
    Scen("shear3vl", I + " --with-order=2p --with-integrator=vl --with-flux=hlld --enable-shearing-box", 3, N=(12, 12, 8), decs=[(2, 2, 1)]),
    Scen("cyl2", "--with-coord=cylindrical --with-order=2 --with-flux=hlld --with-nscalars=1", 2, decs=[(2, 2, 1)]),
    Scen("cyl3", H + " --with-coord=cylindrical --with-order=2", 3, decs=[(1, 2, 2)]),
    Scen("cyl3f", H + " --with-coord=cylindrical --with-order=2 --enable-fargo", 3, prob={"orb_om": 0.8, "orb_n": -1.0}, decs=[(1, 2, 2), (2, 1, 1)]),
    Scen("cylvl", "--with-coord=cylindrical --with-integrator=vl --with-order=2p --with-flux=hlld", 3, decs=[(2, 2, 1)]),
    Scen("rot", H + " --with-coord=cylindrical --with-order=2 --enable-rotating_frame", 2, prob={"omega": 0.7}, decs=[(2, 1, 1)]),
    Scen("smr1", H + " --with-order=3 --enable-smr --with-nscalars=1", 1, hier="two-levels", decs=[[(1, 1, 1), (1, 1, 1), (1, 1, 1)], [(2, 1, 1), (2, 1, 1), (1, 1, 1)]]),
    Scen("smr2", H + " --with-order=2 --with-flux=hllc --enable-smr --with-nscalars=1", 2, hier="deep-pair", kind="shock", decs=[[(2, 1, 1), O, O, O]]),
    Scen("smr2m", "--with-order=2 --with-flux=hlld --enable-smr", 2, hier="two-levels", kind="shock", decs=[[(1, 2, 1), (1, 2, 1), O], [(2, 1, 1), (1, 2, 1), O]]),
    Scen("smr3m", "--with-integrator=vl --with-order=2p --with-flux=hlld --enable-smr --with-nscalars=1", 3, hier="one", decs=[[(2, 1, 1), (1, 2, 1)]]),
]
BY = {s.name: s for s in ALL}
