"""Pseudo-spectral (Fourier, RK4) reference solutions of the equations of smooth periodic gas flow, written from the textbook equations. Nothing
here looks at Athena's code. Fields are arrays [N3,N2,N1] of point values at x = x0 + i*L/N."""
import numpy as np


class Spectral:
    def __init__(self, cfg, N, L, gamma=5 / 3, cs=1.0, accel=None, omega=None):
        """accel: list of three arrays of gravitational acceleration or None"""
        self.cfg, self.N, self.L, self.g, self.cs, self.accel = cfg, list(N), list(L), gamma, cs, accel
        self.ik = []
        for a in range(3):
            n = N[a]
            k = np.fft.fftfreq(n, 1.0 / n)
            kk = 2j * np.pi * k / L[a]
            if n % 2 == 0 and n > 1:
                kk[n // 2] = 0
            sh = [1, 1, 1]
            sh[2 - a] = n
            self.ik.append(kk.reshape(sh))
        self.filt = []
        for a in range(3):
            n = N[a]
            k = np.abs(np.fft.fftfreq(n, 1.0 / n)) / max(n / 2, 1)
            sh = [1, 1, 1]
            sh[2 - a] = n
            self.filt.append(np.exp(-36 * k ** 24).reshape(sh))
        self.W = None
        self.cool = None         # function (d, P) -> energy loss per volume and time

    def deriv(self, f, a):
        return np.real(np.fft.ifft(np.fft.fft(f, axis=2 - a) * self.ik[a], axis=2 - a)) if self.N[a] > 1 else np.zeros_like(f)

    def points(self):
        xs = [np.arange(self.N[a]) / self.N[a] for a in range(3)]
        F3, F2, F1 = np.meshgrid(xs[2], xs[1], xs[0], indexing="ij")
        return [F1, F2, F3]

    # ---- primitive recovery
    def prim(self, U):
        cfg = self.cfg
        d, M = U[0], U[1:4]
        i = 4 if cfg.iso else 5
        b = [U[i + a] for a in range(3)] if cfg.mhd else [0 * d] * 3
        b2 = sum(x * x for x in b)
        if not cfg.sr:
            v = [m / d for m in M]
            P = self.cs ** 2 * d if cfg.iso else (self.g - 1) * (U[4] - 0.5 * d * sum(x * x for x in v) - 0.5 * b2)
            return d, v, P, b
        g, E = self.g, U[4]
        m2, S = sum(x * x for x in M), sum(x * y for x, y in zip(M, b))
        Z = self.W if self.W is not None and self.W.shape == d.shape else E + 1.0

        def parts(Z):
            v2 = np.clip((m2 * Z * Z + S * S * (b2 + 2 * Z)) / (Z * (Z + b2)) ** 2, 0, 1 - 1e-12)
            P = (g - 1) / g * (Z * (1 - v2) - d * np.sqrt(1 - v2))
            return v2, P, Z - P + 0.5 * b2 * (1 + v2) - S * S / (2 * Z * Z) - E
        for _ in range(60):
            h = 1e-7 * Z
            f0, f1, fm = parts(Z)[2], parts(Z + h)[2], parts(Z - h)[2]
            dz = -f0 / ((f1 - fm) / (2 * h))
            Z = np.maximum(Z + dz, 0.3 * Z)
            if np.abs(dz / Z).max() < 1e-14:
                break
        self.W = Z
        v2, P, _ = parts(Z)
        v = [(M[a] + S * b[a] / Z) / (Z + b2) for a in range(3)]
        return d * np.sqrt(1 - v2), v, P, b

    def flux(self, U, p, a):
        cfg = self.cfg
        d, v, P, b = p
        b2, vb = sum(x * x for x in b), sum(x * y for x, y in zip(v, b))
        f = [U[0] * v[a]]
        if cfg.sr:
            il2 = 1 - sum(x * x for x in v)
            pt = P + 0.5 * (b2 * il2 + vb * vb)
            for q in range(3):
                f.append(U[1 + q] * v[a] - b[a] * (b[q] * il2 + vb * v[q]) + (pt if q == a else 0))
            f.append(U[1 + a])
        else:
            pt = P + 0.5 * b2
            for q in range(3):
                f.append(U[1 + q] * v[a] - b[a] * b[q] + (pt if q == a else 0))
            if not cfg.iso:
                f.append((U[4] + pt) * v[a] - b[a] * vb)
        if cfg.mhd:
            for q in range(3):
                f.append(b[q] * v[a] - b[a] * v[q])
        for n in range(cfg.ns):
            f.append(U[len(U) - cfg.ns + n] * v[a])
        return f

    def rhs(self, U):
        p = self.prim(U)
        out = [0 * x for x in U]
        for a in range(3):
            if self.N[a] > 1:
                for q, f in enumerate(self.flux(U, p, a)):
                    out[q] = out[q] - self.deriv(f, a)
        if self.cool is not None:
            out[4] = out[4] - self.cool(p[0], p[2])
        if self.accel is not None:
            for a in range(3):
                out[1 + a] = out[1 + a] + U[0] * self.accel[a]
                if not self.cfg.iso:
                    out[4] = out[4] + U[1 + a] * self.accel[a]
        return np.array(out)

    def smooth(self, U):
        f = self.filt[0] * self.filt[1] * self.filt[2]
        return np.array([np.real(np.fft.ifftn(np.fft.fftn(x) * f)) for x in U])

    def step_limit(self, U):
        d, v, P, b = self.prim(U)
        if self.cfg.sr:
            c = [1.0] * 3
        else:
            a = np.sqrt((self.cs ** 2 if self.cfg.iso else self.g * P / d) + sum(x * x for x in b) / d)
            c = [(np.abs(v[q]) + a).max() for q in range(3)]
        return 0.5 / sum(c[q] * self.N[q] / self.L[q] for q in range(3) if self.N[q] > 1)

    def evolve(self, U, t):
        U = np.array(U)
        now = 0.0
        while now < t - 1e-15:
            dt = min(self.step_limit(U), t - now)
            k1 = self.rhs(U)
            k2 = self.rhs(U + 0.5 * dt * k1)
            k3 = self.rhs(U + 0.5 * dt * k2)
            k4 = self.rhs(U + dt * k3)
            U = self.smooth(U + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4))
            now += dt
        return U

    def tail(self, U):
        """size of the highest third of the spectrum relative to the variation: how well the reference is resolved"""
        w = 0.0
        for x in U:
            F = np.abs(np.fft.fftn(x))
            hi = np.zeros(F.shape, bool)
            for a in range(3):
                n = self.N[a]
                if n > 1:
                    sh = [1, 1, 1]
                    sh[2 - a] = n
                    hi |= (np.abs(np.fft.fftfreq(n, 1.0 / n)) > n / 3).reshape(sh)
            F.flat[0] = 0
            if F.max() > 1e-10 * abs(x).max() * x.size:
                w = max(w, F[hi].max() / F.max())
        return w

    def sample(self, f, M, where="ccc", average=True):
        """average over (or value at) cells (c) or faces (f: N+1 of them in an active direction) of an M-cell mesh on the same box"""
        F = np.fft.fftn(f) / f.size
        for a in range(3):
            n, m = self.N[a], M[a]
            if n == 1:
                continue
            k = np.fft.fftfreq(n, 1.0 / n)
            if where[a] == "c":
                x = (np.arange(m) + 0.5) / m
            else:
                x = np.arange(m + 1) / m
            E = np.exp(2j * np.pi * x[:, None] * k[None, :])
            if where[a] == "c" and average:
                E = E * np.sinc(k / m)[None, :]
            F = np.moveaxis(np.tensordot(E, F, axes=([1], [2 - a])), 0, 2 - a)
        return np.real(F)

    def athena_state(self, ath, U, mesh):
        """cell averages and face averages as an ath.State"""
        cfg = self.cfg
        A = np.stack([self.sample(x, mesh.N) for x in U], axis=-1)
        B = None
        if cfg.mhd:
            i = 4 if cfg.iso else 5
            B = []
            for a in range(3):
                w = "".join("f" if q == a and self.N[a] > 1 else "c" for q in range(3))
                B.append(self.sample(U[i + a], mesh.N, w))
        return A, B


class ShearSpectral(Spectral):
    """The same in a shearing box (velocity perturbation u about -q*Om*x in direction y), in coordinates that move with the shear. ay = component index
    of the azimuthal direction (1, or 2 for a two-dimensional radial-vertical box)."""
    def __init__(self, cfg, N, L, q, Om, x0, ay=1, **kw):
        super().__init__(cfg, N, L, **kw)
        self.q, self.Om, self.x0, self.ay, self.s = q, Om, x0, ay, 0.0

    def dx_(self, f, a):
        d = self.deriv(f, a)
        if a == 0 and self.N[self.ay] > 1 and self.s:
            d = d + self.s * self.deriv(f, self.ay)
        return d

    def rhs_t(self, U, t):
        self.s = self.q * self.Om * t
        p = self.prim(U)
        out = [0 * x for x in U]
        for a in range(3):
            if self.N[a] > 1:
                for k, f in enumerate(self.flux(U, p, a)):
                    out[k] = out[k] - self.dx_(f, a)
        d, v, P, b = p
        q, O, ay = self.q, self.Om, self.ay
        out[1] = out[1] + 2 * O * U[1 + ay]
        out[1 + ay] = out[1 + ay] + (q - 2) * O * U[1]
        if not self.cfg.iso:
            out[4] = out[4] + q * O * (d * v[0] * v[ay] - b[0] * b[ay])
        if self.cfg.mhd:
            i = 4 if self.cfg.iso else 5
            out[i + ay] = out[i + ay] - q * O * b[0]
        return np.array(out)

    def evolve(self, U, t):
        U = np.array(U)
        now = 0.0
        while now < t - 1e-15:
            dt = min(self.step_limit(U) / (1 + self.q * self.Om * t), t - now)
            k1 = self.rhs_t(U, now)
            k2 = self.rhs_t(U + 0.5 * dt * k1, now + 0.5 * dt)
            k3 = self.rhs_t(U + 0.5 * dt * k2, now + 0.5 * dt)
            k4 = self.rhs_t(U + dt * k3, now + dt)
            U = self.smooth(U + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4))
            now += dt
        return U

    def sample_t(self, f, M, t, where="ccc", yaw=None):
        """cell or face averages at time t, with the shear undone"""
        s = self.q * self.Om * t if self.N[self.ay] > 1 else 0.0
        F = np.fft.fftn(f) / f.size          # [kz, ky, kx]
        n = self.N
        k = [np.fft.fftfreq(n[a], 1.0 / n[a]) for a in range(3)]
        # x first, with the effective wave number
        m = M[0]
        x = (np.arange(m) + 0.5) / m if where[0] == "c" else np.arange(m + 1) / m
        X = self.x0 + x * self.L[0]
        ky = 2 * np.pi * k[1] / self.L[1] if n[1] > 1 else np.zeros(n[1])
        E = np.exp(2j * np.pi * x[:, None, None] * k[0][None, None, :]) * np.exp(1j * s * X[:, None, None] * ky[None, :, None])
        if where[0] == "c":
            ke = 2 * np.pi * k[0][None, :] / self.L[0] + s * ky[:, None]
            E = E * np.sinc(ke * self.L[0] / m / (2 * np.pi))[None]
        F = np.einsum("iyx,zyx->zyi", E, F)
        for a in (1, 2):
            if n[a] == 1:
                continue
            m = M[a]
            x = (np.arange(m) + 0.5) / m if where[a] == "c" else np.arange(m + 1) / m
            E = np.exp(2j * np.pi * x[:, None] * k[a][None, :])
            if where[a] == "c":
                E = E * np.sinc(k[a] / m)[None, :]
            F = np.moveaxis(np.tensordot(E, F, axes=([1], [2 - a])), 0, 2 - a)
        return np.real(F)


class CylSpectral(Spectral):
    """The same in cylindrical coordinates (r, phi, z): Fourier in all three directions; r is made periodic by bending 1/r outside [ra, rb], so that the
    solution is that of the cylindrical equations only within the part of [ra, rb] which nothing from outside has reached. pot: functions returning
    (dPhi/dr, dPhi/dphi, dPhi/dz) arrays; om: angular velocity of the frame (Coriolis force only, as the centrifugal force belongs to the potential)."""
    def __init__(self, cfg, N, L, r0, ra, rb, om=0.0, grad=None, **kw):
        super().__init__(cfg, N, L, **kw)
        self.r0, self.ra, self.rb, self.om, self.grad = r0, ra, rb, om, grad
        from scipy.special import erfc
        r = r0 + np.arange(N[0]) / N[0] * L[0]
        w = 0.5 * erfc((ra - 0.3 - r) / 0.08) * 0.5 * erfc((r - rb - 0.3) / 0.08)
        self.r = r[None, None, :]
        self.i_r = (w / r + (1 - w) * 2 / (ra + rb))[None, None, :]
        self.w = w[None, None, :]

    def curl(self, A):
        D, q = self.deriv, self.i_r
        return [q * D(A[2], 1) - D(A[1], 2), D(A[0], 2) - D(A[2], 0), D(A[1], 0) + q * A[1] - q * D(A[0], 1)]

    def rhs(self, U):
        p = self.prim(U)
        cfg, q = self.cfg, self.i_r
        F = [self.flux(U, p, a) for a in range(3)]
        i = 4 if cfg.iso else 5
        isB = lambda k: cfg.mhd and i <= k < i + 3
        out = []
        for k in range(len(U)):
            D = lambda a: self.deriv(F[a][k], a)
            if isB(k):
                a = k - i
                o = 0 * U[0]
                if a != 0:
                    o = o - D(0) - (q * F[0][k] if a == 2 else 0)
                if a != 1:
                    o = o - q * D(1)
                if a != 2:
                    o = o - D(2)
            else:
                o = -D(0) - q * F[0][k] - q * D(1) - D(2)
                if k == 1:
                    o = o + q * F[1][2]
                if k == 2:
                    o = o - q * F[0][2]
            out.append(o)
        if self.om:
            out[1] = out[1] + 2 * self.om * U[2]
            out[2] = out[2] - 2 * self.om * U[1]
        if self.grad is not None:
            g = [self.grad[0], self.grad[1] * q, self.grad[2]]
            for a in range(3):
                out[1 + a] = out[1 + a] - U[0] * g[a]
                if not cfg.iso:
                    out[4] = out[4] - U[1 + a] * g[a]
        return np.array(out)

    def step_limit(self, U):
        return super().step_limit(U) * min(1.0, 0.9 * (self.ra - 0.3))

    def sample_r(self, f, mesh, where="ccc", rw=1):
        """cell or face averages on the cylindrical mesh; rw = power of r weighting the average over r"""
        F = np.fft.fftn(f) / f.size
        for a in (1, 2):
            n, m = self.N[a], mesh.N[a]
            if n == 1:
                continue
            k = np.fft.fftfreq(n, 1.0 / n)
            x = (np.arange(m) + 0.5) / m if where[a] == "c" else np.arange(m + 1) / m
            E = np.exp(2j * np.pi * x[:, None] * k[None, :])
            if where[a] == "c":
                E = E * np.sinc(k / m)[None, :]
            F = np.moveaxis(np.tensordot(E, F, axes=([1], [2 - a])), 0, 2 - a)
        k = np.fft.fftfreq(self.N[0], 1.0 / self.N[0])
        ph = lambda r: np.exp(2j * np.pi * ((r - self.r0) / self.L[0])[..., None] * k)
        if where[0] == "f":
            E = ph(mesh.fc(0))
        else:
            g, wt = np.polynomial.legendre.leggauss(5)
            R = mesh.cc(0)[:, None] + 0.5 * mesh.dx[0] * g[None, :]
            wr = wt[None, :] * R ** rw
            wr = wr / wr.sum(1)[:, None]
            E = (ph(R) * wr[..., None]).sum(1)
        return np.real(np.tensordot(F, E, axes=([2], [1])))
