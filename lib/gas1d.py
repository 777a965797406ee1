"""One-dimensional gas physics, written from the textbook equations only: conserved variables, fluxes, wave speeds, Jacobians, exact hydrodynamic
Riemann solutions. States are arrays [n, nw] in the order d, vx, vy, vz, (P), (By, Bz)."""
import numpy as np


class Gas:
    def __init__(self, mhd, iso, sr=False):
        self.mhd, self.iso, self.sr = mhd, iso, sr
        self.nw = 4 + (not iso) + 2 * mhd
        self.iP = None if iso else 4
        self.iB = (5 - iso) if mhd else None

    def split(self, W, g):
        d, v = W[:, 0], [W[:, 1], W[:, 2], W[:, 3]]
        P = g * g * d if self.iso else W[:, 4]
        bt = [W[:, self.iB], W[:, self.iB + 1]] if self.mhd else [0 * d, 0 * d]
        return d, v, P, bt

    def U(self, W, Bx, g):
        d, v, P, bt = self.split(W, g)
        b = [Bx + 0 * d] + bt
        b2 = sum(x * x for x in b)
        v2 = sum(x * x for x in v)
        if self.sr:
            lor2 = 1 / (1 - v2)
            w = (d + g / (g - 1) * P) * lor2
            vb = sum(x * y for x, y in zip(v, b))
            out = [d * np.sqrt(lor2)] + [(w + b2) * x - vb * y for x, y in zip(v, b)] + [w - P + 0.5 * b2 * (1 + v2) - 0.5 * vb * vb]
        else:
            out = [d] + [d * x for x in v]
            if not self.iso:
                out.append(P / (g - 1) + 0.5 * d * v2 + 0.5 * b2)
        return np.stack(out + (bt if self.mhd else []), axis=1)

    def F(self, W, Bx, g):
        d, v, P, bt = self.split(W, g)
        b = [Bx + 0 * d] + bt
        b2 = sum(x * x for x in b)
        vb = sum(x * y for x, y in zip(v, b))
        U = self.U(W, Bx, g)
        if self.sr:
            v2 = sum(x * x for x in v)
            il2 = 1 - v2
            pt = P + 0.5 * (b2 * il2 + vb * vb)
            f = [U[:, 0] * v[0]] + [U[:, 1 + a] * v[0] - b[0] * (b[a] * il2 + vb * v[a]) for a in range(3)]
            f[1] = f[1] + pt
            f.append(U[:, 1])
        else:
            pt = P + 0.5 * b2
            f = [d * v[0]] + [d * v[0] * v[a] - b[0] * b[a] for a in range(3)]
            f[1] = f[1] + pt
            if not self.iso:
                f.append((U[:, 4] + pt) * v[0] - b[0] * vb)
        if self.mhd:
            f += [bt[a] * v[0] - b[0] * v[a + 1] for a in range(2)]
        return np.stack(f, axis=1)

    def ptot(self, W, Bx, g):
        d, v, P, bt = self.split(W, g)
        return P + 0.5 * (Bx * Bx + sum(x * x for x in bt))

    def cfast(self, W, Bx, g):
        """Newtonian fast (or sound) speed."""
        d, v, P, bt = self.split(W, g)
        a2 = g * g + 0 * d if self.iso else g * P / d
        if not self.mhd:
            return np.sqrt(a2)
        ct2 = sum(x * x for x in bt) / d
        cx2 = Bx * Bx / d
        return np.sqrt(0.5 * (a2 + ct2 + cx2 + np.sqrt((cx2 + ct2 - a2) ** 2 + 4 * a2 * ct2)))

    def speeds(self, W, Bx, g):
        """Signal speeds (lowest, highest); exact in Newtonian gas and SR hydrodynamics, outer bounds in SR MHD."""
        d, v, P, bt = self.split(W, g)
        if not self.sr:
            c = self.cfast(W, Bx, g)
            return v[0] - c, v[0] + c
        v2 = sum(x * x for x in v)
        h = d + g / (g - 1) * P
        a2 = g * P / h
        if self.mhd:
            b = [Bx + 0 * d] + bt
            vb = sum(x * y for x, y in zip(v, b))
            bb = sum(x * x for x in b) * (1 - v2) + vb ** 2
            va2 = bb / (h + bb)
            a2 = a2 + va2 - a2 * va2
        q = np.sqrt(np.maximum(a2 * (1 - v2) * (1 - v2 * a2 - v[0] ** 2 * (1 - a2)), 0))
        return (v[0] * (1 - a2) - q) / (1 - v2 * a2), (v[0] * (1 - a2) + q) / (1 - v2 * a2)

    def jac(self, W, Bx, g):
        """dF/dU by complex-step differentiation with respect to the primitive variables."""
        n, m = W.shape
        dU, dF = np.empty((n, m, m)), np.empty((n, m, m))
        h = 1e-30
        for k in range(m):
            Z = W.astype(complex)
            Z[:, k] += 1j * h
            dU[:, :, k] = self.U(Z, Bx, g).imag / h
            dF[:, :, k] = self.F(Z, Bx, g).imag / h
        return np.matmul(dF, np.linalg.inv(dU)), dU, dF

    def prim_matrix(self, W, Bx, g):
        """Quasi-linear matrix of the Newtonian equations in primitive variables, from the textbook."""
        d, v, P, bt = self.split(W, g)
        n, m = W.shape
        A = np.zeros((n, m, m))
        for k in range(m):
            A[:, k, k] = v[0]
        A[:, 0, 1] = d
        if self.iso:
            A[:, 1, 0] = g * g / d
        else:
            A[:, 1, 4] = 1 / d
            A[:, 4, 1] = g * P
        if self.mhd:
            for a in range(2):
                A[:, 1, self.iB + a] = bt[a] / d
                A[:, 2 + a, self.iB + a] = -Bx / d
                A[:, self.iB + a, 1] = bt[a]
                A[:, self.iB + a, 2 + a] = -Bx
        return A


# ---- exact hydrodynamic Riemann solution at x/t = 0, Newtonian ----
def _f(p, P, d, g):
    a = np.sqrt(g * P / d)
    with np.errstate(all="ignore"):
        return np.where(p <= P, 2 * a / (g - 1) * ((np.maximum(p, 0) / P) ** ((g - 1) / (2 * g)) - 1), (p - P) * np.sqrt(2 / (d * (g + 1)) / (p + P * (g - 1) / (g + 1))))


def exact_adb(L, R, g):
    """Returns W at x=0 (d, vx, P), star pressure (nan for vacuum), upwind-side flag (True = left material), outermost speeds."""
    dL, uL, pL = L[:, 0], L[:, 1], L[:, 4]
    dR, uR, pR = R[:, 0], R[:, 1], R[:, 4]
    aL, aR = np.sqrt(g * pL / dL), np.sqrt(g * pR / dR)
    vac = 2 * (aL + aR) / (g - 1) <= (uR - uL)
    lo, hi = np.full(len(dL), -700.0), np.log(np.maximum(np.maximum(pL, pR), 1e-300)) + 1
    for _ in range(200):                                   # widen upwards
        bad = _f(np.exp(hi), pL, dL, g) + _f(np.exp(hi), pR, dR, g) + uR - uL < 0
        if not bad.any():
            break
        hi = np.where(bad, hi + 1, hi)
    for _ in range(200):
        m = 0.5 * (lo + hi)
        s = _f(np.exp(m), pL, dL, g) + _f(np.exp(m), pR, dR, g) + uR - uL
        lo, hi = np.where(s < 0, m, lo), np.where(s < 0, hi, m)
    p = np.exp(0.5 * (lo + hi))
    u = 0.5 * (uL + uR) + 0.5 * (_f(p, pR, dR, g) - _f(p, pL, dL, g))
    left = u >= 0
    # mirror so that only the left side needs to be sampled
    d, v, P, a = np.where(left, dL, dR), np.where(left, uL, -uR), np.where(left, pL, pR), np.where(left, aL, aR)
    us = np.where(left, u, -u)
    k = (g - 1) / (g + 1)
    shock = p > P
    S = v - a * np.sqrt((g + 1) / (2 * g) * p / P + (g - 1) / (2 * g))
    dsh = d * (p / P + k) / (k * p / P + 1)
    dra = d * (p / P) ** (1 / g)
    head, tail = v - a, us - a * (p / P) ** ((g - 1) / (2 * g))
    t = 2 / (g + 1) + (g - 1) / ((g + 1) * a) * v
    fan = (~shock) & (head < 0) & (tail >= 0)
    up = np.where(shock, S >= 0, head >= 0)
    with np.errstate(all="ignore"):
        D = np.where(up, d, np.where(fan, d * t ** (2 / (g - 1)), np.where(shock, dsh, dra)))
        V = np.where(up, v, np.where(fan, 2 / (g + 1) * (a + (g - 1) / 2 * v), us))
        Q = np.where(up, P, np.where(fan, P * t ** (2 * g / (g - 1)), p))
    return D, np.where(left, V, -V), Q, np.where(vac, np.nan, p), left


def exact_iso(L, R, c):
    dL, uL, dR, uR = L[:, 0], L[:, 1], R[:, 0], R[:, 1]

    def f(x, d):
        return np.where(x <= d, c * np.log(x / d), c * (x - d) / np.sqrt(x * d))
    lo, hi = np.full(len(dL), -700.0), np.log(np.maximum(dL, dR)) + 1
    for _ in range(400):
        bad = f(np.exp(hi), dL) + f(np.exp(hi), dR) + uR - uL < 0
        if not bad.any():
            break
        hi = np.where(bad, hi + 1, hi)
    for _ in range(200):
        m = 0.5 * (lo + hi)
        s = f(np.exp(m), dL) + f(np.exp(m), dR) + uR - uL
        lo, hi = np.where(s < 0, m, lo), np.where(s < 0, hi, m)
    x = np.exp(0.5 * (lo + hi))
    u = 0.5 * (uL + uR) + 0.5 * (f(x, dR) - f(x, dL))
    left = u >= 0
    d, v, us = np.where(left, dL, dR), np.where(left, uL, -uR), np.where(left, u, -u)
    shock = x > d
    S = v - c * np.sqrt(x / d)
    up = np.where(shock, S >= 0, v - c >= 0)
    fan = (~shock) & (v - c < 0) & (us - c >= 0)
    D = np.where(up, d, np.where(fan, d * np.exp(np.minimum((v - c) / c, 0)), x))
    V = np.where(up, v, np.where(fan, c, us))
    return D, np.where(left, V, -V), x, left


# ---- special-relativistic hydrodynamics with tangential motion (Pons, Marti & Mueller 2000), ideal gas ----
_GX, _GW = np.polynomial.legendre.leggauss(24)


def _srh(W, g):
    d, vx, vt, P = W[:, 0], W[:, 1], np.hypot(W[:, 2], W[:, 3]), W[:, 4]
    h = 1 + g / (g - 1) * P / d
    lor = 1 / np.sqrt(1 - vx ** 2 - vt ** 2)
    return d, vx, vt, P, h, lor


def _sr_shock(W, g, p, sgn):
    """Behind a shock of pressure p facing sgn: density, normal velocity, shock speed."""
    d, vx, vt, P, h, lor = _srh(W, g)
    r = (p - P) / p
    # Taub adiabat: h*^2 - h^2 = (h/d + h*/d*)(p - P) with h* = 1 + g/(g-1) p/d*
    k = (g - 1) / g
    A = 1 - k * r
    B = k * r
    C = -(h * h + h * (p - P) / d)
    hs = (-B + np.sqrt(np.maximum(B * B - 4 * A * C, 0))) / (2 * A)
    ds = g / (g - 1) * p / (hs - 1)
    with np.errstate(all="ignore"):
        j2 = (p - P) / (h / d - hs / ds)
        weak = abs(p - P) < 1e-9 * P
        j = np.sqrt(np.maximum(np.where(weak, 1.0, j2), 0))
        D2 = (d * lor) ** 2
        vs = (D2 * vx + sgn * j * np.sqrt(j * j + D2 * (1 - vx * vx))) / (D2 + j * j)
        ls = 1 / np.sqrt(1 - vs * vs)
        J = sgn * j
        v = (h * lor * vx + ls * (p - P) / J) / (h * lor + (p - P) * (ls * vx / J + 1 / (d * lor)))
    c2 = g * P / (d * h)
    v2 = vx ** 2 + vt ** 2
    xi = (vx * (1 - c2) + sgn * np.sqrt(c2) * np.sqrt((1 - v2) * (1 - v2 * c2 - vx * vx * (1 - c2)))) / (1 - v2 * c2)
    return np.where(weak, d, ds), np.where(weak, vx, v), np.where(weak, xi, vs)


def _sr_raref(W, g, p, sgn):
    d, vx, vt, P, h, lor = _srh(W, g)
    A = h * lor * vt
    # quadrature in log p
    lp0, lp1 = np.log(P), np.log(p)
    tot = 0 * P
    for x, w in zip(_GX, _GW):
        q = np.exp(0.5 * (lp0 + lp1) + 0.5 * (lp1 - lp0) * x)
        dq = d * (q / P) ** (1 / g)
        hq = 1 + g / (g - 1) * q / dq
        c2 = g * q / (dq * hq)
        tot = tot + w * q * np.sqrt(hq ** 2 + A ** 2 * (1 - c2)) / ((hq ** 2 + A ** 2) * dq * np.sqrt(c2))
    tot *= 0.5 * (lp1 - lp0)
    v = np.tanh(np.arctanh(vx) + sgn * tot)
    return d * (p / P) ** (1 / g), v


def _sr_vt(W, g, dstar, p, v):
    """Magnitude of the tangential velocity behind a wave: h W vt is conserved."""
    d, vx, vt, P, h, lor = _srh(W, g)
    A = h * lor * vt
    hs = 1 + g / (g - 1) * p / dstar
    return A * np.sqrt((1 - v * v) / (hs * hs + A * A))


def _sr_wave(W, g, p, sgn):
    ds, vs, _ = _sr_shock(W, g, p, sgn)
    dr, vr = _sr_raref(W, g, np.minimum(p, W[:, 4]), sgn)
    sh = p > W[:, 4]
    return np.where(sh, ds, dr), np.where(sh, vs, vr)


def _sr_xi(W, g, d, p, v, sgn):
    vt = _sr_vt(W, g, d, p, v)
    h = 1 + g / (g - 1) * p / d
    c2 = g * p / (d * h)
    v2 = v * v + vt * vt
    return (v * (1 - c2) + sgn * np.sqrt(c2) * np.sqrt(np.maximum((1 - v2) * (1 - v2 * c2 - v * v * (1 - c2)), 0))) / (1 - v2 * c2)


def exact_srh(L, R, g):
    """State at x/t = 0: (W[n,5], p*, v*, smallest distance of a wave boundary from x/t = 0, left of contact)."""
    lo = np.log(np.minimum(L[:, 4], R[:, 4]) * 1e-6)
    hi = np.log(np.maximum(L[:, 4], R[:, 4]) * 1e4)
    for _ in range(60):
        m = 0.5 * (lo + hi)
        f = _sr_wave(L, g, np.exp(m), -1)[1] - _sr_wave(R, g, np.exp(m), 1)[1]      # decreasing in p
        lo, hi = np.where(f > 0, m, lo), np.where(f > 0, hi, m)
    p = np.exp(0.5 * (lo + hi))
    dl, vl = _sr_wave(L, g, p, -1)
    dr, vr = _sr_wave(R, g, p, 1)
    v = 0.5 * (vl + vr)
    out = np.zeros_like(L)
    near = abs(v)
    left = v >= 0
    for side, W, sgn, ds in ((left, L, -1, dl), (~left, R, 1, dr)):
        sh = p > W[:, 4]
        vs = _sr_shock(W, g, p, sgn)[2]
        head = _sr_xi(W, g, W[:, 0], W[:, 4], W[:, 1], sgn)
        tail = _sr_xi(W, g, ds, p, v, sgn)
        q = p.copy()
        # inside the fan: bisection for the pressure where xi = 0
        a, b = np.log(W[:, 4]), np.log(np.minimum(p, W[:, 4]))
        for _ in range(50):
            m = 0.5 * (a + b)
            dm, vm = _sr_raref(W, g, np.exp(m), sgn)
            x = _sr_xi(W, g, dm, np.exp(m), vm, sgn)
            same = (x > 0) == (head > 0)
            a, b = np.where(same, m, a), np.where(same, b, m)
        fan = (~sh) & (head * tail < 0)
        df, vf = _sr_raref(W, g, np.exp(0.5 * (a + b)), sgn)
        out_side = np.where(sh, sgn * vs < 0, sgn * head < 0)
        P = np.where(out_side, W[:, 4], np.where(fan, np.exp(0.5 * (a + b)), p))
        D = np.where(out_side, W[:, 0], np.where(fan, df, ds))
        V = np.where(out_side, W[:, 1], np.where(fan, vf, v))
        vt0 = np.hypot(W[:, 2], W[:, 3])
        vt = np.where(out_side, vt0, _sr_vt(W, g, D, P, V))
        k = np.where(vt0 > 0, vt / np.where(vt0 > 0, vt0, 1), 0)
        S = np.stack([D, V, W[:, 2] * k, W[:, 3] * k, P], 1)
        out = np.where(side[:, None], S, out)
        near = np.minimum(near, np.where(side, np.where(sh, abs(vs), np.minimum(abs(head), abs(tail))), near))
    return out, p, v, near, left
