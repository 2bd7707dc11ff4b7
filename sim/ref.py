"""Independent reference model of the slab (first-order equilibrium form), used as the oracle.

State y = [u, w, psi, N, V, M].  Deliberately written from the mechanics, not from the code:
    tau = kt (u + h/2 psi - t/2 w'),   w' = V/kA55 - psi,   [N M] = ABD [u' psi']
    N' = tau - (qt + pt),  V' = kn w - (qn + pn),  M' = V + (h+t)/2 tau + h/2 pt - zs qt
Boundary value problems are solved by multiple shooting (one small expm per sub-element and one
banded solve), so long segments are well conditioned.
"""
import math

import numpy as np
from scipy.linalg import solve_banded as _solve_banded
from scipy.linalg import expm as _expm_maybe

from sim import seams


def _expm(A):
    f = seams.raw.get("scipy.linalg.expm", _expm_maybe)
    return f(A)


def _solve(A, b):
    f = seams.raw.get("numpy.linalg.solve", np.linalg.solve)
    return f(A, b)


PROFILES = {"a": "hms", "b": "smh", "c": "hsh", "d": "shs", "e": "hss", "f": "ssh", "h": "mmm",
            "soft": "sss", "medium": "mmm", "hard": "hhh"}
_LAY = {"s": (180.0, 120.0, 5.0), "m": (270.0, 120.0, 30.0), "h": (350.0, 120.0, 93.8)}


class Slab:
    """Configuration in force -> mechanical constants."""

    def __init__(self, cfg):
        lay = cfg["layers"]
        nu = cfg["nu_s"]
        if isinstance(lay, str):
            key = lay.split()[-1].lower()
            rows = [(240.0, 200.0, 5.23)] if key == "comp" else [_LAY[c] for c in PROFILES[key]]
        else:
            rows = [(r, h, cfg["C0"] * 1e3 * (r / 917) ** cfg["C1"]) for r, h in lay]
        self.rows = [(float(r), float(h), float(E), E / (2 * (1 + nu)), float(nu)) for r, h, E in rows]
        self.h = h = sum(r[1] for r in self.rows)
        z = -h / 2
        A = B = D = S = m = mz = 0.0
        self.zl = []
        for rho, hi, E, G, nu_ in self.rows:
            a, b = z, z + hi
            Q = E / (1 - nu_ ** 2)
            A += Q * (b - a)
            B += Q * (b ** 2 - a ** 2) / 2
            D += Q * (b ** 3 - a ** 3) / 3
            S += 5 / 6 * G * (b - a)
            m += rho * 1e-12 * hi
            mz += rho * 1e-12 * hi * (a + b) / 2
            self.zl.append((a, b))
            z = b
        self.A11, self.B11, self.D11, self.kA55 = A, B, D, S
        self.zs = mz / m
        self.mass = m
        self.t = cfg["t"]
        Ew, nuw = cfg["E"], cfg["nu_w"]
        self.kn = Ew / (1 - nuw ** 2) / self.t
        self.kt = Ew / (2 * (1 + nuw)) / self.t
        self.p = cfg["p"]
        self.g = cfg.get("g", 9810)
        self.lski = cfg.get("lski", 1000)

    def clone(self, **kw):
        o = object.__new__(Slab)
        o.__dict__.update(self.__dict__)
        o.__dict__.update(kw)
        return o

    def loads(self, phi):
        f = math.radians(phi)
        q = self.mass * self.g
        return (q * math.cos(f), -q * math.sin(f), self.p * math.cos(f), -self.p * math.sin(f))

    def skier(self, m, phi):
        f = math.radians(phi)
        F = 1e-3 * m * self.g / self.lski
        return F * math.cos(f), -F * math.sin(f)

    def wedge(self, phi):
        """Normal, moment, shear end loads from the wedge between normal and vertical face."""
        f = math.radians(phi)
        tan = math.tan(f)
        W = Mx = Mz = 0.0
        for (a, b), row in zip(self.zl, self.rows):
            rho = row[0] * 1e-12
            H2 = self.h / 2
            s1, s0 = H2 - a, H2 - b          # distance to bottom, s1 > s0
            i1 = (s1 ** 2 - s0 ** 2) / 2
            i2 = (s1 ** 3 - s0 ** 3) / 3
            W += rho * tan * i1
            Mx += rho * tan ** 2 / 2 * i2
            Mz += rho * tan * (H2 * i1 - i2)
        g = self.g
        return (-g * W * math.sin(f), -g * (Mx * math.cos(f) + Mz * math.sin(f)), g * W * math.cos(f))

    def rhs_matrix(self, bed, phi, kscale=1.0, loads=True):
        """Augmented 7x7 system matrix of y' = A y + b (last state = 1)."""
        kn, kt = (self.kn * kscale, self.kt * kscale) if bed else (0.0, 0.0)
        A11, B11, D11, S, h, t = self.A11, self.B11, self.D11, self.kA55, self.h, self.t
        det = A11 * D11 - B11 ** 2
        qn, qt, pn, pt = self.loads(phi) if loads else (0, 0, 0, 0)
        M = np.zeros((7, 7))
        # u' , w' , psi'
        M[0, 3], M[0, 5] = D11 / det, -B11 / det
        M[1, 4], M[1, 2] = 1 / S, -1
        M[2, 3], M[2, 5] = -B11 / det, A11 / det
        # tau = kt (u + h/2 psi - t/2 (V/S - psi))
        tau = np.zeros(7)
        tau[0], tau[2], tau[4] = kt, kt * (h / 2 + t / 2), -kt * t / 2 / S
        M[3] = tau
        M[3, 6] -= qt + pt
        M[4, 1] = kn
        M[4, 6] = -(qn + pn)
        M[5] = (h + t) / 2 * tau
        M[5, 4] += 1
        M[5, 6] += h / 2 * pt - self.zs * qt
        return M

    def rate(self, bed, kscale=1.0):
        """Largest spatial rate of the homogeneous problem."""
        A = self.rhs_matrix(bed, 0, kscale, loads=False)[:6, :6]
        f = seams.raw.get("numpy.linalg.eigvals", np.linalg.eigvals)
        return max(1e-6, float(np.max(np.abs(f(A)))))

    # --- conversions -------------------------------------------------------------------
    def y2z(self, y):
        """y (6xn) -> code convention z = [u, u', w, w', psi, psi']."""
        det = self.A11 * self.D11 - self.B11 ** 2
        du = (self.D11 * y[3] - self.B11 * y[5]) / det
        dp = (-self.B11 * y[3] + self.A11 * y[5]) / det
        dw = y[4] / self.kA55 - y[2]
        return np.array([y[0], du, y[1], dw, y[2], dp])

    def z2y(self, z):
        return np.array([z[0], z[2], z[4], self.A11 * z[1] + self.B11 * z[5],
                         self.kA55 * (z[3] + z[4]), self.B11 * z[1] + self.D11 * z[5]])

    def far_field(self, phi):
        """Undisturbed state of an infinitely extended bedded slab."""
        qn, qt, pn, pt = self.loads(phi)
        w = (qn + pn) / self.kn
        tau = qt + pt
        # M' = 0: V = -( (h+t)/2 tau + h/2 pt - zs qt )
        V = -((self.h + self.t) / 2 * tau + self.h / 2 * pt - self.zs * qt)
        psi = V / self.kA55
        u = tau / self.kt - self.h / 2 * psi
        return np.array([u, w, psi, 0.0, V, 0.0])


class Solution:
    """Reference solution on sub-element nodes."""

    def __init__(self, slab, x, y, seg):
        self.slab, self.x, self.y, self.seg = slab, x, y, seg

    def z(self):
        return self.slab.y2z(self.y)


def solve_bvp(slab, phi, li, mi, ki, left, right, kscale=1.0, loads=True, per=1.0, counts=None):
    """
    left/right: (B, b) with B (3x6) and b (3): B y = b at the ends.
    Zero-length segments are skipped, but point loads are kept.
    """
    A = {}
    nodes_x, nodes_seg = [0.0], [0]
    T = []          # transfer matrices
    J = []          # load jumps at the start of each element
    x0 = 0.0
    pend = np.zeros(6)
    first = True
    for i, l in enumerate(li):
        if i > 0:
            m = mi[i - 1]
            if m:
                Fn, Ft = slab.skier(m, phi)
                # equilibrium across a point load on the top surface
                pend = pend + np.array([0, 0, 0, -Ft, -Fn, Ft * slab.h / 2])
        if l == 0:
            continue
        bed = bool(ki[i])
        if bed not in A:
            A[bed] = (slab.rhs_matrix(bed, phi, kscale, loads), slab.rate(bed, kscale))
        M, rate = A[bed]
        if counts:
            n = counts[i]
        elif bed:
            n = max(4, int(math.ceil(l * rate / per)))
        else:
            n = 8
        E = _expm(M * (l / n))
        for j in range(n):
            T.append(E)
            J.append(pend)
            pend = np.zeros(6)
            nodes_x.append(x0 + l * (j + 1) / n)
            nodes_seg.append(i)
        x0 += l
    n = len(T)
    # unknowns y_0..y_n (value at the left of a possible jump); y_{k+1} = T (y_k + J_k)
    # scaling to balance displacement and force unknowns
    s = np.array([1.0, 1.0, 1e-2, 1.0, 1.0, 1e2])
    N = 6 * (n + 1)
    kl, ku = 8, 11
    ab = np.zeros((kl + ku + 1, N))
    rhs = np.zeros(N)

    def put(r, c, v):
        ab[ku + r - c, c] = v
    BL, bL = left
    BR, bR = right
    for r in range(3):
        for c in range(6):
            put(r, c, BL[r, c] * s[c])
        rhs[r] = bL[r]
    for k in range(n):
        E = T[k]
        Es = (E[:6, :6] * s[None, :]) / s[:, None]
        b = (E[:6, :6] @ J[k] + E[:6, 6]) / s
        for r in range(6):
            R = 3 + 6 * k + r
            for c in range(6):
                put(R, 6 * k + c, -Es[r, c])
            put(R, 6 * (k + 1) + r, 1.0)
            rhs[R] = b[r]
    for r in range(3):
        R = 3 + 6 * n + r
        for c in range(6):
            put(R, 6 * n + c, BR[r, c] * s[c])
        rhs[R] = bR[r] - BR[r] @ pend      # loads at the very end (zero-length last segment)
    sol = _solve_banded((kl, ku), ab, rhs).reshape(n + 1, 6).T * s[:, None]
    out = Solution(slab, np.array(nodes_x), sol, np.array(nodes_seg))
    out.jumps = np.array(J).T          # load jump at the start of element k
    out.end_jump = pend
    return out


U, W, PSI, N_, V_, M_ = np.eye(6)


def rows(*r):
    return np.array(r)


FREE = (rows(N_, M_, V_), np.zeros(3))


def ends(slab, system, phi, td=None):
    """End conditions of a system type; td = dict(mode, tc, a, td, kR) for touchdown PSTs."""
    if system in ("skier", "skiers"):
        y = slab.far_field(phi)
        bc = (rows(U, W, PSI), y[[0, 1, 2]])
        return bc, bc
    if system in ("vpst-", "-vpst"):
        N, M, V = slab.wedge(phi)
        bc = (rows(N_, M_, V_), np.array([N, M, V]))
        return bc, bc
    if system in ("pst-", "-pst"):
        if td is None or td["mode"] == "A":
            return FREE, FREE
        qn, qt, pn, pt = slab.loads(phi)
        sg = 1 if system == "pst-" else -1
        if td["mode"] == "B":
            tip = (rows(N_, M_, W), np.array([0, 0, td["tc"]]))
        else:
            tip = (rows(N_, M_ + sg * td["kR"] * PSI, W),
                   np.array([sg * (qt + pt) * (td["a"] - td["td"]), 0, td["tc"]]))
        return (FREE, tip) if system == "pst-" else (tip, FREE)
    raise ValueError(system)


def substitute(slab, L, ratio, dof):
    """Stiffness of a free-ended bedded beam of length L against unit moment / force at its end."""
    unit = {"rot": (rows(N_, M_, V_), np.array([0, 1.0, 0])),
            "trans": (rows(N_, M_, V_), np.array([0, 0, 1.0]))}[dof]
    s = solve_bvp(slab, 0.0, [L], [], [True], unit, FREE, kscale=ratio, loads=False)
    return abs(1 / s.y[2 if dof == "rot" else 1, 0])


class Touchdown:
    """Touchdown analysis by the physical conditions on the reduced beam."""

    def __init__(self, slab, L, cf, phi, ratio):
        self.slab, self.L, self.ratio, self.phi = slab, L, ratio, phi
        qn, qt, pn, pt = slab.loads(phi)
        self.q = qn + pn
        self.tc = cf * slab.t - self.q / slab.kn
        self.bs = slab.D11 - slab.B11 ** 2 / slab.A11
        self.ss = slab.kA55
        self._k = {}

    def k(self, L, dof, rested=False):
        key = (L, dof, rested)
        if key not in self._k:
            self._k[key] = substitute(self.slab, L, self.ratio if rested else 1.0, dof)
        return self._k[key]

    def beam(self, x, kR, kN, right, kRr=0.0):
        """Reduced beam of length x on end springs under q. Returns end values (V, M, psi, w, w')."""
        q, bs, ss, s = self.q, self.bs, self.ss, x

        def prop(w0, p0, V0, M0, qq):
            V = V0 - qq * s
            M = M0 + V0 * s - qq * s * s / 2
            psi = p0 + (M0 * s + V0 * s * s / 2 - qq * s ** 3 / 6) / bs
            w = w0 + (V0 * s - qq * s * s / 2) / ss - p0 * s - (
                M0 * s * s / 2 + V0 * s ** 3 / 6 - qq * s ** 4 / 24) / bs
            return np.array([V, M, psi, w])
        B = np.array([prop(*e, 0) for e in np.eye(4)]).T
        b = prop(0, 0, 0, 0, q)
        A, r = [[kN, 0, -1, 0], [0, kR, 0, -1]], [0, 0]
        if right == "free":
            A += [B[0], B[1]]
            r += [-b[0], -b[1]]
        else:
            A += [B[3], B[1] + kRr * B[2]]
            r += [self.tc - b[3], -b[1] - kRr * b[2]]
        A, r = np.array(A), np.array(r, float)
        sc = np.abs(A).max(axis=1)
        col = np.array([1.0, 1e-3, 1.0, 1e3])
        c = _solve(A / sc[:, None] * col, r / sc) * col
        V, M, psi, w = B @ c + b
        return dict(V=V, M=M, psi=psi, w=w, dw=V / ss - psi)

    def f1(self, x):
        """Free tip deflection minus collapse height (increasing in x)."""
        return self.beam(x, self.k(self.L - x, "rot"), self.k(self.L - x, "trans"), "free")["w"] - self.tc

    def f2(self, x):
        """Slope of the slab at the resting tip (positive: still descending)."""
        return self.beam(x, self.k(self.L - x, "rot"), self.k(self.L - x, "trans"), "tip")["dw"]

    def fC(self, x, a):
        return self.beam(x, self.k(self.L - a, "rot"), self.k(self.L - a, "trans"), "tip",
                         self.k(a - x, "rot", True))["dw"]
