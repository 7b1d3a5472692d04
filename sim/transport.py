"""Independent numpy assembly of the shipped 1D transport problems (spectral elements, lumped mass) and numpy mirrors
of the shipped reaction-advection-diffusion systems; nothing here is shared with the code under test."""
import numpy as np


def gll(p):
    """Gauss-Lobatto-Legendre points and weights on [0, 1]: roots of (1-x^2) P_p'"""
    P = np.polynomial.legendre.Legendre.basis(p)
    x = np.concatenate([[-1.0], np.sort(P.deriv().roots().real), [1.0]]) if p > 1 else np.array([-1.0, 1.0])
    w = 2.0 / (p * (p + 1) * P(x) ** 2)
    return (x + 1) / 2, w / 2


def dmat(x):
    """D[q, j] = derivative of the j-th Lagrange polynomial at x_q"""
    n = len(x)
    D = np.zeros((n, n))
    for j in range(n):
        for q in range(n):
            s = 0.0
            for k in range(n):
                if k != j:
                    pr = 1.0 / (x[j] - x[k])
                    for m in range(n):
                        if m not in (j, k):
                            pr *= (x[q] - x[m]) / (x[j] - x[m])
                    s += pr
            D[q, j] = s
    return D


def fields(spec):
    """spatially varying coefficients vel(x), nu(x); periodic in the width of the domain"""
    W, a = float(spec.get("width", 1.0)), float(spec.get("vary", 0.0))
    vel, nu = float(spec.get("vel", 0.5)), float(spec.get("nu", 0.02))
    return (lambda x: vel * (1 + a * np.sin(2 * np.pi * x / W))), (lambda x: nu * (1 + a * np.cos(2 * np.pi * x / W)))


def grid(spec):
    """element boundaries: 2**ref elements, uniform or graded"""
    W, ne = float(spec.get("width", 1.0)), 2 ** int(spec.get("ref", 2))
    return W * (np.arange(ne + 1) / ne) ** float(spec.get("grade", 1.0))


def assemble(p, X, per, velf, nuf, tau):
    """(x, A, Ml, dirichlet index or None); nodes in increasing x, the joint of a periodic mesh last"""
    xi, w = gll(p)
    D = dmat(xi)
    ne = len(X) - 1
    n = ne * p + 1
    A, M = np.zeros((n, n)), np.zeros((n, n))
    x = np.zeros(n)
    for e in range(ne):
        g = e * p + np.arange(p + 1)
        h = X[e + 1] - X[e]
        x[g] = X[e] + h * xi
        vel, nu = velf(x[g]), nuf(x[g])
        up = 0.5 * tau * h * np.sign(vel)      # tau * h / (2 |vel|) * vel
        K = np.einsum("q,qi,qj->ij", w * (nu + up * vel) / h, D, D)
        K -= np.einsum("j,ji->ij", w * vel, D)
        A[np.ix_(g, g)] += K
        M[np.ix_(g, g)] += h * np.diag(w) + np.einsum("j,ji->ij", w * up, D)
    if per:
        T = np.zeros((n, n - 1))
        for i in range(n - 1):
            T[i + 1, i] = 1.0
        T[0, n - 2] = 1.0
        return x[1:], T.T @ A @ T, (T.T @ M @ T).sum(1), None
    A[-1, -1] += velf(x[-1])
    A[0, 0] -= velf(x[0])
    A[0, :], M[0, :] = 0.0, 0.0
    A[0, 0] = M[0, 0] = 1.0
    return x, A, M.sum(1), 0


def order(xs, x):
    """index of each package node in the mirror's numbering, found by position (0 and the width coincide when periodic)"""
    xs = np.asarray(xs)
    W = x[-1]
    d = np.abs(xs[:, None] - x[None, :])
    d = np.minimum(d, np.abs(W - d))  if abs(x[0]) > 1e-12 else d
    k = d.argmin(1)
    assert sorted(k) == list(range(len(x))) and d.min(1).max() < 1e-9 * W, "nodes do not match"
    return k


def space(spec, xs):
    velf, nuf = fields(spec)
    x, A, Ml, bd = assemble(int(spec["p"]), grid(spec), bool(spec.get("per")), velf, nuf, float(spec.get("tau", 0.0)))
    k = order(xs, x)
    return np.asarray(xs), A[np.ix_(k, k)], Ml[k], (None if bd is None else int(np.argmin(xs)))


class NpSem:
    """affine transport: u' = -A u / Ml, inflow value constant (or following the analytic pulse)"""

    def __init__(self, spec, xs):
        self.xs, A, self.Ml, self.bd = space(spec, xs)
        self.n, self.jac, self.ldep, self.x = len(self.xs), "ad", False, 0.0
        self.L = -A / self.Ml[:, None]
        self.A = self.L.copy()
        self.na = spec["model"] == "semna"
        if self.bd is not None:
            self.A[self.bd, :] = 0.0
        self.c = np.zeros(self.n)

    @staticmethod
    def pulse(t):
        """first and second time derivative of exp(-(d / 0.1)^2), d = distance of 0 and 0.3 + t/2 on the unit circle"""
        x = (0.3 + 0.5 * t) % 1.0
        d, s = (x, 0.5) if x <= 0.5 else (1.0 - x, -0.5)
        g = np.exp(-(d / 0.1) ** 2)
        a = -2.0 * d * s / 0.01
        return g * a, g * (a * a - 2.0 * s * s / 0.01)

    def f(self, t, u):
        r = self.A @ u
        if self.na:
            r[self.bd] = self.pulse(t)[0]
        return r

    def J(self, t, u):
        return self.A

    def ft(self, t, u):
        r = np.zeros(self.n)
        if self.na:
            r[self.bd] = self.pulse(t)[1]
        return r

    def l(self, t, u):
        return self.L


LN2 = np.log(2)


def _bat(n, pairs):
    B = np.zeros((n, n))
    for i, j, lam in pairs:
        B[i, i] -= lam
        if j is not None:
            B[j, i] += lam
    return B


BAT = {
    "rad2": _bat(2, [(0, 1, 3e-3), (1, None, 0.03)]),
    "rad3": _bat(3, [(0, 1, 1.0), (1, 2, 100.0), (2, None, 1e-2)]),
    "rad9": _bat(9, [(0, None, 3.0), (1, None, 0.3), (2, None, 0.03), (3, 4, LN2 / 19.0), (4, 5, LN2 / (6.57 * 3600)), (5, 6, LN2 / (9.14 * 3600)),
                     (6, None, LN2 / (1.33e6 * 365 * 24 * 3600)), (7, 8, LN2 / (9.14 * 3600)), (8, None, LN2 / (1.33e6 * 365 * 24 * 3600))]),
}
NSPEC = {"rad2": 2, "rad3": 3, "rad9": 9}


def closed_bat(n, seed):
    r = np.random.RandomState(int(seed) & 0x7FFFFFFF)
    B = np.abs(r.rand(n, n)) * (r.rand(n, n) < 0.6)
    B[1 % n, 0] = max(B[1 % n, 0], 0.3)
    np.fill_diagonal(B, 0.0)
    return B - np.diag(B.sum(0))


class NpRad:
    """reaction-advection-diffusion: the state holds one block of nodes per species"""

    def __init__(self, spec, xs):
        m = spec["model"]
        self.xs, A, self.Ml, self.bd = space(spec, xs)
        self.k = NSPEC[m]
        N = len(self.xs)
        self.n, self.jac, self.ldep, self.x = N * self.k, "ad", False, 0.0
        T = -A / self.Ml[:, None]
        B = closed_bat(self.k, spec["closed"]) if "closed" in spec else BAT[m]
        self.Lm = np.kron(np.eye(self.k), T)
        keep = np.ones((N, self.k))
        if self.bd is not None:
            keep[self.bd, :] = 0.0
        keep = keep.flatten(order="F")
        self.A = keep[:, None] * (self.Lm + np.kron(B, np.eye(N)))
        self.c = np.zeros(self.n)
        x = self.xs
        if m == "rad9":
            # reactor region [0, 1]: fission sources, neutron capture of xenon; off-gas system around x = 4
            flux = np.where((x >= 0) & (x <= 1), np.cos(np.pi * (x - 0.5)), 0.0)
            fis = 1e-4 * np.array([0.01, 0.03, 0.02, 0.18, 0.15, 0, 0, 0, 0])
            self.c = keep * np.outer(flux, fis).flatten(order="F")
            cap = np.zeros((N, 9))
            cap[:, 5] = cap[:, 7] = -9.0e-3 * flux
            prof = 0.5 - 0.5 * np.tanh(10 * (x - 3.8)) * np.tanh(10 * (x - 4.2))
            cap[:, 7] -= 0.16 * prof
            cap[:, 8] -= 0.16 * prof
            self.A = self.A + np.diag(keep * cap.flatten(order="F"))
        self.keep = keep
        self.pairs = {"rad2": [(0, 1, 2.0, 1e-12)], "rad3": [], "rad9": [(5, 7, 1e4, 1e-12), (6, 8, 9e2, 1e-12)]}[m]

    def _ex(self, u):
        un = u.reshape((-1, self.k), order="F")
        for a, b, k, ks in self.pairs:
            ua, ug = un[:, a], un[:, b]
            p = np.clip(ug, 1e-16, None)
            yield a, b, k, ua, ug, p ** (2 / 3.) + ks, np.where(ug > 1e-16, (2 / 3.) * p ** (-1 / 3.), 0.0)

    def f(self, t, u):
        r = self.A @ u + self.c
        N = self.n // self.k
        for a, b, k, ua, ug, s, _ in self._ex(u):
            x = k * s * (ug - ua)
            r[a * N:(a + 1) * N] += self.keep[a * N:(a + 1) * N] * x
            r[b * N:(b + 1) * N] -= self.keep[b * N:(b + 1) * N] * x
        return r

    def J(self, t, u):
        R = self.A.copy()
        N = self.n // self.k
        i = np.arange(N)
        for a, b, k, ua, ug, s, ds in self._ex(u):
            da, dg = -k * s, k * (s + ds * (ug - ua))
            for row, sg in ((a, 1.0), (b, -1.0)):
                kp = self.keep[row * N:(row + 1) * N] * sg
                R[row * N + i, a * N + i] += kp * da
                R[row * N + i, b * N + i] += kp * dg
        return R

    def ft(self, t, u):
        return np.zeros(self.n)

    def l(self, t, u):
        return self.Lm
